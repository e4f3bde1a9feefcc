"""A `tm.rust_stuff` backed by the real Rust code (see build.py).

install() registers it in sys.modules, after which /repo's Python imports it
as if it were the compiled extension module.
"""
import ctypes
import enum
import sys
import types

import build

_lib = None


class RustPanic(BaseException):
    """What pyo3 would raise as PanicException (also a BaseException)."""


def load(inner=None):
    global _lib  # pylint: disable=global-statement
    if _lib is None or (inner and not hasattr(_lib, '_inner')):
        _lib = ctypes.CDLL(build.build_rust(inner))
        names = ['vcore_call'] + (['vinner_call'] if inner else [])
        for n in names:
            f = getattr(_lib, n)
            f.restype = ctypes.c_void_p
            f.argtypes = [ctypes.c_char_p, ctypes.c_size_t,
                          ctypes.POINTER(ctypes.c_size_t)]
        _lib.vfree.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        _lib.vquiet()
        if inner:
            _lib._inner = True
    return _lib


def _raw(fn, *args):
    lib = load()
    line = '\t'.join(map(str, args)).encode()
    n = ctypes.c_size_t()
    p = getattr(lib, fn)(line, len(line), ctypes.byref(n))
    out = ctypes.string_at(p, n.value).decode()
    lib.vfree(p, n.value)
    if out[0] == '!':
        raise RustPanic(out[1:])
    return out[1:]


def call(*args):
    return _raw('vcore_call', *args)


def inner_call(*args):
    return _raw('vinner_call', *args)


def _int(s):
    return None if s == '-' else int(s)


def _tup(s):
    return None if s == '-' else tuple(map(int, s.split(',')))


def _instr(s):
    if s == '-':
        return None
    c, sh, st = map(int, s.split(','))
    return c, sh == 1, st


def _instr_s(i):
    return '-' if i is None else f'{i[0]},{int(i[1])},{i[2]}'


def tcompile(prog):
    out = call('tcompile', prog)
    comp = {}
    for e in filter(None, out.split(';')):
        k, v = e.split(':')
        comp[_tup(k)] = _instr(v)
    return comp


def py_show_comp(comp, params=None):
    s = ';'.join(f'{k[0]},{k[1]}:{_instr_s(v)}' for k, v in comp.items())
    return call('show_comp', s, '-' if params is None
                else f'{params[0]},{params[1]}')


def _u64(n):
    if not 0 <= n < 2 ** 64:
        raise OverflowError('int too big to convert')


def show_state(state):
    if state is not None:
        _u64(state)
    return call('show_state', '-' if state is None else int(state))


def show_slot(slot):
    for n in slot:
        _u64(n)
    return call('show_slot', f'{slot[0]},{slot[1]}')


def read_slot(s):
    return _tup(call('read_slot', s))


def show_instr(instr):
    return call('show_instr', _instr_s(instr))


def read_instr(s):
    return _instr(call('read_instr', s))


def py_cant_halt(prog, depth):
    return _int(call('cant_halt', prog, depth))


def py_cant_blank(prog, depth):
    return _int(call('cant_blank', prog, depth))


def py_cant_spin_out(prog, depth):
    return _int(call('cant_spin_out', prog, depth))


def py_is_connected(prog, states):
    return call('is_connected', prog, states) == '1'


def py_opt_block(prog, steps):
    return int(call('opt_block', prog, steps))


def py_quick_term_or_rec(prog, sim_lim):
    return call('quick', prog, sim_lim) == '1'


def py_segment_cant_halt(prog, segs):
    return _int(call('segment', prog, segs))


def tree_progs(params, halt, sim_lim):
    out = call('tree', params[0], params[1], int(halt), sim_lim)
    return out.split('\n') if out else []


class TermRes(enum.Enum):
    # pylint: disable=invalid-name
    xlimit = 0
    cfglim = 1
    infrul = 2
    spnout = 3
    undfnd = 4
    mulrul = 5


class MachineResult:
    def __init__(self, text):
        f = text.split('|')
        self.result = TermRes[f[0]]
        self.steps, self.cycles, self.marks, self.rulapp = map(int, f[1:5])
        und = _tup(f[5])
        self.undfnd = None if und is None else (und[0], und[1:])
        self.blanks = {int(k): int(v) for k, v in
                       (e.split(':') for e in filter(None, f[6].split(',')))}
        (self.simple_termination, self.halted, self.infrul, self.spnout,
         self.xlimit, self.cfglim) = map(_int, f[7:13])


def run_prover(prog, sim_lim=100_000_000):
    return MachineResult(call('run_prover', prog, sim_lim))


def run_quick_machine(prog, sim_lim=100_000_000):
    return MachineResult(call('run_quick', prog, sim_lim))


class PastConfigs:
    def __init__(self, state, cycle):
        self._id = int(call('past_new', int(state), cycle))

    def next_deltas(self, state, cycle):
        return _tup(call('past_next', self._id, int(state), cycle))

    def delete_configs(self, state):
        call('past_delete', self._id, int(state))

    def __del__(self):
        try:
            call('past_free', self._id)
        except Exception:  # pylint: disable=broad-except
            pass


def install(inner=None):
    load(inner)
    mod = types.ModuleType('tm.rust_stuff')
    for k, v in globals().items():
        if not k.startswith('_') and k not in (
                'build', 'ctypes', 'enum', 'sys', 'types', 'install', 'load',
                'call', 'inner_call', 'RustPanic'):
            setattr(mod, k, v)
    sys.modules['tm.rust_stuff'] = mod
    if build.REPO not in sys.path:
        sys.path.insert(0, build.REPO)
    sys.dont_write_bytecode = True
    return mod
