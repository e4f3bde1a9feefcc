"""Worker: programs in, what the real code says about them out."""
import contextlib
import io
import json
import sys

import rust_stuff

rust_stuff.install()

# pylint: disable=wrong-import-position
sys.setrecursionlimit(5000)


def num(x):
    """A count as JSON: int, or None when it is a formula."""
    return x if isinstance(x, int) else None


def machine(job):
    from tm.machine import Machine
    kw = {k: job[k] for k in ('blocks', 'backsym', 'opt_macro')
          if job.get(k) is not None}
    if job.get('params'):
        kw['params'] = tuple(job['params'])
    m = Machine(job['prog'], **kw).run(sim_lim=job['lim'])
    out = {c: getattr(m, c, None) for c in
           ('cfglim', 'infrul', 'limrul', 'spnout', 'undfnd', 'xlimit')}
    if out['undfnd'] is not None:
        out['undfnd'] = [out['undfnd'][0], list(out['undfnd'][1])]
    out.update(steps=m.steps, cycles=m.cycles, marks=num(m.marks),
               rulapp=num(m.rulapp), susrul=m.susrul is not None,
               simple=num(m.simple_termination)
               if m.simple_termination is not None else None,
               blanks=sorted(m.blanks.items()),
               text=str(m)[:2000])
    return out


def parse_tape(text):
    """Rows of Machine.run(watch_tape=True): blocks, or None when a count is
    displayed as something else than a number."""
    left, scan, right = [], None, []
    for tok in text.split():
        if tok.startswith('['):
            scan = int(tok.strip('[]'))
            continue
        color, _, count = tok.partition('^')
        if not color.isdigit() or (count and not count.isdigit()):
            return None
        block = [int(color), int(count or 1)]
        if block[1] > 10 ** 6:
            return None
        (left if scan is None else right).append(block)
    return left[::-1], scan, right


def watch(job):
    from tm.machine import Machine
    m = Machine(job['prog'])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.run(sim_lim=job['lim'], watch_tape=True)
    rows = []
    for line in out.getvalue().splitlines():
        f = [x.strip() for x in line.split('|')]
        tape = parse_tape(f[3])
        if tape is None:
            break
        step = -1 if f[1] == '...' else int(f[1])
        state, scan = rust_stuff.read_slot(f[2])
        assert scan == tape[1]
        rows.append([step, state, tape[0], tape[1], tape[2]])
    return {'rows': rows, 'rulapp': num(m.rulapp),
            'rules': sum(map(len, m.prover.rules.values()))}


def cells_of(tape):
    return [[[b.color, b.count] for b in tape.lspan], tape.scan,
            [[b.color, b.count] for b in tape.rspan]]


def side_sig(side):
    return [[c[0], 1] if isinstance(c, tuple) else [c, 0] for c in side]


def window(entry):
    (scan, lspan, rspan), (lex, rex) = entry
    return [scan, side_sig(lspan), side_sig(rspan), int(lex), int(rex)]


def memory(job):
    """What is put into the prover's memory, and what is taken from it."""
    import tm.machine
    from tm.prover import Prover
    adds, events, most = [], [], job['most']
    seen = set()

    class Noted(Prover):
        def try_rule(self, cycle, state, tape):
            slot = state, tape.scan
            before = len(self.rules.get(slot, []))
            cells = cells_of(tape)
            rule = super().try_rule(cycle, state, tape)
            now = self.rules.get(slot, [])
            for entry, kept in now[before:]:
                adds.append((slot, kept))
                events.append(['add', state, *window(entry), plain(cells),
                               rule_ops(kept)])
            if before or now:
                _, left, right = sig_of(cells)
                if rule is None:
                    got = [0]
                else:
                    got = [k for k, (s, r) in enumerate(adds, 1)
                           if s == slot and r == rule] or [-1]
                ask = ['ask', state, slot[1], side_sig(left),
                       side_sig(right), got]
                if (key := (len(adds), str(ask))) not in seen:
                    seen.add(key)
                    events.append(ask)
            if len(events) >= most:
                raise Enough
            return rule

    class Enough(BaseException):
        pass

    old = tm.machine.Prover
    tm.machine.Prover = Noted
    try:
        tm.machine.Machine(job['prog']).run(sim_lim=job['lim'])
    except Enough:
        pass
    finally:
        tm.machine.Prover = old
    return events


def plain(cells):
    left, scan, right = cells
    return [[[c, num(n)] for c, n in left], scan,
            [[c, num(n)] for c, n in right]]


def past(job):
    """Sightings put to PastConfigs."""
    from tm.rust_stuff import PastConfigs
    pc = PastConfigs(job['q0'], job['n0'])
    out = []
    for op in job['ops']:
        if op[0] == 'drop':
            pc.delete_configs(op[1])
            out.append(op)
        else:
            out.append([*op, list(pc.next_deltas(op[1], op[2]) or ())])
    return [{'q0': job['q0'], 'n0': job['n0'], 'ops': out}]


def sightings(job):
    """Those of a run."""
    import tm.machine
    import tm.prover
    recs = []
    old = tm.prover.PastConfigs

    class Noted:
        def __init__(self, state, cycle):
            self.inner = old(state, cycle)
            self.rec = {'q0': state, 'n0': cycle, 'ops': []}
            recs.append(self.rec)

        def next_deltas(self, state, cycle):
            res = self.inner.next_deltas(state, cycle)
            self.rec['ops'].append(['see', state, cycle, list(res or ())])
            return res

        def delete_configs(self, state):
            self.inner.delete_configs(state)
            self.rec['ops'].append(['drop', state])

    tm.prover.PastConfigs = Noted
    try:
        tm.machine.Machine(job['prog']).run(sim_lim=job['lim'])
    finally:
        tm.prover.PastConfigs = old
    recs.sort(key=lambda r: -len(r['ops']))
    return [r for r in recs[:job['most']] if r['ops']]


def sig_of(cells):
    def side(span):
        return [(c,) if isinstance(n, int) and n == 1 else c for c, n in span]
    return cells[1], side(cells[0]), side(cells[2])


def rule_ops(rule):
    out = []
    for (side, pos), op in rule.items():
        if isinstance(op, int):
            out.append([int(side), pos, 'p', op, 0])
        elif (isinstance(op, tuple) and len(op) == 2
              and all(isinstance(x, int) for x in op)):
            out.append([int(side), pos, 'm', *op])
        else:
            return None
    return out


def proof(job):
    """An accelerated run with all it has learnt."""
    from tm.machine import Machine
    kw = {k: job[k] for k in ('blocks', 'backsym') if job.get(k)}
    m = Machine(job['prog'], **kw).run(sim_lim=job['lim'])
    if job.get('table'):
        return explore(m.program, job['table'])
    kinds = [c for c in ('cfglim', 'infrul', 'limrul', 'spnout', 'undfnd',
                         'xlimit') if getattr(m, c, None) is not None]
    at = getattr(m, kinds[0])
    return {'kinds': kinds,
            'at': [at[0], list(at[1])] if isinstance(at, tuple) else [at],
            'cycles': m.cycles, 'steps': m.steps,
            'rulapp': num(m.rulapp), 'marks': num(m.marks),
            'tape': plain(cells_of(m.tape)),
            'blanks': sorted(map(list, m.blanks.items())),
            'seen': m.prover.config_count,
            'rules': [[q, window(sig), rule_ops(rule)]
                      for (q, _), some in sorted(m.prover.rules.items())
                      for sig, rule in some]}


def fits(job):
    """The prover's memory by itself: put in, asked for."""
    from tm.prover import Prover
    from tm.tape import Block, Tape

    def span(side):
        return tuple((c,) if one else c for c, one in side)
    prover = Prover({})
    out, k = [], 0
    for ev in job['ev']:
        if ev[0] == 'add':
            _, q, h, left, right, lex, rex = ev
            k += 1
            prover.set_rule({(False, 0): k}, q,
                            ((h, span(left), span(right)),
                             (bool(lex), bool(rex))))
            out.append(ev)
            continue
        _, q, h, left, right, way = ev
        tape = Tape([Block(c, 1 if one else 2) for c, one in left], h,
                    [Block(c, 1 if one else 2) for c, one in right])
        if way == 2:
            tape = tape.to_enum()
        got = prover.get_rule(q, tape, tape.signature) if way else \
            prover.get_rule(q, tape)
        out.append([*ev[:5], [0 if got is None else got[False, 0]]])
    return out


def base_table(comp):
    return [[q, h, 'i', c, int(s), t] for (q, h), (c, s, t) in comp.items()]


def macro_line(mac, slot):
    from tm.macro import MacroInfLoop
    try:
        c, s, t = mac[slot]
        return [*slot, 'i', c, int(s), t]
    except KeyError as exc:
        return [*slot, 'u', *exc.args[0]]
    except MacroInfLoop:
        return [*slot, 'l']


def explore(mac, cap):
    """Macro instructions, breadth first from the start slot.  Every line
    comes after one that leads to its state and one that leads to its color."""
    states, colors, lines, done = [0], [0], [], set()
    grown = True
    while grown and len(lines) < cap:
        grown = False
        for q in list(states):
            for c in list(colors):
                if (q, c) in done or len(lines) >= cap:
                    continue
                done.add((q, c))
                line = macro_line(mac, (q, c))
                lines.append(line)
                grown = True
                if line[2] == 'i':
                    if line[5] not in states:
                        states.append(line[5])
                    if line[3] not in colors:
                        colors.append(line[3])
    return lines


def macro_table(job):
    from tm.macro import make_macro
    from tm.parse import tcompile
    prog, k, b = job['prog'], job.get('blocks'), job.get('backsym')
    tab = base_table(tcompile(prog))
    if k and b is not None:
        low = make_macro(prog, blocks=k)
        if 'comp' not in vars(low):
            return None
        # a lower machine's table comes from what the upper one asks of it
        asked = {}

        class Spy:  # pylint: disable=too-few-public-methods
            def __init__(self, inner):
                self.inner = inner

            def __getattr__(self, name):
                return getattr(self.inner, name)

            def __getitem__(self, slot):
                asked[slot] = macro_line(self.inner, slot)
                return self.inner[slot]

        mac = make_macro(prog, blocks=k, backsym=b)
        mac.comp = Spy(low)
        lines = explore(mac, job['cap'])
        if not asked:
            return None
        tab = list(asked.values())
        kind, cells = 'back', b
    else:
        mac = make_macro(prog, blocks=k, backsym=b)
        lines = explore(mac, job['cap'])
        kind, cells = ('block', k) if k else ('back', b)
    return {'tab': tab, 'kind': kind, 'k': cells, 'lines': lines}


def rust_result(r):
    return {
        'result': r.result.name, 'steps': r.steps, 'cycles': r.cycles,
        'marks': r.marks, 'rulapp': r.rulapp,
        'undfnd': r.undfnd and [r.undfnd[0], list(r.undfnd[1])],
        'blanks': sorted(r.blanks.items()), 'simple': r.simple_termination,
        'halted': r.halted, 'infrul': r.infrul, 'spnout': r.spnout,
        'xlimit': r.xlimit, 'cfglim': r.cfglim,
    }


OPS = {
    'memory': memory,
    'proof': proof,
    'past': past,
    'sightings': sightings,
    'fits': fits,
    'watch': watch,
    'macro_table': macro_table,
    'machine': machine,
    'prover': lambda j: rust_result(rust_stuff.run_prover(j['prog'], j['lim'])),
    'quick': lambda j: rust_result(
        rust_stuff.run_quick_machine(j['prog'], j['lim'])),
    'cant_halt': lambda j: rust_stuff.py_cant_halt(j['prog'], j['lim']),
    'cant_blank': lambda j: rust_stuff.py_cant_blank(j['prog'], j['lim']),
    'cant_spin_out': lambda j: rust_stuff.py_cant_spin_out(j['prog'], j['lim']),
    'term_or_rec': lambda j: rust_stuff.py_quick_term_or_rec(
        j['prog'], j['lim']),
    'segment': lambda j: rust_stuff.py_segment_cant_halt(j['prog'], j['lim']),
    'opt_block': lambda j: rust_stuff.py_opt_block(j['prog'], j['lim']),
    'tree': lambda j: sorted(rust_stuff.tree_progs(
        tuple(j['params']), j['halt'], j['lim'])),
    'connected': lambda j: rust_stuff.py_is_connected(j['prog'], j['lim']),
}


def handle(job):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return {'ok': OPS[job['op']](job)}
    except rust_stuff.RustPanic as exc:
        return {'panic': str(exc)[:300]}
    except Exception as exc:  # pylint: disable=broad-except
        return {'exc': type(exc).__name__, 'msg': str(exc)[:300]}


def main():
    print('ready', flush=True)
    for line in sys.stdin:
        print(json.dumps(handle(json.loads(line))), flush=True)


main()
