"""Worker: the tools of the repository, one JSON job per line."""
import contextlib
import io
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import rust_stuff  # noqa: E402
sys.modules['tm.rust_stuff'] = rust_stuff
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
# pylint: disable=wrong-import-position
import tools  # noqa: E402
from tm import parse, show  # noqa: E402
from tools.graph import Graph  # noqa: E402
from tools import normalize as norm  # noqa: E402
from tools.tree_norm import tree_norm  # noqa: E402
from tools.instr_seq import instr_seq  # noqa: E402
from tools.c import make_c  # noqa: E402
from tools.dot import make_dot  # noqa: E402


def instr(i):
    return [] if i is None else [i[0], int(i[1]), i[2]]


def notation(job):
    text, params = job['text'], tuple(job['params'])
    comp = parse.tcompile(text)
    slots = [(q, h) for q in range(params[0]) for h in range(params[1])]
    return {
        'comp': [[q, h, c, int(s), t] for (q, h), (c, s, t) in comp.items()],
        'shown': show.show_comp(comp, params),
        'default': show.show_comp(comp),
        'parsed': [[instr(i) for i in row] for row in tools.parse(text)],
        'params': list(tools.get_params(text)),
        'expanded': norm.expand(job['compact']),
        'slots': [show.show_slot(s) for s in slots],
        'slotsback': [list(parse.read_slot(show.show_slot(s))) for s in slots],
        'instrs': [show.show_instr(comp.get(s)) for s in slots],
        'instrsback': [instr(rust_stuff.read_instr(
            show.show_instr(comp.get(s)))) for s in slots],
        'states': [show.show_state(q) for q in range(params[0])],
        'nostate': show.show_state(None),
        'normshown': str(norm.Normalizer(text)),
        'init': norm.init_prog(*params),
    }


def graph(job):
    g = Graph(job['prog'])
    return {
        'flat': str(g),
        'exits': [sorted(g.exit_points[q]) for q in g.states],
        'entries': [sorted(g.entry_points[q]) for q in g.states],
        'normal': bool(g.is_normal),
        'connected': bool(g.is_connected),
        'rconnected': bool(rust_stuff.py_is_connected(
            job['prog'], len(g.states))),
        'reflexive': sorted(g.reflexive_states),
        'zreflexive': sorted(g.zero_reflexive_states),
        'irrefl': bool(g.is_irreflexive),
        'zrefl': bool(g.is_zero_reflexive),
        'edisp': bool(g.entries_dispersed),
        'xdisp': bool(g.exits_dispersed),
        'disp': bool(g.is_dispersed),
        'simple': bool(g.is_simple),
        'reduced': sorted([q, sorted(c)] for q, c in g.reduced.items()),
    }


def sequence(job):
    out = []
    for partial, step, slot in instr_seq(job['prog']):
        out.append([partial, step, list(slot)])
    return out


OPS = {
    'notation': notation,
    'graph': graph,
    'normalize': lambda j: norm.normalize(j['prog']),
    'tree_norm': lambda j: tree_norm(j['prog']),
    'instr_seq': sequence,
    'make_c': lambda j: make_c(j['prog']),
    'make_dot': lambda j: make_dot(j['prog']),
}


def handle(job):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return {'ok': OPS[job['op']](job)}
    except rust_stuff.RustPanic as exc:
        return {'panic': str(exc)[:300]}
    except Exception as exc:  # pylint: disable=broad-except
        return {'exc': type(exc).__name__, 'msg': str(exc)[:300]}


def main():
    print('ready', flush=True)
    for line in sys.stdin:
        print(json.dumps(handle(json.loads(line))), flush=True)


main()
