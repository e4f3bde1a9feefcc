"""Worker: the Python tapes, rules and their arithmetic."""
import json
import sys

import rust_stuff

rust_stuff.install()


def blocks(span):
    return [[b.color, b.count] for b in span]


def make(t0):
    from tm.tape import Block, Tape
    return Tape([Block(c, n) for c, n in t0[0]], t0[1],
                [Block(c, n) for c, n in t0[2]])


def sig(side):
    return [[c[0], 1] if isinstance(c, tuple) else [c, 0] for c in side]


def tape(job):
    start = make(job['t0'])
    cur = start
    out = []
    for shift, color, skip in job['ops']:
        base = cur if job['seq'] else start
        t = base.clone()
        before = (blocks(base.lspan), base.scan, blocks(base.rspan))
        stepped = t.step(bool(shift), color, bool(skip))
        apart = before == (blocks(base.lspan), base.scan, blocks(base.rspan))
        scan, ls, rs = t.signature
        lc, rc = t.counts
        ll, rl = t.span_lens
        ok = (scan == t.scan and lc == [n for _, n in blocks(t.lspan)]
              and rc == [n for _, n in blocks(t.rspan)]
              and (ll, rl) == (len(t.lspan), len(t.rspan)))
        out.append({
            'shift': shift, 'color': color, 'skip': skip,
            'stepped': stepped, 'l': blocks(t.lspan), 'h': t.scan,
            'r': blocks(t.rspan), 'marks': t.marks, 'blank': int(t.blank),
            'edges': [int(t.at_edge(False)), int(t.at_edge(True))],
            'lsig': sig(ls), 'rsig': sig(rs), 'text': str(t),
            'apart': apart and ok})
        cur = t
    return {'t0': job['t0'], 'seq': job['seq'], 'ops': out}


def enum(job):
    from tm.tape import EnumTape
    t = make(job['t0']).to_enum()
    assert isinstance(t, EnumTape)
    out = []
    for o in job['ops']:
        if o[0] == 's':
            t.step(bool(o[1]), o[2], bool(o[3]))
        else:
            lens = t.tape.span_lens
            if lens[o[1]] == 0:
                continue
            o = ['g', o[1], o[2] % lens[o[1]], 0]
            t.get_count((o[1], o[2]))
        out.append([*o[:4], list(t.offsets), [int(e) for e in t.edges]])
    return {'t0': job['t0'], 'ops': out}


def unrule(rule):
    return [[s, i, 'p', op, 0] if isinstance(op, int) else
            [s, i, 'm', *op] for (s, i), op in rule.items()]


def small(count):
    """The value of a count; formulas only come up for results that fit."""
    val = int(count)
    return val if abs(val) < 2 ** 31 else -2


def apply(job):
    """The colors of the blocks do not matter to a rule."""
    from tm.rules import apply_rule
    left, right = job['before']
    t = make([[[1 + k % 2, n] for k, n in enumerate(left)], 0,
              [[1 + k % 2, n] for k, n in enumerate(right)]])
    if job.get('enum'):
        t = t.to_enum()
    rule = {(s, i): d if k == 'p' else (d, a)
            for s, i, k, d, a in job['rule']}
    times = apply_rule(rule, t)
    bare = t.tape if job.get('enum') else t
    return {'k': 'apply', 'rule': job['rule'], 'before': job['before'],
            'after': [[small(b.count) for b in bare.lspan],
                      [small(b.count) for b in bare.rspan]],
            'times': -1 if times is None else small(times), 'rust': False}


def rule_of(job):
    from tm.rules import make_rule, InfiniteRule, SuspectedRule
    out = {'k': 'make', 'counts': job['counts'], 'rule': [], 'rust': False}
    try:
        rule = make_rule(*(tuple(c) for c in job['counts']))
    except InfiniteRule:
        return {**out, 'result': 'inf'}
    except SuspectedRule:
        return {**out, 'result': 'sus'}
    if rule is None:
        return {**out, 'result': 'none'}
    return {**out, 'result': 'rule', 'rule': unrule(rule)}


OPS = {'apply': apply, 'make': rule_of, 'tape': tape, 'enum': enum}


def handle(job):
    try:
        return {'ok': OPS[job['op']](job)}
    except rust_stuff.RustPanic as exc:
        return {'panic': str(exc)[:300]}
    except Exception as exc:  # pylint: disable=broad-except
        return {'exc': type(exc).__name__, 'msg': str(exc)[:300]}


def main():
    print('ready', flush=True)
    for line in sys.stdin:
        try:
            out = json.dumps(handle(json.loads(line)))
        except TypeError as exc:
            out = json.dumps({'exc': 'TypeError', 'msg': str(exc)[:300]})
        print(out, flush=True)


main()
