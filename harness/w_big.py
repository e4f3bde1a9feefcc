"""Worker: tapes and rules with counts too large to write out."""
import json
import signal
import sys

import rust_stuff

rust_stuff.install()

# pylint: disable=wrong-import-position
import w_num as W  # noqa: E402
import tm.machine as M  # noqa: E402
import tm.rules as R  # noqa: E402
import tm.tape as T  # noqa: E402
from tm import num as N  # noqa: E402

DECLINES = (*W.DECLINES, R.RuleLimit)


class Late(Exception):
    """Time is up."""


def alarm(*_):
    raise Late


signal.signal(signal.SIGALRM, alarm)


def root(n):
    """n as <<root, power>> with the smallest root."""
    for r in range(2, n + 1):
        k, p = 1, r
        while p < n:
            k, p = k + 1, p * r
        if p == n:
            return [r, k]
    return [n, 1]


def check(x, big=60):
    if isinstance(x, int):
        if abs(x) >= 2 ** 250:
            raise W.Outside('long')
        return
    if not W.proper_result(x):
        raise W.Outside('outside')
    if W.size(x) > big or W.terms(x) > 60:
        raise W.Outside('size')


def base_of(xs):
    found = set()
    for x in xs:
        check(x)
        found |= W.bases(x)
    base = found.pop() if len(found) == 1 else 0 if found else 2
    W.BASE[0] = base or 2
    return base


def change(d):
    if isinstance(d, int):
        return {'k': 'p', 'd': d, 'a': 0, 'root': [2, 1], 'ops': []}
    if isinstance(d[0], int):
        if abs(d[0]) > 4000 or abs(d[1]) > 2 ** 20:
            raise W.Outside('long')
        return {'k': 'm', 'd': d[0], 'a': d[1], 'root': root(d[0]), 'ops': []}
    if any(abs(v) > 2 ** 20 for _, v in d):
        raise W.Outside('long')
    return {'k': 'o', 'd': 0, 'a': 0, 'root': [2, 1],
            'ops': [[o, v] for o, v in d]}


def applied(rule, before, after, times):
    """before, after: the counts by position."""
    falling = [before[p] for p, d in rule.items()
               if isinstance(d, int) and d < 0]
    if not all(isinstance(x, int) for x in falling) and any(
            isinstance(x, int) and x >= 1000 for x in falling):
        # formulas are taken to be larger than integers
        raise W.Outside('large integers beside formulas')
    xs = [*before.values(), *after.values(), 1 if times is None else times]
    base = base_of(xs)
    if times is not None and not isinstance(times, int) and any(
            isinstance(d, tuple) and isinstance(d[0], tuple)
            for d in rule.values()):
        raise W.Outside('ops')
    return {'op': 'apply', 'base': base, 'applied': times is not None,
            'times': W.encode(0 if times is None else times),
            'changes': [{**change(d), 'before': W.encode(before[p]),
                         'after': W.encode(after[p])}
                        for p, d in rule.items()]}


def apply(job):
    """A rule, on a tape made for it."""
    spans = [[W.make(c) for c in s] for s in job['counts']]
    for s in spans:
        for c in s:
            if not (isinstance(c, int) and c > 0
                    or not isinstance(c, int) and W.proper(c)
                    and W.positive(c) and W.plain(c)):
                raise W.Outside('outside')
    tape = T.Tape(*((lambda s: [T.Block(1 + k % 2, n)
                                for k, n in enumerate(s)])(s) if x else 0
                    for s, x in ((spans[0], 1), (None, 0), (spans[1], 1))))
    rule = {(s, i): op if isinstance(op, int) else
            tuple(op) if isinstance(op[0], int) else
            tuple(map(tuple, op)) for s, i, op in job['rule']}
    before = {(s, i): c for s in (0, 1) for i, c in enumerate(spans[s])}
    W.SITES.clear()
    times = R.apply_rule(rule, tape)
    after = {p: tape.get_count(p) for p in before}
    for p in before:
        if p not in rule and after[p] is not before[p] \
                and after[p] != before[p]:
            return [[{'op': 'other'}, [], str(rule)]]
    rec = applied(rule, before, after, times)
    return [[rec, sorted(W.SITES), f'{rule} {before} -> {after} ({times})']]


def ints(counts):
    return all(isinstance(c, int) and abs(c) < 2 ** 28
               for cs in counts for s in cs for c in s)


def made(counts, rule):
    """A rule made of four samples."""
    flat = [[c for s in cs for c in s] for cs in counts]
    base = base_of([c for f in flat for c in f])
    where = [(s, i) for s in (0, 1) for i in range(len(counts[0][s]))]
    return {'op': 'make', 'base': base,
            'changes': [{**(change(rule[p]) if p in rule else change(0)),
                         'counts': [W.encode(f[k]) for f in flat]}
                        for k, p in enumerate(where)]}


def make(job):
    samples = []
    for c in job['start']:
        x = W.make(c)
        if isinstance(x, int) or not (W.proper(x) and W.positive(x)):
            raise W.Outside('outside')
        samples.append(x)
    rows = [samples]
    for k in range(1, 4):
        row = []
        for x, ops in zip(rows[-1], job['ops']):
            for op, v in ops:
                x = (x + v if op == '+' else x * v if op == '*' else
                     x // v if op == '//' and x % v == 0 else
                     v ** x if op == '**' else None)
                if x is None:
                    raise W.Outside('inexact')
            row.append(x)
        if job['odd'] and job['odd'][0] == k:
            row[job['odd'][1]] += job['odd'][2]
        rows.append(row)
    counts = [(r[:1], r[1:]) for r in rows]
    W.SITES.clear()
    try:
        rule = R.make_rule(*counts)
    except R.InfiniteRule:
        # nothing falls
        return []
    if rule is None:
        raise W.Outside('none')
    return [[made(counts, rule), sorted(W.SITES), f'{counts} : {rule}']]


def picture(tape):
    tape = getattr(tape, 'tape', tape)
    return ([[b.color, b.count] for b in tape.lspan], tape.scan,
            [[b.color, b.count] for b in tape.rspan])


def written(pic):
    return [[[c, W.encode(n)] for c, n in pic[0]], pic[1],
            [[c, W.encode(n)] for c, n in pic[2]]]


def big(pic):
    return any(not isinstance(n, int) or n >= 2 ** 28
               for s in (pic[0], pic[2]) for _, n in s)


def stepped(before, instr, n, after, marks):
    counts = [n for p in (before, after) for s in (p[0], p[2]) for _, n in s]
    base = base_of([*counts, n, marks])
    shift, color, skip = instr
    return {'op': 'step', 'base': base, 'before': written(before),
            'shift': bool(shift), 'color': color, 'skip': bool(skip),
            'after': written(after), 'n': W.encode(n),
            'marks': W.encode(marks)}


def run(job):
    """What is done with large counts in a run of a program."""
    out, tally = [], {}
    sel = job['every']
    seen = [0, 0]

    def note(rec):
        try:
            out.append([rec(), sorted(W.SITES), job['prog']])
        except W.Outside as exc:
            tally[str(exc)] = tally.get(str(exc), 0) + 1

    def apply_rule(rule, tape, orig=R.apply_rule):
        W.SITES.clear()
        before = {p: tape.get_count(p) for p in rule}
        whole = picture(tape)
        times = orig(rule, tape)
        if big(whole):
            seen[0] += 1
            if seen[0] % sel[0] == 0 and len(out) < job['max']:
                after = {p: tape.get_count(p) for p in rule}
                note(lambda: applied(rule, before, after, times))
        return times

    def step(self, shift, color, skip, orig=T.Tape.step):
        before = picture(self)
        n = orig(self, shift, color, skip)
        if big(before) and type(self) is T.Tape:
            seen[1] += 1
            if seen[1] % sel[1] == 0 and len(out) < job['max']:
                note(lambda: stepped(before, (shift, color, skip), n,
                                     picture(self), self.marks))
        return n

    def make_rule(*counts, orig=R.make_rule):
        W.SITES.clear()
        rule = orig(*counts)
        if rule is not None and not ints(counts) and len(out) < job['max']:
            note(lambda: made(counts, rule))
        return rule

    import tm.prover as P
    swaps = [(where, name, getattr(where, name), new)
             for where, name, new in (
                 (M, 'apply_rule', apply_rule), (P, 'apply_rule', apply_rule),
                 (P, 'make_rule', make_rule), (T.Tape, 'step', step))
             if hasattr(where, name)]
    for where, name, _, new in swaps:
        setattr(where, name, new)
    signal.setitimer(signal.ITIMER_REAL, job['time'], 0.5)
    try:
        M.Machine(job['prog'], **job['opts']).run(sim_lim=job['lim'])
    except (Late, *DECLINES):
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        for where, name, old, _ in swaps:
            setattr(where, name, old)
    return out + [[{'op': 'tally'}, [], [k, v]] for k, v in tally.items()]


OPS = {'apply': apply, 'make': make, 'run': run}


def handle(job):
    try:
        return {'ok': OPS[job['op']](job)}
    except W.Outside as exc:
        return {'ok': [[{'op': 'tally'}, [], [str(exc), 1]]]}
    except (R.RuleLimit, R.UnknownRule, R.SuspectedRule, *W.DECLINES) as exc:
        return {'ok': [[{'op': 'tally'}, [], [type(exc).__name__, 1]]]}
    except rust_stuff.RustPanic as exc:
        return {'panic': str(exc)[:300]}
    except Exception as exc:  # pylint: disable=broad-except
        return {'exc': type(exc).__name__, 'msg': str(exc)[:300]}


def main():
    sys.setrecursionlimit(3000)
    print('ready', flush=True)
    for line in sys.stdin:
        print(json.dumps(handle(json.loads(line))), flush=True)


if __name__ == '__main__':
    main()
