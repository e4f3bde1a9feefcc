"""C32: what the prover proves and answers is what its method gives."""
import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib

# the words of the specification in those of the two implementations
PY = {'infinite': 'infrul', 'blank': 'infrul', 'loop': 'infrul'}
RS = {'infinite': 'infrul', 'blank': 'infrul', 'times': 'mulrul'}


def rules_of(mem):
    """As <<state, window, differences>>, by slot and then as proved."""
    out = [[q, [h, [[c, int(one)] for c, one in left],
                [[c, int(one)] for c, one in right], int(le), int(re)],
            sorted([side, pos - 1, 'p', d, 0] for side, pos, d in rule)]
           for q, h, left, right, le, re, rule in mem]
    return sorted(out, key=lambda r: (r[0], r[1][0]))


def macros(chk, rng, ps):
    """Tables of macro machines, as they are numbered in their runs."""
    jobs = []
    for p in ps:
        kw = rng.choice(({'blocks': 2}, {'blocks': 2}, {'blocks': 3},
                         {'backsym': 1}, {'backsym': 2},
                         {'blocks': 2, 'backsym': 1}))
        jobs.append({'op': 'proof', 'prog': p, 'lim': 300, 'table': 500,
                     **kw})
    out = []
    for job, r in zip(jobs, vlib.workers('w_tm.py', jobs, timeout=60)):
        if 'ok' not in r:
            if 'exc' in r:
                chk.violation('macro: it breaks down', [job, r])
            continue
        lines = r['ok']
        rows = 1 + max(x for q, _, *i in lines
                       for x in (q, i[3] if i[0] == 'i' else 0))
        cols = 1 + max(x for _, h, *i in lines
                       for x in (h, i[1] if i[0] == 'i' else 0))
        if rows * cols > 4000:
            continue
        tab = [[[-2, 0, 0]] * cols for _ in range(rows)]
        slots = {}
        for q, h, *ins in lines:
            tab[q][h] = ins[1:] if ins[0] == 'i' else \
                [-1, 0, 0] if ins[0] == 'l' else []
            if ins[0] == 'u':
                slots[q, h] = ins[1:]
        out.append((job, tab, slots))
    return out


def python_wrong(model, got, ended, slots):
    kind, cycle, q, tape, marks, steps, alone, rulapp, blanks, seen, mem = \
        model
    want = PY.get(kind, kind) if ended else 'xlimit'
    if got['kinds'] != [want]:
        return f'it ends with {got["kinds"]}, not {want}'
    if got['at'] != [steps if alone else -1, *(
            [slots.get((q, tape[1]), [q, tape[1]])]
            if want == 'undfnd' else [])]:
        return 'it ends at another step or slot'
    if got['cycles'] != (cycle if ended else cycle - 1):
        return 'it ends in another cycle'
    if got['steps'] != (steps if alone else -1):
        return 'the steps differ'
    if got['rulapp'] != rulapp:
        return 'rules are used another number of times'
    if got['marks'] != marks or got['tape'] != tape:
        return 'the tape differs'
    if got['blanks'] != sorted([q, n if one else -1] for q, n, one in blanks):
        return 'what is noted of blank tapes differs'
    if got['seen'] != seen:
        return 'another number of signatures was seen'
    rules = [[q, w, sorted(ops or [])] for q, w, ops in got['rules']]
    if rules != rules_of(mem):
        return 'other rules are proved, or for other tapes'
    return ''


def rust_wrong(model, got, ended, _):
    kind, cycle, q, tape, marks, steps, _, rulapp, blanks, _, _ = model
    want = RS.get(kind, kind) if ended else 'xlimit'
    if got['result'] != want:
        return f'it ends with {got["result"]}, not {want}'
    if ended and kind != 'blank' and got['cycles'] != cycle:
        return 'it ends in another cycle'
    if got['steps'] != steps:
        return 'the steps differ'
    for name in ('infrul', 'spnout', 'xlimit', 'cfglim', 'halted'):
        if got[name] != (steps if name == want.replace('undfnd', 'halted')
                         else None):
            return f'{name} is {got[name]}'
    if got['undfnd'] != ([steps, [q, tape[1]]] if want == 'undfnd' else None):
        return 'the undefined slot differs'
    if got['rulapp'] != rulapp:
        return 'rules are used another number of times'
    if got['marks'] != marks:
        return 'the marks differ'
    if [list(b) for b in got['blanks']] != sorted([b[0], b[1]]
                                                  for b in blanks):
        return 'what is noted of blank tapes differs'
    return ''


def body(chk):
    rng = progs.rng_for('C32', vlib.SEED)
    ps = progs.proving(rng, vlib.pick(400, 1500))
    ps += [progs.mutate(rng, p) for p in
           progs.proving(rng, vlib.pick(200, 1000))]
    for n, some in ((80, progs.corpus(6, 6)), (40, progs.algebra())):
        ps += rng.sample(some, min(len(some), vlib.pick(n, 4 * n)))
    for kind in ('undfnd', 'spnout', 'blank'):
        ps += progs.busy(rng, vlib.pick(25, 100), kind)
    ps += progs.randoms(rng, vlib.pick(60, 300))
    ps = list(dict.fromkeys(ps))
    most = vlib.pick(300, 600)
    runs = [({'prog': p}, progs.read(p), {}) for p in ps]
    runs += macros(chk, rng, rng.sample(ps, vlib.pick(150, 600)))
    recs = [{'p': tab, 'L': most} for _, tab, _ in runs]
    verdicts, t = vlib.tlc_batch('Prover', recs, cfg='Prover.cfg',
                                 timeout=vlib.pick(700, 3600))
    chk.add_tlc(t)
    jobs, idx = [], []
    for k, v in enumerate(verdicts):
        job = {x: y for x, y in runs[k][0].items() if x != 'table'}
        for m in v:
            kind, cycle = m[1], m[2]
            for op, last in (('proof', ('reach', 'times', 'less', 'xlimit')),
                             ('prover', ('reach', 'less', 'xlimit'))):
                if op == 'prover' and len(job) > 1:
                    continue
                ended = kind not in last
                if ended or cycle:
                    idx.append((k, op, m, ended))
                    jobs.append({**job, 'op': op,
                                 'lim': cycle + 5 if ended else cycle})
    res = vlib.workers('w_tm.py', jobs, timeout=60)
    wrong = {}
    for (k, op, m, ended), job, r in zip(idx, jobs, res):
        if 'ok' in r:
            why = (python_wrong if op == 'proof' else rust_wrong)(
                m[1:], r['ok'], ended, runs[k][2])
        else:
            why = 'it breaks down'
        wrong.setdefault((k, op), []).append((why, job, m, r))
    for (k, op), some in wrong.items():
        chk.traces += 1
        m = some[0][2]
        op = 'macro' if len(runs[k][0]) > 1 else op
        chk.count(f'{op}: {m[1]}')
        chk.count(f'{op}: runs with rules in use', bool(m[8]))
        chk.count(f'{op}: runs with several rules', len(m[11]) > 1)
        if all(why for why, *_ in some):
            chk.violation(f'{op}: {some[0][0]}', [*some[0][1:], some[-1][0]])
    some = [(runs[k], v) for k, v in enumerate(verdicts) if v[0][11]]
    for (job, *_), v in some[:2]:
        chk.sample([job, v[0]])
    chk.assumptions.append('Moves in one state over a block of one color are '
                           'one cycle; a first sighting in another state may '
                           'count twice')


if __name__ == '__main__':
    vlib.main('C32', 'model_checking', body)
