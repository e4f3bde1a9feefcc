"""C27: tapes stay exact when their counts are too large to write out."""
import lib  # noqa: F401  pylint: disable=unused-import
import num
import progs
import vlib


def counts(rng, base):
    """Counts, some of them close to one another."""
    out = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        k = rng.random()
        if out and k < 0.35:
            out.append(num.tweak(rng, rng.choice(out)))
        elif k < 0.5:
            out.append(['i', rng.choice((1, 2, 3, 5, rng.randrange(1, 400),
                                         rng.randrange(1, 10 ** 12)))])
        elif k < 0.7:
            out.append(['add', ['exp', base, ['i', rng.randrange(10, 90)]],
                        ['i', rng.randrange(-40, 40)]])
        else:
            out.append(num.recipe(rng, base, rng.choice((0, 1, 1, 2))))
    return out


def application(rng):
    base = rng.choice(num.BASES)
    cs = counts(rng, base)
    cut = rng.randrange(len(cs) + 1)
    spans = [cs[:cut], cs[cut:]]
    slots = [(s, i) for s in (0, 1) for i in range(len(spans[s]))]
    rule, shrinks = [], False
    for s, i in rng.sample(slots, rng.randint(1, len(slots))):
        k = rng.random()
        if k < 0.25 and shrinks:
            rule.append([s, i, [rng.choice((base, base, 2, 3, 4, 6)),
                                rng.randrange(0, 12)]])
        elif k < 0.8:
            shrinks = True
            rule.append([s, i, -rng.choice((1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 9))])
        else:
            rule.append([s, i, rng.choice((1, 2, 3, 5, 8, 40))])
    if rng.random() < 0.1:
        # operations, for a few rounds
        spans[0].append(num.recipe(rng, base, 1))
        ops = chain(rng, base)
        if rng.random() < 0.5:
            plain = {4: 2, 8: 2, 9: 3}.get(base, base)
            ops = [['~', plain], *rng.choice(([], [['+', 1]], [['*', 2]])),
                   ['**', plain], *rng.choice(([], [['+', -1]]))]
        rule.append([0, len(spans[0]) - 1, ops])
        spans[1].append(['i', rng.randrange(1, 9)])
        rule.append([1, len(spans[1]) - 1, -rng.choice((1, 1, 2))])
    return {'op': 'apply', 'counts': spans, 'rule': rule}


def chain(rng, base):
    """Operations on one length."""
    base = {4: 2, 8: 2, 9: 3}.get(base, base)
    k = rng.random()
    grow = [['+', rng.choice((1, 2, 3, 5, -1, -2))]]
    if k < 0.2:
        return grow
    if k < 0.4:
        return [['*', rng.choice((2, 3, 4, 5))]] + grow
    if k < 0.6:
        return [['+', rng.randrange(-5, 9)], ['**', base], *grow]
    if k < 0.8:
        return [['*', rng.choice((2, 3, 5))], *grow, ['**', base],
                ['+', rng.randrange(-8, 9)]]
    return [['**', base], ['+', -1], ['//', base - 1] if base > 2 else
            ['*', 3], *grow]


def inference(rng):
    base = rng.choice(num.BASES)
    n = rng.choice((1, 1, 2))
    start = [num.recipe(rng, base, rng.choice((0, 0, 1))) for _ in range(n)]
    ops = [chain(rng, base) for _ in range(n)]
    start.append(['exp', base, ['exp', base, ['i', rng.randrange(10, 40)]]])
    ops.append([['+', rng.choice((-1, -1, -2, -3))]])
    out = {'op': 'make', 'start': start, 'ops': ops, 'odd': []}
    if rng.random() < 0.4:
        # one of the samples is not as it should be
        out['odd'] = [rng.randrange(1, 4), rng.randrange(n),
                      rng.choice((1, 1, 2, -1, 5))]
    return out


def body(chk):
    rng = progs.rng_for('C27', vlib.SEED)
    jobs = [application(rng) for _ in range(vlib.pick(6000, 80000))]
    jobs += [inference(rng) for _ in range(vlib.pick(1500, 20000))]
    # the listed finding
    jobs.append({'op': 'apply', 'rule': [[0, 0, -2], [0, 1, -2]], 'counts': [
        [['add', ['exp', 2, ['i', 20]], ['i', n]] for n in (3, 1)], []]})
    runs = []
    for prog in progs.algebra():
        for opts in vlib.pick(({'opt_macro': 2000},), (
                {'opt_macro': 2000}, {}, {'blocks': 2}, {'blocks': 3},
                {'backsym': 1}, {'opt_macro': 500, 'backsym': 1})):
            runs.append({'op': 'run', 'prog': prog, 'opts': opts,
                         'lim': vlib.pick(20_000, 100_000),
                         'max': vlib.pick(120, 1500), 'every': [1, 7],
                         'time': vlib.pick(4, 30)})
    jobs += runs
    recs, idx = [], []
    for j, r in zip(jobs, vlib.workers('w_big.py', jobs, timeout=60)):
        if 'ok' not in r:
            chk.violation('the arithmetic of counts breaks down', [j, r])
            continue
        for rec, sites, text in r['ok']:
            if rec['op'] == 'tally':
                chk.count(f'{j["op"]}, not judged: {text[0]}', text[1])
                continue
            recs.append(rec)
            idx.append((j['op'], sites, text))
    verdicts, t = vlib.tlc_batch('BigTape', recs, cfg='BigTape.cfg')
    chk.add_tlc(t)
    for rec, (source, sites, text), v in zip(recs, idx, verdicts):
        (what,), = v
        chk.traces += 1
        chk.count(f'{source}: {rec["op"]}'
                  + ('' if rec.get('base') else ' (several bases)')
                  + ('' if rec.get('applied', True) else ' (not possible)'))
        if what != 'ok':
            chk.violation(what, [source, text, rec],
                          key='; '.join(sites) or text)
    chk.sample(recs[0])
    chk.sample(recs[-1])


if __name__ == '__main__':
    vlib.main('C27', 'model_checking', body)
