"""C14: the program generator lists the leaves of the normal-form tree."""
import collections

import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib


def spec_rec(size, halt, lim, mode, **kw):
    return {'states': size[0], 'colors': size[1], 'halt': halt, 'lim': lim,
            'mode': mode, 'p': kw.get('p', []), 'ch': kw.get('ch', [])}


def exhaustive(chk, rng):
    asks = [((2, 2), h, lim) for h in (True, False)
            for lim in (1, 2, 3, rng.randint(4, 30), 300)]
    asks += [((3, 2), True, rng.choice((300, 876))),
             ((2, 3), True, rng.choice((300, 876))),
             ((3, 2), True, rng.randint(2, 30)),
             ((2, 3), True, rng.randint(2, 30)),
             ((3, 2), False, rng.randint(2, 30)),
             ((2, 3), False, rng.randint(2, 30)), ((2, 4), True, 2)]
    if not vlib.QUICK:
        asks += [((3, 2), False, 876), ((2, 3), False, 876),
                 ((4, 2), True, 30), ((2, 4), True, 20)]
    res = vlib.workers('w_tm.py', [
        {'op': 'tree', 'params': s, 'halt': h, 'lim': lim}
        for s, h, lim in asks], timeout=300)
    recs = [spec_rec(s, h, lim, 'all') for s, h, lim in asks]
    verdicts, t = vlib.tlc_batch('Tree', recs, cfg='Tree.cfg', heap='12g')
    chk.add_tlc(t)
    for ask, r, v in zip(asks, res, verdicts):
        chk.traces += 1
        if 'ok' not in r:
            chk.violation('the generator breaks down', [ask, r])
            continue
        chk.count(f'{ask}', len(r['ok']))
        want = collections.Counter(p for (p,) in v)
        got = collections.Counter(r['ok'])
        chk.count('programs compared', sum(got.values()))
        if extra := list((got - want).items())[:3]:
            chk.violation('generated, but no leaf of the tree (or twice)',
                          [ask, extra])
        if lost := list((want - got).items())[:3]:
            chk.violation('a leaf of the tree is not generated', [ask, lost])
    chk.sample([asks[0], recs[0], len(res[0].get('ok', []))])


def sampled(chk, rng):
    """Bigger trees: leaves of the specification picked at random must be
    generated, and generated programs picked at random must be leaves."""
    asks = [((4, 2), True, 100), ((2, 4), True, 100), ((2, 5), True, 2)]
    if not vlib.QUICK:
        asks += [((4, 2), False, 300), ((2, 4), False, 300),
                 ((3, 3), True, 2)]
    for ask in asks:
        size, halt, lim = ask
        r, = vlib.workers('w_tm.py', [
            {'op': 'tree', 'params': size, 'halt': halt, 'lim': lim}],
            timeout=600)
        if 'ok' not in r:
            chk.violation('the generator breaks down', [ask, r])
            continue
        got = collections.Counter(r['ok'])
        twice = [p for p, k in got.items() if k > 1]
        if twice:
            chk.violation('generated twice', [ask, twice[:3]])
        n = vlib.pick(2500, 20000)
        walks = rng.sample(sorted(got), min(n, len(got)))
        recs = [spec_rec(size, halt, lim, 'walk', p=progs.read(p))
                for p in walks]
        recs += [spec_rec(size, halt, lim, 'pick',
                          ch=[rng.randrange(10 ** 6) for _ in range(12)])
                 for _ in range(n)]
        verdicts, t = vlib.tlc_batch('Tree', recs, heap='12g')
        chk.add_tlc(t)
        for rec, v in zip(recs, verdicts):
            (what,), = v
            chk.traces += 1
            if rec['mode'] == 'walk':
                chk.count('generated programs walked')
                if what != 'ok':
                    chk.violation(what, [ask, progs.show(rec['p'])])
            elif what:
                chk.count('leaves picked')
                if what not in got:
                    chk.violation('a leaf of the tree is not generated',
                                  [ask, what])


def body(chk):
    rng = progs.rng_for('C14', vlib.SEED)
    exhaustive(chk, rng)
    sampled(chk, rng)


vlib.main('C14', 'model_checking', body)
