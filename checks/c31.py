"""C31: segment analysis answers what the windows show."""
import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib


def widest(rows):
    """The largest window looked at: the analysis stops at some thousands of
    configurations, which are not to be come to."""
    ns = max([len(rows)] + [i[2] + 1 for row in rows for i in row if i])
    nc = max([len(rows[0])] + [i[0] + 1 for row in rows for i in row if i])
    most = vlib.pick(1200, 3500)
    n = 2
    while 4 * ns * nc ** (n + 1) <= most and n < 7:
        n += 1
    return n if 4 * ns * nc ** n <= most else 0


def body(chk):
    rng = progs.rng_for('C31', vlib.SEED)
    ps = progs.corpus(6, 4)
    rng.shuffle(ps)
    ps = ps[:vlib.pick(400, 3000)]
    ps += [progs.mutate(rng, p) for p in ps]
    ps += progs.all_progs(2, 2)
    for shape in ((3, 2), (2, 3), (4, 2), (3, 3), (2, 4), (5, 2), (6, 2)):
        ps += progs.randoms(rng, vlib.pick(200, 2000), [shape],
                            (0.05, 0.15, 0.3))
    for kind in ('undfnd', 'spnout', 'blank', 'ruled'):
        some = progs.busy(rng, vlib.pick(150, 1500), kind)
        ps += some + [progs.mutate(rng, p) for p in some]
    jobs, recs = [], []
    for p in dict.fromkeys(ps):
        rows = progs.read(p)
        if not any(any(row) for row in rows) or not (N := widest(rows)):
            continue
        if all(i for row in rows for i in row) and rng.random() < .8:
            continue
        lims = sorted({N, rng.randrange(2, N + 1)})
        jobs += [{'op': 'segment', 'prog': p, 'lim': lim} for lim in lims]
        recs.append({'p': rows, 'N': N, 'nc': len(rows[0]),
                     'said': [[lim] for lim in lims]})
    res = iter(vlib.workers('w_tm.py', jobs, timeout=20))
    jobs = iter(jobs)
    good = []
    for rec in recs:
        ok = True
        for x in rec['said']:
            job, r = next(jobs), next(res)
            if 'ok' not in r:
                chk.violation('the analysis breaks down', [job, r])
                ok = False
                continue
            x.append(-1 if r['ok'] is None else r['ok'])
        if ok:
            good.append(rec)
    verdicts, t = vlib.tlc_batch('Segment', good)
    chk.add_tlc(t)
    for rec, ((judged, n, end, ways, size),) in zip(good, verdicts):
        chk.traces += 1
        chk.count('halts in a window' if end == -1 else
                  'no window up to the limit shows anything' if end == 0 else
                  f'shown by a window of {end}')
        if ways > 1:
            chk.count('more than one answer possible')
        if size > 200:
            chk.count('more than 200 configurations in the last window')
        for x, why in zip(rec['said'], judged):
            if why != 'ok':
                chk.violation(why, [progs.show(rec['p']), x, n, end, size])
    for k in (0, len(good) // 2, -1):
        chk.sample([progs.show(good[k]['p']), good[k]['said'],
                    verdicts[k][0]])


if __name__ == '__main__':
    vlib.main('C31', 'model_checking', body)
