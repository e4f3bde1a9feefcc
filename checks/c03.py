"""C03: the rows of an accelerated run are configurations of the machine."""
import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib


def body(chk):
    rng = progs.rng_for('C03', vlib.SEED)
    H = vlib.pick(5200, 60000)
    ps = progs.busy(rng, vlib.pick(420, 5000), 'ruled')
    ps += [q for p in ps for q in (progs.mutate(rng, p),)]
    for kind in ('undfnd', 'spnout', 'blank'):
        ps += progs.busy(rng, vlib.pick(80, 900), kind)
    ps += rng.sample(progs.corpus(), vlib.pick(150, 1000))
    ps += progs.randoms(rng, vlib.pick(100, 2000))
    ps = [k.removeprefix('watch ') for k in vlib.known_keys('C03')] + ps
    jobs = [{'op': 'watch', 'prog': p, 'lim': vlib.pick(400, 2000)}
            for p in dict.fromkeys(ps)]
    res = vlib.workers('w_tm.py', jobs, timeout=60)
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            chk.violation('the run does not finish normally', [job, r])
            continue
        r = r['ok']
        ends = progs.simulate(job['prog'], H)[0] != 'alive'
        # rows after the last one that can be reached in H steps are not
        # worth the time when the machine never stops
        rows = r['rows'] if ends else r['rows'][:60]
        recs.append({'p': progs.read(job['prog']), 'rows': rows,
                     'from': False,
                     'H': H if ends else 1500})
        idx.append((job, r))
    verdicts, t = vlib.tlc_batch('ProverTrace', recs)
    chk.add_tlc(t)
    for (job, r), rec, v in zip(idx, recs, verdicts):
        for what, at, n in v:
            chk.count('rows met', at - 1)
            if r['rulapp'] and any(x[0] == -1 for x in rec['rows'][:at - 1]):
                chk.count('traces met beyond a rule')
            if what == 'beyond':
                chk.count('traces cut at the horizon')
            elif what != 'ok':
                chk.violation(what, [job, rec['rows'][at - 2:at], n],
                              key='watch ' + job['prog'])
            chk.traces += 1
    chk.sample([idx[0][0]['prog'], recs[0]['rows'][:12]])
    long_runs(chk, rng)


def long_runs(chk, rng):
    """Runs that end, but late.  The rows are looked up in the run first;
    what is not found is put to TLC, from the row before it to the end."""
    ps = rng.sample(progs.pool('long'), vlib.pick(600, 4000))
    ps += [p for _, _, p in progs.scout(
        rng, 'us', vlib.pick(1500, 20000), und=40, least=400, most=30000,
        base=rng.sample(progs.pool('long') + progs.pool('ruled'),
                        vlib.pick(400, 1500)))]
    res = vlib.workers('w_tm.py', [{'op': 'watch', 'prog': p, 'lim': 900}
                                   for p in ps], timeout=60)
    runs = []
    for p, r in zip(ps, res):
        if 'ok' not in r:
            chk.violation('the run does not finish normally', [p, r])
        elif r['ok']['rulapp']:
            runs.append((p, 10 ** 6, r['ok']['rows']))
    recs = []
    for (p, _, rows), (what, k, at, end, _) in zip(runs,
                                                   progs.follow(runs)):
        chk.count('rows looked up', k)
        if what in ('lost', 'late') and (end - at < 400000 or not recs):
            start = max(k - 1, 0)
            part = [[-1] + rows[start][1:]] + [
                [-1 if n < 0 else n - at] + x
                for n, *x in rows[start + 1:k + 1]] if k else rows[:1]
            recs.append((end - at, {'p': progs.read(p), 'rows': part,
                                    'from': k > 0, 'H': end - at + 10}))
    chk.count('late runs with rules', len(runs))
    chk.count('doubtful rows', len(recs))
    recs = [r for _, r in sorted(recs, key=lambda x: x[0])[:12]]
    if recs:
        verdicts, t = vlib.tlc_batch('ProverTrace', recs)
        chk.add_tlc(t)
        for rec, v in zip(recs, verdicts):
            for what, at, n in v:
                chk.traces += 1
                if what not in ('ok', 'beyond'):
                    chk.violation(what, [progs.show(rec['p']), rec['rows'],
                                         n],
                                  key='watch ' + progs.show(rec['p']))


vlib.main('C03', 'model_checking', body)
