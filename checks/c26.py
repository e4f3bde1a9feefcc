"""C26: the block size that is suggested is the one that fits best."""
import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib


def body(chk):
    rng = progs.rng_for('C26', vlib.SEED)
    ps = rng.sample(progs.corpus(), vlib.pick(250, 1500))
    for kind in ('ruled', 'undfnd', 'spnout'):
        ps += progs.busy(rng, vlib.pick(150, 2000), kind)
    ps += progs.randoms(rng, vlib.pick(250, 4000), und=(0.02, 0.05))
    ps += [progs.mutate(rng, p) for p in rng.sample(ps, len(ps) // 2)]
    jobs = []
    for p in dict.fromkeys(ps):
        jobs.append({'op': 'opt_block', 'prog': p, 'lim':
                     rng.choice((1, 5, 17, 40, 90, vlib.pick(150, 400),
                                 vlib.pick(220, 1200)))})
        # just before and after the end of the run
        kind, _, _, _, _ = progs.simulate(p, 200)
        if kind != 'alive':
            jobs += [{'op': 'opt_block', 'prog': p, 'lim': n}
                     for n in rng.sample(range(30), vlib.pick(2, 8))]
    res = vlib.workers('w_tm.py', jobs, timeout=60)
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            chk.violation('no answer', [job, r])
            continue
        recs.append({'p': progs.read(job['prog']), 'cycles': job['lim'],
                     'got': r['ok']})
        idx.append(job)
        chk.count('sizes above 1', r['ok'] > 1)
        chk.count('sizes above 3', r['ok'] > 3)
    verdicts, t = vlib.tlc_batch('BlockSize', recs)
    chk.add_tlc(t)
    for job, rec, v in zip(idx, recs, verdicts):
        for what, want, n in v:
            chk.traces += 1
            if what != 'ok':
                chk.violation(what, [job, rec['got'], want, n])
    chk.sample(recs[-1])


vlib.main('C26', 'model_checking', body)
