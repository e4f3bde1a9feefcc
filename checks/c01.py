"""C01: the Python machine, without macros, reports what the machine does."""
import lib  # noqa: F401  pylint: disable=unused-import
import claims
import progs
import vlib


def body(chk):
    rng = progs.rng_for('C01', vlib.SEED)
    H = vlib.pick(1500, 6000)
    corpus = progs.corpus()
    rng.shuffle(corpus)
    ps = corpus[:vlib.pick(500, 2000)]
    ps += progs.randoms(rng, vlib.pick(900, 6000))
    for kind in ('undfnd', 'spnout', 'blank', 'ruled'):
        some = progs.busy(rng, vlib.pick(120, 900), kind)
        ps += some + [progs.mutate(rng, p) for p in some]
    small = list(progs.all_progs(2, 2))
    ps += small if not vlib.QUICK else rng.sample(small, 200)
    lim = vlib.pick(600, 3000)
    jobs = [{'op': 'machine', 'prog': p, 'lim': rng.choice((7, 40, lim, lim))}
            for p in ps]
    res = vlib.workers('w_tm.py', jobs, timeout=60)
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            chk.violation('the run does not finish normally', [job, r])
            continue
        r = r['ok']
        recs.append(claims.machine(job['prog'], r, H))
        idx.append((job, r))
    verdicts, t = vlib.tlc_batch('Outcome', recs)
    chk.add_tlc(t)
    for (job, r), rec, v in zip(idx, recs, verdicts):
        for what, n in v:
            chk.count('kind ' + rec['kind'])
            if what == 'beyond':
                chk.count('beyond horizon')
            elif what == 'ok':
                chk.traces += 1
            else:
                chk.violation(what, [job, r, n],
                              key=f'{job["op"]} {job["prog"]}')
    chk.sample([jobs[0]['prog'], recs[0]['kind'], recs[0]['steps']])
    chk.sample([jobs[-1]['prog'], recs[-1]['kind'], recs[-1]['steps']])
    claims.hunt(chk, rng, 'machine', claims.machine, vlib.pick(4000, 60000),
                lim, 30000)


vlib.main('C01', 'model_checking', body)
