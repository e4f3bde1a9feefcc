"""C02: the two Rust simulators report what the machine does."""
import lib  # noqa: F401  pylint: disable=unused-import
import claims
import progs
import vlib


def derived(r):
    """The result's own fields must agree with one another."""
    for f, kinds in (('simple', ('undfnd', 'spnout')), ('halted', ('undfnd',)),
                     ('infrul', ('infrul',)), ('spnout', ('spnout',)),
                     ('xlimit', ('xlimit',)), ('cfglim', ('cfglim',))):
        want = r['steps'] if r['result'] in kinds else None
        if r[f] != want:
            return f'field {f} disagrees with the result'
    und = r['undfnd']
    if (und is not None) != (r['result'] == 'undfnd'):
        return 'undefined slot disagrees with the result'
    if und is not None and und[0] != r['steps']:
        return 'undefined step disagrees with the result'
    return None


def body(chk):
    rng = progs.rng_for('C02', vlib.SEED)
    H = vlib.pick(1500, 6000)
    corpus = progs.corpus()
    rng.shuffle(corpus)
    ps = corpus[:vlib.pick(350, 2000)]
    ps += progs.randoms(rng, vlib.pick(500, 6000))
    for kind in ('undfnd', 'spnout', 'blank', 'ruled'):
        some = progs.busy(rng, vlib.pick(90, 900), kind)
        ps += some + [progs.mutate(rng, p) for p in some]
    small = list(progs.all_progs(2, 2))
    ps += small if not vlib.QUICK else rng.sample(small, 150)
    lim = vlib.pick(600, 3000)
    jobs = [{'op': op, 'prog': p, 'lim': rng.choice((7, 40, lim, lim))}
            for p in ps for op in ('prover', 'quick')]
    res = vlib.workers('w_tm.py', jobs, timeout=60)
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            chk.violation('the run does not finish normally', [job, r])
            continue
        r = r['ok']
        if (bad := derived(r)) is not None:
            chk.violation(bad, [job, r])
        recs.append(claims.rust(job['prog'], r, H))
        idx.append((job, r))
    verdicts, t = vlib.tlc_batch('Outcome', recs)
    chk.add_tlc(t)
    for (job, r), rec, v in zip(idx, recs, verdicts):
        for what, n in v:
            chk.count(job['op'] + ' ' + rec['kind']
                      + (' after rules' if rec['atmost'] else ''))
            if what == 'beyond':
                chk.count('beyond horizon')
            elif what == 'ok':
                chk.traces += 1
            else:
                chk.violation(what, [job, r, n],
                              key=f'{job["op"]} {job["prog"]}')
    chk.sample([jobs[0], recs[0]['kind'], recs[0]['steps']])
    chk.sample([jobs[-1], recs[-1]['kind'], recs[-1]['steps']])
    claims.hunt(chk, rng, 'prover', claims.rust, vlib.pick(6000, 100000),
                lim, 30000)
    claims.hunt(chk, rng, 'quick', claims.rust, vlib.pick(6000, 100000),
                lim, 8000)


vlib.main('C02', 'model_checking', body)
