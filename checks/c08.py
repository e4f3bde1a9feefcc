"""C08: a macro machine is its base machine seen through a window."""
import lib  # noqa: F401  pylint: disable=unused-import
import claims
import progs
import vlib


def windows(chk, rng):
    ps = progs.randoms(rng, vlib.pick(160, 1500), None, (0.0, 0.1, 0.3))
    corpus = progs.corpus()
    ps += rng.sample(corpus, vlib.pick(120, 800))
    jobs = []
    # programs that stay long in one window
    with open(vlib.VERIF + '/data/windows.txt', encoding='utf-8') as fd:
        for p in fd.read().splitlines():
            p = p if rng.random() < .6 else progs.mutate(rng, p)
            jobs += [{'op': 'macro_table', 'prog': p, 'cap': 12, 'blocks': k}
                     for k in (2, 3, 4, 5) if len(progs.read(p)[0]) ** k < 100]
    for p in ps:
        nc = len(progs.read(p)[0])
        for kw in ({'blocks': 2}, {'blocks': rng.choice((3, 4))},
                   {'backsym': 1}, {'backsym': rng.choice((2, 3))},
                   {'blocks': 2, 'backsym': 1}):
            if nc ** (kw.get('blocks', 1) + kw.get('backsym', 0)) > 900:
                continue
            jobs.append({'op': 'macro_table', 'prog': p,
                         'cap': vlib.pick(24, 60), **kw})
    res = vlib.workers('w_tm.py', jobs, timeout=60)
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            chk.violation('the macro machine breaks down', [job, r])
        elif r['ok'] is not None:
            recs.append(r['ok'])
            idx.append(job)
    verdicts, t = vlib.tlc_batch('MacroWindow', recs)
    chk.add_tlc(t)
    for job, rec, v in zip(idx, recs, verdicts):
        chk.count(f'{rec["kind"]} windows, instructions', len(rec['lines']))
        chk.traces += 1
        if not any(what == 'ok' for what, _ in v):
            what, at = max(v, key=lambda x: x[1])
            chk.violation(what, [job, rec['lines'][at - 1]])
    chk.sample([idx[0], recs[0]['lines'][:3]])


def rust_windows(chk, rng):
    """The Rust macro machines, which the crate's own search uses."""
    ps = progs.randoms(rng, vlib.pick(200, 1500), None, (0.0, 0.1, 0.3))
    ps += rng.sample(progs.corpus(), vlib.pick(120, 800))
    jobs = []
    for p in ps:
        rows = progs.read(p)
        par = [len(rows), len(rows[0])]
        for k in (2, 3):
            jobs.append({'op': 'macro_run', 'prog': p, 'params': par,
                         'kind': 'block', 'k': k, 'lim': vlib.pick(40, 200)})
    # the backsymbol machine has a known defect: one witness of it
    jobs.append({'op': 'macro_run', 'prog': '1RB 0RA  0LC 0LB  0LA 0RB',
                 'params': [3, 2], 'kind': 'back', 'k': 1, 'lim': 40})
    try:
        res = vlib.workers('w_inner.py', jobs, timeout=30)
    except vlib.Machinery:
        chk.count('Rust internals not reachable')
        return
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            chk.violation('the Rust macro machine breaks down', [job, r])
            continue
        recs.append({'tab': r['ok']['tab'], 'kind': job['kind'],
                     'k': job['k'], 'lines': r['ok']['lines']})
        idx.append(job)
    verdicts, t = vlib.tlc_batch('MacroWindow', recs)
    chk.add_tlc(t)
    for job, rec, v in zip(idx, recs, verdicts):
        chk.count(f'Rust {rec["kind"]} windows, instructions',
                  len(rec['lines']))
        chk.traces += 1
        if not any(what == 'ok' for what, _ in v):
            what, at = max(v, key=lambda x: x[1])
            chk.violation('Rust: ' + what, [job, rec['lines'][at - 1]],
                          key=f'rust {job["kind"]} {job["k"]} {job["prog"]}')


def runs(chk, rng):
    H = vlib.pick(1200, 6000)
    ps = progs.randoms(rng, vlib.pick(150, 2000))
    for kind in ('undfnd', 'spnout', 'ruled'):
        some = progs.busy(rng, vlib.pick(110, 900), kind)
        ps += some + [progs.mutate(rng, p) for p in some]
    ps += rng.sample(progs.corpus(), vlib.pick(100, 900))
    jobs = []
    for p in ps:
        nc = len(progs.read(p)[0])
        kws = [{'blocks': 2}, {'blocks': 3}, {'blocks': 4}, {'backsym': 1},
               {'backsym': 2}, {'blocks': 2, 'backsym': 1},
               {'opt_macro': 100}, {'opt_macro': 30, 'backsym': 1}]
        for kw in rng.sample(kws, 2):
            if nc ** (kw.get('blocks', 1) + kw.get('backsym', 0)) > 300:
                continue
            jobs.append({'op': 'machine', 'prog': p,
                         'lim': vlib.pick(400, 2000), **kw})
    res = vlib.workers('w_tm.py', jobs, timeout=60)
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            chk.violation('the run does not finish normally', [job, r])
            continue
        r = r['ok']
        c = claims.base(job['prog'], H)
        if r['undfnd'] is not None:
            c['kind'], c['slot'] = 'undfnd', r['undfnd'][1]
        elif r['spnout'] is not None or r['infrul'] is not None:
            c['kind'] = 'forever'
        else:
            chk.count('macro runs without a verdict')
            continue
        recs.append(c)
        idx.append((job, r))
    verdicts, t = vlib.tlc_batch('Outcome', recs)
    chk.add_tlc(t)
    for (job, r), rec, v in zip(idx, recs, verdicts):
        for what, n in v:
            chk.count('macro runs ' + rec['kind'])
            if what == 'beyond':
                chk.count('beyond horizon')
            elif what == 'ok':
                chk.traces += 1
            else:
                chk.violation(what, [job, r, n])
    chk.sample([idx[0][0], recs[0]['kind']])


def body(chk):
    rng = progs.rng_for('C08', vlib.SEED)
    windows(chk, rng)
    rust_windows(chk, rng)
    runs(chk, rng)


vlib.main('C08', 'model_checking', body)
