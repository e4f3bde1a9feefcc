"""C25: a rule is tried when the sightings of a tape are regular."""
import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib

MOST = 400000


def regular(rng, start):
    """Cycles in a pattern, mostly."""
    k = rng.choice((1, 1, 1, 2, 2, 3, 4, 5))
    p, d = rng.randint(-3, 30), rng.choice((0, 0, 0, 1, 2, 3, 8, -1, -2))
    out = [start]
    for _ in range(rng.choice((4, 5, 6, 8))):
        out.append(k * out[-1] + p)
        p += d
        if not 0 <= out[-1] <= MOST:
            out.pop()
            break
    if rng.random() < 0.2:
        out[rng.randrange(len(out))] += rng.choice((-1, 1, 2))
    return [max(0, n) for n in out]


def ops_of(rng):
    states = rng.choice((1, 1, 2, 3))
    first = rng.randrange(states)
    queues = {q: regular(rng, rng.randint(0, 60)) for q in range(states)}
    n0 = queues[first].pop(0)
    ops = []
    while len(ops) < 40 and any(queues.values()):
        q = rng.choice([q for q in queues if queues[q]])
        ops.append(['see', q, queues[q].pop(0)])
        if not queues[q] and rng.random() < 0.5:
            if rng.random() < 0.5:
                ops.append(['drop', q])
            queues[q] = regular(rng, rng.randint(0, 60))
        elif rng.random() < 0.03:
            ops.append(['drop', q])
    return first, n0, ops


def body(chk):
    rng = progs.rng_for('C25', vlib.SEED)
    cases = []
    # every five sightings in small distances
    for gaps in range(5 ** 4):
        n, ops, x = rng.randint(0, 9), [], gaps
        n0 = n
        for _ in range(4):
            n += 1 + x % 5
            x //= 5
            ops.append(['see', 0, n])
        cases.append((0, n0, ops))
    cases += [ops_of(rng) for _ in range(vlib.pick(3000, 40000))]
    jobs = [{'op': 'past', 'q0': q, 'n0': n, 'ops': ops}
            for q, n, ops in cases]
    # and those of real runs
    ps = progs.busy(rng, vlib.pick(100, 1000), 'ruled')
    ps += rng.sample(progs.pool('long'), vlib.pick(100, 1000))
    jobs += [{'op': 'sightings', 'prog': p, 'lim': vlib.pick(700, 5000),
              'most': vlib.pick(40, 200)} for p in ps]
    res = vlib.workers('w_tm.py', jobs, timeout=60)
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            if job['op'] == 'past':
                chk.violation('the sightings are not taken', [job, r])
            else:
                chk.count('runs not reachable')
            continue
        for rec in r['ok']:
            recs.append(rec)
            idx.append(job)
            chk.count('patterns noticed',
                      sum(len(o) == 4 and o[3] != [] for o in rec['ops']))
    verdicts, t = vlib.tlc_batch('PastConfigs', recs)
    chk.add_tlc(t)
    for job, rec, v in zip(idx, recs, verdicts):
        for what, at in v:
            chk.traces += 1
            chk.count('sightings', len(rec['ops']))
            if what != 'ok':
                chk.violation(what, [job.get('prog'), rec['q0'], rec['n0'],
                                     rec['ops'][:at]])
    chk.sample(recs[-1])


vlib.main('C25', 'model_checking', body)
