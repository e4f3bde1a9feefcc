"""C06: rules explain the counts they come from, and are applied in full."""
import lib  # noqa: F401  pylint: disable=unused-import
import itertools
import progs
import vlib

LIMIT = 10 ** 9


def fits(before, rule):
    """Stays within TLC's integers."""
    counts = [list(before[0]), list(before[1])]
    for _ in range(4000):
        if not any(k == 'p' and d < 0 for _, _, k, d, _ in rule):
            return True
        if any(k == 'p' and counts[s][i] + d < 1 for s, i, k, d, _ in rule
               if d < 0):
            return True
        for s, i, k, d, a in rule:
            counts[s][i] = counts[s][i] + d if k == 'p' \
                else counts[s][i] * d + a
            if abs(counts[s][i]) > LIMIT:
                return False
    return False


def applications(rng):
    jobs = []
    # two blocks, every small length and change
    for n, m in itertools.product(range(1, 8), repeat=2):
        for d, e in itertools.product(range(-3, 3), repeat=2):
            if rng.random() < vlib.pick(0.4, 1.0):
                jobs.append(([[n], [m]], [[0, 0, 'p', d, 0],
                                          [1, 0, 'p', e, 0]]))
    while len(jobs) < vlib.pick(4000, 40000):
        before = [[rng.choice((1, 2, 3, rng.randint(1, 60)))
                   for _ in range(rng.randint(0, 4))] for _ in (0, 1)]
        slots = [(s, i) for s in (0, 1) for i in range(len(before[s]))]
        if not slots:
            continue
        rule = []
        for s, i in rng.sample(slots, rng.randint(1, len(slots))):
            if rng.random() < 0.2:
                rule.append([s, i, 'm', rng.randint(2, 4), rng.randint(0, 5)])
            else:
                rule.append([s, i, 'p', rng.choice(
                    (-1, -1, -2, -3, 1, 2, rng.randint(-9, 9))), 0])
        if any(k == 'p' and d == 0 for _, _, k, d, _ in rule):
            continue
        if any(k == 'p' and d < 0 for _, _, k, d, _ in rule) \
                or rng.random() < 0.1:
            jobs.append((before, rule))
    return [(b, r) for b, r in jobs
            if all(d for _, _, k, d, _ in r if k == 'p') and fits(b, r)]


def series(rng):
    kind = rng.random()
    a = rng.randint(1, 40)
    if kind < 0.25:
        return [a] * 4
    if kind < 0.65:
        d = rng.choice((-4, -3, -2, -1, 1, 2, 3, 7))
        return [max(a, 20) + d * k for k in range(4)]
    if kind < 0.8:
        m, b = rng.randint(2, 5), rng.randint(0, 9)
        out = [a]
        for _ in range(3):
            out.append(out[-1] * m + b)
        return out
    if kind < 0.86:
        # nearly regular: one factor or addend may be off
        m, b = rng.randint(1, 4), rng.randint(-6, 6)
        out = [a]
        for _ in range(3):
            out.append(max(1, out[-1] * (m + rng.choice((0, 0, 0, 1)))
                           + b + rng.choice((0, 0, 0, 0, 1, -1))))
        return out
    if kind < 0.93:
        out = [a + 20]
        d = [rng.choice((-2, -1, 1, 2)) for _ in range(2)]
        for k in range(3):
            out.append(out[-1] + d[k % 2])
        return out
    return [rng.randint(1, 50) for _ in range(4)]


def body(chk):
    rng = progs.rng_for('C06', vlib.SEED)
    apps = applications(rng)
    jobs = [{'op': 'apply', 'before': b, 'rule': r, 'enum': rng.random() < .2}
            for b, r in apps]
    makes = []
    for vals in itertools.product(range(1, 5), repeat=4):
        makes.append([[[v], []] for v in vals])
    for _ in range(vlib.pick(3500, 40000)):
        nl, nr = rng.randint(0, 3), rng.randint(0, 3)
        left = [series(rng) for _ in range(nl)]
        right = [series(rng) for _ in range(nr)]
        makes.append([[[s[k] for s in left], [s[k] for s in right]]
                      for k in range(4)])
    jobs += [{'op': 'make', 'counts': c} for c in makes]
    res = vlib.workers('w_tape.py', jobs, timeout=30)
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            chk.violation('the rule breaks down', [job, r])
            continue
        recs.append(r['ok'])
        idx.append(job)
    more = rust_records(chk, rng, apps, makes)
    recs += more
    verdicts, t = vlib.tlc_batch('Rule', recs)
    chk.add_tlc(t)
    for rec, v in zip(recs, verdicts):
        for what, _ in v:
            chk.traces += 1
            lang = 'Rust ' if rec['rust'] else ''
            chk.count(lang + (rec['k'] if rec['k'] == 'apply' else
                              'make: ' + rec['result']))
            if what != 'ok':
                chk.violation(lang + what, rec)
    chk.sample(recs[0])
    chk.sample(recs[-1])


def rust_records(chk, rng, apps, makes):
    apps = [a for a in apps if all(k == 'p' for _, _, k, _, _ in a[1])]
    apps = rng.sample(apps, min(len(apps), vlib.pick(1500, 20000)))
    jobs = []
    for k, (before, rule) in enumerate(apps):
        jobs.append({'op': 'raw', 'calls': [
            ['tape_build', k, show(before[0]), show(before[1])],
            ['tape_apply', k, ';'.join(
                f'{s},{i},{d}' for s, i, _, d, _ in rule)]]})
    for c in makes:
        jobs.append({'op': 'raw', 'calls': [['make_rule'] + [
            '/'.join(','.join(map(str, side)) for side in one)
            for one in c]]})
    try:
        res = vlib.workers('w_inner.py', jobs, timeout=30)
    except vlib.Machinery:
        chk.count('Rust internals not reachable')
        return []
    recs = []
    for job, r, what in zip(jobs, res, apps + makes):
        if 'ok' not in r:
            chk.violation('the Rust rule breaks down', [job, r])
            continue
        if 'tape_apply' == job['calls'][-1][0]:
            before, rule = what
            f = r['ok'][1].split('|')
            recs.append({
                'k': 'apply', 'rule': rule, 'before': before, 'rust': True,
                'after': [[int(x) for x in s.split(',') if x]
                          for s in f[-2:]],
                'times': -1 if f[0] == '-' else int(f[0])})
        else:
            out = r['ok'][0]
            rule = []
            for e in filter(None, out.split(';')) if out != '-' else ():
                v = [int(x) for x in e.split(',')]
                rule.append([v[0], v[1], 'p', v[2], 0] if len(v) == 3 else
                            [v[0], v[1], 'm', v[2], v[3]])
            recs.append({'k': 'make', 'counts': what, 'rust': True,
                         'result': 'none' if out == '-' else 'rule',
                         'rule': rule})
    return recs


def show(counts):
    return ','.join(map(str, counts))


vlib.main('C06', 'model_checking', body)
