"""C29: the quick check says exactly of runs that repeat that they go on."""
import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib


def body(chk):
    rng = progs.rng_for('C29', vlib.SEED)
    ps = [p for p in progs.corpus(6, 6) if p.startswith('1RB')]
    rng.shuffle(ps)
    ps = ps[:vlib.pick(500, 3000)]
    ps += progs.all_progs(2, 2)
    for shape in ((3, 2), (2, 3), (4, 2), (3, 3), (2, 4), (5, 2), (6, 2),
                  (4, 4)):
        ps += progs.randoms(rng, vlib.pick(16000, 100000), [shape],
                            (0.0, 0.03, 0.1))
    base = [p for p in progs.corpus(5, 5) if p.startswith('1RB')]
    ps += [progs.mutate(rng, p) for p in
           rng.choices(base, k=vlib.pick(20000, 200000))]
    ps = [p for p in dict.fromkeys(ps) if p.startswith('1RB')]
    most = vlib.pick(256, 512)
    # of every kind and time as many
    sorts = {}
    for p, (kind, n, a) in zip(ps, progs.recur(ps, most)):
        sorts.setdefault((kind, n if n < 24 else 24 + n // 8), []).append(
            (p, n, a))
    chosen = []
    for key in sorted(sorts):
        some = sorts[key]
        k = vlib.pick(60, 300) * (8 if key[0] == 'a' else 1)
        chosen += [(key[0], *x) for x in
                   rng.sample(some, min(len(some), k))]
    jobs, where = [], []
    for k, (kind, p, n, _) in enumerate(chosen):
        # limits about where the answer changes, and where it has to be known
        lims = {n, n + 1, n + 2, 4 * n, 4 * n + rng.randrange(1, 40),
                rng.randrange(2, most)} if kind != 'a' else {
                    most, rng.randrange(2, most)}
        for lim in sorted(x for x in lims if x >= 1):
            jobs.append({'op': 'term_or_rec', 'prog': p, 'lim': lim})
            where.append(k)
    res = vlib.workers('w_tm.py', jobs, timeout=20)
    said = [[] for _ in chosen]
    for job, k, r in zip(jobs, where, res):
        if 'ok' not in r:
            chk.violation('the quick check breaks down', [job, r])
            continue
        said[k].append([job['lim'], bool(r['ok'])])
        chk.count('answers: goes on for ever' if r['ok']
                  else 'answers: not known')
    # what repeats by n is shown to by cycle n; what is said for a larger
    # limit needs no more of the run
    recs = []
    for (kind, p, n, a), says in zip(chosen, said):
        L = most if kind == 'a' else n
        if kind != 'u' and any(b and lim < n for lim, b in says):
            L = max(lim for lim, b in says if b)
        recs.append({'p': progs.read(p), 'L': L, 'said': says,
                     'w': [a, n]})
        chk.count({'a': 'runs that do not repeat in time',
                   'u': 'runs that halt', 's': 'runs that spin out',
                   'r': 'runs that repeat'}[kind])
    verdicts, t = vlib.tlc_batch('Recur', recs)
    chk.add_tlc(t)
    late = 0
    for (_, p, _, _), rec, (v,) in zip(chosen, recs, verdicts):
        chk.traces += 1
        judged, _, first, _ = v
        late += first > 48
        for (lim, b), why in zip(rec['said'], judged):
            if why != 'ok':
                chk.violation(why, [p, lim, b, v])
    chk.count('runs that first repeat after cycle 48', late)
    chk.sample([chosen[0][1], recs[0]['said'], verdicts[0][0]])
    chk.sample([chosen[-1][1], recs[-1]['said'], verdicts[-1][0]])
    chk.assumptions.append('Moves in one state over equal cells are one '
                           'cycle; limits count cycles')


if __name__ == '__main__':
    vlib.main('C29', 'model_checking', body)
