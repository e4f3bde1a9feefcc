"""C09-C13: what the reasoners claim never happens does not happen."""
import sys

import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib

# property: (worker op, depths, pool kinds, the facts that refute the claim,
#            domain)
D, F = progs.start_reentered, progs.every_slot_reached

KINDS = {
    'C09': ('cant_halt', (1, 2, 4, 8, 20, 60), ('undfnd', 'ruled'),
            lambda f: f[0] == 'undfnd', (D, F)),
    'C10': ('cant_blank', (1, 2, 4, 8, 20, 60), ('blank',),
            lambda f: f[6] >= 0, (D, F)),
    'C11': ('cant_spin_out', (1, 2, 4, 8, 20, 60), ('spnout', 'ruled'),
            lambda f: f[0] == 'spnout', (D, F)),
    'C12': ('segment', (2, 3, 4, 6, 9), ('undfnd', 'ruled'),
            lambda f: f[0] == 'undfnd', (F,)),
    'C13': ('term_or_rec', (3, 20, 100, 600), ('undfnd', 'ruled'),
            lambda f: f[0] == 'undfnd', ()),
}


def candidates(rng, kinds):
    ps = []
    for kind in kinds:
        some = progs.busy(rng, vlib.pick(900, 5000), kind)
        ps += some
        ps += [progs.mutate(rng, p) for p in some for _ in (1, 2)]
    corpus = progs.corpus()
    rng.shuffle(corpus)
    ps += corpus[:vlib.pick(200, 2000)]
    ps += progs.all_progs(2, 2)
    for shape in ((3, 2), (2, 3), (3, 3), (4, 2)):
        ps += progs.randoms(rng, vlib.pick(5000, 60000), [shape],
                            (0.1, 0.2, 0.4))
    ps += ['0' + p[1:] for p in rng.sample(ps, 300)]
    return list(dict.fromkeys(ps))


def filled(rng, ps, chosen):
    """Facts again, with the slots the run never comes to given something."""
    out = []
    for p, r in chosen:
        keep = {tuple(r[2])} if r[2] else set()
        out.append(progs.fill(rng, p, keep))
    return [p for p in out if p not in set(ps)]


def body(chk):
    op, depths, kinds, refutes, domain = KINDS[chk.prop]
    rng = progs.rng_for(chk.prop, vlib.SEED)
    ps = candidates(rng, kinds)
    if op == 'term_or_rec':
        ps = [p for p in ps if p.startswith('1RB')]
    ps = [p for p in ps if all(f(p) for f in domain)]
    # only for choosing what to ask TLC about: most programs do nothing
    H = vlib.pick(300, 3000)
    want = {'undfnd': lambda r: r[0] == 'undfnd',
            'spnout': lambda r: r[0] == 'spnout',
            'blank': lambda r: bool(r[4])}[
                {'C10': 'blank', 'C11': 'spnout'}.get(chk.prop, 'undfnd')]
    long = {p for k in kinds for p in progs.pool(k)}
    likely, rest = [], []
    for p in ps:
        r = progs.simulate(p, H if p in long else 100)
        (likely if want(r) else rest).append((p, r))
    extra = [p for p in filled(rng, ps, likely)
             if all(f(p) for f in domain)]
    asked = ([p for p, _ in likely] + extra
             + [p for p, _ in rng.sample(rest, min(len(rest), 400))])
    facts, t = vlib.tlc_batch(
        'Facts', [{'p': progs.read(p), 'H': H} for p in asked])
    chk.add_tlc(t)
    jobs, known = [], []
    for p, (f,) in zip(asked, facts):
        hit = refutes(f)
        chk.count('refutable' if hit else 'not refutable within the horizon')
        for d in depths if hit else depths[-1:]:
            jobs.append({'op': op, 'prog': p, 'lim': d})
            known.append((hit, f))
    res = vlib.workers('w_tm.py', jobs, timeout=20)
    for job, (hit, f), r in zip(jobs, known, res):
        if 'crash' in r:
            chk.count('no answer in time')
            continue
        if 'ok' not in r:
            chk.violation('the reasoner breaks down', [job, r],
                          key=f'{op} {job["prog"]}')
            continue
        claim = r['ok'] not in (None, False)
        chk.count('claims' if claim else 'declines')
        if claim and hit:
            chk.violation('claimed impossible, but it happens',
                          [job, r['ok'], f], key=f'{op} {job["prog"]}')
        chk.traces += 1
    chk.sample([asked[0], facts[0][0]])
    chk.sample([asked[-1], facts[-1][0]])
    hunt(chk, rng, op, depths, kinds, refutes, domain)


def hunt(chk, rng, op, depths, kinds, refutes, domain):
    """Many programs that look refutable; TLC judges whatever is claimed."""
    what = {'C10': 'b', 'C11': 's'}.get(chk.prop, 'u')
    H = vlib.pick(400, 2000)
    base = [p for k in kinds for p in progs.pool(k)] + progs.corpus(8, 6)
    n = vlib.pick(30000, 400000)
    found = progs.scout(rng, what, n, base=base, least=3, most=H)
    found += progs.scout(rng, what, n, und=60 if what == 'u' else 20,
                         shapes=((3, 2), (2, 3), (4, 2), (3, 3), (2, 4),
                                 (5, 2), (4, 3)), least=4, most=H)
    ps = [p for _, _, p in found]
    if op == 'term_or_rec':
        ps = [p for p in ps if p.startswith('1RB')]
    ps = [p for p in dict.fromkeys(ps) if all(f(p) for f in domain)]
    jobs = []
    for p in ps:
        jobs += [{'op': op, 'prog': p, 'lim': d}
                 for d in (depths[-1], rng.choice(depths[:-1]))]
    chk.count('programs hunted', len(ps))
    claims = {}
    for job, r in zip(jobs, vlib.workers('w_tm.py', jobs, timeout=20)):
        if 'ok' in r and r['ok'] not in (None, False):
            claims.setdefault(job['prog'], (job, r))
    chk.count('claims among them', len(claims))
    some = sorted(claims)[:2000]
    if not some:
        return
    facts, t = vlib.tlc_batch(
        'Facts', [{'p': progs.read(p), 'H': H} for p in some])
    chk.add_tlc(t)
    for p, (f,) in zip(some, facts):
        job, r = claims[p]
        if refutes(f):
            chk.violation('claimed impossible, but it happens',
                          [job, r['ok'], f], key=f'{op} {p}')


if __name__ == '__main__':
    vlib.main(sys.argv[1], 'model_checking', body)
