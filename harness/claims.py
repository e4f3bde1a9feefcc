"""From what a simulator of the repository returned to the claims that
spec/Outcome.tla judges."""
import progs


def base(prog, H):
    return {'p': progs.read(prog), 'kind': 'alive', 'steps': -1,
            'atmost': False, 'slot': [], 'marks': -1, 'blanks': [],
            'full': False, 'H': H}


def cap(x):
    """TLC's integers are 32 bits wide: a larger count cannot be reached
    within H anyway, so it is passed on as not counted."""
    return x if isinstance(x, int) and -1 <= x < 2 ** 30 else -1


def machine(prog, r, H):
    """Claim of the Python machine without macros."""
    c = base(prog, H)
    counted = r['steps'] != -1
    c['steps'] = cap(r['steps'])
    if r['marks'] is not None and r['marks'] < 2 ** 30:
        c['marks'] = r['marks']
    c['blanks'] = [[q, cap(s)] for q, s in r['blanks']]
    c['full'] = counted
    if r['undfnd'] is not None:
        c['kind'], c['slot'] = 'undfnd', r['undfnd'][1]
    elif r['spnout'] is not None:
        c['kind'] = 'spnout'
    elif r['infrul'] is not None:
        c['kind'] = 'infrul'
    if not counted:
        c['steps'] = -1
        if c['kind'] in ('alive', 'infrul'):
            c['marks'], c['blanks'] = -1, []
    return c


def rust(prog, r, H):
    """Claim of one of the Rust simulators."""
    c = base(prog, H)
    c['steps'] = cap(r['steps'])
    exact = r['rulapp'] == 0
    c['atmost'] = not exact
    c['full'] = exact
    c['marks'] = cap(r['marks'])
    c['blanks'] = [[q, cap(s)] for q, s in r['blanks']]
    if r['result'] in ('undfnd', 'spnout', 'infrul'):
        c['kind'] = r['result']
    if r['undfnd'] is not None:
        c['slot'] = r['undfnd'][1]
    if not exact and c['kind'] in ('alive', 'infrul'):
        c['steps'], c['marks'], c['blanks'] = -1, -1, []
    return c


def doubtful(c, t):
    """Whether a claim is worth putting to TLC, given how the run goes."""
    kind, steps, slot, marks, blanks = t
    ends = kind != 'a'
    exact = c['steps'] >= 0 and not c['atmost']
    if c['kind'] in ('infrul', 'forever'):
        return ends and not (c['kind'] == 'forever' and kind == 's')
    if c['kind'] == 'alive':
        if exact and ends and c['steps'] > steps:
            return True
    else:
        if not ends:
            return exact and c['steps'] < steps
        if kind != c['kind'][0] or (exact and c['steps'] != steps):
            return True
        if c['steps'] > steps or c['marks'] not in (-1, marks):
            return True
        if kind == 'u' and c['slot'] != slot:
            return True
        if c['full'] and len(c['blanks']) != len(blanks):
            return True
    return any(q not in blanks and (ends or 0 <= n <= steps)
               or q in blanks and exact and n >= 0 and n != blanks[q]
               or q in blanks and not exact and n > blanks[q]
               for q, n in c['blanks'])


def hunt(chk, rng, op, claim, n, lim, most, most_tlc=16):
    """Claims about many more programs, most of which end late.  What does
    not look right is put to the specification."""
    import vlib
    pool = progs.pool('long') + progs.pool('ruled')
    ps = rng.sample(progs.pool('long'), min(n // 5, len(progs.pool('long'))))
    ps += [p for _, _, p in progs.scout(
        rng, 'us', n, und=60, least=30, most=most,
        base=rng.sample(pool, min(len(pool), n // 3)))]
    ps += [p for _, _, p in progs.scout(
        rng, 'us', n // 2, und=80, least=12, most=most,
        shapes=((2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (2, 4), (5, 2)))]
    # what is known to fail is asked every time
    known = [k[len(op) + 1:] for k in vlib.known_keys(chk.prop)
             if k.startswith(op + ' ')]
    ps = list(dict.fromkeys(known + ps))
    jobs = [{'op': op, 'prog': p, 'lim': lim} for p in ps]
    res = vlib.workers('w_tm.py', jobs, timeout=60)
    recs = []
    for job, r, t in zip(jobs, res, progs.truth(ps, most + 10)):
        if 'ok' not in r:
            chk.violation('the run does not finish normally', [job, r])
            continue
        c = claim(job['prog'], r['ok'], t[1] + 10)
        chk.count('hunted ' + op + ' ' + c['kind'])
        if doubtful(c, t):
            recs.append((t[1], job, r['ok'], c))
    chk.count('doubtful claims', len(recs))
    recs = sorted(recs, key=lambda x: x[0])[:most_tlc]
    if recs:
        verdicts, t = vlib.tlc_batch('Outcome', [c for *_, c in recs])
        chk.add_tlc(t)
        for (_, job, r, c), v in zip(recs, verdicts):
            for what, m in v:
                chk.traces += 1
                if what not in ('ok', 'beyond'):
                    chk.violation(what, [job, r, m], key=f'{op} {job["prog"]}')
