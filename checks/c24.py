"""C24: rules are remembered with all they depend on, and used where they
fit."""
import lib  # noqa: F401  pylint: disable=unused-import
import build
import progs
import vlib


def window(rng, colors, longest):
    out = []
    for _ in range(rng.randint(0, longest)):
        out.append([rng.choice([c for c in range(colors)
                                if not out or out[-1][0] != c]),
                    rng.randrange(2)])
    return out


def near(rng, side, colors):
    """A side like the given one: the same, longer, shorter, or with a block
    changed."""
    side = [list(b) for b in side]
    how = rng.randrange(6)
    if how == 0 and side:
        side.pop()
    elif how == 1:
        side += window(rng, colors, 2)
    elif how == 2 and side:
        rng.choice(side)[1] ^= 1
    elif how == 3 and side:
        rng.choice(side)[0] = rng.randrange(colors)
    out = []
    for b in side:
        if not out or out[-1][0] != b[0]:
            out.append(b)
    while out and out[-1][0] == 0 and rng.random() < 0.9:
        out.pop()
    return out


def made_up(rng):
    colors = rng.choice((2, 3))
    states = rng.choice((1, 2))
    ev, sides = [], [[], []]
    for _ in range(rng.randint(2, 25)):
        # one or the other side of something there already
        left, right = (near(rng, rng.choice(s), colors)
                       if s and rng.random() < 0.9
                       else window(rng, colors, 3) for s in sides)
        q, h = rng.randrange(states), rng.randrange(colors)
        if rng.random() < 0.35:
            ev.append(['add', q, h, left, right, rng.randrange(2),
                       rng.randrange(2)])
            sides[0].append(left)
            sides[1].append(right)
        else:
            ev.append(['ask', q, h, left, right, rng.randrange(3)])
    return ev


def text(ev):
    def side(s):
        return ','.join(f'{c}s' if one else str(c) for c, one in s)
    return ';'.join(':'.join(map(str, (
        e[0][0] if e[0] == 'add' else 'q', e[1], e[2], side(e[3]),
        side(e[4]), *(e[5:] if e[0] == 'add' else [int(e[5] > 0)]))))
        for e in ev)


def read_side(s):
    return [[int(x.rstrip('s')), int(x.endswith('s'))]
            for x in s.split(',') if x]


def read_tape(s):
    left, scan, right = [], None, []
    for tok in s.split():
        if tok.startswith('['):
            scan = int(tok.strip('[]'))
            continue
        c, _, n = tok.partition('^')
        (left if scan is None else right).append([int(c), int(n or 1)])
    return [left[::-1], scan, right]


def read_events(out):
    events, rules = [], []
    for e in filter(None, out.split(';')):
        f = e.split(':')
        q, h = int(f[1]), int(f[2])
        left, right = read_side(f[3]), read_side(f[4])
        if f[0] == 'a':
            rules.append((q, h, f[8]))
            ops = [[int(x) if x.lstrip('-').isdigit() else x
                    for x in o.split(',')] for o in f[8].split('+')]
            events.append(['add', q, h, left, right, int(f[5]), int(f[6]),
                           read_tape(f[7]), ops])
        else:
            got = [k for k, r in enumerate(rules, 1)
                   if r == (q, h, f[5])] or [-1] if f[5] else [0]
            events.append(['ask', q, h, left, right, got])
    return events


def rust_there(chk):
    try:
        build.build_rust('prover')
        return True
    except RuntimeError:
        chk.count('Rust prover not reachable')
        return False


def memories(chk, rng, recs, idx, rust):
    """The memory by itself."""
    evs = [made_up(rng) for _ in range(vlib.pick(1500, 20000))]
    for kind in ('Python', 'Rust') if rust else ('Python',):
        if kind == 'Rust':
            res = vlib.workers('w_inner.py', [
                {'op': 'raw', 'calls': [['fits', text(e)]]} for e in evs],
                timeout=30, args=('prover',))
        else:
            res = vlib.workers('w_tm.py', [
                {'op': 'fits', 'ev': e} for e in evs], timeout=30)
        for ev, r in zip(evs, res):
            if kind == 'Python' and r.get('exc') in (
                    'ImportError', 'AttributeError', 'TypeError'):
                chk.count('Python memory not reachable')
                continue
            if 'ok' not in r:
                chk.violation('the memory breaks down', [kind, ev, r])
                continue
            out = r['ok']
            if kind == 'Rust':
                got = iter(map(int, filter(None, out[0].split(','))))
                out = [e if e[0] == 'add' else [*e[:5], [next(got)]]
                       for e in ev]
            recs.append({'ev': out})
            idx.append(kind)
            chk.count(f'{kind}: made-up memories')


def runs(chk, rng, recs, idx, rust):
    """The memory in runs; also what is to be asked about the windows."""
    ps = progs.busy(rng, vlib.pick(500, 5000), 'ruled')
    ps += rng.sample(progs.pool('long'), vlib.pick(300, 2000))
    ps += [progs.mutate(rng, p) for p in ps]
    ps += rng.sample(progs.corpus(), vlib.pick(150, 1000))
    ps = list(dict.fromkeys(ps))
    learn = []
    lim, most = vlib.pick((1000, 120), (5000, 500))
    for kind in ('Python', 'Rust') if rust else ('Python',):
        if kind == 'Rust':
            res = vlib.workers('w_inner.py', [
                {'op': 'raw', 'calls': [['learn', p, lim, most]]}
                for p in ps], timeout=60, args=('prover',))
        else:
            res = vlib.workers('w_tm.py', [
                {'op': 'memory', 'prog': p, 'lim': lim, 'most': most}
                for p in ps], timeout=60)
        for p, r in zip(ps, res):
            if kind == 'Python' and r.get('exc') in (
                    'ImportError', 'AttributeError', 'TypeError'):
                chk.count('Python runs not reachable')
                continue
            if 'ok' not in r:
                # how runs break down is C01's and C02's business
                chk.count(f'{kind}: runs that break down')
                continue
            events = read_events(r['ok'][0]) if kind == 'Rust' else r['ok']
            if not events:
                continue
            recs.append({'ev': [e[:7] for e in events]})
            idx.append([kind, p])
            chk.count(f'{kind}: runs with rules')
            for e in events:
                if e[0] == 'ask':
                    chk.count(f'{kind}: rules used', e[5] != [0])
                elif e[8] is not None and all(
                        n is not None and n <= 300
                        for side in (e[7][0], e[7][2]) for _, n in side):
                    learn.append((kind, p, {
                        'p': progs.read(p), 'q': e[1], 't0': e[7],
                        'rule': e[8], 'win': e[3:7],
                        'H': vlib.pick(1500, 8000)}))
    return learn


def body(chk):
    rng = progs.rng_for('C24', vlib.SEED)
    rust = rust_there(chk)
    recs, idx = [], []
    memories(chk, rng, recs, idx, rust)
    learn = runs(chk, rng, recs, idx, rust)
    verdicts, t = vlib.tlc_batch('RuleUse', recs)
    chk.add_tlc(t)
    for what, rec, v in zip(idx, recs, verdicts):
        for verdict, at in v:
            chk.traces += 1
            if verdict != 'ok':
                chk.violation(verdict, [what, rec['ev'][:at]])
    chk.sample(recs[-1]['ev'][:8])
    if not learn:
        return
    learn = list({str(x): x for x in learn}.values())
    verdicts, t = vlib.tlc_batch('RuleLearn', [x[2] for x in learn])
    chk.add_tlc(t)
    for (kind, p, rec), v in zip(learn, verdicts):
        for verdict, n in v:
            chk.traces += 1
            if verdict == 'beyond':
                chk.count('rules proved on a round too long')
                continue
            chk.count(f'{kind}: rules proved')
            if verdict != 'ok':
                chk.violation(verdict, [kind, p, rec, n],
                              key='learn ' + p)
    chk.sample(learn[-1][2])


vlib.main('C24', 'model_checking', body)
