"""C16: normal forms are renamings, and the same for all renamings."""
import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib


def proper(rows):
    """The domain: the first instruction marks and leaves the start, every
    row and column holds an instruction, every state is reachable and every
    color printed."""
    first = rows[0][0]
    if not first or first[0] == 0 or first[2] == 0:
        return False
    if not all(any(row) for row in rows):
        return False
    if not all(any(row[h] for row in rows) for h in range(len(rows[0]))):
        return False
    seen, todo = {0}, [0]
    while todo:
        for i in rows[todo.pop()]:
            if i and i[2] not in seen:
                seen.add(i[2])
                todo.append(i[2])
    printed = {0} | {i[0] for row in rows for i in row if i}
    return (len(seen) == len(rows) and len(printed) == len(rows[0])
            and all(i[2] < len(rows) and i[0] < len(rows[0])
                    for row in rows for i in row if i))


def rename(rng, rows, mirror=True):
    ns, nc = len(rows), len(rows[0])
    s = [0] + rng.sample(range(1, ns), ns - 1)
    t = [0] + rng.sample(range(1, nc), nc - 1)
    m = mirror and rng.random() < .5
    out = [[[]] * nc for _ in range(ns)]
    for q in range(ns):
        for h in range(nc):
            if i := rows[q][h]:
                out[s[q]][t[h]] = [t[i[0]], 1 - i[1] if m else i[1], s[i[2]]]
    return out


def meets_all(rows):
    """When all states and colors have been met, within the steps tree_norm
    runs for (only to choose inputs; TLC decides)."""
    q, tape, pos = 0, {}, 0
    qs, hs = set(), set()
    cycles = 0
    while cycles < 900:
        h = tape.get(pos, 0)
        qs.add(q)
        hs.add(h)
        if len(qs) == len(rows) and len(hs) == len(rows[0]):
            return cycles + 1
        i = rows[q][h] if q < len(rows) and h < len(rows[0]) else []
        if not i:
            return 0
        tape[pos] = i[0]
        pos += 1 if i[1] else -1
        cycles += 1
        q = i[2]
    return 0


def late(rng):
    """Programs that meet their last state or color late."""
    out, base = {}, []
    for kind in ('long', 'ruled'):
        base += [p for p in progs.pool(kind)
                 if meets_all(progs.read(p)) > 60]
    for p in base + [progs.mutate(rng, p) for _ in range(vlib.pick(20, 200))
                     for p in base]:
        if (n := meets_all(rows := progs.read(p))) > 60:
            out.setdefault((n, len(rows)), []).append(rows)
    # of each time the same number
    return [x for ps in out.values()
            for x in rng.sample(ps, min(len(ps), vlib.pick(4, 20)))]


def body(chk):
    rng = progs.rng_for('C16', vlib.SEED)
    ps = [progs.read(p) for p in progs.corpus(5, 4)]
    rng.shuffle(ps)
    ps = ps[:vlib.pick(350, 1100)]
    shapes = [(2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (2, 4), (5, 2), (4, 3)]
    for shape in shapes:
        for und in (0.0, 0.1, 0.3):
            ps += [progs.read(p) for p in progs.randoms(
                rng, vlib.pick(250, 2500), [shape], (und,))]
    small = [progs.read(p) for p in progs.all_progs(2, 2)]
    ps += rng.sample(small, vlib.pick(400, len(small)))
    more = late(rng)
    chk.count('programs that meet their last state or color late', len(more))
    ps += more
    # tree normal form, without mirroring
    jobs, meta = [], []
    for rows in ps:
        if not proper(rows):
            continue
        # the start has to stay the start, and first instructions may go left
        orig = rename(rng, rows)
        if len(rows[0]) <= 3:
            var = [orig] + [rename(rng, rows) for _ in range(2)]
        else:
            var = [orig]
        jobs += [{'op': 'normalize', 'prog': progs.show(v)} for v in var]
        meta.append(('norm', orig, len(var)))
        if meets_all(rows):
            orig = rename(rng, rows, False)
            var = [orig] + [rename(rng, rows, False) for _ in range(2)]
            jobs += [{'op': 'tree_norm', 'prog': progs.show(v)} for v in var]
            meta.append(('tree', orig, len(var)))
    res = iter(vlib.workers('w_tools.py', jobs, timeout=60))
    recs = []
    for kind, orig, n in meta:
        got = [next(res) for _ in range(n)]
        bad = [r for r in got if 'ok' not in r]
        if bad:
            chk.violation('the normal form breaks down',
                          [kind, progs.show(orig), bad[0]])
            continue
        # the normal form of a normal form belongs to the variants, too
        recs.append({'kind': kind, 'p': orig, 'text': [r['ok'] for r in got]})
    again = vlib.workers('w_tools.py', [
        {'op': 'normalize' if r['kind'] == 'norm' else 'tree_norm',
         'prog': r['text'][0]} for r in recs], timeout=60)
    for rec, r in zip(recs, again):
        texts = rec.pop('text')
        if 'ok' not in r:
            chk.violation('the normal form breaks down', [texts[0], r])
        elif len(rec['p'][0]) <= 3 or rec['kind'] == 'tree':
            texts.append(r['ok'])
        rec['outs'] = [progs.read(x) for x in texts]
    verdicts, t = vlib.tlc_batch('Norm', recs)
    chk.add_tlc(t)
    for rec, v in zip(recs, verdicts):
        (what,), = v
        chk.traces += 1
        chk.count(f'{rec["kind"]} {what}' if what == 'outside'
                  else f'{rec["kind"]} forms', len(rec['outs']))
        if what not in ('ok', 'outside'):
            chk.violation(what, [rec['kind'], progs.show(rec['p']),
                                 [progs.show(o) for o in rec['outs']]])
    chk.sample([progs.show(recs[0]['p']), progs.show(recs[0]['outs'][0])])


vlib.main('C16', 'model_checking', body)
