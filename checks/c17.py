"""C17: what the tools say about the graph of states."""
import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib


def sparse(rng, ns, nc):
    """Programs whose states lead to few others, so that the answers vary."""
    rows = []
    for q in range(ns):
        aims = rng.sample(range(ns), rng.randint(1, min(ns, 2)))
        rows.append([[] if rng.random() < 0.1 else
                     [rng.randrange(nc), rng.randrange(2), rng.choice(aims)]
                     for _ in range(nc)])
    return progs.show(rows)


def body(chk):
    rng = progs.rng_for('C17', vlib.SEED)
    ps = progs.corpus()
    ps += rng.sample(list(progs.all_progs(2, 2)), vlib.pick(400, 6500))
    for shape in ((1, 2), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (5, 2),
                  (6, 2), (4, 3), (5, 3), (7, 2), (8, 2), (2, 5)):
        ps += [progs.random_prog(rng, *shape, und, None)
               for _ in range(vlib.pick(60, 500)) for und in (0, 0.1, 0.4)]
        ps += [sparse(rng, *shape) for _ in range(vlib.pick(150, 1500))]
    ps = [p for p in ps if all(i[2] < len(progs.read(p))
                               for row in progs.read(p) for i in row if i)]
    res = vlib.workers('w_tools.py', [{'op': 'graph', 'prog': p} for p in ps],
                       timeout=30)
    recs = []
    for p, r in zip(ps, res):
        if 'ok' not in r:
            chk.violation('the graph breaks down', [p, r])
        else:
            recs.append({'p': progs.read(p), **r['ok']})
    verdicts, t = vlib.tlc_batch('ControlGraph', recs)
    chk.add_tlc(t)
    for rec, v in zip(recs, verdicts):
        (what,), = v
        chk.traces += 1
        chk.count('connected' if rec['connected'] else 'not connected')
        chk.count('simple' if rec['simple'] else 'with a kernel')
        if what != 'ok':
            chk.violation(what, [progs.show(rec['p']), {
                k: x for k, x in rec.items() if k != 'p'}])
    chk.sample([progs.show(recs[0]['p']), recs[0]['flat']])


vlib.main('C17', 'model_checking', body)
