"""C15: programs are read and shown as they are written."""
import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib


def table(rng, ns, nc, und):
    return [[[] if rng.random() < und else
             [rng.randrange(nc), rng.randrange(2), rng.randrange(ns)]
             for _ in range(nc)] for _ in range(ns)]


def body(chk):
    rng = progs.rng_for('C15', vlib.SEED)
    tabs = [progs.read(p) for p in progs.corpus()]
    rng.shuffle(tabs)
    tabs = tabs[:vlib.pick(400, 2000)]
    tabs += [progs.read(p) for p in rng.sample(
        list(progs.all_progs(2, 2)), vlib.pick(300, 5000))]
    for ns in range(1, 26):
        for nc in range(1, 11):
            if ns * nc <= vlib.pick(60, 260):
                for und in (0, 0.2, 0.9):
                    tabs.append(table(rng, ns, nc, und))
    for _ in range(vlib.pick(1500, 20000)):
        tabs.append(table(rng, rng.randint(1, 8), rng.randint(1, 6),
                          rng.choice((0, 0.1, 0.5, 1))))
    recs = []
    for rows in tabs:
        und = rng.choice(('---', '1RZ', '0LZ', '-1-', '1R-'))
        recs.append({
            'rows': rows, 'text': progs.show(rows), 'und': und,
            'compact': '_'.join(''.join(
                und if not i else f'{i[0]}{"LR"[i[1]]}{chr(65 + i[2])}'
                for i in row) for row in rows)})
    jobs = [{'op': 'notation', 'text': r['text'], 'compact': r['compact'],
             'params': [len(r['rows']), len(r['rows'][0])]} for r in recs]
    res = vlib.workers('w_tools.py', jobs, timeout=30)
    asked = []
    for rec, r in zip(recs, res):
        if 'ok' not in r:
            chk.violation('reading and showing breaks down', [rec['text'], r])
        else:
            asked.append({**rec, **r['ok']})
    verdicts, t = vlib.tlc_batch('Notation', asked)
    chk.add_tlc(t)
    for rec, v in zip(asked, verdicts):
        (what,), = v
        chk.traces += 1
        if what == 'bad record':
            raise vlib.Machinery(f'bad record {rec["text"]} {rec["compact"]}')
        if what != 'ok':
            chk.violation(what, rec)
    chk.count('programs', len(asked))
    chk.sample([asked[0]['text'], asked[0]['compact']])


vlib.main('C15', 'model_checking', body)
