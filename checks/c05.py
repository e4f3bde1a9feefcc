"""C05: a rule's window covers everything the run depended on."""
import lib  # noqa: F401  pylint: disable=unused-import
import tapes
import progs
import vlib


def rust_records(chk, rng):
    jobs, metas = [], []
    for k in range(vlib.pick(500, 5000)):
        colors = rng.choice((2, 3, 4))
        build = tapes.random_ops(rng, colors, rng.choice((4, 10, 20)))
        ops = tapes.random_ops(rng, colors, rng.choice((3, 8, 20)))
        script = ';'.join(','.join(map(str, o)) for o in build)
        jobs.append({'op': 'raw', 'calls':
                     [['tape_new', k, script], ['tape_enum', k, k]]
                     + [['enum_step', k, *o] for o in ops]})
        metas.append(ops)
    try:
        res = vlib.workers('w_inner.py', jobs, timeout=30)
    except vlib.Machinery:
        chk.count('Rust internals not reachable')
        return [], []
    recs, idx = [], []
    for ops, r in zip(metas, res):
        if 'ok' not in r:
            chk.violation('the Rust tape breaks down', [ops, r])
            continue
        side, left, right, scan = 0, [], [], None
        for tok in r['ok'][0].split('|')[0].split():
            if tok.startswith('['):
                scan, side = int(tok.strip('[]')), 1
                continue
            c, _, n = tok.partition('^')
            (right if side else left).append([int(c), int(n or 1)])
        out = []
        for o, line in zip(ops, r['ok'][2:]):
            f = line.split('|')
            out.append(['s', *o, [int(x) for x in f[-2].split(',')],
                        [int(x) for x in f[-1].split(',')]])
        recs.append({'t0': [left[::-1], scan, right], 'ops': out})
        idx.append({'rust': ops})
    return recs, idx


def body(chk):
    rng = progs.rng_for('C05', vlib.SEED)
    jobs = []
    # every short run over every small tape of two colors
    short = [[a, b] for a in tapes.all_ops(2) for b in tapes.all_ops(2)]
    for t in tapes.all_tapes(2, 3):
        for ops in rng.sample(short, vlib.pick(6, 64)):
            jobs.append({'op': 'enum', 't0': t,
                         'ops': [['s', *o] for o in ops]})
    for _ in range(vlib.pick(2500, 30000)):
        colors = rng.choice((2, 3, 4))
        ops = [['s', *o] for o in tapes.random_ops(rng, colors,
                                                   rng.choice((3, 8, 25)))]
        for _ in range(rng.choice((0, 0, 1, 3))):
            ops.insert(rng.randrange(len(ops) + 1),
                       ['g', rng.randrange(2), rng.randrange(4), 0])
        jobs.append({'op': 'enum',
                     't0': tapes.random_tape(rng, colors, longest=4),
                     'ops': ops})
    res = vlib.workers('w_tape.py', jobs, timeout=30)
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            chk.violation('the tape breaks down', [job, r])
            continue
        recs.append(r['ok'])
        idx.append(job)
    more, midx = rust_records(chk, rng)
    chk.count('Rust tapes', len(more))
    recs += more
    idx += midx
    verdicts, t = vlib.tlc_batch('EnumTape', recs)
    chk.add_tlc(t)
    for job, rec, v in zip(idx, recs, verdicts):
        for what, at in v:
            chk.traces += 1
            chk.count('operations', len(rec['ops']))
            if what != 'ok':
                chk.violation(what, [rec['t0'], rec['ops'][:at]])
    chk.sample(recs[-1])


vlib.main('C05', 'model_checking', body)
