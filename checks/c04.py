"""C04: the compressed tape is the tape."""
import lib  # noqa: F401  pylint: disable=unused-import
import tapes
import progs
import vlib


def rust_records(chk, rng):
    """The same for the crate's tape, built up by operations from blank."""
    jobs, metas = [], []
    for k in range(vlib.pick(400, 4000)):
        colors = rng.choice((2, 3, 4))
        ops = tapes.random_ops(rng, colors, rng.choice((6, 25, 60)))
        jobs.append({'op': 'raw', 'calls':
                     [['tape_new', k, '']]
                     + [['tape_step', k, *o] for o in ops]})
        metas.append(ops)
    try:
        res = vlib.workers('w_inner.py', jobs, timeout=30)
    except vlib.Machinery:
        chk.count('Rust internals not reachable')
        return [], []
    recs, idx = [], []
    for job, ops, r in zip(jobs, metas, res):
        if 'ok' not in r:
            chk.violation('the Rust tape breaks down', [ops, r])
            continue
        out = []
        for (shift, color, skip), line in zip(ops, r['ok'][1:]):
            f = line.split('|')
            side, left, right, scan = 0, [], [], None
            for tok in f[1].split():
                if tok.startswith('['):
                    scan, side = int(tok.strip('[]')), 1
                    continue
                c, _, n = tok.partition('^')
                (right if side else left).append([int(c), int(n or 1)])
            left.reverse()
            one = [[[c, int(n == 1)] for c, n in s] for s in (left, right)]
            counts = [[int(x) for x in s.split(',') if x] for s in f[7:9]]
            apart = (counts == [[n for _, n in left], [n for _, n in right]]
                     and int(f[6]) == len(left) + len(right))
            out.append({'shift': shift, 'color': color, 'skip': skip,
                        'stepped': int(f[0]), 'l': left, 'h': scan,
                        'r': right, 'marks': int(f[2]), 'blank': int(f[3]),
                        'edges': [int(f[4]), int(f[5])], 'lsig': one[0],
                        'rsig': one[1], 'text': '', 'apart': apart})
        recs.append({'t0': [[], 0, []], 'seq': True, 'ops': out})
        idx.append({'rust': ops})
    return recs, idx


def body(chk):
    rng = progs.rng_for('C04', vlib.SEED)
    chk.add_tlc(d := vlib.tlc('TapeRle', vlib.pick('TapeRleDesign.cfg',
                                                   'TapeRleDeep.cfg')))
    chk.count('tapes in the design check', d.distinct)
    jobs = [{'op': 'tape', 'seq': False, 't0': t, 'ops': tapes.all_ops(3)}
            for t in tapes.all_tapes(3, vlib.pick(2, 3))]
    jobs += [{'op': 'tape', 'seq': False, 't0': t, 'ops': tapes.all_ops(2)}
             for t in tapes.all_tapes(2, vlib.pick(4, 6))]
    for _ in range(vlib.pick(700, 8000)):
        colors = rng.choice((2, 3, 4, 6))
        jobs.append({'op': 'tape', 'seq': True,
                     't0': tapes.random_tape(rng, colors),
                     'ops': tapes.random_ops(rng, colors,
                                             rng.choice((5, 20, 50)))})
    res = vlib.workers('w_tape.py', jobs, timeout=30)
    recs, idx = [], []
    for job, r in zip(jobs, res):
        if 'ok' not in r:
            chk.violation('the tape breaks down', [job, r])
            continue
        recs.append(r['ok'])
        idx.append(job)
    more, midx = rust_records(chk, rng)
    chk.count('Rust tapes', len(more))
    recs += more
    idx += midx
    verdicts, t = vlib.tlc_batch('TapeRle', recs, cfg='TapeRle.cfg')
    chk.add_tlc(t)
    for job, rec, v in zip(idx, recs, verdicts):
        for what, at in v:
            chk.traces += 1
            chk.count('operations', len(rec['ops']))
            if what != 'ok':
                chk.violation(what, [rec['t0'], rec['seq'],
                                     rec['ops'][:at][-3:]])
    chk.sample([recs[-1]['t0'], recs[-1]['ops'][:2]])


vlib.main('C04', 'model_checking', body)
