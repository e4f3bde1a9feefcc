"""C23: instruction sequences list slots in the order the run meets them."""
import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib


def ends(rows, lim):
    """The run uses all slots but one, stops or spins out within lim steps
    (to choose inputs: otherwise the code runs on for 10^8 cycles)."""
    r = progs.simulate(progs.show(rows), lim)
    if r[0] != 'alive':
        return True
    q, pos, tape, met = 0, 0, {}, set()
    for _ in range(lim):
        h = tape.get(pos, 0)
        met.add((q, h))
        c, s, t = rows[q][h]
        tape[pos] = c
        pos += 1 if s else -1
        q = t
    return len(met) >= len(rows) * len(rows[0])


def body(chk):
    rng = progs.rng_for('C23', vlib.SEED)
    H = vlib.pick(3000, 20000)
    ps = [p for p in progs.corpus(6, 6) if p.startswith('1RB')]
    for kind in ('undfnd', 'spnout', 'blank', 'ruled'):
        ps += progs.busy(rng, vlib.pick(150, 900), kind)
    ps += progs.randoms(rng, vlib.pick(1500, 15000))
    ps += rng.sample(list(progs.all_progs(2, 2)), vlib.pick(300, 3000))
    ps = [p for p in dict.fromkeys(ps) if p.startswith('1RB')
          and ends(progs.read(p), H)]
    res = vlib.workers('w_tools.py', [{'op': 'instr_seq', 'prog': p}
                                      for p in ps], timeout=20)
    recs, idx = [], []
    for p, r in zip(ps, res):
        if 'crash' in r:
            chk.count('no answer in time')
        elif 'ok' not in r:
            chk.violation('the listing breaks down', [p, r])
        else:
            recs.append({'p': progs.read(p), 'H': H, 'items': [
                [progs.read(q), n, s] for q, n, s in r['ok']]})
            idx.append((p, r['ok']))
    if len(recs) < len(ps) // 2:
        chk.violation('most listings do not end', len(recs))
    verdicts, t = vlib.tlc_batch('InstrSeq', recs)
    chk.add_tlc(t)
    for (p, r), v in zip(idx, verdicts):
        (what, n), = v
        chk.traces += 1
        chk.count('slots listed', len(r))
        if what == 'beyond':
            chk.count('beyond horizon')
        elif what != 'ok':
            chk.violation(what, [p, r, n])
    chk.sample(list(idx[0]))


vlib.main('C23', 'model_checking', body)
