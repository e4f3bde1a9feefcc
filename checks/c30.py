"""C30: backward reasoning answers what the search backward shows."""
import os

import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib

GOALS = {'halt': 'cant_halt', 'erase': 'cant_blank', 'spin': 'cant_spin_out'}


def has_goal(rows, goal):
    """(the others are all alike)"""
    slots = [(q, h, i) for q, row in enumerate(rows)
             for h, i in enumerate(row)]
    return any(not i if goal == 'halt' else i and (
        h and not i[0] if goal == 'erase' else not h and i[2] == q)
               for q, h, i in slots)


def chosen(name):
    with open(os.path.join(vlib.VERIF, 'data', name),
              encoding='utf-8') as fd:
        return [line.rstrip('\n').split('\t') for line in fd]


def body(chk):
    rng = progs.rng_for('C30', vlib.SEED)
    ps = progs.corpus(8, 6)
    rng.shuffle(ps)
    ps = ps[:vlib.pick(1200, 5000)]
    ps += [progs.mutate(rng, p) for p in ps]
    small = progs.all_progs(2, 2)
    ps += small
    for shape in ((3, 2), (2, 3), (4, 2), (3, 3), (2, 4), (5, 2), (6, 2),
                  (8, 2), (4, 4), (6, 3), (5, 5)):
        ps += progs.randoms(rng, vlib.pick(300, 3000), [shape],
                            (0.0, 0.1, 0.3))
    for kind in ('undfnd', 'spnout', 'blank', 'ruled'):
        some = progs.busy(rng, vlib.pick(200, 1500), kind)
        ps += some + [progs.mutate(rng, p) for p in some]
    ps = list(dict.fromkeys(ps))
    deepest = vlib.pick(30, 40)
    # searches that run out late or are wide
    hard = chosen('backward.txt')
    hard = rng.sample(hard, vlib.pick(400, len(hard)))
    hard += chosen('wide.txt')
    ps += [p for _, p in hard]
    ps += [progs.mutate(rng, p) for _, p in hard for _ in range(2)]
    hard = {p: goal for goal, p in hard}
    jobs, recs = [], []
    for p in ps:
        rows = progs.read(p)
        for goal, op in GOALS.items():
            if hard.get(p, goal) != goal:
                continue
            if not has_goal(rows, goal) and rng.random() < 0.95:
                continue
            lims = sorted({deepest, rng.randrange(0, deepest),
                           rng.randrange(0, 4)})
            for lim in lims:
                jobs.append({'op': op, 'prog': p, 'lim': lim})
            recs.append({'p': rows, 'goal': goal, 'D': deepest,
                         'said': [[lim] for lim in lims]})
    res = iter(vlib.workers('w_tm.py', jobs, timeout=20))
    jobs = iter(jobs)
    good = []
    for rec in recs:
        ok = True
        for x in rec['said']:
            job, r = next(jobs), next(res)
            if 'ok' not in r:
                chk.violation('the search breaks down', [job, r])
                ok = False
                continue
            x.append(-1 if r['ok'] is None else r['ok'])
        if ok:
            good.append(rec)
    verdicts, t = vlib.tlc_batch('Backward', good)
    chk.add_tlc(t)
    for rec, ((judged, n, wide, end),) in zip(good, verdicts):
        chk.traces += 1
        chk.count(f'search ends: {end}')
        if wide > 30 and end == 'nothing before':
            chk.count('search ends: nothing before, after a level of more than 30')
        if n > 5 and end == 'nothing before':
            chk.count('search ends: nothing before, after more than 5 levels')
        for x, why in zip(rec['said'], judged):
            if why != 'ok':
                chk.violation(why, [progs.show(rec['p']), rec['goal'], x, n,
                                    end])
    for k in (0, len(good) // 2, -1):
        chk.sample([progs.show(good[k]['p']), good[k]['goal'],
                    good[k]['said'], verdicts[k][0]])


if __name__ == '__main__':
    vlib.main('C30', 'model_checking', body)
