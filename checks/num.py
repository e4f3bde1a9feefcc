"""C18, C19, C20: the formulas for huge numbers add up."""
import sys

import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib

BASES = (2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12)
MODS = (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 20, 24, 27, 30, 36, 54,
        100, 162, 210, 243, 256, 486, 1458, 4374)


def recipe(rng, base, depth):
    k = rng.randrange(8)
    if depth == 0 or k == 0:
        e = rng.choice((rng.randrange(10, 16), rng.randrange(10, 60),
                        rng.randrange(10, 3000)))
        if rng.random() < 0.75:
            return ['exp', base, ['i', e]]
        inner = ['exp', base, ['i', rng.randrange(10, 40)]]
        if rng.random() < 0.5:
            inner = ['add', inner, ['i', rng.randrange(-9, 10)]]
        if rng.random() < 0.2:
            inner = ['add', ['exp', base, inner], ['i', rng.randrange(-9, 10)]]
        return ['exp', base, inner]
    a = recipe(rng, base, depth - 1)
    if k == 1:
        return ['add', a, ['i', rng.choice((1, 2, 3, -1, -2, 5, -7, 10, 40,
                                            -100))]]
    if k == 2:
        return ['mul', a, ['i', rng.choice((2, 3, 4, 5, 6, 7, 9, 10, 12, -1,
                                            -2, -3))]]
    if k == 7:
        return ['div', a, rng.choice((2, 3, 4, 5, 6, 7, 8, 9, 10, 12))]
    # the same parts again, so that terms meet
    b = a if rng.random() < 0.1 else recipe(rng, base, depth - 1)
    return [{3: 'add', 4: 'sub'}.get(k, 'mul' if k == 5 else 'add'), a, b]


def tweak(rng, a):
    """The recipe with one of its numbers changed a little."""
    if a[0] == 'i':
        return ['i', rng.choice((a[1] + 1, a[1] - 1, a[1] + 3, 2 * a[1],
                                 -a[1], a[1] + rng.randrange(-9, 10)))]
    if a[0] == 'exp':
        return ['exp', a[1], tweak(rng, a[2])]
    if a[0] == 'div':
        return ['div', tweak(rng, a[1]), a[2]]
    return ([a[0], tweak(rng, a[1]), a[2]] if rng.random() < 0.5 else
            [a[0], a[1], tweak(rng, a[2])])


def pair(rng, base):
    """Two recipes of one form."""
    n = rng.randrange(8)
    x, y = (recipe(rng, base, 0) for _ in 'xy')
    c, d = (rng.choice((1, 2, 3, 5, 7, 40, 100, 300, 900, -1, -3, -50))
            for _ in 'xy')
    if n == 0:
        e, f = ['i', rng.randrange(10, 40)], rng.randrange(-4, 10)
        return (['mul', ['exp', base, e], ['i', c]],
                ['mul', ['exp', base, ['add', e, ['i', f]]], ['i', d]])
    if n == 1:
        return ['mul', x, ['i', c]], ['mul', y, ['i', c]]
    if n == 2:
        return ['mul', x, ['i', c]], ['mul', x, ['i', d]]
    if n == 3:
        return ['add', x, ['i', c]], ['add', y, ['i', c]]
    if n == 4:
        return ['add', x, ['i', c]], ['add', x, ['i', d]]
    if n == 5:
        return ['sub', x, y], ['sub', x, tweak(rng, y)]
    if n == 6:
        return ['mul', ['add', x, ['i', c]], y], ['mul', ['add', x, ['i', d]],
                                                  y]
    a = recipe(rng, base, rng.choice((1, 1, 2)))
    return a, tweak(rng, a)


OPS = {'C18': ('add', 'sub', 'mul', 'neg', 'radd', 'rsub', 'div'),
       'C19': ('mod', 'divmod'),
       'C20': ('lt', 'le', 'gt', 'ge', 'eq')}


def sweep(rng):
    """Powers whose exponents go through all residues of the moduli that
    the code has tables and special cases for."""
    for m in (54, 162, 486, 1458, 4374):
        for k in range(m // 3):
            e = ['exp', 2, ['i', rng.randrange(10, 40)]]
            yield {'a': ['exp', 2, ['add', e, ['i', k - m // 6]]],
                   'b': ['i', 1], 'ops': [['mod', m]]}
    for base in sorted(set(BASES)):
        for k in range(-24, 24):
            e = ['exp', base, ['i', rng.randrange(10, 40)]]
            for a in (['i', 40 + k], ['add', e, ['i', k]]):
                yield {'a': ['exp', base, a], 'b': ['i', 1],
                       'ops': [[op, m] for op in OPS['C19']
                               for m in rng.sample(range(2, 64), 12)]}


def body(chk):
    rng = progs.rng_for(chk.prop, vlib.SEED)
    jobs = []
    for _ in range(vlib.pick(6000, 80000)):
        base = rng.choice(BASES)
        a = recipe(rng, base, rng.choice((0, 1, 1, 2, 2, 3)))
        b = (['i', rng.choice((0, 1, 2, -1, 3, 7, -5, 12, 60))]
             if rng.random() < 0.2 else
             ['add', a, recipe(rng, base, 0)] if rng.random() < 0.1 else
             recipe(rng, base, rng.choice((0, 1, 1, 2, 2, 3))))
        if rng.random() < 0.4:
            a, b = pair(rng, base)
            if rng.random() < 0.5:
                a, b = b, a
        ops = []
        for op in OPS[chk.prop]:
            if op in ('mod', 'divmod', 'div'):
                ops += [[op, rng.choice(MODS[:10] if op != 'mod' else MODS)]
                        for _ in range(3)]
            else:
                ops.append([op, 0])
        jobs.append({'a': a, 'b': b, 'ops': ops})
    if chk.prop == 'C19':
        jobs += sweep(rng)
    recs, idx = [], []
    for j, r in zip(jobs, vlib.workers('w_num.py', jobs, timeout=60)):
        if 'ok' not in r:
            chk.violation('the arithmetic breaks down', [j, r])
            continue
        if r['ok']['made'] != 'ok':
            chk.count('not made: ' + r['ok']['made'])
            continue
        for op, rec, *rest in r['ok']['recs']:
            if isinstance(rec, str):
                chk.count(f'{op}: {rec}')
                continue
            recs.append(rec)
            sites, *text = rest
            idx.append((op, rec['m'], text, rec['rem'], rec['says'], sites))
    verdicts, t = vlib.tlc_batch('Num', recs)
    chk.add_tlc(t)
    for (op, m, text, rem, says, sites), v in zip(idx, verdicts):
        (what,), = v
        chk.traces += 1
        chk.count(f'{op}, {what}' if what == 'outside' else op)
        if what not in ('ok', 'outside'):
            chk.violation(what, [op, m, text, rem, says, sites],
                          key='; '.join(sites) or
                          f'{op} {m} {text[0]} ; {text[1]}')
    chk.sample(idx[0])
    chk.sample(idx[len(idx) // 2])


if __name__ == '__main__':
    vlib.main(sys.argv[1], 'model_checking', body)
