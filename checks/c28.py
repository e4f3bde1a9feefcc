"""C28: formulas as they are written, spelled out and estimated."""
import lib  # noqa: F401  pylint: disable=unused-import
import num
import progs
import vlib

BASES = (*num.BASES, 10, 10, 10)


def tall(rng):
    """Towers of tens."""
    e = ['i', rng.choice((rng.randrange(10, 20), rng.randrange(10, 10 ** 6),
                          rng.randrange(10, 10 ** 8)))]
    for _ in range(rng.randrange(1, 6)):
        if rng.random() < 0.2:
            e = ['add', e, ['i', rng.randrange(-5, 9)]]
        if rng.random() < 0.2:
            e = ['mul', e, ['i', rng.choice((2, 3, 7, 10, 12))]]
        e = ['exp', 10, e]
        if rng.random() < 0.2:
            e = ['div', e, rng.choice((2, 4, 5))]
    return e


def long(rng, base, n):
    """A sum of n powers."""
    step = rng.randrange(9, 14)
    e = ['exp', base, ['i', 20]]
    for k in range(1, n):
        e = ['add', e, ['exp', base, ['i', 20 + step * k]]]
    return e


def wide(rng, base, n):
    """A sum of n products, which stay apart."""
    def product(k):
        return ['mul', ['exp', base, ['i', rng.randrange(10, 500) + (2200 * k if lift else 0)]],
                ['add', ['exp', base, ['i', rng.randrange(600, 900) + 2200 * k]],
                 ['i', rng.choice((1, -1, 5, 7))]]]
    lift = rng.random() < 0.5
    e = product(n)
    for k in range(1, n):
        e = ['add', e, product(n - k)]
    return e


def integers(rng):
    for k in range(1, 40):
        for d in (-1, 0, 1):
            yield 10 ** k + d
        yield rng.randrange(10 ** (k - 1), 10 ** k)
        yield 31 * 10 ** k
        yield 32 * 10 ** k
    for _ in range(60):
        k = rng.randrange(12, 400)
        yield rng.randrange(10 ** k, 10 ** (k + 1))


def powers(rng):
    bases = list(range(2, 130)) + [n * n for n in range(11, 60)]
    for _ in range(vlib.pick(600, 6000)):
        bases.append(rng.randrange(2, 10 ** rng.randrange(2, 30)) ** 2)
    for n in rng.sample(range(9000, 200_000), vlib.pick(1000, 20000)):
        bases.append(n * n)
    for n in (9170, 34787, 136837, 141614, 147674, 189714, 2 ** 27 + 1,
              2 ** 31 - 1, 10 ** 9 + 7, 10 ** 20 + 39):
        bases += [n, n * n, n * n + 1, n * n - 1, n ** 4, n ** 3]
    for b in bases:
        e = (['i', rng.randrange(1, 40)] if rng.random() < 0.6 else
             ['exp', 2, ['i', rng.randrange(10, 40)]])
        yield {'op': 'power', 'base': str(b), 'exp': e, 'how':
               'pow' if e[0] == 'exp' and rng.random() < 0.5 else 'make',
               'mods': rng.sample((7, 11, 13, 32, 81, 125, 97, 101, 251), 5)}


def body(chk):
    rng = progs.rng_for('C28', vlib.SEED)
    jobs = []
    for _ in range(vlib.pick(5000, 60000)):
        base = rng.choice(BASES)
        jobs.append(num.recipe(rng, base, rng.choice((0, 1, 1, 2, 2, 3))))
    jobs += [tall(rng) for _ in range(vlib.pick(1200, 12000))]
    for n in (*range(50, 75), 12, 33) if vlib.TIER == 'quick' else \
            (*range(10, 80), *range(50, 75)):
        jobs.append(long(rng, rng.choice((2, 3, 10)), n))
    for n in range(4, 30):
        for _ in range(vlib.pick(2, 10)):
            jobs.append(wide(rng, rng.choice((2, 3, 7)), n))
    jobs = [{'op': 'formula', 'a': a} for a in jobs]
    jobs += [{'op': 'shown', 'n': str(s * n)} for n in integers(rng)
             for s in (1, -1)]
    jobs += powers(rng)
    recs, idx = [], []
    for j, r in zip(jobs, vlib.workers('w_text.py', jobs, timeout=60)):
        if 'ok' not in r:
            chk.violation('a formula cannot be written', [j, r])
            continue
        for rec, text in r['ok']:
            if rec['op'] == 'tally':
                chk.count(f'{j["op"]}, not judged: {rec["why"]}')
                continue
            recs.append(rec)
            idx.append(text)
    verdicts, t = vlib.tlc_batch('Written', recs, cfg='Written.cfg')
    chk.add_tlc(t)
    for rec, text, v in zip(recs, idx, verdicts):
        (what,), = v
        chk.traces += 1
        chk.count(rec['op'])
        if what != 'ok':
            chk.violation(what, [text, rec], key=text)
    chk.sample(recs[0])
    chk.sample(recs[-1])


if __name__ == '__main__':
    vlib.main('C28', 'model_checking', body)
