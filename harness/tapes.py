"""Tapes and operations on them, to feed to the real tapes."""
import itertools


def sides(colors, cells):
    for n in range(cells + 1):
        for s in itertools.product(range(colors), repeat=n):
            if not s or s[-1]:
                yield s


def compress(cells):
    out = []
    for c in cells:
        if out and out[-1][0] == c:
            out[-1][1] += 1
        else:
            out.append([c, 1])
    return out


def all_tapes(colors, cells):
    ss = [compress(s) for s in sides(colors, cells)]
    for left in ss:
        for h in range(colors):
            for right in ss:
                yield [left, h, right]


def all_ops(colors):
    return [[s, c, k] for s in (0, 1) for c in range(colors) for k in (0, 1)]


def random_side(rng, colors, most=5, longest=9):
    out = []
    for _ in range(rng.randint(0, most)):
        c = rng.choice([x for x in range(colors)
                        if not out or x != out[-1][0]])
        out.append([c, rng.choice((1, 1, 2, 3, rng.randint(1, longest)))])
    while out and out[-1][0] == 0:
        out.pop()
    return out


def random_tape(rng, colors, most=5, longest=9):
    return [random_side(rng, colors, most, longest), rng.randrange(colors),
            random_side(rng, colors, most, longest)]


def random_ops(rng, colors, n):
    """Runs in one direction more often than not, as machines do."""
    shift, out = rng.randrange(2), []
    for _ in range(n):
        if rng.random() < 0.3:
            shift = 1 - shift
        out.append([shift, rng.randrange(colors), rng.randrange(2)])
    return out
