"""Worker: the arithmetic of tm/num.py on formulas made by recipes."""
import json
import operator
import sys

import rust_stuff

rust_stuff.install()

# pylint: disable=wrong-import-position
from tm import num as N  # noqa: E402

DECLINES = (NotImplementedError, AssertionError, N.ExpModLimit,
            N.ModDepthLimit, RecursionError, OverflowError)

COMPARE = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt,
           'ge': operator.ge, 'eq': operator.eq}


SITE = 'Exp x < n + x'
SITES = set()


def watched(lt=N.Exp.__lt__):
    """Notes when a power is compared with itself plus a number."""
    def less(self, other):
        if isinstance(other, N.Add) and isinstance(other.l, int) \
                and other.l > 0 and other.r is self:
            SITES.add(SITE)
        return lt(self, other)
    return less


N.Exp.__lt__ = watched()


class Outside(Exception):
    """Not a formula of the domain."""


def value(x, bits=150_000):
    """The number itself, to choose inputs by."""
    if isinstance(x, int):
        return x
    if isinstance(x, N.Add):
        return value(x.l, bits) + value(x.r, bits)
    if isinstance(x, N.Mul):
        return value(x.l, bits) * value(x.r, bits)
    if isinstance(x, N.Div):
        q, r = divmod(value(x.num, bits), x.den)
        if r:
            raise Outside('inexact')
        return q
    if isinstance(x, N.Exp):
        e = value(x.exp, 20)
        if e < 0 or e * x.base.bit_length() > bits:
            raise Outside('range')
        return x.base ** e
    raise Outside(type(x).__name__)


BASE = [2]


def encode(x):
    if isinstance(x, int):
        if abs(x) < 2 ** 28:
            return ['i', x]
        if abs(x) > 2 ** 250:
            raise Outside('long')
        base, k = BASE[0], 1
        while base ** (k + 1) < 4096:
            k += 1
        sign, x, digits = (-1 if x < 0 else 1), abs(x), []
        while x:
            x, d = divmod(x, base ** k)
            digits.append(sign * d)
        return ['s', digits, base, k]
    if isinstance(x, N.Add):
        return ['+', encode(x.l), encode(x.r)]
    if isinstance(x, N.Mul):
        return ['*', encode(x.l), encode(x.r)]
    if isinstance(x, N.Div):
        return ['/', encode(x.num), x.den]
    if isinstance(x, N.Exp):
        return ['^', x.base, encode(x.exp)]
    raise Outside(type(x).__name__)


def terms(x):
    """About how many terms it has when multiplied out."""
    if isinstance(x, int):
        return max(1, x.bit_length() // 12)
    if isinstance(x, N.Add):
        return terms(x.l) + terms(x.r)
    if isinstance(x, N.Mul):
        return terms(x.l) * terms(x.r)
    if isinstance(x, N.Div):
        return terms(x.num)
    return max(1, terms(x.exp))


def size(x):
    if isinstance(x, int):
        return 1
    if isinstance(x, N.Add | N.Mul):
        return 1 + size(x.l) + size(x.r)
    if isinstance(x, N.Div):
        return 1 + size(x.num)
    return 1 + size(x.exp)


def tower(x, deep):
    """A positive formula whose exponent is one: seen to be large."""
    if isinstance(x, int):
        return deep and x >= 10
    if isinstance(x, N.Exp):
        return tower(x.exp, True)
    if isinstance(x, N.Mul):
        return ((isinstance(x.l, int) and 0 < x.l or tower(x.l, deep))
                and tower(x.r, deep))
    if isinstance(x, N.Add):
        if isinstance(x.l, int):
            return abs(x.l) < 1000 and tower(x.r, deep)
        return tower(x.l, deep) and tower(x.r, deep)
    if isinstance(x, N.Div):
        return x.den < 500 and tower(x.num, deep)
    return False


def proper(x):
    """Of the domain: exponents of at least 10, those that are formulas
    large; integer parts small beside them; products of positive factors;
    quotients exact."""
    if isinstance(x, int):
        return True
    if isinstance(x, N.Add):
        return (proper(x.l) and proper(x.r)
                and (not isinstance(x.l, int) or abs(x.l) < 1000))
    if isinstance(x, N.Mul):
        if not (proper(x.l) and proper(x.r)):
            return False
        if isinstance(x.l, int):
            return x.l != 0
        return positive(x.l) and positive(x.r)
    if isinstance(x, N.Div):
        return x.den < 500 and proper(x.num)
    if isinstance(x, N.Exp):
        if isinstance(x.exp, int):
            return x.exp >= 10
        return proper(x.exp) and positive(x.exp)
    return False


def plain(x):
    """Integer factors and parts are small all through it."""
    if isinstance(x, int):
        return abs(x) < 1000
    if isinstance(x, N.Add | N.Mul):
        return plain(x.l) and plain(x.r)
    if isinstance(x, N.Div):
        return plain(x.num)
    return plain(x.exp)


def positive(x):
    if isinstance(x, int):
        return x > 0
    if isinstance(x, N.Num) and tower(x, True):
        return True
    try:
        return value(x) > 1000
    except Outside:
        return False


def make(rec):
    """Follows a recipe with the real operations."""
    op = rec[0]
    if op == 'i':
        return rec[1]
    if op == 'exp':
        exp = make(rec[2])
        if isinstance(exp, int) and exp < 10 or not positive(exp):
            raise Outside('outside')
        return N.make_exp(rec[1], exp)
    a = make(rec[1])
    if op == 'div':
        if isinstance(a, int):
            return a
        if a % rec[2] != 0:
            a = a - a % rec[2]
        return a // rec[2]
    b = make(rec[2])
    return {'add': operator.add, 'sub': operator.sub,
            'mul': operator.mul}[op](a, b)


def bases(x):
    if isinstance(x, int):
        return set()
    if isinstance(x, N.Add | N.Mul):
        return bases(x.l) | bases(x.r)
    if isinstance(x, N.Div):
        return bases(x.num)
    return {x.base} | bases(x.exp)


def job(j):
    out = []
    try:
        a, b = make(j['a']), make(j['b'])
    except DECLINES as exc:
        return {'made': type(exc).__name__, 'recs': []}
    if isinstance(a, int) or not (proper(a) and proper(b)) \
            or size(a) > 40 or size(b) > 40 or terms(a) * terms(b) > 60:
        return {'made': 'outside', 'recs': []}
    base = bases(a) | bases(b)
    if len(base) != 1:
        return {'made': 'bases', 'recs': []}
    base, = base
    BASE[0] = base
    text = [str(a), str(b)]
    ea, eb = encode(a), encode(b)
    for op, m in j['ops']:
        if op in COMPARE and not (plain(a) and plain(b)):
            out.append([op, 'large factors'])
            continue
        SITES.clear()
        rec = {'op': op, 'base': base, 'a': ea, 'b': eb, 'm': m, 'rem': -1,
               'says': False, 'out': ['i', 0]}
        try:
            if op in ('add', 'sub', 'mul'):
                res = getattr(operator, op)(a, b)
            elif op == 'radd':
                rec['op'], rec['a'], rec['b'] = 'add', eb, ea
                res = b + a
            elif op == 'rsub':
                rec['op'], rec['a'], rec['b'] = 'sub', eb, ea
                res = b - a
            elif op == 'neg':
                res = -a
            elif op == 'div':
                if a % m:
                    continue
                res = a // m
            elif op == 'mod':
                rec['rem'] = a % m
                res = None
            elif op == 'divmod':
                res, rec['rem'] = divmod(a, m)
            else:
                rec['says'] = bool(COMPARE[op](a, b))
                res = None
        except DECLINES as exc:
            out.append([op, type(exc).__name__])
            continue
        if res is not None:
            if not isinstance(res, int) and (
                    not proper_result(res) or size(res) > 80 or terms(res) > 60
                    or bases(res) - {base}):
                out.append([op, 'outside'])
                continue
            try:
                rec['out'] = encode(res)
            except Outside as exc:
                out.append([op, str(exc)])
                continue
        out.append([op, rec, sorted(SITES), *text, str(res)[:300]])
    return {'made': 'ok', 'recs': out}


def proper_result(x):
    """Nothing in it makes the specification's Euler step wrong: exponents
    that are formulas are large."""
    if isinstance(x, int):
        return True
    if isinstance(x, N.Add | N.Mul):
        return proper_result(x.l) and proper_result(x.r)
    if isinstance(x, N.Div):
        return x.den < 2 ** 15 and proper_result(x.num)
    if isinstance(x, N.Exp):
        return isinstance(x.exp, int) and x.exp >= 0 or (
            not isinstance(x.exp, int) and proper_result(x.exp)
            and positive(x.exp))
    return False


def handle(line):
    try:
        return {'ok': job(json.loads(line))}
    except Outside as exc:
        return {'ok': {'made': str(exc), 'recs': []}}
    except rust_stuff.RustPanic as exc:
        return {'panic': str(exc)[:300]}
    except Exception as exc:  # pylint: disable=broad-except
        return {'exc': type(exc).__name__, 'msg': str(exc)[:300]}


def main():
    sys.setrecursionlimit(3000)
    print('ready', flush=True)
    for line in sys.stdin:
        print(json.dumps(handle(line)), flush=True)


if __name__ == '__main__':
    main()
