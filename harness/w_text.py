"""Worker: formulas as they are written, spelled out and estimated."""
import json
import re
import sys

import rust_stuff

rust_stuff.install()

# pylint: disable=wrong-import-position
import w_num as W  # noqa: E402
from tm import num as N  # noqa: E402

sys.set_int_max_str_digits(1_000_000)

TOKEN = re.compile(r'\(\?\?\?\)|\(~10\^\d+\)|\d+|\*\*|//|[-+*()]| +|.', re.S)


def groups(n):
    n, out = abs(n), []
    while n:
        n, d = divmod(n, 10_000)
        out.append(d)
    return out or [0]


def tokens(text):
    out = []
    for t in TOKEN.findall(text):
        if t == '(???)':
            out.append(['?'])
        elif t.startswith('(~'):
            raise W.Outside('shortened')
        elif t.isdigit():
            out.append(['n', W.encode(int(t))])
        elif t.strip():
            out.append(['o', t])
    return out


def estimate(x, rec, out):
    """What the estimate says."""
    est = x.estimate()
    if isinstance(est, N.Tet):
        if rec['base'] == 10:
            out.append({**rec, 'op': 'tower', 'height': est.height})
        return None
    if not isinstance(est, N.Exp) or est.base != 10:
        return -2
    if isinstance(est.exp, int):
        return est.exp
    return -2


def formula(j):
    x = W.make(j['a'])
    if isinstance(x, int) or not W.proper(x) or W.size(x) > 500 \
            or W.terms(x) > 140:
        raise W.Outside('outside')
    base = W.bases(x)
    if len(base) != 1:
        raise W.Outside('bases')
    W.BASE[0], = base
    rec = {'base': W.BASE[0], 'a': W.encode(x)}
    out = []
    wide = W.terms(x) > 24
    if wide:
        # residues are enough
        rec['base'] = 0
    for text in (str(x), N.show_number(x)):
        try:
            out.append({**rec, 'op': 'text', 'tokens': tokens(text)})
        except W.Outside as exc:
            out.append({'op': 'tally', 'why': str(exc)})
    if wide:
        return [[r, str(x)[:300]] for r in out]
    rough = {}
    if W.tower(x, True):
        if (about := estimate(x, rec, out)) is not None:
            rough['about'] = about
        try:
            rough['places'] = x.digits()
        except OverflowError:
            pass
    try:
        W.value(x, 20_000)
    except W.Outside:
        if base == {10} and abs(rough.get('about', -1)) < 2 ** 28 \
                and 'about' in rough:
            out.append({**rec, 'op': 'about', 'k': ['i', rough['about']]})
        if base == {10} and rough.get('places', 2 ** 28) < 2 ** 28:
            out.append({**rec, 'op': 'about', 'k': ['i', rough['places']]})
    else:
        n = int(x)
        out.append({**rec, 'op': 'int', 'groups': groups(n), 'neg': n < 0,
                    'places': -1, 'about': -1, **rough})
    return [[r, str(x)[:300]] for r in out]


def shown(j):
    n = int(j['n'])
    text = N.show_number(n)
    rec = {'op': 'shown', 'groups': groups(n), 'neg': n < 0,
           'exact': text == j['n'], 'minus': text.startswith('-'), 'k': -1}
    if not rec['exact']:
        m = re.fullmatch(r'-?\(~10\^(\d+)\)', text)
        rec['k'] = int(m[1]) if m else -2
    return [[rec, j['n'][:60] + ' as ' + text[:80]]]


def power(j):
    exp = W.make(j['exp'])
    if not isinstance(exp, int) and not W.positive(exp):
        raise W.Outside('outside')
    base = int(j['base'])
    try:
        x = N.make_exp(base, exp) if j['how'] == 'make' else base ** exp
    except W.DECLINES as exc:
        raise W.Outside(type(exc).__name__) from exc
    ends = []
    for m in j['mods']:
        try:
            ends.append([m, int(x % m)])
        except W.DECLINES:
            pass
    W.BASE[0] = 2
    return [[{'op': 'power', 'groups': groups(base), 'exp': W.encode(exp),
              'ends': ends}, f'{base} ** {exp} as {x}'[:300]]]


OPS = {'formula': formula, 'shown': shown, 'power': power}


def handle(job):
    try:
        return {'ok': OPS[job['op']](job)}
    except W.Outside as exc:
        return {'ok': [[{'op': 'tally', 'why': str(exc)}, '']]}
    except W.DECLINES as exc:
        return {'ok': [[{'op': 'tally', 'why': type(exc).__name__}, '']]}
    except rust_stuff.RustPanic as exc:
        return {'panic': str(exc)[:300]}
    except Exception as exc:  # pylint: disable=broad-except
        return {'exc': type(exc).__name__, 'msg': str(exc)[:300]}


def main():
    sys.setrecursionlimit(3000)
    print('ready', flush=True)
    for line in sys.stdin:
        print(json.dumps(handle(json.loads(line))), flush=True)


if __name__ == '__main__':
    main()
