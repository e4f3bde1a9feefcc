"""Programs to run the real code on.  Nothing here decides anything: it only
chooses inputs (the small simulator below picks ones that do something)."""
import hashlib
import itertools
import os
import random
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(prog):
    """Rows of [print, shift, next] or [] (undefined)."""
    return [[[] if '.' in i else
             [int(i[0]), int(i[1] == 'R'), ord(i[2]) - 65]
             for i in row.split(' ')]
            for row in prog.strip().split('  ')]


def show(rows):
    return '  '.join(' '.join(
        '...' if not i else f'{i[0]}{"LR"[i[1]]}{chr(65 + i[2])}'
        for i in row) for row in rows)


def corpus(max_states=10, max_colors=10):
    out = []
    with open(os.path.join(VERIF, 'data', 'corpus.txt'), encoding='utf-8') as fd:
        for line in fd:
            p = line.rstrip('\n')
            rows = read(p)
            if len(rows) <= max_states and len(rows[0]) <= max_colors:
                out.append(p)
    return out


def algebra():
    """Programs whose counts become formulas."""
    with open(os.path.join(VERIF, 'data', 'algebra.txt'),
              encoding='utf-8') as fd:
        return [line.rstrip('\n') for line in fd]


def proving(rng, n):
    """Programs that rules are proved for in 400 cycles, as many with few as
    with several rules."""
    sorts = {}
    with open(os.path.join(VERIF, 'data', 'proving.txt'),
              encoding='utf-8') as fd:
        for line in fd:
            k, p = line.rstrip('\n').split('\t')
            sorts.setdefault(min(int(k), 3), []).append(p)
    return [p for k in sorted(sorts) for p in
            rng.sample(sorts[k], min(len(sorts[k]), n // len(sorts)))]


def random_prog(rng, states, colors, und=0.1, first='1RB'):
    rows = []
    for i in range(states):
        row = []
        for j in range(colors):
            if (i, j) == (0, 0) and first:
                row.append(first)
            elif rng.random() < und:
                row.append('...')
            else:
                row.append(f'{rng.randrange(colors)}{rng.choice("LR")}'
                           f'{chr(65 + rng.randrange(states))}')
        rows.append(' '.join(row))
    return '  '.join(rows)


SHAPES = [(2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3), (5, 2), (4, 3),
          (3, 4), (2, 5), (6, 2)]


def randoms(rng, n, shapes=None, und=(0.05, 0.15, 0.3)):
    shapes = shapes or SHAPES
    return [random_prog(rng, *rng.choice(shapes), rng.choice(und))
            for _ in range(n)]


def all_progs(states, colors, first='1RB', undef=True):
    """Every program of a size with the first instruction fixed."""
    instrs = [f'{c}{s}{chr(65 + t)}' for c in range(colors)
              for s in 'LR' for t in range(states)]
    if undef:
        instrs = ['...'] + instrs
    for rest in itertools.product(instrs, repeat=states * colors - 1):
        cells = (first, *rest)
        yield '  '.join(' '.join(cells[i * colors:(i + 1) * colors])
                        for i in range(states))


def simulate(prog, lim):
    """(kind, steps, slot, marks, blanks): to choose inputs only."""
    rows = read(prog)
    ns, nc = len(rows), len(rows[0])
    tape = {}
    q = pos = 0
    lo = hi = 0
    nz = 0
    blanks = {}
    for n in range(lim):
        h = tape.get(pos, 0)
        i = rows[q][h] if q < ns and h < nc else []
        if not i:
            return 'undfnd', n, (q, h), nz, blanks
        c, s, t = i
        if t == q and h == 0 and (
                (pos >= hi and s) or (pos <= lo and not s)):
            span = [p for p in tape if (p > pos if s else p < pos) and tape[p]]
            if not span:
                return 'spnout', n, None, nz, blanks
        nz += (c != 0) - (h != 0)
        tape[pos] = c
        pos += 1 if s else -1
        lo, hi = min(lo, pos), max(hi, pos)
        q = t
        if nz == 0 and q not in blanks:
            blanks[q] = n + 1
    return 'alive', lim, None, nz, blanks


_POOL = {}


def pool(kind):
    """Programs of data/busy.txt: undfnd, spnout or blank after many steps;
    of data/long.txt: those that end late and use rules."""
    if not _POOL:
        for name in ('busy', 'long'):
            with open(os.path.join(VERIF, 'data', name + '.txt'),
                      encoding='utf-8') as fd:
                for line in fd:
                    k, _, p = line.rstrip('\n').split('\t')
                    _POOL.setdefault(k, []).append(p)
    return _POOL[kind]


def busy(rng, n, kind):
    ps = pool(kind)
    return rng.sample(ps, min(n, len(ps)))


def mutate(rng, prog):
    """One or two instructions changed."""
    rows = read(prog)
    ns, nc = len(rows), len(rows[0])
    for _ in range(rng.choice((1, 1, 2))):
        i, j = rng.randrange(ns), rng.randrange(nc)
        if (i, j) == (0, 0):
            continue
        rows[i][j] = [] if rng.random() < 0.15 else [
            rng.randrange(nc), rng.randrange(2), rng.randrange(ns)]
    return show(rows)


def rng_for(name, seed):
    return random.Random(f'{name}:{seed}')


def every_slot_reached(prog):
    """F: every color that is printed or scanned by some instruction, and
    every state that is entered, has at least one instruction."""
    rows = read(prog)
    states = {0} | {i[2] for row in rows for i in row if i}
    colors = {0} | {i[0] for row in rows for i in row if i}
    return (all(q < len(rows) and any(rows[q]) for q in states)
            and all(any(h < len(row) and row[h] for row in rows)
                    for h in colors))


def start_reentered(prog):
    """D: an instruction of a state reachable from the start leads back to
    the start."""
    rows = read(prog)
    seen, todo = {0}, [0]
    while todo:
        q = todo.pop()
        for i in rows[q] if q < len(rows) else []:
            if i:
                if i[2] == 0:
                    return True
                if i[2] not in seen:
                    seen.add(i[2])
                    todo.append(i[2])
    return False


def fill(rng, prog, keep=()):
    """Undefined slots (but those of `keep`) get random instructions."""
    rows = read(prog)
    ns, nc = len(rows), len(rows[0])
    for q in range(ns):
        for h in range(nc):
            if not rows[q][h] and (q, h) not in keep and rng.random() < 0.7:
                rows[q][h] = [rng.randrange(nc), rng.randrange(2),
                              rng.randrange(ns)]
    return show(rows)


def exe(name):
    """Compile harness/<name>.c once."""
    src = os.path.join(VERIF, 'harness', name + '.c')
    with open(src, 'rb') as fd:
        tag = hashlib.sha256(fd.read()).hexdigest()[:16]
    out = os.path.join(VERIF, '.cache', f'{name}-{tag}')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        part = f'{out}.{os.getpid()}'
        subprocess.run(['gcc', '-O2', src, '-o', part], check=True)
        os.replace(part, out)
    return out


def _scout(args, text):
    res = subprocess.run([exe('scout'), *map(str, args)], input=text,
                         capture_output=True, text=True, check=True)
    return [line.split('\t') for line in res.stdout.splitlines()]


def _follow(lines):
    res = subprocess.run([exe('follow')], input='\n'.join(lines) + '\n',
                         capture_output=True, text=True, check=True)
    return [[x[0], *map(int, x[1:4]), x[4]] for x in
            (line.split() for line in res.stdout.splitlines())]


def follow(runs):
    """Where the rows of displayed runs are met: see follow.c.  runs are
    (program, most steps, rows); only to choose what to ask about."""
    def side(bs):
        return ','.join(f'{c}^{n}' for c, n in bs) or '-'
    exe('follow')
    lines = [f'{p}|{most}|' + ';'.join(
        f'{n} {q} {h} {side(a)} {side(b)}' for n, q, a, h, b in rows)
             for p, most, rows in runs]
    with ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(_follow, [lines[k::8] for k in range(8)]))
    out = [None] * len(lines)
    for k, part in enumerate(parts):
        out[k::8] = part
    return out


def scout(rng, kinds, n, shapes=(), base=(), und=80, least=5, most=400):
    """Up to n programs, random of the shapes or mutants of the base
    programs, whose runs end in one of the kinds (u, s, b, a) after at least
    so many steps.  [(kind, steps, program)], to choose inputs only."""
    exe('scout')
    jobs = []
    parts = 8
    if base:
        base = list(base)
        rng.shuffle(base)
        for k in range(parts):
            some = base[k::parts]
            tries = max(1, 40 * n // max(1, len(base)))
            jobs.append(((rng.randrange(10 ** 9), 0, 0, und, tries, least,
                          most, kinds, n // parts + 1, 'mutate'),
                         '\n'.join(some) + '\n'))
    for s in shapes:
        for _ in range(2):
            jobs.append(((rng.randrange(10 ** 9), *s, und, 60 * n, least,
                          most, kinds, n // (2 * len(shapes)) + 1), ''))
    with ThreadPoolExecutor(8) as ex:
        out = [r for f in [ex.submit(_scout, *j) for j in jobs]
               for r in f.result()]
    return [(k, int(s), p) for k, s, p in
            {p: (k, s, p) for k, s, p in out}.values()]


def _truth(most, ps):
    res = subprocess.run([exe('truth'), str(most)], input='\n'.join(ps) + '\n',
                         capture_output=True, text=True, check=True)
    out = []
    for line in res.stdout.splitlines():
        kind, n, q, h, nz, blanks = line.split()
        out.append((kind, int(n), [int(q), int(h)], int(nz),
                    {} if blanks == '-' else
                    {int(a): int(b) for a, b in
                     (x.split(':') for x in blanks.split(','))}))
    return out


def truth(ps, most):
    """(kind, steps, slot, marks, blanks) of each program: see truth.c.  Only
    to choose which claims to put to the specification."""
    exe('truth')
    with ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(lambda k: _truth(most, ps[k::8]), range(8)))
    out = [None] * len(ps)
    for k, part in enumerate(parts):
        out[k::8] = part
    return out


def _recur(most, ps):
    res = subprocess.run([exe('recur'), str(most)], input='\n'.join(ps) + '\n',
                         capture_output=True, text=True, check=True)
    return [(k, int(n), int(a)) for k, n, a in
            (line.split() for line in res.stdout.splitlines())]


def recur(ps, most):
    """(kind, cycle, from) of each program: see recur.c.  Only to choose inputs."""
    exe('recur')
    with ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(lambda k: _recur(most, ps[k::8]) if ps[k::8]
                            else [], range(8)))
    out = [None] * len(ps)
    for k, part in enumerate(parts):
        out[k::8] = part
    return out
