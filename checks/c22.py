"""C22: the C search machines print what the programs they read do."""
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib

SIZES = ['2-2', '3-2', '2-3', '4-2', '2-4', '5-2']
MDIR = os.path.join(vlib.REPO, 'machines')


# the limits as of the commit this was written for
LIMITS = {'2-2': 40, '3-2': 65536, '2-3': 300, '4-2': 35000000, '2-4': 33554432, '5-2': 134217728}


def limit_of(size):
    """The limit is a setting of each machine, not part of the property."""
    with open(os.path.join(MDIR, size + '.c'), encoding='utf-8') as fd:
        m = re.search(r'#define\s+XLIMIT\s+(\d+)', fd.read())
    return int(m.group(1)) if m else LIMITS[size]


def show(rows):
    return '  '.join(' '.join(f'{c}{"LR"[s]}{chr(65 + t)}'
                              for c, s, t in row) for row in rows)


def ends(rows, lim):
    """(to choose inputs) the run ends for a search machine within lim."""
    q = pos = lo = hi = marks = 0
    tape = {}
    for n in range(lim):
        if q == 7 or (n and not marks):
            return True
        h = tape.get(pos, 0)
        c, s, t = rows[q][h]
        if h == 0 and t == q and pos == (hi if s else lo):
            return True
        marks += bool(c) - bool(h)
        tape[pos] = c
        pos += 1 if s else -1
        lo, hi = min(lo, pos), max(hi, pos)
        q = t
    return False


def programs(rng, size, limit, H):
    ns, nc = map(int, size.split('-'))
    n = vlib.pick(400, 4000)
    out = []
    pool = [p for k in ('undfnd', 'spnout', 'blank') for p in progs.pool(k)]
    pool += progs.corpus(ns, nc)
    known = [progs.read(p) for p in pool if p.startswith('1RB')]
    known = [r for r in known if len(r) == ns and len(r[0]) == nc]
    if size == '2-2':
        known += [progs.read(p) for p in progs.all_progs(2, 2)]
    rng.shuffle(known)
    while len(out) < 4 * n:
        if known:
            rows = known.pop()
        else:
            rows = progs.read(progs.random_prog(rng, ns, nc, 0.12))
        rows = [[i or [rng.randrange(nc), rng.randrange(2), 7]
                 for i in row] for row in rows]
        if any(i[2] >= ns and i[2] != 7 for row in rows for i in row):
            continue
        out.append(rows)
    good = [r for r in out if ends(r, H)]
    rest = [r for r in out if not ends(r, H)]
    # a run that does not end takes the C machine its whole limit
    k = n // 2 if limit <= 10 ** 5 else 4
    mix = good[:n] + rest[:k]
    rng.shuffle(mix)
    return mix


def run(size, text, tmp):
    exe = os.path.join(tmp, size + '.run')
    res = subprocess.run(
        ['cc', '-O2', '-w', os.path.join(MDIR, size + '.c'), '-o', exe],
        capture_output=True, text=True, check=False)
    if res.returncode:
        raise vlib.Machinery(res.stderr[:1000])
    try:
        res = subprocess.run([exe], input=text, capture_output=True,
                             text=True, timeout=300, check=False)
    except subprocess.TimeoutExpired:
        return None
    return res.stdout if res.returncode == 0 else None


LINE = re.compile(r'(\d+) \| (.*\S) +\| +(\d+) +\| +(\d+)\s*$')


def body(chk):
    rng = progs.rng_for('C22', vlib.SEED)
    recs = []
    with tempfile.TemporaryDirectory(prefix='vcm-') as tmp, \
            ThreadPoolExecutor(6) as ex:
        plan = []
        for size in SIZES:
            limit = limit_of(size)
            H = min(vlib.pick(1500, 8000), limit + 1)
            ps = programs(rng, size, limit, H)
            text = ''.join(show(p).replace(' ', '')[3:] + '\n' for p in ps)
            plan.append((size, limit, H, ps, ex.submit(run, size, text, tmp)))
        for size, limit, H, ps, fut in plan:
            out = fut.result()
            if out is None:
                chk.violation('the machine does not end normally', size)
                continue
            lines = out.splitlines()
            if not lines or lines[-1] != 'done':
                chk.violation('the machine does not finish its input', size)
            said = {}
            last = 0
            for line in lines[:-1]:
                m = LINE.match(line)
                if not m:
                    chk.violation('a line is not readable', [size, line])
                    continue
                num = int(m.group(1))
                if not last < num <= len(ps):
                    chk.violation('a line out of order', [size, line])
                    continue
                last = num
                if m.group(2) != show(ps[num - 1]):
                    chk.violation('another program is printed than was read',
                                  [size, line, show(ps[num - 1])])
                said[num] = [int(m.group(3)), int(m.group(4))]
            for k, p in enumerate(ps, 1):
                recs.append({'kind': 'search', 'p': p, 'H': H, 'limit': limit,
                             'out': said.get(k, []), 'size': size})
    verdicts, t = vlib.tlc_batch('CMachine', recs)
    chk.add_tlc(t)
    for rec, v in zip(recs, verdicts):
        (what, n), = v
        chk.traces += 1
        chk.count(rec['size'] + (' printed' if rec['out'] else ' silent'))
        if what == 'beyond':
            chk.count('beyond horizon')
        elif what != 'ok':
            chk.violation(what, [rec['size'], show(rec['p']), rec['out'], n])
    chk.sample([recs[0]['size'], show(recs[0]['p']), recs[0]['out']])


vlib.main('C22', 'model_checking', body)
