"""C21: generated C programs and drawn graphs are the program's."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import lib  # noqa: F401  pylint: disable=unused-import
import progs
import vlib

HEADERS = os.path.join(vlib.REPO, 'machines', 'structured')
HALF = 45       # a generated program has a tape of 100 cells

DUMP = r'''
static int vdump(void)
{
  printf("%ld %ld %ld %ld", (long) STEPS, (long) MARKS,
         (long) POS - CENTER_SQUARE, - (long) CENTER_SQUARE);
  for (int k = 0; k < TAPELEN; k++) printf(" %d", (int) TAPE[k]);
  printf("\n");
  return 1;
}
'''


def source(text):
    """The generated program, asked to tell how it ended."""
    text = text.replace('#include "machine.h"',
                        '#include "machine.h"\n#undef CHECK_STEPS\n'
                        '#define CHECK_STEPS vdump()\n' + DUMP)
    return text


LATE = []


def run(text, tmp, k):
    src, exe = (os.path.join(tmp, f'{k}{e}') for e in ('.c', '.run'))
    with open(src, 'w', encoding='utf-8') as fd:
        fd.write(source(text))
    res = subprocess.run(['cc', '-O0', '-w', '-I', HEADERS, src, '-o', exe],
                         capture_output=True, text=True, check=False)
    if res.returncode:
        return {'error': res.stderr[:300]}
    try:
        res = subprocess.run([exe], capture_output=True, text=True,
                             timeout=5 if len(LATE) < 20 else 1,
                             check=False, cwd=tmp)
    except subprocess.TimeoutExpired:
        LATE.append(k)
        return {'out': []}
    finally:
        os.unlink(exe)
    v = [int(x) for x in res.stdout.split()]
    if len(v) < 5 or res.returncode:
        return {'out': []}
    return {'out': v[:4] + [v[4:]]}


def ends(rows, lim):
    """(to choose inputs) ends within lim steps, near the start."""
    q = pos = marks = 0
    tape = {}
    for n in range(lim):
        if n and not marks:
            return True
        h = tape.get(pos, 0)
        i = rows[q][h]
        if not i:
            return abs(pos) < HALF
        marks += bool(i[0]) - bool(h)
        tape[pos] = i[0]
        pos += 1 if i[1] else -1
        if abs(pos) >= HALF:
            return False
        q = i[2]
    return False


def body(chk):
    rng = progs.rng_for('C21', vlib.SEED)
    H = 4000
    n = vlib.pick(450, 4000)
    # a label H is taken, so seven states at most
    ps = progs.corpus(7, 8)
    for kind in ('undfnd', 'blank'):
        ps += progs.busy(rng, 900, kind)
    ps += progs.randoms(rng, 3000, [(1, 2), (2, 2), (3, 2), (2, 3), (4, 2),
                                    (2, 4), (3, 3), (5, 2), (7, 2), (2, 6)])
    ps = [p for p in dict.fromkeys(ps)
          if len(progs.read(p)) <= 7 and all(
              i[2] < len(progs.read(p)) for row in progs.read(p)
              for i in row if i)]
    rng.shuffle(ps)
    good = [p for p in ps if ends(progs.read(p), H)]
    good.sort(key=lambda p: progs.simulate(p, 40)[1] < 20)
    some = good[:n]
    res = vlib.workers('w_tools.py', [{'op': 'make_c', 'prog': p}
                                      for p in some], timeout=20)
    tmp = tempfile.mkdtemp(prefix='vgen-')
    recs = []
    try:
        with ThreadPoolExecutor(8) as ex:
            futs = []
            for k, (p, r) in enumerate(zip(some, res)):
                if 'ok' not in r:
                    chk.violation('the generator breaks down', [p, r])
                else:
                    futs.append((p, r['ok'], ex.submit(run, r['ok'], tmp, k)))
            for p, text, fut in futs:
                r = fut.result()
                m = re.search(r'#define PROGRAM "(.*)"', text)
                if not m or m.group(1) != p:
                    chk.violation('another program is named', [p, m and m[1]])
                if 'error' in r:
                    chk.violation('the generated program does not compile',
                                  [p, r])
                else:
                    recs.append({'kind': 'generated', 'p': progs.read(p),
                                 'H': H, 'limit': 0, 'out': r['out'],
                                 'text': p})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    verdicts, t = vlib.tlc_batch('CMachine', recs)
    chk.add_tlc(t)
    for rec, v in zip(recs, verdicts):
        (what, steps), = v
        chk.traces += 1
        if what == 'beyond':
            chk.count('beyond horizon')
        elif what != 'ok':
            chk.violation(what, [rec['text'], rec['out'][:4], steps])
        else:
            chk.count('generated programs run')
            chk.count('steps', steps)
    chk.sample([recs[0]['text'], recs[0]['out'][:3]])
    drawn(chk, rng, ps)


EDGE = re.compile(r'^\s*(\w) -> (\w) \[ color=" ?(\w+)" \];$', re.M)
TITLE = re.compile(r'^\s*label="(.*)";$', re.M)


def drawn(chk, rng, ps):
    ps = rng.sample(ps, min(len(ps), vlib.pick(1500, 4000)))
    res = vlib.workers('w_tools.py', [{'op': 'make_dot', 'prog': p}
                                      for p in ps], timeout=20)
    recs = []
    for p, r in zip(ps, res):
        if 'ok' not in r:
            chk.violation('drawing breaks down', [p, r])
            continue
        text = r['ok']
        if not re.fullmatch(r'digraph \w+ \{[^{}]*\}\s*', text) \
                or text.count('->') != len(EDGE.findall(text)):
            chk.violation('not a readable graph', [p, text])
            continue
        recs.append({'p': progs.read(p), 'text': p, 'len': len(p),
                     'edges': [[ord(a) - 65, ord(b) - 65, c]
                               for a, b, c in EDGE.findall(text)],
                     'titles': TITLE.findall(text)})
    verdicts, t = vlib.tlc_batch('DotGraph', recs)
    chk.add_tlc(t)
    for rec, v in zip(recs, verdicts):
        (what,), = v
        chk.traces += 1
        chk.count('graphs drawn')
        if what != 'ok':
            chk.violation(what, [rec['text'], rec['edges']])


vlib.main('C21', 'model_checking', body)
