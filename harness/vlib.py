"""What every check shares: TLC runs, worker processes, verdicts, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
QUICK = TIER != 'thorough'

TLC_JARS = ('/opt/veriftools/tla/tla2tools.jar:'
            '/opt/veriftools/tla/CommunityModules-deps.jar')

sys.dont_write_bytecode = True


def pick(quick, thorough):
    return quick if QUICK else thorough


class Machinery(Exception):
    """The check itself could not run (not a verdict about the code)."""


# --------------------------------------------------------------------------
# TLC

class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.lines = []      # parsed PrintT tuples
        self.out = ''
        self.violated = None


STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def parse_value(s):
    """A printed TLA+ value made of tuples, strings, numbers, booleans."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in ' \n\t':
            pos += 1

    def val():
        nonlocal pos
        ws()
        if s.startswith('<<', pos):
            pos += 2
            items = []
            ws()
            if s.startswith('>>', pos):
                pos += 2
                return items
            while True:
                items.append(val())
                ws()
                if s[pos] == ',':
                    pos += 1
                elif s.startswith('>>', pos):
                    pos += 2
                    return items
                else:
                    raise ValueError(s)
        if s[pos] == '"':
            end = pos + 1
            buf = ''
            while s[end] != '"':
                if s[end] == '\\':
                    end += 1
                buf += s[end]
                end += 1
            pos = end + 1
            return buf
        m = re.compile(r'-?\d+|TRUE|FALSE').match(s, pos)
        if not m:
            raise ValueError(s)
        pos = m.end()
        return {'TRUE': True, 'FALSE': False}.get(m.group()) \
            if m.group() in ('TRUE', 'FALSE') else int(m.group())

    out = val()
    ws()
    if pos != len(s):
        raise ValueError(s)
    return out


def tlc(module, cfg='Plain.cfg', env=None, workers=8, timeout=700,
        heap='6g', extra=(), allow_violation=False, keep_out=False):
    """Run TLC on spec/<module>.tla; parsed output.  Raises Machinery when
    TLC fails for any other reason than a violated invariant/property."""
    meta = tempfile.mkdtemp(prefix='vtlc-')
    try:
        cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC',
               '-cp', TLC_JARS, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', meta, '-noGenerateSpecTE', '-fp', '51',
               '-config', os.path.join(SPEC, cfg), *extra,
               os.path.join(SPEC, module + '.tla')]
        try:
            res = subprocess.run(
                cmd, cwd=meta, env=dict(os.environ, **(env or {})),
                capture_output=True, text=True, timeout=timeout, check=False)
        except subprocess.TimeoutExpired as exc:
            raise Machinery(f'TLC timed out on {module}') from exc
        out = res.stdout
        r = TlcResult()
        buf = None
        for line in out.splitlines():
            if buf is None and line.startswith('<<'):
                buf = line
            elif buf is not None:
                buf += ' ' + line
            if buf is not None:
                try:
                    r.lines.append(parse_value(buf))
                    buf = None
                except (ValueError, IndexError):
                    if len(buf) > 200000:
                        buf = None
        for m in STATS.finditer(out):
            r.generated, r.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        if m:
            r.depth = int(m.group(1))
        if keep_out:
            r.out = out
        if res.returncode != 0:
            m = re.search(r'(Invariant|property|Property|Assumption) .*violated', out)
            if allow_violation and (m or res.returncode in (12, 13)):
                r.violated = m.group(0) if m else 'violated'
                r.out = out
                return r
            raise Machinery(f'TLC failed on {module} ({res.returncode}):\n'
                            + out[-3000:] + res.stderr[-1000:])
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_batch(module, recs, cfg='Plain.cfg', env=None, tag='V', **kw):
    """Feed records to a batch trace specification.  Returns (verdicts, r)
    where verdicts[k] lists the verdict tuples printed for record k."""
    tmp = tempfile.mkdtemp(prefix='vrec-')
    try:
        path = os.path.join(tmp, 'trace.ndjson')
        with open(path, 'w', encoding='utf-8') as fd:
            for rec in recs:
                fd.write(json.dumps(rec) + '\n')
        r = tlc(module, cfg, env=dict(env or {}, TRACE=path), **kw)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    verdicts = [[] for _ in recs]
    for line in r.lines:
        if line[0] == tag:
            verdicts[line[1] - 1].append(line[2:])
    missing = [k for k, v in enumerate(verdicts) if not v]
    if missing:
        raise Machinery(f'{module}: no verdict for {len(missing)} records, '
                        f'first {json.dumps(recs[missing[0]])[:400]}')
    return verdicts, r


# --------------------------------------------------------------------------
# Worker processes: the real code never runs inside the check's own process.

def workers(script, jobs, timeout=20.0, nproc=8, env=None, args=()):
    """Like `ask`, but on a machine that is busy a process may just have
    been slow: a few of the jobs that timed out are asked again with more
    time, and if that helps, all of them."""
    res = ask(script, jobs, timeout, nproc, env, args)
    late = [k for k, r in enumerate(res) if r == {'crash': 'timeout'}]
    for some in (late[:4], late[4:]):
        again = ask(script, [jobs[k] for k in some], max(40.0, 2 * timeout),
                    4, env, args) if some else []
        for k, r in zip(some, again):
            res[k] = r
        if all(r == {'crash': 'timeout'} for r in again):
            break
    return res


def ask(script, jobs, timeout, nproc, env, args):
    """Run `jobs` (JSON values) through harness/<script> processes, one JSON
    line in, one out.  A job whose process dies or times out gets
    {'crash': reason}.  Results are in job order."""
    import queue
    import selectors
    import threading
    results = [None] * len(jobs)
    q = queue.Queue()
    chunk = max(1, min(64, len(jobs) // (nproc * 4) or 1))
    for k in range(0, len(jobs), chunk):
        q.put(list(range(k, min(k + chunk, len(jobs)))))
    errs = []

    def spawn():
        return subprocess.Popen(
            [sys.executable, '-B', os.path.join(HARNESS, script), *args],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, bufsize=1,
            env=dict(os.environ, PYTHONHASHSEED='0',
                     PYTHONDONTWRITEBYTECODE='1', **(env or {})))

    def loop():
        proc = spawn()
        try:
            line = read(proc, 180)
            if line is None or line.strip() != 'ready':
                errs.append(f'{script} did not start')
                return
            while True:
                try:
                    idx = q.get_nowait()
                except queue.Empty:
                    return
                for k in idx:
                    try:
                        proc.stdin.write(json.dumps(jobs[k]) + '\n')
                        proc.stdin.flush()
                        line = read(proc, timeout)
                    except (BrokenPipeError, OSError):
                        line = ''
                    if line:
                        results[k] = json.loads(line)
                        continue
                    why = 'timeout' if line is None else 'process died'
                    results[k] = {'crash': why}
                    proc.kill()
                    proc.wait()
                    proc = spawn()
                    if (read(proc, 180) or '').strip() != 'ready':
                        errs.append(f'{script} did not restart')
                        return
        finally:
            proc.kill()
            proc.wait()

    def read(proc, tmo):
        sel = selectors.DefaultSelector()
        sel.register(proc.stdout, selectors.EVENT_READ)
        try:
            if not sel.select(tmo):
                return None
            return proc.stdout.readline()
        finally:
            sel.close()

    threads = [threading.Thread(target=loop)
               for _ in range(min(nproc, max(1, len(jobs))))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errs:
        raise Machinery('; '.join(errs))
    return results


# --------------------------------------------------------------------------
# Known findings, verdicts and evidence

KNOWN = re.compile(r'known: property=(\w+) key="([^"]*)" (.*)')


def known_keys(prop):
    return [e['key'] for e in known_findings(prop)]


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fd:
            for line in fd:
                if (m := KNOWN.match(line)) and m.group(1) == prop:
                    out.append({'key': m.group(2), 'what': m.group(3)})
    return out


class Check:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.assumptions = []

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += max(r.generated - r.distinct, r.distinct)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, data, key=None):
        """key identifies the failing input; a listed key is a known finding."""
        for e in known_findings(self.prop):
            if key is not None and e.get('key') == key:
                if key not in self.known:
                    self.known.append(key)
                    print(f'KNOWN-FINDING: property={self.prop} {e["what"]}',
                          flush=True)
                return
        self.violations.append((what, data))

    def finish(self):
        cov = dict(self.cov)
        cov['states'] = self.states
        cov['transitions'] = self.transitions
        cov['traces_validated_against_impl'] = self.traces
        cov['samples'] = self.samples or ['none']
        ev = {
            'property': self.prop, 'tier': 'quick' if QUICK else 'thorough',
            'seed': SEED, 'level': self.level, 'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.prop + '.json'), 'w',
                  encoding='utf-8') as fd:
            json.dump(ev, fd, indent=1, default=str)
        if not self.violations:
            print(f'OK property={self.prop} {json.dumps(self.cov)} '
                  f'states={self.states} traces={self.traces} '
                  f'wall={ev["wall_s"]}')
            return 0
        rdir = os.path.join(edir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, self.prop + '.json')
        with open(path, 'w', encoding='utf-8') as fd:
            json.dump([{'what': w, 'data': d}
                       for w, d in self.violations[:50]], fd, indent=1,
                      default=str)
        for w, d in self.violations[:5]:
            print(f'  {w}: {json.dumps(d, default=str)[:300]}')
        print(f'VIOLATION property={self.prop} replay={path}', flush=True)
        return 1


def main(prop, level, body):
    chk = Check(prop, level)
    try:
        body(chk)
    except Machinery as exc:
        print(f'ERROR property={prop}: {exc}', file=sys.stderr)
        if chk.violations:
            sys.exit(chk.finish())
        sys.exit(3)
    sys.exit(chk.finish())
