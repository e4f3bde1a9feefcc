"""Worker for the crate's internal types (tape, rules, macros).  Does not
start when the internals have changed so that vinner.rs no longer fits."""
import json
import sys

import progs
import rust_stuff

rust_stuff.load(sys.argv[1] if sys.argv[1:] else 'inner')


def macro_run(job):
    rows = progs.read(job['prog'])
    tab = [[q, h, 'i', *i] for q, row in enumerate(rows)
           for h, i in enumerate(row) if i]
    out = rust_stuff.inner_call(
        'macro_run', job['prog'], *job['params'], job['kind'], job['k'],
        job['lim'])
    lines, done = [], set()
    for e in out.split(';'):
        slot, ins = e.split(':')
        q, h = map(int, slot.split(','))
        if (q, h) in done:
            continue
        done.add((q, h))
        lines.append([q, h, 'n'] if ins == '-' else
                     [q, h, 'i', *map(int, ins.split(','))])
    return {'tab': tab, 'lines': lines}


def raw(job):
    return [rust_stuff.inner_call(*c) for c in job['calls']]


OPS = {'macro_run': macro_run, 'raw': raw}


def handle(job):
    try:
        return {'ok': OPS[job['op']](job)}
    except rust_stuff.RustPanic as exc:
        return {'panic': str(exc)[:300]}


def main():
    print('ready', flush=True)
    for line in sys.stdin:
        print(json.dumps(handle(json.loads(line))), flush=True)


main()
