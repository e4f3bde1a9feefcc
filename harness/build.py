"""Build the Rust extension from the /repo working tree, offline.

The extension is the crate in /repo/src, compiled against a stand-in for pyo3
(rust/pyo3, rust/pyo3m) because pyo3 itself is not installed here.  The
stand-in only strips the pyo3 attributes: every line of the crate's own code
is compiled as it stands.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

CARGO = '''[package]
name = "rust-stuff"
version = "0.1.0"
edition = "2024"
[lib]
crate-type = ["cdylib"]
[dependencies]
rayon = "*"
pyo3 = { path = "../pyo3" }
[profile.release]
opt-level = 3
debug-assertions = false
'''


# What the crate keeps to itself: builds of their own, which need not compile
# when the internals have changed.
EXTRA = {'inner': 'vinner.rs', 'prover': 'vprover.rs'}


def src_hash(inner):
    h = hashlib.sha256()
    files = [os.path.join(REPO, 'src', f)
             for f in sorted(os.listdir(os.path.join(REPO, 'src')))]
    files += [os.path.join(VERIF, 'rust', f) for f in
              ('vcore.rs', EXTRA.get(inner, 'vcore.rs'), 'pyo3/src/lib.rs',
               'pyo3m/src/lib.rs')]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode())
            with open(f, 'rb') as fd:
                h.update(fd.read())
    h.update(str(inner or 'core').encode())
    return h.hexdigest()[:20]


def build_rust(inner=None):
    """Path of the shared library; raises RuntimeError when it won't build."""
    cache = os.path.join(VERIF, '.cache')
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, f'stuff-{src_hash(inner)}.so')
    if os.path.exists(out):
        return out

    tmp = tempfile.mkdtemp(prefix='vbuild-')
    try:
        for d in ('pyo3', 'pyo3m'):
            shutil.copytree(os.path.join(VERIF, 'rust', d),
                            os.path.join(tmp, d))
        crate = os.path.join(tmp, 'stuff')
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(crate, 'src'))
        with open(os.path.join(crate, 'Cargo.toml'), 'w') as fd:
            fd.write(CARGO)
        mods = ['vcore'] + (['vinner'] if inner == 'inner' else [])
        for m in mods:
            shutil.copy(os.path.join(VERIF, 'rust', m + '.rs'),
                        os.path.join(crate, 'src'))
        with open(os.path.join(crate, 'src', 'lib.rs'), 'a') as fd:
            fd.write(''.join(f'\nmod {m};' for m in mods) + '\n')
        if inner == 'prover':
            with open(os.path.join(VERIF, 'rust', 'vprover.rs'),
                      encoding='utf-8') as fd:
                extra = fd.read()
            with open(os.path.join(crate, 'src', 'prover.rs'), 'a',
                      encoding='utf-8') as fd:
                fd.write('\n' + extra)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, 'target'))
        res = subprocess.run(
            ['cargo', 'build', '--offline', '--release'],
            cwd=crate, env=env, capture_output=True, text=True, check=False)
        if res.returncode != 0:
            raise RuntimeError('cargo build failed:\n' + res.stderr[-4000:])
        lib = os.path.join(tmp, 'target', 'release', 'librust_stuff.so')
        part = out + f'.{os.getpid()}'
        shutil.copy(lib, part)
        os.replace(part, out)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    print(build_rust(*sys.argv[1:2]))
