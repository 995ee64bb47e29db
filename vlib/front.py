"""Front end: build the MIR driver (a rustc_private wrapper), run it on /repo's working tree, load the facts."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')
PRELUDE = os.path.join(HERE, 'driver', 'prelude.rs')
REPO = os.environ.get('BABS_REPO', '/repo')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _sysroot():
    r = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if r.returncode:
        raise BuildError('no nightly rustc: ' + r.stdout)
    return r.stdout.strip().splitlines()[-1]


def _env():
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = os.path.join(_sysroot(), 'lib')
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_INCREMENTAL'] = '0'
    return env


def build_driver(env):
    src = os.path.join(HERE, 'driver', 'mirdump.rs')
    out = os.path.join(BUILD, 'mirdump')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = out + '.sha'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    r = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', out], env=env)
    if r.returncode:
        raise BuildError('driver build failed:\n' + r.stdout)
    open(stamp, 'w').write(h)
    return out


def source_hash():
    h = hashlib.sha256()
    fs = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
        for f in sorted(files):
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock'):
                fs.append(os.path.join(root, f))
    for f in fs:
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        h.update(open(f, 'rb').read() + b'\0')
    h.update(open(os.path.join(HERE, 'driver', 'mirdump.rs'), 'rb').read())
    h.update(open(__file__, 'rb').read())
    h.update(open(PRELUDE, 'rb').read())
    return h.hexdigest()


def facts():
    """facts of /repo's current tree; rebuilt on every call (the copy is keyed on the sources' content)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = source_hash()
        out = os.path.join(BUILD, 'facts-%s.json' % h[:24])
        if not os.path.exists(out):
            env = _env()
            drv = build_driver(env)
            tgt = os.path.join(BUILD, 'target')
            # cargo's freshness cache would skip the wrapper on a warm target directory
            if os.path.isdir(tgt):
                shutil.rmtree(tgt)
            tmp = out + '.tmp'
            if os.path.exists(tmp):
                os.remove(tmp)
            env['MIRDUMP_OUT'] = tmp
            env['MIRDUMP_PRELUDE'] = PRELUDE
            env['RUSTC_WORKSPACE_WRAPPER'] = drv
            env['CARGO_TARGET_DIR'] = tgt
            env['RUSTFLAGS'] = '-Zub-checks=no'
            lock = os.path.join(REPO, 'Cargo.lock')
            had = os.path.exists(lock)
            r = sh(['cargo', '+nightly', 'check', '--lib', '--offline'], env=env, cwd=REPO)
            if not had and os.path.exists(lock):
                pass            # git-ignored there
            if r.returncode or not os.path.exists(tmp):
                raise BuildError('cargo check failed:\n' + r.stdout[-4000:])
            for f in os.listdir(BUILD):
                if f.startswith('facts-') and f != os.path.basename(tmp):
                    os.remove(os.path.join(BUILD, f))
            os.rename(tmp, out)
        return json.load(open(out)), h


class Program:
    def __init__(self, d):
        self.types = d['types']
        self.items = d['items']
        self.unsafe_blocks = d['unsafe_blocks']
        self.crate = d['crate']
        self.defs = {}
        self.list = d['defs']
        for f in d['defs']:
            self.defs.setdefault(f['path'], f)

    def const(self, path):
        """the value of an integer constant item"""
        f = self.defs.get(path)
        try:
            st = f['body']['blocks'][0]['st'][-1]
            v = st[2][1][1]['bits']
            if st[1] == [0] and isinstance(v, int):
                return v
        except (TypeError, KeyError, IndexError):
            pass
        from .state import Undecided
        raise Undecided('constant ' + path)

    def ty(self, i):
        return self.types[i]
