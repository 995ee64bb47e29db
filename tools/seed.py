#!/usr/bin/env python3
"""seed.py ID...      confirm planted bugs in a scratch copy of /repo: builds, passes the tests, demo passes
                      without and fails with the patch; then (unless --no-check) run the checks against it.
   seed.py --checks ID...   only the checks"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, t=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def main():
    a = sys.argv[1:]
    only = '--checks' in a
    ids = [x for x in a if not x.startswith('--')]
    if not ids:
        ids = sorted(os.listdir(os.path.join(HERE, 'seeded')))
    claimed = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        w = tempfile.mkdtemp(prefix='seed-')
        try:
            r = os.path.join(w, 'repo')
            shutil.copytree('/repo', r, symlinks=True)
            if not only:
                x = sh('bash %s/demo.sh' % d, r)
                print(i, 'demo on base:', x.returncode, '' if x.returncode == 0 else x.stdout[-800:])
            x = sh('git apply %s/patch.diff' % d, r)
            if x.returncode:
                print(i, 'PATCH DOES NOT APPLY', x.stdout)
                continue
            if not only:
                x = sh('cargo test --offline 2>&1 | grep -E "^test result|FAILED|failed|error" ', r)
                print(i, 'tests:', x.stdout.strip().replace('\n', ' | ')[:400])
                x = sh('bash %s/demo.sh' % d, r)
                print(i, 'demo patched:', x.returncode)
            v = os.path.join(w, 'verif')
            shutil.copytree(HERE, v, ignore=shutil.ignore_patterns('.git', 'build', 'evidence', 'seeded'))
            props = [meta['property']] if meta['property'] in claimed else []
            for p in props:
                x = sh('python3 check.py %s' % p, v, {'BABS_REPO': r})
                print(i, p, 'exit', x.returncode, '\n      '.join(x.stdout.strip().splitlines()[-7:]))
        finally:
            shutil.rmtree(w)


main()
