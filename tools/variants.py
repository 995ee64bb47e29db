#!/usr/bin/env python3
"""variants.py FILE.py... : apply textual variants of /repo (behaviour-preserving or mutants) in scratch copies and
show which properties alarm.  A variant file defines V = [(id, kind, file, [(old, new), ...]), ...]; kind is
'same' (must stay quiet) or the property it should break.   variants.py FILE.py[:id,id...] [--test]"""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
import sys, os, json, time
sys.path.insert(0, os.getcwd())
from vlib import front, verify, props, lints
t=time.time()
prog=verify.load(); base=verify.load_base()
run=verify.Run(prog, base, procs=6)
allroots=[p for q in props.PROPS for p in props.roots(q)]
seen=run.closure(sorted(set(allroots)))
def clo(rs):
    out=set(); w=[r for r in rs if r in run.res]
    while w:
        p=w.pop()
        if p in out or p not in run.res: continue
        out.add(p)
        for u in run.res[p].used: w+=run.impls(u)
    return out
bad=[p for p in seen if run.res[p].status!='proved' and not run.hopeless(p)]
for p in bad: print('   undecided', p, str(run.res[p].fails[:1])[:200])
rel=[p for p in verify.PRECISE(run, bad)] if hasattr(verify,'PRECISE') else bad
alarms={}
cache={}
import vlib.verify as v
_par=v.par
def par(jobs, procs=8):
    need=[j for j in jobs if repr((j[0],j[1],sorted(j[2]))) not in cache]
    for r,j in [(r,None) for r in _par(need,procs)]:
        for j in need:
            if j[0]==r.path and j[1]==r.peel: cache[repr((j[0],j[1],sorted(j[2])))]=r
    return [cache[repr((j[0],j[1],sorted(j[2])))] for j in jobs]
v.par=par
for q in props.PROPS:
    rs=props.roots(q)
    if rs:
        s=clo(rs)
        viol,und=run.decide(s, lambda p,rule,msg: props.PROPS[q][2](p,rule,msg,p in rs))
        if viol: alarms[q]=[(p,f[:1]) for p,f in viol]
    for n in props.PROPS[q][1]:
        lr=lints.LINTS[n](prog)
        if lr['bad']: alarms[q]=lr['bad'][:2]
for q,a in alarms.items(): print('   ALARM', q, str(a)[:300])
print('RESULT', json.dumps(sorted(alarms)), '%.0fs'%(time.time()-t))
'''


def run(vid, kind, file, edits, test):
    w = tempfile.mkdtemp(prefix='var-')
    try:
        r, v = os.path.join(w, 'repo'), os.path.join(w, 'verif')
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
        for e in edits:
            f, old, new = e if len(e) == 3 else (file,) + tuple(e)
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) < 1:
                return vid, kind, 'TEXT NOT FOUND %r' % old
            open(p, 'w').write(s.replace(old, new, 1))
        out = ''
        if test:
            x = subprocess.run('CARGO_TARGET_DIR=%s/t cargo test --offline 2>&1 | grep -E "^test result|FAILED|^error" | head -5' % w, shell=True, cwd=r, stdout=subprocess.PIPE, text=True)
            out += 'tests: ' + x.stdout.replace('\n', ' | ') + '\n'
        os.makedirs(v)
        for n in ('driver', 'vlib', 'baseline.json', 'build/mirdump', 'build/mirdump.sha'):
            s, d = os.path.join(HERE, n), os.path.join(v, n)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, d)
        x = subprocess.run([sys.executable, '-c', INNER], cwd=v, env=dict(os.environ, BABS_REPO=r, PYTHONHASHSEED='0'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return vid, kind, out + x.stdout[-3000:]
    finally:
        shutil.rmtree(w)


def main():
    test = '--test' in sys.argv
    from concurrent.futures import ThreadPoolExecutor
    todo = []
    for a in sys.argv[1:]:
        if a.startswith('--'):
            continue
        fn, _, ids = a.partition(':')
        for x in runpy.run_path(fn)['V']:
            if not ids or x[0] in ids.split(','):
                todo.append(x)
    good = 0
    with ThreadPoolExecutor(3) as ex:
        for vid, kind, out in ex.map(lambda x: run(*x, test), todo):
            al = json.loads(out.split('RESULT ')[1].rsplit(' ', 1)[0]) if 'RESULT' in out else None
            ok = al is not None and (al == [] if kind == 'same' else kind in al)
            good += ok
            print('%-12s %-5s %s %s' % (vid, kind, 'ok ' if ok else ('FALSE ALARM' if kind == 'same' and al else 'MISS' if al is not None else 'ERROR'), '' if al is None else al))
            if not ok or '--v' in sys.argv:
                print('\n'.join('      ' + l[:400] for l in out.splitlines()[-12:]))
            sys.stdout.flush()
    print('%d of %d as wanted' % (good, len(todo)))


main()
