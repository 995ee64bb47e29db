#!/usr/bin/env python3
"""re-prove every contract the baseline lists as proved (all lengths) on the current tree; report what is lost"""
import os, sys, time
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import verify
t = time.time()
prog = verify.load()
base = verify.load_base()
run = verify.Run(prog, {})
pats = sys.argv[1:]
ps = [p for p in verify.SPECS if not verify.SPECS[p].trait and p not in run.dropped and base.get(p, {}).get('summary') == 'proved'
      and (not pats or any(x in p for x in pats))]
ps.sort(key=lambda p: 'square_karatsuba' not in p)
rs = verify.par([(p, None, set(), 200) for p in ps])
for r in rs:
    if r.status != 'proved':
        print('LOST', r.path, r.fails[:2], '%.0fs' % r.secs)
for r in sorted(rs, key=lambda r: -r.secs)[:4]:
    print('%6.1fs %s' % (r.secs, r.path))
print('%d proved of %d, %.0fs wall, %.0fs cpu' % (sum(r.status == 'proved' for r in rs), len(rs), time.time() - t, sum(r.secs for r in rs)))
