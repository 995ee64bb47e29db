import sys, time
from vlib import front, models, spec, contracts, c_ubig
from vlib.spec import SPECS
from vlib import verify
prog=verify.load()
pats=sys.argv[1:]
excl=[a[1:] for a in pats if a.startswith('!')]; pats=[a for a in pats if not a.startswith('!')]
peel=None
if pats and pats[0].startswith('-p'): peel=int(pats.pop(0)[2:])
cs={k:v for k,v in SPECS.items()}
for p,sp in SPECS.items():
    if sp.trait: continue
    if 'div_assign_digit_pair' in p and 'div_assign_digit_pair' not in pats: continue
    if pats and not any(x in p for x in pats): continue
    if any(x in p for x in excl): continue
    t=time.time()
    c2={k:v for k,v in cs.items() if k!=p or True}
    vd=spec.attempt(prog,models,c2,sp,prog.defs[p],peel)
    print('%-40s %-10s %d obl %d outc loops=%s %.1fs'%(p,vd.status,vd.discharged,vd.outcomes,[l[1:] for l in vd.loops],time.time()-t))
    for f in vd.fails[:4]: print('     ',f)
    for f in vd.pre_fail[:4]: print('     pre',f)
    if vd.fails and hasattr(vd,'fail_state') and '-v' in sys.argv:
        s=vd.fail_state
        print('facts',s.facts); print('eqs',s.eqs); print('sub',s.sub.m); print('heap',s.heap); print('neqs',s.neqs)
