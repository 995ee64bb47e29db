import vlib.interp as ii
orig=ii.Interp.split
cnt=[0]
def sp(self,st,p=None,g=None):
    cnt[0]+=1
    if cnt[0]<60: print('SPLIT',self.where[-2:],p,None if g is None else (ii.ATOMS[g],ii.state.BOOLDEF.get(g)))
    return orig(self,st,p,g)
ii.Interp.split=sp
import runpy,sys
sys.argv=sys.argv[1:]
runpy.run_path('t.py',run_name='__main__')
