"""dump the first slow query (over SLOW seconds) as SMT-LIB to /tmp/slow.smt2"""
import sys,time,os,z3
sys.path.insert(0,'/verif')
import pyvc.engine as E
from pyvc.values import zb
orig=E.Ctx.check
N=[int(os.environ.get('NTH','1'))]
def chk(self, extra, to=None, want_model=False):
    t=time.time(); r=orig(self,extra,to,want_model); d=time.time()-t
    if d>float(os.environ.get('SLOW','0.9')):
        N[0]-=1
        if N[0]==0:
            s=z3.Solver()
            for i,a in enumerate(self.axioms + list(self.gax.values()) + self.pc + [zb(x) for x in extra]): s.add(a)
            open('/tmp/slow.smt2','w').write(s.to_smt2())
            os._exit(0)
    return r
E.Ctx.check=chk
exec(open('/verif/tools/t.py').read())
