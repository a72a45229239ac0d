import sys,time
sys.path.insert(0,'/verif')
import pyvc.engine as E
orig=E.Ctx.check
def chk(self, extra, to=None, want_model=False):
    t=time.time(); r=orig(self,extra,to,want_model); d=time.time()-t
    if d>0.5: print('SLOW %.1f'%d, r[0] if want_model else r, 'to',to, [str(e)[:600] for e in extra][:3], 'ax',len(self.axioms),'pc',len(self.pc))
    return r
E.Ctx.check=chk
exec(open('/verif/tools/t.py').read())
