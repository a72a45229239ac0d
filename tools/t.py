import sys,time
sys.path.insert(0,'/verif')
import check, os
from pyvc.repo import Repo
from pyvc.engine import Ctx, explore
S=check.load_specs()
root=os.environ.get('VERIF_REPO','/repo')
for sp in S[sys.argv[1]]:
    if len(sys.argv)>2 and sys.argv[2] not in sp.name: continue
    ctx=Ctx(Repo(root)); ctx.ext_override={}
    t=time.time()
    r=explore(ctx, sp.fn, sp.max_paths)
    bad=[o for o in r.obligs if not o['ok']]
    print(sp.name, 'paths',r.paths,'normal',r.normal,'inf',r.infeasible,'obl',len(r.obligs),'bad',len(bad),'unsup',r.unsupported, '%.1fs q=%d'%(time.time()-t,ctx.stats.queries))
    if r.unsupported and len(sys.argv)>2: print('\n'.join(getattr(r,'where','').split('\n')[-int(os.environ.get('TB','24')):]))
    for o in bad[:3 if len(sys.argv)>2 else 1]: print('  BAD',o['name'],'\n   ',o['goal'],'\n   ','\n    '.join(o['pc'] or []))
