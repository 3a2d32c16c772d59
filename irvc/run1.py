import sys,os,time; sys.path.insert(0,'/verif/irvc'); sys.path.insert(0,'/verif/irvc/specs')
sys.setrecursionlimit(20000)
import lib,build,importlib
ctx=lib.Ctx(build.build()); sp=importlib.import_module(sys.argv[1])
flt=sys.argv[2] if len(sys.argv)>2 else ''
import multiprocessing as mp
ts=[t for t in sp.tasks(ctx,False) if __import__("re").search(flt,t.name)]
def go(i): return lib.run_task(ctx,ts[i])
if len(ts)==1: rs=[go(0)]
else:
    with mp.Pool(8) as pool: rs=pool.map(go,range(len(ts)),chunksize=1)
for r in rs:
    bad=[(o[0],o[1],o[3]) for o in r.obs if o[1]!='proved']
    print(r.name,'paths',r.paths,'obs',len(r.obs),'%.1fs'%r.t,'UNSUPPORTED '+r.unsupported if r.unsupported else '',bad[:8] if len(ts)>1 else '',r.vacuous or '',('taint '+str(r.taint)[:150]) if r.taint and bad else '')
    if len(ts)==1:
        from collections import Counter
        for (n,st,l),c in Counter((o[0],o[1],o[3]) for o in r.obs if o[1]!='proved').items(): print('  ',st,n,l,'x%d'%c)
        for t in r.taint: print('  taint',t[:200])
        if len(sys.argv)>3:
            for o in r.obs:
                if o[1]!='proved': print(o)
