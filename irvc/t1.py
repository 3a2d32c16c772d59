import sys; sys.path.insert(0,'/verif/irvc')
import llvmc, engine, z3, time
from values import *
m=llvmc.Mod('/tmp/w/ir/all.opt.bc')
class S(engine.Spec): pass
def go(name,argf,trace=True):
    e=engine.Engine(m,S()); e.trace=trace
    st=engine.State()
    args=argf(e,st)
    t=time.time()
    try:
        r=e.run_fn(name,args,st)
    except Unsupported as x:
        print(name,'UNSUPPORTED',x); import traceback; traceback.print_exc(); return
    print(name,len(r),'paths',time.time()-t,[ (o.name,o.status,o.line) for o in e.obs if o.status!='proved'],len(e.obs))
    for s,v in r: print('   ret',v,'log',s.log,[str(c) for c in s.pc][:30])
def th(e,st):
    t=z3.Int('this'); p=z3.Int('p'); st.assume(t>0); st.assume(p>=0)
    return [Ptr(t,0),Ptr(p,0)]
class S2(S): pass
go('_ZN15IGES_ENTITY_1446unlinkEP11IGES_ENTITY',th)
