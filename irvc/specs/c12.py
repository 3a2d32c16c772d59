"""C12: curve end points are the defined points, mapped by the transform."""
from lib import *
from c10 import rd,alleq,tt,tp,RR,eqp
def ov(e,base,i=None):
    f=[e.uf('overall_%d'%k,'Int','Real') for k in range(12)]
    return [g(I(base)) for g in f]
def cp(e,base,which,x):
    return [e.uf('curve_%s_%d'%(which,k),'Int','Bool','Real')(I(base),B(x)) for k in range(3)]
def cok(e,base,which,x): return e.uf('curve_%s_ok'%which,'Int','Bool','Bool')(I(base),B(x))
class Spec(LibSpec):
    check_bounds=True
    def dyncast(s,eng,st,p,tinfo,ins): return [(st,p)]
    def match(s,eng,st,dem,args,ins):
        if dem=='IGES_ENTITY_124::GetTransformMatrix()':
            # contract (proved below): the result is the overall transform of the receiver
            eng.deref(st,args[1],ins,'call'); v=ov(eng,args[1].base)
            for i in range(12): eng.mwrite(st,'f64',add(args[0].off,8*i),args[0].base,v[i])
            return [(st,None)]
        m=re.match(r'@virtual Get(Start|End)Point\(MCAD_POINT&, bool\)',dem)
        if m:
            eng.deref(st,args[0],ins,'call'); x=eng.tobool(args[2]); w=m.group(1); ok=cok(eng,args[0].base,w,x); v=cp(eng,args[0].base,w,x)
            for i in range(3): eng.mwrite(st,'f64',add(args[1].off,8*i),args[1].base,v[i])
            return [(st,ok)]
        return None
COORD={'IGES_ENTITY_100':{'Start':('X2','Y2','ZT'),'End':('X3','Y3','ZT')},
       'IGES_ENTITY_104':{'Start':('X1','Y1','ZT'),'End':('X2','Y2','ZT')},
       'IGES_ENTITY_110':{'Start':('X1','Y1','Z1'),'End':('X2','Y2','Z2')}}
def pt_task(cls,w):
    def run(p):
        st=p.st; e=p.e; this=p.obj('this'); pt=p.obj('pt'); st.assume(B(ne(this.base,pt.base)))
        x=e.fresh('xform','Bool')
        own=[p.get(st,this,cls,n) for n in COORD[cls][w]]
        tr=p.get(st,this,'IGES_ENTITY','pTransform'); st.assume(B(ne(tr.base,pt.base)))
        st1=st.clone()
        def post(s,r):
            got=rd(p,s,pt,3); img=tp(ov(e,tr.base),own); use=and_(x,ne(tr.base,0))
            p.ob('always succeeds',s,r)
            p.ob('without a transform, or when not asked for it, the point is exactly the defined one',s,imp(not_(use),alleq(got,own)))
            p.ob('with a transform the point is its exact image',s,imp(use,alleq(got,img)))
            p.frame('point',st1,s,[('f64',pt.off+8*i,pt.base) for i in range(3)])
        p.run(p.ctx.method(cls,'Get%sPoint'%w),[this,pt,x],post)
    return proof('%s::Get%sPoint'%(cls,w),run,spec=Spec)
def comp_task(w):
    cls='IGES_ENTITY_102'
    def run(p):
        st=p.st; e=p.e; this=p.obj('this'); pt=p.obj('pt'); st.assume(B(ne(this.base,pt.base))); x=e.fresh('xform','Bool')
        cs=p.get(st,this,cls,'curves'); tr=p.get(st,this,'IGES_ENTITY','pTransform'); st.assume(B(ne(tr.base,pt.base)))
        q=freshint('nn'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(cs.len)),B(ne(cs.at(q,'ptr',0).base,0)))))
        st1=st.clone()
        def post(s,r):
            got=rd(p,s,pt,3); k=0 if w=='Start' else sub(cs.len,1); c=cs.at(k,'ptr',0)
            ok=and_(gt(cs.len,0),cok(e,c.base,w,x)); own=cp(e,c.base,w,x); use=and_(x,ne(tr.base,0))
            p.ob('succeeds exactly when the outermost member does',s,eq(B(r),B(ok)))
            p.ob('the point of the outermost member',s,imp(and_(r,not_(use)),alleq(got,own)))
            p.ob('mapped by the transform of the composite curve',s,imp(and_(r,use),alleq(got,tp(ov(e,tr.base),own))))
            p.frame('point',st1,s,[('f64',pt.off+8*i,pt.base) for i in range(3)])
        p.run(p.ctx.method(cls,'Get%sPoint'%w),[this,pt,x],post)
    return proof('%s::Get%sPoint'%(cls,w),run,spec=Spec)
def tm_task():
    def run(p):
        st=p.st; e=p.e; res=p.obj('res'); this=p.obj('this'); st.assume(B(ne(res.base,this.base)))
        o,_=p.ctx.F('IGES_ENTITY_124','T.R.v') if False else (None,None)
        off=min(o for n,o,k,t in p.ctx.lay.fields('IGES_ENTITY_124') if n.startswith('T.') or n=='T')
        T=[e.mread(st,'f64',off+8*i,this.base) for i in range(12)]
        tr=p.get(st,this,'IGES_ENTITY','pTransform'); st.assume(B(ne(tr.base,res.base))); st1=st.clone()
        def post(s,r):
            got=rd(p,s,res,12)
            p.ob('alone: its own matrix and translation',s,imp(eq(tr.base,0),alleq(got,T)))
            p.ob('composed: own transform first, then those it refers to',s,imp(ne(tr.base,0),alleq(got,tt(ov(e,tr.base),T))))
            p.frame('transform',st1,s,[('f64',res.off+8*i,res.base) for i in range(12)])
        p.run(p.ctx.fn('IGES_ENTITY_124::GetTransformMatrix()'),[res,this],post)
    class S2(Spec):
        def match(s,eng,st,dem,args,ins):
            return Spec.match(s,eng,st,dem,args,ins)
    return proof('IGES_ENTITY_124::GetTransformMatrix',run,spec=S2)
def handle(p):
    h=p.obj('handle'); p.put(p.st,h,'DLL_IGES_ENTITY','m_valid',1); x=p.get(p.st,h,'DLL_IGES_ENTITY','m_entity'); p.st.assume(B(ne(x.base,0))); p.st.assume(B(ne(x.base,h.base))); return h,x
def api_task(w):
    def run(p):
        st=p.st; e=p.e; h,x=handle(p); pt=p.obj('pt'); st.assume(B(ne(pt.base,h.base))); st.assume(B(ne(pt.base,x.base))); xf=e.fresh('xform','Bool'); st1=st.clone()
        def post(s,r):
            p.ob('answers as the entity does',s,eq(B(r),B(cok(e,x.base,w,xf)))); p.ob('the point of the entity',s,imp(r,alleq(rd(p,s,pt,3),cp(e,x.base,w,xf))))
            p.frame('api',st1,s,[('f64',pt.off+8*i,pt.base) for i in range(3)])
        p.run(p.ctx.fn('DLL_IGES_CURVE::Get%sPoint(MCAD_POINT&, bool)'%w),[h,pt,xf],post)
    return proof('DLL_IGES_CURVE::Get%sPoint'%w,run,spec=Spec)
API=[ # function, class, coordinates, setter?, z settable
 ('DLL_IGES_ENTITY_100::GetCircleStart(%s) const','IGES_ENTITY_100',('X2','Y2','ZT'),0),('DLL_IGES_ENTITY_100::GetCircleEnd(%s) const','IGES_ENTITY_100',('X3','Y3','ZT'),0),('DLL_IGES_ENTITY_100::GetCircleCenter(%s) const','IGES_ENTITY_100',('X1','Y1','ZT'),0),
 ('DLL_IGES_ENTITY_110::GetLineStart(%s)','IGES_ENTITY_110',('X1','Y1','Z1'),0),('DLL_IGES_ENTITY_110::GetLineEnd(%s)','IGES_ENTITY_110',('X2','Y2','Z2'),0),
 ('DLL_IGES_ENTITY_100::SetCircleStart(%s)','IGES_ENTITY_100',('X2','Y2'),1),('DLL_IGES_ENTITY_100::SetCircleEnd(%s)','IGES_ENTITY_100',('X3','Y3'),1),('DLL_IGES_ENTITY_100::SetCircleCenter(%s)','IGES_ENTITY_100',('X1','Y1','ZT'),1),
 ('DLL_IGES_ENTITY_110::SetLineStart(%s)','IGES_ENTITY_110',('X1','Y1','Z1'),1),('DLL_IGES_ENTITY_110::SetLineEnd(%s)','IGES_ENTITY_110',('X2','Y2','Z2'),1)]
def acc_task(dem,cls,co,setter,form):
    def run(p):
        st=p.st; e=p.e; h,x=handle(p); args=[h]; vals=[]; outs=[]; q=p.obj('pt') if form=='pt' else None
        for i,n in enumerate(co):
            if q is not None: outs.append(('f64',8*i,q.base)); vals.append(e.mread(st,'f64',8*i,q.base)); continue
            if setter: v=p.real('v%d'%i); args.append(v); vals.append(v)
            else: c=p.obj('o%d'%i); args.append(c); outs.append(('f64',0,c.base))
        if q is not None: args.append(q); st.assume(B(ne(q.base,x.base))); st.assume(B(ne(q.base,h.base)))
        for i,(k,o,b) in enumerate(outs):
            st.assume(B(ne(b,x.base))); st.assume(B(ne(b,h.base)))
            for _,_,b2 in outs[:i]:
                if q is None: st.assume(B(ne(b,b2)))
        st1=st.clone(); own=[p.get(st1,x,cls,n) for n in co]
        def post(s,r):
            p.ob('succeeds on an attached handle',s,r)
            if setter:
                p.ob('stores the given point',s,alleq([p.get(s,x,cls,n) for n in co],vals)); p.frame('set',st1,s,[('f64',p.ctx.F(cls,n)[0],x.base) for n in co])
            else:
                p.ob('returns the defined point',s,alleq([e.mread(s,*o) for o in outs],own)); p.frame('get',st1,s,outs)
        p.run(p.ctx.fn(dem),args,post)
    return proof(dem,run,spec=Spec)
def tasks(ctx,thorough):
    T=[pt_task(c,w) for c in COORD for w in('Start','End')]+[comp_task('Start'),comp_task('End'),tm_task(),api_task('Start'),api_task('End')]
    for d,c,co,st in API:
        for f in('xyz','pt'):
            sig={('xyz',0):', '.join(['double&']*3),('xyz',1):', '.join(['double']*len(co)),('pt',0):'MCAD_POINT&',('pt',1):'MCAD_POINT const&'}[(f,st)]
            for s in([sig] if (f,st)!=('pt',1) else [sig,'MCAD_POINT']):
                if d%s in ctx.mod.bydem: T.append(acc_task(d%s,c,co,st,f))
    return T
REPLAY='c12.cpp'; REPLAY_N=1000
