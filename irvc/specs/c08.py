"""C08: a model lists each of its entities exactly once and forgets exactly what is removed."""
from lib import *
TYPES=[100,102,104,110,120,122,124,126,128,142,144,154,164,180,186,308,314,406,408,502,504,508,510,514]
class Spec(LibSpec):
    check_bounds=True
    def match(s,eng,st,dem,args,ins):
        if re.match(r'@virtual ~',dem):
            # contract of every entity destructor: the model is not touched (tasks ~[class] below)
            eng.deref(st,args[0],ins,'delete'); st.event('delete',args[0]); return [(st,None)]
        if re.match(r'@virtual isOrphaned',dem):
            eng.deref(st,args[0],ins,'call'); return [(st,eng.fresh('orph','Bool'))]
        return None
    def dyncast(s,eng,st,p,tinfo,ins): return [(st,p)]
def G(p,s,this,f='entities'): return p.get(s,this,'IGES',f)
def model(p):
    this=p.obj('this'); en=G(p,p.st,this); q=freshint('nn')
    p.st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(en.len)),B(ne(en.at(q,'ptr',0).base,0)))))
    return this,en
def ent(p,s,x,f): return p.get(s,x,'IGES_ENTITY',f)
def new_task(t):
    def run(p):
        st=p.st; this,en=model(p); out=p.cell('ptr',UNDEF)
        if t is None:
            ty=p.i32('type'); st.assume(z3.And(*[ty!=x for x in TYPES]))
        else: ty=t
        st1=st.clone()
        def post(s,r):
            x=p.e.mread(s,'ptr',0,out.base)
            p.ob('succeeds',s,r)
            p.ob('a fresh object is returned',s,isinstance(x.base,int) and x.base<0)
            p.ob('it reports the requested type',s,eq(ent(p,s,x,'entityType'),ty) if t is not None else and_(eq(ent(p,s,x,'entityType'),0),eq(p.get(s,x,'IGES_ENTITY_NULL','trueEntity'),ty)))
            p.ob('it has no parents, children or handles yet',s,and_(*[eq(ent(p,s,x,f).len,0) for f in('refs','extras','m_validFlags')],*[eq(ent(p,s,x,f).base,0) for f in('pStructure','pLineFontPattern','pLevel','pView','pTransform','pLabelAssoc','pColor')]))
            p.ob('it belongs to this model',s,eq(ent(p,s,x,'parent').base,this.base))
            p.ob('it is listed exactly once, behind all others',s,p.seqeq(G(p,s,this),push(en,x)))
            vt=p.e.mread(s,'ptr',0,x.base); cl='IGES_ENTITY_%s'%(t if t is not None else 'NULL')
            p.ob('it is an object of the class of that type',s,p.e.gnames.get(vt.base)=='_ZTV%d%s'%(len(cl),cl))
            p.frame('NewEntity',st1,s,p.fields('IGES',this,['entities'])+[('ptr',0,out.base)])
        p.run(p.ctx.fn('IGES::NewEntity(int, IGES_ENTITY**)'),[this,ty,out],post)
    return proof('IGES::NewEntity[%s]'%(t if t is not None else 'other types'),run,spec=Spec)
def newnull():
    def run(p):
        st=p.st; this,en=model(p); ty=p.i32('type'); st1=st.clone()
        def post(s,r): p.ob('refused',s,not_(r)); p.frame('NewEntity',st1,s,[])
        p.run(p.ctx.fn('IGES::NewEntity(int, IGES_ENTITY**)'),[this,ty,NULL],post)
    return proof('IGES::NewEntity[null result]',run,spec=Spec)
def add():
    def run(p):
        st=p.st; this,en=model(p); x=p.obj('entity',nonnull=False); st.assume(x.base!=this.base); i=p.find(st,en,x); par=ent(p,st,x,'parent'); st1=st.clone()
        def post(s,r):
            nl=G(p,s,this); nz=ne(x.base,0); new=and_(nz,lt(i,0))
            p.ob('refuses exactly a null entity',s,eq(B(r),B(nz)))
            p.ob('a new entity is listed once behind all others, anything else changes nothing',s,or_(and_(new,p.seqeq(nl,push(en,x))),and_(not_(new),p.seqeq(nl,en))))
            p.ob('a new entity belongs to this model, others keep their model',s,ite_(new,eq(ent(p,s,x,'parent').base,this.base),veq(ent(p,s,x,'parent'),par)))
            p.frame('AddEntity',st1,s,p.fields('IGES',this,['entities'])+p.fields('IGES_ENTITY',x,['parent']))
        p.run(p.ctx.fn('IGES::AddEntity(IGES_ENTITY*)'),[this,x],post)
    return proof('IGES::AddEntity',run,spec=Spec)
def ite_(c,a,b): return and_(or_(not_(c),a),or_(c,b))
def remove(name):
    def run(p):
        st=p.st; this,en=model(p); x=p.obj('entity',nonnull=False); st.assume(x.base!=this.base); i=p.find(st,en,x); st1=st.clone(); dl=name=='DelEntity'
        def post(s,r):
            nl=G(p,s,this); hit=and_(ne(x.base,0),ge(i,0))
            p.ob('reports whether the entity was listed',s,eq(B(r),B(hit)))
            p.ob('exactly that entity leaves the list, all others stay in order',s,or_(and_(hit,p.seqeq(nl,SeqErase(en,i))),and_(not_(hit),p.seqeq(nl,en))))
            p.ob('destroyed exactly when deleted from the list',s,eq(s.log.len,ite(and_(hit,dl),1,0)))
            if isinstance(s.log,SeqLit):
                for ev in s.log.el: p.ob('only the requested entity is destroyed',s,veq(ev[1],x))
            p.frame(name,st1,s,p.fields('IGES',this,['entities']))
        p.run(p.ctx.fn('IGES::%s(IGES_ENTITY*)'%name),[this,x],post)
    return proof('IGES::%s'%name,run,spec=Spec)
def clear(dem,dtor):
    def run(p):
        st=p.st; this,en=model(p)
        if dtor: p.spec.check_null=False
        st1=st.clone()
        def post(s,r):
            k=freshint('lk'); lg=s.log
            p.ob('every listed entity is destroyed once',s,eq(lg.len,en.len))
            if not(isinstance(lg.len,int) and lg.len==0):
                v=lg.at(k,'ev'); p.ob('in the order of the list',s,imp(and_(le(0,k),lt(k,lg.len)),veq(v[1],en.at(k,'ptr',0))))
            p.ob('nothing is listed any more',s,eq(G(p,s,this).len,0))
        p.run(p.ctx.fn(dem),[this],post)
    return proof(dem,run,spec=Spec)
class DtorSpec(LibSpec):
    check_null=False; check_live=False; check_bounds=False      # memory safety of the destructors is not the subject here
    def match(s,eng,st,dem,args,ins):
        if re.match(r'@virtual (delReference|unlink|SetDependency|SetHierarchy|SetEntityUse)\(',dem) or re.match(r'IGES_ENTITY\w*::(delReference|unlink)\(',dem):
            eng.deref(st,args[0],ins,'call'); return [(st,eng.fresh('ok','Bool'))]
        if re.match(r'IGES_(ENTITY|CURVE)::~',dem) and eng.curfn!=dem: return [(st,None)]      # its own task
        if dem in('freeCurve','freeSurf','freeCurve(SISLCurve*)','freeSurf(SISLSurf*)'): return [(st,None)]
        if re.match(r'IGES::\w+',dem): st.event('model',dem); return [(st,eng.fresh('r','Bool'))]
        return None
    def dyncast(s,eng,st,p,tinfo,ins): return [(st,p)]
def dtor(cls):
    def run(p):
        st=p.st; this=p.obj('this'); st1=st.clone()
        def post(s,r):
            p.ob('no method of the model is called',s,eq(s.log.len,0))
            o,k=p.ctx.F('IGES','entities')
            bad=[t for t in p.touched(st1,s) if t[0]==k and t[1]==o and not p.e.base_eq(t[2],this.base) is True]
            p.ob('the entity list of no model is written',s,not bad)
        fn=p.ctx.fn('%s::~%s()'%(cls,cls))
        if cls in('IGES_ENTITY','IGES_CURVE'): fn=[x for x in p.ctx.mod.bydem['%s::~%s()'%(cls,cls)] if 'D2Ev' in x][0]
        p.run(fn,[this],post)
    return proof('%s::~%s'%(cls,cls),run,spec=DtorSpec)
class NullSpec(LibSpec):
    pass
def inert(name):
    cls='IGES_ENTITY_NULL'
    def run(p):
        st=p.st; this=p.obj('this'); a=p.obj('other',nonnull=False); args=[this,a]
        if name=='addReference': args.append(p.cell('i8',UNDEF))
        st1=st.clone()
        def post(s,r):
            p.ob('a placeholder takes no part in references',s,not_(r)); p.frame(name,st1,s,[])
        p.run(p.ctx.method(cls,name),args,post)
    return proof('%s::%s'%(cls,name),run,spec=NullSpec)
# ---- API: the model handle passes requests on, the entity handles create entities of their own type
class HSpec(Spec):
    def match(s,eng,st,dem,args,ins):
        if dem=='IGES::NewEntity(int, IGES_ENTITY**)':
            eng.deref(st,args[0],ins,'call'); n=eng.new_id(); ok=eng.fresh('ok','Bool')
            x=Ptr(n,0); s.p.put(st,x,'IGES_ENTITY','entityType',args[1]); s.p.put(st,x,'IGES_ENTITY','parent',args[0])
            st.event('new',args[0],args[1],x); out=[]
            if not s.delegate: eng.store(st,args[2],'ptr',x); return [(st,True)]
            st.event('call','NewEntity',tuple(args),ok); return [(st,ok)]
        m=re.match(r'IGES::(\w+Entity)\(',dem)
        if m and s.delegate:
            eng.deref(st,args[0],ins,'call'); rv=eng.fresh('rv','Bool'); st.event('call',m.group(1),tuple(args),rv); return [(st,rv)]
        if re.match(r'IGES(_ENTITY)?::(At|De)tachValidFlag',dem): return [(st,None)]
        return None
    delegate=False
def deleg(dem,name,hnd):
    def run(p):
        p.spec.delegate=True
        st=p.st; this=p.obj('this'); mod_=p.get(st,this,'DLL_IGES','m_iges'); valid=and_(p.e.tobool(p.get(st,this,'DLL_IGES','m_valid')),ne(mod_.base,0))
        a=p.obj('arg',nonnull=False); want=a
        if hnd:
            st.assume(a.base>0); av=p.e.tobool(p.get(st,a,'DLL_IGES_ENTITY','m_valid')); ae=p.get(st,a,'DLL_IGES_ENTITY','m_entity'); st.assume(B(and_(av,ne(ae.base,0)))); want=ae
        tgt={'NewIGESEntity':'NewEntity'}.get(name,name)
        ty=p.i32('type',0,9999); args=[this,ty,a] if name=='NewIGESEntity' else [this,a]
        st1=st.clone()
        def post(s,r):
            calls=[e for e in s.log.el if e[0]=='call'] if isinstance(s.log,SeqLit) else None
            if calls is None or len(calls)>1: p.ob('exactly one call',s,False); return
            if not calls:
                p.ob('refused only without a model or an entity',s,and_(not_(r),or_(not_(valid),eq(want.base,0)))); return
            _,what,ar,rv=calls[0]
            p.ob('the matching operation of the model of this handle is called',s,and_(what==tgt,veq(ar[0],mod_)))
            p.ob('with the same arguments',s,and_(veq(ar[-1],want),eq(ar[1],ty) if len(ar)==3 else True))
            p.ob('its result is returned',s,eq(B(r),B(rv)))
        p.run(p.ctx.fn(dem),args,post)
    return proof(dem,run,spec=HSpec)
def hnew(cls,ctor):
    n=int(cls.rsplit('_',1)[1])
    def run(p):
        st=p.st; this=p.obj('this'); par=p.obj('parent',nonnull=False)
        if not ctor:
            st.assume(B(eq(p.get(st,this,'DLL_IGES_ENTITY','m_type'),n)))
            st.assume(B(and_(ge(p.get(st,this,'DLL_IGES_ENTITY','m_entity').base,0))))
            par=p.get(st,this,'DLL_IGES_ENTITY','m_parent'); has=and_(p.e.tobool(p.get(st,this,'DLL_IGES_ENTITY','m_hasParent')),ne(par.base,0)); args=[this]; fn='%s::NewEntity()'%cls; cr=True
        else: cr=p.boolean('create'); has=ne(par.base,0); args=[this,par,cr]; fn='%s::%s(IGES*, bool)'%(cls,cls)
        def post(s,r):
            p.ob('the handle is of its type',s,eq(p.get(s,this,'DLL_IGES_ENTITY','m_type'),n))
            x=p.get(s,this,'DLL_IGES_ENTITY','m_entity'); ev=s.log.el
            p.ob('one entity of its type is created in the model of the handle, if it has one',s,and_(eq(len(ev),ite(and_(cr,has),1,0)),*[and_(veq(e[1],par),eq(e[2],n),veq(e[3],x)) for e in ev]))
            if p.e.sat(s,B(cr))!='unsat': p.ob('the handle refers to the new entity',s,imp(cr,and_(isinstance(x.base,int) and x.base<0,eq(ent(p,s,x,'entityType'),n) if isinstance(x.base,int) and x.base<0 else False)))
            if not ctor: p.ob('succeeds',s,r)
        p.run(p.ctx.fn(fn),args,post)
    return proof(fn_(cls,ctor),run,spec=HSpec)
def fn_(cls,ctor): return '%s::%s(IGES*, bool)'%(cls,cls) if ctor else '%s::NewEntity()'%cls
def tasks(ctx,thorough):
    T=[new_task(t) for t in TYPES+[None]]+[newnull(),add(),remove('DelEntity'),remove('UnlinkEntity'),clear('IGES::Clear()',False),clear('IGES::~IGES()',True)]
    for d in sorted(ctx.mod.bydem):
        m=re.match(r'DLL_IGES::(AddEntity|DelEntity|UnlinkEntity|NewIGESEntity)\((?:IGES_ENTITY_TYPE, )?(\w+)\*+\)$',d)
        if m: T.append(deleg(d,m.group(1),m.group(2).startswith('DLL')))
        m=re.match(r'(DLL_IGES_ENTITY_\d+)::NewEntity\(\)$',d)
        if m: T+=[hnew(m.group(1),False),hnew(m.group(1),True)]
    T+=[inert('addReference'),inert('delReference')]
    for c in ctx.entity_classes()+['IGES_ENTITY','IGES_CURVE']:
        if not c.endswith('TEMP'): T.append(dtor(c))
    return T
REPLAY='c08.cpp'; REPLAY_N=2000
