"""C07: references between entities stay exact."""
from lib import *
from specs import assoc
ID='C07'
DEP=['pStructure','pLineFontPattern','pLevel','pView','pTransform','pLabelAssoc','pColor']
class Spec(LibSpec):
    def match(s,eng,st,dem,args,ins):
        if dem=='@virtual delReference(IGES_ENTITY*)' : return s.notify(eng,st,args,2)
        if dem=='@virtual unlink(IGES_ENTITY*)': return s.notify(eng,st,args,1)
        if dem=='@virtual addReference(IGES_ENTITY*, bool&)':
            eng.deref(st,args[0],ins,'virtual call')
            eng.store(st,args[2],'i8',eng.fresh('dup','Bool')); st.event('addref',args[0],args[1]); return [(st,eng.fresh('ok','Bool'))]
        m=re.match(r'@virtual SetDependency',dem)
        if m: return [(st,eng.fresh('ok','Bool'))]
        if dem=='IGES::AddEntity(IGES_ENTITY*)': st.event('adopt',args[0],args[1]); return [(st,eng.fresh('ok','Bool'))]
        return None
    def notify(s,eng,st,args,kind):
        # assumed contract (proved for every class by the tasks of this property): the receiver changes only its
        # own reference containers, and of the argument nothing
        eng.deref(st,args[0],None,'virtual call')
        st.event('notify',kind,args[0],args[1])
        return [(st,eng.fresh('ok','Bool'))]
    def dyncast(s,eng,st,p,tinfo,ins):
        return [(st,p)]
def refslots(ctx,cls):
    ptrs=[];seqs=[]
    for n,o,k,t in ctx.lay.fields(cls):
        if n in('refs','parent'): continue
        if k=='ptr' and 'IGES_' in t and t.rstrip(' *') not in('IGES',) and t.count('*')==1: ptrs.append((n,o))
        if k in('list','vec'):
            if n.startswith('v') and n[1:] in [x[0] for x in ctx.lay.fields(cls)] or n.startswith('m_'): continue
            m=re.match(r'class std::(list|vector)<(?:class |struct )?(?:std::pair<(?:class )?)?(IGES_\w+) \*',t)
            if m: seqs.append((n,o,k))
    return ptrs,seqs
def nonnull(p,st,seq):
    q=freshint('nn'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(seq.len)),B(ne(seq.at(q,'ptr',0).base,0)))))
def loopdata(p,st,ed):
    """508: an edge entry and each of its curve entries is an object"""
    q,k=freshint('q'),freshint('k'); nonnull(p,st,ed)
    pc=p.get(st,ed.at(q,'ptr',0),'LOOP_DATA','pcurves'); st.assume(z3.ForAll([q,k],z3.Implies(z3.And(q>=0,q<I(ed.len),k>=0,k<I(pc.len)),B(ne(pc.at(k,'ptr',0).base,0)))))
# ---- addReference / delReference, for the implementation every entity class uses
def add_task(cls):
    def run(p):
        ctx=p.ctx; e=p.e; st=p.st
        this=p.obj('this'); par=p.obj('parentEntity',nonnull=False)
        st.assume(par.base!=this.base) if False else None
        dup=p.cell('i8',UNDEF)
        fn=ctx.method(cls,'addReference')
        if cls=='IGES_ENTITY_508': loopdata(p,st,p.get(st,this,cls,'edges'))
        p.get(st,this,'IGES_ENTITY','refs')
        st0=st.clone()
        refs=p.get(st0,this,'IGES_ENTITY','refs'); ext=p.get(st0,this,'IGES_ENTITY','extras')
        ir=p.find(st,refs,par,name='inrefs'); ix=p.find(st,ext,par,name='inextras')
        ptrs,seqs=refslots(ctx,cls)
        st1=st.clone()
        def post(s,r):
            nr=p.get(s,this,'IGES_ENTITY','refs'); d=e.mread(s,'i8',0,dup.base)
            db=e.tobool(d) if d is not UNDEF else None
            known=or_(ge(ir,0),ge(ix,0))
            if db is None:
                p.ob('duplicate flag is set when the call succeeds',s,not_(r)); db=False
            p.ob('a null parent is refused',s,imp(eq(par.base,0),not_(r)))
            p.ob('an entity is not recorded as its own parent',s,imp(eq(par.base,this.base),not_(r)))
            p.ob('a repeated registration is reported as duplicate',s,imp(r,eq(B(db),B(known)) if isz(known) or isz(db) else db==known))
            p.ob('a new parent is recorded exactly once, a duplicate changes nothing',s,
                 or_(and_(r,not_(known),p.seqeq(nr,push(refs,par))),and_(or_(not_(r),known),p.seqeq(nr,refs))))
            # refusal only for a reason: NULL, itself, a circular reference or the type rule of 102
            own=[veq(p.get(st0,this,cls,n),par) for n,_ in ptrs]
            for n,o,k in seqs:
                sq=p.get(st0,this,cls,n); q=freshint('q')
                own.append(z3.Exists([q],z3.And(q>=0,q<I(sq.len),B(veq(sq.at(q,'ptr',0),par)))))
            if cls in('IGES_ENTITY_504','IGES_ENTITY_508'): own.append(True)
            ty=eq(p.get(st0,par,'IGES_ENTITY','entityType'),102) if cls=='IGES_ENTITY_102' else False
            p.ob('refused only for a null, own or circular parent',s,or_(r,eq(par.base,0),eq(par.base,this.base),ty,*own))
            p.frame('addReference',st1,s,[(p.ctx.F('IGES_ENTITY','refs')[1],p.ctx.F('IGES_ENTITY','refs')[0],this.base)])
        p.run(fn,[this,par,dup],post)
    return proof('addReference[%s]'%cls,run,spec=Spec)
def del_task(cls):
    def run(p):
        ctx=p.ctx; e=p.e; st=p.st
        this=p.obj('this'); par=p.obj('parentEntity',nonnull=False)
        st.assume(this.base!=par.base)
        fn=ctx.method(cls,'delReference'); st0=st.clone()
        refs=p.get(st0,this,'IGES_ENTITY','refs'); ext=p.get(st0,this,'IGES_ENTITY','extras')
        p.get(st,this,'IGES_ENTITY','refs'); p.get(st,this,'IGES_ENTITY','extras')
        p.unique(st,refs); p.unique(st,ext)
        ir=p.find(st,refs,par,name='inrefs'); ix=p.find(st,ext,par,name='inextras')
        st.assume(z3.Or(I(ir)<0,I(ix)<0))       # addReference never registers a child of extras as parent
        st1=st.clone()
        def post(s,r):
            nr=p.get(s,this,'IGES_ENTITY','refs'); nx=p.get(s,this,'IGES_ENTITY','extras')
            nz=ne(par.base,0)
            p.ob('returns whether the reference existed',s,eq(B(r),B(and_(nz,or_(ge(ir,0),ge(ix,0))))) if True else None)
            p.ob('removes exactly that parent',s,or_(and_(nz,ge(ir,0),p.seqeq(nr,SeqErase(refs,ir))),and_(or_(not_(nz),lt(ir,0)),p.seqeq(nr,refs))))
            p.ob('removes exactly that optional child',s,or_(and_(nz,lt(ir,0),ge(ix,0),p.seqeq(nx,SeqErase(ext,ix))),and_(or_(not_(nz),ge(ir,0),lt(ix,0)),p.seqeq(nx,ext))))
            p.frame('delReference',st1,s,[(p.ctx.F('IGES_ENTITY','refs')[1],p.ctx.F('IGES_ENTITY','refs')[0],this.base),(p.ctx.F('IGES_ENTITY','extras')[1],p.ctx.F('IGES_ENTITY','extras')[0],this.base)])
        p.run(fn,[this,par],post)
    return proof('delReference[%s]'%cls,run,spec=Spec)
COUNTERS={'IGES_ENTITY_144':['N2','vPTI'],'IGES_ENTITY_308':['N','m_DE'],'IGES_ENTITY_124':['transform']}
def unlink_task(cls):
    def run(p):
        ctx=p.ctx; e=p.e; st=p.st
        this=p.obj('this'); ch=p.obj('child')
        st.assume(this.base!=ch.base)
        fn=ctx.method(cls,'unlink'); st0=st.clone()
        ptrs,seqs=refslots(ctx,cls)
        pm=[]; sm=[]
        for n,o in ptrs: pm.append((n,o,p.get(st,this,cls,n)))
        for n,o,k in seqs:
            sq=p.get(st,this,cls,n); p.unique(st,sq); nonnull(p,st,sq); sm.append((n,o,k,sq,p.find(st,sq,ch,name='in_'+n)))
        hits=[B(veq(v,ch)) for _,_,v in pm]+[B(ge(i,0)) for *_,i in sm]
        st.assume(z3.AtMost(*hits,1))           # setters refuse a second reference to the same child
        if cls=='IGES_ENTITY_124':              # the only DE pointer a transform entity can hold is another transform
            for n,o,v in pm:
                if n in DEP and n!='pTransform': st.assume(B(eq(v.base,0)))
            st.assume(z3.Implies(B(veq(p.get(st,this,cls,'pTransform'),ch)),p.get(st,ch,'IGES_ENTITY','entityType')==124))
        st1=st.clone(); anyhit=z3.Or(*hits)
        comp=cls in('IGES_ENTITY_102','IGES_ENTITY_180')
        def post(s,r):
            p.ob('reports whether a reference was removed',s,imp(not_(r),z3.Not(anyhit)) if comp else (eq(B(r),anyhit)))
            for n,o,v in pm:
                nv=p.get(s,this,cls,n); c=veq(v,ch)
                p.ob('reference %s cleared exactly when it was the child'%n,s,and_(or_(not_(c),eq(nv.base,0)),or_(c,veq(nv,v))))
            for n,o,k,sq,i in sm:
                nv=p.get(s,this,cls,n)
                full=or_(and_(ge(i,0),p.seqeq(nv,SeqErase(sq,i))),and_(lt(i,0),p.seqeq(nv,sq)))
                if comp and n in('curves','nodes'): full=or_(full,and_(gt(i,0),lt(i,sub(sq.len,1)),eq(nv.len,0)))
                p.ob('list %s loses exactly the child, all others stay in order'%n,s,full)
            allowed=[('ptr',o,this.base) for n,o in ptrs]+[(k,o,this.base) for n,o,k in seqs]+[(ctx.F(cls,n)[1],ctx.F(cls,n)[0],this.base) for n in COUNTERS.get(cls,[])]
            p.frame('unlink',st1,s,allowed)
            if isinstance(s.log,SeqLit) and len(s.log.el)==0: p.ob('the vanishing child itself is not called back',s,True)
            else:
                q=freshint('q')
                try: tgt=s.log.at(q,'ev')
                except Unsupported: tgt=None
                p.ob('the vanishing child itself is not called back',s,imp(and_(le(0,q),lt(q,s.log.len)),ne(tgt[2].base,ch.base)) if tgt is not None else False)
        p.run(fn,[this,ch],post)
    return proof('unlink[%s]'%cls,run,spec=Spec)
LINK=900001                                  # ghost field of an entity: "this entity records `this` as parent"
class LinkSpec(Spec):
    def match(s,eng,st,dem,args,ins):
        if dem=='@virtual addReference(IGES_ENTITY*, bool&)':
            x,par=args[0],args[1]
            eng.deref(st,x,ins,'virtual call'); out=[]
            if not (eq(par.base,s.this.base) is True): raise Unsupported('addReference with another parent')
            ok=eng.fresh('ok','Bool'); was=eng.tobool(eng.mread(st,'i8',LINK,x.base))
            st.assume(z3.Implies(B(was),ok))
            def good(q):
                eng.store(q,args[2],'i8',ite(was,1,0)); eng.mwrite(q,'i8',LINK,x.base,1); out.append((q,True))
            def bad(q):
                eng.store(q,args[2],'i8',eng.fresh('dup','Bool')); out.append((q,False))
            eng.fork(st,ok,good,bad)
            return out
        if dem=='@virtual delReference(IGES_ENTITY*)':
            eng.deref(st,args[0],ins,'virtual call')
            if not (eq(args[1].base,s.this.base) is True): raise Unsupported('delReference with another parent')
            r=eng.tobool(eng.mread(st,'i8',LINK,args[0].base)); eng.mwrite(st,'i8',LINK,args[0].base,0)
            return [(st,r)]
        if re.match(r'@virtual (SetDependency|SetHierarchy|SetEntityUse)',dem): return [(st,eng.fresh('ok','Bool'))]
        if dem.startswith('@virtual '):
            return [(st,eng.fresh('rv','Int'))] if re.match(r'@virtual (GetNCurves|GetNSegments|getDepthLevel)',dem) else ([(st,eng.fresh('rv','Bool'))] if re.match(r'@virtual (Get(Start|End)Point|IsClosed|isOrphaned)',dem) else None)
        if dem=='IGES::AddEntity(IGES_ENTITY*)': return [(st,eng.fresh('ok','Bool'))]
        return None
def link_methods(ctx,cls):
    out=[]
    for d in sorted(ctx.mod.bydem):
        m=re.match(re.escape(cls)+r'::((?:Set|Add|Del)\w+)\((IGES_(?:ENTITY|CURVE)\w*)\*\)$',d)
        if m and m.group(1) not in('AddArg',): out.append((d,m.group(1)))
    return out
def link_task(cls,dem):
    def run(p):
        ctx=p.ctx; e=p.e; st=p.st
        this=p.obj('this'); p.spec.this=this; arg=p.obj('arg',nonnull=False)
        st.assume(this.base!=arg.base)
        own=cls if cls in ctx.classes or cls=='IGES_ENTITY' else cls
        ptrs,seqs=refslots(ctx,own)
        x0=p.obj('x0')                                # arbitrary entity: the invariant is shown for it
        def holds(s,x):
            hs=[B(veq(p.get(s,this,own,n),x)) for n,_ in ptrs]
            for n,o,k in seqs:
                sq=p.get(s,this,own,n)
                hs.append(B(p.contains(s,sq,x)))
            return z3.Or(*hs) if hs else z3.BoolVal(False)
        linked=lambda s,x: e.tobool(e.mread(s,'i8',LINK,x.base))
        p.quantref={}
        for n,o,k in seqs: p.unique(st,p.get(st,this,own,n)); nonnull(p,st,p.get(st,this,own,n))
        ty402=[]
        for x in [x0,arg]+[p.get(st,this,own,n) for n,_ in ptrs]:
            h=holds(st,x)
            st.assume(z3.Implies(B(ne(x.base,0)),B(linked(st,x))==h))
        # in one entity a child is referenced at most once
        for a in range(len(ptrs)):
            for b in range(a):
                u,v=p.get(st,this,own,ptrs[a][0]),p.get(st,this,own,ptrs[b][0]); st.assume(z3.Or(u.base!=v.base,u.base==0))
        for n,_ in ptrs:
            u=p.get(st,this,own,n)
            for m,o,k in seqs: st.assume(z3.Implies(u.base!=0,z3.Not(B(p.contains(st,p.get(st,this,own,m),u)))))
        if any(n=='extras' for n,_,_ in seqs): 
            st.assume(p.get(st,arg,'IGES_ENTITY','entityType')!=402); st.assume(p.get(st,x0,'IGES_ENTITY','entityType')!=402)
        fn=ctx.fn(dem); ix={}
        for n,o,k in seqs: ix[n]=p.find(st,p.get(st,this,own,n),x0,name='x0_in_'+n)
        hx=[B(veq(p.get(st,this,own,n),x0)) for n,_ in ptrs]+[ix[n]>=0 for n,_,_ in seqs]
        if len(hx)>1: st.assume(z3.AtMost(*hx,1))
        def post(s,r):
            x=x0; pos=[]; neg=[]
            for n,_ in ptrs:
                h=veq(p.get(s,this,own,n),x); pos.append(h); neg.append(not_(h))
            for n,o,k in seqs:
                sq=p.get(s,this,own,n)
                if isinstance(sq,SeqLit) and not sq.el: continue
                for c in(ix[n],sub(ix[n],1),add(ix[n],1),sub(sq.len,1)): pos.append(and_(le(0,c),lt(c,sq.len),veq(sq.at(c,'ptr',0),x)))
                q=freshint('sk'); neg.append(imp(and_(le(0,q),lt(q,sq.len)),not_(veq(sq.at(q,'ptr',0),x))))
            l=linked(s,x)
            p.ob('an entity recorded as parent by x refers to x',s,imp(l,or_(*pos)))
            p.ob('an entity that refers to x is recorded as parent by x',s,or_(l,and_(*neg)))
        p.run(fn,[this,arg],post)
    return proof("link[%s]"%dem.replace("IGES_ENTITY_",""),run,spec=LinkSpec,deadline=180)
def tasks(ctx,thorough):
    T=[]; seen=set()
    for c in ctx.entity_classes():
        if c=='IGES_ENTITY_TEMP': continue
        if c=='IGES_ENTITY_NULL': continue
        T+=[add_task(c),del_task(c)]
        if c not in('IGES_ENTITY_180','IGES_ENTITY_504','IGES_ENTITY_508'): T.append(unlink_task(c))
    for c in ctx.entity_classes()+['IGES_ENTITY']:
        for d,m in link_methods(ctx,c):
            if m in('DelDE','SetStructure','SetLabelAssoc') and False: continue
            T.append(link_task(c,d))
    from specs import shared
    return T+assoc.tasks(True)+shared.tasks()
REPLAY='c07.cpp'; REPLAY_N=1500
