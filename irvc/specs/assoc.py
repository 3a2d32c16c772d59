"""associate(): the directory numbers read with the parameters become references (used by C06 and C07)."""
from lib import *
A='IGES_ENTITY'
DEP=['pStructure','pLineFontPattern','pLevel','pView','pTransform','pLabelAssoc','pColor']
NA=['lineWeightNum','structure','lineFontPattern','level','view','transform','labelAssoc','colorNum','use','massoc']
# attribute with the number read -> reference it becomes; accepted type numbers
PTRS={120:[('iL','L',[110]),('iC','C',None)],122:[('iDE','DE',None)],142:[('iSPTR','SPTR',None),('iBPTR','BPTR',None),('iCPTR','CPTR',None)],144:[('iPTS','PTS',None),('iPTO','PTO',[142])],
      164:[('iPtr','PTR',None)],408:[('iDE','DE',[308])],186:[('mDEshell','mshell',[514])],510:[('mDEsurf','msurface',None)]}
LISTS={102:[('iCurves','curves',None,False)],144:[('iPTI','PTI',[142],False)],308:[('iDE','DE',None,False)],186:[('ivoids','mvoids',[514],True)],510:[('iloops','mloops',[508],False)],514:[('ifaces','mfaces',[510],True)]}
TYPES=[100,104,110,120,122,124,126,128,142,144,154,164,186,308,314,406,408,502,510,514]
class Spec(LibSpec):
    """contracts of addReference/delReference (C07) and of the base class associate (C05); a dynamic_cast succeeds for some entities"""
    def match(s,eng,st,dem,args,ins):
        e=eng; p=s.p
        if dem.startswith('IGES_ENTITY::associate('):
            if eq(args[0].base,s.this.base) is not True or eq(args[1].base,s.ents.base) is not True: raise Unsupported('associate of another entity')
            bs=[]
            for n in DEP:
                b=e.fresh(n); st.assume(b>=0); bs.append(b); p.put(st,s.this,A,n,Ptr(b,0))
            st.assume(z3.And(*[z3.Or(bs[i]==0,bs[i]!=bs[j]) for i in range(len(bs)) for j in range(i)]))
            st.assume(z3.And(*[z3.Implies(z3.Bool('in_extras'),B(ne(b,s.x0.base))) for b in bs]))    # a second reference to the same entity is refused
            e.mwrite(st,'i8',0,s.ghost.base,ite(or_(z3.Bool('in_extras'),*[eq(b,s.x0.base) for b in bs]),1,0))
            p.put(st,s.this,A,'massoc',1); return [(st,z3.Bool('base_ok'))]
        if dem=='@virtual addReference(IGES_ENTITY*, bool&)':
            x,par=args[0],args[1]; eng.deref(st,x,ins,'virtual call')
            if eq(par.base,s.this.base) is not True: raise Unsupported('addReference with another parent')
            ok=eng.uf('accepts_parent','Int','Bool')(I(x.base)); me=eq(x.base,s.x0.base); l0=eng.mread(st,'i8',0,s.ghost.base)
            st.assume(imp(and_(me,eq(l0,1)),ok)); out=[]
            dup=ite(me,l0,ite(eng.uf('parent_known%d'%eng.cnt,'Int','Bool')(I(x.base)),1,0)); eng.cnt+=1
            if s.t==102 and not s.links: dup=0       # the numbers name distinct entities, as in every file that was written
            def good(q): eng.store(q,args[2],'i8',dup); eng.mwrite(q,'i8',0,s.ghost.base,ite(me,1,l0)); out.append((q,True))
            def bad(q): eng.store(q,args[2],'i8',0); out.append((q,False))
            eng.fork(st,ok,good,bad); return out
        if dem=='@virtual delReference(IGES_ENTITY*)':
            eng.deref(st,args[0],ins,'virtual call')
            if eq(args[1].base,s.this.base) is not True: raise Unsupported('delReference with another parent')
            l0=eng.mread(st,'i8',0,s.ghost.base); eng.mwrite(st,'i8',0,s.ghost.base,ite(eq(args[0].base,s.x0.base),0,l0))
            return [(st,eng.fresh('ok','Bool'))]
        if re.match(r'@virtual (associate|IsClosed|GetTransform)\(',dem) or dem=='IGES_ENTITY::GetTransform(IGES_ENTITY**)':
            if 'GetTransform' in dem: e.mwrite(st,'ptr',args[1].off,args[1].base,NULL)
            return [(st,eng.fresh('ok','Bool'))]
        m=re.match(r'@virtual Get(Start|End)Point\(',dem)
        if m:
            for k in(0,8,16): e.mwrite(st,'f64',add(args[1].off,k),args[1].base,e.fresh('c','Real'))
            return [(st,eng.fresh('ok','Bool'))]
        if dem.startswith('print_transform('): return [(st,None)]
        return None
    def dyncast(s,eng,st,p,tinfo,ins):
        out=[]; c=and_(ne(p.base,0),eng.uf('is_'+re.sub(r'\W','',str(tinfo)),'Int','Bool')(I(p.base)))
        eng.fork(st,c,lambda q: out.append((q,p)),lambda q: out.append((q,NULL))); return out
    def loop_inv(s,e,fn,lp,st0,items):
        p=s.p; o=s.this
        for f,t,ty,pair in LISTS.get(s.t,[]):
            io=p.ctx.F(s.cls,f); to=p.ctx.F(s.cls,t)
            its=[it for it in items if isinstance(items[it],Iter) and items[it].kind=='list' and getattr(items[it].cont,'off',None)==io[0] and items[it].cont.base is o.base]
            res=[it for it in items if it[0]=='mem' and it[1]==(to[1],to[0])]
            gl=[it for it in items if it[0]=='mem' and it[1]==('i8',0) and it[2]==s.ghost.base]
            if len(its)==1 and len(res)==1 and len(gl)==1: break
        else: return None
        ix,rs,gh=its[0],res[0],gl[0]; cont=items[ix].cont; L=e.mread(st0,io[1],io[0],o.base); w=s.w[t]; F=s.target(t)
        if s.t==102:
            oks=[it for it in items if it[0]=='phi' and (items[it] is True or isinstance(items[it],int) and items[it]==1)]
            if len(oks)!=1: return None
            class Inv:
                def name(v,it): return 'position' if it==ix else 'references' if it==rs else 'registration' if it==gh else str(it)
                def ghosts(v,e): C=e.symseq(v.st,'C%d'%e.cnt,()); return (e.fresh('i'),C,e.fresh('ok','Bool'),e.fresh('l','Bool'))
                def witness(v,get): return (get(ix).idx,get(rs),e.tobool(get(oks[0])),eq(get(gh),1))
                def cond(v,g):
                    i,C,ok,l=g; k=freshint('k'); b=C.at(k,'ptr',0).base if not(isinstance(C,SeqLit) and not C.el) else None
                    r=lambda c: imp(and_(le(0,k),lt(k,C.len)),c) if b is not None else True
                    al=lambda c: B(True) if b is None else z3.ForAll([k],z3.Implies(z3.And(k>=0,k<I(C.len)),B(c)))
                    ex=False if b is None else z3.Exists([k],z3.And(k>=0,k<I(C.len),B(eq(b,s.x0.base))))
                    return [('position inside the list',and_(le(0,i),le(i,L.len)))]+([] if s.links else [('as many references as numbers, unless one was refused',and_(le(0,C.len),imp(ok,eq(C.len,i)))),
                            ('the references are those the numbers name',imp(ok,al(eq(b,F(k)) if b is not None else True)))])+[('references are not null',al(ne(b,0) if b is not None else True)),
                            ('an entity is registered exactly when it is referred to',eq(B(l),B(or_(s.l0(st0),ex))))]
                def form(v,it,v0,g):
                    if it==ix: return Iter('list',cont,g[0])
                    if it==rs: return g[1]
                    if it==gh: return ite(g[3],1,0)
                    if it==oks[0]: return g[2] if v0 is True else ite(g[2],1,0)
                    return None
            inv=Inv(); inv.st=st0; return inv
        l_=eq(items[gh],1)
        class Inv:
            def name(v,it): return 'position' if it==ix else 'references' if it==rs else 'registration' if it==gh else str(it)
            def ghosts(v,e): return (e.fresh('i'),)
            def witness(v,get): return (get(ix).idx,)
            def cond(v,g): k=freshint('k'); return [('position inside the list',and_(le(0,g[0]),le(g[0],L.len)))]+([('entities of the defined type',z3.ForAll([k],z3.Implies(z3.And(k>=0,k<I(g[0])),B(s.typed(st0,F(k),ty)))))] if ty else [])
            def form(v,it,v0,g):
                i=g[0]
                if it==ix: return Iter('list',cont,i)
                if it==rs: return SeqMap(i,lambda k: [s.element(L,t,pair,k)])
                if it==gh: return ite(or_(l_,and_(le(0,w),lt(w,i))),1,0)
                return None
        return Inv()
def task(t,links):
    cls='IGES_ENTITY_%d'%t
    def run(p):
        p.e.mergepaths=True
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); ents=p.obj('entities'); st.assume(ents.base!=o.base); x0=p.obj('x0'); st.assume(x0.base!=o.base)
        sp.this,sp.ents,sp.x0,sp.t,sp.cls,sp.links=o,ents,x0,t,cls,links; sp.ghost=p.cell('i8',0)
        V=e.mread(st,'vec',0,ents.base); q=freshint('q'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(V.len)),B(ne(V.at(q,'ptr',0).base,0))))); st.assume(V.len<2**24)
        ent=lambda n: V.at(I(n)/2,'ptr',0).base
        P_=PTRS.get(t,[]); L_=LISTS.get(t,[]); I_={}; N={}; sp.w={}
        for n in DEP: p.put(st,o,A,n,NULL)
        for f,r,ty in P_: N[r]=p.get(st,o,cls,f); p.put(st,o,cls,r,NULL); st.assume(and_(le(0,N[r]),le(N[r],9999999)))
        for f,r,ty,pair in L_:
            I_[r]=L=p.get(st,o,cls,f); p.put(st,o,cls,r,SeqLit([])); q=freshint('q')
            st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(L.len)),z3.And(I(L.at(q,'i32',0))>=1,I(L.at(q,'i32',0))<=9999999,*([I(L.at(q,'i8',4))>=0,I(L.at(q,'i8',4))<=1] if pair else [])))))
            w=e.fresh('w'); j=freshint('j'); el=lambda k,L=L: eq(ent(L.at(k,'i32',0)),x0.base); sp.w[r]=w       # first position whose number names x0, or -1
            st.assume(z3.And(w>=-1,w<I(L.len),z3.Implies(w>=0,B(el(w))))); st.assume(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<I(L.len),z3.Or(w<0,j<w)),B(not_(el(j))))))
        sp.target=lambda r: (lambda k: ent(I_[r].at(k,'i32',0)))
        def element(L,r,pair,k):
            b=Ptr(ent(L.at(k,'i32',0)),0)
            return Rec({0:('ptr',b),8:('i8',L.at(k,'i8',4))}) if pair else b
        sp.typed=lambda s,b,ty: True if not ty else or_(*[eq(p.get(s,Ptr(b,0),A,'entityType'),x) for x in ty],*[e.uf('is__ZTI15IGES_ENTITY_%d'%x,'Int','Bool')(I(b)) for x in ty])
        sp.element=element; sp.l0=lambda s: eq(e.mread(s,'i8',0,sp.ghost.base),1)
        st1=st.clone()
        def post(s,r):
            h=lambda n: p.get(s,o,cls,n); acc=e.uf('accepts_parent','Int','Bool')
            typed=lambda b,ty: sp.typed(s,b,ty)
            if not links:
                for f,n,ty in P_:
                    b=h(n).base
                    p.ob('%s is the entity its number names'%n,s,imp(ne(b,0),and_(ne(N[n],0),eq(b,ent(N[n])),lt(I(N[n])/2,V.len))))
                    p.ob('%s is set when a number was given'%n,s,imp(and_(r,ne(N[n],0)),or_(ne(b,0),not_(acc(I(ent(N[n])))))))
                    p.ob('%s has the defined type'%n,s,imp(ne(b,0),typed(b,ty)))
                for f,n,ty,pair in L_:
                    C=h(n); k=freshint('k'); L=I_[n]
                    p.ob('%s: one reference for each number'%n,s,imp(r,eq(C.len,L.len)))
                    if isinstance(C,SeqLit) and not C.el: continue
                    g=and_(le(0,k),lt(k,C.len))
                    p.ob('%s refers to the entities its numbers name, in order'%n,s,imp(and_(g,or_(r,t!=102)),and_(eq(C.at(k,'ptr',0).base,ent(L.at(k,'i32',0))),eq(C.at(k,'i8',8),L.at(k,'i8',4)) if pair else True)))
                    p.ob('%s holds entities of the defined type'%n,s,imp(g,typed(C.at(k,'ptr',0).base,ty)))
                if not P_ and not L_: p.ob('the outcome is that of the directory attributes',s,eq(B(r),z3.Bool('base_ok')))
                p.ob('directory attributes that could not be resolved are reported',s,imp(r,z3.Bool('base_ok')))
                p.frame('only references',st1,s,p.fields(cls,o,DEP+NA+[x[0] for x in P_+L_]+[x[1] for x in P_+L_]))
                return
            l=sp.l0(s); pos=[z3.Bool('in_extras')]+[eq(p.get(s,o,A,n).base,x0.base) for n in DEP]+[eq(h(n).base,x0.base) for f,n,ty in P_]; neg=[not_(x) for x in pos]
            for f,n,ty,pair in L_:
                C=h(n)
                if isinstance(C,SeqLit) and not C.el: continue
                k=freshint('k'); w=sp.w[n]; pos.append(and_(le(0,w),lt(w,C.len),eq(C.at(w,'ptr',0).base,x0.base)))
                if t==102: pos[-1]=z3.Exists([k],z3.And(k>=0,k<I(C.len),B(eq(C.at(k,'ptr',0).base,x0.base))))
                q=freshint('sk'); neg.append(imp(and_(le(0,q),lt(q,C.len)),ne(C.at(q,'ptr',0).base,x0.base)))
            p.ob('an entity that records it as parent is referred to',s,imp(l,or_(*pos)))
            p.ob('an entity it refers to records it as parent',s,or_(l,and_(*neg)))
        p.run(p.ctx.method(cls,'associate'),[o,ents],post)
    return proof('associate[%d]'%t,run,spec=Spec,deadline=150)
def tasks(links): return [task(t,links) for t in TYPES]

class EdgeSpec(Spec):
    """contracts of the base class associate (C05) and of AddEdge (replay of C07)"""
    def match(s,eng,st,dem,args,ins):
        if dem.startswith('IGES_ENTITY_504::AddEdge('):
            g=('track','edges'); k=st.ghost[g]; L=s.L; ob=s.p.ob; f=s.f; a=lambda n: s.ent(L.at(k,'i32',f[n]))
            ob('each edge is added once, in order',st,lt(k,L.len))
            ob('the curve is the entity its number names',st,eq(args[1].base,a('curv')))
            for x,n in((2,'svp'),(4,'tvp')): ob('%s is the entity its number names'%n,st,or_(eq(args[x].base,a(n)),and_(eq(args[x].base,0),not_(eng.uf('is__ZTI15IGES_ENTITY_502','Int','Bool')(I(a(n)))))))
            for x,n in((3,'sv'),(5,'tv')): ob('%s is the vertex number read'%n,st,eq(args[x],L.at(k,'i32',f[n])))
            a,b=st.clone(),st; ok=eng.uf('edge_ok','Int','Bool')(I(k)); a.assume(ok); b.assume(not_(ok)); a.ghost[g]=add(k,1); return [(a,True),(b,False)]
        return Spec.match(s,eng,st,dem,args,ins)
    def loop_inv(s,*a): return None
def edge_task():
    def run(p):
        p.e.mergepaths=True; cls='IGES_ENTITY_504'
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); ents=p.obj('entities'); st.assume(ents.base!=o.base); sp.this,sp.ents,sp.x0=o,ents,p.obj('x0'); sp.ghost=p.cell('i8',0); sp.t=504
        V=e.mread(st,'vec',0,ents.base); q=freshint('q'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(V.len)),B(ne(V.at(q,'ptr',0).base,0))))); st.assume(V.len<2**24)
        sp.ent=lambda n: V.at(I(n)/2,'ptr',0).base; sp.L=L=p.get(st,o,cls,'deItems'); sp.f={n:p.ctx.F('EDGE_DEIDX',n)[0] for n in('curv','svp','tvp','sv','tv')}
        st.ghost[('track','edges')]=0; st1=st.clone()
        def post(s,r):
            p.ob('accepted only when every edge was added',s,imp(r,and_(z3.Bool('base_ok'),eq(s.ghost[('track','edges')],L.len))))
            p.ob('refused only when an edge was',s,imp(and_(z3.Bool('base_ok'),eq(L.len,0)),r))
            p.frame('only references',st1,s,p.fields(cls,o,DEP+NA+['deItems']))
        p.run(p.ctx.method(cls,'associate'),[o,ents],post)
    return proof('associate[504]',run,spec=EdgeSpec,deadline=150)
def tasks(links): return [task(t,links) for t in TYPES]+([] if links else [edge_task()])
