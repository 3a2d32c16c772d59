"""C07: children with a reference count (504: vertex lists; 508: edges) and the nodes of a boolean tree (180)."""
from lib import *
from specs import c07
A='IGES_ENTITY'; LINK=c07.LINK
CURVES=[100,102,104,110,112,126,130]
SOLIDS=[150,152,154,156,158,160,162,164,168,180,430,186]
class Spec(c07.LinkSpec):
    """ghost LINK: the entity records `this` as parent; calls of addReference/delReference on the child are counted"""
    def match(s,eng,st,dem,args,ins):
        if dem in('@virtual addReference(IGES_ENTITY*, bool&)','@virtual delReference(IGES_ENTITY*)'):
            g=('track',dem[9:12]); st.ghost[g]=add(st.ghost[g],1)
            s.p.ob('only the child is asked',st,veq(args[0],s.child)); s.p.ob('for this entity as parent',st,veq(args[1],s.this))
        r=c07.LinkSpec.match(s,eng,st,dem,args,ins)
        return r
def start(p,cls,lst,nonnull=False):
    st=p.st; this=p.obj('this'); x=p.obj('child',nonnull); st.assume(this.base!=x.base); p.spec.this,p.spec.child=this,x
    st.ghost[('track','add')]=0; st.ghost[('track','del')]=0
    L=p.get(st,this,cls,lst) if lst else None
    return st,this,x,L
def linked(p,s,x): return eq(p.e.mread(s,'i8',LINK,x.base),1)
def bit(p,st,x): st.assume(z3.And(*[z3.And(I(v)>=0,I(v)<=1) for v in[p.e.mread(st,'i8',LINK,x.base)]]))
def pairs_eq(p,a,b): return and_(p.seqeq(a,b,'ptr',0),p.seqeq(a,b,'i32',8))
def count_add(cls,name,lst,types,sig):
    def run(p):
        st,this,x,L=start(p,cls,lst,nonnull=cls=='IGES_ENTITY_508'); e=p.e; p.unique(st,L); c07.nonnull(p,st,L); i=p.find(st,L,x); bit(p,st,x)
        st.assume(imp(ge(i,0),linked(p,st,x)))             # a child in the list records this entity as parent
        l0=linked(p,st,x); ty=p.get(st,x,A,'entityType'); st1=st.clone()
        def post(s,r):
            n=p.get(s,this,cls,lst); nz=ne(x.base,0); tok=or_(*[eq(ty,t) for t in types]) if types else True; g=s.ghost
            known=ge(i,0); k=freshint('k')
            p.ob('a null child or one of another type is refused',s,imp(r,and_(nz,tok)))
            p.ob('a known child is accepted',s,imp(and_(nz,tok,known),r))
            p.ob('a refused child leaves the list as it was',s,imp(not_(r),pairs_eq(p,n,L)))
            p.ob('a new child is appended with one use',s,imp(and_(r,not_(known)),and_(eq(n.len,add(L.len,1)),imp(and_(le(0,k),lt(k,L.len)),and_(veq(n.at(k,'ptr',0),L.at(k,'ptr',0)),eq(n.at(k,'i32',8),L.at(k,'i32',8)))),
                 imp(r,and_(veq(n.at(L.len,'ptr',0),x),eq(n.at(L.len,'i32',8),1))))))
            p.ob('a known child has one more use, all others stay',s,imp(and_(r,known),and_(eq(n.len,L.len),imp(and_(le(0,k),lt(k,L.len)),and_(veq(n.at(k,'ptr',0),L.at(k,'ptr',0)),eq(n.at(k,'i32',8),add(L.at(k,'i32',8),ite(eq(k,i),1,0))))))))
            p.ob('a child in the list records its parent',s,imp(r,linked(p,s,x)))
            p.ob('a refused child is registered as it was',s,imp(and_(not_(r),nz),eq(B(linked(p,s,x)),B(l0))))
            p.ob('a known child is not registered again',s,imp(and_(nz,known),eq(g[('track','add')],0)))
            p.frame(name,st1,s,[(p.ctx.F(cls,lst)[1],p.ctx.F(cls,lst)[0],this.base),('i8',LINK,x.base)])
        p.run(p.ctx.fn('%s::%s(%s)'%(cls,name,sig)),[this,x],post)
    return proof('%s[%s]'%(name,cls[12:]),run,spec=Spec)
def count_del():
    cls='IGES_ENTITY_504'; lst='vertices'
    def run(p):
        st,this,x,L=start(p,cls,lst); p.unique(st,L); c07.nonnull(p,st,L); i=p.find(st,L,x); bit(p,st,x); al=p.boolean('aFlagAll')
        l0=linked(p,st,x); c=L.at(i,'i32',8); st.assume(imp(ge(i,0),and_(ge(c,1),l0))); st1=st.clone()
        def post(s,r):
            n=p.get(s,this,cls,lst); known=and_(ne(x.base,0),ge(i,0)); last=or_(al,eq(c,1)); k=freshint('k'); g=s.ghost
            p.ob('reports whether the child was listed',s,eq(B(r),B(known)))
            p.ob('an unknown child changes nothing',s,imp(not_(known),pairs_eq(p,n,L)))
            p.ob('the last use takes exactly the child from the list',s,imp(and_(known,last),pairs_eq(p,n,SeqErase(L,i))))
            p.ob('otherwise the child has one use less, all others stay',s,imp(and_(known,not_(last)),and_(eq(n.len,L.len),imp(and_(le(0,k),lt(k,L.len)),and_(veq(n.at(k,'ptr',0),L.at(k,'ptr',0)),eq(n.at(k,'i32',8),sub(L.at(k,'i32',8),ite(eq(k,i),1,0))))))))
            p.ob('the child forgets its parent exactly with its last use; a vanishing child is not called',s,eq(g[('track','del')],ite(and_(known,eq(c,1),not_(al)),1,0)))
            p.ob('no child is registered',s,eq(g[('track','add')],0))
            p.frame('delVertexList',st1,s,[(p.ctx.F(cls,lst)[1],p.ctx.F(cls,lst)[0],this.base),('i8',LINK,x.base)])
        p.run(p.ctx.fn(cls+'::delVertexList(IGES_ENTITY_502*, bool)'),[this,x,al],post)
    return proof('delVertexList[504]',run,spec=Spec)
def add_one(cls,name,sig,ok,lst=None,exact=True):
    """a child that may be referred to once: addCurve (504), AddArg (180)"""
    def run(p):
        st,this,x,L=start(p,cls,lst,nonnull=cls!='IGES_ENTITY_504'); bit(p,st,x); l0=linked(p,st,x); e=p.e
        if L is not None: c07.nonnull(p,st,L)
        if cls=='IGES_ENTITY_508': c07.loopdata(p,st,p.get(st,this,cls,'edges'))
        st1=st.clone(); good=lambda s: ok(p,st1,x)
        def post(s,r):
            nz=ne(x.base,0)
            p.ob('accepted only: an entity of a listed type that was not referred to',s,imp(r,and_(nz,good(s),not_(l0))))
            p.ob('a new child records its parent, a refused one is left as it was',s,imp(nz,eq(B(linked(p,s,x)),B(or_(l0,r)))))
            if exact: p.ob('refused only for the type, the child or a second reference',s,or_(r,not_(nz),not_(good(s)),l0,eq(s.ghost[('track','add')],1)))
            fr=[('i8',LINK,x.base)]
            if lst:
                n=p.get(s,this,cls,lst); o,k_=p.ctx.F(cls,lst); fr.append((k_,o,this.base)); k=freshint('k')
                p.ob('a refused operand leaves the tree as it was',s,imp(not_(r),p.seqeq(n,L)))
                if not(n.len is L.len):
                    p.ob('the operand is appended behind all others',s,imp(r,and_(eq(n.len,add(L.len,1)),imp(and_(le(0,k),lt(k,L.len)),veq(n.at(k,'ptr',0),L.at(k,'ptr',0))))))
                    b=n.at(L.len,'ptr',0)
                    p.ob('its node refers to the operand',s,imp(r,and_(veq(p.get(s,b,'BTREE_NODE','pEnt'),x),not_(e.tobool(p.get(s,b,'BTREE_NODE','op'))))))
                else: p.ob('the operand is appended behind all others',s,not_(r))
            p.frame(name,st1,s,fr)
        p.run(p.ctx.fn('%s::%s(%s)'%(cls,name,sig)),[this,x],post)
    return proof('%s[%s]'%(name,cls[12:]),run,spec=Spec)
def curve_ok(p,s,x):
    t=p.get(s,x,A,'entityType'); f=p.get(s,x,A,'form')
    return or_(*[eq(t,c) for c in CURVES],and_(eq(t,106),or_(*[eq(f,c) for c in(11,12,63)])))
def pcurve_ok(p,s,x):
    t=p.get(s,x,A,'entityType'); return and_(ne(t,502),ne(t,504))
def solid_ok(p,s,x):
    t=p.get(s,x,A,'entityType'); return or_(*[eq(t,c) for c in SOLIDS])
def add_op():
    cls='IGES_ENTITY_180'
    def run(p):
        st=p.st; this=p.obj('this'); L=p.get(st,this,cls,'nodes'); op=p.i32('op'); st1=st.clone(); e=p.e
        def post(s,r):
            n=p.get(s,this,cls,'nodes'); k=freshint('k')
            p.ob('an operator needs two operands before it, and is one of the three',s,eq(B(r),B(and_(ge(op,1),le(op,3),ge(L.len,2)))))
            p.ob('a refused operator leaves the tree as it was',s,imp(not_(r),p.seqeq(n,L)))
            if n.len is L.len: p.ob('appended behind all others',s,not_(r))
            else:
                b=n.at(L.len,'ptr',0)
                p.ob('appended behind all others',s,imp(r,and_(eq(n.len,add(L.len,1)),imp(and_(le(0,k),lt(k,L.len)),veq(n.at(k,'ptr',0),L.at(k,'ptr',0))))))
                p.ob('its node holds the operator',s,imp(r,and_(e.tobool(p.get(s,b,'BTREE_NODE','op')),eq(p.get(s,b,'BTREE_NODE','val'),op),eq(p.get(s,b,'BTREE_NODE','pEnt').base,0))))
            p.frame('AddOp',st1,s,p.fields(cls,this,['nodes']))
        p.run(p.ctx.fn(cls+'::AddOp(BTREE_OPERATOR)'),[this,op],post)
    return proof('AddOp[180]',run,spec=Spec)
USE=900002                                   # ghost: how often a vertex list is used by this entity
class AddSpec(c07.Spec):
    """contracts of the helpers above; ghost LINK of the curve, ghost USE of the vertex lists"""
    added=True
    def match(s,eng,st,dem,args,ins):
        ok=None; p=s.p
        m=re.match(r'IGES_ENTITY_504::(addCurve|addVertexList|delVertexList)\(',dem)
        if m:
            p.ob('the helpers work on this entity',st,veq(args[0],s.this)); x=args[1]
            if m.group(1)=='addCurve':
                ok=and_(ne(x.base,0),eng.uf('curve_ok','Int','Bool')(I(x.base))); a,b=st.clone(),st; a.assume(ok); b.assume(not_(ok)); eng.mwrite(a,'i8',LINK,x.base,1); return [(a,True),(b,False)]
            if m.group(1)=='addVertexList':
                ok=and_(ne(x.base,0),eng.uf('list_ok','Int','Bool')(I(x.base))); a,b=st.clone(),st; a.assume(ok); b.assume(not_(ok)); eng.mwrite(a,'i32',USE,x.base,add(eng.mread(a,'i32',USE,x.base),1)); return [(a,True),(b,False)]
            if s.added: p.ob('a vertex list is released only after it was added',st,gt(eng.mread(st,'i32',USE,x.base),eng.mread(s.st0,'i32',USE,x.base)))
            p.ob('released as one use',st,not_(eng.tobool(args[2])))
            eng.mwrite(st,'i32',USE,x.base,sub(eng.mread(st,'i32',USE,x.base),1)); return [(st,True)]
        if dem=='@virtual delReference(IGES_ENTITY*)':
            eng.deref(st,args[0],ins,'virtual call'); p.ob('the vanishing child is not called back',st,s.added)
            p.ob('a curve is released by its parent',st,veq(args[1],s.this)); eng.mwrite(st,'i8',LINK,args[0].base,0); return [(st,True)]
        return c07.Spec.match(s,eng,st,dem,args,ins)
def add_edge():
    cls='IGES_ENTITY_504'
    def run(p):
        e=p.e; st=p.st; this=p.obj('this'); p.spec.this=this; cu=p.obj('aCurve',False); a=p.obj('aSVP',False); b=p.obj('aTVP',False); sv=p.i32('aSV'); tv=p.i32('aTV')
        for x in(cu,a,b): st.assume(x.base!=this.base)
        st.assume(and_(or_(ne(cu.base,a.base),eq(cu.base,0)),or_(ne(cu.base,b.base),eq(cu.base,0)))); st.assume(B(eq(e.mread(st,'i8',LINK,cu.base),0)))
        L=p.get(st,this,cls,'edges'); nv=lambda x: p.get(st,x,'IGES_ENTITY_502','vertices').len
        for x in(a,b): st.assume(and_(le(0,nv(x)),lt(nv(x),2**31)))
        u0=[e.mread(st,'i32',USE,x.base) for x in(a,b)]; st1=st.clone(); p.spec.st0=st1
        f=lambda n: p.ctx.F('EDGE_DATA',n)[0]
        def post(s,r):
            n=p.get(s,this,cls,'edges'); k=freshint('k'); lk=eq(e.mread(s,'i8',LINK,cu.base),1)
            okl=lambda x: and_(ne(x.base,0),e.uf('list_ok','Int','Bool')(I(x.base)))
            good=and_(ne(cu.base,0),e.uf('curve_ok','Int','Bool')(I(cu.base)),okl(a),okl(b),ge(sv,1),le(sv,nv(a)),ge(tv,1),le(tv,nv(b)))
            p.ob('an edge is added exactly when the curve and both vertices are acceptable',s,eq(B(r),B(good)))
            p.ob('the curve records its parent exactly when the edge was added',s,imp(ne(cu.base,0),eq(B(lk),B(r))))
            for x,u,y in((a,u0[0],b),(b,u0[1],a)):
                p.ob('a vertex list has one more use for each end of the edge, none when refused',s,imp(ne(x.base,0),eq(e.mread(s,'i32',USE,x.base),add(u,ite(r,ite(veq(x,y),2,1),0)))))
            p.ob('a refused edge leaves the list as it was',s,imp(not_(r),and_(eq(n.len,L.len),p.seqeq(n,L,'ptr',f('curv')))))
            if n.len is not L.len:
                p.ob('the edge is appended behind all others',s,imp(r,and_(eq(n.len,add(L.len,1)),imp(and_(le(0,k),lt(k,L.len)),and_(*[veq(n.at(k,K,f(q)),L.at(k,K,f(q))) for q,K in(('curv','ptr'),('svp','ptr'),('tvp','ptr'),('sv','i32'),('tv','i32'))])))))
                p.ob('with exactly the data given',s,imp(r,and_(*[veq(n.at(L.len,K,f(q)),v) for q,K,v in(('curv','ptr',cu),('svp','ptr',a),('tvp','ptr',b),('sv','i32',sv),('tv','i32',tv))])))
            else: p.ob('the edge is appended behind all others',s,not_(r))
            p.frame('AddEdge',st1,s,p.fields(cls,this,['edges'])+[('i8',LINK,cu.base),('i32',USE,None)])
        p.run(p.ctx.fn(cls+'::AddEdge(IGES_ENTITY*, IGES_ENTITY_502*, int, IGES_ENTITY_502*, int)'),[this,cu,a,sv,b,tv],post)
    return proof('AddEdge[504]',run,spec=AddSpec)
class TreeSpec(c07.Spec):
    """one arbitrary entity x0: its record of this parent is the ghost; w is the position of its node, or -1"""
    check_live=False
    def match(s,eng,st,dem,args,ins):
        p=s.p
        if dem=='@virtual delReference(IGES_ENTITY*)':
            eng.deref(st,args[0],ins,'virtual call'); p.ob('released by its parent',st,veq(args[1],s.this))
            if s.child is not None: p.ob('the vanishing child is not called back',st,ne(args[0].base,s.child.base))
            l0=eng.mread(st,'i8',0,s.ghost.base); eng.mwrite(st,'i8',0,s.ghost.base,ite(eq(args[0].base,s.x0.base),0,l0)); return [(st,eng.fresh('ok','Bool'))]
        if dem.startswith('IGES_ENTITY::unlink('): return [(st,z3.Bool('base_ok'))]
        return c07.Spec.match(s,eng,st,dem,args,ins)
    def loop_inv(s,e,fn,lp,st0,items):
        its=[it for it in items if isinstance(items[it],Iter)]; gl=[it for it in items if it[0]=='mem' and it[1]==('i8',0) and it[2]==s.ghost.base]
        if len(its)!=1 or len(gl)!=1: return None
        ix,gh=its[0],gl[0]; cont=items[ix].cont; o,k_=s.p.ctx.F('IGES_ENTITY_180','nodes'); L=e.mread(st0,k_,o,s.this.base); p=s.p
        # position of x0 in the list as it is now (after the removal of one node)
        w=s.w if s.child is None or L is s.L else ite(and_(ge(s.w,0),gt(s.w,s.i)),sub(s.w,1),ite(eq(s.w,s.i),-1,s.w)); l_=eq(items[gh],1)
        class Inv:
            def name(v,it): return 'position' if it==ix else 'registration' if it==gh else str(it)
            def ghosts(v,e): return (e.fresh('i'),)
            def witness(v,get): return (get(ix).idx,)
            def cond(v,g): return [('position inside the list',and_(le(0,g[0]),le(g[0],L.len)))]
            def form(v,it,v0,g):
                if it==ix: return Iter('list',cont,g[0])
                if it==gh: return ite(and_(l_,not_(and_(ge(w,0),lt(w,g[0])))),1,0)
                return None
        return Inv()
def tree(kind):
    cls='IGES_ENTITY_180'
    def run(p):
        e=p.e; st=p.st; sp=p.spec; this=p.obj('this'); x0=p.obj('x0'); ch=p.obj('child') if kind=='unlink' else None
        st.assume(this.base!=x0.base)
        sp.this,sp.x0,sp.child=this,x0,ch; sp.ghost=p.cell('i8',0); L=sp.L=p.get(st,this,cls,'nodes'); c07.nonnull(p,st,L); p.unique(st,L); sp.i=-1
        ent=lambda k: p.get(st,L.at(k,'ptr',0),'BTREE_NODE','pEnt').base; op=lambda k: e.tobool(p.get(st,L.at(k,'ptr',0),'BTREE_NODE','op'))
        q,q2=freshint('q'),freshint('q'); inside=lambda k: z3.And(k>=0,k<I(L.len))
        # an operand occurs once; an operator has no entity; nodes are objects of their own
        opb=lambda k: I(p.get(st,L.at(k,'ptr',0),'BTREE_NODE','op'))
        st.assume(z3.ForAll([q],z3.Implies(inside(q),z3.And(opb(q)>=0,opb(q)<=1,I(ent(q))>=0,B(imp(op(q),eq(ent(q),0))),B(ne(L.at(q,'ptr',0).base,this.base))))))
        st.assume(z3.ForAll([q,q2],z3.Implies(z3.And(inside(q),inside(q2),q<q2),B(or_(eq(ent(q),0),ne(ent(q),ent(q2)))))))
        def pos(x,nm):
            w=e.fresh(nm); j=freshint('j'); st.assume(z3.And(w>=-1,w<I(L.len),z3.Implies(w>=0,B(eq(ent(w),x.base))))); st.assume(z3.ForAll([j],z3.Implies(inside(j),z3.Or(B(ne(ent(j),x.base)),j==w)))); return w
        sp.w=pos(x0,'w')
        if ch is not None: st.assume(this.base!=ch.base); sp.i=pos(ch,'i'); st.assume(imp(eq(ch.base,x0.base),eq(sp.i,sp.w)))
        e.mwrite(st,'i8',0,sp.ghost.base,ite(ge(sp.w,0),1,0)); st1=st.clone()
        def post(s,r):
            n=p.get(s,this,cls,'nodes'); l=eq(e.mread(s,'i8',0,sp.ghost.base),1); k=freshint('k')
            if kind=='unlink':
                hit=and_(not_(z3.Bool('base_ok')),ge(sp.i,0))
                p.ob('losing a member gives up all members, otherwise none',s,and_(imp(hit,eq(n.len,0)),imp(not_(hit),p.seqeq(n,L))))
                p.ob('every other member forgets its parent exactly when all are given up',s,imp(ne(x0.base,ch.base),eq(B(l),B(and_(ge(sp.w,0),not_(hit))))))
                p.ob('a reference of the directory entry is reported as removed',s,imp(z3.Bool('base_ok'),r))
            else:
                p.ob('no member is left',s,eq(n.len,0)); p.ob('every member forgets its parent',s,not_(l))
            p.frame(kind,st1,s,p.fields(cls,this,['nodes']))
        p.run(p.ctx.fn(cls+'::'+('unlink(IGES_ENTITY*)' if kind=='unlink' else 'ClearNodes()')),[this]+([ch] if ch is not None else []),post)
    return proof('%s[180]'%kind,run,spec=TreeSpec)
class LoopSpec(c07.Spec):
    """contracts of addEdge, addPCurve, delEdge; one arbitrary curve x0 with the ghost "x0 records this entity as parent" """
    check_live=False; top=None
    def match(s,eng,st,dem,args,ins):
        p=s.p; g=('track','uses')
        m=re.match(r'IGES_ENTITY_508::(addEdge|addPCurve|delEdge)\(',dem)
        if m:
            p.ob('the helpers work on this entity',st,veq(args[0],s.this)); x=args[1]
            if m.group(1)=='addEdge':
                p.ob('the edge of the entry is used',st,veq(x,s.edge)); ok=z3.Bool('edge_ok'); a,b=st.clone(),st; a.assume(ok); b.assume(not_(ok)); a.ghost[g]=add(a.ghost[g],1); return [(a,True),(b,False)]
            if m.group(1)=='delEdge':
                p.ob('exactly one use of the edge is given up',st,and_(veq(x,s.edge),not_(eng.tobool(args[2])),not_(eng.tobool(args[3])))); st.ghost[g]=sub(st.ghost[g],1); return [(st,True)]
            l0=eq(eng.mread(st,'i8',0,s.ghost.base),1); me=eq(x.base,s.x0.base); ok=eng.uf('pcurve_ok%d'%eng.cnt,'Int','Bool')(I(x.base)); eng.cnt+=1
            a,b=st.clone(),st; a.assume(and_(ok,not_(and_(me,l0)))); b.assume(not_(and_(ok,not_(and_(me,l0))))); eng.mwrite(a,'i8',0,s.ghost.base,ite(or_(me,l0),1,0)); return [(a,True),(b,False)]
        if dem=='@virtual delReference(IGES_ENTITY*)':
            eng.deref(st,args[0],ins,'virtual call'); p.ob('released by its parent',st,veq(args[1],s.this))
            l0=eng.mread(st,'i8',0,s.ghost.base); eng.mwrite(st,'i8',0,s.ghost.base,ite(eq(args[0].base,s.x0.base),0,l0)); return [(st,eng.fresh('ok','Bool'))]
        return c07.Spec.match(s,eng,st,dem,args,ins)
    def loop_inv(s,e,fn,lp,st0,items):
        its=[it for it in items if isinstance(items[it],Iter)]; gl=[it for it in items if it[0]=='mem' and it[1]==('i8',0) and it[2]==s.ghost.base]
        if len(its)!=1 or len(gl)!=1: return None
        ix,gh=its[0],gl[0]; cont=items[ix].cont; w,w2,L=s.w,s.w2,s.L; kind=items[ix].kind
        # a loop from the first entry on that starts with curves already registered releases them in order of addition; every other loop registers, or releases in reverse order
        z0=eq(items[ix].idx,0) is True; fwd=z0 and s.top is not None and not veq(items[gh],ite(s.l0,1,0)) is True; top=s.top
        class Inv:
            def name(v,it): return 'position' if it==ix else 'registration' if it==gh else str(it)
            def ghosts(v,e):
                g=e.fresh('i')
                if not fwd and z0: s.top=g
                return (g,)
            def witness(v,get): return (get(ix).idx,)
            def cond(v,g):
                i=g[0]
                if fwd: return [('position among the curves registered',and_(le(0,i),le(i,top)))]
                return [('position inside the list',and_(le(0,i),le(i,L.len))),('no curve occurs twice among those registered',or_(lt(w2,0),le(i,w2))),('no curve among those registered was referred to before',not_(and_(s.l0,ge(w,0),lt(w,i))))]
            def form(v,it,v0,g):
                if it==ix: return Iter(kind,cont,g[0])
                if it==gh: return ite(or_(s.l0,and_(ge(w,g[0]),lt(w,top)) if fwd else and_(ge(w,0),lt(w,g[0]))),1,0)
                if it[0]=='ghost': return v0
                return None
        return Inv()
def add_loop():
    cls='IGES_ENTITY_508'
    def run(p):
        e=p.e; st=p.st; sp=p.spec; this=p.obj('this'); x0=p.obj('x0'); d=p.obj('entry'); st.assume(this.base!=x0.base); st.assume(this.base!=d.base); sp.this,sp.x0=this,x0
        sp.edge=p.get(st,d,'LOOP_DATA','data'); E=p.get(st,this,cls,'edges'); sp.L=L=p.get(st,d,'LOOP_DATA','pcurves'); c07.nonnull(p,st,L); sp.ghost=p.cell('i8',0)
        cur=lambda k: p.get(st,L.at(k,'ptr',0),'LOOP_PAIR','curve').base; q=freshint('q'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(L.len)),I(cur(q))>0)))
        w,w2=e.fresh('w'),e.fresh('w2'); j=freshint('j'); ins_=lambda k: z3.And(k>=0,k<I(L.len))
        st.assume(z3.And(w>=-1,w<I(L.len),w2>=-1,w2<I(L.len),z3.Implies(w>=0,B(eq(cur(w),x0.base))),z3.Implies(w2>=0,z3.And(w>=0,w2>w,B(eq(cur(w2),x0.base))))))
        st.assume(z3.ForAll([j],z3.Implies(z3.And(ins_(j),B(eq(cur(j),x0.base))),z3.Or(j==w,z3.And(w2>=0,j>=w2)))))        # first and second position of x0
        st.assume(imp(lt(w,0),lt(w2,0))); sp.w,sp.w2=w,w2
        sp.l0=z3.Bool('recorded_before'); e.mwrite(st,'i8',0,sp.ghost.base,ite(sp.l0,1,0)); st.ghost[('track','uses')]=0
        box=p.cell('ptr',d); st1=st.clone()
        def post(s,r):
            n=p.get(s,this,cls,'edges'); l=eq(e.mread(s,'i8',0,sp.ghost.base),1); k=freshint('k')
            p.ob('a refused entry leaves the loop as it was',s,imp(not_(r),p.seqeq(n,E)))
            if n.len is not E.len: p.ob('the entry is appended behind all others',s,imp(r,and_(eq(n.len,add(E.len,1)),imp(and_(le(0,k),lt(k,E.len)),veq(n.at(k,'ptr',0),E.at(k,'ptr',0))),veq(n.at(E.len,'ptr',0),d))))
            else: p.ob('the entry is appended behind all others',s,not_(r))
            p.ob('its edge is used once more exactly when the entry was added',s,eq(s.ghost[('track','uses')],ite(r,1,0)))
            p.ob('a curve records this entity exactly when it is in the entry added, or did before',s,eq(B(l),B(or_(sp.l0,and_(r,ge(w,0))))))
            p.ob('an entry with a curve twice, or one in use, is refused',s,imp(r,and_(lt(w2,0),not_(and_(sp.l0,ge(w,0))))))
            p.ob('an entry without an edge is refused',s,imp(r,ne(sp.edge.base,0)))
            p.frame('AddEdge',st1,s,p.fields(cls,this,['edges']))
        p.run(p.ctx.fn(cls+'::AddEdge(LOOP_DATA*&)'),[this,box],post)
    return proof('AddEdge[508]',run,spec=LoopSpec)
def del_edge(which):
    """508 delEdge: a use that is not the last one; the last use (or all) of an edge that no entry of the loop names any more"""
    cls='IGES_ENTITY_508'; lst='redges'
    def run(p):
        st,this,x,L=start(p,cls,lst,nonnull=True); p.unique(st,L); c07.nonnull(p,st,L); i=p.find(st,L,x); bit(p,st,x); al=p.boolean('aFlagAll'); un=p.boolean('aFlagUnlink')
        E=p.get(st,this,cls,'edges'); c07.loopdata(p,st,E); l0=linked(p,st,x); c=L.at(i,'i32',8); st.assume(imp(ge(i,0),and_(ge(c,1),l0))); known=ge(i,0); last=or_(al,eq(c,1))
        if which=='use': st.assume(or_(not_(known),not_(last)))
        else:
            q=freshint('q'); st.assume(and_(known,last)); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(E.len)),B(ne(p.get(st,E.at(q,'ptr',0),'LOOP_DATA','data').base,x.base)))))
        st1=st.clone()
        def post(s,r):
            n=p.get(s,this,cls,lst); k=freshint('k'); g=s.ghost
            p.ob('reports whether the edge was listed',s,eq(B(r),B(known)))
            p.ob('an unknown edge changes nothing',s,imp(not_(known),pairs_eq(p,n,L)))
            p.ob('the last use takes exactly the edge from the list',s,imp(and_(known,last),pairs_eq(p,n,SeqErase(L,i))))
            p.ob('otherwise the edge has one use less, all others stay',s,imp(and_(known,not_(last)),and_(eq(n.len,L.len),imp(and_(le(0,k),lt(k,L.len)),and_(veq(n.at(k,'ptr',0),L.at(k,'ptr',0)),eq(n.at(k,'i32',8),sub(L.at(k,'i32',8),ite(eq(k,i),1,0))))))))
            p.ob('the edge forgets its parent exactly with its last use; a vanishing edge is not called',s,eq(g[('track','del')],ite(and_(known,last,not_(un)),1,0)))
            p.ob('no edge is registered',s,eq(g[('track','add')],0))
            p.ob('the entries of the loop stay',s,p.seqeq(p.get(s,this,cls,'edges'),E))
            p.frame('delEdge',st1,s,[(p.ctx.F(cls,lst)[1],p.ctx.F(cls,lst)[0],this.base),('i8',LINK,x.base)])
        p.run(p.ctx.fn(cls+'::delEdge(IGES_ENTITY*, bool, bool)'),[this,x,al,un],post)
    return proof('delEdge[508, %s]'%which,run,spec=Spec)
class UnlinkSpec(AddSpec):
    added=False
    def match(s,eng,st,dem,args,ins):
        if dem.startswith('IGES_ENTITY::unlink('): return [(st,z3.Bool('base_ok'))]
        return AddSpec.match(s,eng,st,dem,args,ins)
def unlink_curve():
    """504: a vanishing curve takes its edge with it (a vanishing vertex list: replay only)"""
    cls='IGES_ENTITY_504'
    def run(p):
        e=p.e; st=p.st; this=p.obj('this'); ch=p.obj('child'); p.spec.this=this; st.assume(this.base!=ch.base); st.assume(p.get(st,ch,A,'entityType')!=502)
        L=p.get(st,this,cls,'edges'); f=lambda n: p.ctx.F('EDGE_DATA',n)[0]; i=p.find(st,L,ch,'ptr',f('curv')); sv=L.at(i,'ptr',f('svp')); tv=L.at(i,'ptr',f('tvp'))
        j=freshint('j'); st.assume(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<I(L.len)),z3.And(*[I(L.at(j,'ptr',f(n)).base)>0 for n in('curv','svp','tvp')],*[B(ne(L.at(j,'ptr',f(n)).base,ch.base)) for n in('svp','tvp')]))))
        x0=p.obj('list'); u0=e.mread(st,'i32',USE,x0.base); st1=st.clone()
        def post(s,r):
            n=p.get(s,this,cls,'edges'); base=z3.Bool('base_ok'); hit=and_(not_(base),ge(i,0))
            for q,K in(('curv','ptr'),('svp','ptr'),('tvp','ptr'),('sv','i32'),('tv','i32')):
                p.ob('exactly the edge of the curve leaves the list, all others stay in order',s,or_(and_(hit,p.seqeq(n,SeqErase(L,i),K,f(q))),and_(not_(hit),p.seqeq(n,L,K,f(q)))))
            p.ob('reports whether a reference was removed',s,eq(B(r),B(or_(base,ge(i,0)))))
            p.ob('a vertex list has one use less for each end of that edge',s,eq(e.mread(s,'i32',USE,x0.base),sub(u0,ite(hit,add(ite(veq(sv,x0),1,0),ite(veq(tv,x0),1,0)),0))))
            p.frame('unlink',st1,s,p.fields(cls,this,['edges'])+[('i32',USE,None)])
        p.run(p.ctx.method(cls,'unlink'),[this,ch],post)
    return proof('unlink[504, curve]',run,spec=UnlinkSpec)
def tasks():
    return [count_add('IGES_ENTITY_504','addVertexList','vertices',None,'IGES_ENTITY_502*'),count_add('IGES_ENTITY_508','addEdge','redges',[502,504],'IGES_ENTITY*'),count_del(),del_edge('use'),del_edge('last'),
            add_one('IGES_ENTITY_504','addCurve','IGES_ENTITY*',curve_ok),add_one('IGES_ENTITY_180','AddArg','IGES_ENTITY*',solid_ok,'nodes'),add_op(),add_one('IGES_ENTITY_508','addPCurve','IGES_ENTITY*',pcurve_ok,exact=False),add_edge(),add_loop(),unlink_curve(),tree('unlink'),tree('ClearNodes')]
