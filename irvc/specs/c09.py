"""C09: API handles never touch an object that is gone, and stay registered with exactly the object they hold."""
from lib import *
REG=900000
def rget(e,st,off,base): return e.tobool(e.mread(st,'i8',REG+off,base))
ALIVE='IGES_ENTITY|IGES|MCAD_SEGMENT|MCAD_OUTLINE'
class Spec(LibSpec):
    check_bounds=False           # indices are not the subject of this property
    def dyncast(s,eng,st,p,tinfo,ins):
        eng.deref(st,p,ins,'dynamic cast'); ok=eng.fresh('cast','Bool'); out=[]
        eng.fork(st,ok,lambda q: out.append((q,p)),lambda q: out.append((q,NULL))); return out
    def flag(s,st,p):
        if not isinstance(p,Ptr) or isz(p.off): raise Unsupported('flag pointer')
        return p
    def match(s,eng,st,dem,args,ins):
        m=re.match(r'(\w+)::(Attach|Detach)ValidFlag\(bool\*\)$',dem)
        if m and re.fullmatch(ALIVE+r'|IGES_ENTITY_\w+',m.group(1)):
            x,fl=args; eng.deref(st,x,ins,'call')
            if eq(fl.base,0) is True: return [(st,None)]
            key=REG+s.key(fl)
            if m.group(2)=='Attach':
                eng.mwrite(st,'i8',key,x.base,1); eng.store(st,fl,'i8',1)
            else:
                was=eng.tobool(eng.mread(st,'i8',key,x.base)); eng.mwrite(st,'i8',key,x.base,0)
                old=eng.mread(st,'i8',fl.off,fl.base)
                eng.store(st,fl,'i8',merge(was,0,old) if old is not UNDEF else 0)
            return [(st,None)]
        if dem.startswith('@virtual handle ~'):
            eng.deref(st,args[0],ins,'delete'); d=(args[0].base,True)
            st.dead=st.dead+[d] if isinstance(st.dead,list) else st.dead+(d,)
            return [(st,None)]
        m=re.match(r'((?:IGES|MCAD)\w*)::\1\(',dem)
        if m and not dem.startswith('MCAD_POINT'):
            for k in s.keys: eng.mwrite(st,'i8',REG+k,args[0].base,0)
            return [(st,None)]
        if re.match(r'(@virtual |(?:IGES|MCAD_SEGMENT|MCAD_OUTLINE)\w*::)~\w+\(',dem):
            eng.deref(st,args[0],ins,'delete')
            for k,fl in s.keys.items():
                was=eng.tobool(eng.mread(st,'i8',REG+k,args[0].base)); eng.mwrite(st,'i8',REG+k,args[0].base,0)
                old=eng.mread(st,'i8',fl.off,fl.base); eng.mwrite(st,'i8',fl.off,fl.base,merge(was,0,old))
            if dem.startswith('@virtual'): st.dead=st.dead+[(args[0].base,True)] if isinstance(st.dead,list) else st.dead+((args[0].base,True),)
            return [(st,None)]
        if dem=='IGES::NewEntity(int, IGES_ENTITY**)':
            eng.deref(st,args[0],ins,'call'); ok=eng.fresh('ok','Bool'); out=[]
            def good(q):
                n=eng.new_id()
                for k in s.keys: eng.mwrite(q,'i8',REG+k,n,0)
                eng.store(q,args[2],'ptr',Ptr(n,0)); out.append((q,True))
            def bad(q): eng.store(q,args[2],'ptr',NULL); out.append((q,False))
            eng.fork(st,ok,good,bad); return out
        if dem=='IGES::DelEntity(IGES_ENTITY*)':
            eng.deref(st,args[0],ins,'call'); ok=eng.fresh('ok','Bool'); out=[]; x=args[1]
            def good(q):
                for k,fl in s.keys.items():
                    was=eng.tobool(eng.mread(q,'i8',REG+k,x.base)); eng.mwrite(q,'i8',REG+k,x.base,0)
                    old=eng.mread(q,'i8',fl.off,fl.base); eng.mwrite(q,'i8',fl.off,fl.base,merge(was,0,old))
                d=(x.base,ne(x.base,0)); q.dead=q.dead+[d] if isinstance(q.dead,list) else q.dead+(d,); out.append((q,True))
            eng.fork(st,and_(ok,ne(x.base,0)),good,lambda q: out.append((q,False))); return out
        if re.match(r'@virtual |(IGES\w*|MCAD_SEGMENT|MCAD_OUTLINE)::',dem):
            if not isinstance(args[0],Ptr): raise Unsupported('receiver')
            eng.deref(st,args[0],ins,'call')
            for a in args[1:]:
                if isinstance(a,Ptr) and isinstance(a.base,int) and a.base<0: s.havoc(eng,st,a)
            t=ins.ty
            if t[0]=='void': return [(st,None)]
            if t[0]=='i': return [(st,eng.fresh('rv','Bool') if t[1]==1 else eng.fresh('rv','Int'))]
            if t[0]=='f': return [(st,eng.fresh('rv','Real'))]
            if t[0]=='ptr':
                x=eng.fresh('rp','Int'); st.assume(x>=0)          # what a live object returns is live
                for db,c in st.dead: st.assume(z3.Implies(B(c),B(ne(x,db)))) if not(isinstance(db,int) and db<0) else None
                return [(st,Ptr(x,0))]
            raise Unsupported('call '+dem)
        return None
    def havoc(s,eng,st,a):
        for (k,o),_ in list(st.mem.items()):
            if st.kinds.get((a.base,o))==k or k in('str','vec','list'):
                node=st.mem[(k,o)]; found=False
                while node is not None:
                    if node[0]=='w' and isinstance(node[1],int) and node[1]==a.base: found=True; break
                    node=node[3]
                if not found: continue
                if k=='str': v=eng.symstr(st,'hv%d'%eng.cnt,(I(0),))
                elif k in('vec','list'): v=eng.symseq(st,'hv%d'%eng.cnt,(I(0),))
                elif k=='f64': v=eng.fresh('hv','Real')
                elif k=='ptr': x=eng.fresh('hv','Int'); st.assume(x>=0); v=Ptr(x,0)
                else: v=eng.fresh('hv','Int')
                eng.cnt+=1; eng.mwrite(st,k,o,a.base,v)
    def key(s,fl):
        for k,f in s.keys.items():
            if f.off==fl.off and (f.base is fl.base or eq(f.base,fl.base) is True): return k
        k=5000+len(s.keys); s.keys[k]=fl; s.p.e.assumptions.add('distinct handle arguments are distinct objects')
        return k
    vtcls='IGES_ENTITY_100'
    def symload(s,eng,st,p,kind):
        eng.assumptions.add('contents of array arguments are arbitrary')
        if kind=='f64': return eng.fresh('ar','Real')
        if kind=='ptr': x=eng.fresh('ar','Int'); st.assume(x>=0); return Ptr(x,0)
        return eng.fresh('ar','Int')
    def slotname(s,slot):
        v=s.p.ctx.mod.vtable(s.vtcls)
        if slot is not None and slot>=len(v): v=s.p.ctx.mod.vtable('IGES_ENTITY_100')
        d=s.p.ctx.mod.dem.get(v[slot]) if slot is not None and slot<len(v) else None
        return ('handle ' if d.startswith('DLL_') else '')+re.sub(r'^\w+::','',d) if d else None
NEEDLESS=re.compile(r'DLL_MCAD_SEGMENT::SetParams|::(SetAPIParentIGES|NewEntity|Attach|NewSegment|NewOutline|IsValid|Detach|DelEntity|DelSegment|DelOutline)\(|GetEntityType\(\) const|DLL_IGES::DelEntity|DLL_IGES_ENTITY::GetEntityType\(\)')
NEEDFUL=re.compile(r'DLL_IGES::(DelEntity|AddEntity)')
def handle_classes(ctx):
    out={}
    for c in ctx.lay.rec:
        if not c.startswith('DLL_'): continue
        names=[n for n,_,_,_ in ctx.lay.fields(c)]
        for f in('m_entity','m_iges','m_segment','m_outline'):
            if f in names: out[c]=f
    return out
def params(dem):
    i=dem.index('('); d=0
    body=dem[i+1:dem.rindex(')')]
    return models.split_args(body) if body.strip() else []
def setup(p,cls,dem,field,ctor=False):
    ctx=p.ctx; st=p.st; e=p.e
    names=[n for n,_,_,_ in ctx.lay.fields(cls)]
    this=p.obj('this'); fn=ctx.fn(dem); F=ctx.mod.fn(fn)
    args=[this]; ps=params(dem.replace(' const','') if dem.endswith(' const') else dem)
    tys=F.argty[1:]
    if len(tys)!=len(ps): raise Unsupported('argument passing of '+dem)
    hs=[]; nest=[]
    for i,(t,d) in enumerate(zip(tys,ps)):
        if t[0]=='ptr':
            a=p.obj('arg%d'%i,nonnull=('&' in d) or not d.endswith('*') or d.endswith('**') or d=='char const*'); args.append(a); st.assume(a.base!=this.base)
            if re.search(r'\*\&$|\*\*$',d): nest.append(p.e.mread(st,'ptr',0,a.base)); st.assume(nest[-1].base>0) if 'DLL_' in d or 'char const' in d else None
            if re.match(r'DLL_\w+(\*|&| ?const&)$',d): hs.append((a,re.match(r'\w+',d).group(0)))
        elif t[0]=='i' and t[1]==1: args.append(z3.Bool('arg%d'%i))
        elif t[0]=='i': args.append(p.i32('arg%d'%i))
        elif t[0]=='f': args.append(z3.Real('arg%d'%i))
        else: raise Unsupported('parameter '+d)
    p.spec.vtcls='MCAD_OUTLINE' if cls.startswith(('DLL_MCAD','DLL_IGES_GEOM')) else ('DLL_IGES_ENTITY_100' if cls=='DLL_IGES' else 'IGES_ENTITY_100')
    slots=[(field,'m_valid')]+([('m_parent','m_hasParent')] if 'm_parent' in names else [])
    p.spec.keys={ctx.F(cls,v)[0]:Ptr(this.base,ctx.F(cls,v)[0]) for _,v in slots}
    hslots=[]
    for i,(a,c) in enumerate(hs):
        hc=handle_classes(ctx).get(c)
        if not hc: raise Unsupported('handle '+c)
        k=3000+i; p.spec.keys[k]=Ptr(a.base,ctx.F(c,'m_valid')[0]); hslots.append((a,c,hc,k))
    p.hslots=hslots
    olds=[p.get(st,this,cls,f) for f,_ in slots]
    for n in nest:
        for x in olds+[this]+[a for a in args if isinstance(a,Ptr)]: st.assume(z3.Or(n.base!=x.base,n.base==0))
    # the other handles passed in: their object is live exactly when they are valid
    for a,c in hs:
        hc=handle_classes(ctx).get(c)
        if not hc: raise Unsupported('handle '+c)
        ob_=p.get(st,a,c,hc); vl=e.tobool(p.get(st,a,c,'m_valid'))
        st.dead=list(st.dead)+[(ob_.base,z3.And(a.base!=0,z3.Not(B(vl))))] if isinstance(st.dead,list) else st.dead+((ob_.base,z3.And(a.base!=0,z3.Not(B(vl)))),)
        st.assume(ob_.base!=this.base)
        for x in args:
            if isinstance(x,Ptr): st.assume(z3.Or(ob_.base!=x.base,ob_.base==0))
    return this,fn,args,slots,hs
def invalid_task(cls,dem,field):
    def run(p):
        st=p.st; e=p.e
        this,fn,args,slots,hs=setup(p,cls,dem,field)
        o=p.get(st,this,cls,field); v=e.tobool(p.get(st,this,cls,'m_valid'))
        st.assume(z3.Or(z3.Not(B(v)),o.base==0))
        d=(o.base,o.base!=0); st.dead=st.dead+[d] if isinstance(st.dead,list) else st.dead+(d,)
        for a in args[1:]+[this]:
            if isinstance(a,Ptr): st.assume(z3.Or(a.base!=o.base,a.base==0))
        if ('m_parent','m_hasParent') in slots:
            mp=p.get(st,this,cls,'m_parent'); st.assume(mp.base!=this.base); hp=e.tobool(p.get(st,this,cls,'m_hasParent'))
            st.assume(z3.Or(mp.base!=o.base,mp.base==0)); d=(mp.base,z3.And(mp.base!=0,z3.Not(B(hp)))); st.dead=st.dead+[d] if isinstance(st.dead,list) else st.dead+(d,)
            for a in args[1:]:
                if isinstance(a,Ptr): st.assume(z3.Or(a.base!=mp.base,a.base==0))
            for a,c in hs: st.assume(z3.Or(p.get(st,a,c,handle_classes(p.ctx)[c]).base!=mp.base,mp.base==0))
        for a,c in hs: st.assume(z3.Or(p.get(st,a,c,handle_classes(p.ctx)[c]).base!=o.base,o.base==0))
        needs=(not NEEDLESS.search(dem)) or NEEDFUL.search(dem)
        def post(s,r):
            if r is None or not needs: p.ob('no vanished object is touched',s,True); return
            if isinstance(r,Ptr): p.ob('failure is reported: null',s,eq(r.base,0))
            elif r is UNDEF: p.ob('failure is reported',s,False)
            elif isinstance(r,bool) or (isz(r) and z3.is_bool(r)): p.ob('failure is reported: false',s,not_(r))
            else: p.ob('failure is reported: no positive result',s,le(r,0))
        p.run(fn,args,post)
    return proof('gone[%s]'%short(dem),run,spec=Spec)
def reg_task(cls,dem,field):
    ctor=re.match(r'(\w+)::\1\(',dem) is not None; dtor='::~' in dem
    def run(p):
        st=p.st; e=p.e; ctx=p.ctx
        this,fn,args,slots,hs=setup(p,cls,dem,field,ctor)
        x0=p.obj('x0'); st.assume(x0.base!=this.base)
        pairs=[]
        for f,v in slots:
            vo=ctx.F(cls,v)[0]
            if ctor: st.assume(z3.Not(B(rget(e,st,vo,x0.base))))
            else:
                o=p.get(st,this,cls,f); vl=e.tobool(p.get(st,this,cls,v)); st.assume(o.base!=this.base)
                for a in args[1:]:
                    if isinstance(a,Ptr): st.assume(B(rget(e,st,vo,a.base))==z3.And(B(vl),o.base==a.base,a.base!=0))
                for x in(x0.base,o.base): st.assume(B(rget(e,st,vo,x))==z3.And(B(vl),o.base==x,x!=0))
                # what the handle is not registered with may be gone
                d=(o.base,z3.And(o.base!=0,z3.Not(B(vl)))); 
                st.dead=st.dead+[d] if isinstance(st.dead,list) else st.dead+(d,)
                for a in args[1:]:
                    if isinstance(a,Ptr): st.assume(z3.Or(B(vl),a.base!=o.base,a.base==0))
                pairs.append((o,vl))
            for a,c in hs:
                q=p.get(st,a,c,handle_classes(ctx)[c]); qv=p.get(st,a,c,'m_valid')
                if not ctor: st.assume(B(rget(e,st,vo,q.base))==z3.And(B(vl),o.base==q.base,q.base!=0)); st.assume(z3.Or(q.base!=o.base,z3.And(B(vl),B(e.tobool(qv))),o.base==0))
                else: st.assume(z3.Not(B(rget(e,st,vo,q.base))))
            if ctor:
                for a in args[1:]:
                    if isinstance(a,Ptr): st.assume(z3.Not(B(rget(e,st,vo,a.base))))
        if len(pairs)==2: st.assume(z3.Or(pairs[0][0].base!=pairs[1][0].base,pairs[0][0].base==0))
        for f,v in slots:
            vo=ctx.F(cls,v)[0]
            if not ctor:
                for g,_ in slots:
                    y=p.get(st,this,cls,g).base; o=p.get(st,this,cls,f); vl=e.tobool(p.get(st,this,cls,v)); st.assume(B(rget(e,st,vo,y))==z3.And(B(vl),o.base==y,y!=0))
        xs=[x0]+[p.get(st,this,cls,f) for f,_ in slots]+[p.get(st,a,c,hc) for a,c,hc,k in p.hslots]+[a for a in args[1:] if isinstance(a,Ptr)]
        for a,c,hc,k in p.hslots:
            q=p.get(st,a,c,hc); qv=e.tobool(p.get(st,a,c,'m_valid'))
            for x in xs: st.assume(B(rget(e,st,k,x.base))==z3.And(B(qv),q.base==x.base,x.base!=0,a.base!=0))
        def post(s,r):
            n=0
            for a,c,hc,k in p.hslots:
                o=p.get(s,a,c,hc); raw=p.get(s,a,c,'m_valid'); vl=e.tobool(raw) if raw is not UNDEF else e.fresh('uninit','Bool')
                rg=rget(e,s,k,x0.base); att=and_(vl,eq(o.base,x0.base))
                p.ob('other handle: registered with an object exactly when attached to it',s,imp(ne(a.base,0),and_(imp(rg,att),imp(att,rg))))
            for f,v in slots:
                vo=ctx.F(cls,v)[0]
                bases=[x0.base]; node=s.mem.get(('i8',REG+vo))
                while node is not None:
                    if isinstance(node[1],int) and node[1]<0 and node[1] not in bases: bases.append(node[1])
                    node=node[3]
                o=p.get(s,this,cls,f); raw=p.get(s,this,cls,v); vl=False if dtor else (e.tobool(raw) if raw is not UNDEF else e.fresh('uninit','Bool'))
                for b in bases:
                    rg=rget(e,s,vo,b)
                    if b in s.ghost.get('freed',()) : 
                        continue
                    att=False if dtor else and_(vl,eq(o.base,b))
                    p.ob('%s: registered with an object exactly when attached to it'%v,s,and_(imp(rg,att),imp(att,rg)))
        p.run(fn,args,post)
    return proof('registered[%s]'%short(dem),run,spec=Spec)
def short(d): return d.replace('DLL_IGES_ENTITY','DLL_E').replace('IGES_ENTITY','E')
def flag_task(cls,which):
    dem='%s::%sValidFlag(bool*)'%(cls,which)
    def run(p):
        ctx=p.ctx; e=p.e; st=p.st
        this=p.obj('this'); fl=p.obj('flag',nonnull=False); st.assume(fl.base!=this.base)
        fn=ctx.fn(dem); st0=st.clone(); L=p.get(st,this,cls,'m_validFlags'); p.unique(st,L); i=p.find(st,L,fl,name='at')
        q=freshint('nn'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(L.len)),B(ne(L.at(q,'ptr',0).base,0)))))
        f0=e.mread(st,'i8',0,fl.base); st1=st.clone()
        def post(s,r):
            n=p.get(s,this,cls,'m_validFlags'); nz=ne(fl.base,0)
            if which=='Attach':
                p.ob('a new flag is listed once, a listed one is not listed again',s,or_(and_(or_(not_(nz),ge(i,0)),p.seqeq(n,L)),and_(nz,lt(i,0),p.seqeq(n,SeqPush(L,fl)))))
                p.ob('the flag is set',s,imp(nz,e.tobool(e.mread(s,'i8',0,fl.base))))
            else:
                p.ob('exactly this flag is removed',s,or_(and_(nz,ge(i,0),p.seqeq(n,SeqErase(L,i))),and_(or_(not_(nz),lt(i,0)),p.seqeq(n,L))))
                p.ob('the flag is cleared when it was registered',s,imp(and_(nz,ge(i,0)),not_(e.tobool(e.mread(s,'i8',0,fl.base)))))
                p.ob('a foreign flag is left alone',s,imp(lt(i,0),eq(e.mread(s,'i8',0,fl.base),f0)))
            p.frame('flags',st1,s,[(ctx.F(cls,'m_validFlags')[1],ctx.F(cls,'m_validFlags')[0],this.base),('i8',0,fl.base)])
        p.run(fn,[this,fl],post)
    return proof('flags[%s::%s]'%(cls,which),run,spec=LibSpec)
class DtorSpec(LibSpec):
    check_bounds=False
    def dyncast(s,eng,st,p,tinfo,ins): return [(st,p)]
    def onstore(s,eng,st,p,kind,v):
        if kind=='i8' and p.off==0 and isz(p.base) and conc(v):
            st.event('flag',p,v); return True
        return False
    def match(s,eng,st,dem,args,ins):
        t=ins.ty
        if dem.startswith('@virtual ') or re.match(r'(IGES|MCAD_\w+|IGES_ENTITY\w*)::(?!~)',dem):
            eng.deref(st,args[0],ins,'call')
            return [(st,None)] if t[0]=='void' else [(st,eng.fresh('rv','Bool' if t[1]==1 else 'Int'))] if t[0]=='i' else None
        return None
def dtor_task(cls):
    def run(p):
        ctx=p.ctx; e=p.e; st=p.st; dem='%s::~%s()'%(cls,cls)
        this=p.obj('this'); fn=[x for x in ctx.mod.bydem[dem] if x.endswith('D2Ev')][0]; L=p.get(st,this,cls,'m_validFlags')
        q=freshint('nn'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(L.len)),B(gt(L.at(q,'ptr',0).base,0)))))
        k=p.i32('k'); st.assume(z3.And(k>=0,k<I(L.len))); fk=L.at(k,'ptr',0)
        # non-null elements of the other lists of the object
        for n,o,kd,t in ctx.lay.fields(cls):
            if kd in('list','vec') and n!='m_validFlags' and '*' in t:
                sq=p.get(st,this,cls,n); q=freshint('nn'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(sq.len)),B(gt(sq.at(q,'ptr',0).base,0)))))
        def post(s,r):
            j=freshint('j'); log=s.log
            # the log lists every flag store in order; the k-th one is for the k-th flag
            alts=[]
            for c in(k,):
                try: ev=log.at(c,'ev')
                except Unsupported: ev=None
                if ev is not None and ev[0]=='flag': alts.append(and_(lt(c,log.len),veq(ev[1],fk),eq(ev[2],0)))
            p.ob('every registered flag is cleared',s,or_(*alts))
        p.run(fn,[this],post)
    return proof('destroy[%s]'%cls,run,spec=DtorSpec)
def tasks(ctx,thorough):
    T=[]; hc=handle_classes(ctx)
    for d in sorted(ctx.mod.bydem):
        m=re.match(r'(DLL_\w+)::(~?\w+)\(.*\)( const)?$',d)
        if not m or m.group(1) not in hc: continue
        if not any(ctx.mod.fn(ctx.mod.alias.get(x,x)) is not None for x in ctx.mod.bydem[d]): continue
        cls,nm=m.group(1),m.group(2)
        if nm.startswith('~') and re.match(r'DLL_IGES_(CURVE|ENTITY)$',cls): continue   # abstract: destroyed through the derived classes
        ct=nm==cls or nm.startswith('~')
        if not ct: T.append(invalid_task(cls,d,hc[cls]))
        T.append(reg_task(cls,d,hc[cls]))
    for c in('IGES_ENTITY','IGES','MCAD_SEGMENT','MCAD_OUTLINE'):
        for w in('Attach','Detach'):
            if w=='Attach': T.append(dtor_task(c))
            if '%s::%sValidFlag(bool*)'%(c,w) in ctx.mod.bydem: T.append(flag_task(c,w))
    return T
REPLAY='c09.cpp'; REPLAY_N=200
