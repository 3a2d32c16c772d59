"""C15: file paths split and join without loss (src/iges/mcad_utils.cpp)."""
from lib import *
CLS='MCAD_FILEPATH'
NAMES=('m_fullpath','m_filename','m_basename','m_ext')
SEP,ALT=ord('/'),ord('\\')
def conv(s,n):
    """the text s whose first n characters have the foreign separator replaced"""
    return SOpq('native',(id(s),n),s.len,lambda k: ite(and_(lt(k,n),eq(s.at(k),ALT)),SEP,s.at(k)))
class Spec(LibSpec):
    text=None
    def loop_inv(s,eng,fn,lp,st0,items):
        """the loop which replaces separators: the text is the original with everything before the position replaced"""
        strs=[it for it in items if it[0]=='mem' and it[1]==('str',0)]; phis=[it for it in items if it[0]=='phi']
        if len(items)>2+(('log',) in items) or len(strs)!=1 or len(phis)!=1 or s.text is None or isinstance(items[phis[0]],(Ptr,Iter,EPtr,APtr,Str)): return None
        t=s.text; v0=items[strs[0]]
        if v0 is not t: return None
        scan=items[phis[0]]==0      # a position which advances by one, or the result of a search
        pos=lambda p: ite(eq(p,t.len),-1,p) if not scan else p
        class Inv:
            def name(v,it): return 'text' if it==strs[0] else 'position' if it==phis[0] else 'events'
            def ghosts(v,e): return (e.fresh('pos'),)
            def witness(v,get):
                p=get(phis[0]); return (ite(eq(p,-1),t.len,p) if not scan else p,)
            def cond(v,g):
                p,=g; j=freshint('j'); q=I(p)
                none=z3.ForAll([j],z3.Implies(z3.And(q<=j,j<I(t.len)),B(ne(t.at(j),ALT))))
                return [('position in the text',and_(le(0,p),le(p,t.len)))]+([] if scan else [('the position is that of a separator to replace',or_(eq(p,t.len),eq(t.at(p),ALT)))])
            def form(v,it,v0,g):
                p,=g
                if it==('log',): return items[it]
                return pos(p) if it==phis[0] else conv(t,p)
        return Inv()
def last(p,st,s,ch,name,over=None):
    """ghost: position of the last ch in s, or -1"""
    i=p.e.fresh(name); j=freshint('j')
    st.assume(z3.And(i>=-1,i<I(s.len),z3.Implies(i>=0,B(eq(s.at(i),ch)))))
    st.assume(z3.ForAll([j],z3.Implies(z3.And(j>i,j>=0,j<I(s.len)),B(ne(s.at(j),ch)))))
    return i
class Parts:
    def __init__(s,p,st,P):
        s.P=P; s.sep=last(p,st,P,SEP,'sep'); s.dot=last(p,st,P,ord('.'),'dot'); s.b=s.sep+1; n=I(P.len)
        s.has=s.dot>s.b
        s.file=ssub(P,s.b,sub(n,s.b)); s.ext=ssub(P,s.dot+1,sub(sub(n,s.dot),1)); s.stem=z3.If(s.has,s.dot,n)
        s.base=ssub(P,s.b,s.stem-s.b); s.of={'m_filename':s.file,'m_basename':s.base,'m_ext':s.ext}
def setup(p):
    st=p.st; o=p.obj('this'); ps={}
    for n in NAMES:
        q=p.obj('o_'+n); p.put(st,o,CLS,n,q,'ptr'); ps[n]=q; st.assume(q.base!=o.base)
    for i,a in enumerate(NAMES):
        for b in NAMES[:i]: st.assume(ps[a].base!=ps[b].base)
    p.put(st,o,CLS,'pathsep',SEP,'i8'); p.put(st,o,CLS,'altsep',ALT,'i8')
    return o,ps
def rd(p,s,q): return p.e.mread(s,'str',0,q.base)
def wr(p,s,q,v): p.e.mwrite(s,'str',0,q.base,v)
def text(p,name,st=None):
    t=p.e.symstr(st or p.st,name,(I(0),)); j=freshint('j')
    (st or p.st).assume(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<I(t.len)),B(and_(ne(t.at(j),0),le(-128,t.at(j)),le(t.at(j),127))))))
    return t
def arg(p,st,t): return EPtr('str',p.cell('str',t,st),0)
def stateqs(p,name,what,s,o,ps,new,cache=None):
    """the path is `new`; every remembered part is empty or that part of the path"""
    p.ob('%s: the path is %s'%(name,what),s,seq_str(rd(p,s,ps['m_fullpath']),new))
    for n in NAMES: p.ob('%s: the path object keeps its parts'%name,s,eq(p.get(s,o,CLS,n,'ptr').base,ps[n].base))
    vals={n:rd(p,s,ps[n]) for n in NAMES[1:]}
    if all(isinstance(v,SLit) and not v.b for v in vals.values()): return
    s2=s.clone(); w=cache or Parts(p,s2,new)
    for n,v in vals.items():
        if isinstance(v,SLit) and not v.b: continue
        f=seq_str(v,w.of[n]) 
        p.ob('%s: the remembered %s is that of the path'%(name,{'m_filename':'file name','m_basename':'base name','m_ext':'extension'}[n]),s2,or_(eq(v.len,0),and_(f,w.has) if n=='m_ext' else f))
COMBOS=[(a,b,c) for a in(0,1) for b in(0,1) for c in(0,1)]
def each(p,f,kinds=('part','no ext')):
    """every consistent state of the object: any path, with and without an extension, any set of remembered parts"""
    st00=p.st
    for k in kinds:
        for cs in COMBOS:
            if k=='no ext' and cs[2]: continue
            p.st=st00.clone(); o,ps=setup(p); P=text(p,'path'); w=Parts(p,p.st,P)
            p.st.assume(w.has if k=='part' else z3.Not(w.has))
            if any(cs): p.st.assume(I(P.len)>0)
            wr(p,p.st,ps['m_fullpath'],P)
            for n,c in zip(NAMES[1:],cs): wr(p,p.st,ps[n],w.of[n] if c else EMPTY)
            f(o,ps,P,w,k)
def restext(p,name,s,r,isnull,want):
    p.ob(name+': nothing exactly when there is none',s,eq(p.e.isnull(r) if hasattr(p.e,'isnull') else (False if isinstance(r,EPtr) else eq(r.base,0)),isnull))
    if isinstance(r,EPtr): p.ob(name+': the text',s,imp(not_(isnull),seq_str(p.e.mread(s,'str',r.cont.off,r.cont.base) if r.idx==0 else ssub(p.e.mread(s,'str',r.cont.off,r.cont.base),r.idx,0),want)))
    elif not(isinstance(r,Ptr) and r.base==0): p.ob(name+': the text',s,False)
def getter(meth,nm):
    def run(p):
        def go(o,ps,P,w,k):
            st1=p.st.clone()
            def post(s,r):
                isnull=eq(P.len,0)
                if meth=='GetExtension': isnull=or_(isnull,not_(w.has))
                restext(p,nm,s,r,isnull,{'GetFullPath':P,'GetFileName':w.file,'GetBaseName':w.base,'GetExtension':w.ext}[meth])
                stateqs(p,nm,'kept',s,o,ps,P,w)
                p.frame(nm,st1,s,[('str',0,ps[n].base) for n in NAMES[1:]])
            p.run(p.ctx.fn('MCAD_FILEPATH::%s()'%meth),[o],post,vac=False)
        each(p,go)
    return proof('MCAD_FILEPATH::%s'%meth,run,spec=Spec,deadline=200)
def setext_task(null):
    def run(p):
        def go(o,ps,P,w,k):
            a=Ptr(0,0) if null else None
            if not null: t=text(p,'ext'); a=arg(p,p.st,t); n=t.len
            else: t=EMPTY; n=0
            dot=and_(lt(0,n),eq(t.at(0),ord('.'))) if not null else False
            bad=or_(eq(P.len,0),and_(eq(n,1),dot)); st1=p.st.clone()
            def post(s,r):
                p.ob('a path and a usable extension are needed',s,eq(B(r),not_(bad)))
                keep=ssub(P,0,w.stem)
                for c,what,new in((bad,'kept when refused',P),(and_(not_(bad),eq(n,0)),'the path without its extension',keep),(and_(not_(bad),dot),'the path with the extension given',scat(keep,t)),(and_(not_(bad),lt(0,n),not_(dot)),'the path with a dot and the extension given',scat(keep,schar(ord('.')),t))):
                    s2=s.clone(); s2.assume(B(c)) if c is not True else None
                    if c is False or not p.e.feasible(s2): continue
                    stateqs(p,'change of extension',what,s2,o,ps,new,w if new is P else None)
                p.frame('change of extension',st1,s,[('str',0,ps[n].base) for n in NAMES])
            p.run(p.ctx.fn('MCAD_FILEPATH::SetExtension(char const*)'),[o,a],post,vac=False)
        each(p,go)
    return proof('MCAD_FILEPATH::SetExtension%s'%(' (none)' if null else ''),run,spec=Spec,deadline=300)
def path_task(meth,null):
    def run(p):
        def go(o,ps,P,w,k):
            if null: a,t,n=Ptr(0,0),EMPTY,0
            else: t=text(p,'arg'); a=arg(p,p.st,t); n=t.len; p.spec.text=t
            st1=p.st.clone(); full=conv(t,t.len) if not null else EMPTY
            def post(s,r):
                p.ob('always succeeds',s,r)
                if meth=='SetPath': cases=[(True,'that given, with native separators',full)]
                else:
                    none=or_(eq(n,0),and_(eq(n,1),eq(full.at(0),SEP))) if not null else True
                    cases=[(none,'kept when nothing is appended',P),(and_(not_(none),eq(P.len,0)),'the part appended to no path',full),(and_(not_(none),lt(0,P.len)),'the path, a separator and the part appended',scat(P,schar(SEP),full))]
                for c,what,new in cases:
                    s2=s.clone()
                    if c is False: continue
                    if c is not True: s2.assume(B(c))
                    if not p.e.feasible(s2): continue
                    stateqs(p,meth,what,s2,o,ps,new,w if new is P else None)
                p.frame(meth,st1,s,[('str',0,ps[n].base) for n in NAMES])
            p.run(p.ctx.fn('MCAD_FILEPATH::%s(char const*)'%meth),[o,a],post,vac=False)
        each(p,go,('part',) if meth=='SetPath' and False else ('part','no ext'))
    return proof('MCAD_FILEPATH::%s%s'%(meth,' (none)' if null else ''),run,spec=Spec,deadline=300)
def lemma_task():
    """composition of the contracts above: the reported parts after a change of extension"""
    def run(p):
        st=p.st; P=text(p,'path'); w=Parts(p,st,P); x=text(p,'ext'); j=freshint('j')
        st.assume(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<I(x.len)),B(and_(ne(x.at(j),ord('.')),ne(x.at(j),SEP))))))
        st.assume(I(x.len)>0); st.assume(I(P.len)>0); st.assume(w.stem>w.b)
        p.ob('directory and file name make up the path',st,seq_str(scat(ssub(P,0,w.b),w.file),P))
        s1=st.clone(); s1.assume(w.has); p.ob('base name, dot and extension make up the file name',s1,seq_str(scat(w.base,schar(ord('.')),w.ext),w.file))
        s1=st.clone(); s1.assume(z3.Not(w.has)); p.ob('without extension the base name is the file name',s1,seq_str(w.base,w.file))
        Q=scat(ssub(P,0,w.stem),schar(ord('.')),x)
        D=w.stem; S=w.sep; n=I(Q.len); k=freshint('k')
        isl=lambda pos,ch: and_(eq(Q.at(pos),ch),imp(and_(lt(pos,k),lt(k,n)),ne(Q.at(k),ch)))
        p.ob('after a change of extension the last dot is the one added',st,isl(D,ord('.')))
        p.ob('after a change of extension the last separator is the old one',st,and_(imp(ge(S,0),eq(Q.at(S),SEP)),imp(and_(lt(S,k),le(0,k),lt(k,n)),ne(Q.at(k),SEP))))
        p.ob('the new extension is the one given',st,seq_str(ssub(Q,D+1,n-D-1),x))
        p.ob('the base name is the old one',st,seq_str(ssub(Q,S+1,D-S-1),w.base))
        p.ob('the directory is the old one',st,seq_str(ssub(Q,0,S+1),ssub(P,0,S+1)))
        p.ob('lemma context is consistent',st,True)
    return proof('lemma: the parts of a path after a change of extension',run,spec=Spec)
def tasks(ctx,thorough):
    out=[getter(m,n) for m,n in(('GetFullPath','full path'),('GetFileName','file name'),('GetBaseName','base name'),('GetExtension','extension'))]
    out+=[setext_task(False),setext_task(True)]
    out+=[path_task(m,n) for m in('SetPath','Append') for n in(False,True)]
    return out+[lemma_task()]
REPLAY='c15.cpp'
REPLAY_N=20000
