"""Models (assumed contracts) of the C++ standard library operations used by the code under verification.
Every entry here is part of the trusted base."""
import z3, re
from fractions import Fraction
from values import *
from values import _s8

def tmpl(s,i):
    """s[i]=='<' -> (inner, index after matching '>')"""
    d=0
    for k in range(i,len(s)):
        if s[k]=='<': d+=1
        elif s[k]=='>':
            if s[k-1]=='-': continue
            d-=1
            if d==0: return s[i+1:k],k+1
    raise Unsupported('template '+s)
def split_args(s):
    out=[];d=0;cur=''
    for ch in s:
        if ch=='<' or ch=='(': d+=1
        if ch=='>' or ch==')': d-=1
        if ch==',' and d==0: out.append(cur.strip()); cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out

_lay={}
def layout(mod,T):
    """leaf layout of element type T: [(off,kind)], and whether it is a scalar"""
    k=(id(mod),T)
    if k in _lay: return _lay[k]
    r=_layout(mod,T); _lay[k]=r
    return r
def _layout(mod,T):
    T=T.strip()
    if T.endswith(' const'): T=T[:-6]
    if T.endswith('*'): return [(0,'ptr')]
    if T in('int','unsigned int') : return [(0,'i32')]
    if T in('unsigned long','long'): return [(0,'i64')]
    if T in('double','float'): return [(0,'f64')]
    if T in('bool','char'): return [(0,'i8')]
    if T=='string': return [(0,'str')]
    if T.startswith('std::_List_iterator') or T.startswith('std::_List_const_iterator') or T.startswith('__normal_iterator'): return [(0,'ptr')]
    if T.startswith('std::pair<'):
        a=split_args(tmpl(T,9)[0]); out=[];o=0;al=1
        for x in a:
            l=layout(mod,x); sz,alg=sizeof(mod,x)
            o=(o+alg-1)//alg*alg
            out+=[(o+q,kk) for q,kk in l]; o+=sz
        return out
    for p in('class.','struct.','enum.'):
        t=mod.struct(p+T)
        if t: return mod.flatten(t)
    if mod.struct('class.'+T) is None: 
        return [(0,'i32')] if T.isupper() or T.startswith('IGES_') or T.startswith('MCAD_') else (_ for _ in ()).throw(Unsupported('layout '+T))
def sizeof(mod,T):
    T=T.strip()
    l=layout(mod,T)
    if len(l)==1 and l[0][0]==0:
        s={'ptr':8,'i32':4,'i64':8,'f64':8,'i8':1,'str':32}[l[0][1]]
        if l[0][1]=='str': return 32,8
        return s,s
    if T.startswith('std::pair<'):
        m=1;e=0
        sz={'ptr':8,'i32':4,'i64':8,'f64':8,'i8':1,'str':32}; al={'str':8}
        for o,k in l: m=max(m,al.get(k,sz[k])); e=max(e,o+sz[k])
        return (e+m-1)//m*m,m
    for p in('class.','struct.'):
        t=mod.struct(p+T)
        if t: return mod.size(t),8
    raise Unsupported('sizeof '+T)
def read_T(e,st,p,T,ins):
    l=layout(e.mod,T)
    if len(l)==1 and l[0][0]==0:
        if l[0][1]=='str': return e_str(e,st,p)
        return e.load(st,p,l[0][1],ins)
    r=Rec()
    for o,k in l:
        q=e.gep(p,o,[])
        r[o]=(k, e_str(e,st,q) if k=='str' else e.load(st,q,k,ins))
    return r
def write_T(e,st,p,T,v,ins):
    l=layout(e.mod,T)
    if len(l)==1 and l[0][0]==0:
        if l[0][1]=='str': return w_str(e,st,p,v)
        return e.store(st,p,l[0][1],v,ins)
    for o,k in l:
        q=e.gep(p,o,[])
        if k=='str': w_str(e,st,q,v[o][1])
        else: e.store(st,q,k,v[o][1],ins)
def elem_T(e,seq,idx,T):
    l=layout(e.mod,T)
    if len(l)==1 and l[0][0]==0: return seq.at(idx,l[0][1],0)
    return Rec({o:(k,seq.at(idx,k,o)) for o,k in l})

# ---------------------------------------------------------------- strings
def e_str(e,st,p):
    if isinstance(p,Ptr):
        e.deref(st,p,None,'string access')
        return e.mread(st,'str',p.off,p.base)
    if isinstance(p,EPtr):
        s=e.mread(st,p.kind,p.cont.off,p.cont.base)
        e.bounds('element access',st,and_(le(0,p.idx),lt(p.idx,s.len)),None)
        return s.at(p.idx,'str',p.sub)
    raise Unsupported('string object')
def w_str(e,st,p,v):
    if isinstance(p,Ptr):
        e.deref(st,p,None,'string write')
        return e.mwrite(st,'str',p.off,p.base,v)
    if isinstance(p,EPtr):
        s=e.mread(st,p.kind,p.cont.off,p.cont.base)
        return e.mwrite(st,p.kind,p.cont.off,p.cont.base,SeqUpd(s,p.idx,v,'str',p.sub))
    raise Unsupported('string write')
def cstr(e,st,p):
    """text of a char const*"""
    if isinstance(p,Ptr) and isinstance(p.base,int) and p.base in e.gnames:
        b=e.mod.cstr(e.gnames[p.base],p.off)
        if b is not None: return SLit(b)
    if isinstance(p,EPtr) and p.kind=='str':
        s=e.mread(st,'str',p.cont.off,p.cont.base)
        # assumes no embedded NUL
        e.assumptions.add('strings passed as C strings contain no NUL byte')
        return s if isinstance(p.idx,int) and p.idx==0 else ssub(s,p.idx,sub(s.len,p.idx))
    if isinstance(p,Ptr):
        e.deref(st,p,None,'C string')
        if isinstance(p.base,int) and p.base<0: raise Unsupported('local char buffer')
        v=e.symstr(st,'cstr',(I(p.base),I(p.off)))
        return v
    raise Unsupported('C string %s'%p)

def dec(e,n):
    """decimal text of an integer"""
    if isinstance(n,int): return SLit(str(n).encode())
    if isz(n) and z3.is_bool(n): n=z3.If(n,1,0)
    a=z3.If(n<0,-n,n)
    ln=z3.IntVal(10)
    for d in range(9,0,-1): ln=z3.If(a<10**d,d,ln)
    ln=z3.simplify(ln+z3.If(n<0,1,0))
    dl=z3.simplify(ln-z3.If(n<0,1,0))
    def at(k):
        # k-th character
        k=sub(k,0)
        j=z3.simplify(ln-1-I(k))     # power of ten
        r=z3.IntVal(48)
        for p in range(9,-1,-1): r=z3.If(j==p,48+(a/(10**p))%10,r)
        return z3.If(z3.And(n<0,I(k)==0),45,r)
    return SOpq('dec',(n,),ln,at)
def opq(e,tag,args,st=None):
    """opaque text; length and characters are uninterpreted functions of the arguments"""
    zs=[]
    for a in args:
        if isinstance(a,bool): a=int(a)
        if isz(a) and z3.is_bool(a): a=z3.If(a,1,0)
        if isinstance(a,Fraction): zs.append(R(a))
        elif isz(a): zs.append(a)
        else: zs.append(I(a))
    so=[x.sort() for x in zs]
    ln=e.uf('len_'+tag,*so,z3.IntSort())(*zs); ch=e.uf('ch_'+tag,*so,z3.IntSort(),z3.IntSort())
    if st is not None: st.assume(ln>=1)
    return SOpq(tag,tuple(args),ln,lambda k: ch(*zs,I(k)))

def find_char(e,st,s,ch,pos,any_of=None,neg=False):
    """first index >= pos whose char is (not) in the set; forks found / not found. returns list of (st, idx)"""
    chs=any_of if any_of is not None else [ch]
    def hit(c):
        h=or_(*[eq(c,x) for x in chs])
        return not_(h) if neg else h
    # concrete
    if isinstance(s,SLit) and isinstance(pos,int) and all(isinstance(x,int) for x in chs):
        for i in range(max(pos,0),len(s.b)):
            if hit(_s8(s.b[i])) is True: return [(st,i)]
        return [(st,-1)]
    out=[]
    if isinstance(s.len,int) and s.len<=32 and isinstance(pos,int) and pos>=0:
        hs=[hit(s.at(k)) for k in range(pos,s.len)]; acc=[]
        for k,h in enumerate(hs):
            a=st.clone(); a.assume(and_(*acc,h))
            if h is not False and e.feasible(a): out.append((a,pos+k))
            acc.append(not_(h))
            if h is True: return out
        b=st.clone(); b.assume(and_(*acc))
        if e.feasible(b): out.append((b,-1))
        return out
    a=st.clone(); r=e.fresh('pos')
    j=freshint('j')
    upos=pos
    a.assume(and_(le(0,upos),le(upos,r),lt(r,s.len),hit(s.at(r))))
    h=hit(s.at(j))
    a.assume(z3.ForAll([j],z3.Implies(z3.And(upos<=j,j<r),B(not_(h)))) if not isinstance(h,bool) else True)
    b=st.clone(); j=freshint('j'); h=hit(s.at(j))
    # pos negative as size_t is huge: nothing found
    b.assume(z3.Or(I(upos)<0,z3.ForAll([j],z3.Implies(z3.And(upos<=j,j<s.len),B(not_(h))))))
    if e.feasible(a): out.append((a,r))
    if e.feasible(b): out.append((b,-1))
    return out
def rfind_char(e,st,s,chs,neg=False):
    def hit(c):
        h=or_(*[eq(c,x) for x in chs]); return not_(h) if neg else h
    if isinstance(s,SLit):
        for i in range(len(s.b)-1,-1,-1):
            if hit(_s8(s.b[i])) is True: return [(st,i)]
        return [(st,-1)]
    a=st.clone(); r=e.fresh('pos'); j=freshint('j')
    a.assume(and_(le(0,r),lt(r,s.len),hit(s.at(r))))
    a.assume(z3.ForAll([j],z3.Implies(z3.And(r<j,j<s.len),B(not_(hit(s.at(j)))))))
    b=st.clone(); j=freshint('j')
    b.assume(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<s.len),B(not_(hit(s.at(j)))))))
    return [(x,y) for x,y in((a,r),(b,-1)) if e.feasible(x)]

def str_eq(e,st,a,b):
    """decide equality of two strings as a fresh Boolean with both directions defined"""
    if isinstance(a,SLit) and isinstance(b,SLit): return a.b==b.b
    try:
        r=values_eq(a,b)
        if r is not None: return r
    except Unsupported: pass
    if isinstance(a,SLit) or isinstance(b,SLit):
        l,o=(a,b) if isinstance(a,SLit) else (b,a)
        if len(l.b)<=40:
            return and_(eq(o.len,len(l.b)),*[eq(o.at(i),_s8(l.b[i])) for i in range(len(l.b))])
    r=e.fresh('streq','Bool'); k=freshint('k'); w=e.fresh('w')
    body=z3.Implies(z3.And(0<=k,k<a.len),B(eq(a.at(k),b.at(k))))
    st.assume(z3.Implies(r,z3.And(I(a.len)==I(b.len),z3.ForAll([k],body))))
    st.assume(z3.Or(r,I(a.len)!=I(b.len),z3.And(0<=w,w<a.len,B(ne(a.at(w),b.at(w))))))
    return r
def values_eq(a,b):
    import values
    pa,pb=pieces(a),pieces(b)
    if len(pa)==len(pb):
        cs=[values._piece_eq(x,y) for x,y in zip(pa,pb)]
        if all(c is True for c in cs): return True
        if len(pa)==1 and isinstance(a,SOpq) and isinstance(b,SOpq) and a.tag==b.tag=='dec': return cs[0]
    return None

def strop(e,st,meth,sig,args,ins):
    """std::string members; args[0] is this (or sret for by-value results)"""
    one=lambda v=None: [(st,v)]
    S=lambda k=0: e_str(e,st,args[k])
    W=lambda v,k=0: w_str(e,st,args[k],v)
    if meth=='string':  # constructors
        if sig=='': W(EMPTY); return one()
        if sig.startswith('string const&, unsigned long'):
            s=S(1); return substr(e,st,s,args[2],args[3] if len(args)>3 else -1,lambda s2,v: w_str(e,s2,args[0],v),ins)
        if sig.startswith('string const&'): W(S(1)); return one()
        if sig.startswith('string&&'): W(S(1)); W(EMPTY,1); return one()
        if sig.startswith('char const*, std::allocator'): W(cstr(e,st,args[1])); return one()
        if sig.startswith('char const*, unsigned long'): W(ssub(cstr(e,st,args[1]),0,args[2])); return one()
        if sig.startswith('unsigned long, char'): W(SRep(args[1],args[2])); return one()
    if meth=='~string': return one()
    if meth in('length','size'): return one(S().len)
    if meth=='empty': return one(eq(S().len,0))
    if meth=='clear': W(EMPTY); return one()
    if meth in('c_str','data'):
        S(); 
        return one(EPtr('str',args[0],0) if isinstance(args[0],Ptr) else tmpstr(e,st,S()))
    if meth in('operator[]','at'):
        s=S()
        i=args[1]
        e.bounds('string index',st,and_(le(0,i),le(i,s.len) if meth=='operator[]' else lt(i,s.len)),ins)
        return one(EPtr('str',args[0],i) if isinstance(args[0],Ptr) else EPtr('str',tmpstr(e,st,s).cont,i))
    if meth=='front':
        s=S(); e.bounds('string front',st,lt(0,s.len),ins); return one(EPtr('str',args[0],0))
    if meth=='back':
        s=S(); e.bounds('string back',st,lt(0,s.len),ins); return one(EPtr('str',args[0],sub(s.len,1)))
    if meth in('operator=','assign'):
        if sig=='string const&': W(S(1)); return one(args[0])
        if sig=='string&&': v=S(1); W(EMPTY,1); W(v); return one(args[0])
        if sig=='char const*': W(cstr(e,st,args[1])); return one(args[0])
        if sig=='char': W(schar(args[1])); return one(args[0])
    if meth in('operator+=','append','push_back'):
        if sig=='string const&': W(scat(S(),S(1))); return one(args[0])
        if sig=='char const*': W(scat(S(),cstr(e,st,args[1]))); return one(args[0])
        if sig=='char': W(scat(S(),schar(args[1]))); return one(args[0])
        if sig=='unsigned long, char':
            n=args[1]
            e.oblig('string append count is not negative',st,le(0,n),ins); st.assume(le(0,n))
            W(scat(S(),SRep(n,args[2]) if not(isinstance(n,int) and n<=0) else EMPTY)); return one(args[0])
    if meth=='substr':
        s=S(1); return substr(e,st,s,args[2],args[3],lambda s2,v: w_str(e,s2,args[0],v),ins)
    if meth=='find' and sig=='char, unsigned long': return find_char(e,st,S(),args[1],args[2])
    if meth=='find_first_of' and sig=='char, unsigned long': return find_char(e,st,S(),args[1],args[2])
    if meth in('find_first_of','find_first_not_of') and sig=='char const*, unsigned long':
        c=cstr(e,st,args[1]); assert isinstance(c,SLit)
        return find_char(e,st,S(),None,args[2],[_s8(x) for x in c.b],neg='not' in meth)
    if meth=='find_first_not_of' and sig=='char, unsigned long': return find_char(e,st,S(),args[1],args[2],neg=True)
    if meth in('find_last_of','find_last_not_of','rfind') and isinstance(args[2],int) and args[2]==-1:
        if sig.startswith('char const*'):
            if meth=='rfind': raise Unsupported('rfind str')
            c=cstr(e,st,args[1]); chs=[_s8(x) for x in c.b]
        elif sig.startswith('char'): chs=[args[1]]
        else: raise Unsupported(meth+sig)
        return rfind_char(e,st,S(),chs,neg='not' in meth)
    if meth=='compare' and sig in('string const&','char const*'):
        a=S(); b=S(1) if sig[0]=='s' else cstr(e,st,args[1])
        q=str_eq(e,st,a,b); r=e.fresh('cmp'); st.assume(B(q)==(r==0)) if not isinstance(q,bool) else st.assume((r==0) if q else (r!=0))
        return one(r)
    if meth=='compare' and sig in('unsigned long, unsigned long, char const*','unsigned long, unsigned long, string const&'):
        out=[]
        b=S(3) if 'string' in sig else cstr(e,st,args[3])
        def cmp(s2,v):
            q=str_eq(e,s2,v,b); r=e.fresh('cmp'); s2.assume(B(q)==(r==0)) if not isinstance(q,bool) else s2.assume((r==0) if q else (r!=0)); out.append((s2,r))
        substr(e,st,S(),args[1],args[2],cmp,ins)
        return out
    if meth=='reserve': return one()
    if meth=='erase' and sig=='unsigned long, unsigned long':
        s=S(); pos,n=args[1],args[2]
        e.bounds('string erase position',st,and_(le(0,pos),le(pos,s.len)),ins)
        if isinstance(n,int) and n==-1: W(ssub(s,0,pos)); return one(args[0])
        out=[]
        def mk(s2,m): w_str(e,s2,args[0],scat(ssub(s,0,pos),ssub(s,add(pos,m),sub(s.len,add(pos,m))))); out.append((s2,args[0]))
        rest=sub(s.len,pos); c=le(n,rest)
        e.fork(st,and_(c,le(0,n)),lambda q: mk(q,n),lambda q: mk(q,rest))
        return out
    if meth=='replace' and sig=='unsigned long, unsigned long, unsigned long, char' and args[2]==1 and args[3]==1:
        s=S(); pos=args[1]
        e.bounds('string replace position',st,and_(le(0,pos),lt(pos,s.len)),ins)
        W(SUpd(s,pos,args[4])); return one(args[0])
    if meth in('begin','end'):
        if not isinstance(args[0],Ptr): raise Unsupported('string iterator')
        return one(Iter('str',args[0],0 if meth=='begin' else S().len))
    if meth=='erase' and sig.startswith('__normal_iterator<char const*') and len(args)==2:
        it=args[1] if isinstance(args[1],Iter) else itload(e,st,args[1]); s=S(); i=it.idx
        e.bounds('string erase iterator',st,and_(le(0,i),lt(i,s.len)),ins)
        W(ssub(s,0,i) if eq(i,sub(s.len,1)) is True else scat(ssub(s,0,i),ssub(s,add(i,1),sub(s.len,add(i,1))))); return one(it)
    if meth=='pop_back':
        s=S(); e.bounds('string pop_back',st,lt(0,s.len),ins); W(ssub(s,0,sub(s.len,1))); return one()
    if meth=='resize' and sig=='unsigned long':
        s=S(); n=args[1]; out=[]
        def shrink(q): w_str(e,q,args[0],ssub(s,0,n)); out.append((q,None))
        def grow(q): w_str(e,q,args[0],scat(s,SRep(sub(n,s.len),0))); out.append((q,None))
        e.fork(st,le(n,s.len),shrink,grow); return out
    if meth=='insert' and sig=='unsigned long, unsigned long, char':
        s=S(); pos=args[1]
        e.bounds('string insert position',st,and_(le(0,pos),le(pos,s.len)),ins)
        W(scat(ssub(s,0,pos),SRep(args[2],args[3]),ssub(s,pos,sub(s.len,pos)))); return one(args[0])
    if meth=='insert' and sig in('unsigned long, string const&','unsigned long, char const*'):
        s=S(); pos=args[1]; v=S(2) if 'string' in sig else cstr(e,st,args[2])
        e.bounds('string insert position',st,and_(le(0,pos),le(pos,s.len)),ins)
        W(scat(ssub(s,0,pos),v,ssub(s,pos,sub(s.len,pos)))); return one(args[0])
    raise Unsupported('string::%s(%s)'%(meth,sig))
def tmpstr(e,st,s):
    i=e.new_id(); e.mwrite(st,'str',0,i,s); return EPtr('str',Ptr(i,0),0)
def substr(e,st,s,pos,n,wr,ins):
    e.bounds('substr position',st,and_(le(0,pos),le(pos,s.len)),ins)
    rest=sub(s.len,pos); out=[]
    def mk(s2,m): wr(s2,ssub(s,pos,m)); out.append((s2,None))
    if isinstance(n,int) and n==-1: mk(st,rest); return out
    e.fork(st,and_(le(0,n),le(n,rest)),lambda q: mk(q,n),lambda q: mk(q,rest))
    return out

# ---------------------------------------------------------------- containers
def contop(e,st,kind,T,meth,sig,args,ins):
    one=lambda v=None: [(st,v)]
    c=args[0]
    if meth in('rbegin','rend') and len(args)==2:
        c=args[1]
        if not isinstance(c,Ptr): raise Unsupported('container inside element')
        e.deref(st,c,ins,'container access'); s=e.mread(st,kind,c.off,c.base)
        e.store(st,args[0],'ptr',Iter(kind,c,(END if kind=='list' else s.len) if meth=='rbegin' else 0)); return one()
    if not isinstance(c,Ptr): raise Unsupported('container inside element')
    def get(p=c):
        e.deref(st,p,ins,'container access')
        return e.mread(st,kind,p.off,p.base)
    def put(v,p=c): e.mwrite(st,kind,p.off,p.base,v)
    if meth==kind or meth=='list' or meth=='vector':
        if sig=='' or sig.startswith('std::allocator'): put(SeqLit([])); return one()
        if sig.endswith('const&'): put(get(args[1])); return one()
    if meth in('~list','~vector'): return one()
    if meth in('size',): return one(get().len)
    if meth=='empty': return one(eq(get().len,0))
    if meth=='clear': put(SeqLit([])); return one()
    if meth in('begin','cbegin'): get(); return one(Iter(kind,c,0))
    if meth in('end','cend'):
        s=get(); return one(Iter(kind,c,END if kind=='list' else s.len))
    if meth in('push_back','emplace_back'):
        v=read_T(e,st,args[1],T,ins); put(push(get(),v)); return one()
    if meth=='push_front':
        v=read_T(e,st,args[1],T,ins); put(SeqCat(SeqLit([v]),get())); return one()
    if meth in('operator[]','at'):
        s=get(); i=args[1]
        e.bounds('vector index',st,and_(le(0,i),lt(i,s.len)),ins)
        return one(EPtr(kind,c,i))
    if meth in('front','back'):
        s=get(); e.bounds(kind+' '+meth+' of empty container',st,lt(0,s.len),ins)
        return one(EPtr(kind,c,0 if meth=='front' else sub(s.len,1)))
    if meth=='pop_back':
        s=get(); e.bounds('pop_back of empty container',st,lt(0,s.len),ins)
        put(SeqSlice(s,0,sub(s.len,1))); return one()
    if meth=='pop_front':
        s=get(); e.bounds('pop_front of empty container',st,lt(0,s.len),ins)
        put(SeqErase(s,0)); return one()
    if meth=='erase':
        it=args[1]
        if not isinstance(it,Iter): raise Unsupported('erase arg')
        s=get()
        if len(args)==2:
            if isinstance(it.idx,str): e.bounds('erase of end iterator',st,False,ins)
            e.bounds('erase position',st,and_(le(0,it.idx),lt(it.idx,s.len)),ins)
            put(SeqErase(s,it.idx)); return one(Iter(kind,c,it.idx))
        if len(args)==3 and isinstance(args[2],Iter):
            a=s.len if isinstance(it.idx,str) else it.idx; b=s.len if isinstance(args[2].idx,str) else args[2].idx
            e.bounds('erase range',st,and_(le(0,a),le(a,b),le(b,s.len)),ins)
            put(SeqErase(s,a) if sub(b,a)==1 or (isz(sub(b,a)) and z3.is_int_value(z3.simplify(I(sub(b,a)))) and z3.simplify(I(sub(b,a))).as_long()==1) else SeqCat(SeqSlice(s,0,a),SeqSlice(s,b,sub(s.len,b)))); return one(Iter(kind,c,a))
    if meth=='insert' and kind=='list' and len(args)==3:
        it=args[1]; v=read_T(e,st,args[2],T,ins); s=get()
        i=s.len if isinstance(it.idx,str) else it.idx
        put(SeqInsert(s,i,v)); return one(Iter(kind,c,i))
    if meth=='operator=':
        put(get(args[1])); return one(c)
    if meth=='reserve': return one()
    if meth=='data': return one(EPtr(kind,c,0))
    raise Unsupported('%s<%s>::%s(%s)'%(kind,T,meth,sig))

def itload(e,st,p):
    v=e.load(st,p,'ptr')
    if isinstance(v,EPtr) and v.kind in('vec','list'): return Iter(v.kind,v.cont,v.idx)
    if not isinstance(v,Iter): raise Unsupported('iterator value')
    return v
def iterop(e,st,meth,sig,args,ins):
    one=lambda v=None: [(st,v)]
    if meth in('_List_iterator','_List_const_iterator','__normal_iterator','_M_const_cast','base'):
        if meth in('_List_iterator','_List_const_iterator','__normal_iterator'):
            if sig=='': e.store(st,args[0],'ptr',UNDEF); return one()
            if '_List_node_base*' in sig: e.store(st,args[0],'ptr',args[1]); return one()
            e.store(st,args[0],'ptr',itload(e,st,args[1])); return one()
        if meth=='_M_const_cast': return one(itload(e,st,args[0]))
        if meth=='base': return one(args[0])
    it=itload(e,st,args[0])
    if meth in('operator*','operator->'):
        s=e.mread(st,it.kind,it.cont.off,it.cont.base)
        if isinstance(it.idx,str):
            e.bounds('dereference of end iterator',st,False,ins); raise_end()
        e.bounds('iterator dereference',st,and_(le(0,it.idx),lt(it.idx,s.len)),ins)
        return one(EPtr(it.kind,it.cont,it.idx))
    def pos(i):
        if isinstance(i.idx,str): return e.mread(st,i.kind,i.cont.off,i.cont.base).len
        return i.idx
    def setp(x):
        n=Iter(it.kind,it.cont,x); e.store(st,args[0],'ptr',n); return n
    if meth=='operator++':
        if isinstance(it.idx,str): e.bounds('increment of end iterator',st,False,ins); raise_end()
        n=setp(add(it.idx,1))
        if sig=='int': return one(it)
        return one(args[0])
    if meth=='operator--':
        x=pos(it); e.bounds('decrement of begin iterator',st,lt(0,x),ins)
        setp(sub(x,1))
        if sig=='int': return one(it)
        return one(args[0])
    if meth=='operator+': return one(Iter(it.kind,it.cont,add(pos(it),args[1])))
    if meth=='operator-': return one(Iter(it.kind,it.cont,sub(pos(it),args[1])))
    if meth=='operator+=': setp(add(pos(it),args[1])); return one(args[0])
    raise Unsupported('iterator '+meth)
def riterop(e,st,meth,sig,args,ins):
    '''reverse iterators: the stored position is one past the element'''
    one=lambda v=None: [(st,v)]
    if meth=='reverse_iterator':
        v=args[1] if isinstance(args[1],Iter) else itload(e,st,args[1]); e.store(st,args[0],'ptr',v); return one()
    if meth=='base': return one(itload(e,st,args[0]))
    it=itload(e,st,args[0]); s=e.mread(st,it.kind,it.cont.off,it.cont.base); p=s.len if isinstance(it.idx,str) else it.idx
    if meth in('operator*','operator->'):
        x=sub(p,1); e.bounds('reverse iterator dereference',st,and_(le(0,x),lt(x,s.len)),ins); return one(EPtr(it.kind,it.cont,x))
    if meth in('operator++','operator--') and sig=='':
        x=sub(p,1) if meth=='operator++' else add(p,1)
        e.bounds('reverse iterator step',st,and_(le(0,x),le(x,s.len)),ins); e.store(st,args[0],'ptr',Iter(it.kind,it.cont,x)); return one(args[0])
    raise Unsupported('reverse iterator '+meth)
def textat(e,st,p):
    """(character function, number of characters before the end of the text or None) of a char const*"""
    if isinstance(p,EPtr) and p.kind=='str':
        s=e.mread(st,'str',p.cont.off,p.cont.base)
        e.bounds('C string',st,and_(le(0,p.idx),le(p.idx,s.len)),None)
        return (lambda k: ite(lt(add(p.idx,k),s.len),s.at(add(p.idx,k)),0)),sub(s.len,p.idx)
    if isinstance(p,APtr):
        s=e.mread(st,'arr',0,p.base); o=p.index(1)
        def f(k):
            q=add(o,k)
            if isinstance(q,int) and isinstance(s.len,int) and not 0<=q<s.len: return 0
            v=s.at(q,'i8'); return 0 if v is UNDEF else v
        return f,(sub(s.len,o) if isinstance(s.len,int) else None)
    raise Unsupported('C string %s'%p)
def strtonum(e,st,name,args,ins):
    """strtol (base 10) / strtod: consumes a prefix of the text (nothing on failure), sets errno on overflow; the decimal text
    of an int followed by a non-digit is consumed entirely and yields that int"""
    at,n=textat(e,st,args[0])
    v=e.fresh('num','Int' if name=='strtol' else 'Real'); c=e.fresh('used'); err=e.fresh('erange','Bool')
    st.assume(c>=0)
    if n is not None: st.assume(c<=n)
    st.assume(z3.Implies(c==0,z3.And(v==0,z3.Not(err))))
    if isinstance(n,int) and n<=64:
        for k in range(n): st.assume(imp(c>k,ne(at(k),0)))
    if name=='strtol': st.assume(z3.And(v>=-2**63,v<2**63))
    if name=='strtol' and isinstance(n,int) and 0<n<=6:
        cs=[and_(le(48,at(k)),le(at(k),57)) for k in range(n)]; t=0
        for k in range(n): t=add(mul(10,t),sub(at(k),48))
        st.assume(imp(and_(*cs),and_(eq(v,t),eq(c,n),z3.Not(err))))
    for h in getattr(e.spec,'dec_hints',[]):
        d=dec(e,h); cs=[]
        for k in range(11): cs.append(imp(lt(k,d.len),eq(at(k),d.at(k))))
        x=at(d.len); cs.append(or_(lt(x,48),lt(57,x)))
        if name=='strtod': cs.append(and_(ne(x,46),ne(x,69),ne(x,101),ne(x,120),ne(x,88)))
        st.assume(imp(and_(*cs),and_(eq(v,h if name=='strtol' else z3.ToReal(I(h))),eq(c,d.len),z3.Not(err))))
    if not(isinstance(args[1],Ptr) and isinstance(args[1].base,int) and args[1].base==0):
        p=args[0]
        e.store(st,args[1],'ptr',EPtr('str',p.cont,add(p.idx,c)) if isinstance(p,EPtr) else APtr(p.base,p.c,p.terms+((c,1),)),ins)
    old=e.mread(st,'i32',0,e.errno_id)
    e.mwrite(st,'i32',0,e.errno_id,ite(err,34,old))
    e.assumptions.add('strtol/strtod consume a prefix of the text and read back the decimal text of an int followed by a non-digit')
    return v
def raise_end():
    from engine import PathEnd
    raise PathEnd()

# ---------------------------------------------------------------- streams
def is_cerr(e,p): return isinstance(p,Ptr) and isinstance(p.base,int) and e.gnames.get(p.base) in('_ZSt4cerr','_ZSt4cout','_ZSt4clog')
def stream_put(e,st,p,v):
    if is_cerr(e,p): return
    if not isinstance(p,Ptr): raise Unsupported('stream')
    r=e.spec.stream(e,st,p,v) if hasattr(e.spec,'stream') else None
    if r: return
    k=('track','os',p.base,p.off)
    fl=st.ghost.get(('fmt',p.base,p.off))
    if fl and fl.get('w'):
        w,fill=fl['w'],fl.get('fill',32)
        padn=sub(w,v.len)
        c=le(0,padn)
        if isinstance(padn,int): v=scat(SRep(padn,fill) if padn>0 else EMPTY,v)
        else: v=scat(SRep(ite(c,padn,0),fill),v)
        fl=dict(fl); fl['w']=0; st.ghost[('fmt',p.base,p.off)]=fl
    s=st.ghost.get(k)
    if s is None: raise Unsupported('unknown stream')
    st.ghost[k]=scat(s,v)
def model(e,st,name,dem,args,ins):
    one=lambda v=None: [(st,v)]
    if name=='__cxa_atexit': return one(0)
    m=re.match(r'std::numeric_limits<(unsigned )?(int|long|short|char)>::(max|min)\(\)$',dem)
    if m:
        b={'int':32,'long':64,'short':16,'char':8}[m.group(2)]
        if m.group(1): return one(-1 if m.group(3)=='max' else 0)     # bit pattern
        return one(2**(b-1)-1 if m.group(3)=='max' else -2**(b-1))
    if dem.startswith('std::ios_base::Init::'): return one()
    # ---- intrinsics
    if name.startswith('llvm.'):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return memcpy(e,st,args[0],args[1],args[2],ins)
        if name.startswith('llvm.fabs'): return one(fabs(args[0]))
        if name.startswith(('llvm.floor.f64','llvm.ceil.f64')):
            x=args[0]
            if conc(x): return one(Fraction(__import__('math').floor(x) if 'floor' in name else __import__('math').ceil(x)))
            x=R(x); return one(z3.ToReal(z3.ToInt(x)) if 'floor' in name else -z3.ToReal(z3.ToInt(-x)))
        if name.startswith('llvm.fshl.i') and conc(args[2]):
            w=int(name[11:]); c=args[2]%w; u=lambda v: v%(1<<w) if conc(v) else z3.If(I(v)<0,I(v)+2**w,I(v))
            a,b=u(args[0]),u(args[1]); r=add(I(mul(a,2**c))%(2**w),I(b)/(2**(w-c)) if not conc(b) else b>>(w-c)) if c else a
            return one(e.wrap(r,w))
        if name.startswith('llvm.memset'): return memset(e,st,args[0],args[1],args[2],ins)
        if name.startswith('llvm.fmuladd'): 
            a,b,c=args
            return one(R(a)*R(b)+R(c))
        if name.startswith('llvm.umul.with.overflow'):
            return one(Agg((mul(args[0],args[1]),False)))
        if name.startswith('llvm.uadd.with.overflow'): return one(Agg((add(args[0],args[1]),False)))
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume'): return one()
        raise Unsupported(name)
    base=dem.split('(')[0]
    # ---- memory
    if name in('_Znwm','_Znam'):
        if e.loopctx: raise Unsupported('allocation inside a loop')
        i=e.new_id()
        if name=='_Znam':
            e.mwrite(st,'arr',0,i,e.symseq(st,f'newarr{-i}',())) 
            s=e.mread(st,'arr',0,i)
            es=8
            st.assume(mul(s.len,es)==args[0] if isz(args[0]) or isz(s.len) else True)
            st.ghost[('arrbytes',i)]=args[0]
            return one(APtr(i,0))
        st.ghost[('size',i)]=args[0]
        return one(Ptr(i,0))
    if name in('_ZdlPv','_ZdlPvm','_ZdaPv','_ZdaPvm'):
        p=args[0]
        if isinstance(p,(Ptr,APtr)):
            if isinstance(p.base,int) and p.base==0: return one()
            fr=st.ghost.get('freed',())
            st.ghost['freed']=fr+((p.base,))
            if isz(p.base): st.dead=st.dead+((p.base,True),)
            return one()
        raise Unsupported('delete')
    # ---- math
    if re.match(r'std::operator[|&]\(std::_Ios_Openmode, std::_Ios_Openmode\)',dem) and all(isinstance(a,int) for a in args): return one(args[0]|args[1] if '|' in dem else args[0]&args[1])
    if base in('std::abs','fabs') and len(args)==1:
        a=args[0]
        return one(fabs(a))
    if name in('sqrt','sin','cos','tan','atan2','acos','asin','atan','pow','floor','ceil','fmod','log10','exp'):
        return one(mathfn(e,st,name,args))
    if re.search(r'\bstd::find<',dem) and isinstance(args[0],Iter) and isinstance(args[1],Iter) and args[0].kind in('vec','list') and '*>' in dem.replace(' ',''):
        # first position in the range that holds the pointer, or the end of the range
        q=e.mread(st,args[0].kind,args[0].cont.off,args[0].cont.base); a=args[0].idx; b=q.len if isinstance(args[1].idx,str) else args[1].idx; x=e.load(st,args[2],'ptr',ins)
        if isinstance(q,SeqLit) and not q.el: return one(Iter(args[0].kind,args[0].cont,0))
        i=e.fresh('found'); j=freshint('j'); hit=lambda k: B(veq(q.at(k,'ptr',0),x))
        st.assume(z3.And(I(a)<=i,i<=I(b),z3.Implies(i<I(b),hit(i)),z3.ForAll([j],z3.Implies(z3.And(I(a)<=j,j<i),z3.Not(hit(j))))))
        return one(Iter(args[0].kind,args[0].cont,i))
    if base=='abs': return one(ite(lt(args[0],0),sub(0,args[0]),args[0]))
    if base.startswith('unsigned long const& std::m') or base.startswith('int const& std::m') or base.startswith('double const& std::m'):
        return None
    if name in('isspace','isdigit','toupper','tolower') or base in('std::toupper','std::isspace'):
        # <ctype.h> in the C locale; the argument is a value of char or unsigned char (glibc: -128..255)
        c=args[0]; f=name if name in('isspace','isdigit','toupper','tolower') else base[5:]
        e.bounds('argument of '+f,st,and_(le(-128,c),le(c,255)),ins); e.assumptions.add('<ctype.h> functions behave as in the C locale')
        if f=='isspace': return one(ite(or_(eq(c,32),and_(le(9,c),le(c,13))),8192,0))
        if f=='isdigit': return one(ite(and_(le(48,c),le(c,57)),2048,0))
        if f=='toupper': return one(ite(and_(le(97,c),le(c,122)),sub(c,32),c))
        return one(ite(and_(le(65,c),le(c,90)),add(c,32),c))
    if name=='__errno_location': return one(Ptr(e.errno_id,0))
    if name in('strtol','strtod','__isoc23_strtol'): return one(strtonum(e,st,'strtod' if name=='strtod' else 'strtol',args,ins))
    m=re.match(r'string::(.+)$',dem)
    if m:
        rest=m.group(1); 
        q=re.match(r'(~?[A-Za-z_]+|operator\[\]|operator\+=|operator=)(<.*?>)?\((.*)\)( const)?(?: &| &&)?$',rest)
        if not q:
            q=re.match(r'(basic_string|~basic_string)<?.*?>?\((.*)\)',rest)
            raise Unsupported(dem)
        meth=q.group(1); sig=q.group(3)
        if meth=='basic_string': meth='string'
        if meth=='~basic_string': meth='~string'
        return strop(e,st,meth,sig,args,ins)
    m=re.match(r'(?:std::)(list|vector)<',dem)
    if m:
        T,i=tmpl(dem,m.end()-1)
        T=split_args(T)[0]
        q=re.match(r'::(~?[A-Za-z_]+|operator\[\]|operator=)(?:<.*?>)?\((.*)\)( const)?$',dem[i:])
        if not q: 
            q=re.match(r'::(emplace_back)<.*>\((.*)\)',dem[i:])
        if not q: raise Unsupported(dem)
        kind={'list':'list','vector':'vec'}[m.group(1)]
        return contop(e,st,kind,T,q.group(1),q.group(2),args,ins)
    m=re.match(r'(?:std::(_List_iterator|_List_const_iterator)|(__normal_iterator))<',dem)
    if m:
        T,i=tmpl(dem,m.end()-1)
        q=re.match(r'::(~?[A-Za-z_]+|operator[^\(]*)(?:<.*>)?\((.*)\)( const)?$',dem[i:])
        if not q: raise Unsupported(dem)
        return iterop(e,st,q.group(1).split('<')[0],q.group(2),args,ins)
    m=re.match(r'std::reverse_iterator<',dem)
    if m:
        T,i=tmpl(dem,m.end()-1)
        q=re.match(r'::(~?[A-Za-z_]+|operator[^\(]*)(?:<.*>)?\((.*)\)( const)?$',dem[i:])
        if not q: raise Unsupported(dem)
        return riterop(e,st,q.group(1).split('<')[0],q.group(2),args,ins)
    m=re.match(r'(?:bool )?(?:std::)?operator(==|!=)(?:<.*?>)?\((.*)\)$',dem)
    if m or re.match(r'(?:bool )(?:std::)?operator(==|!=)',dem):
        opr=(m or re.match(r'(?:bool )(?:std::)?operator(==|!=)',dem)).group(1)
        if 'iterator' in dem:
            a,b=itload(e,st,args[0]),itload(e,st,args[1])
            q=e.iter_eq(st,a,b)
            return one(q if opr=='==' else not_(q))
        if 'string const&' in dem or 'basic_string' in dem or 'char const*' in dem:
            sigs=split_args(dem[dem.rindex('(')+1:-1]) if dem.endswith(')') else []
            a=e_str(e,st,args[0]) if not sigs or 'string' in sigs[0] else cstr(e,st,args[0])
            b=e_str(e,st,args[1]) if not sigs or 'string' in sigs[1] else cstr(e,st,args[1])
            q=str_eq(e,st,a,b)
            return one(q if opr=='==' else not_(q))
    if re.match(r'string std::operator\+',dem):
        sigs=split_args(dem[dem.rindex('(')+1:-1])
        def g(p,s):
            if s.startswith('string'): return e_str(e,st,p)
            if s.startswith('char const*'): return cstr(e,st,p)
            return schar(p)
        w_str(e,st,args[0],scat(g(args[1],sigs[0]),g(args[2],sigs[1]))); return one()
    # ---- streams
    if dem.startswith('ostringstream::'):
        r=dem[len('ostringstream::'):]
        if r.startswith('basic_ostringstream(') :
            st.ghost[('track','os',args[0].base,args[0].off)]=EMPTY; return one()
        if r.startswith('~'): st.ghost.pop(('track','os',args[0].base,args[0].off),None); return one()
        if r.startswith('str() const'):
            w_str(e,st,args[0],st.ghost[('track','os',args[1].base,args[1].off)]); return one()
        if r.startswith('str(string const&)'):
            st.ghost[('track','os',args[0].base,args[0].off)]=e_str(e,st,args[1]); return one()
    if dem.startswith('ostream& std::operator<<') or dem.startswith('ostream::operator<<'):
        p=args[0]
        sig=dem[dem.rindex('(')+1:] if 'std::ios_base&' not in dem else 'manip'
        if is_cerr(e,p): return one(p)
        if 'manip'==sig or '(*)' in dem:
            f=args[1]; fl=dict(st.ghost.get(('fmt',p.base,p.off),{}))
            n=e.mod.dem.get(f.name,f.name) if isinstance(f,FnV) else '?'
            fl['float']=n.split('(')[0]; st.ghost[('fmt',p.base,p.off)]=fl
            return one(p)
        if dem.startswith('ostream::operator<<'):
            a=args[1]
            if sig.startswith('int') or sig.startswith('unsigned') or sig.startswith('long'): v=dec(e,a)
            elif sig.startswith('double'):
                fl=st.ghost.get(('fmt',p.base,p.off),{})
                v=opq(e,'real_%s_%s'%(fl.get('float','def'),fl.get('prec',6) if isinstance(fl.get('prec',6),int) else 'x'),(a,),st)
            elif sig.startswith('bool'): v=dec(e,ite(a,1,0))
            else: raise Unsupported(dem)
            stream_put(e,st,p,v); return one(p)
        if '_Setw' in dem: fl=dict(st.ghost.get(('fmt',p.base,p.off),{})); fl['w']=args[1][0] if isinstance(args[1],tuple) else args[1]; st.ghost[('fmt',p.base,p.off)]=fl; return one(p)
        if '_Setfill' in dem: fl=dict(st.ghost.get(('fmt',p.base,p.off),{})); fl['fill']=args[1][0] if isinstance(args[1],tuple) else args[1]; st.ghost[('fmt',p.base,p.off)]=fl; return one(p)
        if '_Setprecision' in dem: fl=dict(st.ghost.get(('fmt',p.base,p.off),{})); fl['prec']=args[1][0] if isinstance(args[1],tuple) else args[1]; st.ghost[('fmt',p.base,p.off)]=fl; return one(p)
        s2=split_args(dem[dem.rindex('(')+1:-1])[-1]
        if s2=='char const*': v=cstr(e,st,args[1])
        elif s2=='char': v=schar(args[1])
        elif s2=='string const&': v=e_str(e,st,args[1])
        else: raise Unsupported(dem)
        stream_put(e,st,p,v); return one(p)
    if re.match(r'std::set(w|fill|precision)',base) or base.startswith('std::_Setfill<char> std::setfill'): return one(args[0])
    if base in('std::fixed','std::scientific'): return one(args[0])
    if dem.startswith('std::ios_base::precision(long)') or dem.startswith('std::ios_base::'): 
        raise Unsupported(dem)
    if base.startswith('std::__new_allocator') or base.startswith('std::allocator<') : return one(None)
    if name=='__dynamic_cast':
        p=args[0]; t=args[2]
        r=e.spec.dyncast(e,st,p,e.gnames.get(t.base),ins) if hasattr(e.spec,'dyncast') else None
        if r is None: raise Unsupported('dynamic_cast')
        return r
    m=re.match(r'std::pair<',dem)
    if m:
        T,i=tmpl(dem,m.end()-1); a,b=split_args(T)
        q=dem[i:]
        l=layout(e.mod,'std::pair<%s>'%T); la=len(layout(e.mod,a))
        o2=l[la][0]-layout(e.mod,b)[0][0]
        if re.match(r'::pair<.*>\(',q) or q.startswith('::pair('):
            sg=split_args(q[q.index('(') +1:-1]) if '(' in q else []
            # find last '(' that opens the parameter list
            sig=q[q.rindex('(')+1:-1]
            if sig=='' :
                write_T(e,st,args[0],a,0,ins); write_T(e,st,e.gep(args[0],o2,[]),b,0,ins); return one()
            if len(args)==2:   # from another pair
                mt=re.search(r'std::pair<',q[q.index('('):] )
                src=args[1]
                if mt:
                    T2,_=tmpl(q[q.index('('):],mt.end()-1); a2,b2=split_args(T2)
                else: a2,b2=a,b
                l2=layout(e.mod,'std::pair<%s, %s>'%(a2,b2)); la2=len(layout(e.mod,a2)); o22=l2[la2][0]
                write_T(e,st,args[0],a,read_T(e,st,src,a2,ins),ins)
                write_T(e,st,e.gep(args[0],o2,[]),b,read_T(e,st,e.gep(src,o22,[]),b2,ins),ins); return one()
            if len(args)==3:
                sgs=split_args(sig)
                write_T(e,st,args[0],a,read_T(e,st,args[1],sgs[0].replace('const','').replace('&','').strip(),ins),ins)
                write_T(e,st,e.gep(args[0],o2,[]),b,read_T(e,st,args[2],sgs[1].replace('const','').replace('&','').strip(),ins),ins); return one()
    return None
def fabs(a):
    if conc(a): return abs(a)
    return z3.If(a>=0,a,-a)
def mathfn(e,st,n,args):
    a=[R(x) for x in args]
    f=e.uf('f_'+n,*([z3.RealSort()]*len(a)),z3.RealSort())
    r=f(*a)
    if n=='sqrt': st.assume(z3.And(r>=0,z3.Implies(a[0]>=0,r*r==a[0])))
    e.assumptions.add('libm function %s is an uninterpreted real function'%n)
    return r
def memset(e,st,p,v,n,ins):
    if isinstance(p,Ptr) and isinstance(n,int) and isinstance(v,int) and v==0:
        st.ghost[('zeroed',p.base,p.off)]=n
        # zero bytes of every kind that was not written is not modelled: only scalar zero writes of doubles
        for o in range(0,n,8): e.mwrite(st,'f64',add(p.off,o),p.base,Fraction(0)); st.kinds.pop((p.base,p.off+o),None)
        return [(st,None)]
    raise Unsupported('memset')
def memcpy(e,st,d,s,n,ins):
    if not isinstance(n,int): raise Unsupported('memcpy size')
    lay=None
    # scalar leaves of whichever side is typed
    for p in(s,d):
        if isinstance(p,Ptr) and isinstance(p.base,int) and (p.base<0):
            ks=[(o-p.off,k) for (b,o),k in st.kinds.items() if b==p.base and isinstance(p.off,int) and p.off<=o<p.off+n]
            if ks: lay=ks; break
    if lay is None and hasattr(e.spec,'memlayout'): lay=e.spec.memlayout(e,st,d,s,n)
    if lay is None:
        if n in(24,72,96): lay=[(o,'f64') for o in range(0,n,8)]; e.assumptions.add('untyped 24, 72 and 96 byte struct copies are copies of points, matrices and transforms (doubles only)')
        elif isinstance(s,Ptr) and isinstance(s.base,int) and s.base in e.gnames:
            lay=[(o-s.off,k) for o,k,_ in e.mod.gconst(e.gnames[s.base]) or [] if s.off<=o<s.off+n]
        else: raise Unsupported('memcpy %d'%n)
    for o,k in sorted(set(lay)):
        e.store(st,e.gep(d,o,[]),k,e.load(st,e.gep(s,o,[]),k,ins),ins)
    return [(st,None)]
