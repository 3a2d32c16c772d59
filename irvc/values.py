"""Value domain of the verifier: integers/reals are Python numbers or z3 terms; pointers, iterators,
strings and sequences are immutable structured Python objects over z3 terms."""
import z3
from fractions import Fraction

class Unsupported(Exception): pass

def isz(x): return isinstance(x,z3.ExprRef)
def I(x):
    if isinstance(x,bool): return z3.IntVal(int(x))
    return z3.IntVal(x) if isinstance(x,int) else x
def R(x):
    if isinstance(x,(int,Fraction)): return z3.RealVal(str(x))
    return x
def B(x): return z3.BoolVal(x) if isinstance(x,bool) else x
def conc(x): return isinstance(x,(int,Fraction))   # bool is int

def add(a,b):
    if conc(a) and conc(b): return a+b
    if conc(a) and a==0: return b
    if conc(b) and b==0: return a
    return _lin(a+b)
def sub(a,b):
    if conc(a) and conc(b): return a-b
    if conc(b) and b==0: return a
    if isz(a) and isz(b) and a.eq(b): return 0
    return _lin(a-b)
def _lin(e):
    s=z3.simplify(e)
    if z3.is_int_value(s): return s.as_long()
    return s
def mul(a,b):
    if conc(a) and conc(b): return a*b
    if conc(a) and a==1: return b
    if conc(b) and b==1: return a
    if (conc(a) and a==0) or (conc(b) and b==0): return 0
    return a*b
def eq(a,b):
    if conc(a) and conc(b): return a==b
    if isz(a) and isz(b) and a.eq(b): return True
    return sb(a==b)
def ne(a,b): return not_(eq(a,b))
def lt(a,b):
    if conc(a) and conc(b): return a<b
    return sb(a<b)
def le(a,b):
    if conc(a) and conc(b): return a<=b
    return sb(a<=b)
def gt(a,b): return lt(b,a)
def ge(a,b): return le(b,a)
def sb(e):
    """shallow-simplify a boolean"""
    if isinstance(e,bool): return e
    s=z3.simplify(e)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return e
def not_(c):
    if isinstance(c,bool): return not c
    if z3.is_not(c): return c.arg(0)
    return z3.Not(c)
def and_(*cs):
    r=[]
    for c in cs:
        if c is True: continue
        if c is False: return False
        r.append(c)
    if not r: return True
    return r[0] if len(r)==1 else z3.And(*r)
def or_(*cs):
    r=[]
    for c in cs:
        if c is False: continue
        if c is True: return True
        r.append(c)
    if not r: return False
    return r[0] if len(r)==1 else z3.Or(*r)
def imp(a,b):
    return or_(not_(a),b)
def ite(c,a,b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if conc(a) and conc(b):
        if type(a)==type(b) and a==b: return a
        if isinstance(a,bool) and isinstance(b,bool):
            return c if a else not_(c)
    if isz(a) and isz(b) and a.eq(b): return a
    if isinstance(a,bool) or isinstance(b,bool) or (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
        return z3.If(c,B(a),B(b))
    if isinstance(a,Fraction) or isinstance(b,Fraction) or (isz(a) and z3.is_real(a)) or (isz(b) and z3.is_real(b)):
        return z3.If(c,R(a),R(b))
    return z3.If(c,I(a),I(b))

# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__=('base','off','src')
    def __init__(s,base,off=0,src=None): s.base=base; s.off=off; s.src=src
    def __repr__(s): return f'Ptr({s.base},{s.off})'
NULL=Ptr(0,0)
class EPtr:
    """address inside an element of a container; cont=(kind, Ptr of container)"""
    __slots__=('kind','cont','idx','sub')
    def __init__(s,kind,cont,idx,sub=0): s.kind=kind; s.cont=cont; s.idx=idx; s.sub=sub
    def __repr__(s): return f'EPtr({s.kind},{s.cont},{s.idx},{s.sub})'
class APtr:
    """pointer into a raw array object; boff = byte offset, affine: (const,[(term,scale)])"""
    __slots__=('base','c','terms','src')
    def __init__(s,base,c=0,terms=(),src=None): s.base=base; s.c=c; s.terms=tuple(terms); s.src=src
    def __repr__(s): return f'APtr({s.base},{s.c},{s.terms})'
    def index(s,size):
        if s.c%size: raise Unsupported('array offset')
        r=s.c//size
        for t,k in s.terms:
            if k%size: raise Unsupported('array scale')
            r=add(r,mul(t,k//size))
        return r
END='END'
class Iter:
    __slots__=('kind','cont','idx')
    def __init__(s,kind,cont,idx): s.kind=kind; s.cont=cont; s.idx=idx
    def __repr__(s): return f'Iter({s.kind},{s.cont},{s.idx})'
class FnV:
    __slots__=('name',)
    def __init__(s,n): s.name=n
class Undef:
    def __repr__(s): return 'undef'
UNDEF=Undef()
class Agg(tuple): pass

# ------------------------------------------------------------------ strings
class Str:
    def at(s,k): raise NotImplementedError
class SLit(Str):
    def __init__(s,b): s.b=b; s.len=len(b)
    def at(s,k):
        if isinstance(k,int):
            return _s8(s.b[k]) if 0<=k<len(s.b) else 0
        r=0
        if len(set(s.b))==1: return ite(and_(le(0,k),lt(k,len(s.b))),_s8(s.b[0]),0)
        for i,c in enumerate(s.b): r=ite(eq(k,i),_s8(c),r)
        return r
    def __repr__(s): return f'SLit({s.b!r})'
def _s8(c): return c-256 if c>127 else c
class SSym(Str):
    """fn: python callable k -> z3 term"""
    def __init__(s,fn,ln,key=None): s.fn=fn; s.len=ln; s.key=key
    def at(s,k): return s.fn(I(k))
    def __repr__(s): return f'SSym({s.key})'
class SOpq(Str):
    """opaque text of a value: tag(args), e.g. decimal text of an integer"""
    def __init__(s,tag,args,ln,fn): s.tag=tag; s.args=args; s.len=ln; s.fn=fn
    def at(s,k): return s.fn(k)
    def __repr__(s): return f'SOpq({s.tag},{s.args})'
class SRep(Str):
    def __init__(s,n,ch): s.n=n; s.len=n; s.ch=ch
    def at(s,k): return s.ch
    def __repr__(s): return f'SRep({s.n},{s.ch})'
class SCat(Str):
    def __init__(s,ps):
        s.ps=ps; n=0
        for p in ps: n=add(n,p.len)
        s.len=n
    def at(s,k):
        offs=[];o=0
        for p in s.ps: offs.append(o); o=add(o,p.len)
        r=s.ps[-1].at(sub(k,offs[-1]))
        for p,of,nx in list(zip(s.ps,offs,offs[1:]))[::-1]:
            c=lt(k,nx)
            if c is True: r=p.at(sub(k,of))
            elif c is False: pass
            else: r=ite(c,p.at(sub(k,of)),r)
        return r
    def __repr__(s): return f'SCat({s.ps})'
class SSub(Str):
    def __init__(s,p,pos,n): s.p=p; s.pos=pos; s.len=n
    def at(s,k): return s.p.at(add(k,s.pos))
    def __repr__(s): return f'SSub({s.p},{s.pos},{s.len})'
class SIte(Str):
    def __init__(s,c,a,b): s.c=c; s.a=a; s.b=b; s.len=ite(c,a.len,b.len)
    def at(s,k): return ite(s.c,s.a.at(k),s.b.at(k))
    def __repr__(s): return f'SIte({s.c},{s.a},{s.b})'
class SUpd(Str):
    def __init__(s,p,i,ch): s.p=p; s.i=i; s.ch=ch; s.len=p.len
    def at(s,k): return ite(eq(k,s.i),s.ch,s.p.at(k))
EMPTY=SLit(b'')
def pieces(s):
    if isinstance(s,SCat): return list(s.ps)
    if isinstance(s,SLit) and not s.b: return []
    return [s]
def scat(*ss):
    ps=[]
    for s in ss:
        for p in pieces(s):
            if ps and isinstance(p,SLit) and isinstance(ps[-1],SLit): ps[-1]=SLit(ps[-1].b+p.b)
            elif ps and isinstance(p,SRep) and isinstance(ps[-1],SRep) and not isz(p.ch) and not isz(ps[-1].ch) and p.ch==ps[-1].ch:
                ps[-1]=SRep(add(ps[-1].n,p.n),p.ch)
            elif isinstance(p.len,int) and p.len==0: pass
            else: ps.append(p)
    if not ps: return EMPTY
    return ps[0] if len(ps)==1 else SCat(ps)
def schar(c):
    if isinstance(c,int): return SLit(bytes([c&255]))
    return SRep(1,c)
def ssub(s,pos,n):
    """substring, caller guarantees 0<=pos, pos+n<=len"""
    if isinstance(n,int) and n==0: return EMPTY
    if isinstance(pos,int) and isinstance(n,int) and isinstance(s,SLit): return SLit(s.b[pos:pos+n])
    if isinstance(pos,int) and pos==0 and eq(n,s.len) is True: return s
    if isinstance(s,SSub): return ssub(s.p,add(s.pos,pos),n)
    if isinstance(s,SRep): return SRep(n,s.ch)
    if isinstance(s,SCat):
        # drop whole leading pieces / trailing pieces when decidable
        ps=list(s.ps); o=pos
        while ps and len(ps)>1:
            c=le(ps[0].len,o)
            if c is True: o=sub(o,ps[0].len); ps=ps[1:]
            else: break
        # take
        end=add(o,n); acc=0; out=[]
        for i,p in enumerate(ps):
            nx=add(acc,p.len)
            if eq(nx,end) is True:
                ps=ps[:i+1]; break
            acc=nx
        if len(ps)!=len(s.ps):
            return ssub(scat(*ps),o,n)
        if isinstance(o,int) and o==0:
            # prefix ending inside first piece
            if le(n,ps[0].len) is True: return ssub(ps[0],0,n)
    return SSub(s,pos,n)

# ------------------------------------------------------------------ sequences
class Rec(dict):
    """struct element: sub-offset -> (kind,value)"""
class Seq:
    ek=None
class SeqBase(Seq):
    """fn(kind,sub,k)->value"""
    def __init__(s,fn,ln,key=None): s.fn=fn; s.len=ln; s.key=key
    def at(s,k,kind,sub=0): return s.fn(kind,sub,k)
    def __repr__(s): return f'SeqBase({s.key})'
class SeqLit(Seq):
    def __init__(s,el): s.el=tuple(el); s.len=len(s.el)
    def at(s,k,kind,sub=0):
        if isinstance(k,int):
            if not 0<=k<len(s.el): raise Unsupported('seq index')
            return elem(s.el[k],kind,sub)
        if not s.el: raise Unsupported('read of empty seq')
        r=elem(s.el[-1],kind,sub)
        for i in range(len(s.el)-2,-1,-1): r=merge(eq(k,i),elem(s.el[i],kind,sub),r)
        return r
    def __repr__(s): return f'SeqLit{s.el}'
def elem(v,kind,sub):
    if isinstance(v,Rec):
        if sub not in v: raise Unsupported('record field %s'%sub)
        return v[sub][1]
    if sub!=0: raise Unsupported('sub of scalar')
    return v
class SeqPush(Seq):
    def __init__(s,p,v): s.p=p; s.v=v; s.len=add(p.len,1)
    def at(s,k,kind,sub=0):
        c=lt(k,s.p.len)
        if c is True: return s.p.at(k,kind,sub)
        if c is False: return elem(s.v,kind,sub)
        if isinstance(s.p.len,int) and s.p.len==0: return elem(s.v,kind,sub)
        return merge(c,s.p.at(k,kind,sub),elem(s.v,kind,sub))
    def __repr__(s): return f'SeqPush({s.p},{s.v})'
class SeqCat(Seq):
    def __init__(s,a,b): s.a=a; s.b=b; s.len=add(a.len,b.len)
    def at(s,k,kind,sub_=0):
        c=lt(k,s.a.len)
        if c is True: return s.a.at(k,kind,sub_)
        if c is False: return s.b.at(sub(k,s.a.len),kind,sub_)
        if isinstance(s.a.len,int) and s.a.len==0: return s.b.at(k,kind,sub_)
        return merge(c,s.a.at(k,kind,sub_),s.b.at(sub(k,s.a.len),kind,sub_))
    def __repr__(s): return f'SeqCat({s.a},{s.b})'
class SeqMap(Seq):
    """n elements (n*per after flattening); f(j)-> list of per elements"""
    def __init__(s,n,f,per=1): s.n=n; s.f=f; s.per=per; s.len=mul(n,per) if per!=1 else n
    def at(s,k,kind,sub=0):
        if s.per==1: return elem(s.f(k)[0],kind,sub)
        if isinstance(k,int): return elem(s.f(k//s.per)[k%s.per],kind,sub)
        q=I(k)/s.per; m=I(k)%s.per
        el=s.f(q); r=elem(el[-1],kind,sub)
        for i in range(s.per-2,-1,-1): r=merge(eq(m,i),elem(el[i],kind,sub),r)
        return r
    def __repr__(s): return f'SeqMap({s.n})'
class SeqErase(Seq):
    def __init__(s,p,i): s.p=p; s.i=i; s.len=sub(p.len,1)
    def at(s,k,kind,sub=0): return merge(lt(k,s.i),s.p.at(k,kind,sub),s.p.at(add(k,1),kind,sub))
    def __repr__(s): return f'SeqErase({s.p},{s.i})'
class SeqInsert(Seq):
    def __init__(s,p,i,v): s.p=p; s.i=i; s.v=v; s.len=add(p.len,1)
    def at(s,k,kind,sub_=0):
        return merge(lt(k,s.i),s.p.at(k,kind,sub_),merge(eq(k,s.i),elem(s.v,kind,sub_),s.p.at(sub(k,1),kind,sub_)))
class SeqUpd(Seq):
    def __init__(s,p,i,v,kind,sub_=0): s.p=p; s.i=i; s.v=v; s.kind=kind; s.sub=sub_; s.len=p.len
    def at(s,k,kind,sub_=0):
        if sub_!=s.sub: return s.p.at(k,kind,sub_)
        c=eq(k,s.i)
        if c is True: return s.v
        if c is False: return s.p.at(k,kind,sub_)
        return merge(c,s.v,s.p.at(k,kind,sub_))
    def __repr__(s): return f'SeqUpd({s.p},{s.i},{s.v})'
class SeqIte(Seq):
    def __init__(s,c,a,b): s.c=c; s.a=a; s.b=b; s.len=ite(c,a.len,b.len)
    def at(s,k,kind,sub=0):
        # an empty alternative has no element: reads of it are guarded by the length
        if isinstance(s.a,SeqLit) and not s.a.el: return s.b.at(k,kind,sub)
        if isinstance(s.b,SeqLit) and not s.b.el: return s.a.at(k,kind,sub)
        return merge(s.c,s.a.at(k,kind,sub),s.b.at(k,kind,sub))
class SeqSlice(Seq):
    def __init__(s,p,pos,n): s.p=p; s.pos=pos; s.len=n
    def at(s,k,kind,sub_=0): return s.p.at(add(k,s.pos),kind,sub_)
class SeqPer(Seq):
    """pointwise closed form of a loop that overwrites elements: f(k,kind,sub)->value"""
    def __init__(s,ln,f): s.len=ln; s.f=f
    def at(s,k,kind,sub=0): return s.f(k,kind,sub)
class SeqRep(Seq):
    def __init__(s,n,v): s.len=n; s.v=v
    def at(s,k,kind,sub=0): return elem(s.v,kind,sub)
def push(p,v):
    if isinstance(p,SeqLit): return SeqLit(p.el+(v,))
    return SeqPush(p,v)

class Ev(tuple):
    """ghost event (tag, args...)"""

def merge(c,a,b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a,(Ptr,APtr)) and isinstance(b,(Ptr,APtr)):
        if isinstance(a,APtr) or isinstance(b,APtr):
            if isinstance(a,Ptr) and isinstance(a.base,int) and a.base==0: a=APtr(0)
            if isinstance(b,Ptr) and isinstance(b.base,int) and b.base==0: b=APtr(0)
            if isinstance(a,APtr) and isinstance(b,APtr) and a.c==b.c and not a.terms and not b.terms:
                return APtr(ite(c,a.base,b.base),a.c)
            raise Unsupported('merge of array pointers')
        return Ptr(ite(c,a.base,b.base),ite(c,a.off,b.off))
    if isinstance(a,Iter) and isinstance(b,Iter) and sameloc(a.cont,b.cont) and a.kind==b.kind:
        if a.idx==END and b.idx==END if isinstance(a.idx,str) or isinstance(b.idx,str) else False: return a
        if isinstance(a.idx,str) or isinstance(b.idx,str): raise Unsupported('merge of end iterator')
        return Iter(a.kind,a.cont,ite(c,a.idx,b.idx))
    if isinstance(a,EPtr) and isinstance(b,EPtr) and sameloc(a.cont,b.cont) and a.sub==b.sub:
        return EPtr(a.kind,a.cont,ite(c,a.idx,b.idx),a.sub)
    if isinstance(a,Str) and isinstance(b,Str):
        if isinstance(a,SLit) and isinstance(b,SLit) and a.b==b.b: return a
        if isinstance(a,SOpq) and isinstance(b,SOpq) and a.tag==b.tag and all(veq(x,y) is True for x,y in zip(a.args,b.args)): return a
        pa,pb=pieces(a),pieces(b)
        if len(pa)==len(pb)>1:
            out=[]
            for x,y in zip(pa,pb):
                q=_piece_eq(x,y)
                if q is True: out.append(x)
                elif isinstance(x,(SRep,SLit)) and isinstance(y,(SRep,SLit)) and isinstance(x.len,int) and x.len==y.len==1: out.append(SRep(1,ite(c,x.at(0),y.at(0))))
                else: out=None; break
            if out: return scat(*out)
        return SIte(c,a,b)
    if isinstance(a,Seq) and isinstance(b,Seq): return SeqIte(c,a,b)
    if isinstance(a,Ev) and isinstance(b,Ev):
        if a[0]!=b[0] or len(a)!=len(b): raise Unsupported('merge of different events')
        return Ev((a[0],)+tuple(merge(c,x,y) for x,y in zip(a[1:],b[1:])))
    if isinstance(a,Rec) and isinstance(b,Rec): return Rec({k:(a[k][0],merge(c,a[k][1],b[k][1])) for k in a})
    if isinstance(a,FnV) and isinstance(b,FnV) and a.name==b.name: return a
    if isinstance(a,str) or isinstance(b,str):
        if a==b: return a
        raise Unsupported('merge of tags')
    if isinstance(a,(int,Fraction,z3.ExprRef)) and isinstance(b,(int,Fraction,z3.ExprRef)): return ite(c,a,b)
    raise Unsupported(f'merge {type(a).__name__} {type(b).__name__}')

def sameloc(p,q):
    return eq(p.base,q.base) is True and eq(p.off,q.off) is True

def veq(a,b):
    """equality of scalar values as a formula (strings/sequences: see goals)"""
    if isinstance(a,(Ptr,APtr)) and isinstance(b,(Ptr,APtr)):
        if isinstance(a,APtr) or isinstance(b,APtr):
            x=a if isinstance(a,APtr) else APtr(a.base); y=b if isinstance(b,APtr) else APtr(b.base)
            nul=lambda z: isinstance(z.base,int) and z.base==0
            if nul(x) or nul(y): return eq(x.base,y.base)
            return and_(eq(x.base,y.base),eq(x.index(1),y.index(1)))
        return and_(eq(a.base,b.base),eq(a.off,b.off))
    if isinstance(a,EPtr) and isinstance(b,EPtr): return and_(eq(a.cont.base,b.cont.base),eq(a.cont.off,b.cont.off),eq(a.idx,b.idx),a.sub==b.sub)
    if isinstance(a,EPtr) and isinstance(b,Ptr) and isinstance(b.base,int) and b.base==0: return False
    if isinstance(b,EPtr) and isinstance(a,Ptr) and isinstance(a.base,int) and a.base==0: return False
    if isinstance(a,Str) and isinstance(b,Str): return seq_str(a,b)
    if isinstance(a,bool) or isinstance(b,bool) or (isz(a) and z3.is_bool(a)):
        return sb(B(a)==B(b)) if not(isinstance(a,bool) and isinstance(b,bool)) else a==b
    if isinstance(a,str) or isinstance(b,str): return a==b
    if isinstance(a,Iter) and isinstance(b,Iter) and a.kind==b.kind and not isinstance(a.idx,str) and not isinstance(b.idx,str):
        return and_(eq(a.cont.base,b.cont.base),eq(a.cont.off,b.cont.off),eq(a.idx,b.idx))
    if isinstance(a,(Ptr,EPtr,Iter,APtr)) or isinstance(b,(Ptr,EPtr,Iter,APtr)): raise Unsupported(f'compare {type(a).__name__} {type(b).__name__}')
    return eq(a,b)

_kc=[0]
def freshint(p='k'):
    _kc[0]+=1
    return z3.Int(f'{p}!{_kc[0]}')

def seq_str(a,b):
    """goal formula for string equality (skolemised universal: use only as a goal)"""
    if a is b: return True
    pa,pb=pieces(a),pieces(b)
    if len(pa)==len(pb):
        cs=[]
        for x,y in zip(pa,pb):
            c=_piece_eq(x,y)
            if c is None: break
            cs.append(c)
        else:
            f=and_(*cs)
            if f is True: return True
            if f is not False: return or_(f,_ptw(a,b))
    return _ptw(a,b)
def _ptw(a,b):
    k=freshint('sk')
    try:
        return and_(eq(a.len,b.len),imp(and_(le(0,k),lt(k,a.len)),eq(a.at(k),b.at(k))))
    except Unsupported:
        return False
def _piece_eq(x,y):
    if x is y: return True
    if isinstance(x,SLit) and isinstance(y,SLit): return x.b==y.b
    if isinstance(x,SOpq) and isinstance(y,SOpq) and x.tag==y.tag: return and_(*[veq(p,q) for p,q in zip(x.args,y.args)])
    if isinstance(x,SRep) and isinstance(y,SRep): return and_(eq(x.n,y.n),eq(x.ch,y.ch))
    if isinstance(x,(SRep,SLit)) and isinstance(y,(SRep,SLit)) and isinstance(x.len,int) and isinstance(y.len,int) and x.len==y.len<=4:
        return and_(*[eq(x.at(i),y.at(i)) for i in range(x.len)])
    if isinstance(x,SSym) and isinstance(y,SSym) and x.key is not None and y.key is not None and repr(x.key)==repr(y.key): return True
    if isinstance(x,SSub) and isinstance(y,SSub):
        c=_piece_eq(x.p,y.p)
        if c is True: return and_(eq(x.pos,y.pos),eq(x.len,y.len))
    return None

# ------------------------------------------------------------------ substitution
def subst(v,pairs):
    if not pairs: return v
    if isz(v):
        return _post(z3.substitute(v,*pairs))
    if isinstance(v,(int,Fraction,str,FnV,Undef)) or v is None: return v
    if isinstance(v,Ptr): return Ptr(subst(v.base,pairs),subst(v.off,pairs),v.src)
    if isinstance(v,APtr): return APtr(subst(v.base,pairs),v.c,[(subst(t,pairs),k) for t,k in v.terms])
    if isinstance(v,EPtr): return EPtr(v.kind,subst(v.cont,pairs),subst(v.idx,pairs),v.sub)
    if isinstance(v,Iter): return Iter(v.kind,subst(v.cont,pairs),subst(v.idx,pairs))
    if isinstance(v,Ev): return Ev(subst(x,pairs) for x in v)
    if isinstance(v,Rec): return Rec({k:(a,subst(b,pairs)) for k,(a,b) in v.items()})
    if isinstance(v,SLit): return v
    if isinstance(v,SOpq):
        f=v.fn
        return SOpq(v.tag,tuple(subst(a,pairs) for a in v.args),subst(v.len,pairs),lambda k,f=f: _substk(f,k,pairs))
    if isinstance(v,SSym):
        f=v.fn
        return SSym(lambda k,f=f: _substk(f,k,pairs),subst(v.len,pairs),None if v.key is None else ('subst',v.key,str(pairs)))
    if isinstance(v,SRep): return SRep(subst(v.n,pairs),subst(v.ch,pairs))
    if isinstance(v,SCat): return scat(*[subst(p,pairs) for p in v.ps])
    if isinstance(v,SSub): return SSub(subst(v.p,pairs),subst(v.pos,pairs),subst(v.len,pairs))
    if isinstance(v,SIte): return SIte(subst(v.c,pairs),subst(v.a,pairs),subst(v.b,pairs))
    if isinstance(v,SUpd): return SUpd(subst(v.p,pairs),subst(v.i,pairs),subst(v.ch,pairs))
    if isinstance(v,Seq):
        return SeqPer(subst(v.len,pairs),lambda k,kind,sub,v=v: _substk2(lambda kk: v.at(kk,kind,sub),k,pairs))
    if isinstance(v,tuple): return tuple(subst(x,pairs) for x in v)
    raise Unsupported('subst '+type(v).__name__)
def _post(e):
    if z3.is_int_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def _substk(f,k,pairs):
    """substitute in f(k) without touching the argument k"""
    d=freshint('tk')
    e=f(d)
    if not isz(e): return e
    e=z3.substitute(e,*pairs)
    return _post(z3.substitute(e,(d,I(k))))
def _substk2(f,k,pairs):
    d=freshint('tk')
    e=subst(f(d),pairs)
    return subst(e,[(d,I(k))])
def freevars(v,acc=None):
    """set of uninterpreted constant/function names in a z3 term"""
    acc=set() if acc is None else acc
    seen=set(); st=[v]
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            st+=x.children()
    return acc
def vterms(v):
    """z3 terms inside a structured value (best effort, for dependency checks)"""
    if isz(v): return [v]
    if isinstance(v,Ptr): return vterms(v.base)+vterms(v.off)
    if isinstance(v,APtr): return vterms(v.base)+[t for x,_ in v.terms for t in vterms(x)]
    if isinstance(v,EPtr): return vterms(v.cont)+vterms(v.idx)
    if isinstance(v,Iter): return vterms(v.cont)+vterms(v.idx)
    if isinstance(v,(Ev,tuple)): return [t for x in v for t in vterms(x)]
    if isinstance(v,Rec): return [t for _,(a,b) in v.items() for t in vterms(b)]
    if isinstance(v,SLit): return []
    if isinstance(v,SOpq): return [t for x in v.args for t in vterms(x)]
    if isinstance(v,SCat): return [t for x in v.ps for t in vterms(x)]
    if isinstance(v,SSub): return vterms(v.p)+vterms(v.pos)+vterms(v.len)
    if isinstance(v,SRep): return vterms(v.n)+vterms(v.ch)
    if isinstance(v,SIte): return vterms(v.c)+vterms(v.a)+vterms(v.b)
    if isinstance(v,Str): return vterms(v.len)+vterms(v.at(z3.Int('kk')))
    return []
