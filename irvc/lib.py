"""Task framework shared by the property specifications: contexts, proof tasks, memory access by field name,
goal helpers, frame checks, vacuity guards."""
import sys, os, time, traceback, re
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import z3, llvmc, engine, models, build
from values import *
from fractions import Fraction
PTRN='ptr'
class Ctx:
    def __init__(s,d):
        s.dir=d; s.mod=llvmc.Mod(d+'/all.bc'); s.lay=build.Layouts(d+'/layouts.txt'); s._idf=None; s._idflay=None; s._enum=None
        s.offcache={}
        s.classes=sorted(n[4:].lstrip('0123456789') for n in s.mod.gls if n.startswith('_ZTV') and n[4:].lstrip('0123456789') in s.lay.rec)
        s.basevt=s.mod.vtable('IGES_ENTITY')
    @property
    def idf(s):
        if s._idf is None: s._idf=llvmc.Mod(s.dir+'/idf.bc')
        return s._idf
    @property
    def idflay(s):
        if s._idflay is None: s._idflay=build.Layouts(s.dir+'/layouts_idf.txt')
        return s._idflay
    @property
    def enum(s):
        """values of the enumerators of the IDF headers"""
        if s._enum is None:
            import glob; s._enum=build.enums(sorted(glob.glob(build.REPO+'/src/idf/*.h')))
        return s._enum
    def F(s,cls,name):
        k=(cls,name); r=s.offcache.get(k)
        if r is None:
            lay=s.lay if cls in s.lay.rec else s.idflay
            try: r=(lay.off(cls,name),lay.kind(cls,name))
            except KeyError: raise Unsupported('field %s::%s not found'%(cls,name))
            s.offcache[k]=r
        return r
    def entity_classes(s):
        return [c for c in s.classes if 'IGES_ENTITY' in s.lay.bases(c)[1:] and c.startswith('IGES_ENTITY_')]
    def fn(s,dem,mod=None):
        mod=mod or s.mod
        l=[x for x in mod.bydem.get(dem,[])]
        if not l: raise Unsupported('function not found: '+dem)
        # prefer the complete-object variants (C1/D1) that have a body
        for x in l:
            y=mod.alias.get(x,x)
            if mod.fns.get(y) is not None and mod.fn(y) is not None: return y
        raise Unsupported('no body: '+dem)
    def method(s,cls,name,sig=None):
        """mangled name of the implementation of virtual method cls::name used by class cls (through its vtable)"""
        v=s.mod.vtable(cls)
        for x in v or []:
            if not x: continue
            d=s.mod.dem.get(x,x)
            m=re.match(r'(\w+)::(~?\w+)\((.*)\)',d)
            if m and m.group(2)==name and (sig is None or m.group(3)==sig): return x
        raise Unsupported('method %s::%s'%(cls,name))
    def slot(s,cls,idx):
        return s.mod.dem.get(s.mod.vtable(cls)[idx])

class Task:
    def __init__(s,name,run,deadline=100,bounded=None,fn=None): s.name=name; s.run=run; s.deadline=deadline; s.fn=fn
class Result:
    """picklable outcome of one task"""
    def __init__(s,name):
        s.name=name; s.obs=[]; s.unsupported=None; s.paths=0; s.t=0.0; s.solver=0.0; s.nq=0
        s.assumptions=set(); s.inlined=set(); s.contracts=set(); s.taint=[]; s.vacuous=[]; s.fn=''; s.forms=set()
    def failed(s): return [o for o in s.obs if o[1]=='failed']
    def open(s): return [o for o in s.obs if o[1]=='unknown']

class P:
    """one verification run of one function: pre-state, engine and goal helpers"""
    def __init__(p,ctx,spec,timeout=20000,mod=None):
        p.ctx=ctx; p.spec=spec; p.e=engine.Engine(mod or ctx.mod,spec,timeout); spec.p=p; p.st=engine.State(); p.res=None
        p.vac=[]
    # --- memory by field
    def get(p,st,obj,cls,name,kind=None):
        o,k=p.ctx.F(cls,name)
        b,off=(obj.base,obj.off) if isinstance(obj,Ptr) else (obj,0)
        return p.e.mread(st,kind or k,add(off,o),b)
    def put(p,st,obj,cls,name,v,kind=None):
        o,k=p.ctx.F(cls,name)
        b,off=(obj.base,obj.off) if isinstance(obj,Ptr) else (obj,0)
        p.e.mwrite(st,kind or k,add(off,o),b,v)
    def obj(p,name,nonnull=True):
        x=z3.Int(name); p.st.assume(x>0 if nonnull else x>=0)
        return Ptr(x,0)
    def i32(p,name,lo=-2**31,hi=2**31-1):
        x=z3.Int(name); p.st.assume(z3.And(x>=lo,x<=hi)); return x
    def real(p,name): return z3.Real(name)
    def boolean(p,name): return z3.Bool(name)
    def cell(p,kind,v,st=None):
        """a local cell (passed by reference)"""
        i=p.e.new_id(); p.e.mwrite(st or p.st,kind,0,i,v); return Ptr(i,0)
    def newobj(p,cls):
        """object owned by the caller, distinct from every other one"""
        i=p.e.new_id(); return Ptr(i,0)
    # --- goals
    def ob(p,name,st,f): return p.e.oblig(name,st,f)
    def seqeq(p,a,b,kind='ptr',sub_=0):
        if a is b: return True
        if (isinstance(a.len,int) and a.len==0) or (isinstance(b.len,int) and b.len==0): return eq(a.len,b.len)
        k=freshint('sk')
        x,y=a.at(k,kind,sub_),b.at(k,kind,sub_)
        q=seq_str(x,y) if isinstance(x,Str) else veq(x,y)
        if isinstance(a,SeqBase) and isinstance(b,SeqBase) and a.key==b.key and a.key is not None: return True
        return and_(eq(a.len,b.len),imp(and_(le(0,k),lt(k,a.len)),q))
    def find(p,st,seq,x,kind='ptr',sub_=0,name='idx'):
        """ghost: first position of x in seq, or -1 (definitional extension: always exists)"""
        i=p.e.fresh(name); j=freshint('fj')
        el=lambda k: veq(seq.at(k,kind,sub_),x)
        st.assume(z3.And(i>=-1,i<I(seq.len),z3.Implies(i>=0,B(el(i)))))
        st.assume(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<I(seq.len),z3.Or(i<0,j<i)),B(not_(el(j))))))
        return i
    def contains(p,st,seq,x,kind='ptr',sub_=0):
        """ghost Boolean: x occurs in seq (definitional, both directions)"""
        q=freshint('cq')
        if isinstance(seq,SeqLit) and not seq.el: return False
        return z3.Exists([q],z3.And(q>=0,q<I(seq.len),B(veq(seq.at(q,kind,sub_),x))))
    def unique(p,st,seq,kind='ptr',sub_=0):
        i,j=freshint('u'),freshint('u')
        st.assume(z3.ForAll([i,j],z3.Implies(z3.And(0<=i,i<j,j<I(seq.len)),B(not_(veq(seq.at(i,kind,sub_),seq.at(j,kind,sub_)))))))
    def touched(p,st0,st):
        """heap places written between st0 and st: [(kind,off,base)] (objects local to the run excluded)"""
        out=[];seen=set()
        for k,node in st.mem.items():
            stop=st0.mem.get(k)
            while node is not None and node is not stop:
                tag,b,v,prev=node
                if tag in'hf': out.append((k[0],k[1],'*')); break
                if not (isinstance(b,int) and b<0):
                    kk=(k[0],k[1],b if isinstance(b,int) else b.sexpr())
                    if kk not in seen: seen.add(kk); out.append((k[0],k[1],b))
                node=prev
        return out
    def same(p,st0,st,kind,off,base):
        a=p.e.mread(st0,kind,off,base); b=p.e.mread(st,kind,off,base)
        if a is b: return True
        if isinstance(a,Seq):
            if isinstance(a,SeqBase) and isinstance(b,SeqBase) and a.key==b.key: return True
            f=True
            for (ek,es) in p.elemkinds(a,b): f=and_(f,p.seqeq(a,b,ek,es))
            return f
        if isinstance(a,Str): return seq_str(a,b)
        if a is UNDEF or b is UNDEF: return a is b
        return veq(a,b)
    def elemkinds(p,a,b):
        for x in(a,b):
            while True:
                if isinstance(x,SeqPush): v=x.v; break
                if isinstance(x,SeqLit) and x.el: v=x.el[0]; break
                if isinstance(x,SeqUpd) and x.kind=='str': return [(x.kind,x.sub)]
                if isinstance(x,SeqMap) and x.per==1: v=x.f(0)[0]; break
                if isinstance(x,(SeqErase,SeqUpd,SeqSlice)): x=x.p; continue
                if isinstance(x,SeqIte): x=x.a; continue
                v=None; break
            if v is not None:
                if isinstance(v,Rec): return [(k,o) for o,(k,_) in v.items()]
                if isinstance(v,(Ptr,APtr)): return [('ptr',0)]
                if isinstance(v,Str): return [('str',0)]
                if isinstance(v,Fraction) or (isz(v) and z3.is_real(v)): return [('f64',0)]
                return [('i32',0)]
        return [('ptr',0)]
    def frame(p,name,st0,st,allowed):
        """everything outside `allowed` is unchanged.  allowed: list of (kind,off,base|None|callable)"""
        for kind,off,b in p.touched(st0,st):
            ok=False; cond=True
            for ak,ao,ab in allowed:
                if ak==kind and ao==off:
                    if ab is None: ok=True; break
                    if isinstance(b,str): continue
                    e=p.e.base_eq(b,ab)
                    if e is True: ok=True; break
                    cond=and_(cond,not_(e))
            if ok: continue
            if isinstance(b,str): p.ob(f'{name}: frame {p.fname(off,kind)}',st,False); continue
            p.ob(f'{name}: frame {p.fname(off,kind)}',st,imp(cond,p.same(st0,st,kind,off,b)))
    def fname(p,off,kind): return f'{kind}@{off}'
    def fields(p,cls,obj,names):
        return [(p.ctx.F(cls,n)[1],p.ctx.F(cls,n)[0],obj.base) for n in names]
    def run(p,mangled,args,post,vac=True):
        st=p.st; pre=st.clone()
        p.e.curfn=p.e.mod.dem.get(mangled,mangled)
        if p.e.sat(pre)=='unsat': p.vac.append('precondition unsatisfiable')
        rets=p.e.run_fn(mangled,args,st)
        if not rets: p.vac.append('no return reachable')
        n0=len(p.e.obs); live=0
        for s,r in rets:
            p.e.quiet=0
            post(s,r)
            if vac and live==0 and p.e.sat(s)!='unsat': live=1
        if rets and vac and not live: p.vac.append('all return states contradictory')
        if len(p.e.obs)==n0: p.vac.append('no postcondition generated')
        return rets

def run_task(ctx,task):
    r=Result(task.name); t=time.time(); ps=[]
    try:
        task.run(ctx,ps,r)
    except Unsupported as x:
        r.unsupported='%s'%x
        if os.environ.get('VTRACE'): traceback.print_exc()
    except RecursionError as x: r.unsupported='recursion'
    except z3.Z3Exception as x:
        r.unsupported='z3: %s'%str(x)[:200]
        if os.environ.get('VTRACE'): traceback.print_exc()
    except (KeyError,IndexError,TypeError,AttributeError,AssertionError,ValueError,ZeroDivisionError) as x:
        r.unsupported='engine: %s %s'%(type(x).__name__,str(x)[:200])
        if os.environ.get('VTRACE'): traceback.print_exc()
    for p in ps:
        e=p.e
        for o in e.obs:
            mdl=''
            if o.status=='failed' and o.model is not None:
                try: mdl=str(o.model)[:3000]
                except Exception: mdl='?'
            r.obs.append((o.name,o.status,o.fn,o.line,round(o.t,4),mdl))
        r.paths+=e.paths; r.solver+=e.solver_time; r.nq+=e.nq
        r.assumptions|=e.assumptions; r.inlined|=e.inlined; r.contracts|=e.contracts; r.taint+=getattr(e,'taint',[]); r.vacuous+=p.vac
    r.t=time.time()-t
    return r
def proof(name,setup,deadline=100,spec=None,timeout=20000,idf=False):
    """setup(p) performs the run; spec: Spec class"""
    def run(ctx,ps,r):
        p=P(ctx,(spec or LibSpec)(),timeout,mod=ctx.idf if idf else None); ps.append(p)
        p.e.deadline=time.time()+deadline*engine.SCALE
        r.fn=name
        setup(p)
    return Task(name,run,deadline)

class LibSpec(engine.Spec):
    """contracts shared by all properties"""
    contracts={}
    def call(s,eng,st,dem,args,ins):
        h=s.contracts.get(dem)
        if h: return h(s,eng,st,args,ins)
        h=getattr(s,'match',None)
        if h: return h(eng,st,dem,args,ins)
        return None
    def virtual(s,eng,st,obj,slot,ins):
        """default: the static type is IGES_ENTITY (common vtable prefix)"""
        vt=s.p.ctx.basevt
        nm=s.slotname(slot)
        if nm is None: return None
        return '@virtual '+nm
    def slotname(s,slot):
        # the method signature is shared by all entity classes: read it off a concrete class
        v=s.p.ctx.mod.vtable('IGES_ENTITY_100')
        d=s.p.ctx.mod.dem.get(v[slot]) if slot is not None and slot<len(v) else None
        return re.sub(r'^\w+::','',d) if d else None
