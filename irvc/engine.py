"""Symbolic executor / verification-condition generator over LLVM IR of the real sources.

Functions with a contract are replaced by it at call sites, all others are inlined; loops are cut by
inductive invariants (closed forms in an iteration counter, verified inductively, plus the universally
quantified path facts of the earlier iterations); every obligation is discharged by z3."""
import z3, time, re, os
from fractions import Fraction
from values import *
import values

class PathEnd(Exception): pass
class Infeasible(Exception): pass
class _Inv(Exception): pass
class Unswitch(Exception):
    def __init__(s,c): s.c=c

class State:
    __slots__=('mem','pc','log','ghost','dead','kinds','unroll','npc','unsw')
    def __init__(s):
        s.mem={}; s.pc=[]; s.log=SeqLit([]); s.ghost={}; s.dead=(); s.kinds={}; s.unroll={}; s.unsw=()
    def clone(s):
        r=State.__new__(State)
        r.mem=dict(s.mem); r.pc=list(s.pc); r.log=s.log; r.ghost=dict(s.ghost); r.dead=s.dead; r.kinds=dict(s.kinds); r.unroll=dict(s.unroll); r.unsw=s.unsw
        return r
    def assume(s,c):
        if c is True: return s
        s.pc.append(B(c)); return s
    def event(s,tag,*a): s.log=push(s.log,Ev((tag,)+a))

KSIZE={'i8':1,'i16':2,'i32':4,'i64':8,'f64':8,'ptr':8}

class Oblig:
    __slots__=('name','status','t','model','fn','line','smt')

class Spec:
    """default hooks; property specifications subclass this"""
    check_null=True
    check_live=True
    check_bounds=True
    def call(self,eng,st,dem,args,ins): return None
    def load_init(self,eng,st,kind,off,base): return None
    def deref(self,eng,st,p,ins,what): pass

def _offsets(f,N):
    """constant terms c for which an uninterpreted function is applied to N+c in f (c not zero)"""
    out=[]; seen=set(); st=[f]
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return []
        if not z3.is_app(x): continue
        st+=x.children()
        if x.decl().kind()==z3.Z3_OP_UNINTERPRETED and x.decl().name().endswith('_ch'):
            for a in x.children():
                if not z3.is_int(a): continue
                c=z3.simplify(a-N)
                if N.decl().name() in freevars(c) or z3.is_int_value(c) and c.as_long()==0: continue
                if N.decl().name() not in freevars(a): continue
                if not any(c.eq(o) for o in out): out.append(c)
    return out[:2]
SCALE=1      # factor on the solver time limits (second attempt at tasks left open)
class Engine:
    def __init__(self,mod,spec,timeout=20000):
        self.mod=mod; self.spec=spec; self.timeout=timeout
        self.obs=[]; self.quiet=0; self.loopctx=[]; self.cnt=0
        self.next_id=-1; self.gids={}; self.gnames={}
        self.ufs={}; self.loopfacts={}; self.sol=z3.Solver(); self.sol.set('timeout',1500); self.stack=[]; self.light=z3.Solver(); self.linear=z3.Solver(); self.nls=[]; self.nlc={}; self.qs=[]; self.qc={}; self.qtimeout=1500
        self.solver_time=0.0; self.nq=0; self.curfn=''; self.prefix=''; self.assumptions=set(); self.inlined=set(); self.contracts=set()
        self.errno_id=self.new_id()
        self.deadline=None; self.maxpaths=20000; self.mergepaths=False; self.keepints=False; self.nosolve=False; self.paths=0; self.uses=set(); self.nooverflow=False; self.taint=[]
    # ---------------------------------------------------------------- fresh things
    def fresh(self,name,sort='Int'):
        self.cnt+=1
        n=f'{name}!{self.cnt}'
        S={'Int':z3.IntSort(),'Real':z3.RealSort(),'Bool':z3.BoolSort()}[sort]
        if self.loopctx:
            f=z3.Function(n,*([z3.IntSort()]*len(self.loopctx)),S)
            return f(*self.loopctx)
        return z3.Const(n,S)
    def instantiate(self,st,q):
        """add the instance at iteration q of what is known about the earlier iterations of the loops st has passed"""
        for c in list(st.pc):
            f=self.loopfacts.get(c.get_id()) if isz(c) else None
            if f is not None and f[0].eq(c): st.assume(z3.Implies(z3.And(q>=0,q<f[1]),z3.substitute(f[2],(f[1],q))))
    def uf(self,name,*sorts):
        k=(name,)+tuple(str(s) for s in sorts)
        f=self.ufs.get(k)
        if f is None:
            S={'Int':z3.IntSort(),'Real':z3.RealSort(),'Bool':z3.BoolSort()}
            f=self.ufs[k]=z3.Function(name,*[S.get(x,x) if isinstance(x,str) else x for x in sorts])
        return f
    def new_id(self):
        self.next_id-=1
        return self.next_id
    def gid(self,name):
        i=self.gids.get(name)
        if i is None:
            i=-1000000-len(self.gids); self.gids[name]=i; self.gnames[i]=name
        return i
    # ---------------------------------------------------------------- solver
    def sync(self,pc):
        k=0; S=self.stack
        while k<len(S) and k<len(pc) and (S[k] is pc[k] or S[k].eq(pc[k])): k+=1
        if k<len(S):
            self.sol.pop(len(S)-k); self.light.pop(len(S)-k); self.linear.pop(len(S)-k); del S[k:]; del self.qs[k:]; del self.nls[k:]
        for c in pc[k:]:
            self.sol.push(); self.sol.add(c); self.light.push(); S.append(c)
            q=self.hasq(c); self.qs.append(q)
            if not q: self.light.add(c)
            self.linear.push(); nl=self.hasnl(c); self.nls.append(nl)
            if not nl: self.linear.add(c)
    def hasq(self,c):
        r=self.qc.get(c.get_id())
        if r is not None: return r[0]
        st=[c]; seen=set(); q=False
        while st:
            x=st.pop()
            if z3.is_quantifier(x): q=True; break
            i=x.get_id()
            if i in seen: continue
            seen.add(i); st+=x.children()
        self.qc[c.get_id()]=(q,c)
        return q
    def hasnl(self,c):
        r=self.nlc.get(c.get_id())
        if r is not None: return r[0]
        st=[c]; seen=set(); n=False; val=lambda x: z3.is_rational_value(x) or z3.is_int_value(x)
        while st:
            x=st.pop(); i=x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_quantifier(x): st.append(x.body()); continue
            if z3.is_app(x):
                k=x.decl().kind()
                if k==z3.Z3_OP_MUL and z3.is_real(x) and sum(not val(a) for a in x.children())>1 or k==z3.Z3_OP_DIV and not val(x.arg(1)): n=True; break
            st+=x.children()
        self.nlc[c.get_id()]=(n,c)
        return n
    def sat(self,st,extra=None,timeout=1500,lin=False):
        """light check without the quantified facts first; the full check only has to find contradictions"""
        if self.deadline and time.time()>self.deadline: raise Unsupported('time budget')
        t=time.time()
        self.sync(st.pc)
        L=self.light; L.set('timeout',timeout*SCALE)
        self.nq+=1
        ex=B(extra) if extra is not None else None
        if ex is not None: L.push(); L.add(ex)
        r=L.check()
        if ex is not None: L.pop()
        if r!=z3.unsat and (any(self.qs) or (ex is not None and self.hasq(ex))):
            F=self.linear if lin and any(self.nls) else self.sol    # nonlinear facts together with quantified ones are left out where only paths are pruned
            F.set('timeout',min(timeout,self.qtimeout)*SCALE)
            if ex is not None: F.push(); F.add(ex)
            r=F.check()
            if ex is not None: F.pop()
        self.solver_time+=time.time()-t
        return str(r)
    def feasible(self,st,c=None):
        if c is False: return False
        if c is True: c=None
        self.qtimeout=250
        try: return self.sat(st,c,lin=True)!='unsat'
        finally: self.qtimeout=1500
    def proves(self,st,f,timeout=1500):
        if f is True: return True
        if f is False: return self.sat(st,None,timeout)=='unsat'
        return self.sat(st,not_(f),timeout)=='unsat'
    def oblig(self,name,st,f,ins=None):
        if self.quiet: return
        o=Oblig(); o.name=self.prefix+name; o.fn=self.curfn; o.line=ins.line if ins is not None else 0; o.model=None; o.smt=None
        if f is True:
            o.status='proved'; o.t=0.0
        else:
            t=time.time()
            self.sync(st.pc); self.sol.push(); self.sol.add(not_(B(f)) if not isinstance(f,bool) else z3.BoolVal(True))
            self.sol.set('timeout',2500*SCALE)
            r=self.sol.check(); self.nq+=1
            if r==z3.unknown:
                # second attempt: fresh (non-incremental) solver
                for mk in (lambda: z3.Solver(), lambda: z3.SimpleSolver(), lambda: z3.SolverFor('AUFLIRA')):
                    s2=mk(); s2.set('timeout',self.timeout//3*SCALE); s2.add(self.sol.assertions()); r=s2.check()
                    if r==z3.sat: o.model=s2.model()
                    if r!=z3.unknown: break
            elif r==z3.sat: o.model=self.sol.model()
            self.sol.pop()
            o.t=time.time()-t; self.solver_time+=o.t
            o.status={'unsat':'proved','sat':'failed','unknown':'unknown'}[str(r)]
        self.obs.append(o)
        return o
    # ---------------------------------------------------------------- memory
    def base_eq(self,a,b):
        if isinstance(a,int) and isinstance(b,int): return a==b
        if isz(a) and isz(b):
            if a.eq(b): return True
        else:
            x,y=(a,b) if isz(a) else (b,a)
            if isinstance(y,int) and y<0 and not self.isany(x): return False
        return eq(a,b)
    def isany(self,x):
        """may the term denote an object allocated/declared during execution (negative id)?"""
        if z3.is_app(x):
            d=x.decl()
            if d.kind()==z3.Z3_OP_UNINTERPRETED: return d.name().startswith('any!')
            if z3.is_int_value(x): return x.as_long()<0
            return any(self.isany(c) for c in x.children())
        return True
    def initial(self,st,kind,off,base,ep):
        v=self.spec.load_init(self,st,kind,off,base) if ep==0 else None
        if v is not None: return v
        nm=f'm{ep}_{kind}_{off}'
        b=I(base); Z=z3.IntSort()
        if kind in('i8','i16','i32','i64'):
            v=self.uf(nm,Z,Z)(b)
            w={'i8':8,'i16':16,'i32':32,'i64':64}[kind]
            st.assume(z3.And(v>=-2**(w-1),v<2**(w-1)))
            return v
        if kind=='f64': return self.uf(nm,Z,z3.RealSort())(b)
        if kind=='ptr':
            v=self.uf(nm,Z,Z)(b); st.assume(v>=0)
            return Ptr(v,0)
        if kind=='str': return self.symstr(st,nm,(b,))
        if kind in('list','vec','arr'): return self.symseq(st,nm,(b,))
        raise Unsupported('initial '+kind)
    def symstr(self,st,nm,key):
        Z=z3.IntSort(); ch=self.uf(nm+'_ch',*([Z]*(len(key)+1)),Z); ln=self.uf(nm+'_len',*([Z]*len(key)),Z)(*key)
        st.assume(z3.And(ln>=0,ln<2**31))
        return SSym(lambda k: ch(*key,I(k)),ln,(nm,)+tuple(str(x) for x in key))
    def symseq(self,st,nm,key):
        Z=z3.IntSort(); ln=self.uf(nm+'_len',*([Z]*len(key)),Z)(*key)
        st.assume(z3.And(ln>=0,ln<2**31))
        def fn(kind,sub,k):
            n=f'{nm}_{kind}_{sub}'
            if kind=='ptr': return Ptr(self.uf(n,*([Z]*(len(key)+1)),Z)(*key,I(k)),0)
            if kind=='f64': return self.uf(n,*([Z]*(len(key)+1)),z3.RealSort())(*key,I(k))
            if kind in KSIZE: return self.uf(n,*([Z]*(len(key)+1)),Z)(*key,I(k))
            if kind=='str':
                f=self.uf(n+'_ch',*([Z]*(len(key)+2)),Z); l=self.uf(n+'_len',*([Z]*(len(key)+1)),Z)(*key,I(k))
                return SSym(lambda q: f(*key,I(k),I(q)),l,(n,)+tuple(str(x) for x in key)+(str(k),))
            raise Unsupported('seq elem '+kind)
        return SeqBase(fn,ln,(nm,)+tuple(str(x) for x in key))
    def mread(self,st,kind,off,base):
        if isz(off):
            off=z3.simplify(off)
            if z3.is_int_value(off): off=off.as_long()
            elif kind=='str' and isinstance(base,int) and self.gnames.get(base) in getattr(self.spec,'strtab',()): return self.spec.strtab[self.gnames[base]](self,st,off)
            else: raise Unsupported('symbolic offset')
        node=st.mem.get((kind,off)); acc=[]; res=None
        if isinstance(base,int) and base<=-1000000 and self.gnames.get(base) and node is None:
            return self.gread(self.gnames[base],kind,off)
        if isinstance(base,int) and base<0: self.kindcheck(st,kind,off,base)
        while True:
            if node is None:
                res=self.initial(st,kind,off,base,0); break
            tag,b,v,prev=node
            if tag=='h':
                if b=='heap' and isinstance(base,int) and base<0: node=prev; continue
                res=self.initial(st,kind,off,base,v); break
            if tag=='f':      # the place of every object at once, as a function of the object and its earlier value
                if isinstance(base,int) and base<0: node=prev; continue
                q=st.clone(); q.mem[(kind,off)]=prev
                if prev is None: del q.mem[(kind,off)]
                res=v(base,self.mread(q,kind,off,base)); break
            e=self.base_eq(base,b)
            if e is not True and e is not False and not self.nosolve:
                if not self.feasible(st,e): e=False
                elif not self.feasible(st,not_(e)): e=True
            if e is True: res=v; break
            if e is not False: acc.append((e,v))
            node=prev
        for e,v in reversed(acc): res=merge(e,v,res)
        if kind=='ptr' and isinstance(res,Ptr): res=Ptr(res.base,res.off,(base,off))
        elif kind=='ptr' and isinstance(res,APtr): res=APtr(res.base,res.c,res.terms,(base,off))
        return res
    def kindcheck(self,st,kind,off,base):
        k=st.kinds.get((base,off))
        if k is not None and k!=kind: raise Unsupported(f'type-punned access {k} as {kind}')
    def mwrite(self,st,kind,off,base,v):
        if isz(off): raise Unsupported('symbolic offset store')
        if isinstance(base,int) and base<0: st.kinds[(base,off)]=kind
        key=(kind,off)
        st.mem[key]=('w',base,v,st.mem.get(key))
    def havoc_key(self,st,kind,off,scope='heap'):
        self.cnt+=1
        st.mem[(kind,off)]=('h',scope,self.cnt,st.mem.get((kind,off)))
    def gread(self,name,kind,off):
        if not self.mod.isconst(name): 
            raise Unsupported('mutable global '+name)
        for o,k,v in self.mod.gconst(name) or []:
            if o==off and (k==kind):
                if kind=='f64': return Fraction(v)
                if kind=='ptr': return self.cptr(v)
                return v
        raise Unsupported('global read %s+%s %s'%(name,off,kind))
    def cptr(self,v):
        if v[0]=='null': return NULL
        if v[0]=='g': return Ptr(self.gid(v[1]),v[2])
        if v[0]=='fn': return FnV(v[1])
        raise Unsupported('const ptr')
    def load(self,st,p,kind,ins=None):
        if isinstance(p,Ptr):
            self.deref(st,p,ins,'load')
            if isz(p.off):
                return self.symoff_load(st,p,kind,ins)
            return self.mread(st,kind,p.off,p.base)
        if isinstance(p,EPtr):
            if p.kind=='str':
                s=self.mread(st,'str',p.cont.off,p.cont.base)
                if kind!='i8': raise Unsupported('str load '+kind)
                self.bounds('string index',st,and_(le(0,p.idx),le(p.idx,s.len)),ins)
                return ite(eq(p.idx,s.len),0,s.at(p.idx)) if eq(p.idx,s.len) is not False else s.at(p.idx)
            s=self.mread(st,p.kind,p.cont.off,p.cont.base)
            self.bounds('element access',st,and_(le(0,p.idx),lt(p.idx,s.len)),ins)
            return s.at(p.idx,kind,p.sub)
        if isinstance(p,APtr):
            self.deref(st,Ptr(p.base,0),ins,'load')
            s=self.mread(st,'arr',0,p.base)
            i=p.index(KSIZE[kind])
            self.bounds('array access',st,and_(le(0,i),lt(i,s.len)),ins)
            return s.at(i,kind,0)
        raise Unsupported(f'load via {p}')
    def store(self,st,p,kind,v,ins=None):
        if isinstance(p,Ptr):
            self.deref(st,p,ins,'store')
            if hasattr(self.spec,'onstore') and self.spec.onstore(self,st,p,kind,v): return
            if isz(p.off): return self.symoff_store(st,p,kind,v,ins)
            return self.mwrite(st,kind,p.off,p.base,v)
        if isinstance(p,EPtr):
            if p.kind=='str':
                s=self.mread(st,'str',p.cont.off,p.cont.base)
                self.bounds('string store',st,and_(le(0,p.idx),lt(p.idx,s.len)),ins)
                return self.mwrite(st,'str',p.cont.off,p.cont.base,SUpd(s,p.idx,v))
            s=self.mread(st,p.kind,p.cont.off,p.cont.base)
            self.bounds('element store',st,and_(le(0,p.idx),lt(p.idx,s.len)),ins)
            return self.mwrite(st,p.kind,p.cont.off,p.cont.base,SeqUpd(s,p.idx,v,kind,p.sub))
        if isinstance(p,APtr):
            self.deref(st,Ptr(p.base,0),ins,'store')
            s=self.mread(st,'arr',0,p.base)
            i=p.index(KSIZE[kind])
            self.bounds('array store',st,and_(le(0,i),lt(i,s.len)),ins)
            return self.mwrite(st,'arr',0,p.base,SeqUpd(s,i,v,kind,0))
        raise Unsupported(f'store via {p}')
    def symoff_load(self,st,p,kind,ins):
        """symbolic index into a constant table or a fixed-size local array: finite case split"""
        if isinstance(p.base,int) and p.base in self.gnames:
            tab=[(o,v) for o,k,v in self.mod.gconst(self.gnames[p.base]) or [] if k==kind]
            self.bounds('table access',st,or_(*[eq(p.off,o) for o,_ in tab]),ins)
            r=None
            for o,v in reversed(tab):
                v=Fraction(v) if kind=='f64' else (self.cptr(v) if kind=='ptr' else v)
                r=v if r is None else merge(eq(p.off,o),v,r)
            return r
        size=st.ghost.get(('size',p.base)) if isinstance(p.base,int) else None
        if size:
            offs=[o for o in range(0,size,KSIZE[kind]) if self.feasible(st,eq(p.off,o))]
            self.bounds('array access',st,or_(*[eq(p.off,o) for o in offs]),ins)
            r=None
            for o in reversed(offs):
                v=self.mread(st,kind,o,p.base)
                r=v if r is None else merge(eq(p.off,o),v,r)
            return r
        if hasattr(self.spec,'symload'): return self.spec.symload(self,st,p,kind)
        if isinstance(p,Ptr) and isz(p.off) and z3.is_app_of(p.off,z3.Z3_OP_ITE):      # a choice between two places, such as the result of std::min
            c=p.off.arg(0); b=p.base; out=[]
            for i in(1,2):
                o=p.off.arg(i); o=o.as_long() if z3.is_int_value(o) else o
                x=b
                if isz(b) and z3.is_app_of(b,z3.Z3_OP_ITE) and b.arg(0).eq(c): x=b.arg(i); x=x.as_long() if z3.is_int_value(x) else x
                out.append(self.load(st,Ptr(x,o),kind,ins))
            return merge(c,*out)
        raise Unsupported('symbolic offset load')
    def symoff_store(self,st,p,kind,v,ins):
        size=st.ghost.get(('size',p.base)) if isinstance(p.base,int) else None
        if not size: raise Unsupported('symbolic offset store')
        offs=[o for o in range(0,size,KSIZE[kind]) if self.feasible(st,eq(p.off,o))]
        self.bounds('array store',st,or_(*[eq(p.off,o) for o in offs]),ins)
        for o in offs:
            self.mwrite(st,kind,o,p.base,merge(eq(p.off,o),v,self.mread(st,kind,o,p.base)))
    def bounds(self,what,st,f,ins):
        if self.spec.check_bounds: self.oblig('bounds: '+what,st,f,ins)
        st.assume(f)
    def deref(self,st,p,ins,what):
        b=p.base
        if isinstance(b,int) and b<0:
            if b in st.ghost.get('freed',()) and self.spec.check_live: self.oblig('live: use after delete',st,False,ins)
            return
        f=ne(b,0)
        if self.spec.check_null and f is not True:
            self.oblig('nonnull: '+what,st,f,ins)
        for db,cond in st.dead:
            e=self.base_eq(b,db)
            if e is False or not self.spec.check_live: continue
            self.oblig('live: '+what+' of a vanished object',st,not_(and_(e,cond)),ins)
        if f is False: raise PathEnd()
        st.assume(f)
        self.spec.deref(self,st,p,ins,what)
    # ---------------------------------------------------------------- operands
    def val(self,o,env):
        k=o[0]
        if k=='v': return env[o[1]]
        if k=='c': return o[1] if o[2]>1 else bool(o[1])
        if k=='null': return NULL
        if k=='fc':
            if o[1]!=o[1] or o[1] in(float('inf'),float('-inf')): raise Unsupported('inf/nan')
            return Fraction(o[1])
        if k=='g': return Ptr(self.gid(o[1]),o[2])
        if k=='fn': return FnV(o[1])
        if k=='undef': return UNDEF
        if k=='zero':
            if o[1][0]=='i': return 0
            if o[1][0]=='ptr': return NULL
            return UNDEF
        raise Unsupported('operand %s'%(o,))
    # ---------------------------------------------------------------- running
    def run_fn(self,name,args,st,depth=0):
        fn=self.mod.fn(name)
        if fn is None: raise Unsupported('no body: '+self.mod.dem.get(name,name))
        if depth>25: raise Unsupported('recursion depth')
        env={i:a for i,a in enumerate(args)}
        env['depth']=depth
        r=self.region(fn,st,env,0,None)
        return r['rets']
    def region(self,fn,st,env,start,prev,stop=None,blocks=None,ip0=None):
        out={'rets':[],'latches':[],'exits':[]}
        work=[(start,prev,st,env,ip0 if ip0 is not None else 0)]
        mg=self.mergepaths and blocks is None
        while work:
            if mg: b,prev,st,env,ip=self.mergenext(fn,work)
            else: b,prev,st,env,ip=work.pop()
            if ip==0:
                if blocks is not None:
                    if b==stop: out['latches'].append((st,env,prev)); continue
                    if b not in blocks: out['exits'].append((b,prev,st,env)); continue
                lp=fn.loops.get(b)
                if lp is not None and not self.concrete_loop(fn,lp,prev,st,env):
                    res=self.loop(fn,lp,prev,st,env)
                    out['rets']+=res['rets']
                    for (b2,p2,s2,e2) in res['exits']: work.append((b2,p2,s2,e2,0))
                    continue
                ip,env=self.phis(fn,b,prev,env)
            try:
                self.block(fn,b,st,env,ip,work,out)
            except PathEnd: pass
            except Infeasible: pass
        return out
    def mergenext(self,fn,work):
        """next work item in reverse post order; the states that reached the same block are joined where possible"""
        k=min(range(len(work)),key=lambda j: (fn.rpo[work[j][0]],work[j][4]==0))
        it=work.pop(k); b=it[0]
        if it[4]!=0 or b in fn.loops: return it
        same=[w for w in work if w[0]==b and w[4]==0]
        if not same: return it
        live=self.liveset(fn,b); grp={}; np=sum(1 for i in fn.blocks[b] if i.op=='phi') or -1
        for w in [it]+same:
            env=self.phis(fn,b,w[1],w[3])[1]
            key=tuple(v if isinstance(v,(bool,int)) else None for v in(env[i.id] for i in fn.blocks[b] if i.op=='phi'))
            grp.setdefault(key,[]).append((w[2],env))
        for w in same: work.remove(w)
        out=[]
        for g in grp.values():
            acc=[g[0]]
            for x in g[1:]:
                for j,y in enumerate(acc):
                    m=self.mergestates(y,x,live)
                    if m is not None: acc[j]=m; break
                else: acc.append(x)
            out+=[(b,'merged',s,e,np) for s,e in acc]
        work+=out[1:]
        return out[0]
    def liveset(self,fn,b):
        c=getattr(fn,'livec',None)
        if c is None: c=fn.livec={}
        if b not in c:
            seen={b}; w=[b]; u=set()
            while w:
                x=w.pop()
                for i in fn.blocks[x]:
                    if i.op=='phi':
                        if x!=b:
                            for pb,o in i.x:
                                if o[0]=='v': u.add(o[1])
                        else: u.add(i.id)
                        continue
                    for o in i.ops:
                        if o and o[0]=='v': u.add(o[1])
                    if i.op=='call' and i.x.get('callee') and i.x['callee'][0]=='v': u.add(i.x['callee'][1])
                for y in fn.succ[x]:
                    if y not in seen: seen.add(y); w.append(y)
            c[b]=u
        return c[b]
    def mergestates(self,x,y,live):
        (s,e1),(t,e2)=x,y
        if s.log is not t.log or s.dead!=t.dead or s.unsw!=t.unsw or set(s.ghost)!=set(t.ghost): return None
        n=0
        for a,b in zip(s.pc,t.pc):
            if a is not b: break
            n+=1
        ra,rb=s.pc[n:],t.pc[n:]
        if any(self.hasq(c) for c in ra+rb): return None
        ca,cb=and_(*ra) if ra else True,and_(*rb) if rb else True
        if ra and rb and isz(ra[0]) and isz(rb[0]) and (z3.simplify(z3.Not(ra[0])).eq(z3.simplify(rb[0]))): sel=ra[0]; 
        else: sel=self.fresh('join','Bool')
        try:
            env={}
            for k in e1.keys()&e2.keys():
                a,b=e1[k],e2[k]
                if a is b: env[k]=a
                elif k in live or k=='depth':
                    if self.keepints and type(a) is int and type(b) is int and a!=b: return None
                    env[k]=merge(sel,a,b)
            mem={}
            for k in s.mem.keys()|t.mem.keys():
                a,b=s.mem.get(k),t.mem.get(k)
                if a is b: mem[k]=a; continue
                la=[];x_=a
                while x_ is not None: la.append(x_); x_=x_[3]
                ids={id(q):j for j,q in enumerate(la)}; ids[id(None)]=len(la)
                lb=[];x_=b
                while x_ is not None and id(x_) not in ids: lb.append(x_); x_=x_[3]
                anc=x_; la=la[:ids[id(anc)]]
                if any(q[0]!='w' for q in la+lb): return None
                bases=[]
                for q in la+lb:
                    if not any((q[1] is z) or (isinstance(z,int) and isinstance(q[1],int) and z==q[1]) or (isz(z) and isz(q[1]) and z.eq(q[1])) for z in bases): bases.append(q[1])
                node=anc
                for z in bases:
                    self.nosolve=True
                    try: va,vb=self.mread(s,k[0],k[1],z),self.mread(t,k[0],k[1],z)
                    finally: self.nosolve=False
                    node=('w',z,merge(sel,va,vb),node)
                mem[k]=node
            gh={}
            for k in s.ghost:
                a,b=s.ghost[k],t.ghost[k]
                if a is b or (type(a)==type(b) and not isinstance(a,Str) and a==b): gh[k]=a
                elif isinstance(a,Str): gh[k]=merge(sel,a,b)
                else: return None
        except Unsupported: return None
        r=s.clone(); r.pc=s.pc[:n]; r.mem=mem; r.ghost=gh; r.kinds={**t.kinds,**s.kinds}
        r.assume(z3.Or(z3.And(B(sel),*[B(c) for c in ra]),z3.And(B(not_(sel)),*[B(c) for c in rb])))
        return r,env
    def phis(self,fn,b,prev,env):
        B=fn.blocks[b]; n=0; new={}
        for i in B:
            if i.op!='phi': break
            for pb,o in i.x:
                if pb==prev: new[i.id]=self.val(o,env); break
            n+=1
        env=dict(env); env.update(new)
        return n,env
    def block(self,fn,b,st,env,ip,work,out):
        """execute from instruction ip; pushes successors on work"""
        blk=fn.blocks[b]
        n=len(blk)
        if ip<0: ip=0
        while ip<n:
            i=blk[ip]; op=i.op
            if op=='br':
                if not i.ops:
                    work.append((i.x[0],b,st,env,0)); return
                c=self.val(i.ops[0],env)
                c=c if isinstance(c,bool) else sb(c)
                # llvm successor order: [true,false]
                self.fork(st,c,lambda s: work.append((i.x[0],b,s,env,0)),lambda s: work.append((i.x[1],b,s,env,0)))
                return
            if op=='switch':
                v=self.val(i.ops[0],env); rest=st
                for cv,tb in i.x[1]:
                    e=eq(v,cv)
                    if e is True: work.append((tb,b,rest,env,0)); return
                    if e is False: continue
                    if self.feasible(rest,e):
                        s2=rest.clone().assume(e); work.append((tb,b,s2,env,0))
                    rest=rest.clone().assume(not_(e))
                if self.feasible(rest): work.append((i.x[0],b,rest,env,0))
                return
            if op=='ret':
                self.paths+=1
                if self.paths>self.maxpaths: raise Unsupported('too many paths')
                out['rets'].append((st,self.val(i.ops[0],env) if i.ops else None)); return
            if op=='unreachable': return
            if op=='call':
                res=self.call(fn,i,st,env)
                if len(res)==1 and res[0][0] is st:
                    env[i.id]=res[0][1]; ip+=1; continue
                for s2,rv in res:
                    e2=dict(env); e2[i.id]=rv
                    work.append((b,'mid',s2,e2,ip+1))
                return
            env[i.id]=self.step(fn,i,st,env)
            ip+=1
    def fork(self,st,c,ft,ff):
        if c is True: return ft(st)
        if c is False: return ff(st)
        t=self.feasible(st,c); f=self.feasible(st,not_(c))
        if t and f:
            s2=st.clone().assume(not_(c)); st.assume(c)
            ff(s2); ft(st)
        elif t: st.assume(c); ft(st)
        elif f: st.assume(not_(c)); ff(st)
    # ---------------------------------------------------------------- instructions
    def step(self,fn,i,st,env):
        op=i.op; V=lambda k: self.val(i.ops[k],env)
        if op=='alloca':
            o=self.new_id()
            sz=self.mod.size(i.x); 
            if i.ops[0][0]=='c': sz*=i.ops[0][1]
            st.ghost[('size',o)]=sz
            if self.mod.isbytes(i.x) and 1<sz<=256:
                self.mwrite(st,'arr',0,o,SeqLit([UNDEF]*sz)); return APtr(o,0)
            return Ptr(o,0)
        if op=='load':
            if i.id in vtloads(fn):
                q=V(0)
                if isinstance(q,Ptr) and not isz(q.off):
                    self.deref(st,q,i,'load')
                    if not(isinstance(q.base,int)): return Ptr(self.fresh('vt'),0,('vtable',q))
            if i.id in vloads(fn):
                q=V(0)
                if isinstance(q,Ptr) and not isz(q.off): return self.mread(st,'ptr',q.off,q.base)
            return self.tocanon(self.load(st,V(0),self.kind(i.ty),i),i.ty)
        if op=='store':
            self.store(st,V(1),self.kind(i.x),self.val(i.ops[0],env),i); return None
        if op=='gep':
            p=V(0); off,dyn=i.x
            ts=[]
            for o,s in dyn:
                x=self.val(o,env)
                if isinstance(x,int): off+=x*s
                else: ts.append((x,s))
            return self.gep(p,off,ts)
        if op in('add','sub','mul'):
            a,b=V(0),V(1)
            w=i.ty[1]
            if isinstance(a,tuple) and isinstance(b,tuple) and a and b and a[0]==b[0]=='pti' and op=='sub': return self.ptrdiff(a[1],b[1])
            r={'add':add,'sub':sub,'mul':mul}[op](a,b)
            if w==1: return sb(z3.Xor(B(a),B(b)))
            if conc(r): 
                if not -2**(w-1)<=r<2**(w-1): r=((r+2**(w-1))%2**w)-2**(w-1)
            elif i.x and w==32:
                if self.nooverflow: self.oblig('no signed overflow',st,z3.And(r>=-2**31,r<2**31),i)
            elif w==32 and not i.x:
                r=z3.If(r>=2**31,r-2**32,z3.If(r<-2**31,r+2**32,r)) if op!='mul' else self.wrap(r,32)
            return r
        if op in('fadd','fsub','fmul','fdiv'):
            a,b=V(0),V(1)
            if op=='fdiv':
                if conc(b):
                    if b==0: raise Unsupported('division by zero')
                    return Fraction(a)/Fraction(b) if conc(a) else R(a)/R(Fraction(b))
                return R(a)/R(b)
            if op=='fmul' and conc(a) and conc(b): return Fraction(a)*b
            if op=='fmul':
                if conc(a) and a==1: return b
                if conc(b) and b==1: return a
                if (conc(a) and a==0) or (conc(b) and b==0): return Fraction(0)
                return R(a)*R(b)
            if conc(a) and conc(b): return a+b if op=='fadd' else a-b
            if op=='fadd':
                if conc(a) and a==0: return b
                if conc(b) and b==0: return a
            if op=='fsub' and conc(b) and b==0: return a
            return R(a)+R(b) if op=='fadd' else R(a)-R(b)
        if op=='fneg':
            a=V(0); return -a if conc(a) else -R(a)
        if op=='icmp': return self.icmp(i,st,V(0),V(1))
        if op=='fcmp':
            p=i.x; a,b=V(0),V(1)
            if p in('ord','true'): return True
            if p in('uno','false'): return False
            a,b=(a,b) if conc(a) and conc(b) else (R(a),R(b))
            q=p[1:]
            return {'eq':eq,'ne':ne,'lt':lt,'le':le,'gt':gt,'ge':ge}[q](a,b)
        if op=='trunc':
            a=V(0); 
            if a is UNDEF: return UNDEF
            w=i.ty[1]
            if w==1: return self.tobool(a)
            return self.wrap(a,w)
        if op=='sext':
            a=V(0)
            if isinstance(a,bool): return -1 if a else 0
            if isz(a) and z3.is_bool(a): return z3.If(a,I(-1),I(0))
            return a
        if op=='zext':
            a=V(0)
            if a is UNDEF: return UNDEF
            if isinstance(a,bool): return int(a)
            if isz(a) and z3.is_bool(a): return z3.If(a,I(1),I(0))
            w=i.x[1]
            if conc(a): return a%2**w
            return z3.If(a<0,a+2**w,a)
        if op in('and','or','xor'): return self.bitop(op,V(0),V(1),i)
        if op=='shl':
            a,b=V(0),V(1)
            if conc(b): return self.wrap(mul(a,2**b),i.ty[1]) if not conc(a) or abs(a*2**b)>2**(i.ty[1]-1)-1 else a*2**b
            raise Unsupported('shl')
        if op=='ashr':
            a,b=V(0),V(1)
            if conc(b): return a>>b if conc(a) else z3.simplify(a/(2**b))
            raise Unsupported('ashr')
        if op=='lshr':
            a,b=V(0),V(1)
            if conc(b):
                if conc(a): return (a%2**i.ty[1])>>b
                return z3.If(a<0,a+2**i.ty[1],a)/(2**b)
            raise Unsupported('lshr')
        if op in('sdiv','srem'):
            a,b=V(0),V(1)
            self.oblig('division by zero',st,ne(b,0),i) if not conc(b) else None
            if conc(a) and conc(b):
                q=abs(a)//abs(b); q=q if (a<0)==(b<0) else -q
                return q if op=='sdiv' else a-q*b
            a_,b_=I(a),I(b)
            q=z3.If(a_>=0,a_/b_,-((-a_)/b_))
            return q if op=='sdiv' else a_-q*b_
        if op in('udiv','urem'):
            a,b=V(0),V(1)
            ua=a if conc(a) and a>=0 else z3.If(I(a)<0,I(a)+2**i.ty[1],I(a)); ub=b if conc(b) and b>0 else z3.If(I(b)<0,I(b)+2**i.ty[1],I(b))
            return (I(ua)/I(ub) if op=='udiv' else I(ua)%I(ub)) if not(conc(ua) and conc(ub)) else (ua//ub if op=='udiv' else ua%ub)
        if op=='select':
            c=V(0)
            c=c if isinstance(c,bool) else sb(c)
            if c is True: return V(1)
            if c is False: return V(2)
            try: return merge(c,V(1),V(2))
            except Unsupported:
                if self.proves(st,c): return V(1)
                if self.proves(st,not_(c)): return V(2)
                raise
        if op=='sitofp':
            a=V(0); return Fraction(a) if conc(a) else z3.ToReal(I(a))
        if op=='uitofp':
            a=V(0); return Fraction(a) if conc(a) and a>=0 else z3.ToReal(I(a))
        if op=='fptosi':
            a=V(0)
            if conc(a): return int(a)
            a=R(a)
            return z3.If(a>=0,z3.ToInt(a),-z3.ToInt(-a))
        if op in('fpext','fptrunc','freeze','bitcast'): return V(0)
        if op=='extractvalue':
            a=V(0)
            if isinstance(a,tuple): 
                for k in i.x: a=a[k]
                return a
            raise Unsupported('extractvalue')
        if op=='insertvalue':
            a=V(0); a=list(a) if isinstance(a,tuple) else [UNDEF]*8
            a[i.x[0]]=V(1); return Agg(a)
        if op=='ptrtoint': return ('pti',V(0))
        raise Unsupported('instruction '+op)
    def ptrdiff(self,a,b):
        if isinstance(a,EPtr) and isinstance(b,EPtr) and a.kind=='str' and sameloc(a.cont,b.cont): return sub(a.idx,b.idx)
        if isinstance(a,APtr) and isinstance(b,APtr) and eq(a.base,b.base) is True: return sub(a.index(1),b.index(1))
        raise Unsupported('pointer difference')
    def gep(self,p,off,ts):
        if isinstance(p,Ptr):
            if isinstance(p.base,int) and p.base==0 and not ts: return Ptr(0,add(p.off,off)) if off else p
            o=add(p.off,off)
            for x,s in ts: o=add(o,mul(x,s))
            return Ptr(p.base,o,p.src if (off==0 and not ts) else (('gep',p.src,o) if p.src and not ts else None))
        if isinstance(p,EPtr):
            if p.kind=='str':
                x=add(p.idx,off)
                for t,s in ts: x=add(x,mul(t,s))
                return EPtr('str',p.cont,x,0)
            if ts: raise Unsupported('gep into element')
            return EPtr(p.kind,p.cont,p.idx,p.sub+off) if off else p
        if isinstance(p,APtr): return APtr(p.base,p.c+off,p.terms+tuple(ts))
        raise Unsupported(f'gep {p}')
    def kind(self,ty):
        if ty[0]=='i': return 'i%d'%max(8,ty[1])
        if ty[0]=='f': return 'f64'
        if ty[0]=='ptr': return 'ptr'
        raise Unsupported('type %s'%(ty,))
    def tocanon(self,v,ty):
        if ty[0]=='i' and ty[1]==1: return self.tobool(v)
        return v
    def tobool(self,a):
        if isinstance(a,bool): return a
        if conc(a): return bool(a&1)
        if z3.is_bool(a): return a
        if z3.is_app(a) and a.decl().kind()==z3.Z3_OP_ITE:
            x,y=a.arg(1),a.arg(2)
            if z3.is_int_value(x) and z3.is_int_value(y):
                if x.as_long()==1 and y.as_long()==0: return a.arg(0)
                if x.as_long()==0 and y.as_long()==1: return not_(a.arg(0))
            X=self.tobool(_pv(x)); Y=self.tobool(_pv(y))
            return ite(a.arg(0),X,Y)
        return a!=0
    def wrap(self,a,w):
        if isinstance(a,bool): return int(a)
        if conc(a): return ((a+2**(w-1))%2**w)-2**(w-1)
        if isinstance(a,tuple): return a
        h=2**(w-1)
        return z3.If(z3.And(a>=-h,a<h),a,((a+h)%(2*h))-h)
    def bitop(self,op,a,b,i):
        isb=lambda x: isinstance(x,bool) or (isz(x) and z3.is_bool(x))
        if isb(a) or isb(b):
            if isz(a) and not z3.is_bool(a): a=self.tobool(a)
            if isz(b) and not z3.is_bool(b): b=self.tobool(b)
            if op=='and': return and_(a,b)
            if op=='or': return or_(a,b)
            if isinstance(a,bool): return not_(b) if a else b
            if isinstance(b,bool): return not_(a) if b else a
            return z3.Xor(a,b)
        if conc(a) and conc(b): return {'and':a&b,'or':a|b,'xor':a^b}[op]
        if conc(a): a,b=b,a
        if op=='and' and conc(b) and b>0 and (b&(b+1))==0: return a%(b+1)
        if op=='xor' and conc(b) and b==-1: return sub(-1,a) if not conc(a) else ~a
        if op=='and' and conc(b) and b<0 and ((-b)&(-b-1))==0: return a-(a%(-b))
        f=self.uf('bit_'+op,z3.IntSort(),z3.IntSort(),z3.IntSort())
        return f(I(a),I(b))
    def icmp(self,i,st,a,b):
        p,ty=i.x
        if isinstance(a,tuple) and a and a[0]=='pti': a=a[1]
        if isinstance(b,tuple) and b and b[0]=='pti': b=b[1]
        if ty[0]=='ptr' or isinstance(a,(Ptr,EPtr,APtr)):
            if isinstance(a,Iter) and isinstance(b,Iter): e=self.iter_eq(st,a,b)
            elif isinstance(a,FnV) or isinstance(b,FnV):
                if isinstance(a,FnV) and isinstance(b,FnV): e=a.name==b.name
                else: e=False
            else: e=veq(a,b)
            if p=='eq': return e
            if p=='ne': return not_(e)
            raise Unsupported('pointer order')
        isb=lambda x: isinstance(x,bool) or (isz(x) and z3.is_bool(x))
        if isb(a) or isb(b):
            if conc(a): a=bool(a)
            if conc(b): b=bool(b)
            e=veq(a if isb(a) else self.tobool(a),b if isb(b) else self.tobool(b))
            if p=='eq': return e
            if p=='ne': return not_(e)
            raise Unsupported('bool order')
        if p in('eq','ne','slt','sle','sgt','sge'):
            return {'eq':eq,'ne':ne,'slt':lt,'sle':le,'sgt':gt,'sge':ge}[p](a,b)
        w=ty[1]
        def U(x):
            if conc(x): return x%2**w
            return z3.If(x<0,x+2**w,x)
        # common case: both non-negative
        if conc(b) and b>=0 and isz(a):
            c={'ugt':or_(lt(a,0),gt(a,b)),'uge':or_(lt(a,0),ge(a,b)),'ult':and_(le(0,a),lt(a,b)),'ule':and_(le(0,a),le(a,b))}[p]
            return c
        return {'ugt':gt,'uge':ge,'ult':lt,'ule':le}[p](U(a),U(b))
    def iter_eq(self,st,a,b):
        if not sameloc(a.cont,b.cont):
            e=and_(eq(a.cont.base,b.cont.base),eq(a.cont.off,b.cont.off))
            if self.proves(st,e): pass
            else: raise Unsupported('iterators of different containers')
        if a.idx==END if isinstance(a.idx,str) else False:
            if isinstance(b.idx,str): return True
            a,b=b,a
        if isinstance(b.idx,str):
            s=self.mread(st,b.kind,b.cont.off,b.cont.base)
            return eq(a.idx,s.len)
        return eq(a.idx,b.idx)
    # ---------------------------------------------------------------- calls
    def call(self,fn,i,st,env):
        c=i.x['callee']
        args=[self.val(o,env) if o[0]!='md' else None for o in i.ops]
        if c[0]=='fn': name=c[1]
        else:
            name=self.resolve(st,self.val(c,env),args,i)
        return self.callname(name,args,st,i,env.get('depth',0))
    def callname(self,name,args,st,i,depth):
        import models
        dem=self.mod.dem.get(name,name)
        r=self.spec.call(self,st,dem,args,i)
        if r is not None:
            self.contracts.add(dem); return r
        r=models.model(self,st,name,dem,args,i)
        if r is not None: return r
        if self.mod.fns.get(name) is None or self.mod.fn(name) is None: raise Unsupported('external '+dem)
        if dem.split('(')[0].find('std::')>=0 and not re.match(r'([\w ]+[ &]+)?std::(abs|min|max)|.*\bstd::(swap|move)<[^()]*>\(',dem): raise Unsupported('std function '+dem)
        self.inlined.add(dem)
        n0=len(st.pc)
        return self.joinrets(self.run_fn(name,args,st,depth+1),n0)
    def joinrets(self,rets,n0):
        """return states of a callee that differ only in their path condition are joined into one"""
        if len(rets)<2: return rets
        groups=[]
        for s,r in rets:
            for g in groups:
                t=g[0][0]
                if t.log is s.log and t.dead==s.dead and len(t.mem)==len(s.mem) and all(s.mem.get(k) is v for k,v in t.mem.items()) and t.ghost==s.ghost and len(t.pc)>=n0 and len(s.pc)>=n0 and all(a is b for a,b in zip(t.pc[:n0],s.pc[:n0])):
                    g.append((s,r)); break
            else: groups.append([(s,r)])
        out=[]
        for g in groups:
            if len(g)==1: out.append(g[0]); continue
            conds=[and_(*s.pc[n0:]) for s,_ in g]
            if any(isinstance(c,bool) for c in conds) or any(self.hasq(c) for c in conds): out+=g; continue
            try:
                r=g[-1][1]
                for (s,v),c in list(zip(g,conds))[:-1][::-1]:
                    if r is None and v is None: continue
                    r=merge(c,v,r)
            except Unsupported: out+=g; continue
            t=g[0][0]; t.pc=t.pc[:n0]; t.assume(z3.Or(*conds)); out.append((t,r))
        return out
    def resolve(self,st,v,args,i):
        if isinstance(v,FnV): return v.name
        # virtual call: v loaded from (vtable + 8*slot)
        if isinstance(v,Ptr) and v.src and isinstance(v.src[0],int) and v.src[0] in self.gnames:
            n=self.gnames[v.src[0]]
            raise Unsupported('vtable const '+n)
        if isinstance(v,Ptr) and v.src:
            sb_,so=v.src
            slot=so//8 if isinstance(so,int) else None
            r=self.spec.virtual(self,st,args[0],slot,i) if hasattr(self.spec,'virtual') else None
            if r is not None: return r
        raise Unsupported('indirect call')
    # ---------------------------------------------------------------- loops
    def concrete_loop(self,fn,lp,prev,st,env):
        """is the next exit decision of the loop concretely decided?"""
        key=(fn.name,lp.header,env['depth'])
        self.quiet+=1
        try:
            s=st.clone(); b=lp.header; pv=prev; e=env
            for _ in range(6):
                ip,e=self.phis(fn,b,pv,e)
                blk=fn.blocks[b]; nxt=None
                while True:
                    i=blk[ip]
                    if i.op=='br':
                        if not i.ops: nxt=i.x[0]; break
                        c=self.val(i.ops[0],e); c=c if isinstance(c,bool) else sb(c)
                        if isinstance(c,bool):
                            t=i.x[0] if c else i.x[1]
                            if any(x not in lp.blocks for x in i.x):
                                n=st.unroll.get(key,0)
                                if n>400: raise Unsupported('unroll limit')
                                st.unroll[key]=n+1
                                return True
                            nxt=t; break
                        return False
                    if i.op in('ret','unreachable','switch'): return False
                    if i.op=='call':
                        r=self.call(fn,i,s,e)
                        if len(r)!=1: return False
                        s=r[0][0]; e[i.id]=r[0][1]
                    else: e[i.id]=self.step(fn,i,s,e)
                    ip+=1
                if nxt not in lp.blocks or nxt==lp.header: return False
                pv=b; b=nxt
            return False
        except (PathEnd,Infeasible): return False
        finally: self.quiet-=1
    def symlike(self,name,v,st):
        """fresh symbolic value of the same shape"""
        if isinstance(v,bool) or (isz(v) and z3.is_bool(v)): return self.fresh(name,'Bool')
        if isinstance(v,Fraction) or (isz(v) and z3.is_real(v)): return self.fresh(name,'Real')
        if isinstance(v,int) or isz(v): return self.fresh(name,'Int')
        if isinstance(v,Iter):
            return Iter(v.kind,v.cont,self.fresh(name,'Int'))
        if isinstance(v,Ptr): return Ptr(self.fresh('any!'+name,'Int'),0 if isinstance(v.off,int) and v.off==0 else self.fresh(name+'o','Int'))
        if isinstance(v,APtr): return APtr(self.fresh('any!'+name,'Int'),v.c)
        if isinstance(v,EPtr): return EPtr(v.kind,v.cont,self.fresh(name,'Int'),v.sub)
        if isinstance(v,Str):
            self.cnt+=1
            s=self.symstr(st,f'hs{self.cnt}',tuple(self.loopctx)); return s
        if isinstance(v,Seq):
            self.cnt+=1
            return self.symseq(st,f'hq{self.cnt}',tuple(self.loopctx))
        if v is UNDEF or v is None: return UNDEF
        raise Unsupported('havoc of '+type(v).__name__)
    def loop(self,fn,lp,prev,st0,env0):
        H=lp.header; blk=fn.blocks[H]
        phis=[i for i in blk if i.op=='phi']; nphi=len(phis)
        ent={}
        for i in phis:
            for pb,o in i.x:
                if pb==prev: ent[('phi',i.id)]=self.val(o,env0)
        N=self.fresh('n')
        id0=self.next_id
        self.loopctx.append(N)
        try:
            return self._loop(fn,lp,prev,st0,env0,ent,phis,nphi,N,id0)
        except Unswitch as u: c=u.c
        finally:
            if self.loopctx and self.loopctx[-1] is N: self.loopctx.pop()
        # a condition that no iteration changes: treat the loop separately for both of its values
        out={'rets':[],'latches':[],'exits':[]}
        for x,b in ((c,True),(z3.Not(c),False)):
            if not self.feasible(st0,x): continue
            s=st0.clone().assume(x); s.unsw=st0.unsw+((c,z3.BoolVal(b)),)
            r=self.loop(fn,lp,prev,s,dict(env0))
            for k in out: out[k]+=r[k]
        return out
    def _loop(self,fn,lp,prev,st0,env0,ent,phis,nphi,N,id0):
        H=lp.header
        items=dict(ent)                       # item -> initial value
        items[('log',)]=st0.log
        for g in st0.ghost:
            if isinstance(g,tuple) and g[0]=='track': items[('ghost',g)]=st0.ghost[g]
        whole=set()
        symcache={}; nolast=set()
        form={}                               # item -> ('havoc',)|('lin',c)|('push',f,m)|('same',)|...
        def build(forms,n_items):
            s=st0.clone(); s.assume(N>=0)
            e=dict(env0); sym={}
            for k in whole: self.havoc_key(s,*k)
            for it,v0 in n_items.items():
                f=forms.get(it,('havoc',))
                if f[0]=='same': v=v0
                elif f[0]=='lin':
                    v=self.addto(v0,mul(f[1],N))
                elif f[0]=='push': v=SeqCat(v0,SeqMap(N,f[1],f[2])) 
                elif f[0]=='scat': v=scat(v0,f[1](N))
                elif f[0]=='last' and it not in nolast:
                    try: v=merge(eq(N,0),v0,f[1](sub(N,1)))
                    except Unsupported: v=self.symlike('h',v0,s); symcache[it]=(v,[]); nolast.add(it)    # e.g. an uninitialised iterator variable
                elif f[0] in('upd','supd'): v=f[1](N)
                elif it in symcache:
                    v,ass=symcache[it]; s.pc+=ass
                else:
                    n0=len(s.pc); v=self.symlike('h',v0,s); symcache[it]=(v,s.pc[n0:])
                sym[it]=v
                if it[0]=='phi': e[it[1]]=v
                elif it[0]=='log': s.log=v
                elif it[0]=='ghost': s.ghost[it[1]]=v
                elif it[0]=='mem': s.mem[it[1]]=('w',it[2],v,s.mem.get(it[1])); 
            return s,e,sym
        def run(s,e):
            return self.region(fn,s,e,H,'mid',stop=H,blocks=lp.blocks,ip0=nphi) if nphi else self.region0(fn,s,e,H,lp)
        def latchval(it,ls,le,lprev):
            if it[0]=='phi':
                for i in phis:
                    if i.id==it[1]:
                        for pb,o in i.x:
                            if pb==lprev: return self.val(o,le)
            if it[0]=='log': return ls.log
            if it[0]=='ghost': return ls.ghost[it[1]]
            if it[0]=='mem': return self.mread(ls,it[1][0],it[1][1],it[2])
        self.quiet+=1; inv=None
        try:
            # ---- phase A: discover modified places
            for rnd in range(12):
                s,e,sym=build({},items)
                heads={k:s.mem.get(k) for k in s.mem}
                npc=len(s.pc)
                r=run(s.clone(),e)
                new=False
                for ls,le,lprev in r['latches']:
                    for k,node in ls.mem.items():
                        h=heads.get(k)
                        while node is not None and node is not h:
                            tag,b,v,pv=node
                            if tag in'hf':
                                if k not in whole: whole.add(k); new=True
                                break
                            if isinstance(b,int) and b<id0 and b>-1000000: node=pv; continue    # object created inside the body
                            it=('mem',k,b if isinstance(b,int) else b)
                            if k in whole: node=pv; continue
                            if isz(b) and any(n.endswith('') and self.loopdep(b,N) for n in ['']):
                                whole.add(k); new=True; node=pv; continue
                            if not any(x[0]=='mem' and x[1]==k and (x[2]==b if isinstance(x[2],int) and isinstance(b,int) else (isz(x[2]) and isz(b) and x[2].eq(b))) for x in items):
                                init=self.mread(st0,k[0],k[1],b)
                                items[('mem',k,_H(b))]=init; new=True
                            node=pv
                for it in [x for x in items if x[0]=='mem' and x[1] in whole]: del items[it]
                if not new: break
            else: raise Unsupported('loop frame')
            latches=r['latches']
            for ls,le,lprev in latches:      # ghost values that are not tracked through loops must not change in one
                for g in set(ls.ghost)|set(st0.ghost):
                    if isinstance(g,tuple) and g[0] in('track','size','arrbytes','zeroed','fmt') or g=='freed': continue
                    a,b=ls.ghost.get(g),st0.ghost.get(g)
                    if a is b or (type(a) is type(b) and not isz(a) and isinstance(a,(int,tuple,str,bool)) and not any(isz(x) for x in (a if isinstance(a,tuple) else ())) and a==b): continue
                    if hasattr(self.spec,'ghost_ok') and self.spec.ghost_ok(self,g,b,a,st0,N): continue
                    raise Unsupported('ghost %s changes in a loop'%(g,))
            inv=self.spec.loop_inv(self,fn,lp,st0,items) if hasattr(self.spec,'loop_inv') and not whole else self.spec.heap_inv(self,fn,lp,st0,items,whole) if hasattr(self.spec,'heap_inv') and whole else None
            if inv is not None: raise _Inv()
            # ---- classify
            form={}
            for it,v0 in items.items():
                vals=[(and_(*ls.pc[npc:]),latchval(it,ls,le,lp_)) for ls,le,lp_ in latches]
                form[it]=self.classify(it,v0,sym[it],vals,N)
                if os.environ.get('VTRACE') and form[it][0]=='havoc': print('HAVOC',it,v0,sym[it],[v for _,v in vals])
            for it,f in form.items():
                if f[0]=='lin' and isz(f[1]) and st0.unsw: form[it]=('lin',_simp(subst(f[1],list(st0.unsw))))
            if len(st0.unsw)<4:
                for it,f in form.items():
                    if f[0]=='lin' and isz(f[1]):
                        c=_itecond(f[1])
                        if c is not None and not self.loopdep(c,N):
                            t,f_=self.feasible(st0,c),self.feasible(st0,z3.Not(c))
                            if t and f_: raise Unswitch(c)
                            form[it]=('lin',_simp(subst(f[1],[(c,z3.BoolVal(t))])))
            if len(latches)>1 and len(st0.unsw)<4 and any(form[it][0]=='havoc' and not isinstance(items[it],(Ptr,bool)) for it in form):
                for ls,_,_ in latches:
                    for c in ls.pc[npc:]:
                        while z3.is_not(c): c=c.arg(0)
                        if z3.is_quantifier(c) or self.hasq(c) or self.loopdep(c,N) or z3.is_and(c): continue
                        if self.feasible(st0,c) and self.feasible(st0,z3.Not(c)):
                            oc=[self.feasible(l2,c) for l2,_,_ in latches]; on=[self.feasible(l2,z3.Not(c)) for l2,_,_ in latches]
                            if not all(oc) and not all(on): raise Unswitch(c)
            # closed forms may only depend on linear/same items
            symnames={}
            for it,v in sym.items():
                if form[it][0] in('havoc',): 
                    pass
            lin_sub=list(st0.unsw)
            for it,v in sym.items():
                f=form[it]
                if f[0] in('same','lin'):
                    a=self.scal(v); b0=self.scal(items[it] if f[0]=='same' else self.addto(items[it],mul(f[1],N)))
                    if a is not None and b0 is not None:
                        for x,y in zip(a,b0):
                            if isz(x): lin_sub.append((x,R(y) if z3.is_real(x) else (B(y) if z3.is_bool(x) else I(y))))
                elif f[0]=='scat?' and isz(v.len): lin_sub.append((v.len,I(add(items[it].len,N))))
                elif f[0]=='push?' and isz(v.len): lin_sub.append((v.len,I(add(items[it].len,mul(len(f[1]),N)))))
            for it in list(form):
                f=form[it]
                if f[0]=='push?':
                    els=[subst(x,lin_sub) for x in f[1]]
                    form[it]=('push',(lambda j,els=els: [subst(x,[(N,I(j))]) for x in els]),len(els))
                elif f[0]=='scat?':
                    ch=subst(f[1],lin_sub); uid=self.new_id()
                    form[it]=('scat',(lambda n,ch=ch,uid=uid: SOpq('loopchars',(uid,n,subst(ch,[(N,z3.IntVal(0))])),n,lambda k: subst(ch,[(N,I(k))]))),ch)
                elif f[0]=='supd?':
                    form[it]=self.supdform(items[it],sym[it],f[1],f[2],lin_sub,N)
                elif f[0]=='last?':
                    g=subst(f[1],lin_sub)
                    form[it]=('last',(lambda j,g=g: subst(g,[(N,I(j))])))
                elif f[0]=='upd?':
                    form[it]=self.updform(items[it],sym[it],f[1],lin_sub,N)
            # ---- phase B: verify inductive step of the closed forms
            for rnd in range(len(items)+3):
                s,e,sym=build(form,items)
                npc=len(s.pc)
                r=run(s.clone(),e)
                bad=[]
                for ls,le,lprev in r['latches']:
                    for it,v0 in items.items():
                        f=form[it]
                        if f[0]=='havoc': continue
                        lv=latchval(it,ls,le,lprev)
                        ok=self.stepok(ls,it,f,v0,lv,sym[it],N)
                        if not ok: bad.append(it)
                if not bad: break
                if os.environ.get('VTRACE'): print('BAD',[(str(it),form[it]) for it in bad])
                for it in set(bad): form[it]=('havoc',)
            else: raise Unsupported('loop closed forms')
            # ---- facts about earlier iterations
            facts=[]; cands=[]
            D=[]
            for ls,le,lprev in r['latches']:
                at=[c for c in ls.pc[npc:]]
                # recurrences of havoced scalars
                for it in items:
                    if form[it][0]=='havoc':
                        a=self.scal(sym[it]); lv=latchval(it,ls,le,lprev)
                        try: b=self.scal(lv)
                        except Unsupported: b=None
                        if a and b and len(a)==len(b):
                            for x,y in zip(a,b):
                                nx=subst(x,[(N,N+1)])
                                if isz(x): at.append(B(veq(nx,y)))
                D.append(at)
            keep=[[c for c in at] for at in D]
            if D:
                Dn=z3.Or(*[z3.And(*at) if at else z3.BoolVal(True) for at in keep])
                Dn=z3.simplify(Dn)
                if not z3.is_true(Dn):
                    j=freshint('j')
                    facts.append(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<N),z3.substitute(Dn,(N,j)))))
                    self.loopfacts[facts[-1].get_id()]=(facts[-1],N,Dn)
                    facts.append(z3.Implies(N>=1,z3.substitute(Dn,(N,N-1))))
                    for off in _offsets(Dn,N):      # the same fact with the position itself as bound variable (matches other uses of the text or sequence)
                        m=freshint('m'); facts.append(z3.ForAll([m],z3.Implies(z3.And(off<=m,m<off+N),z3.simplify(z3.substitute(Dn,(N,m-off))))))
            else:
                facts.append(N==0)
            for it in items:
                if form[it][0]=='havoc':
                    a=self.scal(sym[it]); 
                    try: b=self.scal(items[it])
                    except Unsupported: b=None
                    if a and b and len(a)==len(b):
                        for x,y in zip(a,b):
                            if isz(x): facts.append(B(veq(subst(x,[(N,z3.IntVal(0))]),y)))
            # ---- candidate bounds from guard atoms
            cand=[]
            for at in D:
                for c in at: cand+=self.boundcands(c,N)
            # intervals for havoced integers are left to the specification
            given=self.spec.loop_candidates(self,fn,lp,s,sym,items,N) if hasattr(self.spec,'loop_candidates') else []
            cand+=given
            uniq=[];seen=set()
            for c in cand:
                h=c.sexpr()
                if h not in seen: seen.add(h); uniq.append(c)
            cand=uniq
            good=[]
            b0=st0.clone()
            for c in facts:
                if not self.loopdep(c,N): b0.assume(c)
            for c in cand:
                if self.proves(b0,z3.substitute(c,(N,z3.IntVal(0)))): good.append(c)
            while good:
                s2,e2,sym2=s.clone(),e,sym
                for c in good: s2.assume(c)
                for c in facts: s2.assume(c)
                r2=run(s2,e2)
                bad=[]
                for ls,le,lprev in r2['latches']:
                    for c in good:
                        # N+1 instance; havoced symbols at N+1 are linked by recurrences
                        nx=z3.substitute(c,(N,N+1))
                        ls2=ls
                        extra=[]
                        for it in items:
                            if form[it][0]=='havoc':
                                a=self.scal(sym[it]); lv=latchval(it,ls,le,lprev)
                                try: b=self.scal(lv)
                                except Unsupported: b=None
                                if a and b and len(a)==len(b):
                                    for x,y in zip(a,b):
                                        if isz(x): extra.append(B(veq(subst(x,[(N,N+1)]),y)))
                        if extra:
                            ls2=ls.clone()
                            for x in extra: ls2.assume(x)
                        if not self.proves(ls2,nx): bad.append(c)
                if not bad: break
                good=[c for c in good if not any(c is b for b in bad)]
            for c in good:
                s.assume(c)
                if any(c is g for g in given):      # a candidate of the specification that is inductive held in every earlier iteration too
                    j=freshint('j'); s.assume(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<=N),z3.substitute(c,(N,j)))))
            for c in facts: s.assume(c)
        except _Inv: pass
        finally:
            self.quiet-=1
        if inv is not None: return self.invloop(fn,lp,st0,env0,items,inv,run,latchval,whole)
        self.uses.add('loop-invariants')
        hv=[str(k) for k,f in form.items() if f[0]=='havoc' and not(hasattr(self.spec,'havoc_ok') and self.spec.havoc_ok(k))]      # havoc_ok: a callee's contract leaves the value open
        if hv and not self.quiet: self.taint.append('%s: loop at line %s: no closed form for %s'%(fn.dem,fn.blocks[H][-1].line,', '.join(hv)[:200]))
        self.loopstat(fn,lp,form,facts,good)
        # leaving the loop context: N stays as a plain constant
        # ---- phase C: the real run with obligations on
        r=run(s,e)
        return r
    def invloop(self,fn,lp,st0,env0,items,inv,run,latchval,whole=()):
        """loop with a declared invariant: every changed place is a function of ghost values g (inv.form) subject to
        inv.cond(g); the entry state and every back edge must re-establish it for the ghost values inv.witness gives"""
        def check(what,st,get):
            g=inv.witness(get)
            for nm,c in inv.cond(g): self.oblig('loop invariant (%s): %s'%(what,nm),st,c)
            for it in items:
                want=inv.form(it,items[it],g)
                if want is None: continue
                v=get(it)
                if isinstance(v,Seq):
                    f=True
                    for ek,es in self.spec.p.elemkinds(v,want): f=and_(f,self.spec.p.seqeq(v,want,ek,es))
                else: f=seq_str(v,want) if isinstance(v,Str) else veq(v,want)
                self.oblig('loop invariant (%s): value of %s'%(what,inv.name(it)),st,f)
            for k in whole:
                b=self.fresh('any'); q=st.clone(); q.assume(b>0); w=inv.wform(k,g)
                self.oblig('loop invariant (%s): value of a field of every object'%what,q,veq(self.mread(q,k[0],k[1],b),w(b,self.mread(st0,k[0],k[1],b))))
        check('entry',st0,lambda it: items[it])
        g=inv.ghosts(self)
        s=st0.clone(); e=dict(env0)
        for it,v0 in items.items():
            v=inv.form(it,v0,g)
            if v is None: v=self.symlike('h',v0,s)
            if it[0]=='phi': e[it[1]]=v
            elif it[0]=='log': s.log=v
            elif it[0]=='ghost': s.ghost[it[1]]=v
            elif it[0]=='mem': s.mem[it[1]]=('w',it[2],v,s.mem.get(it[1]))
        for k in whole: s.mem[k]=('f',None,inv.wform(k,g),s.mem.get(k))
        for nm,c in inv.cond(g): s.assume(c)
        self.uses.add('declared loop invariant')
        r=run(s,e)
        for ls,le,lprev in r['latches']: check('preserved',ls,lambda it: latchval(it,ls,le,lprev))
        return r
    def region0(self,fn,s,e,H,lp):
        """loop header without phis: run its body starting inside the header block"""
        return self.region(fn,s,e,H,'mid',stop=H,blocks=lp.blocks,ip0=-1)
    def loopstat(self,fn,lp,form,facts,good):
        if getattr(self,'trace',False) and not self.quiet:
            print('  loop',fn.dem,lp.header,{str(k)[:60]:(v[0],v[1] if v[0]=='lin' else '') for k,v in form.items()},'facts',facts,'bounds',good)
    def loopdep(self,b,N):
        """does base term b depend on the iteration (symbols created inside this loop)?"""
        st=[b]
        while st:
            x=st.pop()
            if x.eq(N): return True
            if z3.is_app(x): st+=x.children()
        return False
    def scal(self,v):
        """scalar components of a value"""
        if isinstance(v,(bool,int,Fraction)) or isz(v): return [v]
        if isinstance(v,Iter): return [v.idx] if not isinstance(v.idx,str) else None
        if isinstance(v,Ptr): return [v.base] if isinstance(v.off,int) else [v.base,v.off]
        if isinstance(v,EPtr): return [v.idx]
        return None
    def addto(self,v,d):
        if isinstance(v,Iter): return Iter(v.kind,v.cont,add(v.idx,d))
        if isinstance(v,EPtr): return EPtr(v.kind,v.cont,add(v.idx,d),v.sub)
        if isinstance(v,Fraction) or (isz(v) and z3.is_real(v)): return R(v)+z3.ToReal(I(d)) if isz(d) else v+d
        f=self.spec.addto(v,d) if hasattr(self.spec,'addto') else None
        if f is not None: return f
        return add(v,d)
    def diff(self,a,b):
        """a-b when it is an iteration-independent integer"""
        if isinstance(a,Iter) and isinstance(b,Iter):
            if isinstance(a.idx,str) or isinstance(b.idx,str): return None
            a,b=a.idx,b.idx
        if isinstance(a,EPtr) and isinstance(b,EPtr): a,b=a.idx,b.idx
        f=self.spec.diff(a,b) if hasattr(self.spec,'diff') else None
        if f is not None: return f
        if isinstance(a,bool) or isinstance(b,bool): return None
        if (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)): return None
        if (isinstance(a,int) or (isz(a) and z3.is_int(a))) and (isinstance(b,int) or (isz(b) and z3.is_int(b))):
            if isz(a) and isz(b) and z3.is_app(a) and a.decl().kind()==z3.Z3_OP_ITE:
                x,y=self.diff(_pv(a.arg(1)),b),self.diff(_pv(a.arg(2)),b)
                return ite(a.arg(0),x,y)
            d=sub(a,b)
            return d
        return None
    def classify(self,it,v0,sv,vals,N):
        if not vals: return ('same',)
        if sv is UNDEF:
            vs=[v for _,v in vals]
            if all(v is UNDEF for v in vs): return ('same',)
            return self.lastform(vals,N,sv)
        same=True
        for c,v in vals:
            if v is sv: continue
            a,b=self.scal(v) if not isinstance(v,(Str,Seq)) else None,self.scal(sv) if not isinstance(sv,(Str,Seq)) else None
            if a is not None and b is not None and len(a)==len(b) and all((x is y) or (isz(x) and isz(y) and x.eq(y)) or (conc(x) and conc(y) and x==y) for x,y in zip(a,b)): continue
            if isinstance(v,SSym) and isinstance(sv,SSym) and v.key==sv.key: continue
            if isinstance(v,SeqBase) and isinstance(sv,SeqBase) and v.key==sv.key: continue
            same=False
        if same: return ('same',)
        # equals initial value on every latch path (flags)
        try:
            if not isinstance(v0,(Seq,)) and all(self._structeq(v,v0) for _,v in vals): return ('same',)
        except Unsupported: pass
        ds=[self.diff(v,sv) if not isinstance(v,(Str,Seq)) else None for _,v in vals]
        if all(d is not None for d in ds) and not isinstance(v0,str):
            d0=ds[0]
            if all(eq(d,d0) is True for d in ds) and not (isinstance(v0,Iter) and isinstance(v0.idx,str)):
                if isinstance(d0,int) or not self.loopdep(d0,N): return ('lin',d0)
        if isinstance(sv,Seq):
            chains=[]
            for c,v in vals:
                ch=[]; x=v; kind=None
                while True:
                    if isinstance(x,SeqPush): ch.append(('p',x.v)); x=x.p
                    elif isinstance(x,SeqUpd): ch.append(('u',x.i,x.v,x.kind,x.sub)); x=x.p
                    else: break
                if not(x is sv or (isinstance(x,SeqBase) and isinstance(sv,SeqBase) and x.key==sv.key)): return ('havoc',)
                chains.append((c,ch[::-1]))
            if os.environ.get('VTRACE') and it[0]=='log': print('LOG',[(str(c)[:200],ch) for c,ch in chains])
            if all(len(ch)==len(chains[0][1]) and all(q[0]=='p' for q in ch) for _,ch in chains):
                m=len(chains[0][1])
                if m:
                    try:
                        els=[]
                        for q in range(m):
                            r=chains[-1][1][q][1]
                            for c,ch in reversed(chains[:-1]): r=merge(c,ch[q][1],r)
                            els.append(r)
                        return ('push?',els)
                    except Unsupported as x:
                        if os.environ.get('VTRACE'): print('push',it,x,els)
                        return ('havoc',)
            if all(len(ch)==len(chains[0][1]) and ch and all(q[0]=='u' for q in ch) for _,ch in chains) and len(chains)==1:
                return ('upd?',chains[0][1])
            return ('havoc',)
        if isinstance(sv,Str):
            chs=[]
            for c,v in vals:
                ps=pieces(v)
                if len(ps)==2 and ps[0] is sv and isinstance(ps[1].len,int) and ps[1].len==1: chs.append((c,ps[1].at(0)))
                else: break
            else:
                r=chs[-1][1]
                for c,v in reversed(chs[:-1]): r=ite(c,v,r)
                return ('scat?',r)
            up=[v for _,v in vals if isinstance(v,SUpd) and v.p is sv]
            if up and all(v is sv or (isinstance(v,SUpd) and v.p is sv and eq(v.i,up[0].i) is True) for _,v in vals):
                i=up[0].i; ch=[(c,v.ch if v is not sv else sv.at(i)) for c,v in vals]; r=ch[-1][1]
                for c,v in reversed(ch[:-1]): r=ite(c,v,r)
                return ('supd?',i,r)
        return self.lastform(vals,N,sv)
    def lastform(self,vals,N,sv):
        try:
            r=vals[-1][1]
            if r is UNDEF: return ('havoc',)
            for c,v in reversed(vals[:-1]):
                if v is UNDEF: return ('havoc',)
                r=merge(c,v,r)
            # must not depend on itself
            own=set(x.get_id() for x in vterms(sv))
            for t in vterms(r):
                st=[t];seen=set()
                while st:
                    x=st.pop()
                    if x.get_id() in seen: continue
                    seen.add(x.get_id())
                    if x.get_id() in own: return ('havoc',)
                    if z3.is_app(x): st+=x.children()
            return ('last?',r)
        except Unsupported: return ('havoc',)
    def _structeq(self,a,b):
        if a is b: return True
        if isinstance(a,Str) and isinstance(b,Str):
            pa,pb=pieces(a),pieces(b)
            return len(pa)==len(pb) and all(values._piece_eq(x,y) is True for x,y in zip(pa,pb))
        if type(a)!=type(b) and not(conc(a) and conc(b)) : return False
        if isinstance(a,Seq): return False
        return veq(a,b) is True
    def supdform(self,v0,sv,i,ch,lin_sub,N):
        """loop writes text[i(N)] := ch, i advancing by one; ch may read the old text.  Candidate closed form, checked by stepok."""
        d=sv.at(freshint('d'))
        if not isz(d) or not z3.is_app(d) or d.decl().kind()!=z3.Z3_OP_UNINTERPRETED: return ('havoc',)
        i=I(subst(I(i),lin_sub)); c=_pv(z3.simplify(z3.substitute(i,(N,N+1))-i)); i0=_pv(z3.simplify(z3.substitute(i,(N,z3.IntVal(0)))))
        if c!=1: return ('havoc',)
        def old(x):
            if not z3.is_app(x): raise Unsupported('quantifier in update')
            if isz(sv.len) and x.eq(sv.len): return I(v0.len)
            a=[old(y) for y in x.children()]
            if x.decl().eq(d.decl()): return I(v0.at(_pv(z3.simplify(a[-1]))))
            return x.decl()(*a) if a else x
        try: r=old(I(subst(I(ch),lin_sub)))
        except Unsupported: return ('havoc',)
        uid=self.new_id()
        return ('supd',lambda n: SOpq('loopupd',(uid,n,subst(r,[(N,z3.IntVal(0))])),v0.len,lambda k: ite(and_(le(i0,k),lt(k,add(i0,n))),subst(r,[(N,I(sub(k,i0)))]),v0.at(k))))
    def updform(self,v0,sv,ups,lin_sub,N):
        """loop writes seq[i_q(N)] := val_q with i_q(N)=i0_q+c*N; val_q may read the old sequence.
        Candidate closed form after n iterations (checked inductively by stepok): element k is val_q at iteration
        (k-i0_q)/c when that is one of the first n iterations, otherwise the initial element."""
        if not isinstance(sv,SeqBase): return ('havoc',)
        nm=sv.key[0]
        def old(e):
            """reads of the sequence at the head of the iteration become reads of the initial sequence"""
            memo={}
            def go(x):
                r=memo.get(x.get_id())
                if r is not None: return r
                if not z3.is_app(x): raise Unsupported('quantifier in update')
                ch=[go(c) for c in x.children()]
                d=x.decl()
                if d.kind()==z3.Z3_OP_UNINTERPRETED and d.name().startswith(nm+'_'):
                    t=d.name()[len(nm)+1:]
                    if t=='len': r=I(v0.len)
                    else:
                        k,_,q=t.rpartition('_')
                        y=v0.at(_pv(z3.simplify(ch[-1])),k,int(q))
                        if isinstance(y,(Ptr,)): y=y.base
                        r=R(y) if z3.is_real(x) else I(y)
                else: r=d(*ch) if ch else x
                memo[x.get_id()]=r
                return r
            return go(e)
        out=[]; cc=None
        for (_,i,v,kind,sb_) in ups:
            i=I(subst(I(i),lin_sub))
            i0=_pv(z3.simplify(z3.substitute(i,(N,z3.IntVal(0)))))
            c=_pv(z3.simplify(z3.substitute(i,(N,N+1))-i))
            if not isinstance(c,int) or c<=0 or isinstance(v,(Str,Seq,Rec,Ptr)) or v is UNDEF:
                if os.environ.get('VTRACE'): print('UPD',i,c,v)
                return ('havoc',)
            if isz(v):
                v=subst(v,lin_sub)
                if isz(v): v=old(v)
            out.append((i0,c,v,kind,sb_))
        def form(n):
            def f(k,kind,sub_):
                r=v0.at(k,kind,sub_)
                for i0,c,v,kd,sb_ in out:
                    if sb_!=sub_ : continue
                    m=sub(k,i0)
                    if c==1: it,hit=m,True
                    else: it=I(m)/c; hit=B(eq(I(m)%c,0))
                    it=_pv(z3.simplify(I(it)))
                    cond=and_(hit if hit is True else values._post(z3.simplify(hit)),le(0,m),lt(it,n))
                    w=subst(v,[(N,I(it))]) if isz(v) else v
                    r=merge(cond,w,r)
                return r
            return SeqPer(v0.len,f)
        return ('upd',form,out)
    def stepok(self,ls,it,f,v0,lv,cur,N):
        """latch value equals the closed form at N+1"""
        try:
            if f[0]=='same':
                if lv is cur: return True
                if isinstance(cur,Seq):
                    return isinstance(lv,SeqBase) and isinstance(cur,SeqBase) and lv.key==cur.key
                if isinstance(cur,Str):
                    return self._structeq(lv,cur) or self.proves(ls,seq_str(lv,cur))
                if cur is UNDEF: return lv is UNDEF
                if isinstance(cur,Iter):
                    if isinstance(cur.idx,str) or isinstance(lv.idx,str): return cur.idx==lv.idx if isinstance(cur.idx,str) and isinstance(lv.idx,str) else False
                    return sameloc(cur.cont,lv.cont) and self.proves(ls,eq(cur.idx,lv.idx))
                return self.proves(ls,veq(lv,cur))
            if f[0]=='lin':
                nx=self.addto(v0,mul(f[1],add(N,1)))
                if isinstance(nx,Iter): return isinstance(lv,Iter) and not isinstance(lv.idx,str) and sameloc(nx.cont,lv.cont) and self.proves(ls,eq(nx.idx,lv.idx))
                return self.proves(ls,veq(lv,nx))
            if f[0]=='last':
                g=f[1](N)
                if isinstance(g,Str): return self._structeq(lv,g) or self.proves(ls,seq_str(lv,g))
                return self.proves(ls,veq(lv,g))
            if f[0]=='upd':
                nx=f[1](add(N,1)); k=freshint('uk')
                if not self.proves(ls,eq(lv.len,nx.len)): return False
                for kd,sb_ in sorted(set((o[3],o[4]) for o in f[2])):
                    if not self.proves(ls,imp(and_(le(0,k),lt(k,lv.len)),veq(lv.at(k,kd,sb_),nx.at(k,kd,sb_))),timeout=8000): return False
                return True
            if f[0]=='supd':
                nx=f[1](add(N,1)); k=freshint('uk');
                return self.proves(ls,and_(eq(lv.len,nx.len),imp(and_(le(0,k),lt(k,lv.len)),eq(lv.at(k),nx.at(k)))),timeout=8000)
            if f[0]=='scat':
                ps=pieces(lv); pc=pieces(cur)
                return len(ps)==len(pc)+1 and all(values._piece_eq(x,y) is True for x,y in zip(ps,pc)) and isinstance(ps[-1].len,int) and ps[-1].len==1 and self.proves(ls,eq(ps[-1].at(0),f[2]))
            if f[0]=='push':
                # lv must be cur extended by m elements equal to f(N)
                ch=[]; x=lv
                while isinstance(x,SeqPush) and x is not cur: ch.append(x.v); x=x.p
                if x is not cur: return False
                ch=ch[::-1]; want=f[1](N)
                if len(ch)!=len(want): return False
                return all(self.elem_eq(ls,a,b) for a,b in zip(ch,want))
        except Unsupported: return False
        return False
    def elem_eq(self,st,a,b):
        if isinstance(a,Ev) and isinstance(b,Ev):
            return a[0]==b[0] and len(a)==len(b) and all(self.elem_eq(st,x,y) for x,y in zip(a[1:],b[1:]))
        if isinstance(a,Rec): return all(self.elem_eq(st,a[k][1],b[k][1]) for k in a)
        if isinstance(a,str) or isinstance(b,str): return a==b
        if isinstance(a,Str): return self._structeq(a,b) or self.proves(st,seq_str(a,b))
        if a is None and b is None: return True
        if isinstance(a,FnV): return isinstance(b,FnV) and a.name==b.name
        return self.proves(st,veq(a,b))
    def boundcands(self,c,N):
        out=[]
        neg=False
        while z3.is_not(c): c=c.arg(0); neg=not neg
        if z3.is_and(c) and not neg:
            for x in c.children(): out+=self.boundcands(x,N)
            return out
        if not z3.is_app(c) or c.num_args()!=2: return out
        a,b=c.arg(0),c.arg(1)
        if not (z3.is_int(a) and z3.is_int(b)): return out
        k=c.decl().kind()
        d=z3.simplify(a-b); dn=z3.simplify(z3.substitute(d,(N,N+1))-d)
        if not z3.is_int_value(dn): return out
        st=dn.as_long()
        if st==0: return out
        if k in(z3.Z3_OP_EQ,) and neg:
            if abs(st)==1: out.append(d<=0 if st>0 else d>=0)
        elif k in(z3.Z3_OP_LE,z3.Z3_OP_LT,z3.Z3_OP_GE,z3.Z3_OP_GT):
            # orient as d < 0  or d <= 0 or reversed
            op={z3.Z3_OP_LE:'le',z3.Z3_OP_LT:'lt',z3.Z3_OP_GE:'ge',z3.Z3_OP_GT:'gt'}[k]
            if neg: op={'le':'gt','lt':'ge','ge':'lt','gt':'le'}[op]
            if op=='lt' and st>0: out.append(d<=st-1)
            if op=='le' and st>0: out.append(d<=st)
            if op=='gt' and st<0: out.append(d>=st+1)
            if op=='ge' and st<0: out.append(d>=st)
        return out

def vloads(fn):
    """loads of function pointers out of a vtable (virtual dispatch)"""
    r=getattr(fn,'vl',None)
    if r is None:
        d={i.id:i for B in fn.blocks for i in B}; r=set()
        for B in fn.blocks:
            for i in B:
                if i.op in('call','invoke') and i.x['callee'][0]=='v':
                    l=d.get(i.x['callee'][1])
                    if l is not None and l.op=='load': r.add(l.id)
        fn.vl=r
    return r
def vtloads(fn):
    """loads of the vtable pointer of an object for a virtual dispatch"""
    r=getattr(fn,'vtl',None)
    if r is None:
        d={i.id:i for B in fn.blocks for i in B}; r=set()
        for x in vloads(fn):
            a=d[x].ops[0]
            if a[0]!='v' or a[1] not in d: continue
            g=d[a[1]]
            if g.op=='gep' and g.ops[0][0]=='v' and g.ops[0][1] in d: g=d[g.ops[0][1]]
            if g.op=='load': r.add(g.id)
        fn.vtl=r
    return r
class _HB:
    pass
def _H(b): return b
def _simp(e): return _pv(z3.simplify(e)) if isz(e) else e
def _itecond(e):
    st=[e]
    while st:
        x=st.pop()
        if z3.is_app(x):
            if x.decl().kind()==z3.Z3_OP_ITE: return x.arg(0)
            st+=x.children()
def _pv(e):
    if z3.is_int_value(e): return e.as_long()
    return e
