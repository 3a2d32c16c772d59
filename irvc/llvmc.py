"""Minimal LLVM-C (ctypes) reader: turns bitcode into plain Python objects, lazily per function."""
import ctypes as C, subprocess
from fractions import Fraction
import glob
L = C.CDLL((glob.glob('/usr/lib/llvm-18/lib/libLLVM*.so*')+glob.glob('/usr/lib/x86_64-linux-gnu/libLLVM*18*'))[0])
P = C.c_void_p
def _f(n, res=P, *a):
    f = getattr(L, n); f.restype = res; f.argtypes = list(a); return f
U = C.c_uint; I = C.c_int; S = C.c_char_p; U64 = C.c_ulonglong; SZ = C.c_size_t
CtxCreate=_f('LLVMContextCreate')
MemBuf=_f('LLVMCreateMemoryBufferWithContentsOfFile',I,S,C.POINTER(P),C.POINTER(S))
ParseBC=_f('LLVMParseBitcodeInContext2',I,P,P,C.POINTER(P))
FirstFn=_f('LLVMGetFirstFunction',P,P); NextFn=_f('LLVMGetNextFunction',P,P)
FirstGl=_f('LLVMGetFirstGlobal',P,P); NextGl=_f('LLVMGetNextGlobal',P,P)
Init=_f('LLVMGetInitializer',P,P); IsConstG=_f('LLVMIsGlobalConstant',I,P)
FirstAl=_f('LLVMGetFirstGlobalAlias',P,P,); NextAl=_f('LLVMGetNextGlobalAlias',P,P); Aliasee=_f('LLVMAliasGetAliasee',P,P)
VName=_f('LLVMGetValueName2',S,P,C.POINTER(SZ))
IsDecl=_f('LLVMIsDeclaration',I,P)
FirstBB=_f('LLVMGetFirstBasicBlock',P,P); NextBB=_f('LLVMGetNextBasicBlock',P,P)
FirstIn=_f('LLVMGetFirstInstruction',P,P); NextIn=_f('LLVMGetNextInstruction',P,P)
Opc=_f('LLVMGetInstructionOpcode',I,P); COpc=_f('LLVMGetConstOpcode',I,P)
NOps=_f('LLVMGetNumOperands',I,P); Op=_f('LLVMGetOperand',P,P,U)
TypeOf=_f('LLVMTypeOf',P,P); TKind=_f('LLVMGetTypeKind',I,P); IntW=_f('LLVMGetIntTypeWidth',U,P)
VKind=_f('LLVMGetValueKind',I,P)
SExt=_f('LLVMConstIntGetSExtValue',C.c_longlong,P)
RealD=_f('LLVMConstRealGetDouble',C.c_double,P,C.POINTER(I))
ICmpP=_f('LLVMGetICmpPredicate',I,P); FCmpP=_f('LLVMGetFCmpPredicate',I,P)
NInc=_f('LLVMCountIncoming',U,P); IncV=_f('LLVMGetIncomingValue',P,P,U); IncB=_f('LLVMGetIncomingBlock',P,P,U)
GepTy=_f('LLVMGetGEPSourceElementType',P,P); AllocTy=_f('LLVMGetAllocatedType',P,P)
NSucc=_f('LLVMGetNumSuccessors',U,P); Succ=_f('LLVMGetSuccessor',P,P,U); IsCond=_f('LLVMIsConditional',I,P)
CalledV=_f('LLVMGetCalledValue',P,P); NArgs=_f('LLVMGetNumArgOperands',U,P)
NParams=_f('LLVMCountParams',U,P); Param=_f('LLVMGetParam',P,P,U)
DL=_f('LLVMGetModuleDataLayout',P,P); ABISize=_f('LLVMABISizeOfType',U64,P,P); OffOf=_f('LLVMOffsetOfElement',U64,P,P,U)
NElt=_f('LLVMCountStructElementTypes',U,P); StEl=_f('LLVMStructGetTypeAtIndex',P,P,U); StName=_f('LLVMGetStructName',S,P)
EltTy=_f('LLVMGetElementType',P,P); ArrLen=_f('LLVMGetArrayLength2',U64,P)
IsStr=_f('LLVMIsConstantString',I,P); AsStr=_f('LLVMGetAsString',P,P,C.POINTER(SZ)); AggEl=_f('LLVMGetAggregateElement',P,P,U)
DbgLine=_f('LLVMGetDebugLocLine',U,P); NSW=_f('LLVMGetNSW',I,P)
Idx=_f('LLVMGetIndices',C.POINTER(U),P); NIdx=_f('LLVMGetNumIndices',U,P)
TypeByName=_f('LLVMGetTypeByName2',P,P,S)
GlobTy=_f('LLVMGlobalGetValueType',P,P)
RetT=_f('LLVMGetReturnType',P,P)
CalledFT=_f('LLVMGetCalledFunctionType',P,P)
IsNull=_f('LLVMIsNull',I,P)
UnwindDest=_f('LLVMGetUnwindDest',P,P); NormalDest=_f('LLVMGetNormalDest',P,P)
CaseV=None

OPN={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',
16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',
30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'rmw',58:'resume',59:'landingpad',
66:'fneg',67:'callbr',68:'freeze',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector'}
ICP={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCP={0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Ins:
    __slots__=('op','ty','ops','id','x','line','fn')
    def __repr__(s): return f'%{s.id}={s.op} {s.ops} {s.x}'
class Fn: pass
class Module: pass

def vname(v):
    n=SZ(); s=VName(v,C.byref(n)); return s.decode('latin1') if s else ''

class Mod:
    def __init__(self,path):
        self.ctx=CtxCreate(); mb=P(); err=S()
        if MemBuf(path.encode(),C.byref(mb),C.byref(err)): raise IOError(path)
        m=P()
        if ParseBC(self.ctx,mb,C.byref(m)): raise IOError('parse '+path)
        self.m=m; self.dl=DL(m); self.fns={}; self.gls={}; self.cache={}; self.tyc={}
        f=FirstFn(m)
        while f:
            self.fns[vname(f)]=f; f=NextFn(f)
        g=FirstGl(m)
        while g:
            self.gls[vname(g)]=g; g=NextGl(g)
        self.alias={}
        a=L.LLVMGetFirstGlobalAlias; a.restype=P; a.argtypes=[P]; x=a(m)
        while x:
            self.alias[vname(x)]=vname(Aliasee(x)); x=NextAl(x)
        names=list(self.fns)+list(self.alias)
        out=subprocess.run(['c++filt'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
        self.dem={n:simp(d) for n,d in zip(names,out)}
        self.bydem={}
        for n,d in self.dem.items():
            self.bydem.setdefault(d,[]).append(n)
    # ---- types
    def ty(self,t):
        r=self.tyc.get(t)
        if r is not None: return r
        k=TKind(t)
        if k==8: r=('i',IntW(t))
        elif k==2 or k==3: r=('f',64 if k==3 else 32)
        elif k in(4,5,6): r=('f',80)
        elif k==12: r=('ptr',)
        elif k==10: r=('struct',t)
        elif k==11: r=('array',ArrLen(t),EltTy(t))
        elif k==0: r=('void',)
        else: r=('other',k)
        self.tyc[t]=r
        return r
    def size(self,t): return ABISize(self.dl,t)
    def isbytes(self,t):
        k=self.ty(t)
        return k[0]=='array' and self.ty(k[2])==('i',8)
    def flatten(self,t,base=0):
        """[(offset, kind)] for scalar leaves"""
        k=self.ty(t)
        if k[0]=='i': return [(base,'i%d'%max(8,k[1]))]
        if k[0]=='f': return [(base,'f64')]
        if k[0]=='ptr': return [(base,'ptr')]
        if k[0]=='struct':
            n=(StName(t) or b'').decode('latin1')
            if n.startswith('class.std::__cxx11::basic_string'): return [(base,'str')]
            if n.startswith('class.std::vector') : return [(base,'vec')]
            if n.startswith('class.std::__cxx11::list'): return [(base,'list')]
            r=[]
            for i in range(NElt(t)): r+=self.flatten(StEl(t,i),base+OffOf(self.dl,t,i))
            return r
        if k[0]=='array':
            r=[];s=self.size(k[2])
            for i in range(k[1]): r+=self.flatten(k[2],base+i*s)
            return r
        return []
    def struct(self,name):
        return TypeByName(self.ctx,name.encode())
    # ---- operands
    def operand(self,v,loc):
        i=loc.get(v)
        if i is not None: return ('v',i)
        k=VKind(v)
        # LLVMValueKind: 0 Argument,1 BB,2 MemoryUse..,5 Function,6 GlobalAlias,7 IFunc,8 GlobalVariable,9 BlockAddress,10 ConstantExpr,11 ConstArray,12 ConstStruct,13 ConstVector,
        #14 Undef,15 AggZero,16 DataArray,17 DataVector,18 Int,19 FP,20 NullPtr,21 TokenNone,22 MDAsVal,23 InlineAsm,24 Instr, 25 Poison
        if k==5: return ('fn',vname(v))
        if k==6: return ('fn',self.alias[vname(v)])
        if k==8: return ('g',vname(v),0)
        if k==18:
            return ('c',SExt(v),IntW(TypeOf(v)))
        if k==19:
            d=RealD(v,C.byref(I())); return ('fc',d)
        if k==20: return ('null',)
        if k in(14,25): return ('undef',self.ty(TypeOf(v)))
        if k==15: return ('zero',self.ty(TypeOf(v)))
        if k==10:
            o=OPN.get(COpc(v))
            if o=='gep':
                b=self.operand(Op(v,0),loc)
                idx=[Op(v,i) for i in range(1,NOps(v))]
                off=self.gepoff(GepTy(v),[('c',SExt(x),64) for x in idx])
                assert isinstance(off[0],int) and not off[1]
                if b[0]=='g': return ('g',b[1],b[2]+off[0])
                return ('cegep',b,off[0])
            return ('ce',o)
        if k==22: return ('md',)
        return ('?',k)
    def gepoff(self,t,idx):
        """returns (const offset, [(operand, scale)])"""
        off=0; dyn=[]; cur=t
        for n,i in enumerate(idx):
            if n==0: s=self.size(cur)
            else:
                k=self.ty(cur)
                if k[0]=='struct':
                    assert i[0]=='c'; off+=OffOf(self.dl,cur,i[1]); cur=StEl(cur,i[1]); continue
                cur=k[2]; s=self.size(cur)
            if i[0]=='c': off+=i[1]*s
            else: dyn.append((i,s))
        return off,dyn
    # ---- functions
    def fn(self,name):
        r=self.cache.get(name)
        if r: return r
        f=self.fns.get(name)
        if f is None or IsDecl(f): return None
        R=Fn(); R.name=name; R.dem=self.dem[name]; R.mod=self
        loc={}; n=NParams(f)
        for i in range(n): loc[Param(f,i)]=i
        R.nargs=n; R.argty=[self.ty(TypeOf(Param(f,i))) for i in range(n)]
        bbs=[]; b=FirstBB(f)
        while b: bbs.append(b); b=NextBB(b)
        bi={b:i for i,b in enumerate(bbs)}
        raw=[]; cnt=n
        for b in bbs:
            l=[]; x=FirstIn(b)
            while x:
                loc[x]=cnt; cnt+=1; l.append(x); x=NextIn(x)
            raw.append(l)
        R.blocks=[]
        for b,l in zip(bbs,raw):
            B=[]
            for x in l:
                s=Ins(); s.op=OPN.get(Opc(x),'op%d'%Opc(x)); s.id=loc[x]; s.ty=self.ty(TypeOf(x)); s.x=None; s.line=DbgLine(x); s.fn=R
                o=s.op; N=NOps(x)
                if o=='br':
                    s.x=[bi[Succ(x,i)] for i in range(NSucc(x))]
                    s.ops=[self.operand(Op(x,0),loc)] if IsCond(x) else []
                elif o=='switch':
                    s.ops=[self.operand(Op(x,0),loc)]
                    cs=[]
                    for i in range(2,N,2): cs.append((SExt(Op(x,i)),bi[_bbval(Op(x,i+1),bi)]))
                    s.x=(bi[_bbval(Op(x,1),bi)],cs)
                elif o=='phi':
                    s.ops=[]; s.x=[(bi[IncB(x,i)],self.operand(IncV(x,i),loc)) for i in range(NInc(x))]
                elif o in('call','invoke'):
                    na=NArgs(x)
                    s.ops=[self.operand(Op(x,i),loc) for i in range(na)]
                    cv=CalledV(x); s.x={'callee':self.operand(cv,loc)}
                    if o=='invoke': s.x['normal']=bi[NormalDest(x)]; s.x['unwind']=bi[UnwindDest(x)]
                elif o=='gep':
                    s.ops=[self.operand(Op(x,i),loc) for i in range(N)]
                    s.x=self.gepoff(GepTy(x),s.ops[1:])
                elif o=='alloca':
                    s.ops=[self.operand(Op(x,0),loc)]; s.x=AllocTy(x)
                elif o=='icmp':
                    s.ops=[self.operand(Op(x,i),loc) for i in range(N)]; s.x=(ICP[ICmpP(x)],self.ty(TypeOf(Op(x,0))))
                elif o=='fcmp':
                    s.ops=[self.operand(Op(x,i),loc) for i in range(N)]; s.x=FCP[FCmpP(x)]
                elif o in('extractvalue','insertvalue'):
                    s.ops=[self.operand(Op(x,i),loc) for i in range(N)]; s.x=[Idx(x)[i] for i in range(NIdx(x))]
                elif o in('trunc','zext','sext','store','fptosi','sitofp','uitofp','fptoui','ptrtoint','inttoptr'):
                    s.ops=[self.operand(Op(x,i),loc) for i in range(N)]; s.x=self.ty(TypeOf(Op(x,0)))
                elif o in('add','sub','mul','shl'):
                    s.ops=[self.operand(Op(x,i),loc) for i in range(N)]; s.x=bool(NSW(x))
                else:
                    s.ops=[self.operand(Op(x,i),loc) for i in range(N)]
                B.append(s)
            R.blocks.append(B)
        R.nval=cnt
        R.entry=0
        R.loops=find_loops(R)
        self.cache[name]=R
        return R
    # ---- constants
    def gconst(self,name):
        """initializer leaves: list of (off, kind, value) or bytes for strings"""
        g=self.gls[name]; i=Init(g)
        if not i: return None
        return self._cinit(i,0)
    def isconst(self,name): return bool(IsConstG(self.gls[name]))
    def _cinit(self,v,off):
        k=VKind(v); t=TypeOf(v); tt=self.ty(t)
        if k==18: return [(off,'i%d'%max(8,tt[1]),SExt(v))]
        if k==19: return [(off,'f64',RealD(v,C.byref(I())))]
        if k==20: return [(off,'ptr',('null',))]
        if k==15: return [(o+off,kk,0 if kk[0]!='p' else ('null',)) for o,kk in self.flatten(t)]
        if k in(11,12,16):
            r=[]
            if tt[0]=='struct':
                for i in range(NElt(t)): r+=self._cinit(AggEl(v,i),off+OffOf(self.dl,t,i))
            else:
                s=self.size(tt[2])
                for i in range(tt[1]): r+=self._cinit(AggEl(v,i),off+i*s)
            return r
        if k in(5,6,8,10): return [(off,'ptr',self.operand(v,{}))]
        return []
    def cstr(self,name,off=0):
        c=self.gconst(name)
        if c is None: return None
        d={o:v for o,k,v in c if k=='i8'}
        r=bytearray()
        while d.get(off,0)!=0:
            r.append(d[off]&255); off+=1
        return bytes(r) if off in d else None
    def vtable(self,cls):
        m='_ZTV%d%s'%(len(cls),cls)
        if m not in self.gls: return None
        l=self.gconst(m)
        if l is None: return None
        return [x[2][1] if x[2][0]=='fn' else None for x in sorted(l)][2:]

L.LLVMValueIsBasicBlock.restype=I; L.LLVMValueIsBasicBlock.argtypes=[P]
L.LLVMValueAsBasicBlock.restype=P; L.LLVMValueAsBasicBlock.argtypes=[P]
def _bbval(v,bi): return L.LLVMValueAsBasicBlock(v)

import re
STR='std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
def simp(d):
    d=d.replace(STR,'string').replace('std::basic_ostream<char, std::char_traits<char> >','ostream')
    d=d.replace('std::__cxx11::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> >','ostringstream')
    d=d.replace('std::basic_ifstream<char, std::char_traits<char> >','ifstream').replace('std::basic_ofstream<char, std::char_traits<char> >','ofstream')
    d=d.replace('std::__cxx11::','std::').replace('__gnu_cxx::','')
    p=None
    while p!=d:
        p=d; d=re.sub(r', std::allocator<[^<>]*(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)?[^<>]*> ?>','>',d)
        d=d.replace(' >','>')
    return d

class Loop: pass
def find_loops(fn):
    """natural loops: header -> Loop(blocks, latches)"""
    n=len(fn.blocks); succ=[]
    for B in fn.blocks:
        t=B[-1]
        if t.op=='br': succ.append(list(t.x))
        elif t.op=='switch': succ.append([t.x[0]]+[c[1] for c in t.x[1]])
        elif t.op=='invoke': succ.append([t.x['normal'],t.x['unwind']])
        else: succ.append([])
    fn.succ=succ; pred=[[] for _ in range(n)]
    for i,s in enumerate(succ):
        for j in s: pred[j].append(i)
    fn.pred=pred
    # dominators (iterative)
    order=[];seen=set()
    st=[(0,iter(succ[0]))]; seen.add(0)
    while st:
        b,it=st[-1]
        for c in it:
            if c not in seen:
                seen.add(c); st.append((c,iter(succ[c]))); break
        else:
            order.append(b); st.pop()
    order.reverse(); num={b:i for i,b in enumerate(order)}
    idom={0:0}; ch=True
    while ch:
        ch=False
        for b in order[1:]:
            new=None
            for p in pred[b]:
                if p in idom:
                    if new is None: new=p
                    else:
                        a=p;c=new
                        while a!=c:
                            while num[a]>num[c]: a=idom[a]
                            while num[c]>num[a]: c=idom[c]
                        new=a
            if idom.get(b)!=new: idom[b]=new; ch=True
    def dom(a,b):
        while True:
            if a==b: return True
            if b==0: return False
            b=idom[b]
    loops={}
    for b in order:
        for s in succ[b]:
            if s in idom and dom(s,b):
                l=loops.get(s)
                if not l: l=Loop(); l.header=s; l.blocks={s}; l.latches=set(); loops[s]=l
                l.latches.add(b)
                w=[b]
                while w:
                    x=w.pop()
                    if x not in l.blocks:
                        l.blocks.add(x); w+=[p for p in pred[x] if p in idom]
    fn.reach=set(order); fn.rpo=num
    return loops
