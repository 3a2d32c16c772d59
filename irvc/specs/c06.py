"""C06: each entity type writes and reads its parameters in the standard order."""
from lib import *
from specs import assoc
import models
A='IGES_ENTITY'
INT,REAL,STR=1,2,3
PD_,RD_='pdelim','rdelim'
ZR=Fraction(0)
def num_(b): return ('v',REAL,0,Fraction(b.decode())) if b'.' in b else ('v',INT,int(b),ZR)
def toks(s):
    """split a text into (kind,int,real,delimiter) parameters; None if it is not a sequence of delimited values"""
    ps=[]
    for x in models.pieces(s) if hasattr(models,'pieces') else pieces(s):
        if isinstance(x,SLit):
            cur=b''
            for ch in x.b:
                if chr(ch).isdigit() or (ch==45 and not cur) or (ch==46 and cur and b'.' not in cur): cur+=bytes([ch])
                else:
                    if cur: ps.append(num_(cur)); cur=b''
                    ps.append(('c',_s8(ch)))
            if cur: ps.append(num_(cur))
        elif isinstance(x,SRep) and x.n==1: ps.append(('c',x.ch))
        elif isinstance(x,SOpq) and x.tag=='dec': ps.append(('v',INT,x.args[0],ZR))
        elif isinstance(x,SOpq) and x.tag=='real': ps.append(('v',REAL,0,x.args[0]))
        else: return None
    if len(ps)%2: return None
    out=[]
    for v,c in zip(ps[::2],ps[1::2]):
        if v[0]!='v' or c[0]!='c': return None
        out.append(v[1:]+(c[1],))
    return out
from values import _s8
class Spec(LibSpec):
    """contracts: AddPDItem, AddPDHStr (C02), FormatPDREal, ParseInt, ParseReal, ParseHString (C04), formatExtraParams, formatComments, readPD of IGES_ENTITY, readExtraParams, readComments"""
    this=None; hdrs=(); strs=()
    def havoc_ok(s,it): return it[0]=='mem' and it[1]==('i32',0) and getattr(s,'index',None) is not None and it[2]==s.index.base      # the index after an item: any number
    def ghost_ok(s,e,g,before,after,st0,N):
        # the text before the first item is seen for the first time inside the loop: it must not depend on the iteration, and every later item must see the same
        if g!=('hdr',) or after is None or any(isz(x) and e.loopdep(x,N) for it in after for x in it): return False
        h=st0.ghost.get(g)
        if h is not None and not(len(h)==len(after) and all(veq(x,y) is True or isinstance(x,Fraction) for a,b in zip(h,after) for x,y in zip(a,b))): return False
        st0.ghost[g]=after; return True
    def fld(s,st,n): return s.p.get(st,s.this,A,n)
    def out_args(s,e,st,fOut,ix,de,pd,rd):
        p=s.p; o=s.this
        oo=p.ctx.F(A,'pdout')[0]
        g=[eq(fOut.base,o.base),eq(fOut.off,add(o.off,oo)),eq(de,s.fld(st,'sequenceNumber')),eq(pd,s.pd),eq(rd,s.rd),eq(ix.base,s.index.base)]
        p.ob('items go to the parameter data of this entity, numbered and delimited as the model requires',st,and_(*g))
    def header(s,e,st,f):
        t=toks(models.e_str(e,st,f))
        if t is None: raise Unsupported('text before the first item')
        if not any(len(t)==len(h) and all(isinstance(x,Fraction) or eq(x,y) is True for a,b in zip(t,h) for x,y in zip(a,b)) for h in s.hdrs): s.hdrs.append(t)
        if ('hdr',) not in st.ghost: st.ghost[('hdr',)]=t
        elif len(t)!=len(st.ghost[('hdr',)]) or not all(and_(*[eq(x,y) if not isinstance(x,Fraction) else True for x,y in zip(a,b)]) is True for a,b in zip(t,st.ghost[('hdr',)])):
            s.p.ob('items are added one by one',st,and_(*[and_(eq(a[0],b[0]),eq(a[1],b[1]),eq(a[3],b[3])) for a,b in zip(t,st.ghost[('hdr',)])]) if len(t)==len(st.ghost[('hdr',)]) else False)
    def bump(s,e,st,ix):
        v=e.fresh('pdindex'); e.mwrite(st,'i32',ix.off,ix.base,v)
    def match(s,eng,st,dem,args,ins):
        e=eng
        if dem.startswith('FormatPDREal('):
            models.w_str(e,st,args[0],scat(SOpq('real',(args[1],),e.uf('real_len','Real','Int')(R(args[1])),None),schar(args[2]))); e.assumptions.add('FormatPDREal writes the decimal text of the value (accuracy checked by the replay)')
            return [(st,lt(0,args[3]) if not isinstance(args[3],Fraction) else args[3]>0)]
        if dem.startswith('AddPDItem('):
            t,f,o,ix,de,pd,rd=args; s.out_args(e,st,o,ix,de,pd,rd); s.header(e,st,f)
            l=toks(models.e_str(e,st,t))
            if l is None: raise Unsupported('item text %r'%models.e_str(e,st,t))
            for k,i,r,c in l:
                st.event('item',k,I(i),R(r),I(c))
            models.w_str(e,st,t,EMPTY); s.bump(e,st,ix); return [(st,or_(z3.Bool('room'),e.fresh('ok','Bool')))]
        if dem.startswith('AddPDHStr('):
            t,f,o,ix,de,pd,rd,dl=args; s.out_args(e,st,o,ix,de,pd,rd); s.header(e,st,f); x=models.e_str(e,st,t); c=None
            for n,w in enumerate(s.strs):
                if seq_str(x,w) is True: c=n
            if c is None: raise Unsupported('string item')
            st.event('item',STR,I(c),R(ZR),I(dl))
            s.bump(e,st,ix); return [(st,or_(z3.Bool('room'),e.fresh('ok','Bool')))]
        if dem.startswith('IGES_ENTITY::formatExtraParams('):
            s.header(e,st,args[1]); x=s.xcell
            s.p.ob('optional pointers follow the last parameter, once',st,and_(eq(e.mread(st,'i32',0,x.base),0),eq(e.mread(st,'i32',0,s.ccell.base),0),lt(0,s.fld(st,'extras').len)))
            e.mwrite(st,'i32',0,x.base,1); st.ghost[('xlen',)]=st.log.len; s.bump(e,st,args[2]); return [(st,or_(z3.Bool('room'),e.fresh('ok','Bool')))]
        if dem.startswith('IGES_ENTITY::formatComments('):
            e.mwrite(st,'i32',0,s.ccell.base,add(e.mread(st,'i32',0,s.ccell.base),1)); st.ghost[('clen',)]=st.log.len; s.bump(e,st,args[1])
            e.mwrite(st,'i32',4,s.ccell.base,e.mread(st,'i32',args[1].off,args[1].base))
            v=e.mread(st,'i32',args[1].off,args[1].base); st.assume(and_(le(1,v),le(v,10000000))); return [(st,and_(z3.Bool('room'),lt(0,st.log.len)))]
        if dem.endswith('::getDepthLevel()'): return [(st,z3.Int('depth'))]
        if dem=='@virtual getDESequence()' or dem.endswith('::getDESequence()'):
            eng.deref(st,args[0],ins,'call'); return [(st,s.p.get(st,args[0],A,'sequenceNumber'))]
        return s.rd_match(e,st,dem,args,ins)
    def rd_match(s,e,st,dem,args,ins): return None
def fmt_task(t,expected,pre=None,valid=None,deadline=100):
    """expected(p,st,o) -> list of (kind,value); or (head, n, per-index function, tail) for list types"""
    cls='IGES_ENTITY_%d'%t
    def run(p):
        st=p.st; e=p.e; o=p.obj('this'); ix=p.obj('index'); st.assume(ix.base!=o.base); sp=p.spec; sp.this=o; sp.index=ix; sp.hdrs=[]
        g=lambda n,c=A: p.get(st,o,c,n)
        par=g('parent'); gd=p.ctx.F('IGES','globalData')[0]
        st.assume(and_(ne(pb(par),o.base),ne(pb(par),ix.base),le(0,pb(par))))
        G=lambda n: e.mread(st,p.ctx.F('IGES_GLOBAL',n)[1],add(gd,p.ctx.F('IGES_GLOBAL',n)[0]),pb(par))
        sp.pd,sp.rd=G('pdelim'),G('rdelim'); st.assume(ne(sp.pd,sp.rd))
        for d in(sp.pd,sp.rd): st.assume(and_(lt(32,d),lt(d,127),not_(and_(le(43,d),le(d,57),ne(d,44),ne(d,47))),ne(d,68),ne(d,69),ne(d,72),ne(d,101)))
        st.assume(and_(eq(g('entityType'),t),le(1,g('sequenceNumber')),le(g('sequenceNumber'),9999997)))
        sp.xcell=p.cell('i32',0); sp.ccell=p.cell('i32',0); ext=lt(0,g('extras').len); st.assume(le(0,g('extras').len))
        i0=e.mread(st,'i32',0,ix.base)
        if pre: pre(p,st,o)
        exp=expected(p,st,o); V=valid(p,st,o) if valid else True; st1=st.clone()
        def post(s,r):
            p.ob('written whenever it is valid and fits',s,imp(and_(le(1,i0),le(i0,9999997),ne(pb(par),0),lt(0,G('minResolution')),z3.Bool('room'),V),r))
            s2=s.clone(); s2.assume(B(r))
            if e.sat(s2)=='unsat': return
            L=s.log; h=s.ghost.get(('hdr',),sp.hdrs[0] if len(sp.hdrs)==1 else None)
            if h is None: h=[]; p.ob('the parameters start with the type number',s2,eq(L.len,0))
            segs=[(1,lambda q: [('entity type number',INT,t)])]
            for x in exp:
                if x[0]=='rep': segs.append((x[1],x[2]))
                else: segs.append((1,lambda q,x=x: [x]))
            tot=0
            for n,f in segs: tot=add(tot,mul(len(f(z3.IntVal(0))),n))
            got=add(len(h),L.len)
            p.ob('written only with a valid index and a model',s2,and_(le(1,i0),le(i0,9999999),ne(pb(par),0)))
            p.ob('written only when every item fits',s2,z3.Bool('room'))
            p.ob('number of parameters',s2,eq(got,tot))
            noext=not_(ext)
            def item(j):
                # j-th parameter (0: type number); the header text comes first
                if isinstance(j,int) and j<len(h): return h[j]
                v=L.at(sub(j,len(h)),'ev'); return tuple(v[1:])
            s3=s2.clone(); s3.assume(B(eq(got,tot)))
            if e.sat(s3)=='unsat': return
            off=0
            for n,f in segs:
                q=0 if n==1 and isinstance(n,int) else freshint('q'); its=f(I(q)); m=len(its); cond=and_(le(0,q),lt(q,n))
                for c,(nm,k,v,*dc) in enumerate(its):
                    j=add(add(off,mul(m,q)),c); K,i,r_,dl=item(j)
                    if isz(j) and z3.is_int_value(z3.simplify(j)): K,i,r_,dl=item(z3.simplify(j).as_long())
                    p.ob('parameter: '+nm,s3,imp(cond,and_(eq(K,k),veq(r_,v) if k==REAL else eq(i,v))))
                    p.ob('parameter: %s: delimiter'%nm,s3,imp(cond,eq(dl,ite(and_(dc[0] if dc else eq(j,sub(tot,1)),noext),sp.rd,sp.pd))))
                off=add(off,mul(m,n))
            p.ob('optional pointers are written exactly when there are some',s2,eq(eq_b(eq(e.mread(s2,'i32',0,sp.xcell.base),1)),eq_b(ext)))
            p.ob('comments are written once, after the parameters',s2,and_(eq(e.mread(s2,'i32',0,sp.ccell.base),1),eq(s.ghost.get(('clen',),-1),L.len),imp(ext,eq(s.ghost.get(('xlen',),-1),L.len))))
            p.ob('start of the parameter data',s2,eq(p.get(s2,o,A,'parameterData'),i0))
            p.ob('parameter line count',s2,eq(p.get(s2,o,A,'paramLineCount'),sub(e.mread(s2,'i32',4,sp.ccell.base),i0)))
        p.run(p.ctx.method(cls,'format'),[o,ix],post)
    return proof('format[%d]'%t,run,spec=Spec,deadline=deadline)
def eq_b(x): return B(x)
def pb(x): return x.base if isinstance(x,(Ptr,APtr)) else x
def flds(cls,*l):
    """simple attributes in order: 'X1' (real), '#N' (integer)"""
    def f(p,st,o):
        out=[]
        for n in l:
            if n[0]=='#': out.append((n[1:],INT,p.get(st,o,cls,n[1:])))
            else: out.append((n,REAL,p.get(st,o,cls,n)))
        return out
    return f
E=lambda t: 'IGES_ENTITY_%d'%t
def de(p,st,x): return p.get(st,x,A,'sequenceNumber') if isinstance(x,Ptr) else p.get(st,Ptr(x.base if hasattr(x,'base') else x,0),A,'sequenceNumber')
def opt(p,st,x): return ite(eq(pb(x),0),0,de(p,st,x))
def ptrs_ok(cls,name,path=0):
    """class invariant: stored references are not null"""
    def f(p,st,o):
        V=p.get(st,o,cls,name); j=freshint('nn'); x=V.at(j,'ptr',path)
        st.assume(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<I(V.len)),B(lt(0,pb(x)))))); st.assume(and_(le(0,V.len),le(V.len,2**24)))
    return f
def ne_(cls,name): return lambda p,st,o: and_(lt(0,p.get(st,o,cls,name).len))
def set_(cls,*names): return lambda p,st,o: and_(*[ne(pb(p.get(st,o,cls,n)),0) for n in names])
def v142(p,st,o):
    g=lambda n: p.get(st,o,E(142),n); return and_(ne(pb(g('SPTR')),0),or_(ne(pb(g('BPTR')),0),ne(pb(g('CPTR')),0)),le(0,g('CRTN')),le(g('CRTN'),3),le(0,g('PREF')),le(g('PREF'),3))
def v144(p,st,o):
    g=lambda n: p.get(st,o,E(144),n); return and_(ne(pb(g('PTS')),0),le(0,g('N1')),le(g('N1'),1))
def v504(p,st,o):
    V=p.get(st,o,E(504),'edges'); j=freshint('ve'); F=lambda n: p.ctx.F('EDGE_DATA',n)[0]
    return and_(lt(0,V.len),z3.ForAll([j],z3.Implies(z3.And(j>=0,j<I(V.len)),B(and_(*[ne(pb(V.at(j,'ptr',F(n))),0) for n in('curv','svp','tvp')])))))
def nn(cls,*names):
    def f(p,st,o):
        for n in names: st.assume(le(0,pb(p.get(st,o,cls,n))))
    return f
def x102(p,st,o):
    V=p.get(st,o,E(102),'curves'); return [('number of curves',INT,V.len),('rep',V.len,lambda q: [('curve DE',INT,de(p,st,V.at(q,'ptr',0)))])]
def x120(p,st,o):
    g=lambda n: p.get(st,o,E(120),n); return [('L',INT,de(p,st,g('L'))),('C',INT,de(p,st,g('C'))),('SA',REAL,g('SA')),('TA',REAL,g('TA'))]
def x122(p,st,o): return [('DE',INT,de(p,st,p.get(st,o,E(122),'DE')))]+flds(E(122),'LX','LY','LZ')(p,st,o)
def x124(p,st,o):
    c=p.ctx; to=c.F(E(124),'T')[0]; R_=add(to,c.F('MCAD_TRANSFORM','R')[0]); T_=add(to,c.F('MCAD_TRANSFORM','T')[0]); rd=lambda off: p.e.mread(st,'f64',add(o.off,off),o.base); out=[]
    for i in range(3):
        for j in range(3): out.append(('R%d%d'%(i+1,j+1),REAL,rd(R_+8*(3*i+j))))
        out.append(('T%d'%(i+1),REAL,rd(T_+c.F('MCAD_POINT','xyz'[i])[0])))
    return out
def x142(p,st,o):
    g=lambda n: p.get(st,o,E(142),n); bn,cn=eq(pb(g('BPTR')),0),eq(pb(g('CPTR')),0)
    return [('CRTN',INT,g('CRTN')),('SPTR',INT,de(p,st,g('SPTR'))),('BPTR',INT,opt(p,st,g('BPTR'))),('CPTR',INT,opt(p,st,g('CPTR'))),('PREF',INT,ite(cn,1,ite(bn,2,g('PREF'))))]
def x144(p,st,o):
    g=lambda n: p.get(st,o,E(144),n); V=g('PTI'); return [('PTS',INT,de(p,st,g('PTS'))),('N1',INT,g('N1')),('N2',INT,V.len),('PTO',INT,opt(p,st,g('PTO'))),('rep',V.len,lambda q: [('PTI',INT,de(p,st,V.at(q,'ptr',0)))])]
def x308(p,st,o):
    V=p.get(st,o,E(308),'DE'); p.spec.strs=[p.get(st,o,E(308),'NAME')]; return [('DEPTH',INT,z3.Int('depth')),('NAME',STR,0),('N',INT,V.len),('rep',V.len,lambda q: [('DE',INT,de(p,st,V.at(q,'ptr',0)))])]
def x510(p,st,o):
    g=lambda n: p.get(st,o,E(510),n); V=g('mloops'); return [('SURF',INT,de(p,st,g('msurface'))),('N',INT,V.len),('OF',INT,ite(p.e.tobool(g('mOuterLoopFlag')),1,0)),('rep',V.len,lambda q: [('LOOP',INT,de(p,st,V.at(q,'ptr',0)))])]
def x514(p,st,o):
    V=p.get(st,o,E(514),'mfaces'); return [('N',INT,V.len),('rep',V.len,lambda q: [('FACE',INT,de(p,st,V.at(q,'ptr',0))),('OF',INT,ite(p.e.tobool(V.at(q,'i8',8)),1,0))])]
def x186(p,st,o):
    g=lambda n: p.get(st,o,E(186),n); V=g('mvoids'); return [('SHELL',INT,de(p,st,g('mshell'))),('SOF',INT,ite(p.e.tobool(g('mSOF')),1,0)),('N',INT,V.len),('rep',V.len,lambda q: [('VOID',INT,de(p,st,V.at(q,'ptr',0))),('VOF',INT,ite(p.e.tobool(V.at(q,'i8',8)),1,0))])]
def x502(p,st,o):
    V=p.get(st,o,E(502),'vertices'); c=p.ctx; return [('N',INT,V.len),('rep',V.len,lambda q: [(n,REAL,V.at(q,'f64',c.F('MCAD_POINT',n)[0])) for n in 'xyz'])]
def x504(p,st,o):
    V=p.get(st,o,E(504),'edges'); c=p.ctx; F=lambda n: c.F('EDGE_DATA',n)[0]
    return [('N',INT,V.len),('rep',V.len,lambda q: [('CURV',INT,de(p,st,V.at(q,'ptr',F('curv')))),('SVP',INT,de(p,st,V.at(q,'ptr',F('svp')))),('SV',INT,V.at(q,'i32',F('sv'))),('TVP',INT,de(p,st,V.at(q,'ptr',F('tvp')))),('TV',INT,V.at(q,'i32',F('tv')))])]
def x164(p,st,o): return [('PTR',INT,de(p,st,p.get(st,o,E(164),'PTR')))]+flds(E(164),'L','I1','J1','K1')(p,st,o)
def x408(p,st,o): return [('DE',INT,de(p,st,p.get(st,o,E(408),'DE')))]+flds(E(408),'X','Y','Z','S')(p,st,o)
def arrs(p,st,o,cls,kn,co,cnt):
    """class invariant of the spline types: a present array holds exactly the numbers the counts promise"""
    out=[]
    rat=eq(p.get(st,o,cls,'PROP3'),0)
    for k,n in kn+[(co,None)]:
        b=pb(p.get(st,o,cls,k)); p.put(st,o,cls,k,APtr(b,0)); a=p.e.mread(st,'arr',0,b); st.assume(le(0,b))
        st.assume(imp(ne(b,0),eq(a.len,ite(rat,mul(4,cnt),mul(3,cnt)) if n is None else n))); out.append(a)
    bs=[p.get(st,o,cls,k).base for k,_ in kn]+[p.get(st,o,cls,co).base]
    for i in range(len(bs)):
        for j in range(i): st.assume(imp(ne(bs[i],0),ne(bs[i],bs[j])))
    return out
def inv126(p,st,o):
    g=lambda n: p.get(st,o,E(126),n); st.assume(and_(*[and_(le(-2**24,g(n)),le(g(n),2**24)) for n in('K','M')],le(g('nKnots'),2**24),le(g('nCoeffs'),2**24),le(0,g('nKnots')),le(0,g('nCoeffs'))))
    p.spec.arr=arrs(p,st,o,E(126),[('knots',g('nKnots'))],'coeffs',g('nCoeffs'))
def splx(a,rat,cnt,q): 
    co=a; st_=ite(rat,4,3)
    return lambda d: co.at(add(mul(st_,q),d),'f64',0) if not isz(rat) else ite(rat,co.at(add(mul(4,q),d),'f64',0),co.at(add(mul(3,q),d),'f64',0))
def rr(x): return R(x)
def x126(p,st,o):
    g=lambda n: p.get(st,o,E(126),n); kn,co=p.spec.arr; rat=eq(g('PROP3'),0); vn=p.ctx.F(E(126),'vnorm')[0]
    return [(n,INT,g(n)) for n in('K','M','PROP1','PROP2','PROP3','PROP4')]+[('rep',g('nKnots'),lambda q: [('knot',REAL,kn.at(q,'f64',0))]),('rep',g('nCoeffs'),lambda q: [('weight',REAL,ite(rat,co.at(add(mul(4,q),3),'f64',0),Fraction(1)))]),
      ('rep',g('nCoeffs'),lambda q: [(n,REAL,splx(co,rat,0,q)(i)) for i,n in enumerate('XYZ')]),('V0',REAL,g('V0')),('V1',REAL,g('V1'))]+[('normal '+n,REAL,p.e.mread(st,'f64',add(o.off,vn+p.ctx.F('MCAD_POINT',n)[0]),o.base)) for n in 'xyz']
def v126(p,st,o):
    g=lambda n: p.get(st,o,E(126),n); return and_(le(1,g('K')),le(1,g('M')),eq(g('nKnots'),add(add(g('K'),g('M')),2)),eq(g('nCoeffs'),add(g('K'),1)),ne(pb(g('knots')),0),ne(pb(g('coeffs')),0),*[and_(le(0,g(n)),le(g(n),1)) for n in('PROP1','PROP2','PROP3','PROP4')])
def inv128(p,st,o):
    g=lambda n: p.get(st,o,E(128),n); C=mul(g('nCoeffs1'),g('nCoeffs2'))
    st.assume(and_(*[and_(le(0,g(n)),le(g(n),2**20)) for n in('nKnots1','nKnots2')],*[and_(le(-2**20,g(n)),le(g(n),2**20)) for n in('K1','K2','M1','M2')],*[and_(le(0,g(n)),le(g(n),2**14)) for n in('nCoeffs1','nCoeffs2')]))
    p.spec.arr=arrs(p,st,o,E(128),[('knots1',g('nKnots1')),('knots2',g('nKnots2'))],'coeffs',C)
def x128(p,st,o):
    g=lambda n: p.get(st,o,E(128),n); k1,k2,co=p.spec.arr; rat=eq(g('PROP3'),0); C=mul(g('nCoeffs1'),g('nCoeffs2'))
    return [(n,INT,g(n)) for n in('K1','K2','M1','M2','PROP1','PROP2','PROP3','PROP4','PROP5')]+[('rep',g('nKnots1'),lambda q: [('first knot sequence',REAL,k1.at(q,'f64',0))]),('rep',g('nKnots2'),lambda q: [('second knot sequence',REAL,k2.at(q,'f64',0))]),
      ('rep',C,lambda q: [('weight',REAL,ite(rat,co.at(add(mul(4,q),3),'f64',0),Fraction(1)))]),('rep',C,lambda q: [(n,REAL,splx(co,rat,0,q)(i)) for i,n in enumerate('XYZ')])]+[(n,REAL,g(n)) for n in('U0','U1','V0','V1')]
def v128(p,st,o):
    g=lambda n: p.get(st,o,E(128),n); return and_(*[and_(le(1,g(n))) for n in('K1','K2','M1','M2')],*[eq(g('nKnots'+i),add(add(g('K'+i),g('M'+i)),2)) for i in'12'],*[eq(g('nCoeffs'+i),add(g('K'+i),1)) for i in'12'],*[ne(pb(g(n)),0) for n in('knots1','knots2','coeffs')],*[and_(le(0,g('PROP%d'%n)),le(g('PROP%d'%n),1)) for n in(1,2,3,4,5)])
def x180(p,st,o):
    V=p.get(st,o,E(180),'nodes'); f=lambda n: p.ctx.F('BTREE_NODE',n)
    def node(q):
        x=V.at(q,'ptr',0); rd=lambda n: p.e.mread(st,f(n)[1],f(n)[0],pb(x))
        return [('node',INT,ite(p.e.tobool(rd('op')),rd('val'),sub(0,de(p,st,rd('pEnt')))))]
    return [('N',INT,V.len),('rep',V.len,node)]
def x314(p,st,o):
    g=lambda n: p.get(st,o,E(314),n); p.spec.strs=[g('cname')]; cl=lambda v,d: ite(or_(v<0,v>100),Fraction(d),v); has=or_(lt(0,g('cname').len),lt(0,p.get(st,o,A,'extras').len))
    return [('red',REAL,cl(R(g('red')),85)),('green',REAL,cl(R(g('green')),20)),('blue',REAL,cl(R(g('blue')),20)),('rep',ite(has,1,0),lambda q: [('name',STR,0)])]
def x406(p,st,o):
    d=p.get(st,o,E(406),'data'); s=p.e.mread(st,'str',0,pb(d)); st.assume(lt(0,pb(d))); p.spec.strs=[s]; return [('NP',INT,1),('name',STR,0)]
FMT={100:flds(E(100),'zOffset','xCenter','yCenter','xStart','yStart','xEnd','yEnd'),104:flds(E(104),'A','B','C','D','E','F','ZT','X1','Y1','X2','Y2'),110:flds(E(110),'X1','Y1','Z1','X2','Y2','Z2'),
  154:flds(E(154),'H','R','X1','Y1','Z1','I1','J1','K1'),122:(x122,nn(E(122),'DE'),set_(E(122),'DE')),124:x124,164:(x164,nn(E(164),'PTR'),set_(E(164),'PTR')),408:(x408,nn(E(408),'DE'),set_(E(408),'DE')),
  102:(x102,ptrs_ok(E(102),'curves'),ne_(E(102),'curves')),120:(x120,nn(E(120),'L','C'),set_(E(120),'L','C')),142:(x142,nn(E(142),'SPTR','BPTR','CPTR'),v142),144:(x144,ptrs_ok(E(144),'PTI'),v144),
  186:(x186,ptrs_ok(E(186),'mvoids'),set_(E(186),'mshell')),308:(x308,ptrs_ok(E(308),'DE'),ne_(E(308),'DE')),502:(x502,lambda p,st,o: st.assume(le(0,p.get(st,o,E(502),'vertices').len)),ne_(E(502),'vertices')),504:(x504,lambda p,st,o: st.assume(le(0,p.get(st,o,E(504),'edges').len)),v504),510:(x510,ptrs_ok(E(510),'mloops'),lambda p,st,o: and_(set_(E(510),'msurface')(p,st,o),ne_(E(510),'mloops')(p,st,o))),126:(x126,inv126,v126),128:(x128,inv128,v128),180:(x180,ptrs_ok(E(180),'nodes'),lambda p,st,o: False),314:x314,406:(x406,None,lambda p,st,o: eq(p.get(st,o,A,'form'),15)),514:(x514,ptrs_ok(E(514),'mfaces'),ne_(E(514),'mfaces'))}
# ---- reading.  Parameter k of the record (k=1 follows the type number) starts at pos(k); NP parameters precede the
# record delimiter; VI/VR are the values, EMPTY an empty field.  Contracts as proved in C04, stated per parameter.
class RSpec(Spec):
    pd_text=None; default=()
    def pos(s,k): return s.p.e.uf('pos','Int','Int')(I(k))
    def VI(s,k): return s.p.e.uf('pd_int','Int','Int')(I(k))
    def VR(s,k): return s.p.e.uf('pd_real','Int','Real')(I(k))
    def EM(s,k): return s.p.e.uf('pd_empty','Int','Bool')(I(k))
    def parse(s,e,st,args,kind,dflt):
        p=s.p; data,ix,par,eor,pd,rd=args[:6]; o=s.this; oo=p.ctx.F(A,'pdout')[0]; k=add(st.log.len,1); NP=z3.Int('NP')
        p.ob('parameters are read in order from the parameter data of the entity',st,and_(eq(data.base,o.base),eq(data.off,add(o.off,oo)),eq(pd,s.pd),eq(rd,s.rd),eq(e.mread(st,'i32',ix.off,ix.base),s.pos(k))))
        st.event('rd',kind)
        w='i32' if kind==INT else 'f64'; fm=and_(eq_b(le(k,NP)),or_(z3.Bool('w'),e.uf('readable','Int','Int','Bool')(I(k),I(kind))))
        e.mwrite(st,'i32',ix.off,ix.base,s.pos(add(k,1))); e.mwrite(st,'i8',eor.off,eor.base,ite(eq(k,NP),1,0))
        if kind==STR: models.w_str(e,st,par,s.text); p.ob('only the name is a text',st,eq(k,s.tpos))
        else:
            v=s.VI(k) if kind==INT else s.VR(k)
            if kind==INT: st.assume(and_(le(-2**31,v),lt(v,2**31)))
            if dflt is not None: v=ite(s.EM(k),e.mread(st,w,dflt.off,dflt.base),v)
            e.mwrite(st,w,par.off,par.base,v)
        return [(st,fm)]
    def rd_match(s,e,st,dem,args,ins):
        p=s.p
        if dem.startswith('IGES_ENTITY::readPD('): return [(st,and_(z3.Bool('rdok'),ne(pb(s.fld(st,'parent')),0)))]
        if '::find(char, unsigned long)' in dem:
            a,c,f=args; o=s.this
            p.ob('the parameters start after the first delimiter',st,and_(eq(a.base,o.base),eq(a.off,add(o.off,p.ctx.F(A,'pdout')[0])),eq(c,s.pd),eq(f,0)))
            x=z3.Int('p0'); st.assume(or_(and_(le(0,x),lt(x,2**31)),eq(x,2**64-1))); st.assume(imp(lt(x,2**31),eq(s.pos(1),add(x,1)))); return [(st,x)]
        for n,k in(('ParseInt(',INT),('ParseReal(',REAL),('ParseHString(',STR)):
            if dem.startswith(n):
                d=args[6] if k!=STR else None
                if d is not None and e.base_eq(d.base,0) is True: d=None
                return s.parse(e,st,args,k,d)
        if dem.startswith('IGES_ENTITY::readExtraParams('):
            ix=args[1]; p.ob('optional pointers are read from the parameter after the last, once',st,and_(eq(e.mread(st,'i32',ix.off,ix.base),s.pos(add(st.log.len,1))),lt(st.log.len,z3.Int('NP')),eq(e.mread(st,'i32',0,s.xcell.base),0)))
            e.mwrite(st,'i32',0,s.xcell.base,1); e.mwrite(st,'i32',ix.off,ix.base,s.pos(add(z3.Int('NP'),1))); return [(st,z3.Bool('xok'))]
        if dem.startswith('IGES_ENTITY::readComments('):
            ix=args[1]; p.ob('comments follow the record delimiter and are read once',st,and_(eq(e.mread(st,'i32',ix.off,ix.base),s.pos(add(z3.Int('NP'),1))),eq(e.mread(st,'i32',0,s.ccell.base),0)))
            e.mwrite(st,'i32',0,s.ccell.base,1); return [(st,z3.Bool('cok'))]
        if dem.startswith('double const& std::max<double>('):
            a,b=[e.mread(st,'f64',x.off,x.base) for x in args]; s2=st.clone(); c=lt(R(a),R(b)); st.assume(B(not_(c))); s2.assume(B(c)); return [(st,args[0]),(s2,args[1])]
        if dem.startswith('CheckNormal('):
            v=[e.mread(st,'f64',a.off,a.base) for a in args]
            for n,a in enumerate(args): e.mwrite(st,'f64',a.off,a.base,s.cn(n,*v))
            return [(st,True)]
        return None
    def cn(s,n,*v): return s.p.e.uf('normal%d'%n,'Real','Real','Real','Real')(*[R(x) for x in v])
def rd_task(t,expected,req=None,pre=None,valid=None,deadline=100):
    """expected(p) -> list of (name,kind,check(s,k)) for a single parameter k, or ('rep',n,m,check(s,q,k0),kinds)"""
    cls=E(t)
    def run(p):
        st=p.st; e=p.e; o=p.obj('this'); f=p.obj('file'); sv=p.obj('seqvar'); sp=p.spec; sp.this=o
        g=lambda n,c=A: p.get(st,o,c,n)
        par=g('parent'); gd=p.ctx.F('IGES','globalData')[0]; b=[o.base,pb(par),f.base,sv.base]
        for i in range(4):
            for j in range(i): st.assume(ne(b[i],b[j]))
        st.assume(le(0,pb(par)))
        G=lambda n: e.mread(st,p.ctx.F('IGES_GLOBAL',n)[1],add(gd,p.ctx.F('IGES_GLOBAL',n)[0]),pb(par))
        sp.pd,sp.rd=G('pdelim'),G('rdelim'); sp.minres=G('minResolution'); st.assume(ne(sp.pd,sp.rd)); sp.xcell=p.cell('i32',0); sp.ccell=p.cell('i32',0)
        sp.text=e.symstr(st,'txt',(I(0),)); sp.tpos=0; NP=z3.Int('NP'); st.assume(NP>=0)
        if pre: pre(p,st,o)
        exp=expected(p,o); tot=0
        for x in exp: tot=add(tot,mul(x[2],x[1]) if x[0]=='rep' else 1)
        rq=tot if req is None else (sub(tot,3) if req=='n126' else req)
        st1=st.clone()
        V=valid(p,st,o) if valid else True; p0=z3.Int('p0')
        def post(s,r):
            ok=and_(z3.Bool('rdok'),ne(pb(par),0),z3.Bool('w'),z3.Bool('cok'),imp(lt(tot,NP),z3.Bool('xok')),le(rq,NP),le(1,p0),le(p0,8),V)
            if valid is not False: p.ob('a valid parameter record is accepted',s,imp(ok,r))
            s2=s.clone(); s2.assume(B(r))
            if e.sat(s2)=='unsat': return
            L=s.log
            p.ob('accepted only when the record and its comments are readable',s2,and_(z3.Bool('rdok'),z3.Bool('cok'),eq(e.mread(s2,'i32',0,sp.ccell.base),1)))
            p.ob('every parameter is read, once',s2,and_(le(rq,NP),eq(L.len,ite(lt(NP,tot),NP,tot) if req is not None else tot)))
            p.ob('optional pointers are read exactly when there are more parameters',s2,and_(eq_b(eq(e.mread(s2,'i32',0,sp.xcell.base),1))==eq_b(lt(tot,NP)),imp(lt(tot,NP),z3.Bool('xok'))))
            k=1
            for x in exp:
                if x[0]!='rep':
                    p.ob('parameter: '+x[0],s2,x[2](s2,k)); k=add(k,1); continue
                _,n,m,chk=x[:4]; q=freshint('q'); cond=and_(le(0,q),lt(q,n)); k0=add(k,mul(m,q))
                s3=s2.clone(); s3.assume(B(cond)); e.instantiate(s3,q)
                for nm,c in chk(s3,q,k0): p.ob('parameter: '+nm,s3,c)
                k=add(k,mul(m,n))
            j=freshint('kj'); kd=kinds(exp,tot)
            if isinstance(tot,int) and isinstance(L.len,int): p.ob('parameters are read as their kind',s2,and_(*[eq(L.at(i,'ev')[1],kd(i)) for i in range(L.len)]))
            else: p.ob('parameters are read as their kind',s2,imp(and_(le(0,j),lt(j,L.len)),eq(L.at(j,'ev')[1],kd(j))))
        p.run(p.ctx.method(cls,'readPD'),[o,f,sv],post)
    return proof('readPD[%d]'%t,run,spec=RSpec,deadline=deadline)
def kinds(exp,tot):
    def kd(j):
        r=None; off=0; out=[]
        for x in exp:
            if x[0]=='rep': out.append((off,x[1],x[2],x[4] if len(x)>4 else None)); off=add(off,mul(x[2],x[1]))
            else: out.append((off,1,1,[x[1]])); off=add(off,1)
        return out
    def f(j):
        r=0
        for x in reversed(kd(j)): pass
        for off,n,m,ks in reversed(kd(j)):
            v=ks[0] if len(set(ks))==1 else None
            if v is None:
                v=ks[-1]
                for c in range(len(ks)-2,-1,-1): v=ite(eq(I(sub(j,off))%len(ks),c),ks[c],v)
            r=ite(and_(le(off,j),lt(j,add(off,mul(m,n)))),v,r)
        return r
    return f
def at_(p,o,cls,*l):
    out=[]; sp=p.spec
    for n in l:
        if n[0]=='#': out.append((n[1:],INT,lambda s,k,n=n[1:]: eq(p.get(s,o,cls,n),sp.VI(k))))
        else: out.append((n,REAL,lambda s,k,n=n: veq(p.get(s,o,cls,n),sp.VR(k))))
    return out
def rat(cls,*l): return lambda p,o: at_(p,o,cls,*l)
def rvec(p,o,cls,vec,n,els,name):
    """list attribute: per element (suffix, offset, kind)"""
    sp=p.spec; m=len(els)
    def chk(s,q,k0):
        V=p.get(s,o,cls,vec); out=[]
        for c,(sx,off,kd) in enumerate(els):
            if kd=='i8': v=eq_b(p.e.tobool(V.at(q,'i8',off)))==eq_b(eq(sp.VI(add(k0,c)),1))
            elif kd=='i32': v=eq(V.at(q,'i32',off),sp.VI(add(k0,c)))
            else: v=veq(V.at(q,'f64',off),sp.VR(add(k0,c)))
            out.append((name+sx,v))
        return out
    return ('rep',n,m,chk,[REAL if kd=='f64' else INT for _,_,kd in els])
def count(p,o,cls,vec,k,name): return (name,INT,lambda s,kk: eq(p.get(s,o,cls,vec).len,p.spec.VI(k)))
def flag(p,o,cls,n): return (n,INT,lambda s,k: eq_b(p.e.tobool(p.get(s,o,cls,n)))==eq_b(eq(p.spec.VI(k),1)))
def empty_(cls,*names): return lambda p,st,o: [st.assume(eq(p.get(st,o,cls,n).len,0)) for n in names]
def odd(v): return and_(le(1,v),le(v,9999997),eq(I(v)%2,1))
def nn0(x): return ite(lt(x,0),0,x)
def allptr(p,k0,n,step=1):
    q=freshint('vp'); sp=p.spec; return z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(n)),B(odd(sp.VI(add(k0,mul(step,q)))))))
def bit(v): return and_(le(0,v),le(v,1))
def r102(p,o):
    n=nn0(p.spec.VI(1)); return [count(p,o,E(102),'iCurves',1,'number of curves'),rvec(p,o,E(102),'iCurves',n,[('',0,'i32')],'curve DE')]
def r120(p,o): return at_(p,o,E(120),'#iL','#iC','SA','TA')
def r122(p,o): return at_(p,o,E(122),'#iDE','LX','LY','LZ')
def r308(p,o):
    p.spec.tpos=2; n=nn0(p.spec.VI(3)); return at_(p,o,E(308),'#DEPTH')+[('NAME',STR,lambda s,k: seq_str(p.get(s,o,E(308),'NAME'),p.spec.text))]+[count(p,o,E(308),'iDE',3,'N'),rvec(p,o,E(308),'iDE',n,[('',0,'i32')],'DE')]
def r144(p,o): return at_(p,o,E(144),'#iPTS','#N1','#N2','#iPTO')+[rvec(p,o,E(144),'iPTI',nn0(p.spec.VI(3)),[('',0,'i32')],'PTI')]
def r142(p,o):
    sp=p.spec; return at_(p,o,E(142),'#CRTN','#iSPTR','#iBPTR','#iCPTR')+[('PREF',INT,lambda s,k: eq(p.get(s,o,E(142),'PREF'),ite(eq(sp.VI(4),0),1,ite(eq(sp.VI(3),0),2,sp.VI(k)))))]
def r124(p,o):
    c=p.ctx; to=c.F(E(124),'T')[0]; R_=add(to,c.F('MCAD_TRANSFORM','R')[0]); T_=add(to,c.F('MCAD_TRANSFORM','T')[0]); out=[]
    def x(nm,off): return (nm,REAL,lambda s,k: veq(p.e.mread(s,'f64',add(o.off,off),o.base),p.spec.VR(k)))
    for i in range(3): out+=[x('R%d%d'%(i+1,j+1),R_+8*(3*i+j)) for j in range(3)]+[x('T%d'%(i+1),T_+c.F('MCAD_POINT','xyz'[i])[0])]
    return out
def dfl(p,k,d): sp=p.spec; return ite(or_(lt(z3.Int('NP'),k),sp.EM(k)),Fraction(d),sp.VR(k))
def norm3(p,o,cls,ks): 
    sp=p.spec; v=[dfl(p,k,d) for k,d in zip(ks,(0,0,1))]
    return [(n,REAL,lambda s,k,i=i,n=n: veq(p.get(s,o,cls,n),sp.cn(i,*v))) for i,n in enumerate(('I1','J1','K1'))]
def r164(p,o): return at_(p,o,E(164),'#iPtr','L')+norm3(p,o,E(164),(3,4,5))
def r154(p,o):
    sp=p.spec; mr=sp.minres
    return [(n,REAL,lambda s,k,n=n: veq(p.get(s,o,E(154),n),ite(lt(sp.VR(k),mr),mr,sp.VR(k)))) for n in 'HR']+[(n,REAL,lambda s,k,n=n: veq(p.get(s,o,E(154),n),dfl(p,k,0))) for n in('X1','Y1','Z1')]+norm3(p,o,E(154),(6,7,8))
def v154(p,st,o): sp=p.spec; return and_(*[or_(le(sp.minres,R(sp.VR(k))),lt(0,R(sp.VR(k)))) for k in(1,2)])
def r408(p,o): return at_(p,o,E(408),'#iDE','X','Y','Z')+[('S',REAL,lambda s,k: veq(p.get(s,o,E(408),'S'),dfl(p,5,1)))]
def r186(p,o):
    return at_(p,o,E(186),'#mDEshell')+[flag(p,o,E(186),'mSOF'),count(p,o,E(186),'ivoids',3,'N'),rvec(p,o,E(186),'ivoids',nn0(p.spec.VI(3)),[(' DE',0,'i32'),(' OF',4,'i8')],'void')]
def r510(p,o):
    return at_(p,o,E(510),'#mDEsurf')+[count(p,o,E(510),'iloops',2,'N'),flag(p,o,E(510),'mOuterLoopFlag'),rvec(p,o,E(510),'iloops',nn0(p.spec.VI(2)),[('',0,'i32')],'LOOP')]
def r514(p,o): return [count(p,o,E(514),'ifaces',1,'N'),rvec(p,o,E(514),'ifaces',nn0(p.spec.VI(1)),[(' DE',0,'i32'),(' OF',4,'i8')],'FACE')]
def vlist(k0,step,flags=()):
    def f(p,st,o,n):
        sp=p.spec; q=freshint('vq'); fs=[bit(sp.VI(add(k0+c,mul(step,q)))) for c in flags]
        return and_(allptr(p,k0,n,step),*([z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(n)),B(and_(*fs))))] if fs else []))
    return f
def r502(p,o): return [count(p,o,E(502),'vertices',1,'N'),rvec(p,o,E(502),'vertices',nn0(p.spec.VI(1)),[(' '+n,p.ctx.F('MCAD_POINT',n)[0],'f64') for n in 'xyz'],'vertex')]
def r504(p,o): return [count(p,o,E(504),'deItems',1,'N'),rvec(p,o,E(504),'deItems',nn0(p.spec.VI(1)),[(' '+n,p.ctx.F('EDGE_DEIDX',n)[0],'i32') for n in('curv','svp','sv','tvp','tv')],'edge')]
def r314(p,o):
    sp=p.spec; sp.tpos=4; c=lambda v,d: ite(or_(lt(R(v),0),lt(100,R(v))),Fraction(d),v)
    return [(n,REAL,lambda s,k,n=n,d=d: veq(p.get(s,o,E(314),n),c(sp.VR(k),d))) for n,d in(('red',85),('green',20),('blue',20))]+[('name',STR,lambda s,k: imp(le(4,z3.Int('NP')),seq_str(p.get(s,o,E(314),'cname'),sp.text)))]
def r406(p,o):
    d=p.get(p.st,o,E(406),'data'); p.st.assume(lt(0,pb(d))); p.spec.tpos=2
    return [('NP',INT,lambda s,k: eq(p.spec.VI(1),1)),('name',STR,lambda s,k: seq_str(p.e.mread(s,'str',0,pb(d)),p.spec.text))]
def warr(p,s,o,cls,n): return p.e.mread(s,'arr',0,pb(p.get(s,o,cls,n)))
def karr(p,o,cls,n,cnt,name):
    return ('rep',cnt,1,lambda s,q,k0: [(name,veq(warr(p,s,o,cls,n).at(q,'f64',0),p.spec.VR(k0)))],[REAL])
def coefs(p,o,cls,cnt):
    sp=p.spec; rat=eq(sp.VI(5 if cls==E(126) else 7),0)
    def w(s,q,k0): a=warr(p,s,o,cls,'coeffs'); return [('weight',imp(rat,veq(a.at(add(mul(4,q),3),'f64',0),sp.VR(k0))))]
    def c(s,q,k0):
        a=warr(p,s,o,cls,'coeffs'); return [('control point '+n,veq(ite(rat,a.at(add(mul(4,q),i),'f64',0),a.at(add(mul(3,q),i),'f64',0)),sp.VR(add(k0,i)))) for i,n in enumerate('XYZ')]
    return [('rep',cnt,1,w,[REAL]),('rep',cnt,3,c,[REAL]*3)]
def r126(p,o):
    sp=p.spec; vn=p.ctx.F(E(126),'vnorm')[0]; K,M=sp.VI(1),sp.VI(2)
    out=at_(p,o,E(126),*['#'+n for n in('K','M','PROP1','PROP2','PROP3','PROP4')])+[karr(p,o,E(126),'knots',nn0(add(add(K,M),2)),'knot')]+coefs(p,o,E(126),nn0(add(K,1)))+at_(p,o,E(126),'V0','V1')
    k0=add(add(add(K,M),mul(4,K)),15)      # ordinal of the normal
    def nrm(i,n): return ('normal '+n,REAL,lambda s,k: imp(le(add(k0,2),z3.Int('NP')),veq(p.e.mread(s,'f64',add(o.off,vn+p.ctx.F('MCAD_POINT',n)[0]),o.base),ite(eq(sp.VI(3),1),sp.cn(i,*[sp.VR(add(k0,c)) for c in range(3)]),Fraction(1 if i==2 else 0)))))
    return out+[nrm(i,n) for i,n in enumerate('xyz')]
def vr126(p,st,o):
    sp=p.spec; q=freshint('vq'); K,M=sp.VI(1),sp.VI(2); k0=add(add(K,M),9)
    t=add(add(add(K,M),mul(4,K)),17); NP=z3.Int('NP')
    return and_(or_(le(t,NP),eq(NP,sub(t,3))),le(1,K),le(1,M),*[bit(sp.VI(k)) for k in(3,4,5,6)],z3.ForAll([q],z3.Implies(z3.And(q>=I(k0),q<I(add(add(k0,K),1))),B(R(sp.VR(q))>0))))
def r128(p,o):
    sp=p.spec; K1,K2,M1,M2=[sp.VI(i) for i in(1,2,3,4)]; C=mul(add(K1,1),add(K2,1))
    return at_(p,o,E(128),*['#'+n for n in('K1','K2','M1','M2','PROP1','PROP2','PROP3','PROP4','PROP5')])+[karr(p,o,E(128),'knots1',nn0(add(add(K1,M1),2)),'first knot sequence'),karr(p,o,E(128),'knots2',nn0(add(add(K2,M2),2)),'second knot sequence')]+coefs(p,o,E(128),nn0(C))+at_(p,o,E(128),'U0','U1','V0','V1')
def null_(cls,*names): return lambda p,st,o: [p.put(st,o,cls,n,Ptr(0,0)) for n in names]
def plen(p,st,o):     # every parameter takes at least its delimiter, and an entity has fewer than 10^7 lines of 64 columns
    n=p.get(st,o,A,'pdout').len; st.assume(and_(le(z3.Int('NP'),n),le(n,64*9999999)))
def pre126(p,st,o): null_(E(126),'knots','coeffs')(p,st,o); plen(p,st,o)
def pre128(p,st,o): null_(E(128),'knots1','knots2','coeffs')(p,st,o); plen(p,st,o)
def vr128(p,st,o):
    sp=p.spec; q=freshint('vq'); K1,K2,M1,M2=[sp.VI(i) for i in(1,2,3,4)]; k0=add(add(add(K1,M1),add(K2,M2)),14)
    return and_(*[le(1,x) for x in(K1,K2,M1,M2)],*[bit(sp.VI(k)) for k in(5,6,7,8,9)],z3.ForAll([q],z3.Implies(z3.And(q>=I(k0),q<I(add(k0,mul(add(K1,1),add(K2,1))))),B(R(sp.VR(q))>0))))
RDT={126:(r126,'n126',pre126,vr126),128:(r128,None,pre128,vr128),110:(rat(E(110),'X1','Y1','Z1','X2','Y2','Z2'),),104:(rat(E(104),'A','B','C','D','E','F','ZT','X1','Y1','X2','Y2'),),100:(rat(E(100),'zOffset','xCenter','yCenter','xStart','yStart','xEnd','yEnd'),None,None,False),
  102:(r102,None,empty_(E(102),'curves','iCurves'),lambda p,st,o: and_(le(1,p.spec.VI(1)),allptr(p,2,p.spec.VI(1)))),120:(r120,None,None,lambda p,st,o: and_(odd(p.spec.VI(1)),odd(p.spec.VI(2)))),122:(r122,None,None,lambda p,st,o: odd(p.spec.VI(1))),
  308:(r308,None,None,lambda p,st,o: and_(le(0,p.spec.VI(1)),le(0,p.spec.VI(3)),allptr(p,4,p.spec.VI(3)))),
  144:(r144,None,empty_(E(144),'iPTI'),lambda p,st,o: and_(odd(p.spec.VI(1)),bit(p.spec.VI(2)),le(0,p.spec.VI(3)),or_(eq(p.spec.VI(4),0),odd(p.spec.VI(4))),allptr(p,5,p.spec.VI(3)))),
  142:(r142,None,None,lambda p,st,o: and_(*[and_(le(0,p.spec.VI(k)),le(p.spec.VI(k),3)) for k in(1,5)],odd(p.spec.VI(2)),*[or_(eq(p.spec.VI(k),0),odd(p.spec.VI(k))) for k in(3,4)],or_(ne(p.spec.VI(3),0),ne(p.spec.VI(4),0)))),
  124:(r124,),164:(r164,2,None,lambda p,st,o: odd(p.spec.VI(1))),154:(r154,2,None,v154),408:(r408,4,None,lambda p,st,o: odd(p.spec.VI(1))),
  186:(r186,None,empty_(E(186),'ivoids'),lambda p,st,o: and_(odd(p.spec.VI(1)),bit(p.spec.VI(2)),le(0,p.spec.VI(3)),vlist(4,2,(1,))(p,st,o,p.spec.VI(3)))),
  510:(r510,None,empty_(E(510),'iloops'),lambda p,st,o: and_(odd(p.spec.VI(1)),le(1,p.spec.VI(2)),bit(p.spec.VI(3)),vlist(4,1)(p,st,o,p.spec.VI(2)))),
  514:(r514,None,empty_(E(514),'ifaces'),lambda p,st,o: and_(le(1,p.spec.VI(1)),vlist(2,2,(1,))(p,st,o,p.spec.VI(1)))),
  502:(r502,None,empty_(E(502),'vertices'),lambda p,st,o: le(1,p.spec.VI(1))),504:(r504,None,empty_(E(504),'deItems'),lambda p,st,o: le(1,p.spec.VI(1))),
  314:(r314,3,None,None),406:(r406,None,None,lambda p,st,o: and_(eq(p.spec.VI(1),1),eq(p.get(st,o,A,'form'),15)))}
def extra_task():
    """readExtraParams: nA, the nA pointers, and unless the record ends there nB and the nB pointers"""
    def run(p):
        st=p.st; e=p.e; o=p.obj('this'); ix=p.obj('index'); sp=p.spec; sp.this=o; sp.text=None
        par=p.get(st,o,A,'parent'); gd=p.ctx.F('IGES','globalData')[0]; st.assume(and_(lt(0,pb(par)),ne(pb(par),o.base),ne(pb(par),ix.base),ne(o.base,ix.base)))
        G=lambda n: e.mread(st,p.ctx.F('IGES_GLOBAL',n)[1],add(gd,p.ctx.F('IGES_GLOBAL',n)[0]),pb(par))
        sp.pd,sp.rd=G('pdelim'),G('rdelim'); NP=z3.Int('NP'); st.assume(and_(NP>=1,eq(e.mread(st,'i32',0,ix.base),sp.pos(1))))
        sp.xcell=p.cell('i32',0); sp.ccell=p.cell('i32',0)
        num=lambda k: ite(sp.EM(k),0,sp.VI(k)); nA=num(1); kB=add(nA,2); nB=num(kB); two=ne(NP,add(nA,1)); tot=ite(two,add(add(nA,nB),2),add(nA,1))
        st1=st.clone()
        def post(s,r):
            V=and_(z3.Bool('w'),le(0,nA),allptr(p,2,nA),eq(NP,tot),imp(two,and_(le(0,nB),allptr(p,add(nA,3),nB),or_(lt(0,nB),True))))
            p.ob('a valid list of optional pointers is accepted',s,imp(V,r))
            s2=s.clone(); s2.assume(B(r))
            if e.sat(s2)=='unsat': return
            X=p.get(s2,o,A,'iExtras'); q=freshint('q'); e.instantiate(s2,q)
            p.ob('the optional pointers end the record',s2,eq(NP,tot))
            p.ob('all optional pointers are read',s2,and_(eq(s2.log.len,tot),eq(X.len,add(nA,ite(two,nB,0)))))
            p.ob('optional pointers are read in order',s2,imp(and_(le(0,q),lt(q,X.len)),eq(X.at(q,'i32',0),sp.VI(ite(lt(q,nA),add(q,2),add(q,3))))))
            p.ob('position after the record',s2,eq(e.mread(s2,'i32',0,ix.base),sp.pos(add(NP,1))))
        p.run(p.ctx.fn('IGES_ENTITY::readExtraParams(int&)'),[o,ix],post)
    return proof('readExtraParams',run,spec=RSpec)
def cn_task():
    def run(p):
        st=p.st; e=p.e; a=[p.cell('f64',z3.Real(n)) for n in 'xyz']; v=[z3.Real(n) for n in 'xyz']; N=sum(x*x for x in v)
        class S(LibSpec): pass
        def post(s,r):
            w=[R(e.mread(s,'f64',0,c.base)) for c in a]; sm=N<R(Fraction(1e-12)); near=z3.And(N-1>=-R(Fraction(1e-8)),N-1<=R(Fraction(1e-8)))
            p.ob('always gives a direction',s,r)
            p.ob('a vanishing vector is replaced by the z axis',s,z3.Implies(sm,z3.And(w[0]==0,w[1]==0,w[2]==1)))
            p.ob('a unit vector is kept',s,z3.Implies(z3.And(z3.Not(sm),near),z3.And(*[x==y for x,y in zip(w,v)])))
            d=z3.Real('d'); far=z3.And(z3.Not(sm),z3.Not(near),d>0,d*d==N)
            p.ob('any other vector is divided by its length',s,z3.Implies(far,z3.And(*[x*d==y for x,y in zip(w,v)])))
        p.run(p.ctx.fn('CheckNormal(double&, double&, double&)'),a,post)
    return proof('CheckNormal',run)
def comment_task():
    def run(p):
        st=p.st; e=p.e; o=p.obj('this'); ix=p.obj('index'); st.assume(ne(o.base,ix.base)); T=p.get(st,o,A,'pdout'); i0=e.mread(st,'i32',0,ix.base); C=p.get(st,o,A,'comments')
        st.assume(and_(le(0,i0),lt(i0,2**30),eq(C.len,0),lt(T.len,2**30)))
        a=freshint('line'); st.assume(and_(le(mul(64,sub(a,1)),sub(i0,1)),lt(sub(i0,1),mul(64,a))))   # first 64-column line that starts at or after i0
        e.nooverflow=True
        def post(s,r):
            X=p.get(s,o,A,'comments'); q=freshint('q'); p.ob('reading comments succeeds',s,r)
            n=I(sub(T.len,mul(64,a)))/64
            p.ob('one comment per remaining line',s,eq(X.len,ite(lt(T.len,mul(64,a)),0,n)))
            x=X.at(q,'str',0); c=freshint('c')
            p.ob('comments hold the text of their lines',s,imp(and_(le(0,q),lt(q,X.len)),and_(eq(x.len,64),imp(and_(le(0,c),lt(c,64)),eq(x.at(c),T.at(add(mul(64,add(a,q)),c)))))))
            p.frame('only the comments change',p.st,s,[('i32',0,ix.base),('list',p.ctx.F(A,'comments')[0],o.base)])
        p.run(p.ctx.fn('IGES_ENTITY::readComments(int&)'),[o,ix],post)
    return proof('readComments',run)
def tasks(ctx,thorough): return [fmt_task(t,x) if callable(x) else fmt_task(t,*x) for t,x in FMT.items()]+[rd_task(t,*x) for t,x in RDT.items()]+[extra_task(),cn_task(),comment_task()]+assoc.tasks(False)
REPLAY='c06.cpp'; REPLAY_N=500
