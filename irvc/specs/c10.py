"""C10: point, vector, matrix and transform operators obey their algebra (over the reals)."""
from lib import *
import z3
def rd(p,st,o,n): return [p.e.mread(st,'f64',add(o.off,8*i),o.base) for i in range(n)]
def RR(x): return R(x) if not isz(x) else x
def eqp(a,b):
    """polynomial identity: decided by normalisation when it is one"""
    if a is UNDEF or b is UNDEF: return False
    d=z3.simplify(RR(a)-RR(b),som=True)
    if z3.is_rational_value(d): return d.as_fraction()==0
    return d==0
def alleq(x,y): return and_(*[eqp(a,b) for a,b in zip(x,y)])
def mm(a,b): return [sum(RR(a[3*i+k])*RR(b[3*k+j]) for k in range(3)) for i in range(3) for j in range(3)]
def mv(a,v): return [sum(RR(a[3*i+k])*RR(v[k]) for k in range(3)) for i in range(3)]
def va(a,b): return [RR(x)+RR(y) for x,y in zip(a,b)]
def vs(a,b): return [RR(x)-RR(y) for x,y in zip(a,b)]
def sc(a,k): return [RR(x)*RR(k) for x in a]
def tt(a,b): return mm(a[:9],b[:9])+va(mv(a[:9],b[9:]),a[9:])
def tp(a,v): return va(mv(a[:9],v),a[9:])
ID3=[Fraction(int(i==j)) for i in range(3) for j in range(3)]
SZ=dict(P=3,M=9,T=12)
# name -> (result: 'ret'/'this'/'init', result kind, operand kinds, definition)
OPS={
 'MCAD_POINT::MCAD_POINT()':('init','P','',lambda: [Fraction(0)]*3),
 'MCAD_POINT::MCAD_POINT(MCAD_POINT const&)':('init','P','P',lambda a:a),
 'MCAD_POINT::MCAD_POINT(double, double, double)':('init','P','ddd',lambda a,b,c:[a,b,c]),
 'MCAD_POINT::operator*=(double)':('this','P','Pd',sc),
 'MCAD_POINT::operator+=(MCAD_POINT const&)':('this','P','PP',va),
 'MCAD_POINT::operator-=(MCAD_POINT const&)':('this','P','PP',vs),
 'MCAD_POINT::operator+(MCAD_POINT const&)':('ret','P','PP',va),
 'operator-(MCAD_POINT const&, MCAD_POINT const&)':('ret','P','PP',vs),
 'operator*(MCAD_POINT const&, double)':('ret','P','Pd',sc),
 'operator*(double, MCAD_POINT const&)':('ret','P','dP',lambda k,a:sc(a,k)),
 'MCAD_MATRIX::MCAD_MATRIX()':('init','M','',lambda: ID3),
 'MCAD_MATRIX::MCAD_MATRIX(MCAD_MATRIX const&)':('init','M','M',lambda a:a),
 'MCAD_MATRIX::operator*=(MCAD_MATRIX const&)':('this','M','MM',mm),
 'MCAD_MATRIX::operator*=(double)':('this','M','Md',sc),
 'MCAD_MATRIX::operator+=(MCAD_MATRIX const&)':('this','M','MM',va),
 'MCAD_MATRIX::operator-=(MCAD_MATRIX const&)':('this','M','MM',vs),
 'MCAD_MATRIX::operator+(MCAD_MATRIX const&)':('ret','M','MM',va),
 'MCAD_MATRIX::operator-(MCAD_MATRIX const&)':('ret','M','MM',vs),
 'operator*(MCAD_MATRIX const&, MCAD_MATRIX const&)':('ret','M','MM',mm),
 'operator*(MCAD_MATRIX const&, double)':('ret','M','Md',sc),
 'operator*(double, MCAD_MATRIX const&)':('ret','M','dM',lambda k,a:sc(a,k)),
 'operator*(MCAD_MATRIX const&, MCAD_POINT const&)':('ret','P','MP',mv),
 'MCAD_TRANSFORM::MCAD_TRANSFORM()':('init','T','',lambda: ID3+[Fraction(0)]*3),
 'MCAD_TRANSFORM::MCAD_TRANSFORM(MCAD_TRANSFORM const&)':('init','T','T',lambda a:a),
 'MCAD_TRANSFORM::MCAD_TRANSFORM(MCAD_MATRIX const&, MCAD_POINT const&)':('init','T','MP',lambda a,b:a+b),
 'MCAD_TRANSFORM::operator*=(MCAD_TRANSFORM const&)':('this','T','TT',tt),
 'MCAD_TRANSFORM::operator*=(double)':('this','T','Td',sc),
 'operator*(double, MCAD_TRANSFORM const&)':('ret','T','dT',lambda k,a:sc(a,k)),
 'operator*(MCAD_TRANSFORM const&, MCAD_TRANSFORM const&)':('ret','T','TT',tt),
 'operator*(MCAD_TRANSFORM const&, MCAD_POINT const&)':('ret','P','TP',tp),
}
class Spec(LibSpec): check_bounds=True
def op_task(dem,alias):
    how,rk,kinds,f=OPS[dem]
    def run(p):
        st=p.st; objs={}; args=[]; vals=[]
        n=0
        for i,k in enumerate(kinds):
            if k=='d': v=p.real('k%d'%i); args.append(v); vals.append(v); continue
            # aliases: all operands of the same kind are one object; a point or matrix operand may be part of the target
            if alias=='same' and k in objs: o=objs[k]
            elif alias=='part' and 'T' in objs and k in 'MP': o=Ptr(objs['T'].base,add(objs['T'].off,0 if k=='M' else 72))
            else: o=p.obj('a%d'%i)
            objs.setdefault(k,o); args.append(o); vals.append(rd(p,st,o,SZ[k]))
        if how=='init':
            t=p.obj('result')
            args=[t]+args
        elif how=='ret': t=p.obj('result'); args=[t]+args
        else: t=args[0]
        if how!='this':      # the result object is new storage (C++ never lets it overlap an operand)
            for x in args[1:]:
                if isinstance(x,Ptr): st.assume(B(ne(t.base,x.base)))
        want=f(*vals); st1=st.clone()
        def post(s,r):
            got=rd(p,s,t,SZ[rk])
            p.ob('the result is the defined value in every component',s,alleq(got,want))
            if how=='this': p.ob('returns the target',s,veq(r,t) if isinstance(r,Ptr) else False)
            p.frame('operator',st1,s,[('f64',t.off+8*i,t.base) for i in range(SZ[rk])])
        p.run(p.ctx.fn(dem),args,post)
    return proof('%s%s'%(dem,'' if not alias else ' [%s]'%alias),run,spec=Spec)
def lemma_task():
    # consequence over the contracts: the product transform acts as the composition
    def run(p):
        st=p.st; a=[p.real('a%d'%i) for i in range(12)]; b=[p.real('b%d'%i) for i in range(12)]; v=[p.real('v%d'%i) for i in range(3)]
        p.ob('(A*B) p = A (B p)',st,alleq(tp(tt(a,b),v),tp(a,tp(b,v))))
        p.ob('identity is neutral',st,and_(alleq(mm(a[:9],ID3),a[:9]),alleq(mm(ID3,a[:9]),a[:9])))
        p.ob('matrix product is associative with vectors',st,alleq(mv(mm(a[:9],b[:9]),v),mv(a[:9],mv(b[:9],v))))
    return proof('lemma: composition of transforms',run,spec=Spec)
def tasks(ctx,thorough):
    T=[lemma_task()]
    for d,(how,rk,kinds,f) in OPS.items():
        T.append(op_task(d,None))
        k=[c for c in kinds if c!='d']
        if len(k)==2 and k[0]==k[1]: T.append(op_task(d,'same'))
        if kinds=='TP': T.append(op_task(d,'part'))
    return T
REPLAY='c10.cpp'; REPLAY_N=2000
