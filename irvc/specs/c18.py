"""C18: segments and outlines keep their geometry (src/geom/mcad_segment.cpp, mcad_outline.cpp, mcad_helpers.cpp)."""
import math,os
from lib import *
from c10 import rd,alleq,RR,eqp
S='MCAD_SEGMENT'; O='MCAD_OUTLINE'
PI=Fraction(math.pi); TOL=Fraction(1e-8)
NONE,LINE,ARC,CIRCLE=0,1,2,4
PT='MCAD_POINT'
def mx(a,b): return ite(lt(a,b),b,a)
def mn(a,b): return ite(lt(a,b),a,b)
def pm(e,a,b,t): return e.uf('point_matches',*(['Real']*7+['Bool']))(*[R(x) for x in list(a)+list(b)+[t]])
class Spec(LibSpec):
    check_bounds=True
    def match(s,eng,st,dem,args,ins):
        if dem=='PointMatches(MCAD_POINT, MCAD_POINT, double)':
            a=[eng.mread(st,'f64',add(args[0].off,8*i),args[0].base) for i in range(3)]; b=[eng.mread(st,'f64',add(args[1].off,8*i),args[1].base) for i in range(3)]
            if all(x.eq(y) if isz(x) and isz(y) else x==y for x,y in zip(a,b)): return [(st,True)]     # proved below: a point matches itself
            st.assume(or_(pm(eng,a,b,args[2]),not_(and_(*[eq(x,y) for x,y in zip(a,b)])))); return [(st,pm(eng,a,b,args[2]))]
        if dem=='atan2' or dem.startswith('std::atan2'):
            a=[R(x) for x in args]; r=eng.uf('f_atan2','Real','Real','Real')(*a); st.assume(and_(le(-PI,r),le(r,PI))); eng.assumptions.add('atan2 returns an angle between -pi and pi'); return [(st,r)]
        if re.match(r'NORMALIZE_ANGLES\(double&, double&\)',dem):
            v=[eng.mread(st,'f64',a.off,a.base) for a in args]; k=eng.fresh('turns','Real'); st.assume(shift(v[0],v[1],k))
            for a,x in zip(args,v): eng.mwrite(st,'f64',a.off,a.base,R(x)+k)
            return [(st,None)]
        return None
def shift(a,b,k):
    """contract of NORMALIZE_ANGLES for angles within five half turns: k is the multiple of a full turn that is added to both"""
    a,b=R(a),R(b); P=R(PI); both=z3.And(a>P,b>P); neg=z3.And(a<=-P,b<=-P)
    c=z3.Or([k==i*2*P for i in range(-3,4)]); n=lambda x,y: z3.And(z3.Not(z3.And(x>P,y>P)),z3.Not(z3.And(x<=-P,y<=-P)))
    return z3.And(c,n(a+k,b+k),z3.Implies(n(a,b),k==0),z3.Implies(both,k<0),z3.Implies(neg,k>0))
F3=lambda n:[n+c for c in('.x','.y','.z')]
ALL=['msegtype','mradius','msang','meang','mCWArc']+F3('mcenter')+F3('mstart')+F3('mend')
class Seg:
    """the contents of a segment in a state"""
    def __init__(s,p,st,o):
        g=lambda n: p.get(st,o,S,n)
        s.t=g('msegtype'); s.r=g('mradius'); s.sa=g('msang'); s.ea=g('meang'); c=g('mCWArc'); s.cw=c if isinstance(c,bool) or (isz(c) and z3.is_bool(c)) else c==1 if isinstance(c,int) else ne(c,0)
        s.c,s.s,s.e=[[g(n) for n in F3(m)] for m in('mcenter','mstart','mend')]
    def lo(s): return ite(s.cw,s.ea,s.sa)
    def hi(s): return ite(s.cw,s.sa,s.ea)
def eqs(a,b): return and_(*[eq(x,y) for x,y in zip(a,b)])
def inv(e,g):
    """class invariant of a segment"""
    return and_(or_(*[eq(g.t,k) for k in(NONE,LINE,ARC,CIRCLE)]),imp(ne(g.t,NONE),and_(*[eq(x[2],0) for x in(g.c,g.s,g.e)])),imp(eq(g.t,LINE),not_(eqs(g.s[:2],g.e[:2]))),
        imp(eq(g.t,ARC),and_(gt(g.r,0),le(-PI,g.lo()),le(g.lo(),PI),le(g.lo(),g.hi()),le(sub(g.hi(),g.lo()),2*PI))),imp(eq(g.t,CIRCLE),and_(gt(g.r,0),eq(g.sa,0),eq(g.ea,2*PI))),imp(ne(g.t,ARC),not_(g.cw)))
def seg(p,name,st=None):
    o=p.obj(name); st=st or p.st; p.put(st,o,S,'mCWArc',ite(p.boolean(name+'_cw'),1,0)); g=Seg(p,st,o); st.assume(inv(p.e,g)); return o,g
def setp_line():
    def run(p):
        st=p.st; e=p.e; o=p.obj('this'); a=p.obj('start'); b=p.obj('end'); st.assume(and_(ne(o.base,a.base),ne(o.base,b.base),ne(a.base,b.base)))
        A=rd(p,st,a,3); B_=rd(p,st,b,3); st1=st.clone()
        def post(s,r):
            g=Seg(p,s,o); ok=and_(eq(A[2],0),eq(B_[2],0),not_(pm(e,A,B_,TOL)))
            p.ob('accepted exactly for two distinct planar points',s,eq(B(r),B(ok)))
            p.ob('an accepted line has exactly the given ends',s,imp(r,and_(eq(g.t,LINE),eqs(g.s,A),eqs(g.e,B_),not_(g.cw))))
            p.ob('a refused one leaves no geometry',s,imp(not_(r),and_(eq(g.t,NONE),*[eq(x,0) for x in g.s+g.e+g.c+[g.r,g.sa,g.ea]])))
            p.ob('what is reported is consistent afterwards',s,inv(e,g))
            p.frame('line',st1,s,p.fields(S,o,ALL))
        p.run(p.ctx.fn(S+'::SetParams(MCAD_POINT, MCAD_POINT)'),[o,a,b],post)
    return proof(S+'::SetParams (line)',run,spec=Spec)
def setp_arc():
    def run(p):
        st=p.st; e=p.e; o=p.obj('this'); c,a,b=[p.obj(n) for n in('center','start','end')]; l=[o,c,a,b]; cw=p.boolean('cw')
        for i in range(4):
            for j in range(i): st.assume(ne(l[i].base,l[j].base))
        C,A,E=[rd(p,st,x,3) for x in(c,a,b)]; st1=st.clone()
        d=lambda x: [R(x[i])-R(C[i]) for i in(0,1)]
        ang=lambda x: e.uf('f_atan2','Real','Real','Real')(d(x)[1],d(x)[0])
        def post(s,r):
            g=Seg(p,s,o); circ=pm(e,A,E,TOL); ok0=and_(eq(C[2],0),eq(A[2],0),eq(E[2],0),not_(pm(e,C,A,TOL)),not_(pm(e,C,E,TOL)))
            sq=lambda v: R(v)*R(v)
            p.ob('never accepted for points outside the plane or coincident with the centre',s,imp(r,ok0))
            p.ob('coinciding ends make a circle around the centre through them',s,imp(and_(ok0,circ),and_(r,eq(g.t,CIRCLE),eqs(g.c,C),ge(g.r,0),eq(sq(g.r),sq(d(A)[0])+sq(d(A)[1])),eqs(g.s,[R(C[0])+R(g.r),C[1],C[2]]),eqs(g.e,g.s),eq(g.sa,0),eq(g.ea,2*PI),not_(g.cw))))
            arc=and_(r,not_(circ))
            p.ob('an accepted arc has exactly the given centre, ends and direction',s,imp(arc,and_(eq(g.t,ARC),eqs(g.c,C),eqs(g.s,A),eqs(g.e,E),eq(B(g.cw),B(cw)))))
            p.ob('its radius is that of the start point',s,imp(arc,and_(ge(g.r,0),eq(sq(g.r),sq(d(A)[0])+sq(d(A)[1])))))
            r2=e.uf('f_sqrt','Real','Real')(sq(d(E)[0])+sq(d(E)[1]))
            p.ob('accepted exactly when both ends are at that radius',s,imp(and_(ok0,not_(circ)),eq(B(r),B(le(models.fabs(R(r2)-R(e.uf('f_sqrt','Real','Real')(sq(d(A)[0])+sq(d(A)[1])))),TOL)))))
            lo,hi=ang(A),ang(E)
            first,last=ite(cw,hi,lo),ite(cw,lo,hi)
            p.ob('its angles run counterclockwise from the first end',s,imp(arc,and_(eq(g.lo(),first),eq(g.hi(),ite(lt(last,first),R(last)+2*R(PI),last)))))
            p.ob('a refused one leaves no geometry',s,imp(not_(r),and_(eq(g.t,NONE),*[eq(x,0) for x in g.s+g.e+g.c+[g.r,g.sa,g.ea]])))
            p.ob('what is reported is consistent afterwards',s,inv(e,g))
            p.frame('arc',st1,s,p.fields(S,o,ALL))
        p.run(p.ctx.fn(S+'::SetParams(MCAD_POINT, MCAD_POINT, MCAD_POINT, bool)'),[o,c,a,b,cw],post)
    return proof(S+'::SetParams (arc)',run,spec=Spec)
GET=[('GetSegType',lambda g: g.t),('GetRadius',lambda g: g.r),('GetStartAngle',lambda g: g.lo()),('GetEndAngle',lambda g: g.hi()),('GetMSAngle',lambda g: g.sa),('GetMEAngle',lambda g: g.ea)]
GETP=[('GetCenter',lambda g: g.c),('GetStart',lambda g: [ite(g.cw,y,x) for x,y in zip(g.s,g.e)]),('GetEnd',lambda g: [ite(g.cw,x,y) for x,y in zip(g.s,g.e)]),('GetMStart',lambda g: g.s),('GetMEnd',lambda g: g.e)]
def get_task(n,f,pt):
    def run(p):
        st=p.st; o,g=seg(p,'this'); args=[o]
        if pt: res=p.obj('res'); st.assume(ne(res.base,o.base)); args=[res,o]
        st1=st.clone()
        def post(s,r):
            if pt: p.ob('reports the defined point',s,eqs(rd(p,s,res,3),f(g))); p.frame('get',st1,s,[('f64',add(res.off,8*i),res.base) for i in range(3)])
            else: p.ob('reports the defined value',s,eq(r,f(g))); p.frame('get',st1,s,[])
        p.run(p.ctx.fn('%s::%s() const'%(S,n)),args,post)
    return proof('%s::%s'%(S,n),run,spec=Spec)
def len_task():
    def run(p):
        st=p.st; o,g=seg(p,'this'); st1=st.clone()
        def post(s,r):
            d=[R(g.e[i])-R(g.s[i]) for i in(0,1)]
            p.ob('line: the distance between its ends',s,imp(eq(g.t,LINE),and_(ge(r,0),eq(R(r)*R(r),d[0]*d[0]+d[1]*d[1]))))
            p.ob('arc: radius times swept angle',s,imp(eq(g.t,ARC),eq(r,(R(g.hi())-R(g.lo()))*R(g.r))))
            p.ob('circle: the circumference',s,imp(eq(g.t,CIRCLE),eq(r,2*R(PI)*R(g.r))))
            p.ob('nothing: no length',s,imp(eq(g.t,NONE),eq(r,0))); p.frame('length',st1,s,[])
        p.run(p.ctx.fn(S+'::GetLength()'),[o],post)
    return proof(S+'::GetLength',run,spec=Spec)
def mid_task():
    def run(p):
        st=p.st; e=p.e; o,g=seg(p,'this'); q=p.obj('pt'); st.assume(ne(q.base,o.base)); st1=st.clone()
        def post(s,r):
            v=rd(p,s,q,3); a=(R(g.sa)+R(g.ea))*R(Fraction(1,2)); f=lambda n: e.uf('f_'+n,'Real','Real')(a)
            p.ob('succeeds exactly where there is geometry',s,eq(B(r),B(ne(g.t,NONE))))
            p.ob('line: halfway between its ends',s,imp(eq(g.t,LINE),and_(*[eq(2*R(v[i]),R(g.s[i])+R(g.e[i])) for i in(0,1)])))
            p.ob('arc: on the circle halfway along the angle',s,imp(eq(g.t,ARC),and_(eq(v[0],R(g.c[0])+R(g.r)*f('cos')),eq(v[1],R(g.c[1])+R(g.r)*f('sin')))))
            p.ob('circle: a point of the circle',s,imp(eq(g.t,CIRCLE),and_(eq(v[0],R(g.c[0])+R(g.r)),eq(v[1],g.c[1]))))
            p.frame('midpoint',st1,s,[('f64',add(q.off,8*i),q.base) for i in range(3)])
        p.run(p.ctx.fn(S+'::GetMidpoint(MCAD_POINT&)'),[o,q],post)
    return proof(S+'::GetMidpoint',run,spec=Spec)
def box(g):
    """the exact extent: the ends and the extreme points of the circle the arc passes through"""
    H=PI/2; inr={k:and_(le(g.lo(),k*H),le(k*H,g.hi())) for k in range(-1,6)}   # at -pi and 3 pi an end is met
    at=lambda q: or_(*[inr[k] for k in inr if k%4==q]); r=R(g.r)
    arc=[]
    for i in(0,1):
        l=mn(g.s[i],g.e[i]); h=mx(g.s[i],g.e[i])
        ex=[(at(q),(R(g.c[i])+d*r) if d else R(g.c[i])) for q,d in([(0,1),(2,-1),(1,0),(3,0)] if i==0 else [(1,1),(3,-1),(0,0),(2,0)])]
        for c,v in ex: l,h=ite(and_(c,lt(v,l)),v,l),ite(and_(c,gt(v,h)),v,h)
        arc.append((l,h))
    return [(ite(eq(g.t,ARC),arc[i][0],ite(eq(g.t,CIRCLE),R(g.c[i])-r,mn(g.s[i],g.e[i]))),ite(eq(g.t,ARC),arc[i][1],ite(eq(g.t,CIRCLE),R(g.c[i])+r,mx(g.s[i],g.e[i])))) for i in(0,1)]
def box_task():
    def run(p):
        p.e.mergepaths=p.e.keepints=True; st=p.st; e=p.e; o,g=seg(p,'this'); a,b=p.obj('p0'),p.obj('p1'); st.assume(and_(ne(a.base,o.base),ne(b.base,o.base),ne(a.base,b.base))); st1=st.clone()
        def post(s,r):
            v,w=rd(p,s,a,2),rd(p,s,b,2); bx=box(g); near=lambda x,y: and_(le(sub(x,y),TOL),le(sub(y,x),TOL))
            p.ob('succeeds exactly where there is geometry',s,eq(B(r),B(ne(g.t,NONE))))
            for i,n in((0,'x'),(1,'y')):
                for t,m in((LINE,'line'),(ARC,'arc'),(CIRCLE,'circle')):
                    q=near if (t,i)==(LINE,0) else eq
                    p.ob('%s: exact extent in %s'%(m,n),s,imp(eq(g.t,t),and_(q(v[i],bx[i][0]),q(w[i],bx[i][1]))))
            p.frame('box',st1,s,[('f64',add(x.off,8*i),x.base) for x in(a,b) for i in range(3)])
        p.run(p.ctx.fn(S+'::GetBoundingBox(MCAD_POINT&, MCAD_POINT&)'),[o,a,b],post)
    return proof(S+'::GetBoundingBox',run,spec=Spec,deadline=300)
def rev_task():
    def run(p):
        st=p.st; o,g=seg(p,'this'); st1=st.clone()
        def post(s,r):
            h=Seg(p,s,o); open_=or_(eq(g.t,LINE),eq(g.t,ARC))
            p.ob('the ends of a line or an arc change places',s,imp(open_,and_(eqs(h.s,g.e),eqs(h.e,g.s))))
            p.ob('the arc itself stays the same, run through the other way',s,imp(eq(g.t,ARC),and_(ne(B(h.cw),B(g.cw)),eq(h.sa,g.ea),eq(h.ea,g.sa),eq(h.lo(),g.lo()),eq(h.hi(),g.hi()))))
            p.ob('type, centre and radius stay',s,and_(eq(h.t,g.t),eqs(h.c,g.c),eq(h.r,g.r)))
            p.ob('a circle is unaffected',s,imp(not_(open_),and_(eqs(h.s,g.s),eqs(h.e,g.e),eq(B(h.cw),B(g.cw)),eq(h.sa,g.sa),eq(h.ea,g.ea))))
            p.ob('what is reported is consistent afterwards',s,inv(p.e,h))
            p.frame('reverse',st1,s,p.fields(S,o,ALL))
        p.run(p.ctx.fn(S+'::reverse()'),[o],post)
    return proof(S+'::reverse',run,spec=Spec)
def pm_task():
    def run(p):
        st=p.st; e=p.e; a,b=p.obj('p1'),p.obj('p2'); t=p.real('tol'); st.assume(ne(a.base,b.base)); st.assume(gt(t,0)); A,B_=rd(p,st,a,3),rd(p,st,b,3); st1=st.clone()
        sq=lambda v: sum(R(x)*R(x) for x in v); small=and_(le(sq(A),10**15),le(sq(B_),10**15)); d=sq([R(x)-R(y) for x,y in zip(A,B_)])
        def post(s,r):
            lim=mx(Fraction(3.0001)*R(t)*R(t),Fraction(3.0e-30))
            p.ob('points match exactly when their distance is within the tolerance',s,imp(small,eq(B(r),B(le(d,lim)))))
            p.ob('a point matches itself',s,imp(eqs(A,B_),r))
        p.run(p.ctx.fn('PointMatches(MCAD_POINT, MCAD_POINT, double)'),[a,b,t],post)
    class S2(Spec):
        def match(s,eng,st,dem,args,ins): return None
    return proof('PointMatches',run,spec=S2)
def norm_task():
    def run(p):
        st=p.st; e=p.e; a,b=p.obj('a0'),p.obj('a1'); st.assume(ne(a.base,b.base)); A,B_=e.mread(st,'f64',0,a.base),e.mread(st,'f64',0,b.base); p.spec.v=(A,B_)
        st.assume(and_(*[and_(le(-5*PI,x),le(x,5*PI)) for x in(A,B_)])); st1=st.clone()
        def post(s,r):
            k=R(e.mread(s,'f64',0,a.base))-R(A)
            p.ob('both angles change by the same number of full turns, as few as needed, until one is in range',s,and_(shift(A,B_,k),eq(e.mread(s,'f64',0,b.base),R(B_)+k)))
            p.frame('normalize',st1,s,[('f64',0,a.base),('f64',0,b.base)])
        p.run(p.ctx.fn('NORMALIZE_ANGLES(double&, double&)'),[a,b],post)
    class S2(Spec):
        def match(s,eng,st,dem,args,ins): return None
        def loop_inv(s,e,fn,lp,st0,items):
            it=list(items)
            if len(it)!=2 or any(x[0]!='mem' for x in it): return None
            A,B_=s.v; first=items[it[0]]
            class Inv:
                def name(v,x): return 'angle'
                def ghosts(v,e): return (e.fresh('turns','Real'),)
                def witness(v,get): return (R(get(it[0]))-R(items[it[0]]),)
                def cond(v,g):
                    k,=g; a,b=R(items[it[0]]),R(items[it[1]]); P=R(PI)
                    n=lambda x,y: z3.And(z3.Not(z3.And(x>P,y>P)),z3.Not(z3.And(x<=-P,y<=-P)))
                    return [('a whole number of turns',z3.Or([k==i*2*P for i in range(-3,4)])),('none if in range',z3.Implies(n(a,b),k==0)),('down from above',z3.Implies(k<0,z3.And(a>P,b>P,z3.Or(a+k>-P,b+k>-P)))),('up from below',z3.Implies(k>0,z3.And(a<=-P,b<=-P,z3.Or(a+k<=P,b+k<=P))))]
                def form(v,x,v0,g): return R(v0)+g[0]
            return Inv()
    return proof('NORMALIZE_ANGLES',run,spec=S2)

def points(p,name,n):
    """a list of n points of the plane"""
    o=p.obj(name); v=[[p.real('%s%d_%s'%(name,i,c)) for c in 'xyz'] for i in range(n)]
    p.e.mwrite(p.st,'list',0,o.base,SeqLit([Rec({8*k:('f64',x[k]) for k in range(3)}) for x in v]))
    return o,v
def split_task(kind,n):
    def run(p):
        p.e.mergepaths=p.e.keepints=True
        st=p.st; e=p.e; o,g=seg(p,'this'); t={'Line':LINE,'Arc':ARC,'Circle':CIRCLE}[kind]; st.assume(eq(g.t,t)); L,V=points(p,'points',n); N=p.obj('pieces'); st.assume(and_(ne(L.base,o.base),ne(N.base,o.base),ne(L.base,N.base)))
        e.mwrite(st,'list',0,N.base,SeqLit([]))
        for v in V:
            st.assume(eq(v[2],0))
            if t!=CIRCLE:
                for x in(g.s,g.e): st.assume(and_(not_(pm(e,v,x,TOL)),not_(eqs(v,x))))
        if n==2 and t!=CIRCLE: st.assume(and_(not_(pm(e,V[0],V[1],TOL)),not_(pm(e,V[1],V[0],TOL)),not_(eqs(V[0],V[1]))))
        if t!=CIRCLE: st.assume(and_(*[not_(pm(e,v,g.e,TOL)) for v in V]))
        f2=lambda v,c: [R(v[i])-R(c[i]) for i in(0,1)]
        if t==LINE:
            d=f2(g.e,g.s); m=lt(models.fabs(d[0]),models.fabs(d[1]))
            quo=lambda i: [(R(v[i])-R(g.s[i]))*(1/d[i]) for v in V]
            par=[ite(m,y,x) for x,y in zip(quo(0),quo(1))]
            # along the longer extent the point at the parameter is met exactly, what matters is the deviation in the other coordinate
            dev=lambda x,v,i: le(models.fabs(x*d[i]+R(g.s[i])-R(v[i])),TOL)
            on=[and_(le(0,x),le(x,1),ite(m,dev(x,v,0),dev(x,v,1))) for x,v in zip(par,V)]
        else:
            an=[e.uf('f_atan2','Real','Real','Real')(*reversed(f2(v,g.c))) for v in V]
            for a in an: st.assume(and_(le(-PI,a),le(a,PI)))
            rad=[le(models.fabs(sum(x*x for x in f2(v,g.c))-R(g.r)*R(g.r)),TOL) for v in V]
            if t==ARC:
                par=[ite(lt(a,g.lo()),R(a)+2*R(PI),a) for a in an]; on=[and_(x,le(a,g.hi())) for x,a in zip(rad,par)]
            else: on=rad
        st1=st.clone()
        def post(s,r):
            z=e.mread(s,'list',0,N.base); h=Seg(p,s,o)
            far=not_(and_(*[lt(models.fabs(x),TOL) for x in f2(V[0],V[1])])) if t==CIRCLE else True
            p.ob('succeeds exactly when every point lies on the segment',s,eq(B(r),B(and_(far,*on))))
            p.ob('refused: nothing is produced',s,imp(not_(r),and_(eq(z.len,0),eqs(h.s,g.s),eqs(h.e,g.e),eq(h.t,g.t),eq(h.sa,g.sa),eq(h.ea,g.ea),eq(B(h.cw),B(g.cw)))))
            if isinstance(z.len,int) and z.len==0: return
            k=1 if t==CIRCLE else n
            p.ob('as many further pieces as points',s,imp(r,eq(z.len,k)))
            if z.len!=k: return
            P=[Seg(p,s,z.at(i,'ptr',0)) for i in range(k)]
            for i,q in enumerate(P+[h]):
                w='piece %d'%(i+1) if i<k else 'the segment itself'
                p.ob(w+' is of the same kind and direction',s,imp(r,and_(eq(q.t,LINE if t==LINE else ARC),eq(B(q.cw),B(g.cw)))))
                if t!=LINE: p.ob(w+' is on the same circle',s,imp(r,and_(eqs(q.c,g.c),eq(q.r,g.r))))
                p.ob(w+' is consistent',s,imp(r,inv(e,q)))
            if t==CIRCLE:
                p.ob('one piece counterclockwise between the points, the segment takes the rest',s,imp(r,and_(eqs(P[0].s,V[0]),eqs(P[0].e,V[1]),eqs(h.s,V[1]),eqs(h.e,V[0]))))
                full=lambda a,b: ite(gt(a,b),R(b)+2*R(PI),b)
                for q,i,j in((P[0],0,1),(h,1,0)): p.ob('angles of the pieces',s,imp(r,turned(q.sa,q.ea,an[i],full(an[i],an[j]))))
            else:
                if n==1: C=[(V[0],par[0])]
                else:
                    sw=(gt(par[0],par[1]) if t==LINE else ite(g.cw,lt(par[0],par[1]),gt(par[0],par[1])))
                    tie=eq(par[0],par[1]); C=None
                    sw_=or_(sw,and_(tie,eqs(h.e,V[1])))
                    C=[([ite(sw_,y,x) for x,y in zip(V[0],V[1])],ite(sw_,par[1],par[0])),([ite(sw_,x,y) for x,y in zip(V[0],V[1])],ite(sw_,par[0],par[1]))]
                E=[(g.s,g.sa)]+C+[(g.e,g.ea)]
                for i,q in enumerate([h]+P):
                    p.ob('the pieces follow each other along the segment',s,imp(r,and_(eqs(q.s,E[i][0]),eqs(q.e,E[i+1][0]))))
                    if t==ARC: p.ob('angles of the pieces',s,imp(r,turned(q.sa,q.ea,E[i][1],E[i+1][1])))
            p.frame('split',st1,s,p.fields(S,o,ALL)+[('list',0,N.base)])
        p.run(p.ctx.fn(S+'::split%s(std::list<MCAD_POINT>&, std::list<MCAD_SEGMENT*>&)'%kind),[o,L,N],post)
    return proof(S+'::split%s (%d point%s)'%(kind,n,'s'*(n>1)),run,spec=Spec,deadline=300)
def turned(a,b,x,y):
    """the angles a,b are x,y up to the same number of full turns"""
    k=R(a)-R(x); return z3.And(R(b)==R(y)+k,z3.Or([k==i*2*R(PI) for i in range(-1,2)]))
# ---------------------------------------------------------------- whole segments and outlines
def ctor_task():
    def run(p):
        st=p.st; o=p.obj('this'); st1=st.clone()
        def post(s,r):
            g=Seg(p,s,o); p.ob('a new segment has no geometry',s,and_(eq(g.t,NONE),not_(g.cw),*[eq(x,0) for x in g.s+g.e+g.c+[g.r,g.sa,g.ea]])); p.ob('consistent from the start',s,inv(p.e,g))
            p.frame('init',st1,s,p.fields(S,o,ALL))
        p.run(p.ctx.fn(S+'::init()'),[o],post)
    return proof(S+'::init',run,spec=Spec)
def splitall_task(n):
    """Split drops the points at the ends and leaves the rest to the function for the kind of segment"""
    class SS(Spec):
        def match(s,eng,st,dem,args,ins):
            m=re.match(r'MCAD_SEGMENT::split(Line|Arc|Circle)\(',dem)
            if not m: return Spec.match(s,eng,st,dem,args,ins)
            p=s.p; t={'Line':LINE,'Arc':ARC,'Circle':CIRCLE}[m[1]]; p.ob('split as what it is',st,and_(eq(s.g.t,t),eq(st.ghost[('track','split')],0))); st.ghost[('track','split')]=1
            z=eng.mread(st,'list',0,s.L.base); keep=[True if t==CIRCLE else not_(or_(pm(eng,v,s.g.s,TOL),pm(eng,v,s.g.e,TOL))) for v in s.V]
            ln=0
            for k in keep: ln=add(ln,ite(k,1,0))
            p.ob('exactly the points away from the ends are handed on',st,and_(eq(args[0].base,s.this.base),eq(args[1].base,s.L.base),eq(args[2].base,s.N.base),eq(z.len,ln),lt(0,ln)))
            if isinstance(z.len,int):
                at=lambda i: [z.at(i,'f64',8*c) for c in range(3)]
                pos=0
                for i,k in enumerate(keep):
                    for j in range(z.len): p.ob('in their order, unchanged',st,imp(and_(k,eq(pos,j)),eqs(at(j),s.V[i])))
                    pos=add(pos,ite(k,1,0))
            return [(st,z3.Bool('split_ok'))]
    def run(p):
        st=p.st; sp=p.spec; e=p.e; e.keepints=True; o,g=seg(p,'this'); L,V=points(p,'points',n); N=p.obj('pieces'); st.assume(and_(ne(L.base,o.base),ne(N.base,o.base),ne(L.base,N.base))); e.mwrite(st,'list',0,N.base,SeqLit([]))
        for v in V:
            for x in(g.s,g.e): st.assume(imp(eqs(v,x),pm(e,v,x,TOL)))
        sp.this,sp.g,sp.L,sp.V,sp.N=o,g,L,V,N; st.ghost[('track','split')]=0; st1=st.clone()
        some=or_(*[not_(or_(pm(e,v,g.s,TOL),pm(e,v,g.e,TOL))) for v in V]) if n else False
        def post(s,r):
            go=and_(ne(g.t,NONE),0<n<3,or_(some,and_(eq(g.t,CIRCLE),n>0)))
            p.ob('split exactly when there is a point to split at',s,eq(s.ghost[('track','split')],ite(go,1,0)))
            p.ob('the result is that of the split',s,eq(B(r),B(and_(go,z3.Bool('split_ok'))))); p.frame('Split',st1,s,[('list',0,L.base)])
        p.run(p.ctx.fn(S+'::Split(std::list<MCAD_POINT>&, std::list<MCAD_SEGMENT*>&)'),[o,L,N],post)
    return proof(S+'::Split (%d point%s)'%(n,'s'*(n!=1)),run,spec=SS)
SYM='PointMatches does not depend on the order of the two points (both directions compute the same distance)'
REV=ALL[2:5]+F3('mstart')+F3('mend')
def revval(g,n):
    """field n of segment g after reverse() (proved for MCAD_SEGMENT::reverse)"""
    open_=or_(eq(g.t,LINE),eq(g.t,ARC)); arc=eq(g.t,ARC)
    if n in('msang','meang'): a,b=(g.sa,g.ea) if n=='msang' else (g.ea,g.sa); return ite(arc,b,a)
    if n=='mCWArc': return ite(arc,ite(g.cw,0,1),ite(g.cw,1,0))
    i='xyz'.index(n[-1]); a,b=(g.s,g.e) if n[:6]=='mstart' else (g.e,g.s); return ite(open_,b[i],a[i])
def bb(e,base,i): return e.uf('extent_%s'%('x0','y0','x1','y1')[i],'Int','Real')(I(base))
class OSpec(Spec):
    """contracts of MCAD_SEGMENT (all proved above); floor and ceil by their definition"""
    def match(s,eng,st,dem,args,ins):
        p=s.p
        if dem in('floor','ceil') or re.match(r'std::(floor|ceil)\(',dem):
            x=R(args[0]); f=z3.ToReal(z3.ToInt(x)) if 'floor' in dem else -z3.ToReal(z3.ToInt(-x)); return [(st,f)]
        if dem=='MCAD_SEGMENT::GetBoundingBox(MCAD_POINT&, MCAD_POINT&)':
            b=args[0].base; t=p.get(st,args[0],S,'msegtype'); p.ob('the extent is asked of a segment that has one',st,ne(t,NONE))
            for i in range(4): eng.mwrite(st,'f64',add(args[1+i//2].off,8*(i%2)),args[1+i//2].base,bb(eng,b,i))
            st.assume(and_(le(bb(eng,b,0),bb(eng,b,2)),le(bb(eng,b,1),bb(eng,b,3)))); return [(st,True)]
        if dem=='MCAD_SEGMENT::GetMidpoint(MCAD_POINT&)':
            for i in range(2): eng.mwrite(st,'f64',add(args[1].off,8*i),args[1].base,s.mid(args[0].base,i))
            return [(st,True)]
        if dem=='MCAD_SEGMENT::reverse()':
            g=Seg(p,st,args[0]); v={n: revval(g,n) for n in REV}
            for n in REV: p.put(st,args[0],S,n,v[n])
            return [(st,None)]
        if dem=='PointMatches(MCAD_POINT, MCAD_POINT, double)':
            a=[eng.mread(st,'f64',add(args[0].off,8*i),args[0].base) for i in range(3)]; b=[eng.mread(st,'f64',add(args[1].off,8*i),args[1].base) for i in range(3)]
            return [(st,pm(eng,a,b,args[2]))]
        return Spec.match(s,eng,st,dem,args,ins)
    def mid(s,b,i): return s.p.e.uf('midpoint_%s'%'xy'[i],'Int','Real')(I(b))
def outline(p,st,o):
    """the segment list of an outline: distinct segments with geometry"""
    e=p.e; E=e.symlike('segments',p.get(st,o,O,'msegments'),st); p.put(st,o,O,'msegments',E); st.assume(and_(le(0,E.len),lt(E.len,2**30))); q=freshint('q'); idx=e.uf('idx','Int','Int'); x=E.at(q,'ptr',0)
    t=e.mread(st,*reversed(p.ctx.F(S,'msegtype')),x.base)
    st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(E.len)),z3.And(B(lt(0,x.base)),B(eq(x.off,0)),B(ne(x.base,o.base)),idx(I(x.base))==q,B(or_(*[eq(t,k) for k in(LINE,ARC,CIRCLE)]))))))
    return E
def contiguous_task():
    class CS(OSpec):
        def loop_candidates(s,e,fn,lp,st,sym,items,N):
            out=[]
            for it,v in sym.items():
                if it[0]=='phi' and isz(v) and z3.is_bool(v): q=freshint('q'); out.append(v==z3.Exists([q],z3.And(q>=0,q<N,z3.Not(B(s.meets(q))))))
                elif it[0]=='phi' and isz(v) and z3.is_int(v) and not v.eq(N): q=freshint('q'); out.append((v!=0)==z3.Exists([q],z3.And(q>=0,q<N,z3.Not(B(s.meets(q))))))
            return out
    def run(p):
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); E=outline(p,st,o); n=E.len; cl=p.get(st,o,O,'mIsClosed'); st1=st.clone()
        def meets(k): a,b=Seg(p,st1,E.at(k,'ptr',0)),Seg(p,st1,E.at(ite(eq(k,0),sub(n,1),sub(k,1)),'ptr',0)); return pm(e,a.s,b.e,TOL)
        sp.meets=meets
        def post(s,r):
            k=freshint('k'); circ=eq(Seg(p,st1,E.at(0,'ptr',0)).t,CIRCLE)
            p.ob('every segment starts where the one before it ends',s,imp(and_(r,not_(circ),le(0,k),lt(k,n)),meets(k)))
            q=freshint('q'); p.ob('reported exactly for closed outlines without a gap',s,z3.Implies(z3.And(B(lt(0,n)),B(ne(cl,0)),z3.Or(B(circ),z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(n)),B(meets(q)))))),B(r)))
            p.ob('neither for open nor for empty outlines',s,imp(r,and_(lt(0,n),ne(cl,0)))); p.frame('IsContiguous',st1,s,[])
        p.run(p.ctx.fn(O+'::IsContiguous()'),[o],post)
    return proof(O+'::IsContiguous',run,spec=CS)
BB=['mBottomLeft.x','mBottomLeft.y','mTopRight.x','mTopRight.y']
def small(p,st,o): st.assume(and_(*[and_(le(-2**30,p.get(st,o,O,n)),le(p.get(st,o,O,n),2**30)) for n in BB]))
def adjust_task():
    def run(p):
        st=p.st; o=p.obj('this'); small(p,st,o); b0=[p.get(st,o,O,n) for n in BB]; st.assume(and_(le(b0[0],b0[2]),le(b0[1],b0[3]))); st1=st.clone()
        def post(s,r):
            b=[p.get(s,o,O,n) for n in BB]; w=R(b[2])-R(b[0])
            p.ob('the extent is not reduced',s,and_(le(b[0],b0[0]),le(b[1],b0[1]),ge(b[2],b0[2]),ge(b[3],b0[3])))
            p.ob('it is square',s,eq(w,R(b[3])-R(b[1]))); p.ob('of an even width',s,z3.ToInt(w)%2==0)
            p.ob('on whole numbers',s,and_(z3.IsInt(R(b[0])),z3.IsInt(R(b[1])),z3.IsInt(w)))
            p.ob('and no larger than needed',s,lt(w,mx(R(b0[2])-R(b0[0]),R(b0[3])-R(b0[1]))+3)); p.frame('adjust',st1,s,p.fields(O,o,BB))
        p.run(p.ctx.fn(O+'::adjustBoundingBox()'),[o],post)
    return proof(O+'::adjustBoundingBox',run,spec=OSpec)
def bbox_task():
    class BS(OSpec):
        def match(s,eng,st,dem,args,ins):
            if dem=='MCAD_OUTLINE::adjustBoundingBox()': st.ghost[('track','adj')]=add(st.ghost[('track','adj')],1); return [(st,None)]
            return OSpec.match(s,eng,st,dem,args,ins)
        def loop_inv(s,e,fn,lp,st0,items):
            n=s.E.len; tgt={}; p=s.p
            for i,nm in enumerate(BB):
                off,k=p.ctx.F(O,nm)
                for it in items:
                    if it[0]=='mem' and it[1]==(k,off) and (it[2].eq(s.o.base) if hasattr(it[2],'eq') and isz(s.o.base) else it[2]==s.o.base): tgt[it]=i
            phis=[it for it in items if it[0]=='phi']
            itx=[it for it in items if isinstance(items[it],Iter)]
            if len(tgt)!=4 or len(itx)!=1 : return None
            it0=itx[0]; base=items[it0]
            class Inv:
                g0=None
                def name(v,x): return BB[tgt[x]] if x in tgt else str(x[0])
                def ghosts(v,e): v.g0=(e.fresh('at'),)+tuple(e.fresh('ext%d'%i,'Real') for i in range(4))+tuple(e.fresh('who%d'%i) for i in range(4)); return v.g0
                def witness(v,get):
                    i=get(it0).idx; cur=[None]*4
                    for x,j in tgt.items(): cur[j]=get(x)
                    g=v.g0; who=[0 if g is None else ite(eq(cur[j],g[1+j]),g[5+j],g[0]) for j in range(4)]
                    return (i,)+tuple(cur)+tuple(who)
                def cond(v,g):
                    i,c,w=g[0],g[1:5],g[5:9]; q=freshint('q'); qe=s.E.at(q,'ptr',0).base
                    r=[('a position inside the list',and_(le(1,i),le(i,n)))]
                    for j in range(4):
                        cmp=le if j<2 else ge
                        r.append(('every segment so far is inside',z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(i)),B(cmp(c[j],bb(e,qe,j)))))))
                        r.append(('touched by one of them',and_(le(0,w[j]),lt(w[j],i),eq(c[j],bb(e,s.E.at(w[j],'ptr',0).base,j)))))
                    return r
                def form(v,x,v0,g):
                    if x in tgt: return g[1+tgt[x]]
                    if x==it0: return Iter(base.kind,base.cont,g[0])
                    return v0 if x[0] in('ghost','log') else None
            return Inv()
    def run(p):
        st=p.st; e=p.e; sp=p.spec; e.mergepaths=True; o=p.obj('this'); E=outline(p,st,o); n=E.len; cl=p.get(st,o,O,'mIsClosed'); sp.E,sp.o=E,o; st.ghost[('track','adj')]=0; st1=st.clone()
        def post(s,r):
            go=and_(lt(0,n),ne(cl,0)); b=[p.get(s,o,O,x) for x in BB]; k=freshint('k'); kb=E.at(k,'ptr',0).base
            p.ob('no segment sticks out of the extent',s,imp(and_(go,le(0,k),lt(k,n)),and_(*[(le if i<2 else ge)(b[i],bb(e,kb,i)) for i in range(4)])))
            q=freshint('q'); qb=E.at(q,'ptr',0).base
            for i in range(4): p.ob('the extent is reached by a segment: '+BB[i],s,z3.Implies(B(go),z3.Exists([q],z3.And(q>=0,q<I(n),B(eq(b[i],bb(e,qb,i)))))))
            p.ob('made square once and marked as up to date',s,imp(go,and_(eq(s.ghost[('track','adj')],1),ne(p.get(s,o,O,'mBBisOK'),0))))
            p.frame('calcBoundingBox',st1,s,p.fields(O,o,BB+['mBBisOK']))
        p.run(p.ctx.fn(O+'::calcBoundingBox()'),[o],post)
    return proof(O+'::calcBoundingBox',run,spec=BS)
def wrap_task(name,arg,opsub):
    sig='%s(%s*, bool&)'%(name,arg)
    class WS(OSpec):
        def slotname(s,slot):
            v=s.p.ctx.mod.vtable(S); d=s.p.ctx.mod.dem.get(v[slot]) if slot is not None and slot<len(v) else None
            return re.sub(r'^\w+::','',d) if d else None
        def match(s,eng,st,dem,args,ins):
            p=s.p
            if dem=='MCAD_OUTLINE::opOutline(%s*, bool&, bool)'%arg:
                v=args[3]; sub_=v if isinstance(v,bool) or (isz(v) and z3.is_bool(v)) else ne(v,0)
                p.ob('applied once, to this outline, '+('subtracting' if opsub else 'adding'),st,and_(eq(args[0].base,s.o.base),eq(args[1].base,s.a.base),eq(args[2].base,s.er.base),B(sub_)==B(opsub),eq(st.ghost[('track','op')],0))); st.ghost[('track','op')]=1
                eng.mwrite(st,s.ek,args[2].off,args[2].base,ite(z3.Bool('op_err'),1,0)); return [(st,z3.Bool('op_res'))]
            if dem in('@virtual ~MCAD_SEGMENT()','MCAD_SEGMENT::~MCAD_SEGMENT()','operator delete(void*, unsigned long)','operator delete(void*)'):
                if '~' in dem: p.ob('only the circle which was used up is destroyed',st,and_(eq(args[0].base,s.a.base),z3.Bool('op_res'),not_(z3.Bool('op_err')),eq(st.ghost[('track','del')],0))); st.ghost[('track','del')]=1
                return [(st,None)]
            return OSpec.match(s,eng,st,dem,args,ins)
    def run(p):
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); a=p.obj('arg'); st.assume(ne(o.base,a.base)); sp.ek='i8'; er=p.cell('i8',ite(z3.Bool('err0'),1,0)); sp.o,sp.a,sp.er=o,a,er
        for n in('op','del'): st.ghost[('track',n)]=0
        st.assume(imp(z3.Bool('op_err'),True)); st1=st.clone()
        def post(s,r):
            ok=and_(z3.Bool('op_res'),not_(z3.Bool('op_err')))
            p.ob('succeeds exactly when the outline took it, without an error',s,eq(B(r),B(ok))); p.ob('an error is passed on',s,eq(ne(e.mread(s,sp.ek,0,er.base),0),z3.Bool('op_err')))
            p.ob('a circle which was used up is destroyed, any other argument is left',s,eq(s.ghost[('track','del')],ite(ok,1,0) if arg==S else 0))
            p.frame(name,st1,s,p.fields(O,o,['errors']))
        p.run(p.ctx.fn(O+'::'+sig),[o,a,er],post)
    return proof('%s::%s(%s)'%(O,name,'circle' if arg==S else 'outline'),run,spec=WS)
def cutout_task(arg):
    circ=arg==S
    class CS(OSpec):
        def match(s,eng,st,dem,args,ins):
            p=s.p; tr=lambda n: st.ghost[('track',n)]
            m=re.match(r'MCAD_OUTLINE::(Sub|Add)Outline\(%s\*, bool&\)'%arg,dem)
            if not m: return OSpec.match(s,eng,st,dem,args,ins)
            k=tr('tried'); res=eng.uf('take','Int','Bool')(I(k)); err=eng.uf('take_err','Int','Bool')(I(k)); st.assume(not_(and_(res,err)))
            if m[1]=='Sub': ob=and_(eq(args[0].base,s.o.base),eq(k,0))
            else: ob=and_(le(1,k),le(k,s.C.len),eq(args[0].base,s.C.at(sub(k,1),'ptr',0).base))
            p.ob('first cut out of the outline, then joined to each of its cutouts in turn',st,and_(s.over,ob,eq(args[1].base,s.a.base),eq(args[2].base,s.er.base)))
            j=freshint('j'); p.ob('not offered any further once it is taken or an error has occurred',st,imp(and_(le(0,j),lt(j,k)),not_(or_(eng.uf('take','Int','Bool')(j),eng.uf('take_err','Int','Bool')(j)))))
            st.ghost[('track','tried')]=add(k,1); eng.mwrite(st,'i8',args[2].off,args[2].base,ite(err,1,0)); return [(st,res)]
        def loop_inv(s,e,fn,lp,st0,items):
            itx=[it for it in items if isinstance(items[it],Iter)]
            if len(itx)!=1: return None
            it0=itx[0]; tk=[it for it in items if it[0]=='ghost' and it[1]==('track','tried')]; er=[it for it in items if it[0]=='mem' and it[1]==('i8',0)]
            if len(tk)!=1 or any(it[0]=='mem' and it not in er for it in items): return None
            class Inv:
                def name(v,x): return str(x[:2])
                def ghosts(v,e): return (e.fresh('at'),)
                def witness(v,get): return (get(it0).idx,)
                def cond(v,g):
                    q=freshint('q'); return [('position',and_(le(0,g[0]),le(g[0],s.C.len))),('nobody took it so far',z3.ForAll([q],z3.Implies(z3.And(q>=0,q<=I(g[0])),z3.Not(z3.Or(e.uf('take','Int','Bool')(q),e.uf('take_err','Int','Bool')(q))))))]
                def form(v,x,v0,g):
                    if x==it0: return Iter(v0.kind,v0.cont,g[0])
                    if x==tk[0]: return add(g[0],1)
                    if x in er: return 0
                    return v0 if x[0] in('ghost','log') else None
            return Inv()
    def run(p):
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); a=p.obj('arg',nonnull=False); st.assume(ne(o.base,a.base)); er=p.cell('i8',ite(z3.Bool('err0'),1,0)); over=z3.Bool('overlaps')
        C=e.symlike('cutouts',p.get(st,o,O,'mcutouts'),st); p.put(st,o,O,'mcutouts',C); H=e.symlike('holes',p.get(st,o,O,'mholes'),st); p.put(st,o,O,'mholes',H); st.assume(and_(le(0,C.len),le(0,H.len))); q=freshint('q'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(C.len)),C.at(q,'ptr',0).base>0)))
        sp.o,sp.a,sp.er,sp.C,sp.over=o,a,er,C,over; st.ghost[('track','tried')]=0
        fit=eq(p.get(st,a,S,'msegtype'),CIRCLE) if circ else ne(p.get(st,a,O,'mIsClosed'),0); st1=st.clone()
        def post(s,r):
            er1=ne(e.mread(s,'i8',0,er.base),0); t=s.ghost[('track','tried')]; tk=e.uf('take','Int','Bool'); te=e.uf('take_err','Int','Bool'); good=and_(ne(a.base,0),fit); last=I(sub(t,1))
            p.ob('refused with an error if it is not '+('a circle' if circ else 'a closed outline'),s,imp(not_(good),and_(not_(r),er1,eq(t,0))))
            p.ob('fails exactly with an error',s,eq(B(r),B(not_(er1))))
            c1,h1=p.get(s,o,O,'mcutouts'),p.get(s,o,O,'mholes'); own=h1 if circ else c1; old=H if circ else C
            taken=and_(lt(0,t),tk(last)); kept=and_(r,not_(taken))
            p.ob('an error of a merge is reported',s,imp(and_(lt(0,t),te(last)),er1))
            p.ob('kept as a separate cutout only after everything it could be merged with was tried',s,imp(and_(kept,over),eq(t,add(C.len,1))))
            p.ob('no merge is tried if it is known not to overlap',s,imp(not_(over),eq(t,0)))
            p.ob('listed at the end exactly if nothing took it',s,and_(eq(own.len,add(old.len,ite(kept,1,0))),imp(kept,own.at(old.len,'ptr',0).base==I(a.base))))
            k=freshint('k'); p.ob('the cutouts before it stay',s,imp(and_(le(0,k),lt(k,old.len)),eq(own.at(k,'ptr',0).base,old.at(k,'ptr',0).base)))
            p.frame('AddCutout',st1,s,p.fields(O,o,['errors','mholes' if circ else 'mcutouts']))
        p.run(p.ctx.fn('%s::AddCutout(%s*, bool, bool&)'%(O,arg)),[o,a,over,er],post)
    return proof('%s::AddCutout (%s)'%(O,'circle' if circ else 'outline'),run,spec=CS)
def addsegment_task():
    class AS(OSpec):
        def heap_inv(s,e,fn,lp,st0,items,whole):
            p=s.p; keys={}
            for n in REV: off,k=p.ctx.F(S,n); keys[(k,off)]=n
            if not set(whole)<=set(keys): return None
            itx=[it for it in items if isinstance(items[it],Iter)]; lst=[it for it in items if it[0]=="mem" and isinstance(items[it],Seq)]
            if len(itx)!=1 or len(lst)!=1: return None
            it0=itx[0]; M=s.M(e,st0); idx=e.uf('idx','Int','Int'); done=lambda b,i: and_(le(0,idx(I(b))),lt(idx(I(b)),i),eq(M.at(idx(I(b)),'ptr',0).base,b))
            class Inv:
                def name(v,x): return str(x[:2])
                def ghosts(v,e): return (e.fresh('at'),)
                def witness(v,get): return (get(it0).idx,)
                def cond(v,g): return [('position',and_(le(0,g[0]),le(g[0],M.len)))]
                def form(v,x,v0,g):
                    if x==it0: return Iter(v0.kind,v0.cont,g[0])
                    if x==lst[0]: return SeqMap(g[0],lambda j: [M.at(sub(sub(g[0],1),j),'ptr',0)])
                    return v0 if x[0] in('ghost','log') else None
                def wform(v,k,g): return lambda b,old: ite(done(b,g[0]),revval(Seg(p,st0,Ptr(b,0)),keys[k]),old)
            return Inv()
        def M(s,e,st): off,k=s.p.ctx.F(O,'msegments'); return s.p.get(st,s.o,O,'msegments')
    def run(p):
        p.e.mergepaths=True
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); a=p.obj('seg',nonnull=False); er=p.cell('i8',ite(z3.Bool('err0'),1,0)); sp.o=o
        E=outline(p,st,o); n=E.len; idx=e.uf('idx','Int','Int'); q=freshint('q')
        p.put(st,o,O,'mIsClosed',ite(z3.Bool('closed0'),1,0)); cl=z3.Bool('closed0')
        st.assume(and_(ne(o.base,a.base),imp(ne(a.base,0),eq(idx(I(a.base)),n)))); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(n)),E.at(q,'ptr',0).base!=I(a.base))))
        g=Seg(p,st,a); st.assume(imp(ne(a.base,0),inv(e,g)))
        small(p,st,o); b0=[p.get(st,o,O,x) for x in BB]; w0=p.get(st,o,O,'mWinding'); ab=[bb(e,a.base,i) for i in range(4)]; st.assume(and_(*[and_(le(-2**30,x),le(x,2**30)) for x in ab])); st.assume(and_(le(ab[0],ab[2]),le(ab[1],ab[3]),imp(lt(0,n),and_(le(b0[0],b0[2]),le(b0[1],b0[3])))))
        # the segments of an open outline follow each other
        first,last=Seg(p,st,E.at(0,'ptr',0)),Seg(p,st,E.at(sub(n,1),'ptr',0)); st1=st.clone()
        ap=Ptr(a.base,0)
        def post(s,r):
            er1=ne(e.mread(s,'i8',0,er.base),0); circ=eq(g.t,CIRCLE)
            ok=and_(ne(a.base,0),ne(g.t,NONE),not_(cl),imp(circ,eq(n,0)),imp(and_(not_(circ),lt(0,n)),pm(e,last.e,g.s,TOL)))
            p.ob('accepted exactly if it continues an open outline, or is a circle of its own',s,eq(B(r),B(ok))); p.ob('a refusal is an error',s,eq(B(er1),B(not_(ok))))
            L=p.get(s,o,O,'msegments'); cl1=ne(p.get(s,o,O,'mIsClosed'),0); w1=p.get(s,o,O,'mWinding'); b=[p.get(s,o,O,x) for x in BB]
            k=freshint('k'); inn=and_(le(0,k),lt(k,n)); new=lambda i: ite(eq(i,n),a.base,E.at(i,'ptr',0).base)
            p.ob('a refused segment changes nothing',s,imp(not_(ok),and_(eq(L.len,n),imp(inn,eq(L.at(k,'ptr',0).base,new(k))),eq(B(cl1),B(cl)),eq(w1,w0),*[eq(x,y) for x,y in zip(b,b0)])))
            closes=or_(circ,and_(lt(0,n),pm(e,g.e,first.s,TOL)))
            p.ob('the outline is closed exactly when the segment ends where the outline starts',s,imp(ok,eq(B(cl1),B(closes))))
            mid=[sp.mid(a.base,i) for i in(0,1)]; tr=lambda u,v: (R(v[0])-R(u[0]))*(R(v[1])+R(u[1]))
            term=ite(eq(g.t,ARC),tr(g.s,mid)+tr(mid,g.e),tr(g.s,g.e))
            p.ob('the winding counts the area below every segment',s,imp(and_(ok,not_(circ)),eq(w1,R(w0)+term)))
            flip=and_(ok,not_(circ),closes,gt(w1,0)); m=add(n,1); kk=and_(le(0,k),lt(k,m))
            p.ob('as many segments as were added',s,imp(ok,eq(L.len,m)))
            if not(isinstance(L.len,int) and L.len==0):
                p.ob('kept in the order added, or all turned round if they ran clockwise',s,imp(and_(ok,kk),eq(L.at(k,'ptr',0).base,ite(and_(flip,ne(m,2)),new(sub(n,k)),new(k)))))
            h=Ptr(new(k),0); old=Seg(p,st1,h)
            for x in REV:
                v0,v1=p.get(st1,h,S,x),p.get(s,h,S,x)
                p.ob('the segments of a clockwise outline are each reversed, all others stay: '+x,s,imp(and_(ok,kk),eq(v1,ite(flip,revval(old,x),v0))))
            box=[ite(eq(n,0),x,(mn if i<2 else mx)(y,x)) for i,(x,y) in enumerate(zip(ab,b0))]
            p.ob('the extent of an open outline is that of its segments',s,imp(and_(ok,not_(closes)),and_(*[eq(x,y) for x,y in zip(b,box)])))
            p.ob('that of a closed outline covers them',s,imp(and_(ok,closes),and_(*[(le if i<2 else ge)(b[i],box[i]) for i in range(4)])))
            p.ob('a closed outline has an up-to-date extent',s,imp(and_(ok,closes),ne(p.get(s,o,O,'mBBisOK'),0)))
        p.run(p.ctx.fn(O+'::AddSegment(MCAD_SEGMENT*, bool&)'),[o,a,er],post)
    return proof(O+'::AddSegment',run,spec=AS,deadline=400)
def chain_task():
    """lemma over the contracts of AddSegment and reverse: what has been added follows each other, whichever way round"""
    def run(p):
        st=p.st; e=p.e; n=p.i32('n',0); m=add(n,1); k=p.i32('k',0); flip=p.boolean('flip'); closes=p.boolean('closes')
        fl={x: e.uf('old_'+x,'Int','Bool' if x=='mCWArc' else 'Int' if x=='msegtype' else 'Real') for x in ALL}
        class G:
            def __init__(g,i):
                f=lambda x: fl[x](I(i)); g.t=f('msegtype'); g.cw=f('mCWArc'); g.sa,g.ea=f('msang'),f('meang'); g.s,g.e=[[f(x) for x in F3(y)] for y in('mstart','mend')]
        class H:
            def __init__(h,i):
                g=G(i); h.s,h.e=[[ite(flip,revval(g,x),v) for x,v in zip(F3(y),w)] for y,w in(('mstart',g.s),('mend',g.e))]
        at=lambda i: ite(and_(flip,ne(m,2)),sub(n,i),i)
        for i in(k,sub(sub(n,1),k),0):
            for j in(i,add(i,1)): st.assume(imp(and_(le(0,j),lt(j,m)),or_(eq(G(j).t,LINE),eq(G(j).t,ARC))))
            st.assume(imp(and_(le(0,i),lt(i,n)),pm(e,G(i).e,G(add(i,1)).s,TOL)))
        st.assume(or_(eq(G(n).t,LINE),eq(G(n).t,ARC))); st.assume(imp(closes,and_(lt(0,n),pm(e,G(n).e,G(0).s,TOL)))); st.assume(imp(flip,closes)); e.assumptions.add(SYM)
        met=lambda x,y: or_(pm(e,x.e,y.s,TOL),pm(e,y.s,x.e,TOL))
        p.ob('the segments follow each other',st,imp(and_(le(0,k),lt(k,n)),met(H(at(k)),H(at(add(k,1))))))
        p.ob('a closed outline ends where it starts',st,imp(closes,met(H(at(n)),H(at(0)))))
    return proof('lemma: outlines are chains of segments',run,spec=OSpec)
def tasks(ctx,thorough):
    T=[pm_task(),norm_task(),setp_line(),setp_arc()]+[get_task(n,f,False) for n,f in GET]+[get_task(n,f,True) for n,f in GETP]+[len_task(),mid_task(),box_task(),rev_task()]+[split_task(k,n) for k,n in(('Line',1),('Line',2),('Arc',1),('Arc',2),('Circle',2))]
    T+=[ctor_task()]+[splitall_task(n) for n in range(4)]+[contiguous_task(),adjust_task(),bbox_task()]+[wrap_task(n,t,n=='SubOutline') for n in('AddOutline','SubOutline') for t in(S,O)]+[addsegment_task(),chain_task()]+[cutout_task(S),cutout_task(O)]
    return T
REPLAY='c18.cpp'; REPLAY_N=400
