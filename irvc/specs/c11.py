"""C11: rescaling multiplies every length-valued parameter once and nothing else."""
from lib import *
from units import TAB
# length-valued parameters of each entity type (IGES 5.3, clause 4); everything else must stay as it is
LEN={'100':'ZT X1 Y1 X2 Y2 X3 Y3','102':'','104':'D E ZT X1 Y1 X2 Y2','108':'D X Y Z Size','110':'X1 Y1 Z1 X2 Y2 Z2','120':'',
 '122':'LX LY LZ','124':'','126':'','128':'','142':'','144':'','154':'H R X1 Y1 Z1','164':'L','180':'','186':'','308':'','314':'',
 '406':'','408':'X Y Z','502':'','504':'','508':'','510':'','514':'','NULL':''}
AREA={'104':['F']}     # A x^2 + B x y + C y^2 + D x + E y + F = 0: F has the dimension of a squared length
class Spec(LibSpec):
    strtab=TAB
    check_bounds=True
    def dyncast(s,eng,st,p,tinfo,ins): return [(st,p)]
    def match(s,eng,st,dem,args,ins):
        if dem=='@virtual rescale(double)':
            eng.deref(st,args[0],ins,'call')
            st.event('rescale',args[0],args[1]); return [(st,eng.uf('rescale_ok','Int','Bool')(I(args[0].base)))]
        return None
    def loop_candidates(s,eng,fn,lp,st,sym,items,N):
        f=getattr(s,'chain',None)
        return f(eng,st,sym,items,N) if f else []
def plain(cls):
    n=cls[len('IGES_ENTITY_'):]
    def run(p):
        st=p.st; this=p.obj('this'); sf=p.real('sf')
        L=[(f,sf) for f in LEN[n].split()]+[(f,sf*sf) for f in AREA.get(n,[])]
        old={f:p.get(st,this,cls,f) for f,_ in L}
        if n=='124': t,_=p.ctx.F(cls,'T'); tv=[p.e.mread(st,'f64',add(this.off,t+72+8*i),this.base) for i in range(3)]
        if n=='502': vs=p.get(st,this,cls,'vertices')
        st1=st.clone()
        def post(s,r):
            p.ob('succeeds',s,r)
            al=[]
            for f,k in L:
                p.ob('%s is multiplied once'%f,s,veq(p.get(s,this,cls,f),R(old[f])*k)); al+=p.fields(cls,this,[f])
            if n=='124':
                for i in range(3):
                    p.ob('translation is multiplied once',s,veq(p.e.mread(s,'f64',add(this.off,t+72+8*i),this.base),R(tv[i])*sf)); al.append(('f64',add(this.off,t+72+8*i),this.base))
            if n=='502':
                v2=p.get(s,this,cls,'vertices'); k=freshint('vk'); inr=and_(le(0,k),lt(k,vs.len))
                p.ob('same number of vertices',s,eq(v2.len,vs.len))
                for c in range(3): p.ob('every vertex is multiplied once',s,imp(inr,veq(v2.at(k,'f64',8*c),R(vs.at(k,'f64',8*c))*sf)))
                al+=p.fields(cls,this,['vertices'])
            p.frame('rescale',st1,s,al)
        p.run(p.ctx.method(cls,'rescale'),[this,sf],post)
    return proof('%s::rescale'%cls,run,spec=Spec)
def nurbs(cls):
    def run(p):
        st=p.st; e=p.e; this=p.obj('this'); sf=p.real('sf')
        g=lambda f: p.get(st,this,cls,f)
        co=g('coeffs'); rat=eq(g('PROP3'),0)
        cnt=g('nCoeffs') if cls.endswith('126') else mul(g('nCoeffs1'),g('nCoeffs2'))
        knots=[g('knots')] if cls.endswith('126') else [g('knots1'),g('knots2')]
        arr=p.e.mread(st,'arr',0,co.base)
        st.assume(B(ge(cnt,0))); st.assume(B(lt(cnt,2**24)))
        if not cls.endswith('126'):
            for f in('nCoeffs1','nCoeffs2'): st.assume(B(and_(ge(g(f),0),lt(g(f),4096))))
        # object invariant (established by readPD and SetNURBSData): a present array holds exactly the control points
        st.assume(B(imp(ne(co.base,0),or_(and_(rat,eq(arr.len,mul(4,cnt))),and_(not_(rat),eq(arr.len,mul(3,cnt)))))))
        for k in knots: st.assume(B(imp(ne(co.base,0),ne(k.base,co.base))))
        skip=False
        if cls.endswith('126'):
            # ghost: the chain of first parents anc(0)=this, anc(k+1)=first parent of anc(k), up to the nearest curve on a surface
            anc=e.uf('anc','Int','Int'); M=e.fresh('M')
            def fp(x):
                rf=p.get(st,Ptr(x,0),'IGES_ENTITY','refs'); el=rf.at(0,'ptr',0)
                return ite(eq(rf.len,0),0,el.base)
            ty=lambda x: p.get(st,Ptr(x,0),'IGES_ENTITY','entityType')
            j=freshint('aj')
            st.assume(anc(0)==I(this.base)); st.assume(anc(1)==I(fp(anc(0))))
            st.assume(z3.And(M>=1,B(or_(eq(anc(M),0),eq(ty(anc(M)),142)))))
            st.assume(z3.ForAll([j],z3.Implies(z3.And(j>=1,j<M),z3.And(anc(j)!=0,B(ne(ty(anc(j)),142))))))
            st.assume(z3.ForAll([j],z3.Implies(j>=0,z3.And(anc(j)>=0))))
            bp=p.get(st,Ptr(anc(M),0),'IGES_ENTITY_142','BPTR').base
            skip=and_(ne(anc(M),0),ne(bp,0),z3.Exists([j],z3.And(j>=0,j<M,anc(j)==I(bp))))
            def chain(eng,s,sym,items,N):
                out=[]
                for it,v in sym.items():
                    if isinstance(v,Ptr) and isz(v.base) and eng.loopdep(v.base,N):
                        s.assume(anc(N+2)==I(fp(anc(N+1))))
                        out.append(I(v.base)==anc(N+1))
                return out
            p.spec.chain=chain
            st.assume(B(eq(p.get(st,this,'IGES_ENTITY','entityType'),126)))
        for f in ('knots coeffs' if cls.endswith('126') else 'knots1 knots2 coeffs').split():   # members that point to raw arrays
            p.put(st,this,cls,f,APtr(p.get(st,this,cls,f).base,0))
        st1=st.clone()
        def post(s,r):
            p.ob('succeeds',s,r)
            a2=p.e.mread(s,'arr',0,co.base); k=freshint('ck'); q=freshint('cq')
            pres=ne(co.base,0); inr=and_(pres,le(0,k),lt(k,cnt))
            p.ob('array length unchanged',s,imp(pres,eq(a2.len,arr.len)))
            for nm,c,st_ in(('rational',rat,4),('polynomial',not_(rat),3)):
                for d in range(3):
                    x=add(mul(st_,k),d); o=arr.at(x,'f64',0); v=a2.at(x,'f64',0)
                    if d<2 and skip is not False:
                        p.ob('%s control points are multiplied once'%nm,s,imp(and_(inr,c,not_(skip)),veq(v,R(o)*sf)))
                        p.ob('%s: parameter space coordinates of a trimming curve are unchanged'%nm,s,imp(and_(inr,c,skip),veq(v,o)))
                    else: p.ob('%s control points are multiplied once'%nm,s,imp(and_(inr,c),veq(v,R(o)*sf)))
                if st_==4: p.ob('weights are unchanged',s,imp(and_(inr,c),veq(a2.at(add(mul(4,k),3),'f64',0),arr.at(add(mul(4,k),3),'f64',0))))
            p.frame('rescale',st1,s,[('arr',0,co.base)])
        p.run(p.ctx.method(cls,'rescale'),[this,sf],post)
    return proof('%s::rescale'%cls,run,spec=Spec,deadline=300)
MM={1:25.4,2:1.0,4:304.8,5:1609344.0,6:1000.0,7:1000000.0,8:0.0254,9:0.001,10:10.0,11:2.54e-5}
def GL(p,st,this,f,kind=None):
    o,_=p.ctx.F('IGES','globalData'); q,k=p.ctx.F('IGES_GLOBAL',f)
    return p.e.mread(st,kind or k,o+q,this.base)
def once(p,s,en,f,what):
    """ghost log: every entity of the list is rescaled exactly once, in order, by the factor f"""
    k=freshint('lk'); lg=s.log
    p.ob(what+': one rescaling per entity',s,eq(lg.len,en.len))
    if isinstance(lg.len,int) and lg.len==0: return
    ev=lg
    from values import SeqCat
    parts=[]
    def flat(x):
        if isinstance(x,SeqCat): flat(x.a); flat(x.b)
        elif isinstance(x,SeqLit):
            if x.el: parts.append(x)
        else: parts.append(x)
    flat(lg)
    off=0
    for x in parts:
        if isinstance(x,SeqMap) and x.per==1:
            v=x.f(k)[0]
            p.ob(what+': each entity of the list in turn, by the factor',s,imp(and_(le(0,k),lt(k,x.n)),and_(veq(v[1],en.at(add(k,off),'ptr',0)),eqr(v[2],f))))
            off=add(off,x.n)
        elif isinstance(x,SeqLit):
            for v in x.el:
                p.ob(what+': each entity of the list in turn, by the factor',s,and_(veq(v[1],en.at(off,'ptr',0)),eqr(v[2],f))); off=add(off,1)
        elif isinstance(x,SeqPush): raise Unsupported('log form')
        else: raise Unsupported('log form')
def eqr(a,b): return B(R(a)==R(b))
def model_task(dem,kind):
    def run(p):
        st=p.st; this=p.obj('this'); en=p.get(st,this,'IGES','entities')
        q=freshint('nn'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(en.len)),B(ne(en.at(q,'ptr',0).base,0)))))
        ok=p.e.uf('rescale_ok','Int','Bool'); q=freshint('ok'); st.assume(z3.ForAll([q],ok(q)))    # proved per type above
        if kind=='units':
            a=p.i32('unit',1,11); old=GL(p,st,this,'unitsFlag'); st.assume(B(and_(ge(old,1),le(old,11)))); 
        else:
            a=p.real('scale'); old=GL(p,st,this,'modelScale'); st.assume(B(R(old)>0))
        def post(s,r):
            if kind=='units':
                tab=lambda x: ite_chain(x)
                f=R(tab(old))/R(tab(a)); same=or_(eq(a,old),eqr(tab(old),tab(a)))
            else: f=R(a)/R(old); same=False
            if r is False or (isz(r) and p.e.sat(s,B(r))=='unsat'):
                p.ob('a refused change rescales nothing',s,eq(s.log.len,0)); return
            if p.e.sat(s,B(eq(s.log.len,0)))!='unsat' and isinstance(s.log.len,int):
                near=and_(f>z3.RealVal('0.9999'),f<z3.RealVal('1.0001')) if kind=='units' else False
                p.ob('nothing is rescaled only when the units are the same or there is nothing to do',s,or_(eq(a,old),near,eq(en.len,0)))
                return
            once(p,s,en,f,'accepted change')
        p.run(p.ctx.fn(dem),[this,a],post)
    return proof(dem,run,spec=Spec)
def ite_chain(x):
    r=Fraction(1)
    for k,v in MM.items(): r=ite(eq(x,k),Fraction(v),r)
    return r
def tasks(ctx,thorough):
    T=[model_task('IGES::ConvertUnits(IGES_UNIT)','units'),model_task('IGES::ChangeModelScale(double)','scale')]
    for c in ctx.entity_classes():
        n=c[len('IGES_ENTITY_'):]
        if n in('126','128'): T.append(nurbs(c))
        elif n in LEN: T.append(plain(c))
    return T
REPLAY='c11.cpp'; REPLAY_N=3000
