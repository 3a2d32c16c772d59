"""C05: directory entry fields map to the attributes they define, both ways."""
from lib import *
import models
from specs.c02 import F8,field8
TXT='out'
class Spec(LibSpec):
    """contracts: FormatDEInt, DEItemToInt, DEItemToStr (proved by C01), ReadIGESRecord, addReference/delReference (proved by C07)"""
    io=False
    def stream(s,eng,st,p,v):
        k=('track','os',p.base,p.off)
        for q,_ in list(st.ghost.items()):
            if q[:2]==('track','os') and q==k: return None
        st.ghost[('track','text')]=scat(st.ghost.get(('track','text'),EMPTY),v); return True
    def rec(s,eng,st,ptr):
        t=models.e_str(eng,st,ptr)
        if isinstance(t,SOpq) and t.tag=='rec': return t.args[0]
        raise Unsupported('record text')
    def match(s,eng,st,dem,args,ins):
        e=eng
        if dem=='FormatDEInt(string&, int)':
            out=[]; n=args[1]; ok=and_(le(n,99999999),le(-9999999,n))
            def good(q): models.w_str(e,q,args[0],field8(e,n)); q.assume(imp(le(0,n),eq(B(le(n,9999999)),B(eq(F8(e,n,0),32))))); out.append((q,True))
            def bad(q): models.w_str(e,q,args[0],EMPTY); out.append((q,False))
            e.fork(st,ok,good,bad); return out
        if dem.startswith('DEItemToInt('):
            r=s.rec(e,st,args[0]); k=args[1]; dv=args[3]; out=[]
            blank=FB(e,r,k); bad_=FX(e,r,k); v=FV(e,r,k)
            a=st.clone(); a.assume(and_(not_(blank),not_(bad_))); a.assume(and_(le(-9999999,v),le(v,99999999))); e.mwrite(a,'i32',args[2].off,args[2].base,v)
            if e.feasible(a): out.append((a,True))
            b=st.clone(); b.assume(blank)
            if isinstance(dv,Ptr) and dv.base!=0:
                e.mwrite(b,'i32',args[2].off,args[2].base,e.mread(b,'i32',dv.off,dv.base)); out.append((b,True))
            else: out.append((b,False))
            c=st.clone(); c.assume(and_(not_(blank),bad_)); out.append((c,False))
            return [x for x in out if e.feasible(x[0])]
        if dem.startswith('DEItemToStr('):
            r=s.rec(e,st,args[0]); t=LAB(e,st,r,args[1]); models.w_str(e,st,args[2],t); return [(st,True)]
        if dem.startswith('ReadIGESRecord('):
            a=st; b=st.clone(); rp=args[0]; P_=s.p
            models.w_str(e,a,Ptr(rp.base,add(rp.off,P_.ctx.F('IGES_RECORD','data')[0])),SOpq('rec',(2,),72,lambda k: e.uf('rec2','Int','Int')(I(k))))
            P_.put(a,rp,'IGES_RECORD','section_type',z3.Int('sec2')); P_.put(a,rp,'IGES_RECORD','index',z3.Int('idx2'))
            a.assume(z3.And(z3.Int('sec2')>=-128,z3.Int('sec2')<=127,z3.Int('idx2')>0,z3.Int('idx2')<=99999999)); a.assume(z3.Bool('second')); b.assume(not_(z3.Bool('second')))
            return [(a,True),(b,False)]
        if 'fail() const' in dem or dem.endswith('good() const'):
            s.io=e.fresh('ioerr','Bool'); return [(st,s.io)] 
        return None
FV=lambda e,r,k: e.uf('field_int','Int','Int','Int')(I(r),I(k))
FB=lambda e,r,k: e.uf('field_blank','Int','Int','Bool')(I(r),I(k))
FX=lambda e,r,k: e.uf('field_malformed','Int','Int','Bool')(I(r),I(k))
def LAB(e,st,r,k):
    ln=e.uf('label_len','Int','Int','Int')(I(r),I(k)); ch=e.uf('label_ch','Int','Int','Int','Int')
    st.assume(and_(le(0,ln),le(ln,8)))
    return SOpq('fieldstr',(r,k),ln,lambda i: ch(I(r),I(k),I(i)))
A='IGES_ENTITY'
INTS=['parameterData','structure','lineFontPattern','level','view','transform','labelAssoc','lineWeightNum','colorNum','paramLineCount','form','entitySubscript','entityType','sequenceNumber']
def setup_entity(p,name='this'):
    st=p.st; o=p.obj(name)
    g=lambda n: p.get(st,o,A,n)
    for n in INTS:
        v=g(n); st.assume(z3.And(I(v)>=-2**31,I(v)<2**31))
    st.assume(and_(le(0,g('hierarchy')),le(g('hierarchy'),2),le(0,g('use')),le(g('use'),6),le(0,g('depends')),le(g('depends'),3)))
    return o,g
PTRS=['pStructure','pLineFontPattern','pLevel','pView','pTransform','pLabelAssoc','pColor']
def expected(p,st,o):
    """the integers of fields 1-9, 11-15, 19 as the standard defines them"""
    g=lambda n: p.get(st,o,A,n)
    nul=lambda n: eq(pbase(g(n)),0)
    seq=lambda n: p.get(st,g(n),A,'sequenceNumber')
    b=lambda n: p.e.tobool(g(n))
    one=[g('entityType'),g('parameterData'),ite(nul('pStructure'),0,sub(0,seq('pStructure'))),
      ite(nul('pLineFontPattern'),ite(and_(le(0,g('lineFontPattern')),lt(g('lineFontPattern'),LF_END)),g('lineFontPattern'),0),sub(0,seq('pLineFontPattern'))),
      ite(nul('pLevel'),ite(le(0,g('level')),g('level'),0),sub(0,seq('pLevel'))),
      ite(nul('pView'),0,seq('pView')),ite(nul('pTransform'),0,seq('pTransform')),ite(nul('pLabelAssoc'),0,seq('pLabelAssoc')),
      add(add(add(ite(b('visible'),0,1000000),mul(10000,g('depends'))),mul(100,g('use'))),g('hierarchy'))]
    two=[g('entityType'),g('lineWeightNum'),ite(nul('pColor'),ite(and_(le(0,g('colorNum')),lt(g('colorNum'),COL_END)),g('colorNum'),0),sub(0,seq('pColor'))),g('paramLineCount'),g('form')]
    return one,two,g('entitySubscript')
LF_END,COL_END=6,9
def pbase(x): return x.base if isinstance(x,Ptr) else x
def w_task():
    def run(p):
        p.e.mergepaths=True
        st=p.st; st.ghost[('track','text')]=EMPTY; e=p.e; o,g=setup_entity(p); f=p.obj('file'); st.assume(and_(f.base!=o.base,ne(pbase(e.mread(st,'ptr',0,f.base)),0)))
        for n in PTRS:
            q=g(n); st.assume(imp(ne(pbase(q),0),and_(lt(0,p.get(st,q,A,'sequenceNumber')),le(p.get(st,q,A,'sequenceNumber'),9999999))))
        st.assume(and_(le(0,g('parameterData')),le(g('parameterData'),9999999),le(0,g('paramLineCount')),le(g('paramLineCount'),9999999)))
        st.assume(and_(lt(0,g('sequenceNumber')),le(g('sequenceNumber'),2**31-2)))
        lab=g('label'); one,two,sub_=expected(p,st,o); sq=g('sequenceNumber'); st1=st.clone()
        ins=lambda v: and_(le(-9999999,v),le(v,99999999))
        fit=and_(*([ins(v) for v in one[:8]+two]+[ins(sub_),le(sq,9999998),le(add(g('parameterData'),g('paramLineCount')),10000000)]))
        def post(s,r):
            t=s.ghost.get(('track','text'),EMPTY)
            p.ob('written only when every field fits its columns',s,imp(r,fit))
            s2=s.clone(); s2.assume(B(r))
            p.frame('the entity is not changed',st1,s,[])
            p.ob('written whenever every field fits and the file takes it',s,imp(and_(fit,not_(p.spec.io)),r))
            if e.sat(s2)=='unsat':
                return
            p.ob('two records of 80 columns',s2,eq(t.len,162))
            p.ob('both records end with a newline',s2,and_(eq(t.at(80),10),eq(t.at(161),10)))
            nm=['entity type','parameter data','structure','line font','level','view','transformation','label display','status']
            for i,v in enumerate(one):
                w=field8(e,v); k=freshint('k'); p.ob(f'field {i+1}: {nm[i]}',s2,imp(and_(le(0,k),lt(k,8)),eq(t.at(add(8*i,k)),w.at(k))))
            nm=['entity type','line weight','colour','parameter line count','form']
            for i,v in enumerate(two):
                w=field8(e,v); k=freshint('k'); p.ob(f'field {i+11}: {nm[i]}',s2,imp(and_(le(0,k),lt(k,8)),eq(t.at(add(81+8*i,k)),w.at(k))))
            w=field8(e,sub_); k=freshint('k'); p.ob('field 19: subscript',s2,imp(and_(le(0,k),lt(k,8)),eq(t.at(add(81+64,k)),w.at(k))))
            k=freshint('k'); p.ob('fields 16, 17: blank',s2,imp(and_(le(0,k),lt(k,16)),eq(t.at(add(81+40,k)),32)))
            k=freshint('k'); L=ite(lt(8,lab.len),8,lab.len); pad=sub(8,L)
            p.ob('field 18: label right justified',s2,imp(and_(le(0,k),lt(k,8)),eq(t.at(add(81+56,k)),ite(lt(k,pad),32,lab.at(sub(k,pad))))))
            for nm,off,v in(('field 10',72,sq),('field 20',81+72,add(sq,1))):
                w=field8(e,v); k=freshint('k'); p.ob(nm+': D and sequence number',s2,and_(eq(t.at(off),ord('D')),imp(and_(lt(0,k),lt(k,8)),eq(t.at(add(off,k)),w.at(k)))))
        p.run(p.ctx.method(A,'writeDE') if False else p.ctx.fn('IGES_ENTITY::writeDE(ofstream&)'),[o,f],post)
    return proof('writeDE',run,spec=Spec)
def r_task(roundtrip):
    def run(p):
        p.e.mergepaths=True
        st=p.st; e=p.e; o,g=setup_entity(p); rec=p.obj('rec'); f=p.obj('file'); sv=p.obj('seqvar')
        l=[o,rec,f,sv]
        for i in range(4):
            for j in range(i): st.assume(l[i].base!=l[j].base)
        R=lambda n: p.get(st,rec,'IGES_RECORD',n)
        models.w_str(e,st,Ptr(rec.base,p.ctx.F('IGES_RECORD','data')[0]),SOpq('rec',(1,),72,lambda k: e.uf('rec1','Int','Int')(I(k))))
        V=lambda r,k: FV(e,r,k); NB=lambda r,k: and_(not_(FB(e,r,k)),not_(FX(e,r,k)))
        D=lambda r,k: ite(FB(e,r,k),0,V(r,k))
        par=g('parent'); mx=p.get(st,par,'IGES','globalData') if False else None
        gd=p.ctx.F('IGES','globalData')[0]; mo,mk=p.ctx.F('IGES_GLOBAL','maxLinewidthGrad'); maxg=e.mread(st,mk,add(gd,mo),pbase(par))
        st.assume(and_(ne(pbase(par),o.base),ne(pbase(par),rec.base),ne(pbase(par),sv.base)))
        et=g('entityType'); sq0=e.mread(st,'i32',0,sv.base); st.assume(and_(le(0,sq0),le(sq0,2*10**9))); idx=R('index'); st.assume(and_(le(1,idx),le(idx,99999999)))
        if roundtrip:
            # the two records hold what writeDE (proved above) writes for an entity `src`, no pointer unresolved
            o2,_=setup_entity(p,'src'); st.assume(o2.base!=o.base); one,two,sb=expected(p,st,o2); q=lambda n: p.get(st,o2,A,n)
            for i,v in enumerate(one): st.assume(and_(NB(1,i),eq(V(1,i),v)))
            for i,v in enumerate(two): st.assume(and_(NB(2,i),eq(V(2,i),v)))
            st.assume(and_(NB(2,8),eq(V(2,8),sb)))
            st.assume(and_(z3.Bool('second'),eq(z3.Int('sec2'),68),eq(R('section_type'),68),eq(q('entityType'),et),eq(q('sequenceNumber'),idx),eq(z3.Int('idx2'),add(idx,1))))
            for n in PTRS: st.assume(imp(ne(pbase(q(n)),0),and_(lt(0,p.get(st,q(n),A,'sequenceNumber')),le(p.get(st,q(n),A,'sequenceNumber'),9999997))))
            st.assume(and_(le(0,q('parameterData')),le(0,q('paramLineCount')),or_(ne(q('paramLineCount'),0),eq(et,0)),le(0,q('form')),le(0,q('entitySubscript')),le(0,q('lineWeightNum'))))
            st.assume(imp(ne(pbase(par),0),le(q('lineWeightNum'),maxg)))
            st.assume(and_(eq(idx%2,1),le(idx,9999995)))
        st1=st.clone()
        def post(s,r):
            h=lambda n: p.get(s,o,A,n); b=lambda n: p.e.tobool(h(n))
            s2=s.clone(); s2.assume(B(r)); s9=ite(FB(e,1,8),0,ite(FX(e,1,8),0,V(1,8)))
            if roundtrip:
                p.ob('a written directory entry is accepted',s,r)
                one,two,sb=expected(p,st1,o2)
                for n,v in(('structure',one[2]),('lineFontPattern',one[3]),('level',one[4]),('view',one[5]),('transform',one[6]),('labelAssoc',one[7]),('colorNum',two[2])): p.ob('reads back '+n,s2,eq(h(n),v))
                for n in('parameterData','hierarchy','use','depends','lineWeightNum','paramLineCount','form','entitySubscript','sequenceNumber'): p.ob('reads back '+n,s2,eq(h(n),p.get(st1,o2,A,n)))
                p.ob('reads back visibility',s2,eq(B(b('visible')),B(e.tobool(p.get(st1,o2,A,'visible')))))
                return
            m=[('sequence number','sequenceNumber',idx),('parameter data','parameterData',V(1,1)),('structure','structure',ite(lt(0,D(1,2)),0,D(1,2))),('line font','lineFontPattern',D(1,3)),('level','level',D(1,4)),('view','view',D(1,5)),('transformation','transform',D(1,6)),('label display','labelAssoc',D(1,7)),
               ('hierarchy','hierarchy',s9%100),('use','use',(s9/100)%100),('dependency','depends',(s9/10000)%100),
               ('colour','colorNum',D(2,2)),('parameter line count','paramLineCount',V(2,3)),('form','form',D(2,4)),('subscript','entitySubscript',D(2,8))]
            for nm,n,v in m: p.ob(f'{nm} comes from its field',s2,eq(h(n),v))
            lw=ite(NB(2,1),V(2,1),0)
            p.ob('line weight comes from its field, limited to the gradations of the model',s2,eq(h('lineWeightNum'),ite(and_(ne(pbase(par),0),lt(maxg,lw)),maxg,lw)))
            p.ob('visibility comes from the status field',s2,eq(B(b('visible')),B(eq((s9/1000000)%100,0))))
            p.ob('label comes from its field',s2,seq_str(h('label'),LAB(e,s2,2,7)))
            p.ob('the sequence counter advances by two records',s2,eq(e.mread(s2,'i32',0,sv.base),add(sq0,2)))
            p.ob('only a directory entry pair of this type is accepted',s,imp(r,and_(eq(R('section_type'),68),eq(z3.Int('sec2'),68),eq(z3.Int('idx2'),add(idx,1)),eq(idx%2,1),eq(V(1,0),et),eq(V(2,0),et))))
            p.ob('flags stay in range',s,imp(r,and_(le(0,h('hierarchy')),le(h('hierarchy'),2),le(0,h('use')),le(h('use'),6),le(0,h('depends')),le(h('depends'),3),le(0,h('form')),le(0,h('view')),le(0,h('transform')),le(0,h('labelAssoc')),lt(h('colorNum'),COL_END),lt(h('lineFontPattern'),LF_END))))
            ents=['sequenceNumber','parameterData','structure','lineFontPattern','level','view','transform','labelAssoc','hierarchy','use','depends','visible','lineWeightNum','colorNum','paramLineCount','form','label','entitySubscript','massoc']
            p.frame('directory attributes',st1,s,p.fields(A,o,ents)+[('i32',0,sv.base)])
        p.run(p.ctx.fn('IGES_ENTITY::readDE(IGES_RECORD*, ifstream&, int&)'),[o,rec,f,sv],post)
    return proof('readDE'+(' of a written entry' if roundtrip else ''),run,spec=Spec,deadline=200)
from specs.c07 import LINK,nonnull
ATT=[('structure','pStructure','neg',None),('lineFontPattern','pLineFontPattern','neg',lambda t,f: eq(t,304)),('level','pLevel','neg',lambda t,f: and_(eq(t,406),eq(f,1))),('view','pView','pos',lambda t,f: or_(eq(t,410),and_(eq(t,402),or_(eq(f,3),eq(f,4),eq(f,19))))),
     ('transform','pTransform','pos',lambda t,f: eq(t,124)),('labelAssoc','pLabelAssoc','pos',lambda t,f: and_(eq(t,402),eq(f,5))),('colorNum','pColor','neg',lambda t,f: eq(t,314))]
class AssocSpec(LibSpec):
    """contracts of addReference/delReference (proved by C07); GetEntityType/Form are read from the entity"""
    def match(s,eng,st,dem,args,ins):
        if dem=='@virtual addReference(IGES_ENTITY*, bool&)':
            x,par=args[0],args[1]; eng.deref(st,x,ins,'virtual call')
            if eq(par.base,s.this.base) is not True: raise Unsupported('addReference with another parent')
            # the reference state is tracked for one arbitrary entity x0; for any other one the duplicate flag is unconstrained
            ok=eng.uf('accepts_parent','Int','Bool')(I(x.base)); me=eq(x.base,s.x0.base); l0=eng.mread(st,'i8',0,s.ghost.base)
            eng.store(st,args[2],'i8',ite(me,l0,ite(eng.fresh('dup','Bool'),1,0))); eng.mwrite(st,'i8',0,s.ghost.base,ite(and_(me,ok),1,l0))
            return [(st,ok)]
        if dem=='@virtual delReference(IGES_ENTITY*)':
            eng.deref(st,args[0],ins,'virtual call')
            if eq(args[1].base,s.this.base) is not True: raise Unsupported('delReference with another parent')
            l0=eng.mread(st,'i8',0,s.ghost.base); eng.mwrite(st,'i8',0,s.ghost.base,ite(eq(args[0].base,s.x0.base),0,l0))
            return [(st,eng.fresh('ok','Bool'))]
        return None
    def dyncast(s,eng,st,p,tinfo,ins):
        c=eq(s.p.get(st,p,A,'entityType'),124); out=[]
        eng.fork(st,c,lambda q: out.append((q,p)),lambda q: out.append((q,NULL))); return out
def a_task(cls):
    def run(p):
        p.e.mergepaths=True
        st=p.st; e=p.e; o,g=setup_entity(p); p.spec.this=o; ents=p.obj('entities'); st.assume(ents.base!=o.base)
        V=e.mread(st,'vec',0,ents.base); nonnull(p,st,V)
        st.assume(V.len<2**24)
        for f,pt,sg,ty in ATT: st.assume(and_(eq(pbase(g(pt)),0),le(-9999999,g(f)),le(g(f),99999999)))
        if p.ctx.F(A,'iExtras'): st.assume(eq(p.get(st,o,A,'iExtras').len,0))
        x0=p.obj('x0'); p.spec.x0=x0; p.spec.ghost=p.cell('i8',0); st.assume(not_(e.tobool(g('massoc'))))
        st1=st.clone(); h0={f:g(f) for f,_,_,_ in ATT}
        def post(s,r):
            h=lambda n: p.get(s,o,A,n)
            p.frame('attributes',st1,s,[(p.ctx.F(A,x[1])[1],p.ctx.F(A,x[1])[0],o.base) for x in ATT]+[(p.ctx.F(A,'massoc')[1],p.ctx.F(A,'massoc')[0],o.base)])
            for f,pt,sg,ty in ATT:
                P_=sub(0,h0[f]) if sg=='neg' else h0[f]; ix=I(P_)/2; q=pbase(h(pt)); tgt=pbase(V.at(ix,'ptr',0))
                isp=lt(0,P_); ok=e.uf('accepts_parent','Int','Bool')(I(tgt)); T=p.get(s,Ptr(tgt,0),A,'entityType'); F_=p.get(s,Ptr(tgt,0),A,'form')
                p.ob(f'{f} is resolved only inside the entity list',s,imp(and_(r,isp),lt(ix,V.len)))
                p.ob(f'{f} is resolved to the entity it refers to',s,imp(ne(q,0),and_(isp,eq(q,tgt))))
                p.ob(f'{f}: an entity that accepts the reference is kept',s,imp(and_(r,isp,ok),eq(q,tgt)))
                if ty: p.ob(f'{f} refers to an entity of the defined type',s,imp(ne(q,0),or_(eq(T,0),ty(T,F_))))
            l=eq(e.mread(s,'i8',0,p.spec.ghost.base),1)
            for f,pt,sg,ty in ATT: p.ob(f'the entity {pt} refers to records the reference',s,imp(eq(pbase(h(pt)),x0.base),l))
            p.ob('an entity that is not referred to records no reference',s,imp(and_(*[ne(pbase(h(pt)),x0.base) for _,pt,_,_ in ATT]),not_(l)))
        p.run(p.ctx.fn('IGES_ENTITY::associate(std::vector<IGES_ENTITY*, std::allocator<IGES_ENTITY*> >*)') if 'IGES_ENTITY::associate(std::vector<IGES_ENTITY*, std::allocator<IGES_ENTITY*> >*)' in p.ctx.mod.bydem else p.ctx.fn([d for d in p.ctx.mod.bydem if d.startswith('IGES_ENTITY::associate(')][0]),[o,ents],post)
    return proof('associate',run,spec=AssocSpec,deadline=300)
# per class: directory fields that do not apply to the type (value kept instead), and the form numbers the standard defines
H0={'hierarchy':0}; EDGE=dict(depends=1,lineFontPattern=0,view=0,transform=0,lineWeightNum=0,colorNum=0)
NAF={100:H0,102:{},104:H0,110:H0,120:H0,122:H0,124:dict(H0,lineFontPattern=0,level=0,view=0,labelAssoc=0,visible=1),126:H0,128:H0,142:dict(H0,use=0),144:dict(H0,use=0),154:dict(H0,use=0),164:dict(H0,use=0),180:dict(use=0),186:{},308:dict(use=2),
     314:dict(depends=0,use=2,lineFontPattern=0,level=0,view=0,transform=0,labelAssoc=0,lineWeightNum=0),406:dict(H0,use=0,lineFontPattern=0,view=0,transform=0,labelAssoc=0,visible=1),408:{},502:dict(H0,**EDGE),504:dict(EDGE,hierarchy=1),508:dict(depends=1,view=0,transform=0),510:dict(EDGE),514:dict(lineFontPattern=0,view=0,transform=0,lineWeightNum=0,colorNum=0)}
FORMS={104:[1,2,3],110:[0,1,2],124:[0,1,10,11,12],126:list(range(6)),128:list(range(10)),180:[0,1],406:[15],502:[1],504:[1],508:[0,1],510:[1],514:[1,2]}
DEATT=['sequenceNumber','parameterData','structure','lineFontPattern','level','view','transform','labelAssoc','hierarchy','use','depends','visible','lineWeightNum','colorNum','paramLineCount','form','entitySubscript']
class OvSpec(LibSpec):
    """contract of the base readDE (proved above): it sets every directory attribute, or fails"""
    def match(s,eng,st,dem,args,ins):
        if dem.startswith('IGES_ENTITY::readDE('):
            if eq(args[0].base,s.this.base) is not True: raise Unsupported('readDE of another entity')
            a=st; b=st.clone(); p=s.p
            for n in DEATT: p.put(a,args[0],A,n,s.new[n])
            models.w_str(eng,a,Ptr(args[0].base,add(args[0].off,p.ctx.F(A,'label')[0])),s.lab)
            p.put(a,args[0],A,'massoc',0); a.assume(z3.Bool('base_ok')); b.assume(not_(z3.Bool('base_ok')))
            return [(a,True),(b,False)]
        return None
def ov_task(t):
    cls='IGES_ENTITY_%d'%t
    def run(p):
        st=p.st; e=p.e; o=p.obj('this'); p.spec.this=o; rec=p.obj('rec'); f=p.obj('file'); sv=p.obj('seqvar')
        for x in(rec,f,sv): st.assume(x.base!=o.base)
        p.spec.new={n:p.i32('new_'+n) for n in DEATT}; w=p.spec.new; st.assume(and_(le(0,w['form']),le(0,w['visible']),le(w['visible'],1))); p.spec.lab=e.symstr(st,'newlabel',(I(0),)); st1=st.clone()
        na=dict(NAF[t],structure=0); ok=and_(z3.Bool('base_ok'),or_(*[eq(w['form'],x) for x in FORMS.get(t,[0])]))
        def post(s,r):
            p.ob('accepted exactly when the fields are valid and the form is defined for the type',s,eq(B(r),B(ok)))
            for n in DEATT: p.ob(f'{n} keeps the value of its field' if n not in na else f'{n} does not apply to the type',s,imp(r,eq(p.get(s,o,A,n),na.get(n,w[n]))))
            p.ob('label keeps the value of its field',s,imp(r,seq_str(p.get(s,o,A,'label'),p.spec.lab)))
            p.frame('directory attributes',st1,s,p.fields(A,o,DEATT+['label','massoc']))
        p.run(p.ctx.method(cls,'readDE'),[o,rec,f,sv],post)
    return proof('readDE[%d]'%t,run,spec=OvSpec)
def tasks(ctx,thorough): return [w_task(),r_task(False),r_task(True),a_task('x')]+[ov_task(t) for t in NAF]
REPLAY='c05.cpp'; REPLAY_N=2000
