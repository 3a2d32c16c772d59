"""C14: Global section: dates, delimiters, defaults, ranges, units."""
from lib import *
from units import *
import models
class Spec(LibSpec): check_bounds=True
def dg(c): return and_(le(48,c),le(c,57))
def n2(at,k): return add(mul(10,sub(at(k),48)),sub(at(k+1),48))
MD=[31,29,31,30,31,30,31,31,30,31,30,31]
def isdate(at,n):
    """valid calendar date and time, 13 (YYMMDD.HHNNSS) or 15 (YYYYMMDD.HHNNSS) characters"""
    y=n-11
    cs=[dg(at(k)) for k in range(n) if k!=y+4]+[eq(at(y+4),46)]
    mo,d,h,mi,sc=[n2(at,k) for k in(y,y+2,y+5,y+7,y+9)]
    yy=n2(at,y-2); cc=n2(at,0)
    leap=eq(I(yy)%4,0) if n==13 else or_(and_(eq(I(yy)%4,0),ne(yy,0)),and_(eq(yy,0),eq(I(cc)%4,0)))
    cs+=[le(1,mo),le(mo,12),le(1,d),or_(*[and_(eq(mo,m+1),le(d,MD[m])) for m in range(12)]),imp(and_(eq(mo,2),eq(d,29)),leap),le(h,23),le(mi,59),le(sc,60)]
    return and_(*cs)
def date_task(n):
    def run(p):
        st=p.st; e=p.e; o=p.obj('date'); ch=e.uf('date_ch','Int','Int')
        if n: s=SSym(lambda k: ch(I(k)),n,('date',n))
        else: s=e.symstr(st,'date',(I(0),)); st.assume(and_(ne(s.len,13),ne(s.len,15)))
        at=s.at
        if n:
            for k in range(n): st.assume(and_(le(-128,at(k)),le(at(k),127)))
        e.mwrite(st,'str',0,o.base,s); st1=st.clone()
        def post(s2,r):
            if not n: p.ob('a date of any other length is refused',s2,not_(r)); return
            D=isdate(at,n)
            p.ob('a valid date is accepted',s2,imp(D,r))
            p.ob('an invalid date is refused',s2,imp(r,D))
            p.frame('only errno',st1,s2,[('i32',0,e.errno_id)])
        p.run(p.ctx.fn([x for x in p.ctx.mod.bydem if x.startswith('checkDate(')][0]),[o],post)
    return proof('checkDate: %s'%('%d characters'%n if n else 'other lengths'),run,spec=Spec)
FAC=[Fraction(x) for x in(25.4,1.0,1.0,304.8,1609344.0,1000.0,1000000.0,0.0254,0.001,10.0,2.54e-5)]   # exact values of the double constants
MM,EXT=2,3
def names(p,st):
    """table invariant: the unit names as initialised (established by the initialiser, proved below; written nowhere)"""
    e=p.e; g=e.gid(UN)
    for i,n in enumerate(NAMES): e.mwrite(st,'str',32*i,g,SLit(n.encode()))
    return g
Spec.strtab=TAB
def init_task():
    def run(p):
        st=p.st; e=p.e; g=e.gid(UN); b=p.ctx.mod.bydem
        def post(s,r):
            for i,n in enumerate(NAMES): p.ob('name of unit %d'%(i+1),s,seq_str(e.mread(s,'str',32*i,g),SLit(n.encode())))
        p.run(b['_GLOBAL__sub_I_iges.cpp'][0],[],post)
    return proof('table of unit names',run,spec=Spec)
def name_task():
    def run(p):
        st=p.st; e=p.e; o=p.obj('this'); gd=p.ctx.F('IGES','globalData')[0]; g=names(p,st)
        U=e.mread(st,'i32',add(gd,p.ctx.F('IGES_GLOBAL','unitsFlag')[0]),o.base); st.assume(and_(le(1,U),le(U,11))); st1=st.clone()
        def post(s,r):
            t=models.cstr(e,s,r)
            for i,n in enumerate(NAMES): p.ob('name of unit %d'%(i+1),s,imp(eq(U,i+1),seq_str(t,SLit(n.encode()))))
            p.frame('nothing changes',st1,s,[])
        p.run(p.ctx.fn('IGES::GetUnitName()'),[o],post)
    return proof('IGES::GetUnitName',run,spec=Spec)
INT,REAL,STR=1,2,3
G26={3:('productIDSS',STR),4:('fileName',STR),5:('nativeSystemID',STR),6:('preprocessorVersion',STR),7:('nIntegerBits',INT,8,32),8:('floatMaxExp',INT,4,308),9:('floatMaxSig',INT,3,16),10:('doubleMaxExp',INT,4,308),11:('doubleMaxSig',INT,3,16),12:('productIDRS',STR),13:('modelScale',REAL),14:('unitsFlag',INT),15:('unitsName',STR),16:('maxLinewidthGrad',INT),17:('maxLinewidth',REAL),18:('creationDate',STR),19:('minResolution',REAL),20:('maxCoordinateValue',REAL),21:('author',STR),22:('organization',STR),23:('igesVersion',INT),24:('draftStandard',INT),25:('modificationDate',STR),26:('applicationNote',STR)}
class RSpec(Spec):
    """contracts: ReadIGESRecord (assumed: 72 data columns), ParseInt, ParseReal, ParseHString (C04) stated per parameter, checkDate (proved here)"""
    def pos(s,k): return s.p.e.uf('pos','Int','Int')(I(k))
    def VI(s,k): return s.p.e.uf('g_int','Int','Int')(I(k))
    def VR(s,k): return s.p.e.uf('g_real','Int','Real')(I(k))
    def EM(s,k): return s.p.e.uf('g_empty','Int','Bool')(I(k))
    def OK(s,k): return s.p.e.uf('readable','Int','Int','Bool')(I(k),I(G26[k][1]))
    def match(s,e,st,dem,args,ins):
        p=s.p
        if dem.startswith('ReadIGESRecord('):
            r=args[0]; ok=e.fresh('rec','Bool'); sec=e.fresh('sec'); st.assume(and_(le(-128,sec),le(sec,127)))
            f=lambda n: p.ctx.F('IGES_RECORD',n)
            o,k=f('section_type'); e.mwrite(st,k,add(r.off,o),r.base,sec)
            o,k=f('index'); e.mwrite(st,k,add(r.off,o),r.base,e.fresh('ix'))
            c=e.fresh('recno'); ch=e.uf('rec_ch','Int','Int','Int'); o,k=f('data'); e.mwrite(st,'str',add(r.off,o),r.base,SSym(lambda q: ch(c,I(q)),72,('rec',str(c))))
            return [(st,ok)]
        for n,k in(('ParseInt(',INT),('ParseReal(',REAL),('ParseHString(',STR)):
            if dem.startswith(n): return s.parse(e,st,args,k,args[6] if k!=STR else None)
        if dem.startswith('checkDate('):
            t=models.e_str(e,st,args[0])
            for k in(18,25):
                if seq_str(t,s.TX(k)) is True: return [(st,s.DATE(k))]
            raise Unsupported('date text')
        return None
    def DATE(s,k): return s.p.e.uf('is_date','Int','Bool')(I(k))
    def TX(s,k):
        if k not in s.tx: s.tx[k]=s.p.e.symstr(s.p.st,'txt',(I(k),))
        return s.tx[k]
    def parse(s,e,st,args,kind,dflt):
        p=s.p; data,ix,par,eor,pd,rd=args[:6]; k=add(st.ghost.get(('np',),2),1); st.ghost[('np',)]=k
        g=models.e_str(e,st,data); x=e.mread(st,'i32',ix.off,ix.base)
        if k==3:
            st.ghost[('g',)]=g; i1=ite(eq(g.at(0),44),0,3); pd0=ite(eq(g.at(0),44),44,g.at(2)); i2=add(i1,1); own=ne(g.at(i2),pd0); i3=ite(own,add(i2,3),i2)
            st.ghost[('pd',)]=pd0; st.ghost[('rd',)]=ite(own,g.at(add(i2,2)),59)
            st.assume(eq(s.pos(3),add(i3,1)))
            num=lambda c: or_(le(c,32),le(127,c),eq(c,43),eq(c,45),eq(c,46),eq(c,68),eq(c,69),eq(c,72),dg(c))
            H=lambda i: and_(eq(g.at(i),49),eq(g.at(add(i,1)),72))
            p.ob('parameter delimiter given as a one-character text, and allowed',st,imp(ne(g.at(0),44),and_(H(0),not_(num(pd0)),ne(pd0,59),eq(g.at(3),pd0))))
            p.ob('record delimiter given as a one-character text, and allowed',st,imp(own,and_(H(i2),not_(num(g.at(add(i2,2)))),ne(g.at(add(i2,2)),pd0))))
            p.ob('the record delimiter is followed by the parameter delimiter',st,eq(g.at(i3),pd0))
            st.ghost[('wf',)]=True
        if not isinstance(k,int) or k>26: raise Unsupported('parameter number')
        NP=z3.Int('NP')
        p.ob('parameters are read in order, with the delimiters of the file',st,and_(seq_str(g,st.ghost[('g',)]),eq(x,s.pos(k)),eq(pd,st.ghost[('pd',)]),eq(rd,st.ghost[('rd',)])))
        p.ob('parameter %d is read as its kind'%k,st,G26[k][1]==kind)
        p.ob('nothing is read past the end of the record',st,le(k,NP))
        w='i32' if kind==INT else 'f64'
        e.mwrite(st,'i32',ix.off,ix.base,s.pos(add(k,1))); e.mwrite(st,'i8',eor.off,eor.base,ite(eq(k,NP),1,0))
        if kind==STR: models.w_str(e,st,par,s.TX(k)); return [(st,s.OK(k))]
        v=s.VI(k) if kind==INT else s.VR(k); ok=s.OK(k)
        if kind==INT: st.assume(and_(le(-2**31,v),lt(v,2**31)))
        nul=dflt is None or e.base_eq(dflt.base,0) is True
        if not nul: v=ite(s.EM(k),e.mread(st,w,dflt.off,dflt.base),v)
        e.mwrite(st,w,par.off,par.base,v)
        # an empty field is readable only when there is a default
        return [(st,ite(s.EM(k),not nul,ok))]
def read_task():
    def run(p):
        st=p.st; e=p.e; o=p.obj('this'); r=p.obj('rec'); f=p.obj('file'); sp=p.spec; sp.tx={}; e.mergepaths=True
        for a,b in((o,r),(o,f),(r,f)): st.assume(ne(a.base,b.base))
        names(p,st); gd=p.ctx.F('IGES','globalData')[0]
        def fo(n): a,k=p.ctx.F('IGES_GLOBAL',n); return k,add(gd,a)
        def G(s,n): k,a=fo(n); return e.mread(s,k,a,o.base)
        for n,v in(('pdelim',44),('rdelim',59),('cf',Fraction(1)),('convert',0)): k,a=fo(n); e.mwrite(st,k,a,o.base,v)
        p.put(st,o,'IGES','nGlobSecLines',0)
        p.put(st,r,'IGES_RECORD','section_type',71)
        ch=e.uf('rec0_ch','Int','Int'); p.put(st,r,'IGES_RECORD','data',SSym(lambda q: ch(I(q)),72,('rec0',)))
        for k,v in G26.items():
            if v[1]==STR: sp.TX(k)
        NP=z3.Int('NP'); st.assume(and_(le(19,NP),ne(NP,0))); st1=st.clone()
        VI,VR,TX,EM=sp.VI,sp.VR,sp.TX,sp.EM
        dv=lambda k,d,V: ite(EM(k),d,V(k))
        U=dv(14,1,VI); S=dv(13,Fraction(1),VR)
        has=lambda k: le(k,NP)
        chk=[('the record has at most 26 parameters',le(NP,26))]
        for k in range(3,27):
            n,kd=G26[k][:2]; c=True
            if kd==STR: rd=sp.OK(k)
            else: rd=ite(EM(k),k in(13,14,16,20,23,24),sp.OK(k))
            if k>19: rd=imp(has(k),rd)
            chk.append((n+' is readable',rd))
            if k in(3,4,5,6): chk.append((n+' is given',lt(0,TX(k).len)))
            elif k in range(7,12): chk.append((n+' in range',and_(le(G26[k][2],VI(k)),le(VI(k),G26[k][3]))))
        chk+=[('model scale is positive',lt(0,S)),('units are defined',and_(le(1,U),le(U,11))),('user-defined units have a name',imp(eq(U,EXT),lt(0,TX(15).len))),('line width gradations',le(1,dv(16,1,VI))),('line width',le(0,VR(17))),
          ('creation date',and_(lt(0,TX(18).len),sp.DATE(18))),('resolution',lt(0,VR(19))),('coordinate',imp(has(20),le(0,dv(20,Fraction(0),VR)))),('drafting standard',imp(has(24),and_(le(0,dv(24,0,VI)),le(dv(24,0,VI),7)))),('modification date',imp(has(25),or_(eq(TX(25).len,0),sp.DATE(25))))]
        def post(s,res):
            if s.ghost.get(('wf',)): p.ob('a valid Global section is accepted',s,imp(and_(*[c for _,c in chk],eq(s.ghost.get(('np',),0),NP)),res)); p.ob('all given parameters are read before it is accepted',s,imp(res,eq(s.ghost.get(('np',),0),NP)))
            s2=s.clone(); s2.assume(B(res))
            if e.sat(s2)=='unsat': return
            if not s.ghost.get(('wf',)): p.ob('accepted only when read',s2,False); return
            for n,c in chk: p.ob('accepted only when: '+n,s2,c)
            p.ob('delimiters',s2,and_(eq(G(s2,'pdelim'),s.ghost[('pd',)]),eq(G(s2,'rdelim'),s.ghost[('rd',)])))
            simple={**{k:True for k in(3,4,5,6,7,8,9,10,11,18)}}
            for k in range(3,27):
                n,kd=G26[k][:2]
                if kd==STR and k not in(12,15): p.ob('parameter %d: %s'%(k,n),s2,ite(has(k),seq_str(G(s2,n),TX(k)),eq(G(s2,n).len,0)) if k>19 else seq_str(G(s2,n),TX(k)))
                elif k in range(7,12): p.ob('parameter %d: %s'%(k,n),s2,eq(G(s2,n),VI(k)))
            p.ob('parameter 12: productIDRS, by default the sending system',s2,ite(eq(TX(12).len,0),seq_str(G(s2,'productIDRS'),TX(3)),seq_str(G(s2,'productIDRS'),TX(12))))
            p.ob('parameter 16: maxLinewidthGrad',s2,eq(G(s2,'maxLinewidthGrad'),dv(16,1,VI)))
            p.ob('parameter 17: maxLinewidth',s2,veq(G(s2,'maxLinewidth'),VR(17)))
            p.ob('parameter 20: maxCoordinateValue',s2,veq(G(s2,'maxCoordinateValue'),ite(has(20),dv(20,Fraction(0),VR),Fraction(0))))
            v=G(s2,'igesVersion'); p.ob('parameter 23: igesVersion, within 3 to 11',s2,and_(le(3,v),le(v,11),imp(and_(has(23),not_(EM(23)),le(3,VI(23)),le(VI(23),11)),eq(v,VI(23)))))
            p.ob('parameter 24: draftStandard',s2,eq(G(s2,'draftStandard'),ite(has(24),dv(24,0,VI),0)))
            near=and_(le(Fraction(9999998,10000000),S),le(S,Fraction(1000001,1000000))); off=or_(le(S,Fraction(999999,1000000)),le(Fraction(1000002,1000000),S))
            uf=Fraction(1)
            for i,x in enumerate(FAC): uf=ite(eq(U,i+1),x,uf)
            p.ob('user-defined units are kept',s2,imp(eq(U,EXT),and_(eq(G(s2,'unitsFlag'),EXT),seq_str(G(s2,'unitsName'),TX(15)))))
            p.ob('other units become millimetres',s2,imp(ne(U,EXT),and_(eq(G(s2,'unitsFlag'),MM),seq_str(G(s2,'unitsName'),SLit(b'MM')))))
            cf=R(G(s2,'cf')); ms=R(G(s2,'modelScale')); mr=R(G(s2,'minResolution'))
            p.ob('a model scale other than 1 becomes 1',s2,imp(off,eq(ms,1)))
            p.ob('the model scale is 1, up to a millionth',s2,and_(le(Fraction(999999,1000000),ms),le(ms,Fraction(1000002,1000000))))
            p.ob('conversion factor: size of the unit over the model scale',s2,eq(cf*R(S),R(uf)*ms))
            p.ob('the resolution is converted with the model',s2,eq(mr,R(VR(19))*cf))
            p.ob('converted exactly when there is something to convert',s2,eq(B(e.tobool(G(s2,'convert'))),ne(cf,1)) if False else imp(not_(e.tobool(G(s2,'convert'))),eq(cf,1)))
        p.run(p.ctx.fn('IGES::readGlobals(IGES_RECORD&, std::basic_ifstream<char, std::char_traits<char> >&)') if False else p.ctx.fn([x for x in p.ctx.mod.bydem if x.startswith('IGES::readGlobals(')][0]),[o,r,f],post)
    return proof('IGES::readGlobals',run,spec=RSpec,deadline=100)
import c06
class WSpec(Spec):
    """contracts: AddSecItem, AddSecHStr (C02), FormatPDReal, checkDate (proved here), gmtime_r (assumed: a calendar date and time)"""
    def match(s,e,st,dem,args,ins):
        p=s.p
        if dem.startswith('FormatPDREal('): return c06.Spec.match(s,e,st,dem,args,ins)
        if dem.startswith('AddSecItem(') or dem.startswith('AddSecHStr('):
            n=st.ghost.get(('n',),0); t,f,o,ix,pd,rd=args[:6]
            if n==0:
                a,b=ite(eq(s.pd,44),1,0),ite(eq(s.rd,59),1,0)
                w1=scat(SLit(b','),EMPTY) ; h=models.e_str(e,st,f)
                s.p.ob('delimiters are given first',st,or_(*[and_(c1,c2,seq_str(h,scat(x,y))) for c1,x in((eq(s.pd,44),SLit(b',')),(ne(s.pd,44),scat(SLit(b'1H'),schar(s.pd),schar(s.pd)))) for c2,y in((eq(s.rd,59),schar(s.pd)),(ne(s.rd,59),scat(SLit(b'1H'),schar(s.rd),schar(s.pd))))]))
                st.ghost[('lnum',)]=(f.base,o.base,ix.base)
            f0,o0,i0=st.ghost[('lnum',)]
            s.p.ob('items go to one section, in order, with the delimiters of the model',st,and_(eq(f.base,f0),eq(o.base,o0),eq(ix.base,i0),eq(pd,s.pd),eq(rd,s.rd)))
            k=n+3; st.ghost[('n',)]=n+1; x=models.e_str(e,st,t)
            if dem.startswith('AddSecItem('):
                l=c06.toks(x)
                if l is None or len(l)!=1: raise Unsupported('item text %r'%x)
                it=l[0]
            else: it=(STR,x,args[6])
            s.item(e,st,k,it)
            e.mwrite(st,'i32',ix.off,ix.base,e.fresh('ix'))
            if dem.startswith('AddSecItem('): models.w_str(e,st,t,EMPTY)
            return [(st,or_(z3.Bool('room'),e.fresh('ok','Bool')))]
        if dem.startswith('checkDate('):
            x=models.e_str(e,st,args[0])
            if seq_str(x,s.G0('creationDate')) is True: return [(st,z3.Bool('is_date'))]
            raise Unsupported('date text')
        if dem.endswith('::fail() const') and isinstance(args[0],Ptr): return [(st,not_(z3.Bool('fileok')))]
        if dem=='time': return [(st,e.fresh('time'))]
        if dem=='gmtime_r':
            t=args[1]; f=lambda n: (4*('sec','min','hour','mday','mon','year').index(n),'i32'); v={}
            for n in('year','mon','mday','hour','min','sec'): o,k=f(n); v[n]=e.fresh('tm_'+n); e.mwrite(st,k,add(t.off,o),t.base,v[n])
            y=add(v['year'],1900); leap=or_(and_(eq(I(y)%4,0),ne(I(y)%100,0)),eq(I(y)%400,0))
            st.assume(and_(le(1978,y),le(y,9999),le(0,v['mon']),le(v['mon'],11),le(1,v['mday']),or_(*[and_(eq(v['mon'],m),le(v['mday'],MD[m])) for m in range(12)]),imp(and_(eq(v['mon'],1),eq(v['mday'],29)),leap),le(0,v['hour']),le(v['hour'],23),le(0,v['min']),le(v['min'],59),le(0,v['sec']),le(v['sec'],60)))
            return [(st,t)]
        return None
    def stream(s,e,st,p,v):
        if p.base is s.file: s.p.ob('the section is written to the file',st,or_(eq(st.ghost.get(('n',),0),23),eq(st.ghost.get(('n',),0),24))); st.ghost[('out',)]=st.ghost.get(('out',),0)+1; return True
        return False
    def item(s,e,st,k,it):
        p=s.p; G=s.G0; ob=lambda n,c: p.ob('item %d: %s'%(k,n),st,c)
        last=and_(k==25,eq(G('applicationNote').len,0)) if k in(25,) else k==26
        ob('delimiter',eq(it[3] if it[0]!=STR else it[2],ite(last,s.rd,s.pd)))
        nm,kd=G26[k][:2] if k in G26 else ('?',0)
        ob('kind',it[0]==kd)
        if it[0]!=kd: return
        if kd==STR:
            x=it[1]
            none=lambda n: or_(and_(eq(G(n).len,0),seq_str(x,SLit(b'none'))),and_(lt(0,G(n).len),seq_str(x,G(n))))
            if k in(3,5): ob(nm+', or none',none(nm))
            elif k==6: ob('a preprocessor version',lt(0,x.len))
            elif k==15: U=G('unitsFlag'); ob('name of the units',or_(seq_str(x,unit_name(U)),and_(eq(U,EXT),lt(0,G('unitsName').len),seq_str(x,G('unitsName')))))
            elif k in(18,25):
                ok=lambda: and_(eq(x.len,15),isdate(x.at,15))
                if k==18:
                    same=seq_str(x,G(nm)) is True
                    ob('the creation date, when it is a date',imp(z3.Bool('is_date'),seq_str(x,G(nm))))
                    if not same: ob('or else a valid date',or_(z3.Bool('is_date'),ok()))
                else: ob('a valid date',ok())
            else: ob(nm,seq_str(x,G(nm)))
        elif kd==INT:
            i=it[1]
            want={7:32,8:38,9:6,10:308,11:15,16:ite(lt(G('maxLinewidthGrad'),1),1,G('maxLinewidthGrad')),23:11}.get(k)
            if want is None: want=G(nm)
            ob(nm,eq(i,want))
        else:
            r=R(it[2])
            if k==19: ob(nm,imp(le(R(Fraction(1e-12)),R(G(nm))),eq(r,R(G(nm)))))
            elif k==17: ob(nm,imp(le(R(Fraction(1e-6)),R(G(nm))),eq(r,R(G(nm)))))
            elif k==20: ob('a coordinate bound',le(0,r))
            else: ob(nm,eq(r,R(G(nm))))
def write_task():
    def run(p):
        st=p.st; e=p.e; e.mergepaths=True; o=p.obj('this'); f=p.obj('file'); st.assume(ne(o.base,f.base)); sp=p.spec
        names(p,st); gd=p.ctx.F('IGES','globalData')[0]
        def fo(n): a,k=p.ctx.F('IGES_GLOBAL',n); return k,add(gd,a)
        def G(s,n): k,a=fo(n); return e.mread(s,k,a,o.base)
        v0={n:G(st,n) for n in['pdelim','rdelim']+[x[0] for x in G26.values()]}
        sp.G0=lambda n: v0[n]; sp.file=f.base; vt=e.new_id(); e.mwrite(st,'i64',-24,vt,0); e.mwrite(st,'ptr',0,f.base,Ptr(vt,0))
        sp.pd,sp.rd=v0['pdelim'],v0['rdelim']
        st.assume(and_(ne(sp.pd,sp.rd),le(1,v0['unitsFlag']),le(v0['unitsFlag'],11)))
        for d in(sp.pd,sp.rd): st.assume(and_(lt(32,d),lt(d,127),not_(and_(le(43,d),le(d,57),ne(d,44),ne(d,47))),ne(d,68),ne(d,69),ne(d,72),ne(d,101)))
        st1=st.clone()
        def post(s,r):
            n=s.ghost.get(('n',),0)
            p.ob('written whenever the file name is set and the items fit',s,imp(and_(lt(0,v0['fileName'].len),z3.Bool('room'),z3.Bool('fileok')),r))
            p.ob('the section is written once',s,imp(r,eq(s.ghost.get(('out',),0),1)))
            p.ob('every item is written',s,imp(r,eq(n,ite(eq(v0['applicationNote'].len,0),23,24))))
            p.ob('the file name is set',s,imp(r,lt(0,v0['fileName'].len)))
        p.run(p.ctx.fn([x for x in p.ctx.mod.bydem if x.startswith('IGES::writeGlobals(')][0]),[o,f],post)
    return proof('IGES::writeGlobals',run,spec=WSpec,deadline=120)
import c11
class CSpec(c11.Spec): strtab=TAB
def convert_task():
    def run(p):
        st=p.st; e=p.e; this=p.obj('this'); en=p.get(st,this,'IGES','entities'); gd=p.ctx.F('IGES','globalData')[0]
        q=freshint('nn'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(en.len)),B(ne(en.at(q,'ptr',0).base,0)))))
        ok=e.uf('rescale_ok','Int','Bool'); q=freshint('ok'); st.assume(z3.ForAll([q],ok(q)))    # C11
        def fo(n): a,k=p.ctx.F('IGES_GLOBAL',n); return k,add(gd,a)
        def G(s,n): k,a=fo(n); return e.mread(s,k,a,this.base)
        a=p.i32('unit'); old=G(st,'unitsFlag'); st.assume(and_(le(1,old),le(old,11))); m0=G(st,'minResolution'); n0=G(st,'unitsName'); k,x=fo('unitsFlag')
        def post(s,r):
            acc=or_(eq(a,old),and_(le(1,a),le(a,11),ne(a,EXT),ne(old,EXT)))
            p.ob('accepted exactly for units whose size is known',s,eq(B(r),B(acc)))
            p.ob('the flag is that of the new units',s,eq(G(s,'unitsFlag'),ite(acc,a,old)))
            p.ob('the name is that of the new units',s,ite(and_(acc,ne(a,old)),seq_str(G(s,'unitsName'),unit_name(a)),seq_str(G(s,'unitsName'),n0)))
            f=lambda v: c11.ite_chain(v)
            p.ob('the resolution is converted with the model',s,ite(and_(acc,ne(a,old)),eq(R(G(s,'minResolution'))*R(f(a)),R(m0)*R(f(old))),eq(R(G(s,'minResolution')),R(m0))))
        p.run(p.ctx.fn('IGES::ConvertUnits(IGES_UNIT)'),[this,a],post)
    return proof('IGES::ConvertUnits: units',run,spec=CSpec)
def tasks(ctx,thorough): return [date_task(13),date_task(15),date_task(0),init_task(),name_task(),read_task(),write_task(),convert_task()]
REPLAY='c14.cpp'; REPLAY_N=2000
