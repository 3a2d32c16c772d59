"""C16: IDF text is tokenised in bounds and keywords map both ways."""
from lib import *
import models
OWNERS={'UNOWNED':'UNOWNED','ECAD':'ECAD','MCAD':'MCAD'}
LAYERS={'TOP':'LYR_TOP','BOTTOM':'LYR_BOTTOM','BOTH':'LYR_BOTH','INNER':'LYR_INNER','ALL':'LYR_ALL'}
PLACE={'PLACED':'PS_PLACED','UNPLACED':'PS_UNPLACED','MCAD':'PS_MCAD','ECAD':'PS_ECAD'}
PLATING={'PTH':'PTH','NPTH':'NPTH'}
REFS={'BOARD':'BOARD','NOREFDES':'NOREFDES','PANEL':'PANEL'}
HOLES={'PIN':'PIN','VIA':'VIA','MTG':'MTG','TOOL':'TOOL'}
class Spec(LibSpec):
    onthrow=None; lines=False
    def match(s,eng,st,dem,args,ins):
        if dem=='IDF3::CompareToken(char const*, string const&)':
            # contract (proved below)
            w=models.cstr(eng,st,args[0]); T=models.e_str(eng,st,args[1])
            if not isinstance(w,SLit): raise Unsupported('keyword is not a literal')
            return [(st,isword(T,w.b.decode()))]
        if dem=='IDF3::ParseOwner(string const&, IDF3::KEY_OWNER&)': return s.parse(eng,st,args,OWNERS,None)
        if dem=='IDF3::ParseIDFLayer(string const&, IDF3::IDF_LAYER&)': return s.parse(eng,st,args,LAYERS,'LYR_INVALID')
        if dem.startswith('std::basic_ios<') and dem.endswith('::fail() const'): q=eng.fresh('fail','Bool'); nt=st.ghost.get(('numtext',)); q=True if s.lines and isinstance(nt,SLit) and not nt.b else q; st.ghost[('nums',)]=st.ghost.get(('nums',),())+(('fail',q),); return [(st,q)]
        if dem.startswith('std::basic_ios<') and re.search(r'::(good|eof|bad)\(\) const$',dem): return [(st,eng.fresh('stream','Bool'))]
        if dem=='IDF3::FetchIDFLine(ifstream&, string&, bool&, std::fpos<__mbstate_t>&)' and s.lines:
            # the line, whether it is a comment, and its position: any
            eng.cnt+=1; T=eng.symstr(st,'line%d'%eng.cnt,tuple(eng.loopctx)); models.w_str(eng,st,args[1],T); eng.mwrite(st,'i8',args[2].off,args[2].base,ite(eng.fresh('comment','Bool'),1,0))
            return [(st,eng.fresh('fetched','Bool'))]
        if dem=='IDF3::GetIDFString(string const&, string&, bool&, int&)' and s.lines:
            # contract (proved above): on success a token; the order of the tokens is recorded
            n=len(st.ghost.get(('toks',),())); r=eng.fresh('got%d'%n,'Bool'); q=eng.fresh('quoted%d'%n,'Bool'); out=[]
            def yes(a):
                T=eng.symstr(a,'tok%d'%n,(I(0),)); j=freshint('j'); a.assume(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<I(T.len)),B(and_(le(-128,T.at(j)),le(T.at(j),127)))))); models.w_str(eng,a,args[1],T); eng.mwrite(a,'i8',args[2].off,args[2].base,ite(q,1,0)); eng.mwrite(a,'i32',args[3].off,args[3].base,eng.fresh('ix'))
                a.ghost[('toks',)]=a.ghost.get(('toks',),())+((True,T,q),); out.append((a,True))
            def no(a):
                a.ghost[('toks',)]=a.ghost.get(('toks',),())+((False,None,None),); out.append((a,False))
            eng.fork(st,r,yes,no); return out
        if s.lines and dem.startswith('std::fpos<'): return [(st,eng.fresh('fpos') if 'operator long' in dem else None)]
        if s.lines and re.search(r'istringstream',dem):
            if re.search(r'::basic_istringstream\(',dem): vt=eng.new_id(); eng.mwrite(st,'i64',-24,vt,0); eng.mwrite(st,'ptr',0,args[0].base,Ptr(vt,0))
            if re.search(r'::str\(string const&\)$',dem): st.ghost[('numtext',)]=models.e_str(eng,st,args[1])
            return [(st,None)]
        if s.lines and dem.startswith('std::basic_ios<') and '::clear(' in dem: return [(st,None)]
        if s.lines and dem.endswith('::operator>>(double&)'):
            v=eng.fresh('num','Real'); eng.mwrite(st,'f64',args[1].off,args[1].base,v); st.ghost[('nums',)]=st.ghost.get(('nums',),())+(('val',v,st.ghost.get(('numtext',))),); return [(st,args[0])]
        if dem=='__cxa_allocate_exception': return [(st,Ptr(eng.new_id(),0))]
        if dem.startswith('IDF_ERROR::IDF_ERROR('): return [(st,None)]
        if dem=='__cxa_throw':
            if s.onthrow: s.onthrow(st)
            return []
        return None
    def parse(s,eng,st,args,tab,other):
        """contract (proved below): exactly the keywords are accepted, each with its own value"""
        T=models.e_str(eng,st,args[0]); E=s.p.ctx.enum; out=[]; no=True
        for w,n in tab.items():
            c=isword(T,w); no=and_(no,not_(c)); q=st.clone(); q.assume(B(c))
            if eng.feasible(q): eng.mwrite(q,'i32',args[1].off,args[1].base,E[n]); out.append((q,True))
        q=st.clone(); q.assume(B(no))
        if eng.feasible(q):
            if other: eng.mwrite(q,'i32',args[1].off,args[1].base,E[other])
            out.append((q,False))
        return out
def first(p,st,T,frm,hit,name):
    """ghost: first position >= frm of a character which satisfies hit, or the length of the text"""
    i=p.e.fresh(name); j=freshint('j'); n=I(T.len)
    st.assume(z3.And(i>=I(frm),i<=n,z3.Implies(i<n,B(hit(T.at(i))))))
    st.assume(z3.ForAll([j],z3.Implies(z3.And(I(frm)<=j,j<i),B(not_(hit(T.at(j)))))))
    return i
def blank(c): return or_(eq(c,32),and_(le(9,c),le(c,13)))
def nonblank(c): return not_(blank(c))
def text(p,name,nonul=True):
    st=p.st; T=p.e.symstr(st,name,(I(0),)); j=freshint('j')
    st.assume(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<I(T.len)),B(and_(ne(T.at(j),0),le(-128,T.at(j)),le(T.at(j),127)))))); st.assume(T.len<2**31-1)
    return T
def distinct(st,l):
    for i in range(len(l)):
        for j in range(i): st.assume(l[i].base!=l[j].base)
def tok_task():
    def run(p):
        st=p.st; e=p.e; line=p.obj('line'); out=p.obj('tok'); hq=p.obj('quoted'); ix=p.obj('idx'); distinct(st,[line,out,hq,ix])
        T=text(p,'text'); n=T.len; e.mwrite(st,'str',0,line.base,T); i0=p.i32('idx0'); e.mwrite(st,'i32',0,ix.base,i0)
        st1=st.clone()
        def post(s,r):
            tk=e.mread(s,'str',0,out.base); q=e.tobool(e.mread(s,'i8',0,hq.base)); i1=e.mread(s,'i32',0,ix.base)
            out_=or_(lt(i0,0),le(n,i0))
            s0=s.clone(); s0.assume(B(out_))
            if e.feasible(s0):
                p.ob('no token at a position outside the line',s0,not_(r)); p.ob('the position outside the line is kept',s0,eq(i1,i0))
            s.assume(B(not_(out_)))
            if e.feasible(s):
                b=first(p,s,T,i0,nonblank,'start')
                none=eq(b,n); quo=and_(lt(b,n),eq(T.at(b),34))
                s2=s.clone(); s2.assume(B(none))
                if e.feasible(s2): p.ob('no token in the blank rest of a line',s2,not_(r)); p.ob('the blank rest of a line is consumed',s2,eq(i1,n))
                s2=s.clone(); s2.assume(B(quo))
                if e.feasible(s2):
                    k=freshint('k'); inq=lambda hi: imp(and_(lt(b,k),lt(k,hi)),ne(T.at(k),34)); no=s2.clone(); no.assume(B(not_(r)))
                    if e.feasible(no): p.ob('a quoted token is refused only when no quote ends it',no,inq(n)); p.ob('a line with an open quote is consumed',no,eq(i1,n))
                    s2.assume(B(r)); c=sub(i1,1)
                    if e.feasible(s2):
                        p.ob('a quoted token ends at a quote',s2,and_(lt(b,c),lt(c,n),eq(T.at(c),34))); p.ob('a quoted token ends at the first quote',s2,inq(c))
                        p.ob('a quoted token is reported as such',s2,q); p.ob('a quoted token is returned unaltered',s2,seq_str(tk,ssub(T,add(b,1),sub(sub(c,b),1))))
                s2=s.clone(); s2.assume(B(and_(lt(b,n),not_(quo))))
                if e.feasible(s2):
                    c=first(p,s2,T,b,blank,'end')
                    p.ob('a token is accepted',s2,r); p.ob('the position moves behind the token',s2,eq(i1,c)); p.ob('a plain token is reported as such',s2,not_(q))
                    p.ob('a token is returned unaltered',s2,seq_str(tk,ssub(T,b,c-b)))
                p.ob('the position advances and stays in the line',s,and_(lt(i0,i1),le(i1,n)))
            p.frame('outputs',st1,s,[('str',0,out.base),('i8',0,hq.base),('i32',0,ix.base)])
        p.run(p.ctx.fn('IDF3::GetIDFString(string const&, string&, bool&, int&)',p.ctx.idf),[line,out,hq,ix],post)
    return proof('IDF3::GetIDFString',run,spec=Spec,idf=True)
def up(c): return ite(and_(le(97,c),le(c,122)),sub(c,32),c)
def isword(T,w,low=True):
    """the text is the keyword, in any mixture of upper and lower case"""
    f=eq(T.len,len(w))
    for k,ch in enumerate(w): f=and_(f,eq(up(T.at(k)),ord(ch)))
    return f
def cmp_task():
    def run(p):
        st=p.st; e=p.e; a=p.obj('input'); T=text(p,'text'); W=text(p,'keyword'); e.mwrite(st,'str',0,a.base,T); key=arg(p,W); st1=st.clone()
        def post(s,r):
            k=freshint('k'); s2=s.clone(); s2.assume(B(r))
            if e.feasible(s2): p.ob('a match has the length of the keyword',s2,eq(T.len,W.len)); p.ob('a match differs from the keyword in case only',s2,imp(and_(le(0,k),lt(k,T.len)),eq(up(T.at(k)),W.at(k))))
            s2=s.clone(); s2.assume(z3.And(I(T.len)==I(W.len),z3.ForAll([k],z3.Implies(z3.And(0<=k,k<I(T.len)),B(eq(up(T.at(k)),W.at(k)))))))
            if e.feasible(s2): p.ob('the keyword in any case is matched',s2,r)
            p.frame('comparison',st1,s,[])
        p.run(p.ctx.fn('IDF3::CompareToken(char const*, string const&)',p.ctx.idf),[key,a],post)
    return proof('IDF3::CompareToken',run,spec=Spec,idf=True)
def arg(p,t): return EPtr('str',p.cell('str',t,p.st),0)
def parse_task(fn,cls,tab,other):
    def run(p):
        st=p.st; e=p.e; E=p.ctx.enum; a=p.obj('token'); o=p.obj('value'); distinct(st,[a,o]); T=text(p,'text'); e.mwrite(st,'str',0,a.base,T); v0=p.i32('v0'); e.mwrite(st,'i32',0,o.base,v0); st1=st.clone()
        def post(s,r):
            v=e.mread(s,'i32',0,o.base); any_=False
            for w,n in tab.items():
                c=isword(T,w); any_=or_(any_,c)
                p.ob('%s is accepted'%w,s,imp(c,r)); p.ob('%s has its own value'%w,s,imp(c,eq(v,E[n])))
            p.ob('any other text is refused',s,imp(not_(any_),not_(r)))
            p.ob('the value after a refusal',s,imp(not_(any_),eq(v,E[other] if other else v0)))
            p.frame('value',st1,s,[('i32',0,o.base)])
        p.run(p.ctx.fn('IDF3::%s(string const&, IDF3::%s&)'%(fn,cls),p.ctx.idf),[a,o],post)
    class S2(Spec):
        def match(s,eng,st,dem,args,ins): return None if dem.startswith('IDF3::Parse') else Spec.match(s,eng,st,dem,args,ins)
    return proof('IDF3::'+fn,run,spec=S2,idf=True)
def name_task(fn,cls,tab):
    """the text of every value; texts of different values differ, and no other value has the text of a keyword"""
    def run(p):
        st=p.st; e=p.e; E=p.ctx.enum; o=p.obj('text'); v=p.i32('v'); st1=st.clone()
        def post(s,r):
            T=e.mread(s,'str',0,o.base); known=False
            for w,n in tab.items():
                c=eq(v,E[n]); known=or_(known,c); s2=s.clone(); s2.assume(B(c))
                if e.feasible(s2): p.ob('the text of %s'%n,s2,seq_str(T,SLit(w.encode())))
            s2=s.clone(); s2.assume(B(not_(known)))
            if e.feasible(s2):
                for w in tab: p.ob('no other value is named as a keyword',s2,not_(isword(T,w)))
        p.run(p.ctx.fn('IDF3::%s[abi:cxx11](IDF3::%s)'%(fn,cls),p.ctx.idf),[o,v],post)
    return proof('IDF3::'+fn,run,spec=Spec,idf=True)
def ofs(p,name='file'):
    """an output stream: its text is a ghost string"""
    st=p.st; e=p.e; f=p.obj(name); vt=e.new_id(); e.mwrite(st,'i64',-24,vt,0); e.mwrite(st,'ptr',0,f.base,Ptr(vt,0)); st.ghost[('track','os',f.base,0)]=EMPTY
    return f
def out(s,f): return s.ghost[('track','os',f.base,0)]
def wlay_task():
    def run(p):
        st=p.st; e=p.e; E=p.ctx.enum; f=ofs(p); v=p.i32('layer'); st1=st.clone(); known=or_(*[eq(v,E[n]) for n in LAYERS.values()])
        p.spec.onthrow=lambda s: p.ob('only an invalid layer is refused',s,not_(known))
        def post(s,r):
            p.ob('only layers are written',s,known)
            for w,n in LAYERS.items():
                s2=s.clone(); s2.assume(B(eq(v,E[n])))
                if e.feasible(s2): p.ob('%s is written as its keyword'%n,s2,seq_str(out(s2,f),SLit(w.encode())))
        p.run(p.ctx.fn('IDF3::WriteLayersText(ofstream&, IDF3::IDF_LAYER)',p.ctx.idf),[f,v],post)
    return proof('IDF3::WriteLayersText',run,spec=Spec,idf=True)
DD='IDF_DRILL_DATA'
def drill(p,name='this'):
    return p.obj(name)
def refis(p,s,o,T,empty=True):
    """reference designator of the hole: the keyword's value, or the text itself"""
    E=p.ctx.enum; k=p.get(s,o,DD,'kref'); return k
def ctor_task():
    def run(p):
        st=p.st; e=p.e; E=p.ctx.enum; o=p.newobj(DD); ra=p.obj('ref'); ha=p.obj('hole'); distinct(st,[ra,ha])
        R_=text(p,'refdes'); H=text(p,'holetype'); e.mwrite(st,'str',0,ra.base,R_); e.mwrite(st,'str',0,ha.base,H)
        d=p.real('dia'); x=p.real('x'); y=p.real('y'); pl=p.i32('plating'); ow=p.i32('owner'); st1=st.clone()
        lit=lambda T,w: and_(eq(T.len,len(w)),*[eq(T.at(k),ord(c)) for k,c in enumerate(w)])
        def post(s,r):
            g=lambda n: p.get(s,o,DD,n)
            for n,v in(('x',x),('y',y),('plating',pl),('owner',ow)): p.ob('the %s is taken'%n,s,eq(g(n),v))
            p.ob('the diameter is taken, 0.3 at least',s,eq(g('dia'),z3.If(R(d)<z3.RealVal('0.3'),z3.RealVal('0.3'),R(d))) if False else imp(le(1,R(d)),eq(g('dia'),d)))
            for T,tab,dflt,fld,txt,oth in((R_,REFS,'NOREFDES','kref','refdes','REFDES'),(H,HOLES,'MTG','khole','holetype','OTHER')):
                any_=eq(T.len,0); p.ob('no %s is %s'%(txt,dflt),s,imp(eq(T.len,0),eq(g(fld),E[dflt])))
                for w,n in tab.items(): c=lit(T,w); any_=or_(any_,c); p.ob('%s is recognised'%w,s,imp(c,eq(g(fld),E[n])))
                s2=s.clone(); s2.assume(B(not_(any_)))
                if e.feasible(s2): p.ob('any other %s is kept as such'%txt,s2,eq(p.get(s2,o,DD,fld),E[oth])); p.ob('any other %s is kept unaltered'%txt,s2,seq_str(p.get(s2,o,DD,txt),T))
        p.run(p.ctx.fn('IDF_DRILL_DATA::IDF_DRILL_DATA(double, double, double, IDF3::KEY_PLATING, string, string, IDF3::KEY_OWNER)',p.ctx.idf),[o,d,x,y,pl,ra,ha,ow],post)
    return proof('IDF_DRILL_DATA::IDF_DRILL_DATA',run,spec=Spec,idf=True)
def dget_task(meth,fld,txt,tab,dflt,oth):
    def run(p):
        st=p.st; e=p.e; E=p.ctx.enum; o=p.obj('this'); T=text(p,'stored'); p.put(st,o,DD,txt,T); k=p.i32('k'); p.put(st,o,DD,fld,k); st1=st.clone()
        def post(s,r):
            v=e.mread(s,'str',r.cont.off,r.cont.base) if isinstance(r,EPtr) else models.e_str(e,s,r); any_=eq(k,E[oth])
            for w,n in list(tab.items()):
                s2=s.clone(); s2.assume(B(eq(k,E[n])))
                if e.feasible(s2): p.ob('the text of %s'%n,s2,seq_str(v,SLit(w.encode())))
            s2=s.clone(); s2.assume(B(eq(k,E[oth])))
            if e.feasible(s2): p.ob('the text given is returned unaltered',s2,seq_str(v,T))
        p.run(p.ctx.fn('IDF_DRILL_DATA::%s[abi:cxx11]()'%meth,p.ctx.idf),[o],post)
    return proof('IDF_DRILL_DATA::'+meth,run,spec=Spec,idf=True)
def isany(T,tab): return or_(*[isword(T,w) for w in tab])
def dread_task():
    def run(p):
        st=p.st; e=p.e; E=p.ctx.enum; p.spec.lines=True; o=p.obj('this'); f=p.obj('file'); vt=e.new_id(); e.mwrite(st,'i64',-24,vt,0); e.mwrite(st,'ptr',0,f.base,Ptr(vt,0)); unit=p.i32('unit'); state=p.i32('state'); ver=p.i32('version'); st.assume(or_(eq(ver,E['IDF_V2']),eq(ver,E['IDF_V3']))); st1=st.clone(); v3=lt(E['IDF_V2'],ver)
        def post(s,r):
            t=s.ghost.get(('toks',),()); g=lambda n,q=None: p.get(q or s,o,DD,n); c3=[x for x in(v3,not_(v3))]
            if r is not True and r is not False: raise Unsupported('result of the reader')
            if not r: p.ob('the section ends at its keyword only',s,isword(t[0][1],'.END_DRILLED_HOLES') if t and t[0][0] else False); return
            if not t or not t[0][0]: p.ob('a hole is read from a line with tokens',s,False); return
            p.ob('the keyword at the end of the section is no hole',s,not_(isword(t[0][1],'.END_DRILLED_HOLES')))
            is3=len(t)==7
            p.ob('version 3 records have seven tokens, earlier ones five',s,and_(len(t) in(5,7),eq(B(v3) if isz(v3) else v3,is3)) if len(t) in(5,7) else False)
            if len(t) not in(5,7) or not all(x[0] for x in t): p.ob('all tokens are there',s,False); return
            PL,RF,HT,OW=(t[3][1],t[4][1],t[5][1],t[6][1]) if is3 else (None,t[4][1],t[3][1],None)
            def keyed(what,T,tab,fld,oth=None,txt=None):
                for w,n in tab.items(): p.ob('%s %s is read as such'%(what,w),s,imp(isword(T,w),eq(g(fld),E[n])))
                if oth is None: p.ob('any other %s is refused'%what,s,isany(T,tab)); return
                s2=s.clone(); s2.assume(B(not_(isany(T,tab))))
                if e.feasible(s2): p.ob('any other %s is kept'%what,s2,eq(g(fld),E[oth])); p.ob('any other %s is kept unaltered'%what,s2,seq_str(p.get(s2,o,DD,txt),T))
            if is3: keyed('plating',PL,PLATING,'plating'); keyed('owner',OW,OWNERS,'owner')
            else: p.ob('earlier versions: plated',s,eq(g('plating'),E['PTH'])); p.ob('earlier versions: no owner',s,eq(g('owner'),E['UNOWNED']))
            keyed('reference',RF,REFS,'kref','REFDES','refdes'); keyed('hole type',HT,HOLES,'khole','OTHER','holetype')
            nums=[x for x in s.ghost.get(('nums',),()) if x[0]=='val']
            p.ob('three numbers are read',s,len(nums)==3)
            if len(nums)==3:
                for k,n in enumerate(('dia','x','y')):
                    p.ob('%s is read from its own token'%n,s,seq_str(nums[k][2],t[k][1]))
                    for u,fac in(('UNIT_MM',Fraction(1)),('UNIT_THOU',Fraction(0.0254)),('UNIT_TNM',Fraction(1e-5))): p.ob('%s in the units of the file'%n,s,imp(eq(unit,E[u]),eq(g(n),nums[k][1]*z3.RealVal(fac))))
            p.ob('units are known',s,or_(eq(unit,E['UNIT_MM']),eq(unit,E['UNIT_THOU']),and_(eq(unit,E['UNIT_TNM']),not_(v3))))
            for k in range(3): p.ob('numbers are not quoted',s,not_(t[k][2]))
        def thrown(s):
            t=s.ghost.get(('toks',),()); nums=s.ghost.get(('nums',),()); why=False
            if not t: return       # no line could be read, or it is a comment
            for k,(ok,T,q) in enumerate(t):
                if not ok: return
                if k<3: why=or_(why,q)
            for x in nums: why=or_(why,x[1] if x[0]=='fail' else False)
            v=[x for x in nums if x[0]=='val']
            if v: why=or_(why,lt(v[0][1],ite(eq(unit,E['UNIT_TNM']),z3.RealVal(100),z3.RealVal(1))))
            if len(t)>3: why=or_(why,and_(v3,not_(isany(t[3][1],PLATING))))
            if len(t)>6: why=or_(why,not_(isany(t[6][1],OWNERS)))
            why=or_(why,not_(or_(eq(unit,E['UNIT_MM']),eq(unit,E['UNIT_THOU']),and_(eq(unit,E['UNIT_TNM']),not_(v3)))))
            p.ob('only faulty records are refused',s,why)
        p.spec.onthrow=thrown; p.e.mergepaths=True
        p.run(p.ctx.fn('IDF_DRILL_DATA::read(ifstream&, IDF3::IDF_UNIT, IDF3::FILE_STATE, IDF3::IDF_VERSION)',p.ctx.idf),[o,f,unit,state,ver],post)
    return proof('IDF_DRILL_DATA::read',run,spec=Spec,idf=True)
class WSpec(Spec):
    """numbers on an output stream are kept as values (their decimal text is not part of this property)"""
    def match(s,eng,st,dem,args,ins):
        if dem.endswith('ostream::operator<<(double)'): models.stream_put(eng,st,args[0],SOpq('number',(args[1],),eng.uf('num_len','Real','Int')(R(args[1])),lambda k,v=args[1]: eng.uf('num_ch','Real','Int','Int')(R(v),I(k)))); st.assume(eng.uf('num_len','Real','Int')(R(args[1]))>=1); return [(st,args[0])]
        if dem.startswith('std::setiosflags(') or '_Setiosflags' in dem or dem.startswith('std::setprecision(') or '_Setprecision' in dem: return [(st,args[0])]
        return Spec.match(s,eng,st,dem,args,ins)
def dwrite_task():
    def run(p):
        st=p.st; e=p.e; E=p.ctx.enum; o=p.obj('this'); f=ofs(p); st.assume(o.base!=f.base); unit=p.i32('unit'); RT=text(p,'refdes'); HT=text(p,'holetype'); p.put(st,o,DD,'refdes',RT); p.put(st,o,DD,'holetype',HT)
        v={}
        for n,vals in(('kref',[*REFS.values(),'REFDES']),('khole',[*HOLES.values(),'OTHER']),('plating',PLATING.values()),('owner',OWNERS.values())):
            v[n]=p.i32(n); p.put(st,o,DD,n,v[n]); st.assume(or_(*[eq(v[n],E[x]) for x in vals]))
        num={n:p.get(st,o,DD,n) for n in('dia','x','y')}; st1=st.clone()
        L=lambda t: SLit(t.encode())
        def post(s,r):
            fac=lambda q,x: q if x else q/z3.RealVal(Fraction(0.0254))
            T=out(s,f)
            def number(val,q): return SOpq('number',(val,),e.uf('num_len','Real','Int')(R(val)),lambda k: e.uf('num_ch','Real','Int','Int')(R(val),I(k)))
            for mm in(True,False):
                s1=s.clone(); s1.assume(B(eq(unit,E['UNIT_MM'])) if mm else B(ne(unit,E['UNIT_MM'])))
                if not e.feasible(s1): continue
                for rw,rn in [*REFS.items(),(None,'REFDES')]:
                    s2=s1.clone(); s2.assume(B(eq(v['kref'],E[rn])))
                    if not e.feasible(s2): continue
                    for hw,hn in [*HOLES.items(),(None,'OTHER')]:
                        s3=s2.clone(); s3.assume(B(eq(v['khole'],E[hn])))
                        if not e.feasible(s3): continue
                        for pw,pn in PLATING.items():
                            for ow,on in OWNERS.items():
                                s4=s3.clone(); s4.assume(B(and_(eq(v['plating'],E[pn]),eq(v['owner'],E[on]))))
                                if not e.feasible(s4): continue
                                q=lambda w,t: [L(w)] if w else [L('"'),t,L('"')]
                                want=scat(*[x for n in('dia','x','y') for x in(number(fac(num[n],mm),0),L(' '))],L(pw+' '),*q(rw,RT),L(' '),*q(hw,HT),L(' '),L(ow+'\n'))
                                p.ob('the hole is written with its keywords, each in its place',s4,seq_str(T,want))
        p.run(p.ctx.fn('IDF_DRILL_DATA::write(ofstream&, IDF3::IDF_UNIT)',p.ctx.idf),[o,f,unit],post)
    return proof('IDF_DRILL_DATA::write',run,spec=WSpec,idf=True,deadline=200)
def tasks(ctx,thorough): return [tok_task()]+[cmp_task(),parse_task('ParseOwner','KEY_OWNER',OWNERS,None),parse_task('ParseIDFLayer','IDF_LAYER',LAYERS,'LYR_INVALID'),name_task('GetOwnerString','KEY_OWNER',OWNERS),name_task('GetLayerString','IDF_LAYER',LAYERS),name_task('GetPlacementString','IDF_PLACEMENT',PLACE),wlay_task(),ctor_task(),dget_task('GetDrillRefDes','kref','refdes',REFS,'NOREFDES','REFDES'),dget_task('GetDrillHoleType','khole','holetype',HOLES,'MTG','OTHER'),dread_task(),dwrite_task()]
REPLAY='c16.cpp'; REPLAY_N=2000
