"""C17: a written file is complete and consistent, and reads back; a refused file or write changes nothing."""
from lib import *
from specs import assoc
import models
from specs.c02 import F8,field8
class RecSpec(LibSpec):
    """contract of DEItemToInt (C01); std::getline yields an arbitrary text; stream states and positions are arbitrary"""
    def match(s,eng,st,dem,args,ins):
        e=eng
        if dem.endswith('good() const'): s.n+=1; b=z3.Bool('good%d'%s.n); return [(st,b)]
        if dem.endswith('eof() const'): return [(st,z3.Bool('eof'))]
        if '::getline<' in dem:
            s.p.ob('one line is read, from the given file',st,and_(eq(args[0].base,s.file.base),st.ghost.get(('lines',),0)==0)); st.ghost[('lines',)]=1
            models.w_str(e,st,args[1],s.L); return [(st,args[0])]
        if dem.startswith('DEItemToInt('):
            s.seen=models.e_str(e,st,args[0]); st.ghost[('num',)]=(s.seen,args[1],args[3])
            a=st.clone(); b=st
            a.assume(z3.Bool('isnum')); e.mwrite(a,'i32',args[2].off,args[2].base,z3.Int('num')); b.assume(not_(z3.Bool('isnum')))
            return [(a,True),(b,False)]
        return None
    def loop_inv(s,eng,fn,lp,st0,items):
        L=s.L; strs=[it for it in items if it[0]=='mem' and it[1][0]=='str']; phis=[it for it in items if it[0]=='phi']
        if len(strs)!=1 or len(phis)>1: return None
        sk=strs[0]; bad=lambda c: or_(eq(c,10),eq(c,13),eq(c,12))
        class Inv:
            def name(v,it): return 'line' if it==sk else 'last character'
            def ghosts(v,e): return (e.fresh('m'),)
            def witness(v,get): return (sub(L.len,get(sk).len),)
            def cond(v,g):
                k=freshint('k'); m=g[0]
                return [('something is left',and_(le(0,m),lt(m,L.len))),('only line ends are removed',z3.ForAll([k],z3.Implies(z3.And(k>=I(L.len)-I(m),k<I(L.len)),B(bad(L.at(k))))))]
            def form(v,it,v0,g):
                n=sub(L.len,g[0])
                if it==sk: return SSub(L,0,n)
                if it[0]=='phi': return L.at(sub(n,1))
                return None
        return Inv()
def filestream(p,name='file'):
    e=p.e; st=p.st; f=p.obj(name); vt=e.new_id(); e.mwrite(st,'i64',-24,vt,0); e.mwrite(st,'ptr',0,f.base,Ptr(vt,0)); return f
def rec_task():
    def run(p):
        st=p.st; e=p.e; r=p.obj('rec'); f=filestream(p); sp=p.spec; sp.n=0; sp.file=f; sp.L=L=e.symstr(st,'line',(I(0),))
        st.assume(ne(r.base,f.base)); N=z3.Int('num'); st.assume(and_(le(-9999999,N),le(N,99999999))); st1=st.clone()
        bad=lambda c: or_(eq(c,10),eq(c,13),eq(c,12)); lets=lambda c: or_(*[eq(c,ord(x)) for x in 'FSGDPT'])
        def post(s,ok):
            R=lambda n: p.get(s,r,'IGES_RECORD',n); T=L; c=T.at(72); nm=s.ghost.get(('num',)); s2=s.clone(); s2.assume(B(ok))
            if e.sat(s2)!='unsat':
                k=freshint('k')
                p.ob('an accepted line has 80 columns; only line ends follow',s2,and_(le(80,L.len),imp(and_(le(80,k),lt(k,L.len)),bad(L.at(k)))))
                p.ob('the section letter is in column 73',s2,and_(lets(c),eq(R('section_type'),c)))
                k=freshint('k'); d=R('data')
                p.ob('the data are the first 72 columns',s2,and_(eq(d.len,72),imp(and_(le(0,k),lt(k,72)),eq(d.at(k),T.at(k)))))
                p.ob('the sequence number is read',s2,nm is not None)
                if nm is not None:
                    t,fld,dv=nm; k=freshint('k'); p.ob('sequence number: columns 74 to 80, column 73 taken as blank',s2,and_(eq(fld,9),eq(t.len,80),eq(t.at(72),32),imp(and_(lt(72,k),lt(k,80)),eq(t.at(k),T.at(k)))))
                    p.ob('a blank sequence number is not defaulted',s2,eq(dv.base if isinstance(dv,Ptr) else dv,0))
                p.ob('the sequence number is positive',s2,and_(z3.Bool('isnum'),lt(0,N),eq(R('index'),N)))
            p.ob('a well formed line is accepted',s,imp(and_(z3.Bool('good1'),z3.Bool('good2'),eq(L.len,80),lets(c),not_(bad(L.at(79))),z3.Bool('isnum'),lt(0,N)),ok))
            p.frame('only the record',st1,s,p.fields('IGES_RECORD',r,['data','section_type','index']))
        p.run(p.ctx.fn([x for x in p.ctx.mod.bydem if x.startswith('ReadIGESRecord(')][0]),[r,f,Ptr(0,0)],post)
    return proof('ReadIGESRecord',run,spec=RecSpec,deadline=100)
class LineSpec(LibSpec): pass
def padded(t,k):
    """k-th piece of 72 characters of text t, padded with blanks"""
    return lambda c: ite(lt(add(mul(72,k),c),t.len),t.at(add(mul(72,k),c)),32)
def header_task():
    def run(p):
        st=p.st; e=p.e; e.mergepaths=True; o=p.obj('this'); v=p.obj('comments'); st.assume(ne(v.base,o.base)); t=e.symstr(st,'text',(I(0),))
        st.assume(t.len<2**31); q=freshint('q'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(t.len)),B(ne(t.at(q),0)))))
        e.mwrite(st,'ptr',0,v.base,EPtr('str',p.cell('str',t,st),0)); L0=p.get(st,o,'IGES','startSection'); st1=st.clone(); n0=L0.len
        def post(s,r):
            L=p.get(s,o,'IGES','startSection'); n=ite(eq(t.len,0),0,ite(lt(t.len,72),1,(I(t.len)+71)/72))
            p.ob('accepted',s,r)
            p.ob('one line for each 72 characters begun',s,eq(L.len,add(n0,n)))
            k=freshint('k'); c=freshint('c'); x=L.at(add(n0,k),'str',0)
            g=and_(le(0,k),lt(k,n))
            p.ob('every line added has 72 columns',s,imp(g,eq(x.len,72)))
            p.ob('the lines hold the text in order, padded with blanks',s,imp(and_(g,le(0,c),lt(c,72)),eq(x.at(c),padded(t,k)(c))))
            k=freshint('k'); p.ob('earlier lines stay',s,imp(and_(le(0,k),lt(k,n0)),seq_str(L.at(k,'str',0),L0.at(k,'str',0))))
            p.frame('only the header lines',st1,s,p.fields('IGES',o,['startSection','vStartSection']))
            V=p.get(s,o,'IGES','vStartSection'); p.ob('the list handed out before is dropped when lines are added',s,imp(lt(0,t.len),eq(V.len,0)))
        p.run(p.ctx.fn('IGES::AddToHeader(char const*&)'),[o,v],post)
    return proof('IGES::AddToHeader',run,spec=LineSpec,deadline=100)
DEFAULT=b'# Created via the free libIGES (https://github.com/cbernardo/libIGES)'
def record(e,st,v):
    """a record may be written in several pieces: it is complete once a newline has been written"""
    b=st.ghost.get(('buf',)); x=v if b is None else scat(b,v)
    done=isinstance(v.len,int) and v.len==0 and b is None or e.proves(st,and_(lt(0,v.len),eq(v.at(sub(v.len,1)),10)))
    st.ghost[('buf',)]=None if done else x
    return x if done else None
def whole(p,st): p.ob('no part of a record is left over',st,st.ghost.get(('buf',)) is None)
class StartSpec(LibSpec):
    """contract of FormatDEInt (C01); stream states are arbitrary"""
    def match(s,eng,st,dem,args,ins):
        e=eng
        if dem=='FormatDEInt(string&, int)':
            out=[]; n=args[1]; ok=and_(le(n,99999999),le(-9999999,n))
            def good(q): models.w_str(e,q,args[0],field8(e,n)); out.append((q,True))
            def bad(q): models.w_str(e,q,args[0],EMPTY); out.append((q,False))
            e.fork(st,ok,good,bad); return out
        if dem.endswith('fail() const') and isinstance(args[0],Ptr): return [(st,e.fresh('ioerr','Bool'))]
        return None
    def stream(s,e,st,p,v):
        if p.base is not s.file: return False
        v=record(e,st,v)
        if v is None: return True
        g=('track','lines'); n=st.ghost[g]; ob=s.p.ob; c=freshint('c'); L=s.line(n)
        ob('every record has 80 columns and a newline',st,and_(eq(v.len,81),eq(v.at(80),10)))
        ob('columns 1 to 72: the line, padded with blanks',st,imp(and_(le(0,c),lt(c,72)),eq(v.at(c),L(c))))
        ob('column 73: S',st,eq(v.at(72),83))
        ob('columns 74 to 80: the line number',st,imp(and_(lt(72,c),lt(c,80)),eq(v.at(c),F8(e,add(n,1),sub(c,72)))))
        st.ghost[g]=add(n,1); return True
    def loop_inv(s,e,fn,lp,st0,items):
        off=s.p.ctx.F('IGES','startSection')[0]
        lists=[it for it in items if it[0]=='mem' and it[1]==('list',off)]
        its=[it for it in items if isinstance(items[it],Iter) and eq(items[it].idx,0) is True]
        if len(its)!=1: return None
        ix=its[0]; cont=items[ix].cont
        nums=[it for it in items if it[0] in('phi','mem') and items[it]==1 and isinstance(items[it],int)]
        gl=('ghost',('track','lines'))
        if not lists and len(nums)!=1: return None
        n0=e.mread(st0,'list',off,cont.base).len; A=s.all
        class Inv:
            def name(v,it): return {'mem':'memory','phi':'value','ghost':'lines written'}.get(it[0],str(it[0])) if it!=ix else 'position'
            def ghosts(v,e): return (e.fresh('n'),)
            def witness(v,get): return (get(ix).idx,)
            def cond(v,g): return [('position inside the list',and_(le(0,g[0]),le(g[0],n0)))]
            def form(v,it,v0,g):
                n=g[0]
                if it==ix: return Iter('list',cont,n)
                if lists and it==lists[0]: return SeqMap(n0,lambda k: [SSym(lambda c: ite(lt(k,n),A(k)(c),v0.at(k,'str',0).at(c)),ite(lt(k,n),72,v0.at(k,'str',0).len))])
                if it==gl: return v0 if lists else n
                if not lists and it==nums[0]: return add(n,1)
                return None
        return Inv()
def start_task(empty):
    def run(p):
        st=p.st; e=p.e; e.mergepaths=True; o=p.obj('this'); f=filestream(p); st.assume(ne(f.base,o.base)); sp=p.spec; sp.file=f.base
        L0=p.get(st,o,'IGES','startSection'); st.ghost[('track','lines')]=0; n0=L0.len
        if empty:
            st.assume(eq(n0,0)); n0=1; sp.line=lambda k: (lambda c: padded(SLit(DEFAULT),0)(c))
        else:
            # established by AddToHeader (proved above) and by Read, whose lines are the 72 data columns of a record
            st.assume(lt(0,n0)); ch=e.uf('hd_ch','Int','Int','Int'); ln=e.uf('hd_len','Int','Int')
            def line0(k): u=ln(I(k)); return SSym(lambda c: ch(I(k),I(c)),ite(and_(le(0,u),le(u,72)),u,0),('hd',str(k)))
            L0=SeqMap(n0,lambda k: [line0(k)]); p.put(st,o,'IGES','startSection',L0)
            sp.line=lambda k: (lambda c: padded(L0.at(k,'str',0),0)(c))
        st.assume(I(n0)<=9999999); st1=st.clone()
        def post(s,r):
            if not(r is False): q=s.clone(); q.assume(B(r)); whole(p,q)
            L=p.get(s,o,'IGES','startSection'); c=freshint('c'); k=freshint('k')
            p.ob('every header line is written',s,imp(r,eq(s.ghost[('track','lines')],n0)))
            p.ob('the model keeps its lines, padded to 72 columns',s,and_(eq(L.len,n0),imp(and_(le(0,k),lt(k,n0)),and_(eq(L.at(k,'str',0).len,72),imp(and_(le(0,c),lt(c,72)),eq(L.at(k,'str',0).at(c),sp.line(k)(c)))))))
            p.frame('only the header lines',st1,s,p.fields('IGES',o,['startSection']))
        sp.all=sp.line
        p.run(p.ctx.fn([x for x in p.ctx.mod.bydem if x.startswith('IGES::writeStart(')][0]),[o,f],post)
    return proof('IGES::writeStart'+(': no header' if empty else ''),run,spec=StartSpec,deadline=100)
SEQ=('IGES_ENTITY','sequenceNumber')
class WSpec(LibSpec):
    """contracts: writeStart, FormatDEInt (proved), writeGlobals (C14), writeDE (C05), format (C06), writePD, Cull (an arbitrary list of entities
    remains); opening, closing and the state of the file are arbitrary.  The calls must follow the order of the sections"""
    def X(s,k): return s.p.e.uf('first_line','Int','Int')(I(k))
    def g(s,st,n): return st.ghost[('track',n)]
    def match(s,e,st,dem,args,ins):
        p=s.p; g=lambda n: st.ghost[('track',n)]; ob=lambda n,f: p.ob(n,st,f); E=s.E; n=E.len
        def bump(q,nm): q.ghost[('track',nm)]=add(q.ghost[('track',nm)],1)
        def both(ok,what=None):
            a,b=st.clone(),st
            if what: what(a)
            a.assume(B(ok)); b.assume(not_(ok)); b.ghost[('track','cause')]=1; return [(a,True),(b,False)]
        if dem in('IGES_LOCALE::IGES_LOCALE()','IGES_LOCALE::~IGES_LOCALE()') or dem.startswith('MCAD_FILEPATH::MCAD_FILEPATH()') or dem.startswith('MCAD_FILEPATH::~'): return [(st,None)]
        if dem.startswith('IGES::Cull('): p.put(st,args[0],'IGES','entities',E); return [(st,e.fresh('cull','Bool'))]
        if dem.startswith('@virtual format('):
            k=g('fmt'); ob('entities are formatted in the order of the list',and_(lt(k,n),eq(args[0].base,E.at(k,'ptr',0).base)))
            ob('an entity is formatted from the first free parameter line',eq(e.mread(st,'i32',args[1].off,args[1].base),s.X(k)))
            j=freshint('j'); ob('every entity has its directory entry number before any is formatted',imp(and_(le(0,j),lt(j,n)),eq(p.get(st,E.at(j,'ptr',0),*SEQ),add(mul(2,j),1))))
            def ok(q): bump(q,'fmt'); e.mwrite(q,'i32',args[1].off,args[1].base,s.X(add(k,1))); q.assume(and_(le(s.X(k),s.X(add(k,1))),le(s.X(add(k,1)),2**31-1)))
            return both(e.uf('fmt_ok','Int','Bool')(I(k)),ok)
        if dem.startswith('IGES_ENTITY::unformat('): return [(st,None)]
        if dem.startswith('ofstream::open('):
            t=models.cstr(e,st,args[1]); m=args[2]; ob('the file of the given name is opened',t is s.name or eq(args[1].cont.base,s.fname.cont.base))
            if not isinstance(m,int): raise Unsupported('open mode')
            st.ghost[('track','closed')]=0
            if (m&32) or not (m&8):
                ob('the file is only changed when every entity was formatted',eq(g('fmt'),n)); ob('the model is not empty when the file is changed',lt(0,n))
                ob('an existing file is only replaced on request',or_(not_(z3.Bool('exists')),s.over)); ob('a file is looked for before it is created',g('looked')==1)
                st.ghost[('track','trunc')]=1; st.ghost[('isopen',)]=z3.Bool('opened')
            else: st.ghost[('track','looked')]=1; st.ghost[('isopen',)]=z3.Bool('exists'); ob('the file is opened for writing',m&16==16)
            return [(st,None)]
        if dem.startswith('ofstream::is_open('): return [(st,st.ghost.get(('isopen',),False))]
        if dem.startswith('ofstream::close('): st.ghost[('track','closed')]=1; return [(st,None)]
        if dem.startswith('ofstream::basic_ofstream()') or dem.startswith('ofstream::~'):
            if '~' not in dem: vt=e.new_id(); e.mwrite(st,'i64',-24,vt,0); e.mwrite(st,'ptr',0,args[0].base,Ptr(vt,0)); st.ghost[('file',)]=args[0].base
            return [(st,None)]
        if dem.endswith('fail() const') and isinstance(args[0],Ptr):
            return [(st,ite(eq(g('closed'),1),z3.Bool('lost'),e.fresh('bad','Bool')))]
        if dem.startswith('MCAD_FILEPATH::SetPath('): return [(st,e.fresh('ok','Bool'))]
        if dem.startswith('MCAD_FILEPATH::GetFileName('):
            a,b=st.clone(),st; nm=z3.Bool('named'); a.assume(nm); b.assume(not_(nm)); return [(a,EPtr('str',p.cell('str',e.symstr(a,'fname',(I(0),)),a),0)),(b,NULL)]
        writable=lambda: and_(g('trunc')==1,eq(g('closed'),0))
        if dem.startswith('IGES::writeStart('):
            ob('the Start section comes first, in the file opened',and_(writable(),g('sec')==0)); st.ghost[('track','sec')]=1
            p.put(st,args[0],'IGES','startSection',s.L1); return both(z3.Bool('S_ok'))
        if dem.startswith('IGES::writeGlobals('):
            ob('the Global section follows the Start section',and_(writable(),g('sec')==1)); st.ghost[('track','sec')]=2
            p.put(st,args[0],'IGES','nGlobSecLines',z3.Int('NG')); return both(z3.Bool('G_ok'))
        if dem.startswith('@virtual writeDE('):
            k=g('de'); ob('Directory entries follow the Global section, in the order of the list',and_(writable(),g('sec')==2,lt(k,n),eq(args[0].base,E.at(k,'ptr',0).base),eq(args[1].base,st.ghost[('file',)])))
            return both(e.uf('de_ok','Int','Bool')(I(k)),lambda q: bump(q,'de'))
        if dem.startswith('@virtual writePD('):
            k=g('pd'); ob('parameters follow all Directory entries, in the order of the list',and_(writable(),eq(g('de'),n),lt(k,n),eq(args[0].base,E.at(k,'ptr',0).base),eq(args[1].base,st.ghost[('file',)])))
            return both(e.uf('pd_ok','Int','Bool')(I(k)),lambda q: bump(q,'pd'))
        if dem=='FormatDEInt(string&, int)': return StartSpec.match(s,e,st,dem,args,ins)
        return None
    def stream(s,e,st,p,v):
        g=lambda n: st.ghost[('track',n)]; ob=lambda n,f: s.p.ob(n,st,f)
        if p.base is not st.ghost.get(('file',)) and p.base!=st.ghost.get(('file',)): return False
        v=record(e,st,v)
        if v is None: return True
        n=s.E.len; ob('the Terminate line follows all parameters, once',and_(g('trunc')==1,eq(g('closed'),0),eq(g('pd'),n),g('term')==0)); st.ghost[('track','term')]=1
        ob('the Terminate line has 80 columns and a newline',and_(eq(v.len,81),eq(v.at(80),10)))
        c=freshint('c')
        for i,(l,x) in enumerate((('S',s.L1.len),('G',z3.Int('NG')),('D',mul(2,n)),('P',sub(s.X(n),1)))):
            ob('Terminate line: count of section '+l,and_(eq(v.at(8*i),ord(l)),imp(and_(lt(0,c),lt(c,8)),eq(v.at(add(8*i,c)),F8(e,x,c)))))
        ob('Terminate line: T1',and_(eq(v.at(72),84),imp(and_(lt(0,c),lt(c,8)),eq(v.at(add(72,c)),F8(e,1,c)))))
        ob('Terminate line: blank in between',imp(and_(le(32,c),lt(c,72)),eq(v.at(c),32)))
        return True
    def heap_inv(s,e,fn,lp,st0,items,whole):
        off,k=s.p.ctx.F(*SEQ)
        if set(whole)!={(k,off)}: return None
        phis=[it for it in items if it[0]=='phi']
        if len(phis)!=1 or items[phis[0]]!=0: return None
        E=s.E; idx=lambda b: e.uf('idx','Int','Int')(I(b))
        class Inv:
            def name(v,it): return str(it[:1])
            def ghosts(v,e): return (e.fresh('i'),)
            def witness(v,get): return (get(phis[0]),)
            def cond(v,g): return [('position inside the list',and_(le(0,g[0]),le(g[0],E.len)))]
            def form(v,it,v0,g): return g[0] if it==phis[0] else v0 if it[0] in('ghost','log') else None
            def wform(v,k,g): return lambda b,old: ite(and_(le(0,idx(b)),lt(idx(b),g[0]),eq(E.at(idx(b),'ptr',0).base,b)),add(mul(2,idx(b)),1),old)
        return Inv()
def write_task():
    def run(p):
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); e.mergepaths=True
        for n in('fmt','looked','trunc','closed','sec','de','pd','term','cause'): st.ghost[('track',n)]=0
        nm=e.symstr(st,'name',(I(0),)); sp.name=nm; sp.fname=EPtr('str',p.cell('str',nm,st),0); sp.over=z3.Bool('overwrite')
        sp.E=E=e.symlike('E',p.get(st,o,'IGES','entities'),st); sp.L1=e.symlike('L1',p.get(st,o,'IGES','startSection'),st)
        n=E.len; q=freshint('q'); idx=e.uf('idx','Int','Int')
        st.assume(z3.And(I(n)>=0,I(n)<2**29,I(sp.L1.len)>0,I(sp.L1.len)<2**31))
        st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(n)),z3.And(B(lt(0,E.at(q,'ptr',0).base)),B(ne(E.at(q,'ptr',0).base,o.base)),idx(E.at(q,'ptr',0).base)==q))))
        st.assume(and_(eq(sp.X(0),1),le(-2**31,z3.Int('NG')),lt(z3.Int('NG'),2**31))); st1=st.clone()
        def post(s,r):
            g=lambda x: s.ghost[('track',x)]
            q=s.clone(); q.assume(B(r)); whole(p,q)
            p.ob('success means every section was written, and the file accepted all of it',s,imp(r,and_(g('sec')==2,eq(g('de'),n),eq(g('pd'),n),eq(g('term'),1),eq(g('closed'),1),not_(z3.Bool('lost')),z3.Bool('S_ok'),z3.Bool('G_ok'))))
            p.ob('an existing file is refused unless it may be replaced',s,imp(and_(z3.Bool('exists'),not_(sp.over)),not_(r)))
            p.ob('an empty model is refused',s,imp(eq(n,0),not_(r)))
            p.ob('the model counts its directory and parameter lines',s,imp(r,and_(eq(p.get(s,o,'IGES','nDESecLines'),mul(2,n)),eq(p.get(s,o,'IGES','nPDSecLines'),sub(sp.X(n),1)))))
            k=freshint('k'); kk=and_(le(0,k),lt(k,n))
            p.ob('an entity has directory entry 2k-1',s,imp(and_(r,kk),eq(p.get(s,E.at(k,'ptr',0),*SEQ),add(mul(2,k),1))))
            fit=and_(le(sp.L1.len,9999999),le(1,z3.Int('NG')),le(z3.Int('NG'),9999999),le(n,4999999),le(1,sp.X(n)),le(sp.X(n),10000000))
            p.ob('a file is written whenever nothing prevents it',s,imp(and_(eq(g('cause'),0),lt(0,n),or_(not_(z3.Bool('exists')),sp.over),z3.Bool('opened'),not_(z3.Bool('lost')),fit),r))
        p.run(p.ctx.fn('IGES::Write(char const*, bool)'),[o,sp.fname,sp.over],post)
    return proof('IGES::Write',run,spec=WSpec,deadline=300,timeout=20000)
class NullSpec(WSpec):
    def match(s,e,st,dem,args,ins):
        if dem.startswith('IGES_LOCALE::'): return [(st,None)]
        if re.match(r'IGES(_ENTITY)?::|@virtual|ofstream|ifstream|std::operator\|',dem): s.p.ob('nothing is done without a name',st,False)
        return None
class ReadSpec(WSpec):
    """contracts: ReadIGESRecord (proved), readGlobals (C14), readDE, readPD, readTS (proved), associate, rescale, Clear (C08), Cull; the file is an
    arbitrary sequence of records.  The sections must be read in their order, each record checked before the next is read"""
    def T(s,k): return s.p.e.uf('rec_type','Int','Int')(I(k))
    def N(s,k): return s.p.e.uf('rec_no','Int','Int')(I(k))
    def D(s,k): ch=s.p.e.uf('rec_ch','Int','Int','Int'); return SSym(lambda c: ch(I(k),I(c)),72,('rec',str(k)))
    def match(s,e,st,dem,args,ins):
        p=s.p; g=lambda n: st.ghost[('track',n)]; ob=lambda n,f: p.ob(n,st,f); E=s.E; n=E.len; this=s.this
        fl=lambda n: p.ctx.F('IGES_RECORD',n)[0]
        def setrec(q,r,ty,ix=None,d=None):
            p.put(q,r,'IGES_RECORD','section_type',ty)
            if ix is not None: p.put(q,r,'IGES_RECORD','index',ix); p.put(q,r,'IGES_RECORD','data',d)
        def both(ok,what=None):
            a,b=st.clone(),st
            if what: what(a)
            a.assume(B(ok)); b.assume(not_(ok)); b.ghost[('track','cause')]=1; return [(a,True),(b,False)]
        sec=lambda r: p.get(st,r,'IGES_RECORD','section_type')
        if dem.startswith('ReadIGESRecord('):
            c=g('rec'); ob('records are read from the file opened, in the Start section only',and_(eq(args[1].base,st.ghost[('file',)]),g('sec')==0))
            L=p.get(st,this,'IGES','startSection'); k=freshint('k')
            for w,x in(('is a Start record',eq(s.T(sub(c,1)),83)),('has its number',eq(s.N(sub(c,1)),c)),('is kept',eq(L.len,c))): ob('the record before the next one read '+w,imp(lt(0,c),x))
            if isinstance(L,Seq) and not(isinstance(L,SeqLit) and not L.el): ob('the header lines are the data columns of the Start records',imp(and_(le(0,k),lt(k,c)),seq_str(L.at(k,'str',0),s.D(k))))
            st.assume(and_(le(-128,s.T(c)),le(s.T(c),127),lt(0,s.N(c)),le(s.N(c),99999999)))
            def ok(q): setrec(q,args[0],s.T(c),s.N(c),s.D(c)); q.ghost[('track','rec')]=add(c,1)
            return both(e.uf('rec_ok','Int','Bool')(I(c)),ok)
        if dem.startswith('IGES::readGlobals('):
            c=g('rec'); L=p.get(st,this,'IGES','startSection'); k=freshint('k')
            ob('the Global section follows at least one Start record',and_(g('sec')==0,le(2,c),eq(sec(args[1]),71),eq(s.T(sub(c,1)),71)))
            ob('every Start record became a header line',and_(eq(L.len,sub(c,1)),imp(and_(le(0,k),lt(k,sub(c,1))),seq_str(L.at(k,'str',0),s.D(k)))))
            ob('the Global section is read into a fresh model',s.fresh_model(st))
            st.ghost[('track','sec')]=1; s.L=L
            gd=p.ctx.F('IGES','globalData')[0]
            for nm,v in(('convert',z3.Int('conv')),('cf',z3.Real('cf')),('fileName',e.symstr(st,'gname',(I(0),)))): o,k2=p.ctx.F('IGES_GLOBAL',nm); e.mwrite(st,k2,add(gd,o),this.base,v)
            st.assume(and_(le(0,z3.Int('conv')),le(z3.Int('conv'),1))); setrec(st,args[1],z3.Int('sec_after_G')); st.assume(z3.And(z3.Int('sec_after_G')>=-128,z3.Int('sec_after_G')<128))
            return both(z3.Bool('G_ok'))
        if dem.startswith('IGES::readDE('):
            ob('the Directory section follows the Global section',and_(g('sec')==1,eq(sec(args[1]),68))); st.ghost[('track','sec')]=2
            p.put(st,this,'IGES','entities',E); setrec(st,args[1],z3.Int('sec_after_D')); st.assume(z3.And(z3.Int('sec_after_D')>=-128,z3.Int('sec_after_D')<128)); return both(z3.Bool('D_ok'))
        if dem.startswith('IGES::readPD('):
            ob('the Parameter section follows the Directory section',and_(g('sec')==2,eq(sec(args[1]),80))); st.ghost[('track','sec')]=3; return both(z3.Bool('P_ok'))
        if dem.startswith('IGES::readTS('):
            ob('the Terminate section follows the Parameter section',g('sec')==3); st.ghost[('track','sec')]=4; return both(z3.Bool('T_ok'))
        if dem.startswith('@virtual associate('):
            k=g('assoc'); o,_=p.ctx.F('IGES','entities')
            ob('entities are associated once everything is read, in the order of the list',and_(g('sec')==4,lt(k,n),eq(args[0].base,E.at(k,'ptr',0).base),eq(args[1].base,this.base),eq(args[1].off,o)))
            def ok(q): q.ghost[('track','assoc')]=add(k,1)
            return both(e.uf('as_ok','Int','Bool')(I(k)),ok)
        if dem.startswith('@virtual rescale('):
            k=g('scaled'); ob('coordinates are converted once all entities are associated, by the factor of the file',and_(eq(g('assoc'),n),eq(z3.Int('conv'),1),lt(k,n),eq(args[0].base,E.at(k,'ptr',0).base),eq(R(args[1]),z3.Real('cf'))))
            st.ghost[('track','scaled')]=add(k,1); return [(st,e.fresh('ok','Bool'))]
        if dem.startswith('std::list<IGES_ENTITY*>::front('):      # link lists hold no null pointer (C07)
            x=e.fresh('linked'); st.assume(x>0); return [(st,p.cell('ptr',Ptr(x,0),st))]
        if dem.startswith('@virtual unlink('): ob('links are only cut when the file is refused',eq(g('cause'),1)); return [(st,e.fresh('ok','Bool'))]
        if dem.startswith('IGES::Clear('):
            for nm in('entities','startSection','vStartSection'): p.put(st,args[0],'IGES',nm,SeqLit([]))
            st.ghost[('track','clear')]=1; return [(st,True)]
        if dem.startswith('IGES::Cull('):
            ob('unused entities are dropped once all entities are associated and converted',and_(eq(g('assoc'),n),or_(eq(z3.Int('conv'),0),eq(g('scaled'),n)))); st.ghost[('track','cull')]=1; return [(st,e.fresh('cull','Bool'))]
        if dem.startswith('ifstream::open('):
            ob('the file of the given name is opened',eq(args[1].cont.base,s.fname.cont.base)); return [(st,None)]
        if dem.startswith('ifstream::is_open('): return [(st,z3.Bool('exists'))]
        if dem.startswith('ifstream::close('): return [(st,None)]
        if dem.startswith('ifstream::basic_ifstream()') or dem.startswith('ifstream::~'):
            if '~' not in dem: vt=e.new_id(); e.mwrite(st,'i64',-24,vt,0); e.mwrite(st,'ptr',0,args[0].base,Ptr(vt,0)); st.ghost[('file',)]=args[0].base
            return [(st,None)]
        if dem.startswith('IGES_LOCALE::') or dem.startswith('MCAD_FILEPATH::'): return WSpec.match(s,e,st,dem,args,ins)
        return None
    def fresh_model(s,st):
        p=s.p; e=p.e; gd=p.ctx.F('IGES','globalData')[0]; f=True
        for nm,v in(('pdelim',44),('rdelim',59),('convert',0),('cf',Fraction(1))): o,k=p.ctx.F('IGES_GLOBAL',nm); f=and_(f,veq(e.mread(st,k,add(gd,o),s.this.base),v))
        for nm in('nGlobSecLines','nDESecLines','nPDSecLines'): f=and_(f,eq(p.get(st,s.this,'IGES',nm),0))
        return f
    def stream(s,e,st,p,v): return False
    def heap_inv(s,*a): return None
    def loop_inv(s,e,fn,lp,st0,items):
        p=s.p; off=p.ctx.F('IGES','startSection')[0]; lists=[it for it in items if it[0]=='mem' and it[1]==('list',off)]
        phis=[it for it in items if it[0]=='phi']; fl={p.ctx.F('IGES_RECORD',n): n for n in('section_type','index','data')}
        flds={it: fl[(it[1][1],it[1][0])] for it in items if it[0]=='mem' and isinstance(it[2],int) and (it[1][1],it[1][0]) in fl}
        ok=lambda v: (isinstance(v,bool) and v) or (isinstance(v,int) and v==1)
        if not lists or len(flds)<2 or len(phis)!=1 or not ok(items[phis[0]]): return None
        b=isinstance(items[phis[0]],bool); gr=('ghost',('track','rec')); gc=('ghost',('track','cause'))
        class Inv:
            def name(v,it): return flds.get(it) or {'ghost':'records read','phi':'state'}.get(it[0],'header lines')
            def ghosts(v,e): return e.fresh('c'),e.fresh('f')
            def witness(v,get): x=get(phis[0]); return get(gr),ite(x,1,0) if isinstance(x,bool) or z3.is_bool(x) else x
            def cond(v,g): return [('at least one record was read, each with a number of at most 8 digits',and_(le(1,g[0]),le(g[0],10**8),lt(0,s.N(sub(g[0],1))),le(s.N(sub(g[0],1)),99999999))),('state',or_(eq(g[1],0),eq(g[1],1)))]
            def form(v,it,v0,g):
                c,f=g
                if it==gr: return c
                if it==gc: return sub(1,f)
                if it[0]=='ghost': return v0
                if it==phis[0]: return eq(f,1) if b else f
                if it==lists[0]: return SeqMap(ite(eq(f,1),sub(c,1),c),lambda k: [s.D(k)])
                if it in flds:
                    k=sub(c,1); return None if flds[it]=='data' and False else {'section_type':s.T(k),'index':s.N(k),'data':s.D(k)}[flds[it]]
                return None
        return Inv()
def readfile_task():
    def run(p):
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); sp.this=o; e.mergepaths=True
        for n in('rec','sec','assoc','scaled','clear','cull','cause'): st.ghost[('track',n)]=0
        nm=e.symstr(st,'name',(I(0),)); sp.fname=EPtr('str',p.cell('str',nm,st),0)
        sp.E=E=e.symlike('E',p.get(st,o,'IGES','entities'),st); n=E.len; q=freshint('q'); E0=p.get(st,o,'IGES','entities')
        st.assume(z3.And(I(n)>=0,I(n)<2**29,z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(n)),z3.And(B(lt(0,E.at(q,'ptr',0).base)),B(ne(E.at(q,'ptr',0).base,o.base))))))); st1=st.clone()
        def post(s,r):
            g=lambda x: s.ghost[('track',x)]; ent=p.get(s,o,'IGES','entities'); L=p.get(s,o,'IGES','startSection')
            untouched=and_(eq(g('rec'),0),eq(g('cause'),0),eq(g('clear'),0))
            p.ob('a file is accepted only after all sections were read, and every entity associated',s,imp(r,and_(eq(g('sec'),4),eq(g('assoc'),n),eq(g('cull'),1),eq(g('cause'),0),eq(g('clear'),0))))
            p.ob('a refused file leaves the model empty, without header lines',s,or_(r,and_(eq(ent.len,0),eq(L.len,0)),and_(or_(lt(0,E0.len),not_(z3.Bool('exists'))),p.seqeq(ent,E0))))
            p.ob('a model in use is not read into',s,imp(lt(0,E0.len),and_(not_(r),untouched)))
            p.ob('a file which does not open is refused',s,imp(not_(z3.Bool('exists')),not_(r)))
        p.run(p.ctx.fn('IGES::Read(char const*)'),[o,sp.fname],post)
    return proof('IGES::Read',run,spec=ReadSpec,deadline=300)
class FileSpec(ReadSpec):
    """contracts: ReadIGESRecord (proved), DEItemToInt (C01), ParseInt (C04), NewEntity (C08), readDE of the entity (C05), readPD of the entity (proved)"""
    def FV(s,k,f): return s.p.e.uf('field_int','Int','Int','Int')(I(k),I(f))
    def FOK(s,k,f): return s.p.e.uf('field_ok','Int','Int','Bool')(I(k),I(f))
    def POS(s,k): return s.p.e.uf('file_pos','Int','Int')(I(k))
    def D(s,k): ch=s.p.e.uf('rec_ch','Int','Int','Int'); return SOpq('rec',(k,),72,lambda c: ch(I(k),I(c)))
    def match(s,e,st,dem,args,ins):
        p=s.p; g=lambda n: st.ghost[('track',n)]; ob=lambda n,f: p.ob(n,st,f)
        def both(ok,what=None):
            a,b=st.clone(),st
            if what: what(a)
            a.assume(B(ok)); b.assume(not_(ok)); b.ghost[('track','cause')]=1; return [(a,True),(b,False)]
        if dem.startswith('ReadIGESRecord('):
            c=g('rec'); ob('records are read from the file given',eq(args[1].base,s.file.base)); s.before(st,c)
            st.assume(and_(le(-128,s.T(c)),le(s.T(c),127),lt(0,s.N(c)),le(s.N(c),99999999)))
            if isinstance(args[2],Ptr) and not(isinstance(args[2].base,int) and args[2].base==0):
                e.mwrite(st,'i64',args[2].off,args[2].base,s.POS(c)); st.ghost[('track','mark')]=c
            def ok(q):
                r=args[0]; p.put(q,r,'IGES_RECORD','section_type',s.T(c)); p.put(q,r,'IGES_RECORD','index',s.N(c)); p.put(q,r,'IGES_RECORD','data',s.D(c)); q.ghost[('track','rec')]=add(c,1)
            return both(e.uf('rec_ok','Int','Bool')(I(c)),ok)
        if dem.startswith('DEItemToInt('):
            t=models.e_str(e,st,args[0]); k=s.recno(t,st); f=args[1]; st.assume(and_(le(-9999999,s.FV(k,f)),le(s.FV(k,f),99999999)))
            ob('a number is not defaulted',eq(args[3].base,0) if isinstance(args[3],Ptr) else True)
            return both(s.FOK(k,f),lambda q: e.mwrite(q,'i32',args[2].off,args[2].base,s.FV(k,f)))
        return s.more(e,st,dem,args,ins,both)
    def recno(s,t,st):
        if isinstance(t,SOpq) and t.tag=='rec': return t.args[0]
        if s.p.e.quiet: return s.p.e.fresh('rec')       # while the loop is explored
        raise Unsupported('record text %r'%t)
    def before(s,st,c): pass
    def more(s,e,st,dem,args,ins,both): return None
    def loop_inv(s,*a): return None
class TermSpec(FileSpec):
    """contracts: ReadIGESRecord (proved), DEItemToInt (C01)"""
    def recno(s,t,st):
        # the section letters are blanked before the counts are read
        k=freshint('k'); d=s.D(0); lt_=lambda k: or_(*[eq(k,8*i) for i in range(4)])
        s.p.ob('the counts are read from the Terminate line, the section letters blanked',st,and_(eq(t.len,72),imp(and_(le(0,k),lt(k,72)),eq(t.at(k),ite(lt_(k),32,d.at(k)))))); return 0
def term_task():
    def run(p):
        st=p.st; e=p.e; sp=p.spec; e.mergepaths=True; o=p.obj('this'); r=p.obj('rec'); f=p.obj('file'); sp.file=f; sp.this=o
        st.assume(and_(ne(o.base,r.base),ne(o.base,f.base),ne(r.base,f.base)))
        for n in('rec','cause','mark'): st.ghost[('track',n)]=0
        st1=st.clone()
        def post(s,r):
            d=sp.D(0); ok=and_(eq(sp.T(0),84),eq(sp.N(0),1),*[eq(d.at(8*i),ord(c)) for i,c in enumerate('SGDP')])
            p.ob('one record is read, at the end of the file: letter T, number 1, the letters of the four sections',s,imp(r,and_(eq(s.ghost[('track','rec')],1),ok,eq(s.ghost[('track','cause')],0))))
            p.ob('a well formed Terminate line is accepted',s,imp(and_(eq(s.ghost[('track','cause')],0),ok),r))
            p.frame('only the record',st1,s,p.fields('IGES_RECORD',Ptr(z3.Int('rec'),0),['data','section_type','index']))
        p.run(p.ctx.fn([x for x in p.ctx.mod.bydem if x.startswith('IGES::readTS(')][0]),[o,r,f],post)
    return proof('IGES::readTS',run,spec=TermSpec,deadline=100)
class EntPDSpec(FileSpec):
    def checked(s,st,c):
        """record c-1 of the entity carries the number and the directory entry it must"""
        k=sub(c,1)
        return [('is a Parameter record',eq(s.T(k),80)),('has the number its directory entry names',eq(s.N(k),add(s.first,k))),('has the number next to that of the line before',eq(s.N(k),add(s.n0,add(k,1)))),('points back to the directory entry',and_(s.FOK(k,8),eq(s.FV(k,8),s.seq),eq(s.D(k).at(64),32)))]
    def before(s,st,c):
        for n,f in s.checked(st,c): s.p.ob('the record before the next one read '+n,st,imp(lt(0,c),f))
        s.p.ob('no record is read past the count',st,lt(c,s.count))
    def more(s,e,st,dem,args,ins,both):
        p=s.p
        if dem.startswith('ParseInt('):
            t=models.e_str(e,st,args[0]); p.ob('the entity type is taken from the first record, with the delimiters of the file',st,and_(seq_str(t,s.D(0)) if isinstance(t,SOpq) else False,eq(e.mread(st,'i32',args[1].off,args[1].base),0),eq(args[4],s.pd),eq(args[5],s.rd)))
            e.mwrite(st,'i32',args[1].off,args[1].base,e.fresh('ix')); e.mwrite(st,'i8',args[3].off,args[3].base,ite(z3.Bool('eor'),1,0))
            return both(z3.Bool('type_ok'),lambda q: e.mwrite(q,'i32',args[2].off,args[2].base,z3.Int('type')))
        return None
    def loop_inv(s,e,fn,lp,st0,items):
        p=s.p; off=p.ctx.F('IGES_ENTITY','pdout')[0]; o=s.this
        phis=[it for it in items if it[0]=='phi']; pos=[it for it in phis if items[it]==0 and not isinstance(items[it],bool)]; fst=[it for it in phis if it not in pos]
        if len(pos)!=1 or len(fst)>1: return None
        po=pos[0]; ispd=lambda it: it[0]=='mem' and it[1]==('str',off) and not isinstance(it[2],int)
        issv=lambda it: it[0]=='mem' and it[1]==('i32',0) and isz(it[2]) and it[2].eq(s.sv.base)
        sv0=e.mread(st0,'i32',0,s.sv.base); b=bool(fst) and isinstance(items[fst[0]],bool)
        class Inv:
            def name(v,it): return 'parameter text' if ispd(it) else 'line counter' if issv(it) else {'ghost':'records read','phi':'position'}.get(it[0],'memory')
            def ghosts(v,e): return (e.fresh('i'),)
            def witness(v,get): return (get(po),)
            def cond(v,g):
                i=g[0]; c=[f for _,f in s.checked(None,i)]
                return [('position inside the count',and_(le(0,i),le(i,s.count))),('the record before is checked',imp(lt(0,i),and_(*c))),('the first record names the type',imp(lt(0,i),and_(z3.Bool('type_ok'),not_(z3.Bool('eor')),eq(z3.Int('type'),s.type))))]
            def form(v,it,v0,g):
                i=g[0]
                if it==po: return i
                if it in fst: return eq(i,0) if b else ite(eq(i,0),1,0)
                if it==('ghost',('track','rec')): return i
                if it[0]=='ghost': return v0
                if ispd(it): return s.text(i)
                if issv(it): return add(sv0,i)
                return None
        return Inv()
    def text(s,n): return SSym(lambda c: s.D(I(c)/64).at(I(c)%64),mul(64,n),('pdtext',str(n)))
def entpd_task():
    def run(p):
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); f=p.obj('file'); sv=p.obj('seqvar'); sp.file=f; sp.this=o; sp.sv=sv
        g=lambda n: p.get(st,o,'IGES_ENTITY',n); par=g('parent'); pb=par.base if isinstance(par,Ptr) else par
        l=[o.base,f.base,sv.base,pb]
        for i in range(4):
            for j in range(i): st.assume(ne(l[i],l[j]))
        for n in('parameterData','paramLineCount','entityType','sequenceNumber'): st.assume(and_(le(-2**31,g(n)),lt(g(n),2**31)))
        st.assume(lt(e.mread(st,'i32',0,sv.base),10**8)); st.assume(le(0,e.mread(st,'i32',0,sv.base))); st.assume(le(g('paramLineCount'),9999999))
        for n in('rec','cause','mark'): st.ghost[('track',n)]=0
        sp.first,sp.count,sp.type,sp.seq=g('parameterData'),g('paramLineCount'),g('entityType'),g('sequenceNumber')
        gd=p.ctx.F('IGES','globalData')[0]; G=lambda n: e.mread(st,p.ctx.F('IGES_GLOBAL',n)[1],add(gd,p.ctx.F('IGES_GLOBAL',n)[0]),pb); sp.pd,sp.rd=G('pdelim'),G('rdelim')
        sp.n0=n0=e.mread(st,'i32',0,sv.base); st1=st.clone(); null=and_(eq(sp.first,0),eq(sp.type,0))
        def post(s,r):
            t=p.get(s,o,'IGES_ENTITY','pdout'); c=s.ghost[('track','rec')]; d=e.mread(s,'i32',0,sv.base)
            p.ob('a Null Entity without parameters reads no record',s,imp(null,and_(r,eq(c,0),eq(t.len,0))))
            good=and_(r,not_(null))
            p.ob('exactly the lines counted in the directory entry are read',s,imp(good,and_(le(1,sp.count),le(1,sp.first),eq(c,sp.count))))
            for n,fm in sp.checked(s,c): p.ob('the last record '+n,s,imp(good,fm))
            p.ob('the first record names the type of the entity',s,imp(good,and_(z3.Bool('type_ok'),not_(z3.Bool('eor')),eq(z3.Int('type'),sp.type))))
            k=freshint('k'); p.ob('the parameter text is columns 1 to 64 of these lines, in order',s,and_(imp(good,and_(eq(t.len,mul(64,c)),imp(and_(le(0,k),lt(k,t.len)),eq(t.at(k),sp.text(c).at(k))))),imp(not_(r),eq(t.len,0))))
            p.ob('the lines are counted',s,imp(r,eq(d,add(n0,c))))
            p.frame('only the parameter text and the line counter',st1,s,p.fields('IGES_ENTITY',o,['pdout'])+[('i32',0,sv.base)])
        p.run(p.ctx.fn([x for x in p.ctx.mod.bydem if x.startswith('IGES_ENTITY::readPD(')][0]),[o,f,sv],post)
    return proof('readPD of an entity',run,spec=EntPDSpec,deadline=200)
class PDOutSpec(LibSpec):
    def match(s,e,st,dem,args,ins):
        if dem.endswith('fail() const') and isinstance(args[0],Ptr): return [(st,z3.Bool('bad'))]
        return None
    def stream(s,e,st,p,v):
        if p.base is not s.file.base: return False
        st.ghost[('track','out')]=scat(st.ghost[('track','out')],v); return True
def entwritepd_task():
    def run(p):
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); f=filestream(p); sp.file=f; st.assume(ne(o.base,f.base)); st.ghost[('track','out')]=EMPTY
        t=p.get(st,o,'IGES_ENTITY','pdout'); st1=st.clone()
        def post(s,r):
            whole=and_(lt(0,t.len),eq(I(t.len)%81,0)); w=s.ghost[('track','out')]
            p.ob('whole lines are written, and only those',s,and_(imp(r,and_(whole,seq_str(w,t),not_(z3.Bool('bad')))),imp(and_(whole,not_(z3.Bool('bad'))),r),imp(not_(whole),eq(w.len,0))))
            p.frame('only the text',st1,s,p.fields('IGES_ENTITY',o,['pdout']))
        p.run(p.ctx.fn([x for x in p.ctx.mod.bydem if x.startswith('IGES_ENTITY::writePD(')][0]),[o,f],post)
    return proof('writePD of an entity',run,spec=PDOutSpec,deadline=100)
class DirSpec(FileSpec):
    def before(s,st,c):
        s.p.ob('a record is read only after a directory entry, completely read',st,and_(eq(st.ghost[('track','ents')],st.ghost[('track','read')]),eq(c,mul(2,st.ghost[('track','read')]))))
    def more(s,e,st,dem,args,ins,both):
        p=s.p; g=lambda n: st.ghost[('track',n)]; ob=lambda n,f: p.ob(n,st,f)
        if dem.startswith('IGES::NewEntity('):
            k=sub(g('rec'),1); ob('an entity of the type named in the first field is created',and_(eq(s.T(k),68),s.FOK(k,0),eq(args[1],s.FV(k,0)),eq(args[0].base,s.this.base),eq(g('ents'),g('read'))))
            x=e.fresh('ent'); st.assume(x>0); e.mwrite(st,'ptr',args[2].off,args[2].base,Ptr(x,0)); st.ghost[('track','cur')]=x
            def ok(q): q.ghost[('track','ents')]=add(g('ents'),1)
            return both(e.fresh('new','Bool'),ok)
        if dem.startswith('@virtual readDE('):
            c=g('rec'); o,_=p.ctx.F('IGES','nDESecLines')
            ob('the new entity reads its directory entry from this record on, counting the lines of the section',and_(eq(args[0].base,g('cur')),eq(args[1].base,s.rec.base),eq(args[2].base,s.file.base),eq(args[3].base,s.this.base),eq(args[3].off,o),eq(p.get(st,s.rec,'IGES_RECORD','index'),s.N(sub(c,1))),eq(add(g('read'),1),g('ents'))))
            ob('directory entries are numbered consecutively from 1',eq(s.N(sub(c,1)),add(1,mul(2,g('read')))))
            def ok(q):
                q.ghost[('track','rec')]=add(c,1); q.ghost[('track','read')]=add(g('read'),1); e.mwrite(q,'i32',o,s.this.base,add(e.mread(q,'i32',o,s.this.base),2))
                for n in('section_type','index','data'): p.put(q,args[1],'IGES_RECORD',n,{'section_type':s.T(c),'index':s.N(c),'data':s.D(c)}[n])
            return both(e.fresh('de','Bool'),ok)
        if dem.endswith('bad() const') : return [(st,e.fresh('bad','Bool'))]
        if '::clear(' in dem and 'basic_ios' in dem: return [(st,None)]
        if '::seekg(' in dem:
            v=args[1] if not isinstance(args[1],Ptr) else e.mread(st,'i64',args[1].off,args[1].base)
            if len(args)>3: raise Unsupported('seekg')
            ob('the file is set back to the first record that is no directory entry',and_(eq(args[0].base,s.file.base),eq(v,s.POS(sub(g('rec'),1))),ne(s.T(sub(g('rec'),1)),68))); st.ghost[('track','back')]=1; return [(st,args[0])]
        if 'fpos<' in dem and '::fpos(' in dem: e.mwrite(st,'i64',args[0].off,args[0].base,0); return [(st,None)]
        return None
    def loop_inv(s,e,fn,lp,st0,items):
        p=s.p; o,_=p.ctx.F('IGES','nDESecLines'); n0=e.mread(st0,'i32',o,s.this.base)
        fl={p.ctx.F('IGES_RECORD',n): n for n in('section_type','index','data')}
        fld=lambda it: fl.get((it[1][1],it[1][0])) if it[0]=='mem' and isz(it[2]) and it[2].eq(s.rec.base) else None
        gh=lambda n: ('ghost',('track',n))
        isn=lambda it: it[0]=='mem' and it[1]==('i32',o) and isz(it[2]) and it[2].eq(s.this.base)
        ispos=lambda it: it[0]=='mem' and it[1]==('i64',0) and isinstance(it[2],int)
        class Inv:
            def name(v,it): return fld(it) or ('lines of the section' if isn(it) else 'file position' if ispos(it) else str(it[:2]))
            def ghosts(v,e): return (e.fresh('i'),)
            def witness(v,get): return (get(gh('read')),)
            def cond(v,g): c=mul(2,g[0]); return [('entities read',le(0,g[0])),('records are in range',and_(le(-128,s.T(c)),le(s.T(c),127)))]
            def form(v,it,v0,g):
                i=g[0]; c=add(1,mul(2,i)); k=sub(c,1)
                if it==gh('rec'): return c
                if it in(gh('read'),gh('ents')): return i
                if it==gh('mark'): return None
                if it==gh('cur'): return None
                if it[0]=='ghost': return v0
                if isn(it): return add(n0,mul(2,i))
                if fld(it): return {'section_type':s.T(k),'index':s.N(k),'data':s.D(k)}[fld(it)]
                if ispos(it): return ite(eq(i,0),0,s.POS(k))
                return None
        return Inv()
def dir_task():
    def run(p):
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); r=p.obj('rec'); f=filestream(p); sp.file=f; sp.this=o; sp.rec=r
        st.assume(and_(ne(o.base,r.base),ne(o.base,f.base),ne(r.base,f.base)))
        for n,v in(('rec',1),('cause',0),('mark',0),('ents',0),('read',0),('cur',0),('back',0)): st.ghost[('track',n)]=v
        p.put(st,r,'IGES_RECORD','section_type',sp.T(0)); p.put(st,r,'IGES_RECORD','index',sp.N(0)); p.put(st,r,'IGES_RECORD','data',sp.D(0))
        st.assume(and_(eq(sp.T(0),68),le(1,sp.N(0)),le(sp.N(0),99999999))); p.put(st,o,'IGES','nDESecLines',0); st1=st.clone()
        def post(s,r):
            g=lambda n: s.ghost[('track',n)]; c=g('rec'); n=g('read')
            p.ob('the first directory entry has number 1',s,imp(r,eq(sp.N(0),1)))
            p.ob('every directory entry up to the first other record became an entity',s,imp(r,and_(eq(g('back'),1),eq(g('cause'),0),eq(g('ents'),n),eq(c,add(1,mul(2,n))),ne(sp.T(sub(c,1)),68))))
            p.ob('the record handed on is the one the file is set back to',s,imp(r,eq(p.get(s,sp.rec,'IGES_RECORD','section_type'),sp.T(sub(c,1)))))
            p.ob('the lines of the section are counted',s,imp(r,eq(p.get(s,o,'IGES','nDESecLines'),mul(2,n))))
        p.run(p.ctx.fn([x for x in p.ctx.mod.bydem if x.startswith('IGES::readDE(')][0]),[o,r,f],post)
    return proof('IGES::readDE',run,spec=DirSpec,deadline=200)
class PDSecSpec(FileSpec):
    def more(s,e,st,dem,args,ins,both):
        p=s.p
        if dem.startswith('@virtual readPD('):
            k=st.ghost[('track','ents')]; o,_=p.ctx.F('IGES','nPDSecLines'); E=s.E
            p.ob('the entities read their parameters in the order of the list, counting the lines of the section',st,and_(lt(k,E.len),eq(args[0].base,E.at(k,'ptr',0).base),eq(args[1].base,s.file.base),eq(args[2].base,s.this.base),eq(args[2].off,o)))
            def ok(q): q.ghost[('track','ents')]=add(k,1)
            return both(e.fresh('pd','Bool'),ok)
        return None
def pdsec_task():
    def run(p):
        st=p.st; e=p.e; sp=p.spec; o=p.obj('this'); r=p.obj('rec'); f=p.obj('file'); sp.file=f; sp.this=o; st.assume(and_(ne(o.base,r.base),ne(o.base,f.base),ne(r.base,f.base)))
        for n in('rec','cause','mark','ents'): st.ghost[('track',n)]=0
        sp.E=E=p.get(st,o,'IGES','entities'); q=freshint('q'); st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<I(E.len)),B(lt(0,E.at(q,'ptr',0).base))))); st1=st.clone()
        def post(s,r):
            g=lambda n: s.ghost[('track',n)]
            p.ob('accepted exactly when every entity read its parameters',s,and_(imp(r,and_(eq(g('ents'),E.len),eq(g('cause'),0))),imp(eq(g('cause'),0),r)))
        p.run(p.ctx.fn([x for x in p.ctx.mod.bydem if x.startswith('IGES::readPD(')][0]),[o,r,f],post)
    return proof('IGES::readPD',run,spec=PDSecSpec,deadline=100)
def init_task():
    def run(p):
        st=p.st; e=p.e; o=p.obj('this'); n=p.get(st,o,'IGES','entities').len; st1=st.clone(); sp=ReadSpec(); sp.p=p; sp.this=o
        def post(s,r):
            p.ob('only an empty model is initialised',s,eq(B(r),eq(n,0)))
            p.ob('no header line stays',s,imp(r,and_(eq(p.get(s,o,'IGES','startSection').len,0),eq(p.get(s,o,'IGES','vStartSection').len,0))))
            p.ob('delimiters, conversion and line counts are those of a new model',s,imp(r,sp.fresh_model(s)))
            gd=p.ctx.F('IGES','globalData')[0]
            for nm in('productIDSS','fileName','nativeSystemID','preprocessorVersion','productIDRS','unitsName','creationDate','author','organization','modificationDate','applicationNote'):
                a,k=p.ctx.F('IGES_GLOBAL',nm); p.ob('no text stays: '+nm,s,imp(r,eq(e.mread(s,k,add(gd,a),o.base).len,0)))
        p.run(p.ctx.fn('IGES::init()'),[o],post)
    return proof('IGES::init',run,spec=LibSpec)
def nullname_task(dem,args):
    def run(p):
        st=p.st; o=p.obj('this'); st1=st.clone()
        def post(s,r): p.ob('refused',s,not_(r)); p.frame('nothing changes',st1,s,[])
        p.run(p.ctx.fn(dem),[o,NULL]+args(p),post)
    return proof(dem.split('(')[0]+': no name',run,spec=NullSpec)
def tasks(ctx,thorough): return [rec_task(),dir_task(),pdsec_task(),init_task(),term_task(),entpd_task(),entwritepd_task(),header_task(),start_task(False),start_task(True),write_task(),readfile_task(),nullname_task('IGES::Read(char const*)',lambda p: []),nullname_task('IGES::Write(char const*, bool)',lambda p: [p.boolean('over')])]+assoc.tasks(False)
REPLAY='c17.cpp'; REPLAY_N=60
