"""C02: Global and Parameter Data records are 80 columns, lettered, numbered and unsplit."""
from lib import *
import models
F8=lambda e,n,k: e.uf('field8_ch','Int','Int','Int')(I(n),I(k))
def field8(e,n): return SOpq('f8',(n,),8,lambda k: F8(e,n,k))
class Sec:
    def __init__(s,letter,W): s.letter=letter; s.W=W
G=Sec('G',72); PD=Sec('P',64)
def recs(e,sec,full,n,idx,de):
    """n records of 81 characters: W data columns of `full`, owning DE number (P only), letter, sequence number idx+k, newline"""
    W=sec.W
    def at(i):
        i=I(i); k=i/81; c=i%81
        r=ite(eq(c,80),10,ite(eq(c,72),ord(sec.letter),F8(e,add(idx,k),c-72)))
        if W<72: r=ite(lt(c,72),F8(e,de,c-W),r)
        return ite(lt(c,W),full.at(W*k+c),r)
    return SSym(at,mul(81,n))
class Spec(LibSpec):
    inv=None
    def match(s,eng,st,dem,args,ins):
        if dem=='FormatDEInt(string&, int)':      # contract proved by C01
            out=[]; n=args[1]; ok=and_(le(n,99999999),le(-9999999,n))
            def good(q): models.w_str(eng,q,args[0],field8(eng,n)); q.assume(imp(le(n,9999999),eq(F8(eng,n,0),32)) if True else True); out.append((q,True))
            def bad(q): models.w_str(eng,q,args[0],EMPTY); out.append((q,False))
            eng.fork(st,ok,good,bad); return out
        if dem=='GetHConst(string const&, string&)':   # contract proved by C03
            t=models.e_str(eng,st,args[0])
            out=[]
            def good(q):
                models.w_str(eng,q,args[1],hdr(eng,t,q)); out.append((q,True))
            eng.fork(st,lt(0,t.len),good,lambda q: out.append((q,False))); return out
        return None
    def loop_inv(s,eng,fn,lp,st0,items):
        return s.mk(eng,st0,items) if s.inv else None
    def mk(s,eng,st0,items):
        fb,ob,ib=s.inv['fStr'],s.inv['fOut'],s.inv['index']; sec=s.inv['sec']; de=s.inv['de']; W=sec.W
        at=lambda it,kind,b: it[0]=='mem' and it[1]==(kind,0) and isz(it[2]) and it[2].eq(b)
        phis=[it for it in items if it[0]=='phi' and not isinstance(items[it],(Ptr,Iter,EPtr,APtr,Str))]
        if len(phis)!=1 or items[phis[0]]!=0: return None
        if not(any(at(it,'str',fb) for it in items) and any(at(it,'str',ob) for it in items) and any(at(it,'i32',ib) for it in items)): return None
        f0=eng.mread(st0,'str',0,fb); o0=eng.mread(st0,'str',0,ob); i0=eng.mread(st0,'i32',0,ib)
        hc=scat(*s.inv['item']); full=scat(f0,hc); sz=hc.len
        class Inv:
            def name(v,it):
                for k,n,b in(('str','pending record',fb),('str','output',ob),('i32','sequence number',ib)):
                    if at(it,k,b): return n
                return 'position'
            def ghosts(v,e): return e.fresh('n'),e.fresh('pos')
            def witness(v,get):
                ix=[it for it in items if at(it,'i32',ib)][0]
                return sub(get(ix),i0),get(phis[0])
            def cond(v,g):
                n,p=g; used=add(f0.len,sub(p,mul(W,n)))
                return [('records emitted',le(0,n)),('position inside the item',and_(le(0,p),le(p,sz))),('pending record shorter than a line',and_(le(0,used),lt(used,W))),('sequence number range',or_(eq(n,0),le(add(i0,n),10000000)))]
            def form(v,it,v0,g):
                n,p=g
                if it==phis[0]: return p
                if at(it,'str',fb): return SSub(full,mul(W,n),add(f0.len,sub(p,mul(W,n))))
                if at(it,'str',ob): return scat(o0,recs(eng,sec,full,n,i0,de))
                if at(it,'i32',ib): return add(i0,n)
                return None
        return Inv()
def hdr(e,t,st=None):
    ln=e.uf('hdr_len','Int','Int')(I(t.len)); ch=e.uf('hdr_ch','Int','Int','Int')
    if st is not None: st.assume(and_(le(2,ln),le(ln,11)))
    return SOpq('hdr',(t.len,),ln,lambda k: ch(I(t.len),I(k)))
def strings_differ(p,ps): 
    for i in range(len(ps)):
        for j in range(i): p.st.assume(ps[i].base!=ps[j].base)
def post_common(p,st1,s,sec,full,fo,ix,de,fstr,fout,index,final):
    e=p.e; W=sec.W
    fo1=e.mread(s,'str',0,fout.base); f1=e.mread(s,'str',0,fstr.base); ix1=e.mread(s,'i32',0,index.base); n=sub(ix1,ix)
    if final is not True:
        # padding of the last record when the record delimiter ends the entry
        T=full.len; pad=ite(final,I((-I(T))%W),0); full=scat(full,SSym(lambda k: z3.IntVal(32),pad))
    p.ob('records are emitted only when complete',s,and_(le(0,n),le(W*I(n),full.len)))
    p.ob('the rest stays pending and fits in one record',s,and_(eq(f1.len,sub(full.len,W*I(n))),le(f1.len,W)))
    k=freshint('k'); p.ob('the pending text is the end of the items',s,imp(and_(le(0,k),lt(k,f1.len)),eq(f1.at(k),full.at(W*I(n)+k))))
    p.ob('the record delimiter ends the last record',s,imp(final,eq(f1.len,0)))
    p.ob('every record is 81 characters long',s,eq(fo1.len,add(fo.len,mul(81,n))))
    k=freshint('k'); p.ob('earlier records are untouched',s,imp(and_(le(0,k),lt(k,fo.len)),eq(fo1.at(k),fo.at(k))))
    r=recs(e,sec,full,n,ix,de); K=freshint('K'); c=freshint('c')
    inr=and_(le(0,K),lt(K,n)); ch=fo1.at(add(fo.len,81*K+c)); rng=lambda a,b: and_(inr,le(a,c),lt(c,b))
    p.ob('data columns carry the items in order',s,imp(rng(0,W),eq(ch,full.at(W*K+c))))
    if W<72: p.ob('owning directory entry number in columns 65-72',s,imp(rng(W,72),eq(ch,F8(e,de,c-W))))
    p.ob('section letter in column 73',s,imp(rng(72,73),eq(ch,ord(sec.letter))))
    p.ob('consecutive sequence numbers in columns 74-80',s,imp(rng(73,80),eq(ch,F8(e,add(ix,K),c-72))))
    p.ob('newline ends the record',s,imp(rng(80,81),eq(ch,10)))
    p.ob('the sequence number fits in seven columns',s,imp(lt(0,n),le(sub(ix1,1),9999999)))
def common(p,sec,hol):
    st=p.st; e=p.e
    t=p.obj('tStr'); f=p.obj('fStr'); o=p.obj('fOut'); ix=p.obj('index'); strings_differ(p,[t,f,o,ix])
    de=p.i32('deIndex') if sec is PD else None
    pd=p.i32('pd',-128,127); rd=p.i32('rd',-128,127); dl=p.i32('delim',-128,127)
    T=e.mread(st,'str',0,t.base); Fs=e.mread(st,'str',0,f.base); O=e.mread(st,'str',0,o.base); X=e.mread(st,'i32',0,ix.base)
    st.assume(and_(le(0,X),ne(pd,rd)))
    return t,f,o,ix,de,pd,rd,dl,T,Fs,O,X
def item_task(fn,sec):
    W=sec.W
    def run(p):
        st=p.st; e=p.e; t,f,o,ix,de,pd,rd,dl,T,Fs,O,X=common(p,sec,False); st1=st.clone()
        last=T.at(sub(T.len,1)); final=eq(last,rd)
        valid=and_(lt(0,T.len),le(T.len,W),or_(eq(last,pd),eq(last,rd)),le(Fs.len,W))
        if de is not None: valid=and_(valid,le(de,9999999),le(-9999999,de))
        over=lt(W,add(Fs.len,T.len)); pad0=ite(over,sub(W,Fs.len),0)
        full=scat(Fs,SSym(lambda k: z3.IntVal(32),pad0),T)
        def post(s,r):
            p.ob('a valid item is accepted',s,imp(and_(valid,le(X,9999990)),r))
            p.ob('an empty or over-long item is refused',s,imp(or_(eq(T.len,0),lt(W,T.len),lt(W,Fs.len)),not_(r)))
            s2=s.clone(); s2.assume(B(r)); s2.assume(B(valid))
            if e.sat(s2)=='unsat': return
            post_common(p,st1,s2,sec,full,O,X,de,f,o,ix,final)
            p.ob('the item starts where it fits in one record',s2,le(add(I(add(Fs.len,pad0))%W,T.len),W))
            p.ob('the item is taken',s2,eq(e.mread(s2,'str',0,t.base).len,0))
            p.frame('outputs',st1,s,[('str',0,t.base),('str',0,f.base),('str',0,o.base),('i32',0,ix.base)])
        a=[t,f,o,ix]+([de] if de is not None else [])+[pd,rd]
        p.run(p.ctx.fn(fn),a,post)
    return proof(fn.split('(')[0],run,spec=Spec,deadline=150)
def str_task(fn,sec):
    W=sec.W
    def run(p):
        st=p.st; e=p.e; t,f,o,ix,de,pd,rd,dl,T,Fs,O,X=common(p,sec,True)
        st.assume(or_(eq(dl,pd),eq(dl,rd))); st.assume(lt(0,T.len)); st.assume(T.len<10**8)
        H=hdr(e,T,st); st1=st.clone()
        final=eq(dl,rd); valid=le(Fs.len,W)
        if de is not None: valid=and_(valid,le(de,9999999),le(-9999999,de))
        over=lt(W,add(Fs.len,H.len)); pad0=ite(over,sub(W,Fs.len),0); item=[H,T,SRep(1,dl)]
        full=scat(Fs,SSym(lambda k: z3.IntVal(32),pad0),*item)
        p.spec.inv=dict(fStr=f.base,fOut=o.base,index=ix.base,sec=sec,de=de,item=item)
        def post(s,r):
            p.ob('a string that fits in the section is accepted',s,imp(and_(valid,le(W*I(X)+full.len+W,W*9999999)),r))
            p.ob('an over-long pending record is refused',s,imp(lt(W,Fs.len),not_(r)))
            s2=s.clone(); s2.assume(B(r)); s2.assume(B(valid))
            if e.sat(s2)=='unsat': return
            post_common(p,st1,s2,sec,full,O,X,de,f,o,ix,final)
            p.ob('the length prefix is not split',s2,le(add(I(add(Fs.len,pad0))%W,H.len),W))
            p.frame('outputs',st1,s,[('str',0,f.base),('str',0,o.base),('i32',0,ix.base)])
        a=[t,f,o,ix]+([de] if de is not None else [])+[pd,rd,dl]
        p.run(p.ctx.fn(fn),a,post)
    return proof(fn.split('(')[0],run,spec=Spec,deadline=300)
def tasks(ctx,thorough):
    return [item_task('AddSecItem(string&, string&, string&, int&, char, char)',G),item_task('AddPDItem(string&, string&, string&, int&, int, char, char)',PD),
            str_task('AddSecHStr(string const&, string&, string&, int&, char, char, char)',G),str_task('AddPDHStr(string const&, string&, string&, int&, int, char, char, char)',PD)]
REPLAY='c02.cpp'; REPLAY_N=3000
