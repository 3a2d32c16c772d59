"""C01: fixed-width integer fields."""
from lib import *
import models
def field8(e,n):
    """right-justified blank-padded decimal text of n in 8 columns"""
    d=models.dec(e,n); pad=sub(8,d.len)
    return SOpq('f8',(n,),8,lambda k: ite(lt(k,pad),32,d.at(sub(k,pad))))
class Spec(LibSpec): pass
def strp(p,name):
    b=p.obj(name); return b
def fmt_task():
    def run(p):
        st=p.st; e=p.e; out=p.obj('out'); n=p.i32('num'); st1=st.clone()
        fits=and_(le(n,99999999),le(-9999999,n))
        def post(s,r):
            o=e.mread(s,'str',0,out.base)
            p.ob('accepts exactly the integers that fit',s,eq(B(r),fits))
            p.ob('eight characters',s,imp(r,eq(o.len,8)))
            k=freshint('k'); w=field8(e,n)
            p.ob('right-justified decimal text',s,imp(and_(r,le(0,k),lt(k,8)),eq(o.at(k),w.at(k))))
            p.ob('a refused integer leaves an empty field',s,imp(not_(r),eq(o.len,0)))
            p.frame('only the output string',st1,s,[('str',0,out.base)])
        p.run(p.ctx.fn('FormatDEInt(string&, int)'),[out,n],post)
    return proof('FormatDEInt',run,spec=Spec)
def setup_read(p,roundtrip):
    st=p.st; e=p.e; inp=p.obj('input'); var=p.obj('var'); dv=p.obj('defv',nonnull=False)
    st.assume(var.base!=inp.base)
    f=p.i32('field'); n=z3.Int('num'); 
    pre=e.symstr(st,'pre',(I(0),)); suf=e.symstr(st,'suf',(I(0),))
    if roundtrip:
        st.assume(and_(le(n,99999999),le(-9999999,n),le(0,f),le(f,9),eq(pre.len,8*f)))
        e.mwrite(st,'str',0,inp.base,SCat([pre,field8(e,n),suf]))
        p.spec.dec_hints=[n]
    else: n=None
    return inp,f,var,dv,n
def read_task(roundtrip):
    def run(p):
        inp,f,var,dv,n=setup_read(p,roundtrip); st=p.st; e=p.e; st1=st.clone()
        s0=e.mread(st,'str',0,inp.base); v0=e.mread(st,'i32',0,var.base); d0=e.mread(st,'i32',0,dv.base)
        def post(s,r):
            v=e.mread(s,'i32',0,var.base)
            if roundtrip:
                p.ob('a written field is accepted',s,r)
                p.ob('a written field reads back as the same integer',s,eq(v,n))
            else:
                p.ob('a field number outside 0..9 or beyond the text is refused',s,imp(r,and_(le(0,f),le(f,9),le(8*(f+1),s0.len))))
                p.ob('a refused read leaves the variable alone',s,imp(not_(r),eq(v,v0)))
                k=freshint('q')
                blank=z3.ForAll([k],z3.Implies(z3.And(k>=0,k<8),s0.at(8*f+k)==32))
                p.ob('a blank field yields the default or is refused',s,imp(and_(le(0,f),le(f,9),le(8*(f+1),s0.len),blank),and_(eq(B(r),ne(dv.base,0)),imp(r,eq(v,d0)))))
            p.frame('only the variable',st1,s,[('i32',0,var.base)])
        p.run(p.ctx.fn('DEItemToInt(string const&, int, int&, int*)'),[inp,f,var,dv],post)
    return proof('DEItemToInt'+(' of a written field' if roundtrip else ''),run,spec=Spec)
def str_task():
    def run(p):
        st=p.st; e=p.e; inp=p.obj('input'); var=p.obj('var'); st.assume(inp.base!=var.base); f=p.i32('field'); st1=st.clone()
        s0=e.mread(st,'str',0,inp.base)
        def post(s,r):
            v=e.mread(s,'str',0,var.base)
            ok=and_(le(0,f),le(f,9),le(8*(f+1),s0.len))
            p.ob('accepts exactly the fields inside the text',s,eq(B(r),ok))
            k=freshint('k')
            p.ob('a refused read yields an empty string',s,imp(not_(r),eq(v.len,0)))
            p.ob('at most eight characters',s,le(v.len,8))
            p.ob('the tail of the field, leading blanks removed',s,imp(and_(r,le(0,k),lt(k,v.len)),eq(v.at(k),s0.at(8*f+8-v.len+k))))
            p.ob('what is removed is blank',s,imp(and_(r,le(0,k),lt(k,sub(8,v.len))),eq(s0.at(8*f+k),32)))
            p.ob('no leading blank is kept',s,imp(and_(r,lt(0,v.len)),ne(v.at(0),32)))
            p.frame('only the variable',st1,s,[('str',0,var.base)])
        p.run(p.ctx.fn('DEItemToStr(string const&, int, string&)'),[inp,f,var],post)
    return proof('DEItemToStr',run,spec=Spec)
def tasks(ctx,thorough): return [fmt_task(),read_task(False),read_task(True),str_task()]
REPLAY='c01.cpp'; REPLAY_N=4000
