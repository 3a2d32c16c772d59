"""C03: Hollerith strings survive being written and read back."""
from lib import *
import models, c02
class Spec(LibSpec): pass
def h_task():
    def run(p):
        st=p.st; e=p.e; t=p.obj('tStr'); h=p.obj('hConst'); st.assume(t.base!=h.base); T=e.mread(st,'str',0,t.base); st1=st.clone(); h0=e.mread(st,'str',0,h.base)
        def post(s,r):
            v=e.mread(s,'str',0,h.base); d=models.dec(e,T.len); k=freshint('k')
            p.ob('refuses exactly the empty string',s,eq(B(r),lt(0,T.len)))
            p.ob('length of the prefix',s,imp(r,eq(v.len,add(d.len,1))))
            p.ob('decimal length followed by H',s,imp(and_(r,le(0,k),lt(k,v.len)),eq(v.at(k),ite(eq(k,d.len),ord('H'),d.at(k)))))
            p.frame('output',st1,s,[('str',0,h.base)])
        p.run(p.ctx.fn('GetHConst(string const&, string&)'),[t,h],post)
    return proof('GetHConst',run,spec=Spec)
def rt_task(empty):
    def run(p):
        st=p.st; e=p.e; data=p.obj('data'); idx=p.obj('idx'); par=p.obj('param'); eor=p.obj('eor'); l=[data,idx,par,eor]
        for i in range(4):
            for j in range(i): st.assume(l[i].base!=l[j].base)
        pd=p.i32('pd',-128,127); rd=p.i32('rd',-128,127); dl=p.i32('delim',-128,127); st.assume(or_(eq(dl,pd),eq(dl,rd)))
        # delimiters are not part of numbers (Global section definition)
        for c in(pd,rd): st.assume(and_(or_(lt(c,48),lt(57,c)),ne(c,43),ne(c,45),ne(c,72)))
        pre=e.symstr(st,'pre',(I(0),)); txt=e.symstr(st,'txt',(I(0),)); suf=e.symstr(st,'suf',(I(0),)); e0=e.tobool(e.mread(st,'i8',0,eor.base))
        if empty: D=SCat([pre,SRep(1,dl),suf])
        else:
            st.assume(lt(0,txt.len)); D=SCat([pre,models.dec(e,txt.len),SLit(b'H'),txt,SRep(1,dl),suf]); p.spec.dec_hints=[txt.len]
        st.assume(D.len<2**31-1)
        e.mwrite(st,'str',0,data.base,D); e.mwrite(st,'i32',0,idx.base,pre.len); st1=st.clone()
        end=sub(D.len,suf.len)
        def post(s,r):
            v=e.mread(s,'str',0,par.base); k=freshint('k')
            p.ob('an encoded string is accepted',s,r)
            p.ob('same length',s,eq(v.len,0 if empty else txt.len))
            if not empty: p.ob('same characters',s,imp(and_(le(0,k),lt(k,v.len)),eq(v.at(k),txt.at(k))))
            p.ob('consumes exactly the constant and its delimiter',s,eq(e.mread(s,'i32',0,idx.base),end))
            p.ob('end of record exactly for the record delimiter',s,eq(B(e.tobool(e.mread(s,'i8',0,eor.base))),B(or_(e0,eq(dl,rd)))))
            p.frame('outputs',st1,s,[('str',0,par.base),('i32',0,idx.base),('i8',0,eor.base)])
        p.run(p.ctx.fn('ParseHString(string const&, int&, string&, bool&, char, char)'),[data,idx,par,eor,pd,rd],post)
    return proof('ParseHString of '+('an empty parameter' if empty else 'an encoded string'),run,spec=Spec)
def tasks(ctx,thorough): return [h_task(),rt_task(False),rt_task(True)]+[t for t in c02.tasks(ctx,thorough) if 'HStr' in t.name]
REPLAY='c03.cpp'; REPLAY_N=3000
