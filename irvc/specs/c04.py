"""C04: free-format parameter readers stay in bounds and consume one parameter."""
from lib import *
import models
class Spec(LibSpec): pass
class SpecL(LibSpec):
    """callers of ParseLString use its contract, proved in the task of that function"""
    def match(s,eng,st,dem,args,ins):
        if dem.startswith('ParseLString('):
            data,idx,par,eor,pd,rd=args
            D=models.e_str(eng,st,data); i=eng.mread(st,'i32',0,idx.base); e0=eng.tobool(eng.mread(st,'i8',0,eor.base))
            out=[]
            a=st.clone(); j=eng.fresh('stop'); k=freshint('k')
            a.assume(and_(le(0,i),le(i,j),lt(j,D.len),or_(eq(D.at(j),pd),eq(D.at(j),rd))))
            a.assume(z3.ForAll([k],z3.Implies(z3.And(k>=I(i),k<j),B(and_(ne(D.at(k),pd),ne(D.at(k),rd))))))
            models.w_str(eng,a,par,ssub(D,i,sub(j,i))); eng.mwrite(a,'i32',0,idx.base,add(j,1)); eng.mwrite(a,'i8',0,eor.base,ite(or_(e0,eq(D.at(j),rd)),1,0))
            b=st.clone(); k=freshint('k')
            b.assume(or_(lt(i,0),z3.ForAll([k],z3.Implies(z3.And(k>=I(i),k<I(D.len)),B(and_(ne(D.at(k),pd),ne(D.at(k),rd)))))))
            eng.mwrite(b,'str',0,par.base,EMPTY)
            return [(s_,r) for s_,r in((a,True),(b,False)) if eng.feasible(s_)]
        return None
def setup(p):
    st=p.st; e=p.e; data=p.obj('data'); idx=p.obj('idx'); par=p.obj('param'); eor=p.obj('eor'); l=[data,idx,par,eor]
    for i in range(4):
        for j in range(i): st.assume(l[i].base!=l[j].base)
    pd=p.i32('pd',-128,127); rd=p.i32('rd',-128,127)
    D=e.mread(st,'str',0,data.base); i=e.mread(st,'i32',0,idx.base); e0=e.tobool(e.mread(st,'i8',0,eor.base))
    return data,idx,par,eor,pd,rd,D,i,e0
def common(p,s,r,idx,eor,D,i,e0,pd,rd,first=True):
    e=p.e; i1=e.mread(s,'i32',0,idx.base); e1=e.tobool(e.mread(s,'i8',0,eor.base)); q=sub(i1,1)
    p.ob('position stays inside the input and advances',s,imp(r,and_(le(0,i),lt(i,i1),le(i1,D.len))))
    p.ob('position is just past a delimiter',s,imp(r,or_(eq(D.at(q),pd),eq(D.at(q),rd))))
    p.ob('end of record exactly when the record delimiter was consumed',s,imp(r,eq(B(e1),B(or_(e0,eq(D.at(q),rd))))))
    if first:
        k=freshint('k'); p.ob('no delimiter before it',s,imp(and_(r,le(i,k),lt(k,q)),and_(ne(D.at(k),pd),ne(D.at(k),rd))))
    p.ob('a start outside the input is refused',s,imp(or_(lt(i,0),le(D.len,i)),not_(r)))
    return i1
def h_task():
    def run(p):
        p.e.nooverflow=True; st=p.st; e=p.e; data,idx,par,eor,pd,rd,D,i,e0=setup(p); st1=st.clone()
        def post(s,r):
            i1=common(p,s,r,idx,eor,D,i,e0,pd,rd,first=False); v=e.mread(s,'str',0,par.base)
            emp=or_(eq(D.at(i),pd),eq(D.at(i),rd))
            p.ob('an empty parameter is one delimiter',s,imp(and_(r,emp),and_(eq(i1,add(i,1)),eq(v.len,0))))
            k=freshint('k')
            p.ob('otherwise the text is the characters before the delimiter',s,imp(and_(r,not_(emp)),and_(lt(0,v.len),imp(and_(le(0,k),lt(k,v.len)),eq(v.at(k),D.at(sub(i1,1)-v.len+k))),eq(D.at(sub(i1,2)-v.len),ord('H')))))
            p.ob('a refused parameter yields no text',s,True)
            p.frame('outputs',st1,s,[('str',0,par.base),('i32',0,idx.base),('i8',0,eor.base)])
        p.run(p.ctx.fn('ParseHString(string const&, int&, string&, bool&, char, char)'),[data,idx,par,eor,pd,rd],post)
    return proof('ParseHString',run,spec=Spec)
def l_task():
    def run(p):
        p.e.nooverflow=True; st=p.st; e=p.e; data,idx,par,eor,pd,rd,D,i,e0=setup(p); st1=st.clone()
        def post(s,r):
            i1=common(p,s,r,idx,eor,D,i,e0,pd,rd); v=e.mread(s,'str',0,par.base); k=freshint('k')
            p.ob('text is everything up to the delimiter',s,imp(r,eq(v.len,sub(sub(i1,1),i))))
            p.ob('characters unchanged',s,imp(and_(r,le(0,k),lt(k,v.len)),eq(v.at(k),D.at(add(i,k)))))
            p.ob('succeeds whenever a delimiter follows',s,imp(and_(not_(r),le(0,i),le(i,k),lt(k,D.len)),and_(ne(D.at(k),pd),ne(D.at(k),rd))))
            p.ob('a refused parameter leaves position and flag',s,imp(not_(r),and_(eq(i1,i),eq(B(e.tobool(e.mread(s,'i8',0,eor.base))),B(e0)),eq(v.len,0))))
            p.frame('outputs',st1,s,[('str',0,par.base),('i32',0,idx.base),('i8',0,eor.base)])
        p.run(p.ctx.fn('ParseLString(string const&, int&, string&, bool&, char, char)'),[data,idx,par,eor,pd,rd],post)
    return proof('ParseLString',run,spec=Spec)
def num_task(real,rt=False):
    def run(p):
        p.e.nooverflow=True; st=p.st; e=p.e; data,idx,par,eor,pd,rd,D,i,e0=setup(p); dv=p.obj('dflt',nonnull=False)
        for x in(idx,par,eor,data): st.assume(x.base!=dv.base)
        k_='f64' if real else 'i32'
        if rt:
            n=p.i32('n'); pre=e.symstr(st,'pre',(I(0),)); suf=e.symstr(st,'suf',(I(0),)); dl=p.i32('delim',-128,127); st.assume(or_(eq(dl,pd),eq(dl,rd)))
            for c in(pd,rd): st.assume(and_(or_(lt(c,48),lt(57,c)),ne(c,45),ne(c,46),ne(c,68),ne(c,69),ne(c,101),ne(c,120),ne(c,88)))
            D=SCat([pre,models.dec(e,n),SRep(1,dl),suf]); e.mwrite(st,'str',0,data.base,D); st.assume(D.len<2**31-1); e.mwrite(st,'i32',0,idx.base,pre.len); i=pre.len
            p.spec.dec_hints=[n]
        d0=e.mread(st,k_,0,dv.base); v0=e.mread(st,k_,0,par.base); st1=st.clone()
        def post(s,r):
            i1=common(p,s,r,idx,eor,D,i,e0,pd,rd); v=e.mread(s,k_,0,par.base); emp=and_(le(0,i),lt(i,D.len),or_(eq(D.at(i),pd),eq(D.at(i),rd)))
            if rt:
                p.ob('a written integer is accepted',s,r)
                p.ob('a written integer reads back as the same value',s,eq(v,n if not real else z3.ToReal(n)))
            p.ob('an empty parameter yields the default, or fails without one',s,imp(emp,and_(eq(B(r),ne(dv.base,0)),imp(r,eq(v,d0)))))
            p.ob('a refused parameter leaves the variable',s,imp(not_(r),eq(v,v0)))
            p.frame('outputs',st1,s,[(k_,0,par.base),('i32',0,idx.base),('i8',0,eor.base)])
        sig='ParseReal(string const&, int&, double&, bool&, char, char, double*)' if real else 'ParseInt(string const&, int&, int&, bool&, char, char, int*)'
        p.run(p.ctx.fn(sig),[data,idx,par,eor,pd,rd,dv],post)
    return proof(('ParseReal' if real else 'ParseInt')+(' of a written integer' if rt else ''),run,spec=SpecL)
def tasks(ctx,thorough): return [h_task(),l_task(),num_task(False),num_task(True),num_task(False,True),num_task(True,True)]
REPLAY='c04.cpp'; REPLAY_N=6000
