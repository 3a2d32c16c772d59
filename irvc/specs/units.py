"""names of the units of the Global section (table of the library, established by its initialiser: c14.init_task)"""
from lib import *
UN='_ZL10UNIT_NAMESB5cxx11'
NAMES=['IN','MM','CUST','FT','MI','M','KM','MIL','UM','CM','UIN']
def unit_name(v):
    """text of the name of unit v"""
    if isinstance(v,int): return SLit(NAMES[v-1].encode())
    ln=0
    for i,n in enumerate(NAMES): ln=ite(eq(v,i+1),len(n),ln)
    def at(k):
        r=0
        for i,n in enumerate(NAMES):
            for j,c in enumerate(n): r=ite(and_(eq(v,i+1),eq(k,j)),ord(c),r)
        return r
    return SOpq('unit',(v,),ln,at)
def strtab(e,st,off):
    e.bounds('table of names',st,or_(*[eq(off,32*i) for i in range(12)]),None)
    return unit_name(z3.simplify(I(off)/32+1))
TAB={UN:strtab}
