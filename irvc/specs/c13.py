"""C13: an attribute setter either leaves the entity as it was or changes exactly that attribute to the requested value."""
from lib import *
LINK=900001                                  # ghost field of an entity: "this entity records `this` as parent"
FORMS={'104':(1,2,3),'108':(-1,0,1),'110':(0,1,2),'124':(0,1,10,11,12),'126':range(6),'128':range(10),'180':(0,1),'406':(15,),
 '502':(1,),'504':(1,),'508':(0,1),'510':(1,),'514':(1,2)}
KEEPFORM=('100','102','120','122','142','144','154','164','186','308','314','408','502','504','508','510')    # one form only
# attributes that a type does not have: the call changes nothing (and is accepted, refused or accepts only the fixed value)
MODE={}
def mode(sig,ign='',ref='',**fix):
    for t in ign.split(): MODE[(t,sig)]=('ignore',)
    for t in (ref+' NULL').split(): MODE[(t,sig)]=('refuse',)
    for t,v in fix.items(): MODE[(t[1:],sig)]=('fix',v)
mode('SetEntityUse','108 314',_142=0,_144=0,_154=0,_164=0,_180=0,_308=2)
mode('SetHierarchy','100 104 108 110 120 122 124 126 128 142 144 154 164 314 502 504')
mode('SetDependency','108 124 314',_502=1,_504=1,_508=1,_510=1)
for t in('124','308','314'): MODE[(t,'SetVisibility')]=('ignore',)
mode('SetLineWeightNum','108 124 314 406','502 504 510 514')
mode('SetLabelAssoc','124 314 406')
for s in('SetColor(IGES_COLOR)','SetColor(IGES_ENTITY*)'): mode(s,'124 406'+(' 314' if '*' in s else ''),'502 504 510 514')
for s in('SetLevel(int)','SetLevel(IGES_ENTITY*)'): mode(s,'124 314')
for s in('SetLineFontPattern(IGES_LINEFONT_PATTERN)','SetLineFontPattern(IGES_ENTITY*)'): mode(s,'108 124 314 406','502 504 510 514')
mode('SetView','124 314 406','502 504 508 510 514')
mode('SetTransform','314 406','502 504 508 510 514')
VAL={'SetEntityUse':('use',0,6),'SetHierarchy':('hierarchy',0,2),'SetDependency':('depends',0,3),'SetLevel(int)':('level',0,2**31-1),
 'SetLineFontPattern(IGES_LINEFONT_PATTERN)':('lineFontPattern',0,5),'SetColor(IGES_COLOR)':('colorNum',0,8),'SetEntitySubscript':('entitySubscript',0,99999999)}
PTRF={'SetLevel(int)':'pLevel','SetLineFontPattern(IGES_LINEFONT_PATTERN)':'pLineFontPattern','SetColor(IGES_COLOR)':'pColor'}
T_=lambda t: (lambda ty,fm: eq(ty,t))
PSET={'SetLineFontPattern(IGES_ENTITY*)':('pLineFontPattern','lineFontPattern',T_(304)),
 'SetLevel(IGES_ENTITY*)':('pLevel','level',lambda ty,fm: and_(eq(ty,406),eq(fm,1))),
 'SetView':('pView','view',lambda ty,fm: or_(eq(ty,410),and_(eq(ty,402),or_(eq(fm,3),eq(fm,4),eq(fm,19))))),
 'SetTransform':('pTransform','transform',T_(124)),
 'SetLabelAssoc':('pLabelAssoc','labelAssoc',lambda ty,fm: and_(eq(ty,402),eq(fm,5))),
 'SetColor(IGES_ENTITY*)':('pColor','colorNum',T_(314))}
class Spec(LibSpec):
    def match(s,eng,st,dem,args,ins):
        m=re.match(r'(?:@virtual |IGES_ENTITY\w*::)(add|del)Reference\(',dem)
        if m and m.group(1)=='add':
            x,par=args[0],args[1]; eng.deref(st,x,ins,'call'); out=[]
            if eq(par.base,s.this.base) is not True: raise Unsupported('addReference with another parent')
            was=eng.tobool(eng.mread(st,'i8',LINK,x.base))
            def good(q):
                eng.store(q,args[2],'i8',ite(was,1,0)); eng.mwrite(q,'i8',LINK,x.base,1); out.append((q,True))
            def bad(q):
                eng.store(q,args[2],'i8',eng.fresh('dup','Bool')); out.append((q,False))
            eng.fork(st,or_(was,s.ok(x)),good,bad)
            return out
        if m:
            x=args[0]; eng.deref(st,x,ins,'call')
            if eq(args[1].base,s.this.base) is not True: raise Unsupported('delReference with another parent')
            r=eng.tobool(eng.mread(st,'i8',LINK,x.base)); eng.mwrite(st,'i8',LINK,x.base,0)
            return [(st,r)]
        if dem=='IGES::AddEntity(IGES_ENTITY*)': st.event('adopt',args[0],args[1]); return [(st,eng.fresh('ok','Bool'))]
        if dem.startswith('@virtual ') and s.delegate:
            eng.deref(st,args[0],ins,'call'); rv=eng.fresh('rv','Bool'); st.event('call',dem[9:],tuple(args),rv); return [(st,rv)]
        if s.delegate and re.match(r'IGES_ENTITY::[SG]et\w+\(',dem):
            eng.deref(st,args[0],ins,'call'); rv=eng.fresh('rv','Bool'); st.event('call',dem[13:],tuple(args),rv); return [(st,rv)]
        return None
    delegate=False
    def ok(s,x): return s.p.e.uf('ref_ok','Int','Bool')(I(x.base))
    def dyncast(s,eng,st,p,tinfo,ins):
        # an object is of class IGES_ENTITY_124 exactly when its type is 124 (constructor, C08)
        c=eq(s.p.get(st,p,'IGES_ENTITY','entityType'),124); out=[]
        eng.fork(st,c,lambda q: out.append((q,p)),lambda q: out.append((q,NULL)))
        return out
def method(ctx,cls,sig):
    n,_,a=sig.partition('(')
    if a: return ctx.method(cls,n,a[:-1])
    try: return ctx.method(cls,n)
    except Unsupported:
        for d in ctx.mod.bydem:
            if d.startswith('%s::%s('%('IGES_ENTITY',n)): return ctx.fn(d)
        raise
def E(p,s,this,f,kind=None): return p.get(s,this,'IGES_ENTITY',f,kind)
def value_task(cls,sig):
    n=cls[len('IGES_ENTITY_'):]
    def run(p):
        st=p.st; this=p.obj('this'); p.spec.this=this; md=MODE.get((n,sig),('set',))
        if sig=='SetVisibility': a=p.boolean('value')
        else: a=p.i32('value')
        alw=[]; valid=True; fld=None; lw=None
        if sig=='SetEntityForm':
            fld='form'; valid=or_(*[eq(a,x) for x in FORMS.get(n,(0,))])
            if n=='180': valid=and_(valid,or_(eq(a,1),ne(E(p,st,this,'form'),1)))
            if n=='406': valid=and_(valid,or_(eq(E(p,st,this,'form'),0),eq(E(p,st,this,'form'),a)))
            if n=='314': md=('ignore',)
            elif n=='NULL': md=('refuse',)
            elif n in KEEPFORM: md=('keep',)
        elif sig=='SetVisibility': fld='visible'
        elif sig=='SetLineWeightNum':
            fld='lineWeightNum'; par=E(p,st,this,'parent')
            o=p.ctx.F('IGES','globalData')[0]+p.ctx.F('IGES_GLOBAL','maxLinewidthGrad')[0]
            mx=p.e.mread(st,'i32',o,par.base); lw=ite(gt(a,mx),mx,a); valid=and_(ge(a,0),ne(par.base,0))
        else:
            fld,lo,hi=VAL[sig]
            if n=='314' and fld=='colorNum': lo=1; st.assume(B(eq(E(p,st,this,'pColor').base,0)))     # a colour definition has a number and no reference
            valid=and_(ge(a,lo),le(a,hi))
        pf=PTRF.get(sig); old=None
        if pf:
            old=E(p,st,this,pf); st.assume(B(imp(ne(old.base,0),p.e.tobool(p.e.mread(st,'i8',LINK,old.base))))); st.assume(B(ne(old.base,this.base)))
        st1=st.clone()
        def post(s,r):
            if md[0]=='ignore': p.ob('accepted without effect',s,r)
            elif md[0]=='refuse': p.ob('refused',s,not_(r))
            elif md[0]=='fix': p.ob('accepts exactly the fixed value of the type',s,eq(B(r),B(eq(a,md[1]))))
            else: p.ob('accepts exactly the values in range',s,eq(B(r),B(valid)))
            al=[]
            if md[0]=='set':
                v=E(p,s,this,fld); want=lw if lw is not None else a
                if fld=='visible': v=p.e.tobool(v)
                p.ob('an accepted value is stored',s,imp(r,eq(B(v),B(want)) if fld=='visible' else eq(v,want)))
                p.ob('a refused value changes nothing',s,or_(r,p.same(st1,s,p.ctx.F('IGES_ENTITY',fld)[1],p.ctx.F('IGES_ENTITY',fld)[0],this.base)))
                al=p.fields('IGES_ENTITY',this,[fld])
                if pf:
                    nv=E(p,s,this,pf)
                    p.ob('an accepted value replaces the reference',s,imp(r,eq(nv.base,0)))
                    p.ob('a refused value keeps the reference',s,or_(r,veq(nv,old)))
                    lk=p.e.tobool(p.e.mread(s,'i8',LINK,old.base))
                    p.ob('the replaced entity forgets this one exactly when replaced',s,imp(ne(old.base,0),eq(B(lk),B(not_(r)))))
                    al+=p.fields('IGES_ENTITY',this,[pf])+[('i8',LINK,old.base)]
            p.frame(sig.split('(')[0],st1,s,al)
        p.run(method(p.ctx,cls,sig),[this,a],post)
    return proof('%s::%s'%(cls,sig),run,spec=Spec)
def ptr_task(cls,sig):
    n=cls[len('IGES_ENTITY_'):]
    def run(p):
        st=p.st; this=p.obj('this'); p.spec.this=this; a=p.obj('arg',nonnull=False); md=MODE.get((n,sig),('set',))
        pf,nf,rule=PSET[sig]; old=E(p,st,this,pf); oldn=E(p,st,this,nf)
        lk=lambda s,x: p.e.tobool(p.e.mread(s,'i8',LINK,x.base))
        st.assume(B(imp(ne(old.base,0),lk(st,old)))); st.assume(B(and_(ne(old.base,this.base),ne(a.base,this.base))))
        was=lk(st,a); ok=or_(was,p.spec.ok(a)); tr=rule(E(p,st,a,'entityType'),E(p,st,a,'form'))
        st1=st.clone()
        def post(s,r):
            if md[0]!='set':
                p.ob('refused' if md[0]=='refuse' else 'accepted without effect',s,not_(r) if md[0]=='refuse' else r)
                p.frame(sig.split('(')[0],st1,s,[]); return
            nv=E(p,s,this,pf); nn=E(p,s,this,nf); same=veq(a,old); nul=eq(a.base,0)
            p.ob('accepts null, the present and every suitable new entity',s,eq(B(r),B(or_(nul,same,and_(tr,ok,not_(was))))))
            p.ob('an accepted entity is stored',s,imp(r,veq(nv,a)))
            p.ob('a refused entity changes nothing',s,or_(r,and_(veq(nv,old),eq(nn,oldn),eq(s.log.len,0))))
            p.ob('the field number is reset when the reference changes',s,imp(r,or_(eq(nn,0),and_(same,not_(nul),eq(nn,oldn)))))
            p.ob('the new entity records this one exactly when accepted',s,imp(and_(not_(nul),not_(same)),eq(B(lk(s,a)),B(or_(was,r)))))
            p.ob('the previous entity forgets this one exactly when replaced',s,imp(and_(ne(old.base,0),not_(same)),eq(B(lk(s,old)),B(not_(r)))))
            p.ob('setting the present entity again keeps it',s,imp(and_(same,not_(nul)),lk(s,a)))
            p.frame(sig.split('(')[0],st1,s,p.fields('IGES_ENTITY',this,[pf,nf])+[('i8',LINK,a.base),('i8',LINK,old.base)])
        p.run(method(p.ctx,cls,sig),[this,a],post)
    return proof('%s::%s'%(cls,sig),run,spec=Spec)
def label_task(cls):
    def run(p):
        st=p.st; this=p.obj('this'); p.spec.this=this
        cell=p.newobj('std::string'); txt=p.e.mread(st,'str',0,z3.Int('labeltext')); p.e.mwrite(st,'str',0,cell.base,txt)
        st1=st.clone()
        def post(s,r):
            nv=E(p,s,this,'label'); k=freshint('lk')
            p.ob('accepted',s,r)
            p.ob('at most eight characters are stored',s,eq(nv.len,ite(gt(txt.len,8),8,txt.len)))
            p.ob('the stored characters are those of the request',s,imp(and_(le(0,k),lt(k,nv.len)),eq(nv.at(k),txt.at(k))))
            p.frame('SetLabel',st1,s,p.fields('IGES_ENTITY',this,['label'])+[('str',0,cell.base)])
        p.run(method(p.ctx,cls,'SetLabel'),[this,cell],post)
    return proof('%s::SetLabel'%cls,run,spec=Spec)
def struct_task(cls):
    def run(p):
        st=p.st; this=p.obj('this'); p.spec.this=this; a=p.obj('arg',nonnull=False); st1=st.clone()
        def post(s,r):
            p.ob('no supported type has a structure entity',s,not_(r)); p.frame('SetStructure',st1,s,[])
        p.run(method(p.ctx,cls,'SetStructure'),[this,a],post)
    return proof('%s::SetStructure'%cls,run,spec=Spec)
# ---- getters
GET={'GetLineWeightNum':'lineWeightNum','GetEntityUse':'use','GetHierarchy':'hierarchy','GetDependency':'depends','GetVisibility':'visible',
 'GetEntitySubscript':'entitySubscript'}
GETP={'GetLineFontPatternEntity':('pLineFontPattern',True),'GetLevelEntity':('pLevel',True),'GetView':('pView',True),'GetTransform':('pTransform',True)}
GETN={'GetLineFontPattern':('lineFontPattern','pLineFontPattern',0,5),'GetLevel':('level','pLevel',0,2**31-1),'GetColor':('colorNum','pColor',0,8)}
def get_task(dem,name,cls='IGES_ENTITY'):
    def run(p):
        st=p.st; this=p.obj('this'); p.spec.this=this
        if name in GET: cell=p.cell('i8' if name=='GetVisibility' else 'i32',UNDEF)
        elif name in GETP: cell=p.cell('ptr',UNDEF)
        else: cell=p.cell('i32',UNDEF); f,pf,lo,hi=GETN[name]; v=E(p,st,this,f); st.assume(B(and_(ge(v,lo),le(v,hi))))
        st1=st.clone()
        def post(s,r):
            if name in GET:
                v=p.load(s,cell) if False else p.e.mread(s,'i8' if name=='GetVisibility' else 'i32',0,cell.base)
                w=E(p,s,this,GET[name])
                if name=='GetVisibility': v=p.e.tobool(v); w=p.e.tobool(w); p.ob('reports the attribute',s,and_(r,eq(B(v),B(w))))
                else: p.ob('reports the attribute',s,and_(r,eq(v,w)))
            elif name in GETP:
                w=E(p,s,this,GETP[name][0])
                p.ob('reports the entity',s,and_(eq(B(r),B(ne(w.base,0))),veq(p.e.mread(s,'ptr',0,cell.base),w)))
            else:
                w=E(p,s,this,f)
                p.ob('fails exactly when an entity is referenced instead',s,eq(B(r),B(eq(E(p,s,this,pf).base,0))))
                v=p.e.mread(s,'i32',0,cell.base)
                p.ob('reports the attribute',s,imp(r,eq(v,w) if v is not UNDEF else False))
            p.frame(name,st1,s,[(('i8' if name=='GetVisibility' else 'ptr' if name in GETP else 'i32'),0,cell.base)])
        p.run(p.ctx.fn(dem),[this,cell],post)
    return proof('%s[get]'%dem,run,spec=Spec)
# ---- API handles: a valid handle passes the call on unchanged and reports its result
def deleg_task(dem,name,arg):
    def run(p):
        st=p.st; this=p.obj('this'); ent=p.get(st,this,'DLL_IGES_ENTITY','m_entity')
        p.spec.delegate=True; p.spec.this=ent
        valid=p.e.tobool(p.get(st,this,'DLL_IGES_ENTITY','m_valid')); st.assume(B(imp(valid,ne(ent.base,0))))
        if arg=='bool': a=p.boolean('value')
        elif arg.endswith('*') and 'char' not in arg: a=p.obj('arg',nonnull=False)
        elif arg.endswith('&'): a=p.obj('argh'); av=p.e.tobool(p.get(st,a,'DLL_IGES_ENTITY','m_valid')); ae=p.get(st,a,'DLL_IGES_ENTITY','m_entity')
        else: a=p.i32('value')
        if arg.endswith('&'): st.assume(B(and_(av,ne(ae.base,0))))          # handles of vanished objects: C09
        st1=st.clone()
        def post(s,r):
            p.ob('exactly one call when the handle is valid',s,eq(s.log.len,ite(valid,1,0)))
            if isinstance(s.log,SeqLit) and len(s.log.el)==1:
                _,what,args,rv=s.log.el[0]
                p.ob('the matching setter is called',s,what.split('(')[0]==name)
                x=args[1]
                if arg.endswith('&'): same=veq(x,ae)
                elif isinstance(a,Ptr): same=veq(x,a)
                elif arg=='bool': same=eq(B(p.e.tobool(x)),B(a))
                else: same=eq(x,a)
                p.ob('on the entity of the handle, with the same argument',s,and_(veq(args[0],ent),same))
                p.ob('its result is returned',s,eq(B(r),B(rv)))
            else: p.ob('an invalid handle fails',s,not_(r))
            p.frame(name,st1,s,[])
        p.run(p.ctx.fn(dem),[this,a],post)
    return proof('%s'%dem,run,spec=Spec)
def tasks(ctx,thorough):
    T=[]
    for c in ctx.entity_classes():
        if c.endswith('_TEMP'): continue
        for s in['SetEntityForm','SetVisibility','SetLineWeightNum']+list(VAL): T.append(value_task(c,s))
        for s in PSET: T.append(ptr_task(c,s))
        T.append(label_task(c)); T.append(struct_task(c))
    for d in sorted(ctx.mod.bydem):
        m=re.match(r'IGES_ENTITY::(Get\w+)\(',d)
        if m and (m.group(1) in GET or m.group(1) in GETP or m.group(1) in GETN): T.append(get_task(d,m.group(1)))
        m=re.match(r'DLL_IGES_ENTITY::(Set\w+)\(([^,]*)\)$',d)
        if m and m.group(1) not in('SetAPIParentIGES','SetParentIGES','SetLabel'): T.append(deleg_task(d,m.group(1),m.group(2)))
    return T
REPLAY='c13.cpp'; REPLAY_N=3000
