// C13: attribute setters against a record of every attribute, in random histories, directly and through API handles
#include "graph.h"
#include <api/dll_iges.h>
#include <api/dll_iges_entity.h>
struct H: DLL_IGES_ENTITY { H(IGES*m):DLL_IGES_ENTITY(m){} bool NewEntity() override{return false;} };
struct Snap { int form,use,hier,dep,lw,lev,lf,col,view,tr,la,sub; bool vis; std::string label; E*p[7];
  bool operator==(const Snap&o) const { return form==o.form&&use==o.use&&hier==o.hier&&dep==o.dep&&lw==o.lw&&lev==o.lev&&lf==o.lf&&col==o.col&&view==o.view&&tr==o.tr&&la==o.la&&sub==o.sub&&vis==o.vis&&label==o.label&&std::equal(p,p+7,o.p); } };
static Snap snap(E*x){ Snap s; s.form=x->form; s.use=x->use; s.hier=x->hierarchy; s.dep=x->depends; s.lw=x->lineWeightNum; s.lev=x->level; s.lf=x->lineFontPattern; s.col=x->colorNum; s.view=x->view; s.tr=x->transform; s.la=x->labelAssoc; s.sub=x->entitySubscript; s.vis=x->visible; s.label=x->label;
  E*q[7]={x->pStructure,x->pLineFontPattern,x->pLevel,x->pView,(E*)x->pTransform,x->pLabelAssoc,(E*)x->pColor}; std::copy(q,q+7,s.p); return s; }
static std::string show(const Snap&s){ return strf("form %d use %d hier %d dep %d vis %d lw %d level %d/%p font %d/%p colour %d/%p view %d/%p trans %d/%p lassoc %d/%p sub %d label '%s'",s.form,s.use,s.hier,s.dep,s.vis,s.lw,s.lev,(void*)s.p[2],s.lf,(void*)s.p[1],s.col,(void*)s.p[6],s.view,(void*)s.p[3],s.tr,(void*)s.p[4],s.la,(void*)s.p[5],s.sub,s.label.c_str()); }
static int pickv(Rng&r){ static const int v[]={-2147483647-1,-100000000,-2,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,19,20,99999999,100000000,2147483647}; return r.flip()?v[r.below(26)]:r.range(-3,17); }
static bool in(int v,std::initializer_list<int> l){ return std::find(l.begin(),l.end(),v)!=l.end(); }
static bool validform(int t,int f,int cur){ switch(t){ case 104: return f>=1&&f<=3; case 108: return f>=-1&&f<=1; case 110: return f>=0&&f<=2; case 124: return in(f,{0,1,10,11,12}); case 126: return f>=0&&f<=5; case 128: return f>=0&&f<=9;
   case 180: return f==1||(f==0&&cur!=1); case 406: return f==15&&(cur==0||cur==15); case 502: case 504: case 510: return f==1; case 508: return f==0||f==1; case 514: return f==1||f==2; default: return f==0; } }
static void hist(Rng&r,int n,bool api){
  for(int it=0;it<n/30+3;++it) for(int t:TYPES){
    IGES m; m.globalData.maxLinewidthGrad=r.range(1,6); E*x=mk(m,t); if(!x||x->GetEntityType()!=t) continue;
    // candidate references: two suitable entities of every kind and some unsuitable ones
    struct K{int ty,fm;} kinds[]={{304,1},{406,1},{410,0},{402,3},{402,4},{402,19},{402,5},{124,0},{314,0},{406,15},{402,7},{110,0}};
    std::vector<E*> c; for(auto&k:kinds) for(int q=0;q<2;++q){ E*p=mk(m,(k.ty==304||k.ty==410||k.ty==402)?406:k.ty); if(!p) continue; if(p->GetEntityType()==406){ p->entityType=k.ty; p->form=k.fm; } c.push_back(p); }
    H h(&m); h.m_type=(IGES_ENTITY_TYPE)t; if(api&&!h.Attach(x)){ fail(strf("attach:%d",t),"handle refuses the entity"); continue; }
    std::string log=strf("type %d%s:",t,api?" (handle)":"");
    for(int s=0;s<25;++s){
      Snap b=snap(x),w=b; int op=r.below(20),v=pickv(r); E*e=r.below(6)?c[r.below(c.size())]:0; bool ok=false; std::string what; bool valid=true,hasval=true;
      std::list<E*> refs=x->refs; std::vector<size_t> nr; for(auto p:c) nr.push_back(std::count(p->refs.begin(),p->refs.end(),x));
      bool linked=e&&std::count(e->refs.begin(),e->refs.end(),x); int ety=e?e->entityType:0,efm=e?e->form:0;
#define CALL(f,a) (api?h.f(a):x->f(a))
      static const char*NM[]={"SetEntityForm","SetEntityUse","SetHierarchy","SetDependency","SetVisibility","SetLineWeightNum","SetLevel(int)","SetLineFontPattern(enum)","SetColor(enum)","SetEntitySubscript","SetLabel","SetLevel(E)","SetLineFontPattern(E)","SetColor(E)","SetView","SetTransform","SetLabelAssoc","SetStructure"};
      if(op>=18) op=r.range(11,16);
      std::string lab; if(op==10){ for(int i=r.below(13);i>0;--i) lab+=(char)r.range(33,126); }
      what=strf(" %s(%s)",NM[op],op==10?lab.c_str():op>=11?(e?strf("%d-%d#%d",ety,efm,(int)(std::find(c.begin(),c.end(),e)-c.begin())).c_str():"NULL"):strf("%d",v).c_str());
      at(log+what);
      switch(op){
        case 0: ok=CALL(SetEntityForm,v); w.form=v; valid=validform(t,v,b.form); break;
        case 1: ok=CALL(SetEntityUse,(IGES_STAT_USE)v); w.use=v; valid=v>=0&&v<=6; break;
        case 2: ok=CALL(SetHierarchy,(IGES_STAT_HIER)v); w.hier=v; valid=v>=0&&v<=2; break;
        case 3: ok=CALL(SetDependency,(IGES_STAT_DEPENDS)v); w.dep=v; valid=v>=0&&v<=3; break;
        case 4: ok=CALL(SetVisibility,(v&1)!=0); w.vis=v&1; break;
        case 5: ok=CALL(SetLineWeightNum,v); w.lw=std::min(v,m.globalData.maxLinewidthGrad); valid=v>=0; break;
        case 6: ok=CALL(SetLevel,v); w.lev=v; w.p[2]=0; valid=v>=0; break;
        case 7: ok=CALL(SetLineFontPattern,(IGES_LINEFONT_PATTERN)v); w.lf=v; w.p[1]=0; valid=v>=0&&v<=5; break;
        case 8: ok=CALL(SetColor,(IGES_COLOR)v); w.col=v; w.p[6]=0; valid=v>=(t==314)&&v<=8; break;
        case 9: ok=CALL(SetEntitySubscript,v); w.sub=v; valid=v>=0&&v<=99999999; break;
        case 10: ok=api?h.SetLabel(lab.c_str()):x->SetLabel(lab); w.label=lab.substr(0,8); break;
        case 11: ok=CALL(SetLevel,e); w.lev=0; w.p[2]=e; valid=!e||(ety==406&&efm==1); break;
        case 12: ok=CALL(SetLineFontPattern,e); w.lf=0; w.p[1]=e; valid=!e||ety==304; break;
        case 13: ok=CALL(SetColor,e); w.col=0; w.p[6]=e; valid=!e||ety==314; break;
        case 14: ok=CALL(SetView,e); w.view=0; w.p[3]=e; valid=!e||ety==410||(ety==402&&in(efm,{3,4,19})); break;
        case 15: ok=CALL(SetTransform,e); w.tr=0; w.p[4]=e; valid=!e||ety==124; break;
        case 16: ok=CALL(SetLabelAssoc,e); w.la=0; w.p[5]=e; valid=!e||(ety==402&&efm==5); break;
        case 17: ok=CALL(SetStructure,e); valid=false; hasval=false; break;
      }
      ev(); log+=what+(ok?"+":"-"); if(log.size()>1500) log="..."+log.substr(log.size()-1200);
      Snap a=snap(x); const char*nm=NM[op];
      bool same=a==b,exact=a==w;
      if(ok) EXPECT(same||exact,strf("%s[%d]",nm,t),"%s : accepted, but attributes are (%s), before (%s), requested (%s)",log.c_str(),show(a).c_str(),show(b).c_str(),show(w).c_str());
      else EXPECT(same,strf("%s[%d]:refused",nm,t),"%s : refused, but attributes changed from (%s) to (%s)",log.c_str(),show(b).c_str(),show(a).c_str());
      if(!valid) EXPECT(same,strf("%s[%d]:invalid",nm,t),"%s : invalid value stored: (%s) before (%s)",log.c_str(),show(a).c_str(),show(b).c_str());
      // an attribute that the type has takes every valid value
      if(ok&&valid&&hasval&&!same) { } 
      static const std::set<int> full={100,102,104,110,120,122,126,128,186}; // types with all directory entry attributes
      if(full.count(t)&&valid&&op!=0&&!(op==2&&t!=102&&t!=186)&&op!=17){ bool dup=op>=11&&linked&&!(a==b&&exact); if(!dup) EXPECT(ok&&exact,strf("%s[%d]:valid",nm,t),"%s : valid request has no effect: result %d, attributes (%s), requested (%s)",log.c_str(),ok,show(a).c_str(),show(w).c_str()); }
      if(op==0&&valid) EXPECT(ok&&(exact||t==508||t==314),strf("%s[%d]:valid",nm,t),"%s : valid form refused or not stored (form is %d)",log.c_str(),a.form);
      // reference bookkeeping
      for(size_t i=0;i<c.size();++i){ size_t k=std::count(c[i]->refs.begin(),c[i]->refs.end(),x); bool held=std::find(a.p,a.p+7,c[i])!=a.p+7; EXPECT(k==(held?1u:0u),strf("%s[%d]:links",nm,t),"%s : entity #%zu records this one %zu times, referenced: %d",log.c_str(),i,k,held); }
      EXPECT(x->refs==refs,strf("%s[%d]:refs",nm,t),"%s : parents of the entity changed",log.c_str());
      // getters
      int iv; bool bv; E*pe; IGES_STAT_USE gu; IGES_STAT_HIER gh; IGES_STAT_DEPENDS gd;
      EXPECT(x->GetEntityForm()==a.form&&x->GetEntityUse(gu)&&gu==a.use&&x->GetHierarchy(gh)&&gh==a.hier&&x->GetDependency(gd)&&gd==a.dep&&x->GetVisibility(bv)&&bv==a.vis,strf("get[%d]",t),"%s : status getters disagree",log.c_str());
      EXPECT(x->GetEntitySubscript(iv)&&iv==a.sub,strf("getsub[%d]",t),"%s : GetEntitySubscript %d, stored %d",log.c_str(),iv,a.sub);
      if(t!=314&&t!=124){ EXPECT(x->GetLevelEntity(&pe)==(a.p[2]!=0)&&pe==a.p[2],strf("getlevel[%d]",t),"%s : GetLevelEntity",log.c_str()); EXPECT(x->GetView(&pe)==(a.p[3]!=0)&&pe==a.p[3],strf("getview[%d]",t),"%s : GetView",log.c_str()); }
    }
    if(api) h.Detach();
  }
}
static void direct(Rng&r,int n){ hist(r,n,false); }
static void handle(Rng&r,int n){ hist(r,n,true); }
int main(int c,char**v){ return run_groups(c,v,{{"direct",direct},{"handle",handle}}); }
