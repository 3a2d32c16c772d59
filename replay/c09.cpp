// C09 on the real library: operations of handles whose object is gone; registration of handles under random histories
#include "common.h"
#include "graph.h"
#include <api/all_api_entities.h>
#include <api/dll_iges.h>
#include <api/dll_iges_geom_pcb.h>
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
#include <geom/iges_geom_pcb.h>
#include <api/dll_mcad_outline.h>
#include <api/dll_mcad_segment.h>
static void bad(bool r,const char*k,const std::string&how){ EXPECT(!r,strf("reports-success:%s",k),"%s reports success although its object is gone (%s)",k,how.c_str()); }
static void bad(int r,const char*k,const std::string&how){ EXPECT(r<=0,strf("reports-success:%s",k),"%s returns %d although its object is gone (%s)",k,r,how.c_str()); }
static void bad(unsigned long r,const char*k,const std::string&how){ EXPECT(r==0,strf("reports-success:%s",k),"%s returns %lu although its object is gone (%s)",k,r,how.c_str()); }
static void bad(const void* r,const char*k,const std::string&how){ EXPECT(!r,strf("reports-success:%s",k),"%s returns an address although its object is gone (%s)",k,how.c_str()); }
template<class T> static void bad(T*r,const char*k,const std::string&how){ bad((const void*)r,k,how); }
template<class T> static typename std::enable_if<std::is_enum<T>::value>::type bad(T r,const char*k,const std::string&how){ bad((int)r,k,how); }
template<class F> static auto run(F f){ if constexpr(std::is_void<decltype(f())>::value){ f(); return false; } else return f(); }
#include "c09_calls.inc"
static const char*HOW[]={"never-attached","deleted-by-model","model-cleared","model-destroyed","detached","standalone-deleted","raw-deleted-two-handles"};
template<class D> static void base(D&h,const std::string&how){ calls_DLL_IGES_ENTITY(h,how); }
template<class D> static void gone1(int type,void(*calls)(D&,const std::string&),const char*nm){
  for(int w=0;w<7;++w){
    std::string how=strf("%s:%s",nm,HOW[w]); at(how+" setup");
    if(w==0){ D h((IGES*)0,false); calls(h,how); base(h,how); continue; }
    if(w==5){ D h((IGES*)0,true); EXPECT(h.m_valid,"not-valid-after-create","%s: handle of a new entity is not valid",how.c_str()); E*e=h.GetRawPtr(); delete e; EXPECT(!h.m_valid,"valid-after-destroy","%s: handle stays valid",how.c_str()); calls(h,how); base(h,how); continue; }
    IGES* m=new IGES; D h(m,true); D h2(m,false); 
    EXPECT(h.m_valid&&h.m_hasParent,"not-valid-after-create","%s: handle of a new entity is not valid",how.c_str());
    if(w==6) h2.Attach(h.m_entity);
    if(w==1||w==6) m->DelEntity(h.m_entity);
    if(w==2) m->Clear();
    if(w==3){ delete m; m=0; EXPECT(!h.m_hasParent,"valid-after-destroy","%s: parent flag stays valid",how.c_str()); }
    E*keep=h.m_entity; if(w==4) h.Detach();
    EXPECT(!h.m_valid&&!h2.m_valid,"valid-after-destroy","%s: handle stays valid",how.c_str());
    calls(h,how); base(h,how); if(w==6) calls(h2,how);
    at(how+" recreate"); 
    bool ok=h.NewEntity(); ev(); EXPECT(ok&&h.m_valid&&h.m_entity,"recreate","%s: a handle cannot create a new entity after its object is gone",how.c_str());
    if(ok){ if(w==3){ EXPECT(h.m_entity->GetParentIGES()==0,"recreate-parent","%s: the new entity belongs to a vanished model",how.c_str()); delete h.m_entity; EXPECT(!h.m_valid,"valid-after-destroy","%s recreate",how.c_str()); }
      else { EXPECT(h.m_entity!=keep||w!=4,"recreate","%s",how.c_str()); if(m){ size_t n=0; for(E*e:m->entities) n+=e==h.m_entity; EXPECT(n==1,"recreate-owned","%s: the new entity is listed %d times in the model",how.c_str(),(int)n); } } }
    delete m;
    EXPECT(w==3||(!h.m_valid&&!h.m_hasParent),"valid-after-destroy","%s: handle stays valid after the model is gone",how.c_str());
  }
}
static void gone(Rng&r,int n){
#define G(T) gone1<DLL_IGES_ENTITY_##T>(T,calls_DLL_IGES_ENTITY_##T,#T)
  G(100);G(102);G(104);G(110);G(120);G(122);G(124);G(126);G(128);G(142);G(144);G(308);G(314);G(406);G(408);
#define GC(T) { IGES m; DLL_IGES_ENTITY_##T h(&m,true); m.DelEntity(h.m_entity); calls_DLL_IGES_CURVE(h,"curve " #T); }
  GC(100) GC(102) GC(104) GC(110) GC(126)
}
static void gone2(Rng&r,int n){
  { DLL_IGES h; IGES*m=h.m_iges; at("DLL_IGES setup"); delete m; EXPECT(!h.m_valid,"valid-after-destroy","DLL_IGES stays valid"); calls_DLL_IGES(h,"model-destroyed"); }
  { DLL_MCAD_SEGMENT h(true); delete h.m_segment; EXPECT(!h.m_valid,"valid-after-destroy","DLL_MCAD_SEGMENT stays valid"); calls_DLL_MCAD_SEGMENT(h,"deleted"); }
  { DLL_MCAD_SEGMENT h(false); calls_DLL_MCAD_SEGMENT(h,"never-attached"); }
  { DLL_MCAD_SEGMENT h(true); auto*s=h.m_segment; h.Detach(); calls_DLL_MCAD_SEGMENT(h,"detached"); delete s; }
  { DLL_MCAD_OUTLINE h(true); delete h.m_outline; EXPECT(!h.m_valid,"valid-after-destroy","DLL_MCAD_OUTLINE stays valid"); calls_DLL_MCAD_OUTLINE(h,"deleted"); }
  { DLL_MCAD_OUTLINE h(false); calls_DLL_MCAD_OUTLINE(h,"never-attached"); }
  { DLL_MCAD_OUTLINE h(true); auto*s=h.m_outline; h.Detach(); calls_DLL_MCAD_OUTLINE(h,"detached"); delete s; }
  { DLL_IGES_GEOM_PCB h(true); delete h.m_outline; EXPECT(!h.m_valid,"valid-after-destroy","DLL_IGES_GEOM_PCB stays valid"); calls_DLL_IGES_GEOM_PCB(h,"deleted"); calls_DLL_MCAD_OUTLINE(h,"pcb deleted"); }
  { DLL_IGES_GEOM_PCB h(false); calls_DLL_IGES_GEOM_PCB(h,"never-attached"); calls_DLL_MCAD_OUTLINE(h,"pcb never-attached"); }
}
template<class H,class O> struct Hist { // H handle, O object
  std::vector<H*> hs; std::vector<O*> os; std::map<H*,O*> at_; std::string log;
  std::function<O*(H*)> raw; std::function<bool*(H*)> flag; 
  void check(const char*k){
    for(auto h:hs){ O*o=at_[h]; EXPECT(*flag(h)==(o!=0),strf("flag:%s",k),"handle %s but its flag says %s after %s",o?"attached":"not attached",*flag(h)?"valid":"invalid",log.c_str()); if(o) EXPECT(raw(h)==o,strf("object:%s",k),"handle holds another object after %s",log.c_str()); }
    for(auto o:os){ std::multiset<bool*> a(o->m_validFlags.begin(),o->m_validFlags.end()),b; for(auto h:hs) if(at_[h]==o) b.insert(flag(h)); EXPECT(a==b,strf("registered:%s",k),"object lists %d flags, %d handles are attached after %s",(int)a.size(),(int)b.size(),log.c_str()); }
  }
};
static void hist_entity(Rng&r,int n){
  for(int c=0;c<n;++c){ at("entity history"); IGES m,m2; Hist<DLL_IGES_ENTITY,E> x; x.raw=[](DLL_IGES_ENTITY*h){return h->m_entity;}; x.flag=[](DLL_IGES_ENTITY*h){return &h->m_valid;};
    for(int i=0;i<3;++i) x.os.push_back(mk(m,110));
    for(int i=0;i<4;++i){ auto h=new DLL_IGES_ENTITY_110(r.flip()?&m:(IGES*)0,false); x.hs.push_back(h); x.at_[h]=0; }
    for(int s=0;s<14;++s){ int hi=r.below((int)x.hs.size()); auto h=x.hs[hi]; int oi=r.below((int)x.os.size()); E*o=x.os[oi]; int op=r.below(7);
      x.log+=strf("%d(h%d,o%d) ",op,hi,oi); at(strf("entity history %s",x.log.c_str())); ev();
      if(op<=1){ bool k=h->Attach(o); EXPECT(k,"attach-refused","attach to a live entity of the right type refused: %s",x.log.c_str()); x.at_[h]=o; }
      else if(op==2){ h->Detach(); x.at_[h]=0; }
      else if(op==3){ if(h->NewEntity()){ E*e=h->m_entity; if(!e->GetParentIGES()) m.AddEntity(e); x.os.push_back(e); x.at_[h]=e; } }
      else if(op==4&&x.os.size()>1){ EXPECT(m.DelEntity(o),"delete-refused","%s",x.log.c_str()); x.os.erase(x.os.begin()+oi); for(auto&p:x.at_) if(p.second==o) p.second=0; }
      else if(op==5&&x.hs.size()>1){ x.hs.erase(x.hs.begin()+hi); x.at_.erase(h); delete h; }
      else if(op==6){ E*w=mk(m,100); E*was=x.at_[h]; bool k=h->Attach(w); EXPECT(!k,"attach-wrong-type","a line handle attaches to an arc"); (void)was; m.DelEntity(w); }
      x.check("entity"); }
    at("entity history end "+x.log); for(auto o:std::vector<E*>(x.os)) (void)o; m.Clear(); for(auto h:x.hs){ EXPECT(!h->m_valid,"valid-after-clear","handle stays valid after Clear: %s",x.log.c_str()); delete h; }
  } }
template<class H,class O> static void hist_mcad(Rng&r,int n,const char*nm,std::function<O*(H*)> raw){
  for(int c=0;c<n;++c){ Hist<H,O> x; x.raw=raw; x.flag=[](H*h){return &h->m_valid;};
    for(int i=0;i<2;++i) x.os.push_back(new O);
    for(int i=0;i<3;++i){ auto h=new H(false); x.hs.push_back(h); x.at_[h]=0; }
    for(int s=0;s<12;++s){ int hi=r.below((int)x.hs.size()); auto h=x.hs[hi]; int oi=r.below((int)x.os.size()); O*o=x.os[oi]; int op=r.below(4);
      x.log+=strf("%d(h%d,o%d) ",op,hi,oi); at(strf("%s history %s",nm,x.log.c_str())); ev();
      if(op<=1){ bool was=x.at_[h]!=0; bool k=h->Attach(o); if(k) x.at_[h]=o; EXPECT(k||was,strf("attach-refused:%s",nm),"%s",x.log.c_str()); }
      else if(op==2){ h->Detach(); x.at_[h]=0; }
      else if(op==3&&x.os.size()>1){ delete o; x.os.erase(x.os.begin()+oi); for(auto&p:x.at_) if(p.second==o) p.second=0; }
      x.check(nm); }
    for(auto o:x.os) delete o; for(auto h:x.hs){ EXPECT(!h->m_valid,strf("valid-after-destroy:%s",nm),"%s",x.log.c_str()); delete h; } } }
static void hists(Rng&r,int n){
  hist_mcad<DLL_MCAD_SEGMENT,MCAD_SEGMENT>(r,n/2,"segment",[](DLL_MCAD_SEGMENT*h){return h->m_segment;});
  hist_mcad<DLL_MCAD_OUTLINE,MCAD_OUTLINE>(r,n/2,"outline",[](DLL_MCAD_OUTLINE*h){return h->m_outline;});
}
static void hist_model(Rng&r,int n){
  for(int c=0;c<n;++c){ at("model history"); Hist<DLL_IGES,IGES> x; x.raw=[](DLL_IGES*h){return h->m_iges;}; x.flag=[](DLL_IGES*h){return &h->m_valid;};
    for(int i=0;i<3;++i){ auto h=new DLL_IGES; x.hs.push_back(h); x.at_[h]=h->m_iges; x.os.push_back(h->m_iges); }
    std::vector<DLL_IGES_ENTITY*> es; std::map<DLL_IGES_ENTITY*,IGES*> par; for(int i=0;i<3;++i){ IGES*p=x.os[r.below(3)]; auto e=new DLL_IGES_ENTITY_110(p,true); es.push_back(e); par[e]=p; }
    for(int s=0;s<10&&!x.os.empty();++s){ int hi=r.below((int)x.hs.size()); auto h=x.hs[hi]; int oi=r.below((int)x.os.size()); IGES*o=x.os[oi]; int op=r.below(3);
      x.log+=strf("%d(h%d,o%d) ",op,hi,oi); at("model history "+x.log); ev();
      if(op==0&&x.hs.size()<6){ auto h3=new DLL_IGES; x.hs.push_back(h3); x.at_[h3]=h3->m_iges; x.os.push_back(h3->m_iges); }
      else if(op==1&&x.hs.size()>1){ IGES*q=x.at_[h]; x.hs.erase(x.hs.begin()+hi); x.at_.erase(h); delete h; // a model handle owns its model
        if(q){ x.os.erase(std::find(x.os.begin(),x.os.end(),q)); for(auto e:es) if(par[e]==q) par[e]=0; } }
      else if(op==2&&x.os.size()>1){ delete o; x.os.erase(x.os.begin()+oi); for(auto&p:x.at_) if(p.second==o) p.second=0; for(auto e:es) if(par[e]==o){ par[e]=0; EXPECT(!e->m_valid&&!e->m_hasParent,"entity-handle-after-model","an entity handle stays valid after its model is gone: %s",x.log.c_str()); } }
      for(auto h2:x.hs){ IGES*q=x.at_[h2]; EXPECT(h2->m_valid==(q!=0),"flag:model","%s",x.log.c_str()); }
      for(auto o2:x.os){ std::multiset<bool*> a(o2->m_validFlags.begin(),o2->m_validFlags.end()),b; for(auto h2:x.hs) if(x.at_[h2]==o2) b.insert(&h2->m_valid); for(auto e:es) if(par[e]==o2) b.insert(&e->m_hasParent); EXPECT(a==b,"registered:model","model lists %d flags, %d handles are attached after %s",(int)a.size(),(int)b.size(),x.log.c_str()); }
      for(auto e:es) EXPECT(e->m_hasParent==(par[e]!=0),"parent-flag","%s",x.log.c_str());
    }
    for(auto h:x.hs) delete h; for(auto e:es){ EXPECT(!e->m_valid&&!e->m_hasParent,"entity-handle-after-model","an entity handle stays valid after its model is gone: %s",x.log.c_str()); delete e; } } }
int main(int c,char**v){ return run_groups(c,v,{{"gone",gone},{"gone2",gone2},{"hist_entity",hist_entity},{"hist_mcad",hists},{"hist_model",hist_model}}); }
