// C08: the list of entities of a model in random histories; destruction is observed through attached flags
#include "graph.h"
#include <api/all_api_entities.h>
struct Rec_ { E*p; int type; bool flag; bool owned; };
static void hist(Rng&r,int n){
  static const int ALL[]={100,102,104,110,120,122,124,126,128,142,144,154,164,180,186,308,314,406,408,502,504,508,510,514,108,106,112,116,118,140,304,402,404,410,700,0,99,-5,10000};
  for(int it=0;it<n;++it){
    IGES*m=new IGES; std::list<Rec_> recs; std::vector<E*> want; std::string h;
    auto rec=[&](E*p)->Rec_*{ for(auto&q:recs) if(q.p==p&&q.flag) return &q; return 0; };
    auto check=[&](const char*key){
      bool same=m->entities==want; EXPECT(same,key,"%s : the model lists %zu entities, expected %zu (or another order)",h.c_str(),m->entities.size(),want.size());
      for(auto&q:recs){ bool in=std::find(want.begin(),want.end(),q.p)!=want.end(); if(in) EXPECT(q.flag,std::string(key)+":destroyed","%s : listed entity of type %d has been destroyed",h.c_str(),q.type); else if(q.owned) EXPECT(!q.flag,std::string(key)+":leak","%s : entity of type %d left the model without being destroyed",h.c_str(),q.type); }
      return same; };
    bool ok=true;
    for(int s=0;s<30&&ok;++s){ int op=r.below(12); ev();
      if(op<5){ int t=ALL[r.below(39)]; h+=strf(" New(%d)",t); at(h); E*p=(E*)&h; bool b=m->NewEntity(t,&p);
        bool sup=std::find(TYPES,TYPES+24,t)!=TYPES+24;
        EXPECT(b&&p,strf("NewEntity[%d]",t),"%s : refused",h.c_str()); if(!b||!p) break;
        if(sup) EXPECT(p->GetEntityType()==t,strf("NewEntity[%d]:type",t),"%s : reports type %d",h.c_str(),p->GetEntityType());
        else EXPECT(p->GetEntityType()==0&&((IGES_ENTITY_NULL*)p)->GetTrueEntityType()==t,strf("NewEntity[other]:type"),"%s : placeholder reports %d/%d",h.c_str(),p->GetEntityType(),((IGES_ENTITY_NULL*)p)->GetTrueEntityType());
        EXPECT(p->parent==m,strf("NewEntity[%d]:parent",t),"%s : entity does not belong to the model",h.c_str()); EXPECT(p->refs.empty()&&children(p).empty(),strf("NewEntity[%d]:refs",t),"%s : has references",h.c_str());
        recs.push_back({p,p->GetEntityType(),false,true}); p->AttachValidFlag(&recs.back().flag); want.push_back(p); ok=check("NewEntity:list"); }
      else if(op==5){ h+=" New(NULL)"; at(h); EXPECT(!m->NewEntity(110,NULL),"NewEntity:null","%s : accepted",h.c_str()); ok=check("NewEntity:null:list"); }
      else if(op==6){ h+=" Add(NULL)"; at(h); EXPECT(!m->AddEntity((E*)0),"AddEntity:null","%s : accepted",h.c_str()); ok=check("AddEntity:null:list"); }
      else if(op==7){ // add a listed or a free entity
        if(r.flip()&&!want.empty()){ E*p=want[r.below(want.size())]; h+=strf(" AddAgain(%d)",p->GetEntityType()); at(h); EXPECT(m->AddEntity(p),"AddEntity:again","%s : refused",h.c_str()); ok=check("AddEntity:again:list"); }
        else { E*p=new IGES_ENTITY_110(0); h+=" Add(110)"; at(h); EXPECT(m->AddEntity(p),"AddEntity","%s : refused",h.c_str()); EXPECT(p->parent==m,"AddEntity:parent","%s : parent not set",h.c_str()); recs.push_back({p,110,false,true}); p->AttachValidFlag(&recs.back().flag); want.push_back(p); ok=check("AddEntity:list"); } }
      else if(op<10){ // delete or unlink a listed / unknown / null entity
        bool del=r.flip(); int w=r.below(6); const char*nm=del?"DelEntity":"UnlinkEntity";
        if(w==0){ h+=strf(" %s(NULL)",nm); at(h); bool b=del?m->DelEntity((E*)0):m->UnlinkEntity((E*)0); EXPECT(!b,std::string(nm)+":null","%s : accepted",h.c_str()); ok=check((std::string(nm)+":null:list").c_str()); }
        else if(w==1){ IGES_ENTITY_110 x(0); h+=strf(" %s(unlisted)",nm); at(h); bool b= del? m->DelEntity(&x):m->UnlinkEntity(&x); EXPECT(!b,std::string(nm)+":unlisted","%s : accepted",h.c_str()); ok=check((std::string(nm)+":unlisted:list").c_str()); }
        else if(!want.empty()){ size_t i=r.below(3)==0?(r.flip()?0:want.size()-1):r.below(want.size()); E*p=want[i]; h+=strf(" %s(#%zu of %zu, type %d)",nm,i,want.size(),p->GetEntityType()); at(h); Rec_*q=rec(p);
          if(!del&&q) q->owned=false; want.erase(want.begin()+i); bool b=del?m->DelEntity(p):m->UnlinkEntity(p); EXPECT(b,nm,"%s : refused",h.c_str()); ok=check((std::string(nm)+":list").c_str());
          if(!del&&q){ EXPECT(q->flag,"UnlinkEntity:destroyed","%s : entity destroyed",h.c_str()); if(q->flag){ if(r.flip()){ h+=" AddBack"; at(h); q->owned=true; m->AddEntity(p); want.push_back(p); ok=check("AddEntity:back"); } else delete p; } } } }
      else if(op==10){ // references between entities, so that some are orphaned when culled
        E*a=0,*b=0; for(auto p:want){ if(p->GetEntityType()==308) a=p; if(p->GetEntityType()==110&&r.flip()) b=p; } if(a&&b){ h+=" 308.AddDE(110)"; at(h); ((IGES_ENTITY_308*)a)->AddDE(b); ok=check("AddDE:list"); } }
      else { bool v=r.below(3)==0; h+=v?" Cull(vicious)":" Cull"; at(h); if(r.below(4)) continue;
        m->Cull(v); std::vector<E*> rest; for(auto p:want) if(rec(p)) rest.push_back(p); 
        for(auto p:rest) EXPECT(std::find(m->entities.begin(),m->entities.end(),p)!=m->entities.end(),"Cull:lost","%s : a surviving entity of type %d is not listed any more",h.c_str(),p->GetEntityType());
        want=rest; ok=check("Cull:list"); for(auto p:want) EXPECT(!p->isOrphaned()||1,"Cull:orphan","%s",h.c_str()); }
      if(h.size()>1500) h="..."+h.substr(h.size()-1200);
    }
    if(r.flip()){ h+=" Clear"; at(h); want.clear(); m->Clear(); check("Clear:list"); }
    h+=" ~IGES"; at(h); std::vector<E*> none; delete m; for(auto&q:recs) EXPECT(!q.flag||!q.owned,"~IGES:leak","%s : entity of type %d survives the model",h.c_str(),q.type);
  }
}
template<class H> static void hcase(DLL_IGES&d,IGES*m,int t,const char*nm){
  size_t n0=m->entities.size(); at(nm); H h(d,true); ev();
  EXPECT(m->entities.size()==n0+1&&m->entities.back()->GetEntityType()==t,std::string("handle:")+nm,"constructing %s with create adds %zd entities, the last of type %d",nm,(ssize_t)(m->entities.size()-n0),m->entities.empty()?-1:m->entities.back()->GetEntityType());
  EXPECT(h.GetRawPtr()==m->entities.back(),std::string("handle:raw:")+nm,"%s refers to another entity",nm);
  E*old=h.GetRawPtr(); EXPECT(h.NewEntity(),std::string("handle:new:")+nm,"%s::NewEntity fails",nm); EXPECT(m->entities.size()==n0+2&&m->entities.back()->GetEntityType()==t&&h.GetRawPtr()==m->entities.back()&&h.GetRawPtr()!=old,std::string("handle:new2:")+nm,"%s::NewEntity: %zd entities",nm,(ssize_t)(m->entities.size()-n0));
  IGES*raw=m; EXPECT(d.DelEntity(&h)&&m->entities.size()==n0+1&&h.GetRawPtr()==0,std::string("handle:del:")+nm,"%s: DelEntity",nm); (void)raw; }
static void api(Rng&r,int n){
  for(int it=0;it<3;++it){ DLL_IGES d; IGES*m=d.GetRawPtr();
#define T(x) hcase<DLL_IGES_ENTITY_##x>(d,m,x,"DLL_IGES_ENTITY_" #x)
    T(100);T(102);T(104);T(110);T(120);T(122);T(124);T(126);T(128);T(142);T(144);T(308);T(314);T(406);T(408);
    for(int t:TYPES){ DLL_IGES_ENTITY*h=0; size_t n0=m->entities.size(); at(strf("DLL_IGES::NewEntity(%d)",t)); bool ok=d.NewAPIEntity((IGES_ENTITY_TYPE)t,h); ev(); if(ok){ EXPECT(h&&m->entities.size()==n0+1&&h->GetRawPtr()==m->entities.back()&&m->entities.back()->GetEntityType()==t,strf("DLL_IGES::NewEntity[%d]",t),"type %d: wrong entity",t); delete h; EXPECT(m->entities.size()==n0+1,strf("DLL_IGES::NewEntity[%d]:gone",t),"entity of type %d vanished with its handle",t); } else EXPECT(m->entities.size()==n0,strf("DLL_IGES::NewEntity[%d]:refused",t),"refused but %zd entities added",(ssize_t)(m->entities.size()-n0)); }
  }
}
int main(int c,char**v){ return run_groups(c,v,{{"history",hist},{"handles",api}}); }
