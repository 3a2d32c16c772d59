// C07: parent lists agree with the references actually held, in every history
#include "graph.h"
// --- raw add / delete of parent references on one entity against an ordered set
static void refs(Rng&r,int n){
  for(int it=0;it<n/4+3;++it) for(int t:TYPES){
    IGES m; E*x=mk(m,t); if(!x){ fail(strf("new:%d",t),strf("NewEntity(%d) refused",t)); continue; }
    std::vector<E*> par; for(int i=0;i<6;++i) par.push_back(mk(m,r.flip()?308:142));
    std::vector<E*> want; std::string h=strf("type %d:",t);
    for(int s=0;s<14;++s){ E*p=par[r.below(6)]; bool in=std::find(want.begin(),want.end(),p)!=want.end(); int idx=std::find(par.begin(),par.end(),p)-par.begin();
      if(r.below(5)<3){ bool dup=r.flip(); h+=strf(" add(P%d)",idx); at(h); bool ok=x->addReference(p,dup); ev();
        EXPECT(ok,strf("addReference[%d]",t),"%s -> refused",h.c_str()); EXPECT(dup==in,strf("addReference[%d]:dup",t),"%s -> duplicate flag %d, expected %d",h.c_str(),dup,in); if(!in) want.push_back(p);
      } else { h+=strf(" del(P%d)",idx); at(h); bool ok=x->delReference(p); ev(); EXPECT(ok==in,strf("delReference[%d]:ret",t),"%s -> %d, expected %d",h.c_str(),ok,in); if(in) want.erase(std::find(want.begin(),want.end(),p)); }
      bool same=x->refs.size()==want.size()&&std::equal(want.begin(),want.end(),x->refs.begin()); EXPECT(same,strf("refs[%d]",t),"%s : parent list has %zu entries, expected %zu in order",h.c_str(),x->refs.size(),want.size());
      EXPECT(x->getNRefs()==(int)want.size(),strf("getNRefs[%d]",t),"%s: getNRefs %d",h.c_str(),(int)x->getNRefs());
    }
    x->refs.clear();
  }
}
// --- unlink of the directory entry references and optional entities
static void unlink_de(Rng&r,int n){
  for(int it=0;it<n/4+3;++it) for(int t:TYPES){ if(t==180||t==504||t==508) {} 
    IGES m; E*x=mk(m,t); if(!x) continue; E*c[7]; for(auto&p:c) p=mk(m,406); E*t4=mk(m,124),*c3=mk(m,314); std::vector<E*> ex; for(int i=0;i<r.below(4);++i) ex.push_back(mk(m,406));
    unsigned mask=r.below(128); bool dup;
    E**f[5]={&x->pStructure,&x->pLineFontPattern,&x->pLevel,&x->pView,&x->pLabelAssoc}; 
    for(int i=0;i<5;++i) if(mask>>i&1){ *f[i]=c[i]; c[i]->addReference(x,dup); }
    if(mask>>5&1&&t!=124){ x->pTransform=(IGES_ENTITY_124*)t4; t4->addReference(x,dup);} if(mask>>6&1&&t!=314){ x->pColor=(IGES_ENTITY_314*)c3; c3->addReference(x,dup);} 
    for(auto e:ex) x->AddOptionalEntity(e);
    std::vector<E*> before=children(x); if(before.empty()) continue;
    E*v=before[r.below(before.size())]; at(strf("unlink[%d] mask %u of child %d of %zu",t,mask,(int)(std::find(before.begin(),before.end(),v)-before.begin()),before.size()));
    bool ok=x->unlink(v); ev(); auto want=before; want.erase(std::find(want.begin(),want.end(),v)); auto now=children(x);
    EXPECT(ok,strf("unlink[%d]:ret",t),"unlink of a referenced directory entity (field mask %u, %zu optional) refused",mask,ex.size());
    EXPECT(now==want,strf("unlink[%d]",t),"field mask %u, %zu optional: %zu references left, expected %zu",mask,ex.size(),now.size(),want.size());
    // restore consistency before the model is destroyed
    v->refs.remove(x);
  }
}
struct World { IGES m; std::vector<E*> live; std::string h; Rng*r;
  int id(E*p){ for(size_t i=0;i<ids.size();++i) if(ids[i]==p) return i; return -1; } std::vector<E*> ids;
  E* add(int t){ E*p= t==110? mkcurve(m,*r):mk(m,t); if(p){ live.push_back(p); ids.push_back(p); } return p; }
  E* pick(){ return live.empty()?0:live[r->below(live.size())]; }
  E* pick(int t){ if(live.size()<14&&!r->below(4)) return add(t); for(int i=0;i<8;++i){ E*p=pick(); if(p&&p->GetEntityType()==t) return p; } return add(t); }
  void kill(E*p){ h+=strf(" delete(%d:E%d)",p->GetEntityType(),id(p)); at(h); for(auto&q:ids) if(q==p) q=0; live.erase(std::find(live.begin(),live.end(),p)); m.DelEntity(p); }
  bool check(const char*key){
    std::set<E*> alive(live.begin(),live.end());
    for(E*p:live){ int t=p->GetEntityType();
      auto ch=children(p);
      for(E*c:ch){ if(!alive.count(c)){ fail(strf("%s:dangling[%d]",key,t),h+strf(" : E%d (type %d) refers to a destroyed entity",id(p),t)); return false; }
        int k=std::count(c->refs.begin(),c->refs.end(),p); if(k!=1){ fail(strf("%s:parent[%d->%d]",key,t,c->GetEntityType()),h+strf(" : E%d (type %d) refers to E%d (type %d) but is recorded as its parent %d times",id(p),t,id(c),c->GetEntityType(),k)); return false; } }
      for(E*q:p->refs){ if(!alive.count(q)){ fail(strf("%s:deadparent[%d]",key,t),h+strf(" : E%d (type %d) lists a destroyed entity as parent",id(p),t)); return false; }
        auto qc=children(q); if(!std::count(qc.begin(),qc.end(),p)){ fail(strf("%s:stale[%d->%d]",key,q->GetEntityType(),t),h+strf(" : E%d (type %d) lists E%d (type %d) as parent, which does not refer to it",id(p),t,id(q),q->GetEntityType())); return false; } }
    } return true; }
};
static bool op(World&w,int which){ Rng&r=*w.r; E*x=0,*c=0; 
  auto lg=[&](const char*n){ w.h+=strf(" %s(E%d,E%d)",n,w.id(x),w.id(c)); at(w.h); };
  static const int CV[]={100,104,110,126};
  auto curve=[&]{ return w.pick(r.below(3)?110:CV[r.below(4)]); };
  switch(which){
    case 0: x=w.pick(102); c=curve(); lg("102.AddSegment"); ((IGES_ENTITY_102*)x)->AddSegment(dynamic_cast<IGES_CURVE*>(c)); break;
    case 1: x=w.pick(142); c=r.below(4)?w.pick(r.flip()?128:122):0; lg("142.SetSPTR"); ((IGES_ENTITY_142*)x)->SetSPTR(c); break;
    case 2: x=w.pick(142); c=r.below(4)?curve():0; lg("142.SetBPTR"); ((IGES_ENTITY_142*)x)->SetBPTR(c); break;
    case 3: x=w.pick(142); c=r.below(4)?curve():0; lg("142.SetCPTR"); ((IGES_ENTITY_142*)x)->SetCPTR(c); break;
    case 4: x=w.pick(144); c=r.below(4)?w.pick(r.flip()?128:120):0; lg("144.SetPTS"); ((IGES_ENTITY_144*)x)->SetPTS(c); break;
    case 5: x=w.pick(144); c=r.below(4)?w.pick(142):0; lg("144.SetPTO"); ((IGES_ENTITY_144*)x)->SetPTO((IGES_ENTITY_142*)c); break;
    case 6: x=w.pick(144); c=w.pick(142); lg("144.AddPTI"); ((IGES_ENTITY_144*)x)->AddPTI((IGES_ENTITY_142*)c); break;
    case 7: x=w.pick(144); c=w.pick(142); lg("144.DelPTI"); ((IGES_ENTITY_144*)x)->DelPTI((IGES_ENTITY_142*)c); break;
    case 8: x=w.pick(308); c=w.pick(); if(!c||c==x) return false; lg("308.AddDE"); ((IGES_ENTITY_308*)x)->AddDE(c); break;
    case 9: x=w.pick(308); c=w.pick(); if(!c) return false; lg("308.DelDE"); ((IGES_ENTITY_308*)x)->DelDE(c); break;
    case 10: x=w.pick(408); c=r.below(4)?w.pick(308):0; lg("408.SetDE"); ((IGES_ENTITY_408*)x)->SetDE((IGES_ENTITY_308*)c); break;
    case 11: x=w.pick(120); c=r.below(4)?w.pick(110):0; lg("120.SetL"); ((IGES_ENTITY_120*)x)->SetL(dynamic_cast<IGES_CURVE*>(c)); break;
    case 12: x=w.pick(120); c=r.below(4)?curve():0; lg("120.SetC"); ((IGES_ENTITY_120*)x)->SetC(dynamic_cast<IGES_CURVE*>(c)); break;
    case 13: x=w.pick(122); c=r.below(4)?curve():0; lg("122.SetDE"); { IGES_CURVE*cc=dynamic_cast<IGES_CURVE*>(c); ((IGES_ENTITY_122*)x)->SetDE(cc);} break;
    case 14: x=w.pick(164); c=r.below(4)?curve():0; lg("164.SetClosedCurve"); ((IGES_ENTITY_164*)x)->SetClosedCurve(dynamic_cast<IGES_CURVE*>(c)); break;
    case 15: x=w.pick(108); return false;
    case 16: x=w.pick(180); c=w.pick(r.flip()?154:164); lg("180.AddArg"); ((IGES_ENTITY_180*)x)->AddArg(c); break;
    case 17: x=w.pick(180); if(r.below(4)) { lg("180.AddOp"); ((IGES_ENTITY_180*)x)->AddOp(BTREE_OPERATOR(1)); } else { lg("180.ClearNodes"); ((IGES_ENTITY_180*)x)->ClearNodes(); } break;
    case 18: { x=w.pick(504); c=curve(); E*v1=w.pick(502),*v2=r.flip()?v1:w.pick(502); for(E*v:{v1,v2}) if(((IGES_ENTITY_502*)v)->GetNVertices()==0) ((IGES_ENTITY_502*)v)->AddVertex(MCAD_POINT(1,2,3)); lg(strf("504.AddEdge[E%d,E%d]",w.id(v1),w.id(v2)).c_str()); ((IGES_ENTITY_504*)x)->AddEdge(c,(IGES_ENTITY_502*)v1,r.below(6)?1:9,(IGES_ENTITY_502*)v2,r.below(6)?1:0); break; }
    case 19: { x=w.pick(508); c=w.pick(r.flip()?504:502); LOOP_DATA*d=new LOOP_DATA; d->data=c; d->isVertex=false; d->idx=1; std::string pc; for(int i=r.below(3);i>0;--i){ E*k=curve(); d->pcurves.push_back(new LOOP_PAIR(true,k)); pc+=strf("E%d ",w.id(k)); } lg(strf("508.AddEdge[pc %s]",pc.c_str()).c_str()); LOOP_DATA*dd=d; if(!((IGES_ENTITY_508*)x)->AddEdge(dd)){ for(auto q:d->pcurves) delete q; delete d; } break; }
    case 20: x=w.pick(510); c=w.pick(508); lg("510.AddBound"); ((IGES_ENTITY_510*)x)->AddBound((IGES_ENTITY_508*)c); break;
    case 21: x=w.pick(510); c=r.below(4)?w.pick(128):0; if(!c) return false; lg("510.SetSurface"); ((IGES_ENTITY_510*)x)->SetSurface(c); break;
    case 22: x=w.pick(); c=r.below(4)?w.pick(124):0; if(!x||x==c) return false; lg("SetTransform"); x->SetTransform(c); break;
    case 23: x=w.pick(); c=r.below(4)?w.pick(314):0; if(!x||x==c) return false; lg("SetColor"); x->SetColor(c); break;
    case 24: x=w.pick(); c=w.pick(406); if(!x||x==c) return false; lg("AddOptionalEntity"); x->AddOptionalEntity(c); break;
    case 25: x=w.pick(); c=w.pick(406); if(!x||x==c) return false; lg("DelOptionalEntity"); x->DelOptionalEntity(c); break;
    default: { E*p=w.pick(); if(!p) return false; w.kill(p); }
  } return true; }
static void run(Rng&r,int cases,std::vector<int> ops,const char*key){
  for(int it=0;it<cases;++it){ World*w=new World; w->r=&r; int steps=4+r.below(16); int sel=ops.empty()?-1:ops[it%ops.size()];
    for(int s=0;s<steps;++s){ int o= sel<0? r.below(30): (r.below(4)?sel:(r.below(3)?28:r.below(26))); if(!op(*w,o)) continue; ev(); if(!w->check(key)) break; }
    w->h+=" clear"; at(w->h); if(r.flip()){ while(!w->live.empty()){ w->kill(w->pick()); if(!w->check(key)) break; } }
    at(w->h); bool broken=!w->check(key); if(!broken) delete w; }
}
// --- directory numbers become references: afterwards an entity is recorded as parent exactly where it refers to something
static void assoc(Rng&r,int n){
  static const int T[]={102,120,122,142,144,164,408,308,186,510,514,504,508,180}; static const int POOL[]={100,110,110,126,128,142,142,142,154,308,308,314,406,502,508,508,510,510,514,514,120,122,124};
  for(int it=0;it<n/2+10;++it) for(int t:T){ World*w=new World; w->r=&r; E*x=0; int nx=r.below(8); for(int i=0;i<8+r.below(8);++i){ if(i==nx) x=w->add(t); int k=POOL[r.below(23)]; E*p=w->add(k); if(k==502) ((IGES_ENTITY_502*)p)->AddVertex(MCAD_POINT(1,2,3)); if(k==514) p->form=1; if(k==100){ IGES_ENTITY_100*a=(IGES_ENTITY_100*)p; a->xStart=a->xEnd=1; a->yStart=a->yEnd=0; a->xCenter=a->yCenter=0; } }
    std::vector<E*> V(w->m.entities.begin(),w->m.entities.end()); int N=V.size();
    auto pick=[&](std::initializer_list<int> ok)->int{ for(int i=0;i<40;++i){ int k=r.below(N); if(V[k]==x) continue; if(!r.below(25)) return 2*k+1; for(int o:ok) if(V[k]->GetEntityType()==o) return 2*k+1; } return 2*r.below(N+1)+1; };
    auto curve=[&]{ return pick({100,110,126}); }; std::vector<int> want; w->h=strf("associate of a type %d entity (number %d of %d), numbers",t,nx,N);
    auto put=[&](int k){ want.push_back(k); w->h+=strf(" %d(type %d)",k,k/2<N?V[k/2]->GetEntityType():-1); return k; };
    auto many=[&](std::initializer_list<int> ok,auto add){ std::set<int> s; for(int i=1+r.below(3);i>0;--i){ int k=pick(ok); if(!s.insert(k).second&&r.below(5)) continue; add(put(k)); } };
    switch(t){
      case 102: many({100,110,126},[&](int k){ ((IGES_ENTITY_102*)x)->iCurves.push_back(k); }); break;
      case 120: { auto a=(IGES_ENTITY_120*)x; a->iL=put(pick({110})); a->iC=put(curve()); break; }
      case 122: ((IGES_ENTITY_122*)x)->iDE=put(curve()); break;
      case 142: { auto a=(IGES_ENTITY_142*)x; a->iSPTR=put(pick({128,120,122})); a->iBPTR=r.below(4)?curve():0; if(a->iBPTR) put(a->iBPTR); a->iCPTR=r.below(4)?curve():0; if(a->iCPTR) put(a->iCPTR); break; }
      case 144: { auto a=(IGES_ENTITY_144*)x; a->iPTS=put(pick({128,120,122})); a->iPTO=put(pick({142})); many({142},[&](int k){ a->iPTI.push_back(k); }); break; }
      case 164: ((IGES_ENTITY_164*)x)->iPtr=put(pick({100})); break;
      case 408: ((IGES_ENTITY_408*)x)->iDE=put(pick({308})); break;
      case 308: many({100,110,142,154},[&](int k){ ((IGES_ENTITY_308*)x)->iDE.push_back(k); }); break;
      case 186: { auto a=(IGES_ENTITY_186*)x; a->mDEshell=put(pick({514})); many({514},[&](int k){ a->ivoids.push_back({k,r.flip()}); }); break; }
      case 510: { auto a=(IGES_ENTITY_510*)x; a->mDEsurf=put(pick({128,120,122})); many({508},[&](int k){ a->iloops.push_back(k); }); break; }
      case 514: many({510},[&](int k){ ((IGES_ENTITY_514*)x)->ifaces.push_back({k,r.flip()}); }); break;
      case 504: for(int i=1+r.below(3);i>0;--i){ EDGE_DEIDX e; e.curv=put(curve()); e.svp=put(pick({502})); e.sv=1+!r.below(9); e.tvp=put(r.flip()?e.svp:pick({502})); e.tv=1+!r.below(9); ((IGES_ENTITY_504*)x)->deItems.push_back(e); } break;
      case 508: for(int i=1+r.below(3);i>0;--i){ LOOP_DEIDX e; e.isVertex=true; e.data=put(pick({502})); e.idx=1+!r.below(9); e.orientFlag=r.flip(); for(int j=r.below(3);j>0;--j) e.pcurves.push_back({r.flip(),put(curve())}); ((IGES_ENTITY_508*)x)->deItems.push_back(e); } break;
      case 180: { auto a=(IGES_ENTITY_180*)x; many({154,164,514},[&](int k){ auto b=new BTREE_NODE; b->op=false; b->val=k; b->pEnt=0; a->nodes.push_back(b); }); break; }
    }
    at(w->h); ev(); bool ok=x->associate(&V); w->h+=ok?" : accepted":" : refused"; bool good=w->check("assoc");
    if(ok&&t!=504&&t!=508&&t!=102){ std::vector<E*> names; for(int k:want) names.push_back(k/2<N?V[k/2]:0); auto ch=children(x); std::vector<E*> a=names,b(ch.begin(),ch.end()); std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); EXPECT(a==b,strf("assoc[%d]",t),"%s: %zu references for %zu numbers",w->h.c_str(),b.size(),a.size()); }
    if(ok&&t==142){ auto a=(IGES_ENTITY_142*)x; auto f=[&](int i,E*p){ return i? p==V[i/2]:!p; }; EXPECT(f(a->iSPTR,a->SPTR)&&f(a->iBPTR,a->BPTR)&&f(a->iCPTR,a->CPTR),"assoc:order[142]","%s: a reference is not the one its number names",w->h.c_str()); }
    if(ok&&t==144){ auto a=(IGES_ENTITY_144*)x; EXPECT(a->PTS==V[a->iPTS/2]&&a->PTO==V[a->iPTO/2],"assoc:order[144]","%s: a reference is not the one its number names",w->h.c_str()); }
    if(ok&&t==120){ auto a=(IGES_ENTITY_120*)x; EXPECT(a->L==V[a->iL/2]&&a->C==V[a->iC/2],"assoc:order[120]","%s: a reference is not the one its number names",w->h.c_str()); }
    if(good){ w->h+=", then deletion one by one"; at(w->h); while(!w->live.empty()){ w->kill(r.flip()?w->live[0]:w->pick()); if(!w->check("assoc")) break; } if(w->live.empty()) delete w; }
  }
}
static std::vector<int> seqv(int a,int b){ std::vector<int> v; for(int i=a;i<=b;++i) v.push_back(i); return v; }
int main(int c,char**v){ 
  std::vector<Group> g={{"refs",refs},{"unlink_de",unlink_de},{"assoc",assoc},{"mixed",[](Rng&r,int n){ run(r,n*2,{},"mixed"); }}};
  static std::vector<std::string> names; for(int i=0;i<26;++i) names.push_back(strf("op%d",i));
  for(int i=0;i<26;++i) g.push_back({names[i].c_str(),[i](Rng&r,int n){ run(r,n/3+4,{i},"op"); }});
  return run_groups(c,v,g); }
