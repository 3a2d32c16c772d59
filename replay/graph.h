// Which entities does an entity refer to?  (used by the reference and model checks)
#pragma once
#include "common.h"
#include <core/iges.h>
#include <core/all_entities.h>
#include <geom/mcad_elements.h>
typedef IGES_ENTITY E;
static const int TYPES[]={100,102,104,110,120,122,124,126,128,142,144,154,164,180,186,308,314,406,408,502,504,508,510,514};
static inline std::vector<E*> children(E*x){
  std::vector<E*> r; auto a=[&](E*p){ if(p) r.push_back(p); };
  a(x->pStructure); a(x->pLineFontPattern); a(x->pLevel); a(x->pView); a((E*)x->pTransform); a(x->pLabelAssoc); a((E*)x->pColor);
  for(auto p:x->extras) if(p->GetEntityType()!=402) a(p);
  switch(x->GetEntityType()){
    case 102: for(auto p:((IGES_ENTITY_102*)x)->curves) a((E*)p); break;
    case 108: a((E*)((IGES_ENTITY_108*)x)->PTR); break;
    case 120: a((E*)((IGES_ENTITY_120*)x)->L); a((E*)((IGES_ENTITY_120*)x)->C); break;
    case 122: a((E*)((IGES_ENTITY_122*)x)->DE); break;
    case 142: a(((IGES_ENTITY_142*)x)->SPTR); a(((IGES_ENTITY_142*)x)->BPTR); a(((IGES_ENTITY_142*)x)->CPTR); break;
    case 144: a(((IGES_ENTITY_144*)x)->PTS); a((E*)((IGES_ENTITY_144*)x)->PTO); for(auto p:((IGES_ENTITY_144*)x)->PTI) a((E*)p); break;
    case 164: a((E*)((IGES_ENTITY_164*)x)->PTR); break;
    case 180: for(auto p:((IGES_ENTITY_180*)x)->nodes) if(!p->op) a(p->pEnt); break;
    case 186: a((E*)((IGES_ENTITY_186*)x)->mshell); for(auto&p:((IGES_ENTITY_186*)x)->mvoids) a((E*)p.first); break;
    case 308: for(auto p:((IGES_ENTITY_308*)x)->DE) a(p); break;
    case 408: a((E*)((IGES_ENTITY_408*)x)->DE); break;
    case 504: { std::vector<E*> v; auto once=[&](E*q){ if(std::find(v.begin(),v.end(),q)==v.end()) v.push_back(q); }; for(auto&p:((IGES_ENTITY_504*)x)->edges){ a((E*)p.curv); once((E*)p.svp); once((E*)p.tvp); } for(E*q:v) a(q); break; } // the uses counted in `vertices` must follow these
    case 508: { std::vector<E*> v; for(auto p:((IGES_ENTITY_508*)x)->edges){ if(std::find(v.begin(),v.end(),p->data)==v.end()) v.push_back(p->data); for(auto q:p->pcurves) a(q->curve); } for(E*q:v) a(q); break; }
    case 510: a(((IGES_ENTITY_510*)x)->msurface); for(auto p:((IGES_ENTITY_510*)x)->mloops) a((E*)p); break;
    case 514: for(auto&p:((IGES_ENTITY_514*)x)->mfaces) a((E*)p.first); break;
  }
  return r;
}
static inline E* mk(IGES&m,int t){ E*p=0; m.NewEntity(t,&p); return p; }
// a curve is a usable segment once it has points
static inline E* mkcurve(IGES&m,Rng&r,MCAD_POINT*from=0){
  double x0=from?from->x:r.range(-5,5),y0=from?from->y:r.range(-5,5);
  E*p=mk(m,110); IGES_ENTITY_110*l=(IGES_ENTITY_110*)p; l->X1=x0;l->Y1=y0;l->Z1=0;l->X2=x0+r.range(1,9);l->Y2=y0+r.range(1,5);l->Z2=0; if(from){from->x=l->X2;from->y=l->Y2;} return p;
}
