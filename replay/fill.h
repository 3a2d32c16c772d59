// fills an entity of each type with random values; the list of its parameters in the standard order
#pragma once
#include "graph.h"
// a parameter: integer, real or text; `in`: where it is found after reading (null: checked elsewhere)
struct Tok { char k; long i; double r; std::string s; std::string n; };
typedef std::vector<Tok> Toks;
static void I(Toks&t,const char*n,long v){ t.push_back({'i',v,0,"",n}); }
static void R(Toks&t,const char*n,double v){ t.push_back({'r',0,v,"",n}); }
static void S(Toks&t,const char*n,const std::string&v){ t.push_back({'s',0,0,v,n}); }
static int de(E*p){ return p?p->sequenceNumber:0; }
static double val(Rng&r){ switch(r.below(8)){ case 0: return 0; case 1: return r.range(-9,9); case 2: return r.range(-99999,99999)/8.0; case 3: return r.real(-1e6,1e6); case 4: return r.real(-0.01,0.01); case 5: return r.range(-9999999,9999999)/1000.0; case 6: return r.real(-1,1); default: return r.real(-2000,2000); } }
static std::string name(Rng&r){ std::string s; int n=r.below(4)==0?r.range(60,200):r.range(1,20); for(int i=0;i<n;++i) s+=(char)(r.below(5)==0?",;H 12"[r.below(6)]:r.range(32,126)); return s; }
struct Pool { std::vector<E*> v; E*pick(Rng&r){ return v[r.below(v.size())]; } };
// fills x, returns the standard parameter list; nulls of optional pointers are 0
static Toks fill(E*x,Rng&r,Pool&P,double mr){
  Toks t; int ty=x->entityType; I(t,"type number",ty); auto p=[&]{ return P.pick(r); }; auto rr=[&](double&d,const char*n){ d=val(r); R(t,n,d); };
  int N=r.below(6)==0?r.range(20,60):r.range(1,6);
  switch(ty){
  case 100:{ auto*e=(IGES_ENTITY_100*)x; rr(e->zOffset,"ZT"); rr(e->xCenter,"X1"); rr(e->yCenter,"Y1"); double R0=r.real(1,500),a=r.real(0,6),b=r.real(0,6); e->xStart=e->xCenter+R0*cos(a); e->yStart=e->yCenter+R0*sin(a); e->xEnd=e->xCenter+R0*cos(b); e->yEnd=e->yCenter+R0*sin(b); R(t,"X2",e->xStart);R(t,"Y2",e->yStart);R(t,"X3",e->xEnd);R(t,"Y3",e->yEnd); break; }
  case 102:{ auto*e=(IGES_ENTITY_102*)x; I(t,"N",N); for(int i=0;i<N;++i){ E*c=p(); e->curves.push_back((IGES_CURVE*)c); I(t,"DE",de(c)); } break; }
  case 104:{ auto*e=(IGES_ENTITY_104*)x; double*d[]={&e->A,&e->B,&e->C,&e->D,&e->E,&e->F,&e->ZT,&e->X1,&e->Y1,&e->X2,&e->Y2}; static const char*n[]={"A","B","C","D","E","F","ZT","X1","Y1","X2","Y2"}; for(int i=0;i<11;++i) rr(*d[i],n[i]); break; }
  case 110:{ auto*e=(IGES_ENTITY_110*)x; double*d[]={&e->X1,&e->Y1,&e->Z1,&e->X2,&e->Y2,&e->Z2}; static const char*n[]={"X1","Y1","Z1","X2","Y2","Z2"}; for(int i=0;i<6;++i) rr(*d[i],n[i]); break; }
  case 120:{ auto*e=(IGES_ENTITY_120*)x; E*a=p(),*b=p(); e->L=(IGES_ENTITY_110*)a; e->C=(IGES_CURVE*)b; I(t,"L",de(a)); I(t,"C",de(b)); rr(e->SA,"SA"); rr(e->TA,"TA"); break; }
  case 122:{ auto*e=(IGES_ENTITY_122*)x; E*a=p(); e->DE=(IGES_CURVE*)a; I(t,"DE",de(a)); rr(e->LX,"LX"); rr(e->LY,"LY"); rr(e->LZ,"LZ"); break; }
  case 124:{ auto*e=(IGES_ENTITY_124*)x; double*T[3]={&e->T.T.x,&e->T.T.y,&e->T.T.z}; for(int i=0;i<3;++i){ for(int j=0;j<3;++j) rr(e->T.R.v[i][j],"R"); rr(*T[i],"T"); } break; }
  case 126:{ auto*e=(IGES_ENTITY_126*)x; int K=N,M=r.range(1,4); bool rat=r.flip(); e->K=K;e->M=M;e->PROP1=r.below(2);e->PROP2=r.below(2);e->PROP3=rat?0:1;e->PROP4=r.below(2); e->nKnots=K+M+2; e->nCoeffs=K+1; e->knots=new double[e->nKnots]; int st=rat?4:3; e->coeffs=new double[e->nCoeffs*st];
    I(t,"K",K);I(t,"M",M);I(t,"PROP1",e->PROP1);I(t,"PROP2",e->PROP2);I(t,"PROP3",e->PROP3);I(t,"PROP4",e->PROP4); double k=0; for(int i=0;i<e->nKnots;++i){ k+=r.below(4)*r.real(0,1); e->knots[i]=k; R(t,"knot",k); }
    for(int i=0;i<=K;++i){ double w=rat?r.real(0.25,5):1; if(rat) e->coeffs[i*4+3]=w; R(t,"weight",w); } for(int i=0;i<=K;++i) for(int j=0;j<3;++j) rr(e->coeffs[i*st+j],"control point"); rr(e->V0,"V0"); rr(e->V1,"V1");
    if(e->PROP1){ double a=r.real(0,6),b=r.real(0,6); e->vnorm.x=cos(a)*cos(b); e->vnorm.y=cos(a)*sin(b); e->vnorm.z=sin(a); } else { e->vnorm.x=e->vnorm.y=0; e->vnorm.z=1; } R(t,"normal x",e->vnorm.x);R(t,"normal y",e->vnorm.y);R(t,"normal z",e->vnorm.z); break; }
  case 128:{ auto*e=(IGES_ENTITY_128*)x; int K1=r.range(1,5),K2=r.range(1,5),M1=r.range(1,4),M2=r.range(1,4); bool rat=r.flip(); e->K1=K1;e->K2=K2;e->M1=M1;e->M2=M2;e->PROP1=r.below(2);e->PROP2=r.below(2);e->PROP3=rat?0:1;e->PROP4=r.below(2);e->PROP5=r.below(2); e->nKnots1=K1+M1+2;e->nKnots2=K2+M2+2;e->nCoeffs1=K1+1;e->nCoeffs2=K2+1; int C=(K1+1)*(K2+1),st=rat?4:3; e->knots1=new double[e->nKnots1];e->knots2=new double[e->nKnots2];e->coeffs=new double[C*st];
    I(t,"K1",K1);I(t,"K2",K2);I(t,"M1",M1);I(t,"M2",M2);I(t,"PROP1",e->PROP1);I(t,"PROP2",e->PROP2);I(t,"PROP3",e->PROP3);I(t,"PROP4",e->PROP4);I(t,"PROP5",e->PROP5); double k=0; for(int i=0;i<e->nKnots1;++i){ k+=r.below(4)*r.real(0,1); e->knots1[i]=k; R(t,"first knots",k); } k=-1; for(int i=0;i<e->nKnots2;++i){ k+=r.below(4)*r.real(0,1); e->knots2[i]=k; R(t,"second knots",k); }
    for(int i=0;i<C;++i){ double w=rat?r.real(0.25,5):1; if(rat) e->coeffs[i*4+3]=w; R(t,"weight",w); } for(int i=0;i<C;++i) for(int j=0;j<3;++j) rr(e->coeffs[i*st+j],"control point"); rr(e->U0,"U0");rr(e->U1,"U1");rr(e->V0,"V0");rr(e->V1,"V1"); break; }
  case 142:{ auto*e=(IGES_ENTITY_142*)x; e->CRTN=r.below(4); E*a=p(); int w=r.below(3); E*b=w==1?0:p(),*c=w==2?0:p(); e->SPTR=a;e->BPTR=b;e->CPTR=c; e->PREF=r.below(4); I(t,"CRTN",e->CRTN);I(t,"SPTR",de(a));I(t,"BPTR",de(b));I(t,"CPTR",de(c));I(t,"PREF",!c?1:!b?2:e->PREF); break; }
  case 144:{ auto*e=(IGES_ENTITY_144*)x; E*a=p(),*o=r.below(3)?p():0; N=r.below(4)==0?0:N; e->PTS=a; e->PTO=(IGES_ENTITY_142*)o; e->N1=o?1:0; I(t,"PTS",de(a));I(t,"N1",e->N1);I(t,"N2",N);I(t,"PTO",de(o)); for(int i=0;i<N;++i){ E*c=p(); e->PTI.push_back((IGES_ENTITY_142*)c); I(t,"PTI",de(c)); } e->N2=N; break; }
  case 154:{ auto*e=(IGES_ENTITY_154*)x; e->H=r.real(0.5,900);e->R=r.real(0.5,900); R(t,"H",e->H);R(t,"R",e->R); rr(e->X1,"X1");rr(e->Y1,"Y1");rr(e->Z1,"Z1"); double a=r.real(0,6),b=r.real(0,6); e->I1=cos(a)*cos(b);e->J1=cos(a)*sin(b);e->K1=sin(a); R(t,"I1",e->I1);R(t,"J1",e->J1);R(t,"K1",e->K1); break; }
  case 164:{ auto*e=(IGES_ENTITY_164*)x; E*c=p(); e->PTR=(IGES_CURVE*)c; e->L=r.real(0.5,900); double a=r.real(0,6),b=r.real(0,6); e->I1=cos(a)*cos(b);e->J1=cos(a)*sin(b);e->K1=sin(a); I(t,"PTR",de(c));R(t,"L",e->L);R(t,"I1",e->I1);R(t,"J1",e->J1);R(t,"K1",e->K1); break; }
  case 180:{ auto*e=(IGES_ENTITY_180*)x; int A=r.range(2,N+2); std::vector<int> q; int depth=0,left=A; while(left||depth>1){ if(left&&(depth<2||r.flip())){ q.push_back(0); ++depth; --left; } else { q.push_back(r.range(1,3)); --depth; } } I(t,"N",q.size()); for(int o:q){ auto*n=new BTREE_NODE; n->op=o>0; if(o){ n->val=o; I(t,"operation",o); } else { E*c=p(); n->pEnt=c; n->val=0; I(t,"operand",-de(c)); } e->nodes.push_back(n); } break; }
  case 186:{ auto*e=(IGES_ENTITY_186*)x; E*s=p(); N=r.below(3)==0?0:N; e->mshell=(IGES_ENTITY_514*)s; e->mSOF=r.flip(); I(t,"SHELL",de(s));I(t,"SOF",e->mSOF);I(t,"N",N); for(int i=0;i<N;++i){ E*c=p(); bool f=r.flip(); e->mvoids.push_back(std::make_pair((IGES_ENTITY_514*)c,f)); I(t,"VOID",de(c));I(t,"VOF",f); } break; }
  case 308:{ auto*e=(IGES_ENTITY_308*)x; e->NAME=name(r); I(t,"DEPTH",0); S(t,"NAME",e->NAME); I(t,"N",N); for(int i=0;i<N;++i){ E*c=P.v[0]; do c=p(); while(c->entityType==408); e->DE.push_back(c); I(t,"DE",de(c)); } break; }
  case 314:{ auto*e=(IGES_ENTITY_314*)x; e->red=r.real(0,100);e->green=r.real(0,100);e->blue=r.below(4)?r.range(0,100):0; bool nm=r.flip(); e->cname=nm?name(r):""; R(t,"red",e->red);R(t,"green",e->green);R(t,"blue",e->blue); if(nm||!x->extras.empty()) S(t,"name",e->cname); break; }
  case 406:{ auto*e=(IGES_ENTITY_406*)x; e->form=15; *(std::string*)e->data=name(r); I(t,"NP",1); S(t,"name",*(std::string*)e->data); break; }
  case 408:{ auto*e=(IGES_ENTITY_408*)x; E*c=p(); e->DE=(decltype(e->DE))c; I(t,"DE",de(c)); rr(e->X,"X");rr(e->Y,"Y");rr(e->Z,"Z"); e->S=r.real(0.1,10); R(t,"S",e->S); break; }
  case 502:{ auto*e=(IGES_ENTITY_502*)x; I(t,"N",N); for(int i=0;i<N;++i){ MCAD_POINT q; q.x=val(r);q.y=val(r);q.z=val(r); e->vertices.push_back(q); R(t,"X",q.x);R(t,"Y",q.y);R(t,"Z",q.z); } break; }
  case 504:{ auto*e=(IGES_ENTITY_504*)x; I(t,"N",N); for(int i=0;i<N;++i){ EDGE_DATA d; E*c=p(),*a=p(),*b=p(); d.curv=(decltype(d.curv))c; d.svp=(decltype(d.svp))a; d.tvp=(decltype(d.tvp))b; d.sv=r.range(1,500); d.tv=r.range(1,500); e->edges.push_back(d); I(t,"CURV",de(c));I(t,"SVP",de(a));I(t,"SV",d.sv);I(t,"TVP",de(b));I(t,"TV",d.tv); } break; }
  case 508:{ auto*e=(IGES_ENTITY_508*)x; I(t,"N",N); for(int i=0;i<N;++i){ auto*d=new LOOP_DATA; E*c=p(); d->isVertex=r.flip();d->data=c;d->idx=r.range(1,900);d->orientFlag=r.flip(); int K=r.below(3); I(t,"TYPE",d->isVertex);I(t,"EDGE",de(c));I(t,"NDX",d->idx);I(t,"OF",d->orientFlag);I(t,"K",K); for(int k=0;k<K;++k){ E*q=p(); bool f=r.flip(); d->pcurves.push_back(new LOOP_PAIR(f,q)); I(t,"ISOP",f);I(t,"PCURV",de(q)); } e->edges.push_back(d); } break; }
  case 510:{ auto*e=(IGES_ENTITY_510*)x; E*s=p(); e->msurface=s; e->mOuterLoopFlag=r.flip(); I(t,"SURF",de(s));I(t,"N",N);I(t,"OF",e->mOuterLoopFlag); for(int i=0;i<N;++i){ E*c=p(); e->mloops.push_back((IGES_ENTITY_508*)c); I(t,"LOOP",de(c)); } break; }
  case 514:{ auto*e=(IGES_ENTITY_514*)x; I(t,"N",N); for(int i=0;i<N;++i){ E*c=p(); bool f=r.flip(); e->mfaces.push_back(std::make_pair((IGES_ENTITY_510*)c,f)); I(t,"FACE",de(c));I(t,"OF",f); } break; }
  }
  return t; }
