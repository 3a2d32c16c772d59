// C06: parameter data written by each entity type is tokenised independently, compared with the standard order of the
// type, and read back into a fresh entity of the type
#include "graph.h"
#include <core/iges_io.h>
static std::string dir_(){ static std::string d; if(d.empty()){ char t[]="/tmp/replayc06XXXXXX"; d=mkdtemp(t); } return d; }
struct Clean { std::string f,d; Clean(){ d=dir_(); f=d+"/pd.txt"; } ~Clean(){ unlink(f.c_str()); rmdir(d.c_str()); } };
#include "fill.h"
// the parameters an entity holds after reading, in the standard order
static Toks readback(E*x,bool nm){
  Toks t; int ty=x->entityType; I(t,"type number",ty);
  switch(ty){
  case 100:{ auto*e=(IGES_ENTITY_100*)x; R(t,"ZT",e->zOffset);R(t,"X1",e->xCenter);R(t,"Y1",e->yCenter);R(t,"X2",e->xStart);R(t,"Y2",e->yStart);R(t,"X3",e->xEnd);R(t,"Y3",e->yEnd); break; }
  case 102:{ auto*e=(IGES_ENTITY_102*)x; I(t,"N",e->iCurves.size()); for(int i:e->iCurves) I(t,"DE",i); break; }
  case 104:{ auto*e=(IGES_ENTITY_104*)x; double d[]={e->A,e->B,e->C,e->D,e->E,e->F,e->ZT,e->X1,e->Y1,e->X2,e->Y2}; static const char*n[]={"A","B","C","D","E","F","ZT","X1","Y1","X2","Y2"}; for(int i=0;i<11;++i) R(t,n[i],d[i]); break; }
  case 110:{ auto*e=(IGES_ENTITY_110*)x; R(t,"X1",e->X1);R(t,"Y1",e->Y1);R(t,"Z1",e->Z1);R(t,"X2",e->X2);R(t,"Y2",e->Y2);R(t,"Z2",e->Z2); break; }
  case 120:{ auto*e=(IGES_ENTITY_120*)x; I(t,"L",e->iL);I(t,"C",e->iC);R(t,"SA",e->SA);R(t,"TA",e->TA); break; }
  case 122:{ auto*e=(IGES_ENTITY_122*)x; I(t,"DE",e->iDE);R(t,"LX",e->LX);R(t,"LY",e->LY);R(t,"LZ",e->LZ); break; }
  case 124:{ auto*e=(IGES_ENTITY_124*)x; double T[3]={e->T.T.x,e->T.T.y,e->T.T.z}; for(int i=0;i<3;++i){ for(int j=0;j<3;++j) R(t,"R",e->T.R.v[i][j]); R(t,"T",T[i]); } break; }
  case 126:{ auto*e=(IGES_ENTITY_126*)x; bool rat=e->PROP3==0; int st=rat?4:3; I(t,"K",e->K);I(t,"M",e->M);I(t,"PROP1",e->PROP1);I(t,"PROP2",e->PROP2);I(t,"PROP3",e->PROP3);I(t,"PROP4",e->PROP4); for(int i=0;i<e->nKnots;++i) R(t,"knot",e->knots[i]); for(int i=0;i<e->nCoeffs;++i) R(t,"weight",rat?e->coeffs[4*i+3]:1); for(int i=0;i<e->nCoeffs;++i) for(int j=0;j<3;++j) R(t,"control point",e->coeffs[st*i+j]); R(t,"V0",e->V0);R(t,"V1",e->V1); R(t,"normal x",e->vnorm.x);R(t,"normal y",e->vnorm.y);R(t,"normal z",e->vnorm.z); break; }
  case 128:{ auto*e=(IGES_ENTITY_128*)x; bool rat=e->PROP3==0; int st=rat?4:3,C=e->nCoeffs1*e->nCoeffs2; I(t,"K1",e->K1);I(t,"K2",e->K2);I(t,"M1",e->M1);I(t,"M2",e->M2);I(t,"PROP1",e->PROP1);I(t,"PROP2",e->PROP2);I(t,"PROP3",e->PROP3);I(t,"PROP4",e->PROP4);I(t,"PROP5",e->PROP5); for(int i=0;i<e->nKnots1;++i) R(t,"first knots",e->knots1[i]); for(int i=0;i<e->nKnots2;++i) R(t,"second knots",e->knots2[i]); for(int i=0;i<C;++i) R(t,"weight",rat?e->coeffs[4*i+3]:1); for(int i=0;i<C;++i) for(int j=0;j<3;++j) R(t,"control point",e->coeffs[st*i+j]); R(t,"U0",e->U0);R(t,"U1",e->U1);R(t,"V0",e->V0);R(t,"V1",e->V1); break; }
  case 142:{ auto*e=(IGES_ENTITY_142*)x; I(t,"CRTN",e->CRTN);I(t,"SPTR",e->iSPTR);I(t,"BPTR",e->iBPTR);I(t,"CPTR",e->iCPTR);I(t,"PREF",e->PREF); break; }
  case 144:{ auto*e=(IGES_ENTITY_144*)x; I(t,"PTS",e->iPTS);I(t,"N1",e->N1);I(t,"N2",e->N2);I(t,"PTO",e->iPTO); for(int i:e->iPTI) I(t,"PTI",i); break; }
  case 154:{ auto*e=(IGES_ENTITY_154*)x; R(t,"H",e->H);R(t,"R",e->R);R(t,"X1",e->X1);R(t,"Y1",e->Y1);R(t,"Z1",e->Z1);R(t,"I1",e->I1);R(t,"J1",e->J1);R(t,"K1",e->K1); break; }
  case 164:{ auto*e=(IGES_ENTITY_164*)x; I(t,"PTR",e->iPtr);R(t,"L",e->L);R(t,"I1",e->I1);R(t,"J1",e->J1);R(t,"K1",e->K1); break; }
  case 180:{ auto*e=(IGES_ENTITY_180*)x; I(t,"N",e->nodes.size()); for(auto n:e->nodes) if(n->op) I(t,"operation",n->val); else I(t,"operand",-n->val); break; }
  case 186:{ auto*e=(IGES_ENTITY_186*)x; I(t,"SHELL",e->mDEshell);I(t,"SOF",e->mSOF);I(t,"N",e->ivoids.size()); for(auto&v:e->ivoids){ I(t,"VOID",v.first);I(t,"VOF",v.second); } break; }
  case 308:{ auto*e=(IGES_ENTITY_308*)x; I(t,"DEPTH",e->DEPTH);S(t,"NAME",e->NAME);I(t,"N",e->iDE.size()); for(int i:e->iDE) I(t,"DE",i); break; }
  case 314:{ auto*e=(IGES_ENTITY_314*)x; R(t,"red",e->red);R(t,"green",e->green);R(t,"blue",e->blue); if(nm) S(t,"name",e->cname); break; }
  case 406:{ auto*e=(IGES_ENTITY_406*)x; I(t,"NP",1);S(t,"name",*(std::string*)e->data); break; }
  case 408:{ auto*e=(IGES_ENTITY_408*)x; I(t,"DE",e->iDE);R(t,"X",e->X);R(t,"Y",e->Y);R(t,"Z",e->Z);R(t,"S",e->S); break; }
  case 502:{ auto*e=(IGES_ENTITY_502*)x; I(t,"N",e->vertices.size()); for(auto&q:e->vertices){ R(t,"X",q.x);R(t,"Y",q.y);R(t,"Z",q.z); } break; }
  case 504:{ auto*e=(IGES_ENTITY_504*)x; I(t,"N",e->deItems.size()); for(auto&d:e->deItems){ I(t,"CURV",d.curv);I(t,"SVP",d.svp);I(t,"SV",d.sv);I(t,"TVP",d.tvp);I(t,"TV",d.tv); } break; }
  case 508:{ auto*e=(IGES_ENTITY_508*)x; I(t,"N",e->deItems.size()); for(auto&d:e->deItems){ I(t,"TYPE",d.isVertex);I(t,"EDGE",d.data);I(t,"NDX",d.idx);I(t,"OF",d.orientFlag);I(t,"K",d.pcurves.size()); for(auto&q:d.pcurves){ I(t,"ISOP",q.first);I(t,"PCURV",q.second); } } break; }
  case 510:{ auto*e=(IGES_ENTITY_510*)x; I(t,"SURF",e->mDEsurf);I(t,"N",e->iloops.size());I(t,"OF",e->mOuterLoopFlag); for(int i:e->iloops) I(t,"LOOP",i); break; }
  case 514:{ auto*e=(IGES_ENTITY_514*)x; I(t,"N",e->ifaces.size()); for(auto&q:e->ifaces){ I(t,"FACE",q.first);I(t,"OF",q.second); } break; }
  }
  return t; }
// forget the references set directly, so that destruction does not touch them
static void wipe(E*x){
  x->extras.clear();
  switch(x->entityType){
  case 102: ((IGES_ENTITY_102*)x)->curves.clear(); break;
  case 120: ((IGES_ENTITY_120*)x)->L=0; ((IGES_ENTITY_120*)x)->C=0; break;
  case 122: ((IGES_ENTITY_122*)x)->DE=0; break;
  case 142:{ auto*e=(IGES_ENTITY_142*)x; e->SPTR=e->BPTR=e->CPTR=0; break; }
  case 144:{ auto*e=(IGES_ENTITY_144*)x; e->PTS=0;e->PTO=0;e->PTI.clear(); break; }
  case 164: ((IGES_ENTITY_164*)x)->PTR=0; break;
  case 180:{ auto*e=(IGES_ENTITY_180*)x; for(auto n:e->nodes) delete n; e->nodes.clear(); break; }
  case 186:{ auto*e=(IGES_ENTITY_186*)x; e->mshell=0;e->mvoids.clear(); break; }
  case 308: ((IGES_ENTITY_308*)x)->DE.clear(); break;
  case 408: ((IGES_ENTITY_408*)x)->DE=0; break;
  case 504: ((IGES_ENTITY_504*)x)->edges.clear(); break;
  case 508:{ auto*e=(IGES_ENTITY_508*)x; for(auto d:e->edges){ for(auto q:d->pcurves) delete q; delete d; } e->edges.clear(); break; }
  case 510: ((IGES_ENTITY_510*)x)->msurface=0; ((IGES_ENTITY_510*)x)->mloops.clear(); break;
  case 514: ((IGES_ENTITY_514*)x)->mfaces.clear(); break;
  } }
static bool same(const Tok&a,const Tok&b,double mr){ if(a.k!=b.k) return false; if(a.k=='i') return a.i==b.i; if(a.k=='s') return a.s==b.s; double d=fabs(a.r-b.r); return d<=mr*0.01+fabs(a.r)*4e-15; }
static std::string show(const Tok&t){ return t.k=='i'?strf("%ld",t.i):t.k=='r'?strf("%.17g",t.r):"'"+t.s.substr(0,300)+"'"; }
static std::string show(const Toks&v){ std::string s; for(auto&t:v){ s+=show(t)+" "; if(s.size()>700){ s+="..."; break; } } return s; }
struct PoolModel { IGES m; Pool P; };
static void numbers(IGES&m,Rng&r){ std::vector<int> u; for(size_t i=0;i<m.entities.size();++i){ m.entities[i]->sequenceNumber=0; } std::set<int> s; for(auto e:m.entities){ int q; do q=1+2*r.range(0,r.below(3)?400:4999998); while(!s.insert(q).second); e->sequenceNumber=q; } }
static void rt(Rng&r,int n,int only){
  Clean cl;
  for(int it=0;it<n*4;++it){
    int ty=only?only:TYPES[it%24]; IGES m; static const double MR[]={1e-2,1e-3,1e-4,1e-5,1e-6,1e-8}; double mr=MR[r.below(6)]; m.globalData.minResolution=mr;
    if(r.below(4)==0){ m.globalData.pdelim=r.flip()?'/':'|'; m.globalData.rdelim=r.flip()?'\\':'!'; }
    Pool P; for(int i=0;i<6;++i) P.v.push_back(mk(m,110)); E*x=mk(m,ty); if(!x) continue; std::vector<E*> ex; int na=0,nb=0; bool hx=r.below(3)==0;
    if(hx){ na=r.below(3); nb=r.below(3); if(!na&&!nb) nb=1; for(int i=0;i<na;++i){ E*q=mk(m,110); q->entityType=r.flip()?402:r.flip()?212:312; ex.push_back(q); } for(int i=0;i<nb;++i){ ex.push_back(mk(m,406)); } }
    numbers(m,r); for(E*q:ex) x->extras.push_back(q); if(hx&&ex.size()>1&&r.flip()) std::swap(x->extras[0],x->extras[ex.size()-1]);
    Toks A,B; for(E*q:x->extras){ if(q->entityType==406) I(B,"property",de(q)); else I(A,"associativity",de(q)); }
    Toks t=fill(x,r,P,mr); size_t body=t.size(); if(hx){ I(t,"number of associativities",na); for(auto&a:A) t.push_back(a); if(nb){ I(t,"number of properties",nb); for(auto&b:B) t.push_back(b); } }
    std::string com; int nc=r.below(3); for(int i=0;i<nc;++i){ std::string c; for(int k=r.range(1,150);k>0;--k) c+=(char)r.range(32,126); x->comments.push_back(c); for(size_t o=0;o<c.size();o+=64){ std::string l=c.substr(o,64); l.append(64-l.size(),' '); com+=l; } }
    int idx0=r.below(3)?r.range(1,5000):r.range(1,9990000),idx=idx0; char pd=m.globalData.pdelim,rd=m.globalData.rdelim;
    std::string ctx=strf("type %d, resolution %g, delimiters %c%c, DE %d, index %d, extras %d+%d, comments %d: ",ty,mr,pd,rd,de(x),idx0,na,nb,nc)+show(t); std::string K=strf("%d:",ty); at(ctx); ev();
    auto done=[&]{ wipe(x); for(E*q:ex) if(q->entityType!=406) q->entityType=110; };
    if(!x->format(idx)){ fail(K+"refused","a valid entity is not written: "+ctx); done(); continue; }
    std::string out=x->pdout; EXPECT(out.size()%81==0&&!out.empty(),K+"records","not a sequence of records of 80 columns: %s",ctx.c_str()); size_t L=out.size()/81; std::string txt;
    EXPECT(x->parameterData==idx0&&x->paramLineCount==(int)L&&idx==idx0+(int)L,K+"lines","start %d, lines %d, next %d for %zu records from %d: %s",x->parameterData,x->paramLineCount,idx,L,idx0,ctx.c_str());
    for(size_t i=0;i<L;++i){ std::string q=out.substr(81*i,81); EXPECT(q.substr(64,8)==strf("%8d",de(x))&&q.substr(72,8)==strf("P%7d",idx0+(int)i)&&q[80]=='\n',K+"columns","record '%s' of %s",q.c_str(),ctx.c_str()); txt+=q.substr(0,64); }
    // tokens of the record, independently
    size_t p=0,k=0; bool end=false,bad=false;
    for(;p<txt.size()&&!end;++k){ Tok w=k<t.size()?t[k]:Tok{'?',0,0,"",""}; std::string g; 
      if(w.k=='s'){ size_t d=p; while(d<txt.size()&&isdigit((unsigned char)txt[d])) ++d; size_t len=d>p?atol(txt.substr(p,d-p).c_str()):0; if(d==p){ g=""; } else if(d>=txt.size()||txt[d]!='H'){ fail(K+"text:"+w.n,"not a string constant at '"+txt.substr(p,40)+"': "+ctx); bad=true; break; } else { g=txt.substr(d+1,len); p=d+1+len; } EXPECT(g==w.s,K+"value:"+w.n,"%s is written as '%s': %s",w.n.c_str(),g.c_str(),ctx.c_str()); }
      else { size_t d=p; while(d<txt.size()&&txt[d]!=pd&&txt[d]!=rd) ++d; g=txt.substr(p,d-p); p=d; if(k<t.size()){ char*e; bool okv; 
          if(w.k=='i'){ long v=strtol(g.c_str(),&e,10); okv=*e==0&&v==w.i&&(!g.empty()||(w.i==0&&k>=body)); } else { std::string h=g; for(char&c:h) if(c=='D'||c=='d') c='e'; Tok z=w; z.r=strtod(h.c_str(),&e); okv=*e==0&&!g.empty()&&same(w,z,mr)&&g.find_first_of(".eEdD")!=std::string::npos; }
          EXPECT(okv,K+"value:"+w.n,"parameter %zu (%s) is '%s', expected %s: %s",k,w.n.c_str(),g.c_str(),show(w).c_str(),ctx.c_str()); } }
      if(p>=txt.size()||(txt[p]!=pd&&txt[p]!=rd)){ fail(K+"delimiter","parameter "+strf("%zu",k)+" is not followed by a delimiter: "+ctx); bad=true; break; }
      end=txt[p]==rd; ++p; }
    if(!bad){ EXPECT(end,K+"unterminated","no record delimiter: %s",ctx.c_str()); EXPECT(k==t.size(),K+"count","%zu parameters written, expected %zu: %s",k,t.size(),ctx.c_str());
      size_t e=(p+63)/64*64; EXPECT(txt.find_first_not_of(' ',p)>=e||e<=p,K+"tail","text after the record delimiter: '%s': %s",txt.substr(p,e-p).c_str(),ctx.c_str()); EXPECT(txt.substr(std::min(e,txt.size()))==com,K+"comments","comments written as '%s': %s",txt.substr(std::min(e,txt.size())).c_str(),ctx.c_str()); }
    { std::ofstream o(cl.f.c_str(),std::ios::trunc|std::ios::binary); EXPECT(x->writePD(o),K+"writePD","writePD fails: %s",ctx.c_str()); }
    // read back
    E*y=mk(m,ty); y->sequenceNumber=x->sequenceNumber; y->parameterData=x->parameterData; y->paramLineCount=x->paramLineCount; std::ifstream in(cl.f.c_str(),std::ios::binary); int sv=x->parameterData-1,s0=sv;
    at("read "+ctx); ev(); bool ok=y->readPD(in,sv); EXPECT(ok,K+"read-refused","a written entity is not read back: %s",ctx.c_str());
    if(ok){ EXPECT(sv-s0==(int)L,K+"read-lines","%d of %zu records read: %s",sv-s0,L,ctx.c_str()); bool nm=ty==314&&body==5; Toks b=readback(y,nm); 
      EXPECT(b.size()==body,K+"read-count","%zu parameters read, %zu written: %s",b.size(),body,ctx.c_str());
      for(size_t i=0;i<std::min(body,b.size());++i){ Tok w=t[i]; EXPECT(same(w,b[i],mr),K+"read:"+w.n,"%s (parameter %zu) reads back as %s, written %s: %s",w.n.c_str(),i,show(b[i]).c_str(),show(w).c_str(),ctx.c_str()); }
      std::vector<int> want; for(auto&a:A) want.push_back(a.i); for(auto&a:B) want.push_back(a.i); EXPECT(std::vector<int>(y->iExtras.begin(),y->iExtras.end())==want,K+"read-extras","optional pointers differ after reading: %s",ctx.c_str());
      std::string c2; for(auto&c:y->comments) c2+=c; EXPECT(c2==com,K+"read-comments","comments read back as '%s', written '%s': %s",c2.c_str(),com.c_str(),ctx.c_str()); }
    if(ty==180){ for(auto q:((IGES_ENTITY_180*)y)->nodes) delete q; ((IGES_ENTITY_180*)y)->nodes.clear(); }
    done();
  }
}
// records written by hand: defaulted and omitted trailing parameters, clamped values, truncated records
static void hand(Rng&r,int n){
  Clean cl;
  for(int it=0;it<n*2;++it){
    IGES m; double mr=1e-3; m.globalData.minResolution=mr; static const int TT[]={154,164,408,314,126,142,110,502,144}; int ty=TT[it%9]; E*y=mk(m,ty); Toks w; std::vector<std::string> f; I(w,"type number",ty); f.push_back(strf("%d",ty)); bool nm=false; int req=99;
    auto re=[&](const char*nme,double v){ f.push_back(strf(r.flip()?"%.6f":"%.9E",v)); if(r.below(5)==0) for(char&c:f.back()) if(c=='E') c='D'; R(w,nme,v); }; auto in=[&](const char*nme,long v){ f.push_back(strf("%ld",v)); I(w,nme,v); };
    auto df=[&](const char*nme,double v,double d,int&cut){ if(cut){ R(w,nme,d); return; } if(r.below(3)==0){ f.push_back(""); R(w,nme,d); } else re(nme,v); };
    int cut=0; auto maybecut=[&]{ if(!cut&&r.below(6)==0) cut=1; };
    if(ty==154){ req=3; double H=r.below(4)?r.real(1,9):r.real(0.0001,0.0009),Q=r.below(4)?r.real(1,9):r.real(0.0001,0.0009); re("H",H); w.back().r=std::max(H,mr); re("R",Q); w.back().r=std::max(Q,mr); const char*nn[]={"X1","Y1","Z1"}; for(auto q:nn){ maybecut(); df(q,r.real(-9,9),0,cut); }
      size_t b=w.size(); maybecut(); df("I1",r.real(-3,3),0,cut); maybecut(); df("J1",r.real(-3,3),0,cut); maybecut(); df("K1",r.real(-3,3),1,cut); double L=sqrt(w[b].r*w[b].r+w[b+1].r*w[b+1].r+w[b+2].r*w[b+2].r); if(L<1e-6){ w[b].r=w[b+1].r=0; w[b+2].r=1; } else for(int i=0;i<3;++i) w[b+i].r/=L; }
    if(ty==164){ req=3; in("PTR",1+2*r.range(0,999)); re("L",r.real(1,99)); size_t b=w.size(); maybecut(); df("I1",r.real(-3,3),0,cut); maybecut(); df("J1",r.real(-3,3),0,cut); maybecut(); df("K1",r.real(-3,3),1,cut); double L=sqrt(w[b].r*w[b].r+w[b+1].r*w[b+1].r+w[b+2].r*w[b+2].r); if(L<1e-6){ w[b].r=w[b+1].r=0; w[b+2].r=1; } else for(int i=0;i<3;++i) w[b+i].r/=L; }
    if(ty==408){ req=5; in("DE",1+2*r.range(0,999)); re("X",r.real(-9,9)); re("Y",r.real(-9,9)); re("Z",r.real(-9,9)); maybecut(); df("S",r.real(0.5,9),1,cut); }
    if(ty==314){ req=4; const char*nn[]={"red","green","blue"}; double dv[]={85,20,20}; for(int i=0;i<3;++i){ double v=r.below(4)?r.real(0,100):r.flip()?-r.real(1,50):r.real(101,300); re(nn[i],v); if(v<0||v>100) w.back().r=dv[i]; } nm=r.flip(); if(nm){ std::string s=name(r).substr(0,20); f.push_back(strf("%zuH",s.size())+s); S(w,"name",s); } }
    if(ty==126){ int K=r.range(1,3),M=r.range(1,3); req=1+6+K+M+2+(K+1)*4+2; bool pl=r.flip(),omit=!pl&&r.flip(); in("K",K);in("M",M);in("PROP1",pl);in("PROP2",0);in("PROP3",r.below(2));in("PROP4",0); bool rat=w.back().i==0&&w[w.size()-2].i==0; (void)rat; rat=w[5].i==0; for(int i=0;i<K+M+2;++i) re("knot",i); for(int i=0;i<=K;++i) re("weight",rat?r.real(0.5,3):1.0); for(int i=0;i<3*(K+1);++i) re("control point",r.real(-9,9)); re("V0",r.real(0,1)); re("V1",r.real(1,2));
      if(omit){ R(w,"normal x",0);R(w,"normal y",0);R(w,"normal z",1); } else { double a=r.real(-3,3),b=r.real(-3,3),c=r.real(0.5,3),L=sqrt(a*a+b*b+c*c); re("normal x",a);re("normal y",b);re("normal z",c); size_t q=w.size(); if(pl){ w[q-3].r=a/L;w[q-2].r=b/L;w[q-1].r=c/L; } else { w[q-3].r=w[q-2].r=0; w[q-1].r=1; } } }
    if(ty==142){ in("CRTN",r.below(4)); in("SPTR",1+2*r.range(0,99)); int k=r.below(3); in("BPTR",k==1?0:1+2*r.range(0,99)); in("CPTR",k==2?0:1+2*r.range(0,99)); in("PREF",r.below(4)); if(k==1) w.back().i=2; if(k==2) w.back().i=1; req=6; }
    if(ty==110){ for(auto q:{"X1","Y1","Z1","X2","Y2","Z2"}) re(q,r.real(-9,9)); req=7; }
    if(ty==502){ int N=r.range(1,5); in("N",N); for(int i=0;i<N;++i){ re("X",r.real(-9,9));re("Y",r.real(-9,9));re("Z",r.real(-9,9)); } req=f.size(); }
    if(ty==144){ int N=r.range(0,4); in("PTS",1+2*r.range(0,99)); in("N1",r.below(2)); in("N2",N); in("PTO",w[2].i?1+2*r.range(0,99):r.flip()?0:1+2*r.range(0,99)); for(int i=0;i<N;++i) in("PTI",1+2*r.range(0,99)); req=f.size(); }
    if(ty==142||ty==314||ty==144){ /* integers may carry blanks */ for(size_t i=1;i<f.size();++i) if(f[i].find('H')==std::string::npos&&r.below(4)==0) f[i]=" "+f[i]; }
    int trunc=r.below(4)==0&&(int)f.size()>=2?r.range(1,std::min<int>(req,f.size())-1):0; if(trunc) f.resize(trunc);
    std::vector<int> X; if(!trunc&&!cut&&r.below(3)==0&&!(ty==126&&f.size()==(size_t)req)&&!(ty==314&&!nm)){ int a=r.below(3),b=r.below(3); if(a+b==0) a=1; f.push_back(a||r.flip()?strf("%d",a):""); for(int i=0;i<a;++i){ X.push_back(1+2*r.range(0,999)); f.push_back(strf("%d",X.back())); } if(b||r.flip()){ f.push_back(b||r.flip()?strf("%d",b):""); for(int i=0;i<b;++i){ X.push_back(1+2*r.range(0,999)); f.push_back(strf("%d",X.back())); } } }
    std::string txt; for(size_t i=0;i<f.size();++i){ bool h=f[i].find('H')!=std::string::npos; std::string p=f[i]+(i+1<f.size()?",":";"); if(!h&&txt.size()%64+p.size()>64) txt.append(64-txt.size()%64,' '); txt+=p; } if(txt.size()%64) txt.append(64-txt.size()%64,' ');
    int idx=r.range(1,9000),seq=1+2*r.range(0,900); std::string file; int L=txt.size()/64; for(int i=0;i<L;++i) file+=txt.substr(64*i,64)+strf("%8dP%7d\n",seq,idx+i);
    { std::ofstream o(cl.f.c_str(),std::ios::trunc|std::ios::binary); o<<file; } std::string ctx=strf("type %d: ",ty)+txt; std::string K=strf("hand:%d:",ty); at(ctx); ev();
    y->sequenceNumber=seq; y->parameterData=idx; y->paramLineCount=L; std::ifstream in_(cl.f.c_str(),std::ios::binary); int sv=idx-1; bool ok=y->readPD(in_,sv);
    if(trunc){ EXPECT(!ok,K+"truncated","a record without its required parameters is accepted: %s",ctx.c_str()); continue; }
    EXPECT(ok,K+"refused","a valid parameter record is refused: %s",ctx.c_str()); if(!ok) continue;
    Toks b=readback(y,nm); EXPECT(b.size()==w.size(),K+"count","%zu parameters, expected %zu: %s",b.size(),w.size(),ctx.c_str());
    for(size_t i=0;i<std::min(b.size(),w.size());++i) EXPECT(b[i].k==w[i].k&&(b[i].k!='r'?same(w[i],b[i],mr):fabs(b[i].r-w[i].r)<=2e-6),K+w[i].n,"%s is %s, the record says %s: %s",w[i].n.c_str(),show(b[i]).c_str(),show(w[i]).c_str(),ctx.c_str());
    EXPECT(std::vector<int>(y->iExtras.begin(),y->iExtras.end())==X,K+"extras","optional pointers differ: %s",ctx.c_str());
  }
}
// nothing to write: types whose standard form needs at least one member are refused
static void none(Rng&r,int n){
  for(int ty:{102,308,502,504,508,510,514}){ IGES m; E*x=mk(m,ty); E*s=mk(m,128); numbers(m,r); if(ty==510) ((IGES_ENTITY_510*)x)->msurface=s; int idx=1; ev(); at(strf("type %d",ty)); EXPECT(!x->format(idx),strf("empty:%d",ty),"an empty list is written for type %d",ty); if(ty==510) ((IGES_ENTITY_510*)x)->msurface=0; }
}
static void all(Rng&r,int n){ rt(r,n,0); }
int main(int c,char**v){ return run_groups(c,v,{{"roundtrip",all},{"hand",hand},{"none",none}}); }
