// C12 on the real library: end points of curves against the defined points mapped by the chain of transforms
#include "graph.h"
#include <api/all_api_entities.h>
#include <api/dll_iges.h>
typedef long double L;
static double val(Rng&r){ static const double S[]={0,0,1,-1,0.5,1e-4,1e-9,-1e-12,1e5,-2e7}; int k=r.below(3); return k==0?S[r.below(10)]:k==1?r.range(-9,9):r.real(-50,50); }
static MCAD_TRANSFORM T(Rng&r){ MCAD_TRANSFORM t; int k=r.below(6); if(k==0) return t; if(k<3){ double a=r.real(-3.2,3.2); if(k==1&&r.flip()) a=1.5707963267948966*r.range(-2,2); t.R.v[0][0]=cos(a);t.R.v[0][1]=-sin(a);t.R.v[1][0]=sin(a);t.R.v[1][1]=cos(a); if(r.flip()) t.R.v[2][2]=-1; } else if(k<5) for(int i=0;i<9;++i) t.R.v[i/3][i%3]=val(r);
  if(r.below(3)) t.T=MCAD_POINT(val(r),val(r),val(r)); return t; }
struct X { L p[3],m[3]; };
static X app(const MCAD_TRANSFORM&t,const X&x){ X r; const double tt[3]={t.T.x,t.T.y,t.T.z}; for(int i=0;i<3;++i){ r.p[i]=tt[i]; r.m[i]=fabsl(tt[i]); for(int j=0;j<3;++j){ r.p[i]+=t.R.v[i][j]*x.p[j]; r.m[i]+=fabsl(t.R.v[i][j])*x.m[j]; } } return r; }
static X mkx(double a,double b,double c){ return {{a,b,c},{fabsl(a),fabsl(b),fabsl(c)}}; }
static std::string sh(const MCAD_TRANSFORM&t){ std::string s="["; for(int i=0;i<9;++i) s+=strf("%.17g ",t.R.v[i/3][i%3]); return s+strf("| %.17g %.17g %.17g]",t.T.x,t.T.y,t.T.z); }
static void cmp(const char*k,bool ok,const MCAD_POINT&g,const X&w,bool exact,const std::string&in){ ev(); const double gg[3]={g.x,g.y,g.z}; bool q=ok; for(int i=0;i<3;++i) q=q&&(exact? gg[i]==(double)w.p[i] : fabsl(gg[i]-w.p[i])<=1e-13L*w.m[i]+1e-300L);
  EXPECT(q,k,"%s: gives %s(%.17g, %.17g, %.17g), defined (%.17Lg, %.17Lg, %.17Lg)",in.c_str(),ok?"":"failure ",gg[0],gg[1],gg[2],w.p[0],w.p[1],w.p[2]); }
static X through(const std::vector<MCAD_TRANSFORM>&ch,X x){ for(auto&t:ch) x=app(t,x); return x; }
static std::vector<MCAD_TRANSFORM> chain(IGES&m,Rng&r,IGES_ENTITY*e,std::string&in){ std::vector<MCAD_TRANSFORM> v; int n=r.below(4); IGES_ENTITY*p=e; for(int i=0;i<n;++i){ IGES_ENTITY*x=mk(m,124); auto*t=(IGES_ENTITY_124*)x; t->T=T(r); if(!p->SetTransform(x)) break; v.push_back(t->T); in+=" transform "+sh(t->T); p=x; } return v; }
static void ends(Rng&r,int n){
  for(int c=0;c<n;++c){ IGES m; static const int TY[]={100,104,110}; int ty=TY[c%3]; E*e=mk(m,ty); std::string in=strf("type %d",ty); X s,t;
    double v[8]; for(auto&x:v) x=val(r); if(r.below(5)==0){ v[3]=v[0]; v[4]=v[1]; }   // closed arcs
    for(double x:v) in+=strf(" %.17g",x);
    if(ty==100){ auto*a=(IGES_ENTITY_100*)e; a->X1=v[6];a->Y1=v[7];a->X2=v[0];a->Y2=v[1];a->X3=v[3];a->Y3=v[4];a->ZT=v[2]; s=mkx(v[0],v[1],v[2]); t=mkx(v[3],v[4],v[2]); }
    if(ty==104){ auto*a=(IGES_ENTITY_104*)e; a->X1=v[0];a->Y1=v[1];a->X2=v[3];a->Y2=v[4];a->ZT=v[2]; a->A=v[5];a->B=v[6];a->C=v[7]; s=mkx(v[0],v[1],v[2]); t=mkx(v[3],v[4],v[2]); }
    if(ty==110){ auto*a=(IGES_ENTITY_110*)e; a->X1=v[0];a->Y1=v[1];a->Z1=v[2];a->X2=v[3];a->Y2=v[4];a->Z2=v[5]; s=mkx(v[0],v[1],v[2]); t=mkx(v[3],v[4],v[5]); }
    auto ch=chain(m,r,e,in); auto*cu=dynamic_cast<IGES_CURVE*>(e); MCAD_POINT p(77,77,77); at(in);
    bool ok=cu->GetStartPoint(p,false); cmp("start-plain",ok,p,s,true,in); p=MCAD_POINT(77,7,7); ok=cu->GetEndPoint(p,false); cmp("end-plain",ok,p,t,true,in);
    ok=cu->GetStartPoint(p,true); cmp("start-transformed",ok,p,through(ch,s),ch.empty(),in); ok=cu->GetEndPoint(p,true); cmp("end-transformed",ok,p,through(ch,t),ch.empty(),in);
    ok=cu->GetStartPoint(p); cmp("start-default",ok,p,through(ch,s),ch.empty(),in); ok=cu->GetStartPoint(p,true); cmp("start-again",ok,p,through(ch,s),ch.empty(),in);
    // a second curve of the same model sharing the transform
    { DLL_IGES_ENTITY_100 h100(&m,false); DLL_IGES_ENTITY_110 h110(&m,false); DLL_IGES_ENTITY_104 h104(&m,false); DLL_IGES_CURVE*h= ty==100?(DLL_IGES_CURVE*)&h100: ty==110?(DLL_IGES_CURVE*)&h110:(DLL_IGES_CURVE*)&h104; EXPECT(h->Attach(e),"attach","%s",in.c_str());
      for(int x=0;x<2;++x){ ok=h->GetStartPoint(p,x); cmp("api-start",ok,p,x?through(ch,s):s,!x||ch.empty(),in); ok=h->GetEndPoint(p,x); cmp("api-end",ok,p,x?through(ch,t):t,!x||ch.empty(),in); }
      if(ty==100){ ok=h100.GetCircleStart(p); cmp("api-circle-start",ok,p,s,true,in); ok=h100.GetCircleEnd(p); cmp("api-circle-end",ok,p,t,true,in); ok=h100.GetCircleStart(p.x,p.y,p.z); cmp("api-circle-start3",ok,p,s,true,in); ok=h100.GetCircleEnd(p.x,p.y,p.z); cmp("api-circle-end3",ok,p,t,true,in);
        double a=val(r),b=val(r),z=val(r); bool ok2=h100.SetCircleStart(a,b); ok=cu->GetStartPoint(p,false)&&ok2; cmp("set-circle-start",ok,p,mkx(a,b,v[2]),true,in); ok=cu->GetEndPoint(p,false); cmp("set-circle-start-end",ok,p,t,true,in);
        ok2=h100.SetCircleEnd(MCAD_POINT(b,a,0)); ok=cu->GetEndPoint(p,false)&&ok2; cmp("set-circle-end",ok,p,mkx(b,a,v[2]),true,in); ok2=h100.SetCircleCenter(1,2,z); ok=cu->GetStartPoint(p,false)&&ok2; cmp("set-circle-center",ok,p,mkx(a,b,z),true,in); }
      if(ty==110){ ok=h110.GetLineStart(p); cmp("api-line-start",ok,p,s,true,in); ok=h110.GetLineEnd(p); cmp("api-line-end",ok,p,t,true,in); ok=h110.GetLineStart(p.x,p.y,p.z); cmp("api-line-start3",ok,p,s,true,in); ok=h110.GetLineEnd(p.x,p.y,p.z); cmp("api-line-end3",ok,p,t,true,in);
        double a=val(r),b=val(r),z=val(r); bool ok2=h110.SetLineStart(a,b,z); ok=cu->GetStartPoint(p,false)&&ok2; cmp("set-line-start",ok,p,mkx(a,b,z),true,in); ok=cu->GetEndPoint(p,false); cmp("set-line-start-end",ok,p,t,true,in); ok2=h110.SetLineEnd(MCAD_POINT(z,a,b)); ok=cu->GetEndPoint(p,false)&&ok2; cmp("set-line-end",ok,p,mkx(z,a,b),true,in); } }
  } }
static void composite(Rng&r,int n){
  for(int c=0;c<n/2;++c){ IGES m; E*e=mk(m,102); auto*cc=(IGES_ENTITY_102*)e; std::string in="composite"; int k=1+r.below(4); X s,t; std::vector<MCAD_TRANSFORM> c0,cn; double x=r.range(-5,5),y=r.range(-5,5);
    bool tr=k==1||r.flip(); int add=0;
    for(int i=0;i<k;++i){ auto*l=(IGES_ENTITY_110*)mk(m,110); l->X1=x;l->Y1=y;l->Z1=0; double nx=x+r.range(1,5),ny=y+r.range(1,5); l->X2=nx;l->Y2=ny;l->Z2=0; std::vector<MCAD_TRANSFORM> ch; if(k==1) ch=chain(m,r,l,in); if(!cc->AddSegment(l)) break; if(i==0){ s=mkx(x,y,0); c0=ch; } t=mkx(nx,ny,0); cn=ch; x=nx;y=ny; ++add; in+=strf(" (%g,%g)",x,y); }
    if(!add) continue; auto ch=chain(m,r,e,in); MCAD_POINT p; at(in);
    bool ok=cc->GetStartPoint(p,false); cmp("composite-start-plain",ok,p,s,true,in); ok=cc->GetEndPoint(p,false); cmp("composite-end-plain",ok,p,t,true,in);
    ok=cc->GetStartPoint(p,true); cmp("composite-start",ok,p,through(ch,through(c0,s)),false,in); ok=cc->GetEndPoint(p,true); cmp("composite-end",ok,p,through(ch,through(cn,t)),false,in);
  } }
int main(int c,char**v){ return run_groups(c,v,{{"ends",ends},{"composite",composite}}); }
