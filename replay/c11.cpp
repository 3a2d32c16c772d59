// C11 on the real library: which numbers does rescaling change, and by what
#include "graph.h"
#include <cstring>
#include <map>
static double val(Rng&r){ static const double S[]={0,1,-1,0.5,3,-7.25,1e5,-2e7,1e-4,1e-9}; return r.flip()? S[r.below(10)] : r.real(-50,50); }
static bool near(double a,long double b){ return fabsl(a-b)<=1e-14L*fabsl(b)+1e-300L; }
struct Fld { const char*n; double*p; int e; };     // e: power of the factor (0 = must stay)
#define F(x) Fld{#x,&a->x,1}
#define A(x) Fld{#x,&a->x,2}
#define K(x) Fld{#x,&a->x,0}
static std::vector<Fld> fields(E*e,size_t&sz){ std::vector<Fld> v; switch((int)e->GetEntityType()){
#define T(n,...) case n: { auto*a=(IGES_ENTITY_##n*)e; sz=sizeof *a; v={__VA_ARGS__}; break; }
 T(100,F(ZT),F(X1),F(Y1),F(X2),F(Y2),F(X3),F(Y3)) T(104,K(A),K(B),K(C),F(D),F(E),A(F),F(ZT),F(X1),F(Y1),F(X2),F(Y2))
 T(108,K(A),K(B),K(C),F(D),F(X),F(Y),F(Z),F(Size)) T(110,F(X1),F(Y1),F(Z1),F(X2),F(Y2),F(Z2)) T(120,K(startAngle),K(endAngle)) T(122,F(LX),F(LY),F(LZ))
 T(124,F(T.T.x),F(T.T.y),F(T.T.z),K(T.R.v[0][0]),K(T.R.v[0][1]),K(T.R.v[0][2]),K(T.R.v[1][0]),K(T.R.v[1][1]),K(T.R.v[1][2]),K(T.R.v[2][0]),K(T.R.v[2][1]),K(T.R.v[2][2]))
 T(126,K(V0),K(V1),K(vnorm.x),K(vnorm.y),K(vnorm.z)) T(128,K(U0),K(U1),K(V0),K(V1)) T(154,F(H),F(R),F(X1),F(Y1),F(Z1),K(I1),K(J1),K(K1)) T(164,F(L),K(I1),K(J1),K(K1))
 T(314,K(red),K(green),K(blue)) T(408,F(X),F(Y),F(Z),K(S))
#define Z(n) case n: sz=sizeof(IGES_ENTITY_##n); break;
 Z(102) Z(142) Z(144) Z(180) Z(186) Z(308) Z(406) Z(502) Z(504) Z(508) Z(510) Z(514)
 default: sz=sizeof(IGES_ENTITY); } return v; }
struct Snap { E*e; size_t sz; std::vector<Fld> f; std::vector<double> v; std::string raw; std::vector<double> k,c; std::vector<MCAD_POINT> pts; int st; bool xy; };
static const int ALL[]={100,102,104,108,110,120,122,124,126,128,142,144,154,164,180,186,308,314,406,408,502,504,508,510,514};
static void load(Rng&r,E*e){ size_t z; for(auto&f:fields(e,z)) *f.p=val(r);
  if(e->GetEntityType()==126){ auto*a=(IGES_ENTITY_126*)e; if(r.below(8)==0) return; bool rat=r.flip(); int n=2+r.below(4),ord=2,st=rat?4:3; std::vector<double> k(n+ord),c(n*st); for(auto&x:k) x=val(r); std::sort(k.begin(),k.end()); for(auto&x:c) x=val(r); if(rat) for(int i=0;i<n;++i) c[4*i+3]=1+r.below(5);
    delete[] a->knots; delete[] a->coeffs; a->nKnots=n+ord; a->nCoeffs=n; a->knots=new double[n+ord]; a->coeffs=new double[n*st]; std::copy(k.begin(),k.end(),a->knots); std::copy(c.begin(),c.end(),a->coeffs); a->PROP3=rat?0:1; a->K=n-1; a->M=1; }
  if(e->GetEntityType()==128){ auto*a=(IGES_ENTITY_128*)e; if(r.below(8)==0) return; bool rat=r.flip(); int n1=2+r.below(3),n2=2+r.below(3),st=rat?4:3,n=n1*n2; delete[] a->knots1; delete[] a->knots2; delete[] a->coeffs; a->nKnots1=n1+2;a->nKnots2=n2+2;a->nCoeffs1=n1;a->nCoeffs2=n2; a->knots1=new double[n1+2];a->knots2=new double[n2+2];a->coeffs=new double[n*st]; for(int i=0;i<n1+2;++i) a->knots1[i]=val(r); for(int i=0;i<n2+2;++i) a->knots2[i]=val(r); for(int i=0;i<n*st;++i) a->coeffs[i]=val(r); a->PROP3=rat?0:1; a->PROP1=r.below(2); a->PROP2=r.below(2); a->PROP4=r.below(2); a->PROP5=r.below(2); }
  if(e->GetEntityType()==502){ auto*a=(IGES_ENTITY_502*)e; a->vertices.clear(); for(int i=r.below(6);i>0;--i) a->vertices.push_back(MCAD_POINT(val(r),val(r),val(r))); } }
static Snap snap(E*e){ Snap s; s.e=e; s.f=fields(e,s.sz); for(auto&f:s.f) s.v.push_back(*f.p); s.raw.assign((const char*)e,s.sz); s.xy=true; s.st=3; int t=e->GetEntityType();
  if(t==126){ auto*a=(IGES_ENTITY_126*)e; s.st=a->PROP3==0?4:3; if(a->coeffs){ s.k.assign(a->knots,a->knots+a->nKnots); s.c.assign(a->coeffs,a->coeffs+a->nCoeffs*s.st); } }
  if(t==128){ auto*a=(IGES_ENTITY_128*)e; s.st=a->PROP3==0?4:3; if(a->coeffs){ s.k.assign(a->knots1,a->knots1+a->nKnots1); s.k.insert(s.k.end(),a->knots2,a->knots2+a->nKnots2); s.c.assign(a->coeffs,a->coeffs+a->nCoeffs1*a->nCoeffs2*s.st); } }
  if(t==502) s.pts=((IGES_ENTITY_502*)e)->vertices; return s; }
static void judge(const Snap&s,double sf,const std::string&in){ int t=s.e->GetEntityType(); ev();
  std::string now((const char*)s.e,s.sz); for(size_t i=0;i<s.f.size();++i){ auto&f=s.f[i]; long double w=(long double)s.v[i]; for(int k=0;k<f.e;++k) w*=sf; EXPECT(f.e? near(*f.p,w):*f.p==s.v[i],"parameter","%s: type %d parameter %s was %.17g, is %.17g after rescaling by %.17g",in.c_str(),t,f.n,s.v[i],*f.p,sf);
    size_t o=(char*)f.p-(char*)s.e; memcpy(&now[o],&s.raw[o],8); }
  EXPECT(now==s.raw,"other-attributes","%s: type %d: rescaling by %.17g changed an attribute that is not a length",in.c_str(),t,sf);
  if(t==126||t==128){ Snap n=snap(s.e); EXPECT(n.k==s.k,"knots","%s: type %d: rescaling by %.17g changed the knots",in.c_str(),t,sf);
    EXPECT(n.c.size()==s.c.size(),"points","%s",in.c_str()); for(size_t i=0;i<s.c.size();++i){ int d=i%s.st; bool sc=d<3&&(d==2||s.xy); EXPECT(sc? near(n.c[i],(long double)s.c[i]*sf):n.c[i]==s.c[i],sc?"point":d==3?"weight":"parameter-space","%s: type %d point %zu component %d was %.17g, is %.17g after rescaling by %.17g",in.c_str(),t,i/s.st,d,s.c[i],n.c[i],sf); } }
  if(t==502){ auto&v=((IGES_ENTITY_502*)s.e)->vertices; EXPECT(v.size()==s.pts.size(),"vertices","%s",in.c_str()); for(size_t i=0;i<v.size();++i) EXPECT(near(v[i].x,(long double)s.pts[i].x*sf)&&near(v[i].y,(long double)s.pts[i].y*sf)&&near(v[i].z,(long double)s.pts[i].z*sf),"vertex","%s: vertex %zu of %zu was (%.17g,%.17g,%.17g), is (%.17g,%.17g,%.17g) after rescaling by %.17g",in.c_str(),i,v.size(),s.pts[i].x,s.pts[i].y,s.pts[i].z,v[i].x,v[i].y,v[i].z,sf); } }
static E* make(IGES&m,int t){ IGES_ENTITY*e=NULL; if(t==108){ e=new IGES_ENTITY_108(&m); m.AddEntity(e); return (E*)e; } m.NewEntity(t,&e); if(e&&typeid(*e)==typeid(IGES_ENTITY_NULL)){ m.DelEntity(e); e=NULL; } return (e&&(int)e->GetEntityType()==t)? (E*)e : NULL; }
static void single(Rng&r,int n){ for(int c=0;c<n;++c){ IGES m; int t=ALL[c%25]; E*e=make(m,t); if(!e) continue; load(r,e); double sf=r.flip()? 25.4 : r.flip()? val(r) : r.real(0.001,1000); std::string in=strf("new entity"); at(in); Snap s=snap(e); bool ok=e->rescale(sf); EXPECT(ok,"result","type %d: rescaling failed",t); judge(s,sf,in); } }
// curves below a curve on a parametric surface
static void trimming(Rng&r,int n){ for(int c=0;c<n/2;++c){ IGES m; std::string in; auto*k=(IGES_ENTITY_126*)make(m,126); if(!k) return; load(r,(E*)k); auto*q=(IGES_ENTITY_142*)make(m,142); int how=r.below(6); E*top=(E*)k; bool xy=true;
   bool nest=r.flip(); if(nest){ auto*cc=(IGES_ENTITY_102*)make(m,102); cc->curves.push_back((IGES_CURVE*)k); k->refs.push_back(cc); top=(E*)cc; in+="in a composite curve, "; }
   auto*o=make(m,110);
   switch(how){ case 0: in+="model curve"; q->CPTR=(IGES_ENTITY*)top; ((IGES_ENTITY*)top)->refs.push_back(q); break; case 1: in+="no parent"; break;
     case 2: in+="model curve next to a parameter curve"; q->CPTR=top; top->refs.push_back(q); q->BPTR=o; ((IGES_ENTITY*)o)->refs.push_back(q); break;
     default: in+="parameter curve of a curve on a surface"; q->BPTR=top; top->refs.push_back(q); xy=false; }
   double sf=r.flip()?25.4:r.real(0.1,9); Snap s=snap((E*)k); s.xy=xy; at(in); bool ok=k->rescale(sf); EXPECT(ok,"result","%s",in.c_str()); judge(s,sf,in); } }
static const double MM[12]={0,25.4,1,0,304.8,1609344,1000,1e6,0.0254,0.001,10,2.54e-5};
static void model(Rng&r,int n){ for(int c=0;c<n/4;++c){ IGES m; std::vector<Snap> v; std::string in="model of types"; int cnt=r.below(9); for(int i=0;i<cnt;++i){ int t=ALL[r.below(25)]; E*e=make(m,t); if(!e) continue; load(r,e); in+=strf(" %d",t); } for(auto*e:m.entities) v.push_back(snap((E*)e));
   if(r.below(4)==0){ IGES_ENTITY*x=NULL; m.NewEntity(ENT_POINT,&x); in+=" and a placeholder"; }
   double sf; bool ok; if(r.flip()){ int a,b; do a=1+r.below(11); while(a==3); do b=1+r.below(11); while(b==3); m.globalData.unitsFlag=(IGES_UNIT)a; in+=strf("; units %d to %d",a,b); at(in); ok=m.ConvertUnits((IGES_UNIT)b); sf=a==b?1:MM[a]/MM[b]; }
   else { double a=r.below(3)?r.range(1,20):1,b=r.range(1,50)/4.0; m.globalData.modelScale=a; in+=strf("; model scale %g to %g",a,b); at(in); ok=m.ChangeModelScale(b); sf=b/a; }
   EXPECT(ok,"model-result","%s: the change was refused",in.c_str()); for(auto&s:v) judge(s,sf,in); } }
int main(int c,char**v){ return run_groups(c,v,{{"single",single},{"trimming",trimming},{"model",model}}); }
