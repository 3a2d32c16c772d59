// C10 on the real library: every operator against its definition, with operands that share storage
#include "common.h"
#include <core/iges.h>
#include <core/entity124.h>
#include <geom/mcad_elements.h>
typedef std::vector<long double> V;
struct N { V v,m; };   // value and the magnitude of the terms summed (for the rounding bound)
static double val(Rng&r){ static const double S[]={0,0,1,-1,2,0.5,-0.25,1e-3,1e-7,-1e-9,1e-12,1e6,-3e8,1e-20}; int k=r.below(3); if(k==0) return S[r.below(14)]; if(k==1) return r.range(-9,9); return r.real(-100,100); }
static MCAD_POINT P(Rng&r){ return MCAD_POINT(val(r),val(r),val(r)); }
static MCAD_MATRIX M(Rng&r){ MCAD_MATRIX m; int k=r.below(4); if(k==0) return m; for(int i=0;i<9;++i) m.v[i/3][i%3]=k==1&&r.flip()?0:val(r); return m; }
static MCAD_TRANSFORM T(Rng&r){ MCAD_TRANSFORM t; t.R=M(r); t.T=P(r); return t; }
static V g(const MCAD_POINT&p){ return {p.x,p.y,p.z}; } static V g(const MCAD_MATRIX&m){ V v; for(int i=0;i<9;++i) v.push_back(m.v[i/3][i%3]); return v; }
static V g(const MCAD_TRANSFORM&t){ V a=g(t.R),b=g(t.T); a.insert(a.end(),b.begin(),b.end()); return a; } static V g(double d){ return {d}; }
static V ab(V a){ for(auto&x:a) x=fabsl(x); return a; }
static N n(const V&v){ return {v,ab(v)}; }
static N add(N a,N b){ N r=a; for(size_t i=0;i<a.v.size();++i){ r.v[i]+=b.v[i]; r.m[i]+=b.m[i]; } return r; }
static N sub(N a,N b){ N r=a; for(size_t i=0;i<a.v.size();++i){ r.v[i]-=b.v[i]; r.m[i]+=b.m[i]; } return r; }
static N scl(N a,N k){ for(auto&x:a.v) x*=k.v[0]; for(auto&x:a.m) x*=k.m[0]; return a; }
static N mm(N a,N b){ int w=b.v.size()/3; N r; r.v.assign(3*w,0); r.m=r.v; for(int i=0;i<3;++i) for(int j=0;j<w;++j) for(int k=0;k<3;++k){ r.v[w*i+j]+=a.v[3*i+k]*b.v[w*k+j]; r.m[w*i+j]+=a.m[3*i+k]*b.m[w*k+j]; } return r; }
static N sl(const N&a,int i,int j){ return {V(a.v.begin()+i,a.v.begin()+j),V(a.m.begin()+i,a.m.begin()+j)}; }
static N cat(N a,N b){ a.v.insert(a.v.end(),b.v.begin(),b.v.end()); a.m.insert(a.m.end(),b.m.begin(),b.m.end()); return a; }
static N tt(N a,N b){ return cat(mm(sl(a,0,9),sl(b,0,9)),add(mm(sl(a,0,9),sl(b,9,12)),sl(a,9,12))); }
static N tp(N a,N b){ return add(mm(sl(a,0,9),b),sl(a,9,12)); }
static std::string show(const V&v){ std::string s="("; for(auto x:v) s+=strf("%.17Lg ",x); return s+")"; }
static void eqv(const char*op,const V&got,const N&want,const std::string&in){ ev(); bool ok=got.size()==want.v.size(); for(size_t i=0;ok&&i<got.size();++i) ok=fabsl(got[i]-want.v[i])<=1e-14L*(want.m[i])+1e-300L; EXPECT(ok,strf("value:%s",op),"%s on %s gives %s, defined value %s",op,in.c_str(),show(got).c_str(),show(want.v).c_str()); }
static void exact(const char*op,const V&got,const V&want,const std::string&in){ ev(); EXPECT(got==want,strf("operand:%s",op),"%s on %s: an operand changed to %s from %s",op,in.c_str(),show(got).c_str(),show(want).c_str()); }
#define CASE(op,A,B,EXPR,WANT) { auto a=A; auto b=B; V va=g(a),vb=g(b); std::string in=show(va)+" , "+show(vb); at(op); auto r=EXPR; eqv(op,g(r),WANT,in); exact(op,g(a),va,in); exact(op,g(b),vb,in); }
#define INPL(op,A,B,STMT,WANT) { auto a=A; auto b=B; V va=g(a),vb=g(b); std::string in=show(va)+" , "+show(vb); at(op); auto*r=&(a STMT b); eqv(op,g(a),WANT,in); exact(op,g(b),vb,in); EXPECT(r==&a,strf("target:%s",op),"%s does not return its target",op); }
#define SELF(op,A,STMT,WANT) { auto a=A; V va=g(a),vb=va; std::string in=show(va)+" with itself"; at(op); a STMT a; eqv(op,g(a),WANT,in); }
#define NA n(va)
#define NB n(vb)
static void ops(Rng&r,int cnt){ for(int c=0;c<cnt;++c){
  CASE("p+p",P(r),P(r),a+b,add(NA,NB)) CASE("p-p",P(r),P(r),a-b,sub(NA,NB)) CASE("p*k",P(r),val(r),a*b,scl(NA,NB)) CASE("k*p",val(r),P(r),a*b,scl(NB,NA))
  INPL("p+=p",P(r),P(r),+=,add(NA,NB)) INPL("p-=p",P(r),P(r),-=,sub(NA,NB)) INPL("p*=k",P(r),val(r),*=,scl(NA,NB)) SELF("p+=self",P(r),+=,add(NA,NB)) SELF("p-=self",P(r),-=,sub(NA,NB))
  CASE("m+m",M(r),M(r),a+b,add(NA,NB)) CASE("m-m",M(r),M(r),a-b,sub(NA,NB)) CASE("m*k",M(r),val(r),a*b,scl(NA,NB)) CASE("k*m",val(r),M(r),a*b,scl(NB,NA)) CASE("m*m",M(r),M(r),a*b,mm(NA,NB)) CASE("m*p",M(r),P(r),a*b,mm(NA,NB))
  INPL("m+=m",M(r),M(r),+=,add(NA,NB)) INPL("m-=m",M(r),M(r),-=,sub(NA,NB)) INPL("m*=m",M(r),M(r),*=,mm(NA,NB)) INPL("m*=k",M(r),val(r),*=,scl(NA,NB)) SELF("m*=self",M(r),*=,mm(NA,NB)) SELF("m+=self",M(r),+=,add(NA,NB)) SELF("m-=self",M(r),-=,sub(NA,NB))
  CASE("t*t",T(r),T(r),a*b,tt(NA,NB)) CASE("t*p",T(r),P(r),a*b,tp(NA,NB)) CASE("k*t",val(r),T(r),a*b,scl(NB,NA)) INPL("t*=t",T(r),T(r),*=,tt(NA,NB)) INPL("t*=k",T(r),val(r),*=,scl(NA,NB)) SELF("t*=self",T(r),*=,tt(NA,NB))
  // a point or matrix operand inside the target, binary form assigned to its own operand
  { auto t=T(r); V vt=g(t); at("t.T=t*t.T"); t.T=t*t.T; eqv("t.T=t*t.T",g(t.T),tp(n(vt),sl(n(vt),9,12)),show(vt)); }
  { auto t=T(r); V vt=g(t); at("t.R*=t.R"); t.R*=t.R; eqv("t.R*=t.R",g(t.R),mm(sl(n(vt),0,9),sl(n(vt),0,9)),show(vt)); }
  { auto a=T(r),b=T(r); V va=g(a),vb=g(b); at("b=a*b"); b=a*b; eqv("b=a*b",g(b),tt(NA,NB),show(va)+show(vb)); }
  { auto a=M(r),b=M(r); V va=g(a),vb=g(b); at("mb=a*b"); b=a*b; eqv("mb=a*b",g(b),mm(NA,NB),show(va)+show(vb)); }
  { auto a=T(r),b=T(r); auto p=P(r); V va=g(a),vb=g(b),vp=g(p); at("(a*b)*p"); eqv("(a*b)*p",g((a*b)*p),tp(tt(NA,NB),n(vp)),show(va)+show(vb)+show(vp)); eqv("a*(b*p)",g(a*(b*p)),tp(NA,tp(NB,n(vp))),show(va)+show(vb)+show(vp)); }
  { auto a=T(r); MCAD_TRANSFORM c(a); V va=g(a); eqv("copy",g(c),NA,show(va)); MCAD_MATRIX mc(a.R); eqv("mcopy",g(mc),sl(NA,0,9),show(va)); MCAD_TRANSFORM d(a.R,a.T); eqv("tcopy",g(d),NA,show(va)); MCAD_POINT q(a.T); eqv("pcopy",g(q),sl(NA,9,12),show(va)); }
 }
 MCAD_TRANSFORM i; V w={1,0,0,0,1,0,0,0,1,0,0,0}; eqv("identity",g(i),n(w),""); MCAD_MATRIX im; eqv("identity-m",g(im),n(V(w.begin(),w.begin()+9)),""); MCAD_POINT z; eqv("origin",g(z),n(V{0,0,0}),"");
 MCAD_POINT xyz(1,2,3); eqv("point(x,y,z)",g(xyz),n(V{1,2,3}),"");
}
// transformation matrix entities: the overall transform is the product along the chain
static void ent124(Rng&r,int cnt){ for(int c=0;c<cnt/4+10;++c){ IGES m; int k=1+r.below(4); std::vector<IGES_ENTITY_124*> e; N want; std::string in; for(int i=0;i<k;++i){ IGES_ENTITY*x=0; m.NewEntity(124,&x); auto*t=(IGES_ENTITY_124*)x; t->T=T(r); e.push_back(t); in+=show(g(t->T)); }
   for(int i=0;i+1<k;++i){ e[i]->SetTransform(e[i+1]); }
   for(int i=k-1;i>=0;--i) want= i==k-1? n(g(e[i]->T)) : tt(want,n(g(e[i]->T)));
   at("chain "+in); auto got=e[0]->GetTransformMatrix(); eqv("chain",g(got),want,in); } }
int main(int c,char**v){ return run_groups(c,v,{{"ops",ops},{"ent124",ent124}}); }
