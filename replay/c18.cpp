// C18 on the real library: segments and outlines against an independent evaluation of the same geometry
#include "graph.h"
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
#include <geom/mcad_helpers.h>
static const double PI=3.14159265358979323846;
struct P2 { double x,y; };
struct Sg { int t; P2 a,b,c; double r,a0,sw; };      // 0 line, 1 arc, 2 circle; a0 start angle, sw signed sweep
typedef std::vector<Sg> Shape;
static P2 at_(const Sg&s,double f){ if(s.t==0) return {s.a.x+f*(s.b.x-s.a.x),s.a.y+f*(s.b.y-s.a.y)}; double g=s.a0+f*s.sw; return {s.c.x+s.r*cos(g),s.c.y+s.r*sin(g)}; }
static Sg line(P2 a,P2 b){ Sg s; s.t=0; s.a=a; s.b=b; s.c={0,0}; s.r=0; s.a0=s.sw=0; return s; }
static Sg arc(P2 c,double r,double a0,double sw){ Sg s; s.t=1; s.c=c; s.r=r; s.a0=a0; s.sw=sw; s.a=at_(s,0); s.b=at_(s,1); return s; }
static Sg circ(P2 c,double r){ Sg s; s.t=2; s.c=c; s.r=r; s.a0=0; s.sw=2*PI; s.a=s.b={c.x+r,c.y}; return s; }
static double dist(P2 a,P2 b){ return hypot(a.x-b.x,a.y-b.y); }
static MCAD_POINT mp(P2 a){ return MCAD_POINT(a.x,a.y,0); }
static std::string sh(const Sg&s){ return s.t==0?strf("line(%.9g,%.9g)-(%.9g,%.9g)",s.a.x,s.a.y,s.b.x,s.b.y):s.t==1?strf("arc c(%.9g,%.9g) r%.9g from %.9g sweep %.9g",s.c.x,s.c.y,s.r,s.a0,s.sw):strf("circle c(%.9g,%.9g) r%.9g",s.c.x,s.c.y,s.r); }
static std::string sh(const Shape&v){ std::string r; for(auto&s:v) r+=sh(s)+"; "; return r; }
static bool setp(MCAD_SEGMENT*m,const Sg&s){ return s.t==0? m->SetParams(mp(s.a),mp(s.b)) : m->SetParams(mp(s.c),mp(s.a),mp(s.b),s.sw<0); }
static MCAD_SEGMENT* mkseg(const Sg&s){ auto*m=new MCAD_SEGMENT; if(!setp(m,s)) { delete m; return NULL; } return m; }
static bool near(const MCAD_POINT&p,P2 q,double e=1e-7){ return fabs(p.x-q.x)<=e&&fabs(p.y-q.y)<=e; }
static bool nearp(const MCAD_POINT&p,const MCAD_POINT&q,double e=1e-7){ return fabs(p.x-q.x)<=e&&fabs(p.y-q.y)<=e; }
static Sg rseg(Rng&r,int t=-1){ if(t<0) t=r.below(3); auto v=[&]{ return r.flip()?(double)r.range(-9,9):r.real(-30,30); }; P2 c={v(),v()};
  if(t==0){ P2 b; do b={v(),v()}; while(dist(b,c)<0.01); if(r.below(4)==0) b.x=c.x; else if(r.below(3)==0) b.y=c.y; if(dist(b,c)<0.01) b.x+=3; return line(c,b); }
  double rad=r.flip()?r.range(1,9):r.real(0.1,40); if(t==2) return circ(c,rad);
  double a=r.below(3)?r.real(-3.14,3.14):PI/2*r.range(-1,2), w=r.below(3)?r.real(0.05,6.2):PI/2*r.range(1,3); return arc(c,rad,a,r.flip()?w:-w); }
// compares a real segment with the model segment (direction included)
static bool same(MCAD_SEGMENT*m,const Sg&s,std::string&why){
  auto bad=[&](const std::string&w){ why=w; return false; };
  MCAD_SEGTYPE ty=m->GetSegType(); if(ty!=(s.t==0?MCAD_SEGTYPE_LINE:s.t==1?MCAD_SEGTYPE_ARC:MCAD_SEGTYPE_CIRCLE)) return bad(strf("type %d",(int)ty));
  if(!near(m->GetMStart(),s.a)||!near(m->GetMEnd(),s.b)) return bad(strf("runs from (%.12g,%.12g) to (%.12g,%.12g)",m->GetMStart().x,m->GetMStart().y,m->GetMEnd().x,m->GetMEnd().y));
  bool cw=s.t==1&&s.sw<0; if(m->IsCW()!=cw) return bad("direction");
  if(!near(m->GetStart(),cw?s.b:s.a)||!near(m->GetEnd(),cw?s.a:s.b)) return bad("counterclockwise ends");
  if(s.t){ if(fabs(m->GetRadius()-s.r)>1e-7||!near(m->GetCenter(),s.c)) return bad("centre or radius");
    double A=m->GetStartAngle(),B=m->GetEndAngle(); if(!(A>-PI-1e-9&&A<=PI+1e-9)) return bad(strf("start angle %.12g",A)); if(fabs(B-A-fabs(s.sw))>1e-6) return bad(strf("angles %.12g to %.12g",A,B));
    if(s.t==1){ P2 q={s.c.x+s.r*cos(A),s.c.y+s.r*sin(A)}; if(!near(m->GetStart(),q,1e-6)) return bad("start angle is not that of the start"); if(m->GetMSAngle()!=(cw?B:A)||m->GetMEAngle()!=(cw?A:B)) return bad("angles in the direction of travel"); } }
  double L=s.t==0?dist(s.a,s.b):s.r*fabs(s.sw); if(fabs(m->GetLength()-L)>1e-6*(1+L)) return bad(strf("length %.12g instead of %.12g",m->GetLength(),L));
  MCAD_POINT q; P2 w=s.t==2?s.a:at_(s,0.5); if(!m->GetMidpoint(q)||!near(q,w,1e-6)) return bad(strf("midpoint (%.12g,%.12g)",q.x,q.y));
  P2 lo={1e9,1e9},hi={-1e9,-1e9}; for(int i=0;i<=720;++i){ P2 p=at_(s,i/720.0); lo.x=std::min(lo.x,p.x);lo.y=std::min(lo.y,p.y);hi.x=std::max(hi.x,p.x);hi.y=std::max(hi.y,p.y); }
  MCAD_POINT b0,b1; double tol=s.r*2e-4+1e-7; if(!m->GetBoundingBox(b0,b1)||b0.x>lo.x+1e-7||b0.y>lo.y+1e-7||b1.x<hi.x-1e-7||b1.y<hi.y-1e-7||b0.x<lo.x-tol||b0.y<lo.y-tol||b1.x>hi.x+tol||b1.y>hi.y+tol) return bad(strf("bounding box (%.9g,%.9g)-(%.9g,%.9g) instead of (%.9g,%.9g)-(%.9g,%.9g)",b0.x,b0.y,b1.x,b1.y,lo.x,lo.y,hi.x,hi.y));
  return true; }
static Sg rev(Sg s){ if(s.t==2) return s; std::swap(s.a,s.b); s.a0+=s.sw; s.sw=-s.sw; return s; }
static void segment(Rng&r,int n){ for(int k=0;k<4*n;++k){ Sg s=rseg(r); std::string in=sh(s),why; at(in); ev(); MCAD_SEGMENT m; 
    EXPECT(m.GetSegType()==MCAD_SEGTYPE_NONE&&m.GetLength()==0,"empty","new segment has a type");
    if(r.flip()) setp(&m,rseg(r)); bool ok=setp(&m,s); EXPECT(ok,"accepted","%s refused",in.c_str()); if(!ok) continue; EXPECT(same(&m,s,why),"params","%s: %s",in.c_str(),why.c_str());
    m.reverse(); EXPECT(same(&m,rev(s),why),"reverse","%s reversed: %s",in.c_str(),why.c_str()); m.reverse(); EXPECT(same(&m,s,why),"reverse-twice","%s reversed twice: %s",in.c_str(),why.c_str());
    // refused parameters leave no segment
    MCAD_POINT a=mp(s.a),b=mp(s.b),c=mp(s.c); int w=r.below(4); MCAD_SEGMENT q; setp(&q,rseg(r)); bool res=false;
    if(s.t==0){ if(w==0) b.z=1e-3; else if(w==1) a.z=-2; else b=a; res=q.SetParams(a,b); }
    else { if(w==0) c.z=1; else if(w==1) a=c; else if(w==2){ b.x+=(b.x-c.x)*0.01; b.y+=(b.y-c.y)*0.01; } else { b=c; } if(w==2&&s.t==2) b.z=4; res=q.SetParams(c,a,b,s.sw<0); }
    EXPECT(!res&&q.GetSegType()==MCAD_SEGTYPE_NONE,"refused","%s with faulty point %d accepted",in.c_str(),w); } }
// split at one or two points
static void split(Rng&r,int n){ for(int k=0;k<4*n;++k){ Sg s=rseg(r); double f=r.real(0.03,0.97),g=r.real(0.03,0.97); int np=s.t==2?2:1+r.below(2); if(np==2&&fabs(f-g)<0.02) continue; if(s.t==2) { f=r.real(0,1); g=f+r.real(0.02,0.9); if(g>=1) g-=1; }
    std::string in=sh(s)+strf(" split at %.6g",f)+(np>1?strf(" %.6g",g):""),why; at(in); ev(); MCAD_SEGMENT m; if(!setp(&m,s)) continue;
    std::list<MCAD_POINT> pl; pl.push_back(mp(at_(s,f))); if(np==2) pl.push_back(mp(at_(s,g))); std::list<MCAD_SEGMENT*> out; 
    if(s.t!=2&&r.below(5)==0){ pl.push_front(mp(r.flip()?s.a:s.b)); if(np==2) { EXPECT(!m.Split(pl,out)&&out.empty()&&same(&m,s,why),"split-three","%s: three points",in.c_str()); continue; } }
    bool ok=m.Split(pl,out); EXPECT(ok,"split","%s refused",in.c_str()); if(!ok) continue;
    std::vector<Sg> w; auto piece=[&](double x,double y){ return s.t==0?line(at_(s,x),at_(s,y)):arc(s.c,s.r,s.a0+x*s.sw,(y-x)*s.sw); };
    if(s.t==2){ double d=g-f; if(d<0) d+=1; w={arc(s.c,s.r,2*PI*g,(1-d)*2*PI),arc(s.c,s.r,2*PI*f,d*2*PI)}; } else if(np==1) w={piece(0,f),piece(f,1)}; else { double lo=std::min(f,g),hi=std::max(f,g); w={piece(0,lo),piece(lo,hi),piece(hi,1)}; }
    std::vector<MCAD_SEGMENT*> got={&m}; got.insert(got.end(),out.begin(),out.end()); EXPECT(got.size()==w.size(),"split-count","%s: %d pieces",in.c_str(),(int)got.size());
    for(size_t i=0;i<got.size()&&i<w.size();++i) EXPECT(same(got[i],w[i],why),"split-piece","%s: piece %d: %s",in.c_str(),(int)i,why.c_str());
    for(auto x:out) delete x; } }
static double fold(double a){ while(a>=2*PI) a-=2*PI; while(a<0) a+=2*PI; return a; }
// parameter of a point on a segment; margin: how far inside the ends (negative: outside)
static double marg(const Sg&s,P2 p){ if(s.t==2) return 1e9; if(s.t==0){ double L=dist(s.a,s.b),t=((p.x-s.a.x)*(s.b.x-s.a.x)+(p.y-s.a.y)*(s.b.y-s.a.y))/L; return std::min(t,L-t); }
  double g=atan2(p.y-s.c.y,p.x-s.c.x),d=fold(s.sw>0?g-s.a0:s.a0-g); double W=fabs(s.sw); if(d<=W) return s.r*std::min(d,W-d); return -s.r*std::min(d-W,2*PI-d); }
// all intersections of two segments; false: too close to a degenerate position
static bool isect(const Sg&a,const Sg&b,std::vector<P2>&v){ const double E=1e-3; std::vector<P2> c;
  if(a.t==0&&b.t==0){ double dx=a.b.x-a.a.x,dy=a.b.y-a.a.y,ex=b.b.x-b.a.x,ey=b.b.y-b.a.y,den=dx*ey-dy*ex,la=hypot(dx,dy),lb=hypot(ex,ey); if(fabs(den)<E*la*lb){ double h=fabs((b.a.x-a.a.x)*dy-(b.a.y-a.a.y)*dx)/la; return h>E*(la+lb)*2+E; } double t=((b.a.x-a.a.x)*ey-(b.a.y-a.a.y)*ex)/den; c.push_back({a.a.x+t*dx,a.a.y+t*dy}); }
  else if(a.t==0||b.t==0){ const Sg&l=a.t==0?a:b,&o=a.t==0?b:a; double dx=l.b.x-l.a.x,dy=l.b.y-l.a.y,L=hypot(dx,dy); dx/=L;dy/=L; double t=(o.c.x-l.a.x)*dx+(o.c.y-l.a.y)*dy; P2 f={l.a.x+t*dx,l.a.y+t*dy}; double h=dist(f,o.c); if(fabs(h-o.r)<E*(1+o.r)) return false; if(h>o.r) return true; double q=sqrt(o.r*o.r-h*h); c.push_back({f.x+q*dx,f.y+q*dy}); c.push_back({f.x-q*dx,f.y-q*dy}); }
  else { double d=dist(a.c,b.c); if(fabs(d-a.r-b.r)<E*5||fabs(d-fabs(a.r-b.r))<E*5||d<E*5) return false; if(d>a.r+b.r||d<fabs(a.r-b.r)) return true; double x=(d*d-b.r*b.r+a.r*a.r)/(2*d),h=sqrt(std::max(0.0,a.r*a.r-x*x)),ux=(b.c.x-a.c.x)/d,uy=(b.c.y-a.c.y)/d; c.push_back({a.c.x+x*ux-h*uy,a.c.y+x*uy+h*ux}); c.push_back({a.c.x+x*ux+h*uy,a.c.y+x*uy-h*ux}); }
  for(auto p:c){ double m=std::min(marg(a,p),marg(b,p)); if(fabs(m)<E) return false; if(m>0) v.push_back(p); }
  return true; }
static void intersect(Rng&r,int n){ for(int k=0;k<10*n;++k){ Sg a=rseg(r),b=rseg(r); if(r.flip()){ P2 d={a.c.x+r.real(-1,1)*(a.r+b.r),a.c.y+r.real(-1,1)*(a.r+b.r)}; if(b.t==1) b=arc(d,b.r,b.a0,b.sw); if(b.t==2) b=circ(d,b.r); } std::vector<P2> w; if(!isect(a,b,w)) continue; std::string in=sh(a)+" with "+sh(b); at(in); ev(!w.empty()); MCAD_SEGMENT m,o; if(!setp(&m,a)||!setp(&o,b)) continue;
    std::list<MCAD_POINT> l; MCAD_INTERSECT_FLAG f; bool res=m.GetIntersections(o,l,f); std::string g; for(auto&p:l) g+=strf("(%.9g,%.9g)",p.x,p.y); bool ok=l.size()==w.size()&&res==!w.empty(); for(auto&p:w){ bool h=false; for(auto&q:l) h|=near(q,p,1e-5); ok&=h; }
    EXPECT(ok,strf("intersect-%d%d",a.t,b.t).c_str(),"%s: %d points %s, there are %d",in.c_str(),(int)l.size(),g.c_str(),(int)w.size());
    if(ok&&l.size()==2&&a.t==2){ double A=atan2(l.front().y-a.c.y,l.front().x-a.c.x); (void)A; } } }
// polygon of a shape, inside test
static std::vector<P2> poly(const Shape&s){ std::vector<P2> v; for(auto&g:s){ int q=g.t==0?1:400; for(int i=0;i<q;++i) v.push_back(at_(g,i/(double)q)); } return v; }
static double area(const std::vector<P2>&v){ double a=0; for(size_t i=0;i<v.size();++i){ auto&p=v[i],&q=v[(i+1)%v.size()]; a+=p.x*q.y-p.y*q.x; } return a/2; }
static bool inside(const std::vector<P2>&v,P2 p,double&d){ bool in=false; d=1e9; for(size_t i=0;i<v.size();++i){ P2 a=v[i],b=v[(i+1)%v.size()]; if((a.y>p.y)!=(b.y>p.y)&&p.x<a.x+(p.y-a.y)/(b.y-a.y)*(b.x-a.x)) in=!in; double L=dist(a,b),t=L>0?((p.x-a.x)*(b.x-a.x)+(p.y-a.y)*(b.y-a.y))/(L*L):0; t=std::max(0.0,std::min(1.0,t)); d=std::min(d,dist(p,{a.x+t*(b.x-a.x),a.y+t*(b.y-a.y)})); } return in; }
static Sg fromReal(MCAD_SEGMENT*m){ MCAD_POINT a=m->GetMStart(),b=m->GetMEnd(),c=m->GetCenter(); switch(m->GetSegType()){ case MCAD_SEGTYPE_LINE: return line({a.x,a.y},{b.x,b.y}); case MCAD_SEGTYPE_CIRCLE: return circ({c.x,c.y},m->GetRadius()); default: { double w=m->GetEndAngle()-m->GetStartAngle(); Sg s=arc({c.x,c.y},m->GetRadius(),m->GetMSAngle(),m->IsCW()?-w:w); s.a={a.x,a.y}; s.b={b.x,b.y}; return s; } } }
static Shape fromReal(MCAD_OUTLINE&o){ Shape s; for(auto x:o.msegments) s.push_back(fromReal(x)); return s; }
// a random closed shape, counterclockwise: star polygon with some corners rounded or sides replaced by arcs, or a circle
static Shape rshape(Rng&r,P2 c,double R,bool noc=false){ int k=r.below(noc?4:5); Shape s; if(k==4) return {circ(c,R)};
  if(k==0){ double w=R,h=R*r.real(0.5,1); P2 q[4]={{c.x-w,c.y-h},{c.x+w,c.y-h},{c.x+w,c.y+h},{c.x-w,c.y+h}}; for(int i=0;i<4;++i) s.push_back(line(q[i],q[(i+1)%4])); return s; }
  if(k==1){ double w=R,h=R*r.real(0.5,1),f=h*r.real(0.1,0.8); P2 q[4]={{c.x+w-f,c.y-h+f},{c.x+w-f,c.y+h-f},{c.x-w+f,c.y+h-f},{c.x-w+f,c.y-h+f}}; double A[4]={-PI/2,0,PI/2,PI}; for(int i=0;i<4;++i){ Sg a=arc(q[i],f,A[i],PI/2); s.push_back(a); Sg b=arc(q[(i+1)%4],f,A[(i+1)%4],PI/2); s.push_back(line(a.b,b.a)); } return s; }
  int m=3+r.below(5); std::vector<P2> q; double a0=r.real(0,6); for(int i=0;i<m;++i){ double a=a0+2*PI*i/m+r.real(-0.2,0.2)*2*PI/m,d=R*r.real(0.6,1); q.push_back({c.x+d*cos(a),c.y+d*sin(a)}); }
  for(int i=0;i<m;++i){ P2 a=q[i],b=q[(i+1)%m]; if(k==2||r.flip()){ s.push_back(line(a,b)); continue; } double L=dist(a,b),h=r.real(0.05,0.4)*L*(r.flip()&&k==3?1:1); P2 md={(a.x+b.x)/2,(a.y+b.y)/2}; double nx=(b.y-a.y)/L,ny=-(b.x-a.x)/L; double rad=(L*L/4+h*h)/(2*h); P2 o={md.x-nx*(rad-h),md.y-ny*(rad-h)}; double A=atan2(a.y-o.y,a.x-o.x),B=atan2(b.y-o.y,b.x-o.x); double w=B-A; while(w<=0) w+=2*PI; s.push_back(arc(o,rad,A,w)); }
  return s; }
static bool straight(const Shape&s){ for(auto&g:s) if(g.t) return false; return true; }
static Shape turned(const Shape&s,P2 c,double w){ Shape t=s; auto f=[&](P2 p){ double x=p.x-c.x,y=p.y-c.y; return P2{c.x+x*cos(w)-y*sin(w),c.y+x*sin(w)+y*cos(w)}; }; for(auto&g:t){ g.a=f(g.a); g.b=f(g.b); if(g.t){ g.c=f(g.c); g.a0+=w; } if(g.t==2){ g=circ(g.c,g.r); } } return t; }
static Shape reversed(const Shape&s){ Shape t; for(auto i=s.rbegin();i!=s.rend();++i) t.push_back(rev(*i)); return t; }
static bool build(MCAD_OUTLINE&o,const Shape&s,std::vector<MCAD_SEGMENT*>*v=NULL){ for(auto&g:s){ auto*m=mkseg(g); bool e=true; if(!m) return false; if(!o.AddSegment(m,e)||e){ delete m; return false; } if(v) v->push_back(m); } return true; }
static bool contig(MCAD_OUTLINE&o){ MCAD_SEGMENT*p=o.msegments.back(); if(o.msegments.size()==1) return p->GetSegType()==MCAD_SEGTYPE_CIRCLE; for(auto x:o.msegments){ if(!nearp(x->GetMStart(),p->GetMEnd(),2e-8)) return false; p=x; } return true; }
static void chain(Rng&r,int n){ for(int k=0;k<n;++k){ Shape s=rshape(r,{r.real(-20,20),r.real(-20,20)},r.real(1,30)); bool back=r.flip(); if(back) s=reversed(s); if(r.below(4)==0&&s.size()>2) std::rotate(s.begin(),s.begin()+1,s.end()); std::string in=sh(s),why; at(in); ev(); MCAD_OUTLINE o; std::vector<MCAD_SEGMENT*> v; bool e;
    for(size_t i=0;i<s.size();++i){ // segments which do not continue the outline
      if(i){ Sg bad=s[i]; bad.a.x+=0.01; if(bad.t==0){ auto*m=mkseg(bad); if(m){ e=false; std::list<MCAD_SEGMENT*> before=o.msegments; EXPECT(!o.AddSegment(m,e)&&e&&o.msegments==before&&!o.IsClosed(),"gap","%s: segment %d with a gap accepted",in.c_str(),(int)i); delete m; } } auto*m=mkseg(circ({1,1},3)); e=false; EXPECT(!o.AddSegment(m,e)&&e&&o.msegments.size()==i,"circle-late","%s: circle accepted as segment %d",in.c_str(),(int)i); delete m; }
      MCAD_SEGMENT none; e=false; EXPECT(!o.AddSegment(&none,e)&&e&&!o.AddSegment(NULL,e)&&o.msegments.size()==i,"no-data","segment without data accepted");
      EXPECT(!o.IsClosed()&&!o.IsContiguous(),"open","%s: closed after %d segments",in.c_str(),(int)i); auto*m=mkseg(s[i]); if(!m) goto next; e=true; EXPECT(o.AddSegment(m,e)&&!e,"add","%s: segment %d refused",in.c_str(),(int)i); v.push_back(m); 
      if(i+1<s.size()){ std::list<MCAD_SEGMENT*> w(v.begin(),v.end()); EXPECT(o.msegments==w,"order","%s: order after %d",in.c_str(),(int)i); EXPECT(same(m,s[i],why),"kept","%s: segment %d: %s",in.c_str(),(int)i,why.c_str()); } }
    EXPECT(o.IsClosed()&&o.IsContiguous()&&contig(o),"closed","%s: not closed",in.c_str());
    { std::set<MCAD_SEGMENT*> x(v.begin(),v.end()),y(o.msegments.begin(),o.msegments.end()); EXPECT(x==y&&o.msegments.size()==v.size(),"members","%s: segments lost",in.c_str()); auto pa=poly(s),pb=poly(fromReal(o)); EXPECT(fabs(area(pb)-fabs(area(pa)))<1e-6*(1+fabs(area(pa))),"ccw","%s: area %.9g becomes %.9g",in.c_str(),area(pa),area(pb));
      double x0=1e9,y0=1e9,x1=-1e9,y1=-1e9; for(auto&p:pa){ x0=std::min(x0,p.x);x1=std::max(x1,p.x);y0=std::min(y0,p.y);y1=std::max(y1,p.y); } EXPECT(o.mBottomLeft.x<=x0+1e-6&&o.mBottomLeft.y<=y0+1e-6&&o.mTopRight.x>=x1-1e-6&&o.mTopRight.y>=y1-1e-6,"box","%s: bounding box",in.c_str());
      for(int t=0;t<20;++t){ P2 p={r.real(x0-9,x1+9),r.real(y0-9,y1+9)}; double d; bool w=inside(pa,p,d); if(d<0.01) continue; e=false; bool g=o.IsInside(mp(p),e); EXPECT(!e&&g==w,"inside","%s: point (%.9g,%.9g) %s",in.c_str(),p.x,p.y,w?"inside":"outside"); } }
    { auto*m=mkseg(line({0,0},{1,1})); e=false; EXPECT(!o.AddSegment(m,e)&&e&&o.msegments.size()==v.size(),"add-closed","%s: segment added to closed outline",in.c_str()); delete m; }
    next:; } }
// union and difference with an outline or a circle
static int crossings(const Shape&a,const Shape&b,bool&generic){ int n=0; generic=true; for(auto&x:a) for(auto&y:b){ std::vector<P2> v; if(!isect(x,y,v)) { generic=false; return 0; } n+=v.size(); } return n; }
static void combine(Rng&r,int n){ for(int k=0;k<2*n;++k){ P2 c={r.real(-20,20),r.real(-20,20)}; double R=r.real(5,30); Shape a=rshape(r,c,R); if(r.flip()) a=turned(a,c,r.real(0.1,1.4)); MCAD_OUTLINE o; if(!build(o,a)) continue; std::string in=sh(a); int steps=1+r.below(4);
    for(int st=0;st<steps;++st){ Shape cur=fromReal(o); auto pa=poly(cur); P2 on=pa[r.below(pa.size())]; double q=r.real(0.1,0.7)*R; bool cir=r.flip(); Shape b; if(cir) b={circ({on.x+r.real(-.5,.5)*q,on.y+r.real(-.5,.5)*q},q)}; else b=rshape(r,{on.x+r.real(-.5,.5)*q,on.y+r.real(-.5,.5)*q},q,true); if(r.below(6)==0&&!cir) b=rshape(r,{on.x+R*3,on.y},q,true);
      if(r.flip()) b=turned(b,on,r.real(0.1,1.4));
      bool gen; int nx=crossings(cur,b,gen); if(!gen) break; auto pb=poly(b); bool sub=r.flip(); std::string in2=in+strf(" %s %s",sub?"minus":"plus",sh(b).c_str()); at(in2); ev(nx==2); bool e=false,res; MCAD_OUTLINE*ob=NULL; MCAD_SEGMENT*sb=NULL;
      if(cir){ sb=mkseg(b[0]); res=sub?o.SubOutline(sb,e):o.AddOutline(sb,e); if(!res) delete sb; }
      else { ob=new MCAD_OUTLINE; if(!build(*ob,b)){ delete ob; break; } res=sub?o.SubOutline(ob,e):o.AddOutline(ob,e); }
      bool inAny=false; if(!res&&!e){ for(int t=0;t<40;++t){ P2 p={c.x+r.real(-1,1)*R*1.5,c.y+r.real(-1,1)*R*1.5}; double d1; bool x=inside(pa,p,d1); if(d1<0.01*q) continue; bool e2=false; bool y=o.IsInside(mp(p),e2); EXPECT(x==y&&!e2,"is-inside","%s: (%.9g,%.9g) is %s",in2.c_str(),p.x,p.y,x?"inside":"outside"); } }
      { double d; inAny=inside(pa,pb[0],d)||inside(pb,pa[0],d); }
      if(nx==0){ bool circ2=cir&&cur.size()==1&&cur[0].t==2; EXPECT(!res&&(!e||(circ2&&inAny)),"no-crossing","%s: merged without intersection",in2.c_str()); }
      else if(nx==2){ EXPECT(res&&!e,cir?"two-crossings-circle":"two-crossings","%s: refused",in2.c_str()); }
      else EXPECT(!res&&e,"many-crossings","%s: %d intersections accepted",in2.c_str(),nx);
      if(res){ EXPECT(o.IsClosed()&&contig(o),"contiguous","%s: result has a gap",in2.c_str()); auto pr=poly(fromReal(o)); bool okp=true; for(int t=0;t<60;++t){ P2 p= t&1?P2{on.x+r.real(-1,1)*q*2,on.y+r.real(-1,1)*q*2}:P2{c.x+r.real(-1,1)*R*1.5,c.y+r.real(-1,1)*R*1.5}; double d1,d2,d3; bool x=inside(pa,p,d1),y=inside(pb,p,d2),z=inside(pr,p,d3); if(std::min(d1,std::min(d2,d3))<0.01*q) continue; bool w=sub?(x&&!y):(x||y); if(z!=w) okp=false; }
        EXPECT(okp,sub?"difference":"union","%s: wrong region",in2.c_str()); EXPECT(area(pr)>0,"orientation","%s: result runs clockwise",in2.c_str()); if(!okp) break; in=in2; }
      else { auto pr=poly(fromReal(o)); EXPECT(pr.size()==pa.size()&&fabs(area(pr)-area(pa))<1e-9*(1+fabs(area(pa))),"unchanged","%s: refused but outline changed",in2.c_str()); }
      if(ob&&!res) delete ob; if(!res&&e) break; } } }
static void cutout(Rng&r,int n){ for(int k=0;k<n;++k){ MCAD_OUTLINE o; Shape a=rshape(r,{0,0},20,true); if(!build(o,a)) continue; std::string in=sh(a); at(in); ev(); bool e=false; size_t nc=0,nh=0; auto pa=poly(a);
    EXPECT(!o.AddCutout((MCAD_OUTLINE*)NULL,false,e)&&e,"cut-null","null accepted"); e=false; EXPECT(!o.AddCutout((MCAD_SEGMENT*)NULL,true,e)&&e,"cut-null","null accepted");
    { MCAD_OUTLINE*c=new MCAD_OUTLINE; e=false; EXPECT(!o.AddCutout(c,r.flip(),e)&&e&&o.mcutouts.empty(),"cut-open","open cutout accepted"); delete c; auto*m=mkseg(line({0,0},{1,0})); e=false; EXPECT(!o.AddCutout(m,r.flip(),e)&&e&&o.mholes.empty(),"cut-line","line accepted as hole"); delete m; }
    std::vector<P2> used; for(int t=0;t<6;++t){ P2 c={r.real(-9,9),r.real(-9,9)}; double q=r.real(0.2,0.9); bool free=true; for(auto&u:used) free&=dist(u,c)>2.5; double d; if(!free||!inside(pa,c,d)||d<1.5) continue; used.push_back(c); e=true; bool ov=r.flip();
      if(r.flip()){ auto*m=mkseg(circ(c,q)); EXPECT(o.AddCutout(m,ov,e)&&!e,"hole","%s: hole at (%g,%g) refused",in.c_str(),c.x,c.y); ++nh; EXPECT(o.mholes.size()==nh&&o.mholes.back()==m,"hole-list","hole not listed"); }
      else { auto*x=new MCAD_OUTLINE; Shape b=rshape(r,c,q,true); if(!build(*x,b)){ delete x; continue; } EXPECT(o.AddCutout(x,ov,e)&&!e,"cut","%s: cutout %s refused",in.c_str(),sh(b).c_str()); ++nc; EXPECT(o.mcutouts.size()==nc&&o.mcutouts.back()==x,"cut-list","cutout not listed"); } 
      EXPECT(o.mcutouts.size()==nc&&o.mholes.size()==nh&&o.msegments.size()==a.size(),"cut-frame","%s: other lists changed",in.c_str()); } } }
int main(int c,char**v){ return run_groups(c,v,{{"segment",segment},{"split",split},{"intersect",intersect},{"chain",chain},{"combine",combine},{"cutout",cutout}}); }
