// C02: section records
#include "common.h"
#include <core/iges_io.h>
static std::string num7(int n){ std::string d=strf("%d",n); return std::string(d.size()<7?7-d.size():0,' ')+d; }
static std::string num8(int n){ std::string d=strf("%d",n); return std::string(8-d.size(),' ')+d; }
struct Model { bool g; int W; int idx, de; std::string cur, out; 
  void flush(){ cur.resize(W,' '); out+=cur; if(!g) out+=num8(de); out+=g?'G':'P'; out+=num7(idx++); out+='\n'; cur.clear(); }
  void item(const std::string&t,bool fin){ if(cur.size()+t.size()>(size_t)W) flush(); cur+=t; if(fin) flush(); }
  void str(const std::string&h,const std::string&s,bool fin){ if(cur.size()+h.size()>(size_t)W) flush(); for(char c:h+s){ cur+=c; if(cur.size()==(size_t)W) flush(); } if(fin&&!cur.empty()) flush(); } };
static void seq(Rng&r,bool g){
  char pd=",;|"[r.below(3)], rd; do rd=";,$"[r.below(3)]; while(rd==pd);
  static const int starts[]={1,9,95,999,99998,9999990}; Model m{g,g?72:64,starts[r.below(6)],1+2*r.below(r.flip()?40:4000000)}; std::string f,o; int idx=m.idx; int n=1+r.below(12); std::string hist=strf("%s start %d de %d:",g?"G":"P",idx,m.de);
  for(int k=0;k<n;++k){
    bool fin=k==n-1||r.below(12)==0; char d=fin?rd:pd; bool ok,str=r.below(3)==0; std::string cl;
    if(str){ int len=r.below(8)==0?0:(r.flip()?r.below(20):r.range(m.W-8,m.W+8)); if(r.below(6)==0) len=r.range(100,300); std::string s; for(int i=0;i<len;++i) s+=r.flip()?(char)(32+r.below(95)):" ,;H12"[r.below(6)];
      hist+=strf(" S%d%c",len,d); at(hist); ev();
      ok=g?AddSecHStr(s,f,o,idx,pd,rd,d):AddPDHStr(s,f,o,idx,m.de,pd,rd,d);
      if(s.empty()) m.item(std::string(1,d),fin); else m.str(strf("%dH",len),s+d,fin);
    } else { int len=r.flip()?1+r.below(12):(r.flip()?m.W-r.below(6):1+r.below(m.W)); std::string s; for(int i=0;i<len-1;++i) s+=(char)('0'+r.below(10)); s+=d;
      int room=m.W-(int)f.size(); if(r.below(3)==0&&room>1){ s=std::string(room-1+r.range(-1,1)<1?0:room-1+r.range(-1,1),'7')+d; if((int)s.size()>m.W) s=s.substr(s.size()-m.W); }
      hist+=strf(" I%d%c",(int)s.size(),d); at(hist); ev(); std::string t=s;
      ok=g?AddSecItem(t,f,o,idx,pd,rd):AddPDItem(t,f,o,idx,m.de,pd,rd); EXPECT(!ok||t.empty(),"item-kept","%s: item not cleared",hist.c_str());
      m.item(s,fin); }
    if(m.idx==10000000) return; if(m.idx>10000000){ EXPECT(!ok,"seq-range","%s: a sequence number beyond seven digits was accepted",hist.c_str()); return; }
    EXPECT(ok,"refused","%s: refused",hist.c_str());
    if(!ok) return;
    EXPECT(idx==m.idx,"seq-number","%s: next sequence number %d, expected %d",hist.c_str(),idx,m.idx);
    EXPECT(o==m.out,"records","%s: records\n%s expected\n%s",hist.c_str(),o.c_str(),m.out.c_str());
    EXPECT(f==m.cur,"pending","%s: pending '%s' expected '%s'",hist.c_str(),f.c_str(),m.cur.c_str());
    if(o!=m.out||f!=m.cur||idx!=m.idx) return;
  }
}
static void g_g(Rng&r,int n){ for(int i=0;i<n;++i) seq(r,true); }
static void g_p(Rng&r,int n){ for(int i=0;i<n;++i) seq(r,false); }
static void g_bad(Rng&r,int n){ for(int i=0;i<n;++i){ bool g=r.flip(); int W=g?72:64; std::string f(r.below(120),'x'),o,t(r.below(120),'5'); int idx=1; if(!t.empty()) t.back()=','; std::string t0=t; size_t fl=f.size(); at(strf("%s item %d pending %d",g?"G":"P",(int)t.size(),(int)f.size())); ev();
    bool ok=g?AddSecItem(t,f,o,idx,',',';'):AddPDItem(t,f,o,idx,7,',',';'); EXPECT(ok==(t0.size()>=1&&(int)t0.size()<=W&&(int)fl<=W),"bad-item","%s item of %d with %d pending: %s",g?"G":"P",(int)t0.size(),(int)fl,ok?"accepted":"refused");
    EXPECT(ok||o.empty(),"bad-output","refused item emitted '%s'",o.c_str());
    std::string f2(fl,'x'),o2,s(1+r.below(100),'q'); idx=1; at(strf("%s string %d pending %d",g?"G":"P",(int)s.size(),(int)fl)); ok=g?AddSecHStr(s,f2,o2,idx,',',';',','):AddPDHStr(s,f2,o2,idx,7,',',';',','); EXPECT(ok==((int)fl<=W),"bad-string","%s string with %d pending: %s",g?"G":"P",(int)fl,ok?"accepted":"refused");
    EXPECT(!ok||(int)f2.size()<=W,"bad-rest","pending %d",(int)f2.size()); } }
int main(int c,char**v){ return run_groups(c,v,{{"global",g_g},{"parameter",g_p},{"refused",g_bad}}); }
