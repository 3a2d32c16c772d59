#include "common.h"
#include <geom/mcad_utils.h>
// own model: the parts are always computed from the one full path
struct Model { std::string P;
  size_t b()const{ size_t s=P.rfind('/'); return s==std::string::npos?0:s+1; }
  bool has(size_t&d)const{ d=P.rfind('.'); return d!=std::string::npos&&d>b(); }
  std::string file()const{ return P.substr(b()); }
  std::string base()const{ size_t d; return has(d)?P.substr(b(),d-b()):file(); }
  bool ext(std::string&x)const{ size_t d; if(!has(d)) return false; x=P.substr(d+1); return true; }
  static std::string native(std::string s){ for(char&c:s) if(c=='\\') c='/'; return s; }
  bool setext(const char*x){ if(P.empty()) return false; std::string t=x?x:""; if(t==".") return false; size_t d; if(has(d)) P.erase(d); if(t.empty()) return true; P+=t[0]=='.'?t:"."+t; return true; }
  bool append(const char*x){ std::string t=native(x?x:""); if(t.empty()||t=="/") return true; P=P.empty()?t:P+"/"+t; return true; } };
static std::string show(const char*s){ return s?std::string("\"")+s+"\"":"none"; }
static void look(MCAD_FILEPATH&f,const Model&m,const std::string&in,int order){
  for(int k=0;k<4;++k){ int w=(order>>(2*k))&3; const char*g; std::string x; bool some=!m.P.empty();
    switch(w){
      case 0: g=f.GetFullPath(); EXPECT(some?(g&&m.P==g):!g,"full-path","%s: full path %s, expected \"%s\"",in.c_str(),show(g).c_str(),m.P.c_str()); break;
      case 1: g=f.GetFileName(); EXPECT(some?(g&&m.file()==g):!g,"file-name","%s: file name %s, expected \"%s\"",in.c_str(),show(g).c_str(),m.file().c_str()); break;
      case 2: g=f.GetBaseName(); EXPECT(some?(g&&m.base()==g):!g,"base-name","%s: base name %s, expected \"%s\"",in.c_str(),show(g).c_str(),m.base().c_str()); break;
      case 3: { bool h=m.ext(x); g=f.GetExtension(); EXPECT(h?(g&&x==g):!g,"extension","%s: extension %s, expected %s",in.c_str(),show(g).c_str(),h?x.c_str():"none"); } } }
  if(!m.P.empty()){ const char*p=f.GetFullPath(),*q=f.GetFileName(); if(p&&q){ std::string P=p,Q=q; size_t s=P.rfind('/'); std::string dir=s==std::string::npos?"":P.substr(0,s+1); EXPECT(dir+Q==P,"join","%s: directory \"%s\" and file name \"%s\" against the path \"%s\"",in.c_str(),dir.c_str(),q,p);
      std::string j=f.GetBaseName(); if(const char*x=f.GetExtension()) j+=std::string(".")+x; EXPECT(j==Q,"join-ext","%s: base name and extension give \"%s\", the file name is \"%s\"",in.c_str(),j.c_str(),q); } }
  ev(); }
static const int ORD[]={0x1B,0xE4,0x39,0x93,0x4E,0xD2,0x2D,0xC6};
static void small(Rng&r,int n){ // every path of at most six of these characters
  const char A[]={'a','.','/','\\','b'}; (void)n;
  for(int len=0;len<=6;++len){ long tot=1; for(int i=0;i<len;++i) tot*=5;
    for(long c=0;c<tot;++c){ std::string s; long x=c; for(int i=0;i<len;++i){ s+=A[x%5]; x/=5; } std::string in="path \""+s+"\""; if(len<6||c%17==0) at(in); Model m; m.P=Model::native(s); MCAD_FILEPATH f(s.c_str()); look(f,m,in,ORD[r.below(8)]); } } }
static std::string part(Rng&r){ static const char*T[]={"a","board","b.c","x.tar.gz","..",".",".hid","dir/","/","\\","c\\d.e","a b.emn","end.","/abs/f","\xC3\xA9.igs","","averyveryverylongnameofafile.withalongextension","d.x/name"}; 
  if(r.flip()) return T[r.below(18)]; std::string s; const char A[]="ab./\\ z9_"; for(int k=r.below(12);k>0;--k) s+=A[r.below(9)]; return s; }
static void edits(Rng&r,int n){
  for(int c=0;c<n;++c){ MCAD_FILEPATH f; Model m; std::string in; int ops=1+r.below(6);
    for(int k=0;k<ops;++k){ std::string a=part(r); bool nul=r.below(12)==0; const char*p=nul?NULL:a.c_str(); bool got=true,want=true;
      switch(k==0?0:r.below(4)){
        case 0: in+=" SetPath("+show(p)+")"; at(in); got=f.SetPath(p); m.P=Model::native(p?p:""); break;
        case 1: if(m.base().empty()) break; in+=" SetExtension("+show(p)+")"; at(in); { std::string dir=m.P.substr(0,m.b()),b=m.base(); got=f.SetExtension(p); want=m.setext(p);
            bool plain=want&&p&&a.find_first_of("./\\")==std::string::npos&&!a.empty(); if(plain){ const char*q=f.GetBaseName(),*e=f.GetExtension(),*w=f.GetFullPath(); EXPECT(q&&b==q&&e&&a==e&&w&&dir+b+"."+a==w,"only-extension","%s: base name %s, extension %s, path %s",in.c_str(),show(q).c_str(),show(e).c_str(),show(w).c_str()); } } break;
        case 2: in+=" Append("+show(p)+")"; at(in); got=f.Append(p); want=m.append(p); break;
        default: break; }
      EXPECT(got==want,"result","%s: result %d, expected %d",in.c_str(),got,want);
      if(r.below(4)) look(f,m,in,ORD[r.below(8)]); else if(r.flip()){ int w=r.below(3); if(w==0) f.GetExtension(); else if(w==1) f.GetBaseName(); else f.GetFileName(); } }
    look(f,m,in,ORD[r.below(8)]); } }
int main(int c,char**v){ return run_groups(c,v,{{"small",small},{"edits",edits}}); }
