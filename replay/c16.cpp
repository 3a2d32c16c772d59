#include "common.h"
#include <idf_parser.h>
#include <idf_helpers.h>
#include <idf_outlines.h>
using namespace IDF3;
typedef std::string S;
static bool sp(char c){ return c==' '||(c>=9&&c<=13); }
static S up(S s){ for(char&c:s) if(c>='a'&&c<='z') c-=32; return s; }
static S pid(const char*x){ return strf("/tmp/c16_%d.%s",(int)getpid(),x); }
struct Tmp { S n; Tmp(const char*x):n(pid(x)){} ~Tmp(){ unlink(n.c_str()); } void put(const S&t){ std::ofstream o(n,std::ios::binary); o<<t; } S get(){ std::ifstream i(n); std::stringstream s; s<<i.rdbuf(); return s.str(); } };
// own reading of one token: 0 none, 1 token, 2 open quote
static int tok(const S&l,size_t i,S&t,bool&q,size_t&e){ while(i<l.size()&&sp(l[i])) ++i; if(i==l.size()){ e=i; return 0; } 
  if(l[i]=='"'){ size_t j=l.find('"',i+1); if(j==S::npos){ e=l.size(); return 2; } t=l.substr(i+1,j-i-1); q=true; e=j+1; return 1; }
  size_t j=i; while(j<l.size()&&!sp(l[j])) ++j; t=l.substr(i,j-i); q=false; e=j; return 1; }
static void line(const S&src){
  char*b=new char[src.size()+1]; memcpy(b,src.c_str(),src.size()+1); S l(b); delete[]b; l.shrink_to_fit(); S in="line \""+src+"\""; at(in);
  int idx=0; for(size_t k=0;k<=src.size()+1;++k){ S t,g="?"; bool q=false,h=false; size_t e=0; int old=idx; int w=old>=(int)src.size()?0:tok(src,old,t,q,e); if(old>=(int)src.size()) e=old;
    bool r=GetIDFString(l,g,h,idx); EXPECT(r==(w==1),"found","%s from %d: %s a token, expected %s",in.c_str(),old,r?"returned":"no",w==1?"one":"none");
    EXPECT(idx==(int)e,"position","%s from %d: position %d afterwards, expected %zu",in.c_str(),old,idx,e);
    if(r){ EXPECT(g==t,"text","%s from %d: token \"%s\", expected \"%s\"",in.c_str(),old,g.c_str(),t.c_str()); EXPECT(h==q,"quoted","%s from %d: quoted %d, expected %d",in.c_str(),old,h,q); EXPECT(idx>old,"advance","%s from %d: no progress",in.c_str(),old); } else EXPECT(g=="?","kept","%s from %d: no token, yet the text became \"%s\"",in.c_str(),old,g.c_str());
    ev(w==1); if(!r||idx<=old) break; } }
static void tokens(Rng&r,int n){ (void)n; const char A[]={'a','"',' ','\t','#','z'};
  for(int len=0;len<=6;++len){ long tot=1; for(int i=0;i<len;++i) tot*=6; for(long c=0;c<tot;++c){ S s; long x=c; for(int i=0;i<len;++i){ s+=A[x%6]; x/=6; } line(s); } }
  const char B[]="ab\"\"  \t\r\v\f.,-+1'\\\xE9#"; for(int c=0;c<4000;++c){ S s; for(int k=r.below(60);k>0;--k) s+=B[r.below(sizeof B-1)]; line(s); }
  for(int c=0;c<3000;++c){ S s; for(int k=r.below(20);k>0;--k) s+=B[r.below(sizeof B-1)]; int i=c%3==0?-1-r.below(1000):(int)s.size()+r.below(1000),j=i; if(c%7==0) i=j=INT32_MIN; if(c%11==0) i=j=INT32_MAX; S g="?"; bool q=true; at(strf("line of %zu characters from %d",s.size(),i)); bool k=GetIDFString(s,g,q,j); EXPECT(!k&&g=="?","outside","a token was returned from position %d of a line of %zu characters",i,s.size()); ev(); } }
static void lines(Rng&r,int n){ Tmp T("txt");
  for(int c=0;c<n/4+100;++c){ std::vector<S> L; int k=1+r.below(6); const char A[]="ab \t\"#.1 \r"; for(int i=0;i<k;++i){ S s; for(int j=r.below(14);j>0;--j) s+=A[r.below(10)]; if(r.below(4)==0) s="#"+s; L.push_back(s); }
    S t; for(auto&s:L) t+=s+"\n"; at("lines "+t); T.put(t); std::ifstream f(T.n); 
    for(auto&s:L){ S w=s,g; bool cm=false,wc=!w.empty()&&w[0]=='#'; std::streampos p; if(wc) w.erase(0,1); while(!w.empty()&&sp(w[0])) w.erase(0,1); while(!w.empty()&&sp(w[w.size()-1])) w.erase(w.size()-1);
      bool x=FetchIDFLine(f,g,cm,p); EXPECT(x==(wc||!w.empty()),"line-found","line \"%s\": %d",s.c_str(),x); EXPECT(g==w,"line-text","line \"%s\" was read as \"%s\"",s.c_str(),g.c_str()); EXPECT(cm==wc,"line-comment","line \"%s\": comment %d",s.c_str(),cm); ev(); } } }
struct W { const char*w; int v; };
static const W OWN[]={{"UNOWNED",UNOWNED},{"ECAD",ECAD},{"MCAD",MCAD}}, LAY[]={{"TOP",LYR_TOP},{"BOTTOM",LYR_BOTTOM},{"BOTH",LYR_BOTH},{"INNER",LYR_INNER},{"ALL",LYR_ALL}}, PLA[]={{"PLACED",PS_PLACED},{"UNPLACED",PS_UNPLACED},{"MCAD",PS_MCAD},{"ECAD",PS_ECAD}};
static const char*KW[]={"UNOWNED","ECAD","MCAD","TOP","BOTTOM","BOTH","INNER","ALL","PLACED","UNPLACED","FIXED","PTH","NPTH","BOARD","NOREFDES","PANEL","PIN","VIA","MTG","TOOL","MM","THOU","TNM",".HEADER",".END_HEADER",".BOARD_OUTLINE","PROP",""};
static const int NKW=sizeof KW/sizeof*KW;
static S anycase(Rng&r,S s){ int m=r.below(3); for(char&c:s) if(c>='A'&&c<='Z'&&(m==1||(m==2&&r.flip()))) c+=32; return s; }
static S near(Rng&r,S s){ S o=s; while(up(s)==up(o)||s.find_first_of(" \t\"")!=S::npos||s.empty()){ s=o; switch(r.below(7)){ case 0: if(!s.empty()) s.erase(r.below(s.size()),1); break; case 1: s.insert(r.below(s.size()+1),1,"AEXS_0"[r.below(6)]); break; case 2: if(!s.empty()) s[r.below(s.size())]="ABXZ-"[r.below(5)]; break; case 3: s+="S"; break; case 4: s=KW[r.below(NKW)]; break; case 5: if(s.size()>1) std::swap(s[0],s[s.size()-1]); break; case 6: if(!s.empty()) s[r.below(s.size())]^=(char)0x80; break; } } return s; }
static S word(Rng&r){ S s=KW[r.below(NKW)]; return r.below(3)?anycase(r,s):near(r,s); }
static void words(Rng&r,int n){
  for(int c=0;c<n*2;++c){ S t=word(r); S in="word \""+t+"\""; at(in); const char*k=KW[r.below(NKW)]; if(r.flip()) for(int i=0;i<NKW;++i) if(up(t)==KW[i]) k=KW[i];
    EXPECT(CompareToken(k,t)==(up(t)==k),"compare","%s against %s: %d",in.c_str(),k,(int)CompareToken(k,t));
    { KEY_OWNER o=(KEY_OWNER)99; bool g=ParseOwner(t,o),w=false; int v=99; for(auto&x:OWN) if(up(t)==x.w){ w=true; v=x.v; } EXPECT(g==w&&(!w||o==v),"owner","owner %s: accepted %d as %d, expected %d as %d",in.c_str(),g,(int)o,w,v); }
    { IDF_LAYER o=(IDF_LAYER)99; bool g=ParseIDFLayer(t,o),w=false; int v=99; for(auto&x:LAY) if(up(t)==x.w){ w=true; v=x.v; } EXPECT(g==w&&(!w||o==v),"layer","layer %s: accepted %d as %d, expected %d as %d",in.c_str(),g,(int)o,w,v); }
    ev(); }
  for(auto&x:OWN){ EXPECT(GetOwnerString((KEY_OWNER)x.v)==x.w,"owner-text","owner %s is written %s",x.w,GetOwnerString((KEY_OWNER)x.v).c_str()); ev(); }
  for(auto&x:LAY){ EXPECT(GetLayerString((IDF_LAYER)x.v)==x.w,"layer-text","layer %s is written %s",x.w,GetLayerString((IDF_LAYER)x.v).c_str()); Tmp T("lay"); std::ofstream o(T.n); bool g=WriteLayersText(o,(IDF_LAYER)x.v); o.close(); EXPECT(g&&T.get()==x.w,"layer-written","layer %s is written %s",x.w,T.get().c_str()); ev(); }
  for(auto&x:PLA){ EXPECT(GetPlacementString((IDF_PLACEMENT)x.v)==x.w,"placement-text","placement %s is written %s",x.w,GetPlacementString((IDF_PLACEMENT)x.v).c_str()); ev(); } }
static S num(Rng&r,double&v,int lo,int hi){ int k=r.range(lo*100,hi*100); v=k/100.0; return strf("%.2f",v); }
static bool near_(double a,double b){ return fabs(a-b)<=1e-9*(1+fabs(b)); }
static const char*PLT[]={"PTH","NPTH"},*HOLE[]={"PIN","VIA","MTG","TOOL"},*REFD[]={"BOARD","NOREFDES","PANEL"};
struct Hole { double d,x,y; S pl,ref,hole,own; S refk,holek; };
static S holetext(Rng&r,bool v3,Hole&h,bool onboard){ S l; l+=num(r,h.d,10,3000)+" "; l+=num(r,h.x,-3000,3000)+(r.flip()?" ":"\t "); l+=num(r,h.y,-3000,3000);
  S ref=onboard?REFD[r.below(2)]:REFD[r.below(3)]; bool kr=r.flip(); if(!kr){ ref="R"+strf("%d",1+r.below(5)); if(r.below(4)==0) ref+=" x"; } h.ref=ref; S rt=kr?anycase(r,ref):ref; if(rt.find(' ')!=S::npos||r.flip()) rt="\""+rt+"\"";
  S ho=HOLE[r.below(4)]; bool kh=r.below(3); if(!kh){ ho=near(r,ho); for(auto x:HOLE) if(up(ho)==x) ho="H1"; } h.hole=ho; S ht=kh?anycase(r,ho):ho; if(r.below(3)==0) ht="\""+ht+"\"";
  h.pl=PLT[r.below(2)]; h.own=OWN[r.below(3)].w;
  if(v3) l+=" "+anycase(r,h.pl)+" "+rt+"  "+ht+" "+anycase(r,h.own); else { l+=" "+ht+" "+rt; h.pl="PTH"; h.own="UNOWNED"; } return l; }
static double fac(int u){ return u==UNIT_THOU?0.0254:u==UNIT_TNM?0.00001:1.0; }
static void samehole(IDF_DRILL_DATA&d,const Hole&h,double f,const S&in,double tol=0){
  auto c=[&](double a,double b){ return tol?fabs(a-b)<=tol:near_(a,b); };
  EXPECT(c(d.dia,h.d*f)&&c(d.x,h.x*f)&&c(d.y,h.y*f),"hole-numbers","%s: diameter %g at (%g,%g), expected %g at (%g,%g)",in.c_str(),d.dia,d.x,d.y,h.d*f,h.x*f,h.y*f);
  EXPECT((d.plating==PTH)==(h.pl=="PTH"),"plating","%s: plating %d, expected %s",in.c_str(),d.plating,h.pl.c_str());
  EXPECT(d.GetDrillRefDes()==h.ref,"hole-refdes","%s: belongs to %s, expected %s",in.c_str(),d.GetDrillRefDes().c_str(),h.ref.c_str());
  EXPECT(d.GetDrillHoleType()==h.hole,"hole-type","%s: hole type %s, expected %s",in.c_str(),d.GetDrillHoleType().c_str(),h.hole.c_str());
  EXPECT(GetOwnerString(d.owner)==h.own,"hole-owner","%s: owner %s, expected %s",in.c_str(),GetOwnerString(d.owner).c_str(),h.own.c_str()); ev(); }
template<class F> static bool threw(F f){ try { f(); } catch(std::exception&){ return true; } return false; }
static S swapword(Rng&r,const S&l,const S&w,bool&ok){ // the first token of l which is w in any case, replaced by a near miss
  size_t i=0,e; S t; bool q; ok=false; while(tok(l,i,t,q,e)==1){ if(up(t)==up(w)){ size_t a=e-(q?1:0)-t.size(); ok=true; return l.substr(0,a)+near(r,w)+l.substr(a+t.size()); } i=e; } return l; }
static void holes(Rng&r,int n){ Tmp T("drl");
  for(int c=0;c<n;++c){ bool v3=r.below(3); int u=v3?(r.flip()?UNIT_MM:UNIT_THOU):(int[]){UNIT_MM,UNIT_THOU,UNIT_TNM}[r.below(3)]; Hole h; S l=holetext(r,v3,h,false); double mind=u==UNIT_TNM?100:0; if(h.d<mind){ l="500.00"+l.substr(l.find(' ')); h.d=500; }
    S in=strf("IDF %d unit %d hole: ",v3?3:2,u)+l; at(in); IDF_DRILL_DATA d; std::ifstream f;
    T.put(l+"\n"); f.open(T.n); bool x=false; bool t=threw([&]{ x=d.read(f,(IDF_UNIT)u,FILE_HEADER,v3?IDF_V3:IDF_V2); }); EXPECT(!t&&x,"hole-refused","%s: the record was refused",in.c_str()); if(t||!x) continue; samehole(d,h,fac(u),in); f.close();
    { IDF_UNIT wu=r.flip()?UNIT_MM:UNIT_THOU; { std::ofstream o(T.n); d.write(o,wu); } S w=T.get(); S in2=in+", written as "+w; at(in2); IDF_DRILL_DATA b; f.open(T.n); t=threw([&]{ x=b.read(f,wu,FILE_HEADER,IDF_V3); }); double lim=wu==UNIT_MM?0.00051:0.0254*0.051; if(d.dia<2*lim) { f.close(); } else { EXPECT(!t&&x,"hole-rewritten","%s: the record written cannot be read",in2.c_str()); if(!t&&x){ Hole g=h; g.d=d.dia; g.x=d.x; g.y=d.y; samehole(b,g,1,in2,lim); } f.close(); } }
    if(v3){ bool ok; S w=r.flip()?h.pl:h.own; S bad=swapword(r,l,w,ok); if(ok){ S bw=bad; size_t i=0,e; S t2; bool q; std::vector<S> ts; while(tok(bw,i,t2,q,e)==1){ ts.push_back(t2); i=e; } bool still=ts.size()==7&&(up(ts[3])=="PTH"||up(ts[3])=="NPTH")&&(up(ts[6])=="UNOWNED"||up(ts[6])=="ECAD"||up(ts[6])=="MCAD");
        S in3="hole: "+bad; at(in3); T.put(bad+"\n"); f.open(T.n); IDF_DRILL_DATA b; t=threw([&]{ b.read(f,UNIT_MM,FILE_HEADER,IDF_V3); }); EXPECT(t!=still,"hole-word","%s: the record was %s",in3.c_str(),t?"refused":"accepted"); f.close(); ev(); } }
    { T.put(anycase(r,".END_DRILLED_HOLES")+"\n"); f.open(T.n); IDF_DRILL_DATA b; bool y=true; t=threw([&]{ y=b.read(f,UNIT_MM,FILE_HEADER,IDF_V3); }); EXPECT(!t&&!y,"hole-end","the end of the drilled holes was not recognised"); f.close(); } } }
static void places(Rng&r,int n){ Tmp T("plc");
  for(int c=0;c<n;++c){ bool v3=r.below(3); int u=v3?(r.flip()?UNIT_MM:UNIT_THOU):(int[]){UNIT_MM,UNIT_THOU,UNIT_TNM}[r.below(3)]; CAD_TYPE cad=r.flip()?CAD_ELEC:CAD_MECH;
    double x,y,z=0,a; S X=num(r,x,-3000,3000),Y=num(r,y,-3000,3000),Z=num(r,z,-50,50),A=num(r,a,-360,360); S side=r.flip()?"TOP":"BOTTOM"; S pl=v3?PLA[r.below(4)].w:(const char*[]){"PLACED","UNPLACED","FIXED"}[r.below(3)]; S ref=r.below(4)?strf("U%d",r.below(9)):r.flip()?"NOREFDES":"a b";
    S gw=side,gp=pl; int bad=r.below(5); bool okw=true; if(bad==1){ gw=near(r,side); S t=up(gw); okw=t=="TOP"||t=="BOTTOM"; if(okw) side=t; } if(bad==2){ gp=near(r,pl); S t=up(gp); okw=t=="PLACED"||t=="UNPLACED"||(v3?t=="MCAD"||t=="ECAD":t=="FIXED"); if(okw) pl=t; } if(bad==3){ const char*B[]={"BOARD","PANEL",""}; ref=B[r.below(3)]; okw=false; }
    S rec="\"geom x\" part1 "; rec+=(ref.find(' ')!=S::npos||ref.empty())?"\""+ref+"\"":bad==3||ref=="NOREFDES"?anycase(r,ref):ref; rec+="\n"+X+" "+Y+" "; if(v3) rec+=Z+" "; rec+=A+" "+(bad==1?gw:anycase(r,gw))+" "+(bad==2?gp:anycase(r,gp))+"\n";
    S in=strf("IDF %d unit %d %s placement: ",v3?3:2,u,cad==CAD_ELEC?"ECAD":"MCAD")+rec; at(in); T.put(rec+".END_PLACEMENT\n"); IDF3_BOARD b(cad); b.unit=(IDF_UNIT)u; IDF3_COMP_OUTLINE_DATA d; std::ifstream f(T.n); FILE_STATE st=FILE_HEADER; bool g=false;
    bool t=threw([&]{ g=d.readPlaceData(f,st,&b,v3?IDF_V3:IDF_V2,true); }); EXPECT(t!=okw,okw?"place-refused":"place-word","%s: the record was %s",in.c_str(),t?"refused":"accepted"); ev(); if(t||!okw) continue;
    EXPECT(g&&b.components.size()==1,"place-one","%s: %zu components",in.c_str(),b.components.size()); if(b.components.empty()) continue; IDF3_COMPONENT*k=b.components.begin()->second; double px,py,pa; IDF_LAYER pl_; bool has=k->GetPosition(px,py,pa,pl_); double F=fac(u);
    EXPECT(has&&near_(px,x*F)&&near_(py,y*F)&&near_(pa,a),"place-position","%s: at (%g,%g) turned %g, expected (%g,%g) turned %g",in.c_str(),px,py,pa,x*F,y*F,a);
    EXPECT(GetLayerString(pl_)==side,"place-side","%s: on side %s",in.c_str(),GetLayerString(pl_).c_str()); S wp=pl=="FIXED"?(cad==CAD_ELEC?"MCAD":"ECAD"):pl; EXPECT(GetPlacementString(k->GetPlacement())==wp,"place-state","%s: placement %s, expected %s",in.c_str(),GetPlacementString(k->GetPlacement()).c_str(),wp.c_str());
    if(ref!="NOREFDES") EXPECT(k->GetRefDes()==ref,"place-refdes","%s: component %s",in.c_str(),k->GetRefDes().c_str());
    if(k->GetOutlinesSize()==1){ double X2,Y2,Z2,A2; k->GetOutlinesData()->front()->GetOffsets(X2,Y2,Z2,A2); EXPECT(near_(X2,0)&&near_(Y2,0)&&near_(A2,0),"place-offset","%s: offset (%g,%g) %g of the first outline",in.c_str(),X2,Y2,A2); if(v3) EXPECT(near_(Z2,z*F),"place-height","%s: height %g, expected %g",in.c_str(),Z2,z*F); }
    bool y2=true; t=threw([&]{ y2=d.readPlaceData(f,st,&b,v3?IDF_V3:IDF_V2,true); }); EXPECT(!t&&!y2&&st==FILE_PLACEMENT,"place-end","%s: the end of the section was not recognised",in.c_str()); ev(); } }
static void notes(Rng&r,int n){ Tmp T("not");
  for(int c=0;c<n/2;++c){ int u=(int[]){UNIT_MM,UNIT_THOU,UNIT_TNM}[r.below(3)]; double x,y,h,l; S rec=num(r,x,-300,300)+" "+num(r,y,-300,300)+"  "+num(r,h,1,50)+" "+num(r,l,1,500)+" "; S t; for(int k=r.below(12);k>0;--k) t+="ab ,.x#'1"[r.below(9)]; rec+="\""+t+"\"\n"; S in=strf("unit %d note: ",u)+rec; at(in); IDF_NOTE d; T.put(rec+anycase(r,".END_NOTES")+"\n");
    std::ifstream f(T.n); FILE_STATE st=FILE_HEADER; bool x1=false; bool th=threw([&]{ x1=d.readNote(f,st,(IDF_UNIT)u); }); EXPECT(!th&&x1,"note-refused","%s: refused",in.c_str()); if(th||!x1) continue; double F=fac(u);
    EXPECT(near_(d.xpos,x*F)&&near_(d.ypos,y*F)&&near_(d.height,h*F)&&near_(d.length,l*F),"note-numbers","%s: (%g,%g) height %g length %g",in.c_str(),d.xpos,d.ypos,d.height,d.length); EXPECT(d.text==t,"note-text","%s: text \"%s\"",in.c_str(),d.text.c_str());
    IDF_NOTE z; th=threw([&]{ x1=z.readNote(f,st,(IDF_UNIT)u); }); EXPECT(!th&&!x1,"note-end","%s: the end of the notes was not recognised",in.c_str()); f.close(); ev();
    IDF_UNIT wu=r.flip()?UNIT_MM:UNIT_THOU; { std::ofstream o(T.n); d.writeNote(o,wu); } f.open(T.n); IDF_NOTE b; st=FILE_HEADER; x1=false; th=threw([&]{ x1=b.readNote(f,st,wu); }); EXPECT(!th&&x1,"note-rewritten","%s: written as %s",in.c_str(),T.get().c_str()); double q=wu==UNIT_MM?0.0000051:0.0254*0.051; if(x1&&!th) EXPECT(b.text==d.text&&fabs(b.xpos-d.xpos)<=q&&fabs(b.ypos-d.ypos)<=q&&fabs(b.height-d.height)<=q&&fabs(b.length-d.length)<=q,"note-kept","%s: written as %s",in.c_str(),T.get().c_str()); f.close(); ev(); } }
// whole boards: keywords of every section, read, written and read again
struct Sec { S kind,own,lay; double h; S id; };
static S rect(Rng&r,bool many){ S s; int x=r.range(10,90); s=strf("0 0.0 0.0 0.0\n0 %d.0 0.0 0.0\n0 %d.0 50.0 0.0\n0 0.0 50.0 0.0\n0 0.0 0.0 0.0\n",x,x); if(many) s+="1 5.0 5.0 0.0\n1 6.0 5.0 360.0\n"; return s; }
struct Pl { S geom,part,ref,side,st; double x,y,z,a; };
struct Board { std::vector<Pl> pls; int u; S name; S own; double thick; std::vector<Sec> secs; std::vector<Hole> holes; struct C { S geom,part,cls; int u; double h; }; std::vector<C> comps; };
static S emn,emp;
static const char*UN(int u){ return u==UNIT_MM?"MM":u==UNIT_THOU?"THOU":"TNM"; }
static Board gen(Rng&r){ Board b; b.u=r.flip()?UNIT_MM:UNIT_THOU; b.name=r.flip()?"b1":"my board"; S&o=emn; o=anycase(r,".HEADER")+"\n"+anycase(r,"BOARD_FILE")+" 3.0 \"x\" 2015/06/4.20:42:21 1\n\""+b.name+"\" "+anycase(r,UN(b.u))+"\n"+anycase(r,".END_HEADER")+"\n";
  if(r.flip()) o+="\n# a comment\n"; b.own=OWN[r.below(3)].w; o+=anycase(r,".BOARD_OUTLINE")+" "+anycase(r,b.own)+"\n"+num(r,b.thick,1,100)+"\n"+rect(r,r.flip())+anycase(r,".END_BOARD_OUTLINE")+"\n";
  const char*K[]={"OTHER_OUTLINE","ROUTE_OUTLINE","PLACE_OUTLINE","ROUTE_KEEPOUT","VIA_KEEPOUT","PLACE_KEEPOUT","PLACE_REGION"};
  for(int k=0;k<7;++k) for(int c=r.below(3);c>0;--c){ Sec s; s.kind=K[k]; s.own=OWN[r.below(3)].w; s.h=-1; s.id=strf("id %d",c); bool any=k==1||k==3; s.lay=k==4?"":LAY[r.below(any?5:k==0?2:3)].w; o+="."+anycase(r,K[k])+" "+anycase(r,s.own)+"\n"; S l=anycase(r,s.lay);
      if(k==0) o+="\""+s.id+"\" "+num(r,s.h,1,100)+" "+l+"\n"; else if(k==1||k==3) o+=l+"\n"; else if(k==2) o+=r.flip()?l+"\n":l+" "+num(r,s.h,1,100)+"\n"; else if(k==5) o+=l+" "+num(r,s.h,1,100)+"\n"; else if(k==6) o+=l+" \""+s.id+"\"\n";
      o+=rect(r,false)+"."+anycase(r,S("END_")+K[k])+"\n"; b.secs.push_back(s); }
  int nh=r.below(4); if(nh){ o+=anycase(r,".DRILLED_HOLES")+"\n"; while(nh--){ Hole h; S l=holetext(r,true,h,true); if(h.ref=="NOREFDES"){ l=l.substr(0,0); } if(l.empty()) continue; o+=l+"\n"; b.holes.push_back(h); } o+=anycase(r,".END_DRILLED_HOLES")+"\n"; }
  emp=anycase(r,".HEADER")+"\n"+anycase(r,"LIBRARY_FILE")+" 3.0 \"x\" 2015/06/4.20:42:21 1\n"+anycase(r,".END_HEADER")+"\n"; S pl;
  for(int c=r.below(3);c>0;--c){ Board::C k; k.geom=strf("G%d",c); k.part=r.flip()?strf("P%d",c):"p q"; k.cls=r.flip()?"ELECTRICAL":"MECHANICAL"; k.u=r.flip()?UNIT_MM:UNIT_THOU; emp+="."+anycase(r,k.cls)+"\n"+k.geom+" \""+k.part+"\" "+anycase(r,UN(k.u))+" "+num(r,k.h,1,100)+"\n"+rect(r,false); if(k.cls=="ELECTRICAL"&&r.flip()) emp+=anycase(r,"PROP")+" "+"CAPACITANCE 100.0\n"; emp+=".END_"+anycase(r,k.cls)+"\n"; b.comps.push_back(k); for(int m=1+r.below(2);m>0;--m){ Pl p; p.geom=k.geom; p.part=k.part; p.ref=strf("X%d",r.below(2)?0:c); S X=num(r,p.x,-300,300),Y=num(r,p.y,-300,300),Z=num(r,p.z,-5,5),A=num(r,p.a,-350,350); p.side=r.flip()?"TOP":"BOTTOM"; p.st=PLA[r.below(4)].w; for(auto&q:b.pls) if(q.ref==p.ref){ p.side=q.side; p.st=q.st; } b.pls.push_back(p);
      pl+=p.geom+" \""+p.part+"\" "+p.ref+"\n"+X+" "+Y+" "+Z+" "+A+" "+anycase(r,p.side)+" "+anycase(r,p.st)+"\n"; } }
  if(!pl.empty()) o+=anycase(r,".PLACEMENT")+"\n"+pl+anycase(r,".END_PLACEMENT")+"\n"; return b; }
static void look(IDF3_BOARD&b,const Board&w,const S&in,double tol){
  double F=fac(w.u); auto c=[&](double a,double x){ return tol?fabs(a-x)<=tol:near_(a,x); };
  EXPECT(b.GetUnit()==w.u,"board-unit","%s: unit %s, expected %s",in.c_str(),UN(b.GetUnit()),UN(w.u)); EXPECT(b.GetBoardName()==w.name,"board-name","%s: name %s",in.c_str(),b.GetBoardName().c_str());
  EXPECT(GetOwnerString(b.olnBoard.GetOwner())==w.own,"board-owner","%s: owner %s, expected %s",in.c_str(),GetOwnerString(b.olnBoard.GetOwner()).c_str(),w.own.c_str()); EXPECT(c(b.GetBoardThickness(),w.thick*F),"board-thickness","%s: thickness %g, expected %g",in.c_str(),b.GetBoardThickness(),w.thick*F);
  auto li=[&](const char*k){ std::vector<Sec> v; for(auto&s:w.secs) if(s.kind==k) v.push_back(s); return v; };
  auto one=[&](BOARD_OUTLINE*o,const Sec&s,const S&lay,double h){ EXPECT(GetOwnerString(o->GetOwner())==s.own,"section-owner","%s: %s owned by %s, expected %s",in.c_str(),s.kind.c_str(),GetOwnerString(o->GetOwner()).c_str(),s.own.c_str()); EXPECT(lay==s.lay,"section-layer","%s: %s on %s, expected %s",in.c_str(),s.kind.c_str(),lay.c_str(),s.lay.c_str()); if(s.kind=="OTHER_OUTLINE"||s.kind=="PLACE_OUTLINE"||s.kind=="PLACE_KEEPOUT") EXPECT(s.h<0?h<0:c(h,s.h*F),"section-height","%s: %s of height %g, expected %g",in.c_str(),s.kind.c_str(),h,s.h<0?-1:s.h*F); EXPECT(o->OutlinesSize()==1,"section-outlines","%s: %s with %zu outlines",in.c_str(),s.kind.c_str(),o->OutlinesSize()); ev(); };
  auto lst=[&](auto&L,const char*k,auto lay){ auto v=li(k); EXPECT(L.size()==v.size(),"sections","%s: %zu sections %s, expected %zu",in.c_str(),L.size(),k,v.size()); size_t i=0; for(auto*o:L){ if(i<v.size()) one(o,v[i],lay(o),o->thickness); ++i; } };
  lst(b.olnRoute,"ROUTE_OUTLINE",[](ROUTE_OUTLINE*o){ return GetLayerString(o->layers); }); lst(b.olnRouteKeepout,"ROUTE_KEEPOUT",[](ROUTE_OUTLINE*o){ return GetLayerString(o->layers); });
  lst(b.olnPlace,"PLACE_OUTLINE",[](PLACE_OUTLINE*o){ return GetLayerString(o->side); }); lst(b.olnPlaceKeepout,"PLACE_KEEPOUT",[](PLACE_OUTLINE*o){ return GetLayerString(o->side); }); lst(b.olnViaKeepout,"VIA_KEEPOUT",[](OTHER_OUTLINE*){ return S(); });
  { auto v=li("OTHER_OUTLINE"); for(auto&s:v){ auto i=b.olnOther.find(s.id); EXPECT(i!=b.olnOther.end(),"other-id","%s: no outline \"%s\"",in.c_str(),s.id.c_str()); if(i!=b.olnOther.end()) one(i->second,s,GetLayerString(i->second->side),i->second->thickness); } }
  { auto v=li("PLACE_REGION"); for(auto&s:v){ bool f=false; auto q=b.olnGroup.equal_range(s.id); for(auto i=q.first;i!=q.second;++i){ f=true; one(i->second,s,GetLayerString(i->second->side),0); } EXPECT(f,"group-id","%s: no region \"%s\"",in.c_str(),s.id.c_str()); } }
  std::vector<IDF_DRILL_DATA*> hs(b.board_drills.begin(),b.board_drills.end()); for(auto&k:b.components) for(auto*d:*k.second->GetDrills()) hs.push_back(d);
  EXPECT(hs.size()==w.holes.size(),"holes","%s: %zu holes, expected %zu",in.c_str(),hs.size(),w.holes.size()); for(auto&h:w.holes){ IDF_DRILL_DATA*m=0; for(auto*d:hs) if(c(d->x,h.x*F)&&c(d->y,h.y*F)) m=d; EXPECT(m,"hole-lost","%s: no hole at (%g,%g)",in.c_str(),h.x*F,h.y*F); if(m) samehole(*m,h,F,in,tol); }
  for(auto&k:w.comps){ auto i=b.compOutlines.find(k.geom+"_"+k.part); EXPECT(i!=b.compOutlines.end(),"comp-outline","%s: no component outline %s",in.c_str(),k.geom.c_str()); if(i==b.compOutlines.end()) continue; IDF3_COMP_OUTLINE*o=i->second; EXPECT((o->GetComponentClass()==COMP_ELEC)==(k.cls=="ELECTRICAL"),"comp-class","%s: %s has class %d",in.c_str(),k.geom.c_str(),o->GetComponentClass()); if(!tol) EXPECT(o->unit==k.u,"comp-unit","%s: %s has unit %s",in.c_str(),k.geom.c_str(),UN(o->unit)); EXPECT(c(o->thickness,k.h*fac(k.u)),"comp-height","%s: %s has height %g, expected %g",in.c_str(),k.geom.c_str(),o->thickness,k.h*fac(k.u)); ev(); } }
// own reading of the placement section of a written file, against the records of the original
static void lookplaces(const S&file,const Board&w,double Fw,double F,double tol,const S&in){
  std::vector<Pl> got; std::istringstream f(file); S l; bool on=false; while(std::getline(f,l)){ if(up(l).find(".END_PLACEMENT")==0) break; if(!on){ on=up(l).find(".PLACEMENT")==0; continue; } Pl p; S t[3]; size_t i=0,e; bool q; int k=0; for(;k<3&&tok(l,i,t[k],q,e)==1;++k) i=e; if(k<3||!std::getline(f,l)) break; p.geom=t[0]; p.part=t[1]; p.ref=t[2]; std::istringstream g(l); g>>p.x>>p.y>>p.z>>p.a>>p.side>>p.st; got.push_back(p); }
  EXPECT(got.size()==w.pls.size(),"places-written","%s: %zu placements, expected %zu",in.c_str(),got.size(),w.pls.size()); std::vector<bool> used(got.size());
  for(auto&p:w.pls){ bool ok=false; for(size_t k=0;k<got.size()&&!ok;++k){ auto&g=got[k]; double d=fmod(fabs(g.a-p.a),360); if(!used[k]&&g.geom==p.geom&&g.part==p.part&&g.ref==p.ref&&up(g.side)==p.side&&up(g.st)==p.st&&fabs(g.x*Fw-p.x*F)<=tol&&fabs(g.y*Fw-p.y*F)<=tol&&fabs(g.z*Fw-p.z*F)<=tol+0.0006&&fmin(d,fabs(d-360))<=0.002) ok=used[k]=true; } 
    EXPECT(ok,"place-kept","%s: %s %s at (%g,%g) height %g turned %g on %s %s is not in the file written: %s",in.c_str(),p.geom.c_str(),p.ref.c_str(),p.x*F,p.y*F,p.z*F,p.a,p.side.c_str(),p.st.c_str(),file.substr(file.find(".PLACEMENT")==S::npos?0:file.find(".PLACEMENT")).c_str()); ev(); } }
static void boards(Rng&r,int n){ Tmp A("emn"),B("emp"),C("w.emn"),D("w.emp"); 
  for(int c=0;c<n/8+20;++c){ Board w=gen(r); A.put(emn); B.put(emp); S in="board "+emn+(w.comps.empty()?S():" library "+emp); at(in); IDF3_BOARD b(CAD_ELEC); bool g=b.ReadFile(A.n,true); EXPECT(g,"board-refused","%s: the board was refused: %s",in.c_str(),b.GetError().c_str()); if(!g) continue; look(b,w,in,0);
    bool mm=r.flip(); S in2=in+(mm?" written in MM":" written in THOU"); at(in2); g=b.WriteFile(C.n,mm,true); EXPECT(g,"board-written","%s: not written: %s",in2.c_str(),b.GetError().c_str()); if(!g) continue; lookplaces(C.get(),w,mm?1:0.0254,fac(w.u),mm?0.00003:0.0254*0.16,in2); IDF3_BOARD d(CAD_ELEC); g=d.ReadFile(C.n,true); EXPECT(g,"board-reread","%s: the file written is refused: %s",in2.c_str(),d.GetError().c_str()); if(g){ Board x=w; x.u=mm?UNIT_MM:UNIT_THOU; double q=fac(w.u)/fac(x.u); x.thick*=q; for(auto&s:x.secs) if(s.h>0) s.h*=q; for(auto&h:x.holes){ h.d*=q; h.x*=q; h.y*=q; } look(d,x,in2,mm?0.0006:0.0254*0.06); } } }
static void faults(Rng&r,int n){ Tmp A("emn"),B("emp"); // one keyword of a valid board replaced by another text
  for(int c=0;c<n/8+20;++c){ Board w=gen(r); S e=emn; std::vector<size_t> at_; std::vector<S> kw; size_t i=0; S l; int ln=0; const char*V[]={"MM","THOU","TOP","BOTTOM","BOTH","INNER","ALL",".HEADER",".END_HEADER","BOARD_FILE",".END_BOARD_OUTLINE",".END_ROUTE_OUTLINE",".END_PLACE_OUTLINE",".END_ROUTE_KEEPOUT",".END_PLACE_KEEPOUT",".END_VIA_KEEPOUT",".END_OTHER_OUTLINE",".END_PLACE_REGION","PLACED"}; (void)ln;(void)l;
    size_t en; S t; bool q; while(tok(e,i,t,q,en)==1){ size_t ls=e.rfind('\n',en-t.size()),le=e.find('\n',en); int nt=0; { size_t a=ls==S::npos?0:ls+1,e2; S t2; bool q2; S l2=e.substr(a,le-a); size_t p=0; while(tok(l2,p,t2,q2,e2)==1){ ++nt; p=e2; } } if(!q&&nt<7) for(auto v:V) if(up(t)==v){ at_.push_back(en-t.size()); kw.push_back(v); } i=en; }
    size_t k=r.below(at_.size()); S bad=near(r,kw[k]); bool same=false; for(auto v:KW) if(up(bad)==v) same=true; for(auto v:V) if(up(bad)==v) same=true; if(same) bad="Q"+bad; 
    S f=e.substr(0,at_[k])+bad+e.substr(at_[k]+kw[k].size()); A.put(f); B.put(emp); S in="board with "+bad+" for "+kw[k]+": "+f; at(in); IDF3_BOARD b(CAD_ELEC); bool g=b.ReadFile(A.n,true); EXPECT(!g,"board-word","%s: accepted",in.c_str()); ev(); } }
// geometry of outlines: lines, arcs and circles in either winding, read, written in either unit and read again
struct Seg { double x0,y0,x1,y1,a; };
struct Loop { std::vector<Seg> s; bool circle; };
static Loop loop(Rng&r,double cx,double cy,double R,bool cw,bool circle){ Loop l; l.circle=circle; auto q=[](double v){ return std::round(v*100)/100; }; if(circle){ l.s.push_back({q(cx),q(cy),q(cx+R),q(cy),360}); return l; }
  int n=2+r.below(6); std::vector<std::pair<double,double>> p; double t0=r.range(0,628)/100.0; for(int i=0;i<n;++i){ double t=t0+6.28318530718*i/n, d=R*r.range(80,100)/100; p.push_back({q(cx+d*cos(t)),q(cy+d*sin(t))}); }
  std::vector<double> a; for(int i=0;i<n;++i) a.push_back(r.flip()?0:(r.flip()?1:-1)*r.range(300,(int)(3600/n))/ (n==2?1.0:2.0)/10); if(n==2){ a[0]=r.range(300,1700)/10.0; a[1]=r.flip()?0:r.range(300,1700)/10.0; }   // two vertices: at least one arc
  for(int i=0;i<n;++i){ auto u=p[i],v=p[(i+1)%n]; l.s.push_back({u.first,u.second,v.first,v.second,a[i]}); }
  if(cw){ std::reverse(l.s.begin(),l.s.end()); for(auto&g:l.s){ std::swap(g.x0,g.x1); std::swap(g.y0,g.y1); g.a=-g.a; } } return l; }
static S looptext(const Loop&l,int i){ S t=strf("%d %.2f %.2f 0\n",i,l.s[0].x0,l.s[0].y0); for(auto&g:l.s) t+=strf("%d %.2f %.2f %g\n",i,g.x1,g.y1,g.a); return t; }
static void lookloop(IDF_OUTLINE*o,const Loop&l,double F,const S&in,double tol,bool order){ 
  EXPECT(o->size()==l.s.size(),"outline-size","%s: %zu segments, expected %zu",in.c_str(),o->size(),l.s.size()); if(o->size()!=l.s.size()) return; std::vector<IDF_SEGMENT*> v(o->begin(),o->end()); size_t n=v.size();
  auto same=[&](IDF_SEGMENT*s,const Seg&g,bool rev){ double a=rev?-g.a:g.a; if(l.circle) return fabs(s->startPoint.x-g.x0*F)<=tol&&fabs(s->startPoint.y-g.y0*F)<=tol&&fabs(s->radius-F*hypot(g.x1-g.x0,g.y1-g.y0))<=3*tol&&fabs(fabs(s->angle)-360)<0.01; 
    double x0=rev?g.x1:g.x0,y0=rev?g.y1:g.y0,x1=rev?g.x0:g.x1,y1=rev?g.y0:g.y1; if(!(fabs(s->startPoint.x-x0*F)<=tol&&fabs(s->startPoint.y-y0*F)<=tol&&fabs(s->endPoint.x-x1*F)<=tol&&fabs(s->endPoint.y-y1*F)<=tol&&fabs(s->angle-a)<=0.00051)) return false;
    if(fabs(a)<0.01) return true; double c=F*hypot(x1-x0,y1-y0),R=c/2/fabs(sin(a*M_PI/360)); double e=40*tol+R*1e-4; double m=atan2(s->startPoint.y-s->center.y,s->startPoint.x-s->center.x)+s->angle*M_PI/180; 
    return fabs(s->radius-R)<=e&&fabs(hypot(s->center.x-x0*F,s->center.y-y0*F)-R)<=e&&fabs(s->center.x+R*cos(m)-x1*F)<=2*e&&fabs(s->center.y+R*sin(m)-y1*F)<=2*e; };
  bool ok=false; for(int rev=0;rev<(order?1:2)&&!ok;++rev) for(size_t off=0;off<(order?1:n)&&!ok;++off){ ok=true; for(size_t k=0;k<n&&ok;++k) ok=same(v[k],l.s[rev?(off+n-k)%n:(off+k)%n],rev); }
  if(ok){ ev(); return; } S t; for(auto*s:v) t+=strf(" (%g,%g)-(%g,%g) angle %g centre (%g,%g) radius %g;",s->startPoint.x,s->startPoint.y,s->endPoint.x,s->endPoint.y,s->angle,s->center.x,s->center.y,s->radius); EXPECT(false,"outline-geometry","%s: outline%s",in.c_str(),t.c_str()); }
static void outlines(Rng&r,int n){ Tmp A("emn"),B("emp"),C("w.emn"),D("w.emp"); static const char*K[]={"OTHER_OUTLINE","ROUTE_OUTLINE","PLACE_OUTLINE","ROUTE_KEEPOUT","VIA_KEEPOUT","PLACE_KEEPOUT","PLACE_REGION"}; static const char*H[]={"\"q\" 2.0 TOP\n","ALL\n","BOTH 3.5\n","TOP\n","","BOTTOM 1.5\n","TOP \"g\"\n"};
  for(int c=0;c<n/4+40;++c){ int u=r.flip()?UNIT_MM:UNIT_THOU; double F=fac(u),sc=u==UNIT_MM?1:40; std::vector<Loop> bl; bool file=r.flip(); bl.push_back(loop(r,10*sc,-20*sc,50*sc,file?false:r.flip(),r.below(6)==0)); for(int k=r.below(3);k>0;--k) bl.push_back(loop(r,(5+10*k)*sc,-20*sc,4*sc,file?true:r.flip(),r.below(3)==0));
    IDF3_BOARD b(CAD_ELEC); S in; bool g; std::vector<Loop> sl; 
    if(file){ S o=S(".HEADER\nBOARD_FILE 3.0 \"x\" 2015/06/4.20:42:21 1\n\"b\" ")+UN(u)+"\n.END_HEADER\n.BOARD_OUTLINE ECAD\n1.6\n"; for(size_t k=0;k<bl.size();++k) o+=looptext(bl[k],k); o+=".END_BOARD_OUTLINE\n"; 
      for(int k=0;k<7;++k){ bool cw=k?r.flip():false; sl.push_back(loop(r,r.range(-50,50)*sc,r.range(-50,50)*sc,10*sc,cw,r.below(6)==0)); o+=S(".")+K[k]+" ECAD\n"+H[k]+looptext(sl.back(),cw?1:0)+".END_"+K[k]+"\n"; }
      A.put(o); in="board "+o; at(in); g=b.ReadFile(A.n,true); EXPECT(g,"outline-refused","%s: refused: %s",in.c_str(),b.GetError().c_str()); if(!g) continue; }
    else { in=strf("outlines built in memory (unit %s):",UN(u)); b.SetBoardName("b"); b.SetBoardThickness(1.6); size_t k=0; for(auto&l:bl){ in+=" "+looptext(l,k++); auto*o=new IDF_OUTLINE; for(auto&s:l.s){ IDF_POINT p,q; p.x=s.x0*F; p.y=s.y0*F; q.x=s.x1*F; q.y=s.y1*F; o->push(s.a==0?new IDF_SEGMENT(p,q):new IDF_SEGMENT(p,q,s.a,false)); } g=b.AddBoardOutline(o); EXPECT(g,"outline-added","%s: refused: %s",in.c_str(),b.GetError().c_str()); } at(in); }
    auto all=[&](IDF3_BOARD&d,const S&i2,double tol,bool order){ auto*L=d.GetBoardOutlines(); EXPECT(L->size()==bl.size(),"outline-count","%s: %zu outlines, expected %zu",i2.c_str(),L->size(),bl.size()); size_t k=0; for(auto*o:*L) if(k<bl.size()) lookloop(o,bl[k++],F,i2,tol,order); if(!file) return;
      auto one=[&](BOARD_OUTLINE*o,int k){ EXPECT(o&&o->OutlinesSize()==1,"outline-section","%s: section %s lost",i2.c_str(),K[k]); if(o&&o->OutlinesSize()==1) lookloop(o->GetOutline(0),sl[k],F,i2,tol,order); }; auto fr=[](auto&l)->BOARD_OUTLINE*{ return l.empty()?0:l.front(); };
      one(d.olnOther.empty()?0:d.olnOther.begin()->second,0); one(fr(d.olnRoute),1); one(fr(d.olnPlace),2); one(fr(d.olnRouteKeepout),3); one(fr(d.olnViaKeepout),4); one(fr(d.olnPlaceKeepout),5); one(d.olnGroup.empty()?0:d.olnGroup.begin()->second,6); };
    all(b,in,1e-7,true); bool mm=r.flip(); S in2=in+(mm?" written in MM":" written in THOU"); at(in2); g=b.WriteFile(C.n,mm,true); EXPECT(g,"outline-written","%s: not written: %s",in2.c_str(),b.GetError().c_str()); if(!g) continue; IDF3_BOARD d(CAD_ELEC); g=d.ReadFile(C.n,true); EXPECT(g,"outline-reread","%s: the file written is refused: %s",in2.c_str(),d.GetError().c_str()); if(g) all(d,in2,mm?0.000006:0.0254*0.051,false); ev(); } }
int main(int c,char**v){ return run_groups(c,v,{{"tokens",tokens},{"lines",lines},{"words",words},{"holes",holes},{"places",places},{"notes",notes},{"boards",boards},{"faults",faults},{"outlines",outlines}}); }
