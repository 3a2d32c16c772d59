// C14 on the real library: Global sections read and written, dates, units; independent validity rules
#include "graph.h"
static std::string dir_(){ static std::string d; if(d.empty()){ char t[]="/tmp/replayc14XXXXXX"; d=mkdtemp(t); } return d; }
static const char*UN[12]={"","IN","MM","CUST","FT","MI","M","KM","MIL","UM","CM","UIN"};
static const double UF[12]={0,25.4,1,1,304.8,1609344,1000,1e6,0.0254,0.001,10,2.54e-5};
static bool date_ok(const std::string&s){ size_t n=s.size(); if(n!=13&&n!=15) return false; size_t y=n-11; for(size_t i=0;i<n;++i){ if(i==y+4){ if(s[i]!='.') return false; } else if(s[i]<'0'||s[i]>'9') return false; }
  auto two=[&](size_t k){ return (s[k]-'0')*10+(s[k+1]-'0'); }; int mo=two(y),d=two(y+2),h=two(y+5),mi=two(y+7),sc=two(y+9); int Y=n==15? two(0)*100+two(2) : two(0); static const int M[]={31,28,31,30,31,30,31,31,30,31,30,31};
  bool leap=n==15? (Y%4==0&&(Y%100!=0||Y%400==0)) : Y%4==0; if(mo<1||mo>12||d<1||h>23||mi>59||sc>60) return false; return d<=M[mo-1]+(mo==2&&leap?1:0); }
static std::string rdate(Rng&r){ bool y4=r.flip(); std::string s; if(y4) s=strf("%04d",r.below(3)==0? 100*(16+r.below(8)) : 1950+r.below(120)); else s=strf("%02d",r.below(100)); int mo=1+r.below(12); int d=r.flip()?1+r.below(28):r.flip()?28+r.below(4):1+r.below(31); if(r.below(4)==0){ mo=2; d=27+r.below(4); } s+=strf("%02d%02d.%02d%02d%02d",mo,d,r.flip()?r.below(24):23,r.flip()?r.below(60):59,r.below(3)?r.below(60):59+r.below(2));
  int k=r.below(10); size_t p=r.below(s.size()); if(k==0) s[p]="0123456789"[r.below(10)]; if(k==1) s[p]=" +-.,;:Ax/\xb2\t"[r.below(12)]; if(k==2) s.erase(p,1+r.below(2)); if(k==3) s.insert(p,1+r.below(2),'0'); if(k==4){ size_t f=(y4?4:2)+2*r.below(5); if(f>=(y4?8u:6u)) ++f; if(f+2<=s.size()){ static const char*B[]={"00","13","24","31","32","60","61","99","+1"," 1","1 ","-1","0x","59","23","12","29","30"}; s.replace(f,2,B[r.below(18)]); } } if(k==5) s=std::string(r.below(18),"0 1.9"[r.below(5)]); return s; }
static std::string good_date(Rng&r){ for(;;){ std::string d=rdate(r); if(date_ok(d)) return d; } }
static std::string H(const std::string&s){ return s.empty()? "" : strf("%zuH",s.size())+s; }
static std::vector<std::string> section(const std::string&t){ std::vector<std::string> v; for(size_t i=0;i<t.size();i+=72){ std::string l=t.substr(i,72); l.resize(72,' '); v.push_back(l+strf("G%7zu",v.size()+1)); } return v; }
static std::string file_of(const std::string&g,char pd,char rd){ auto dl=[&](std::string t){ for(auto&c:t) c= c==','?pd : c==';'?rd : c; return t; }; auto G=section(g); std::string o; auto ln=[&](std::string d,char c,int n){ d.resize(72,' '); o+=d+strf("%c%7d\n",c,n); }; ln("test",'S',1); for(auto&l:G) o+=l+"\n";
  ln("     124       1       0       0       0       0       0       000000000",'D',1); ln("     124       0       0       1       0                               0",'D',2); ln("     110       2       0       0       0       0       1       000000000",'D',3); ln("     110       0       0       1       0                               0",'D',4);
  ln(strf("%-64s%8d",dl("124,1.,0.,0.,10.,0.,1.,0.,20.,0.,0.,1.,30.;").c_str(),1),'P',1); ln(strf("%-64s%8d",dl("110,1.,2.,3.,4.,5.,6.;").c_str(),3),'P',2); ln(strf("S%7dG%7zuD%7dP%7d",1,G.size(),4,2),'T',1); return o; }
struct Par { std::vector<std::string> v; int n; char pd,rd; bool pdx,rdx; };
static std::string text(const Par&p){ std::string s; s+=(p.pdx||p.pd!=',')? strf("1H%c",p.pd):""; s+=p.pd; s+=(p.rdx||p.rd!=';')? strf("1H%c",p.rd):""; for(int k=3;k<=p.n;++k) s+=p.pd+p.v[k]; s+=p.rd; return s; }
static const char*DL=",;/:!$%&*()=~^|_<>?@#[]{}abcxyz";
static Par base(Rng&r){ Par p; p.pd=','; p.rd=';'; if(r.below(3)==0){ p.pd=DL[r.below(31)]; if(p.pd==';') p.pd=','; } if(r.below(3)==0){ do p.rd=DL[r.below(31)]; while(p.rd==p.pd); } if(p.rd==p.pd) p.rd=';'; p.pdx=r.flip(); p.rdx=r.flip(); p.n=19+r.below(8);
  p.v.resize(27); for(int k:{3,4,5,6}) p.v[k]=H(strf("name %d",r.below(100000))); p.v[7]="32"; p.v[8]="38"; p.v[9]="6"; p.v[10]="308"; p.v[11]="15"; p.v[12]=r.flip()?"":H("receiver"); static const char*SC[]={"1.0","","2.","0.5","10.","0.25","1.","8.0"}; p.v[13]=SC[r.below(8)]; p.v[14]=r.below(8)?strf("%d",1+r.below(11)):""; p.v[15]=r.flip()?H("CUSTOM"):r.flip()?"":H(UN[1+r.below(11)]); if(p.v[14]=="3"&&p.v[15].empty()) p.v[15]=H("FURLONG"); p.v[16]=r.flip()?strf("%d",1+r.below(50)):""; p.v[17]=strf("%d.5",r.below(9)); p.v[18]=H(good_date(r)); static const char*MR[]={"0.001","1.E-6","1.0D-3","0.5"}; p.v[19]=MR[r.below(4)]; p.v[20]=r.flip()?"":"1000."; p.v[21]=r.flip()?"":H("An, author;"); p.v[22]=r.flip()?"":H("org"); p.v[23]=r.flip()?"":strf("%d",1+r.below(15)); p.v[24]=r.flip()?"":strf("%d",r.below(8)); p.v[25]=r.flip()?"":H(good_date(r)); p.v[26]=r.flip()?"":H("note, with ; both"); return p; }
static bool isnum(const std::string&s,double&v){ if(s.empty()) return false; std::string t=s; for(auto&c:t) if(c=='D') c='E'; char*e; v=strtod(t.c_str(),&e); return !*e; }
static bool unH(const std::string&s,std::string&o){ o.clear(); if(s.empty()) return true; size_t h=s.find('H'); if(h==std::string::npos||h==0) return false; o=s.substr(h+1); return (size_t)atoi(s.c_str())==o.size(); }
static bool near(double a,double b){ return fabs(a-b)<=1e-12*fabs(b)+1e-300; }
static void judge(Rng&r,const Par&p,bool deloK,const std::string&what){ std::string g=text(p),t=file_of(g,p.pd,p.rd),fn=dir_()+"/g.igs"; { std::ofstream f(fn.c_str(),std::ios::binary); f<<t; }
  std::string s[27]; double x; bool ok=deloK; for(int k:{3,4,5,6,12,15,18,21,22,25,26}) if(k<=p.n&&!unH(p.v[k],s[k])) ok=false; for(int k:{3,4,5,6}) if(s[k].empty()) ok=false;
  auto num=[&](int k,double d,bool def,double&o){ if(p.v[k].empty()){ o=d; return def; } return isnum(p.v[k],o); }; double v[27]={0}; for(int k:{7,8,9,10,11}) if(!num(k,0,false,v[k])) ok=false; if(v[7]<8||v[7]>32||v[8]<4||v[8]>308||v[9]<3||v[9]>16||v[10]<4||v[10]>308||v[11]<3||v[11]>16) ok=false;
  if(!num(13,1,true,v[13])||!(v[13]>0)) ok=false; if(!num(14,1,true,v[14])||v[14]<1||v[14]>11) ok=false; if(v[14]==3&&s[15].empty()) ok=false; if(!num(16,1,true,v[16])||v[16]<1) ok=false; if(!num(17,0,false,v[17])||v[17]<0) ok=false; if(!date_ok(s[18])) ok=false; if(!num(19,0,false,v[19])||!(v[19]>0)) ok=false;
  if(p.n>=20&&(!num(20,0,true,v[20])||v[20]<0)) ok=false; if(p.n>=23&&!num(23,3,true,v[23])) ok=false; if(p.n>=24&&(!num(24,0,true,v[24])||v[24]<0||v[24]>7)) ok=false; if(p.n>=25&&!s[25].empty()&&!date_ok(s[25])) ok=false; if(p.n>26) ok=false; (void)x;
  at(what+" "+g); IGES m; bool rc=m.Read(fn.c_str()); ev(true); EXPECT(rc==ok,ok?"refused:"+what.substr(0,what.find(' ')):"accepted:"+what.substr(0,what.find(' ')),"%s: Global section %s is %s",what.c_str(),g.c_str(),rc?"accepted":"refused"); if(!rc||!ok) return;
  IGES_GLOBAL&G=m.globalData; auto S=[&](const char*n,const std::string&a,const std::string&b){ EXPECT(a==b,strf("read:%s",n),"%s is '%s', not '%s' for %s",n,a.c_str(),b.c_str(),g.c_str()); }; auto N=[&](const char*n,double a,double b){ EXPECT(near(a,b),strf("read:%s",n),"%s is %.17g, not %.17g for %s",n,a,b,g.c_str()); };
  S("productIDSS",G.productIDSS,s[3]); S("nativeSystemID",G.nativeSystemID,s[5]); S("preprocessorVersion",G.preprocessorVersion,s[6]); S("productIDRS",G.productIDRS,s[12].empty()?s[3]:s[12]); S("creationDate",G.creationDate,s[18]); S("author",G.author,s[21]); S("organization",G.organization,s[22]); S("modificationDate",G.modificationDate,s[25]); S("applicationNote",G.applicationNote,s[26]);
  N("nIntegerBits",G.nIntegerBits,v[7]); N("floatMaxExp",G.floatMaxExp,v[8]); N("floatMaxSig",G.floatMaxSig,v[9]); N("doubleMaxExp",G.doubleMaxExp,v[10]); N("doubleMaxSig",G.doubleMaxSig,v[11]); N("maxLinewidthGrad",G.maxLinewidthGrad,v[16]); N("maxLinewidth",G.maxLinewidth,v[17]); N("maxCoordinateValue",G.maxCoordinateValue,v[20]); N("draftStandard",G.draftStandard,v[24]); N("pdelim",G.pdelim,p.pd); N("rdelim",G.rdelim,p.rd); if(p.n>=23&&!p.v[23].empty()) N("igesVersion",G.igesVersion,v[23]<3?3:v[23]>11?11:v[23]);
  bool ext=v[14]==3; double f=UF[(int)v[14]]/v[13]; N("modelScale",G.modelScale,1); N("unitsFlag",G.unitsFlag,ext?3:2); S("unitsName",G.unitsName,ext?s[15]:"MM"); N("minResolution",G.minResolution,v[19]*f); if(!ext) S("GetUnitName",m.GetUnitName(),"MM");
  for(auto*e:m.entities){ if(e->GetEntityType()==110){ auto*l=(IGES_ENTITY_110*)e; N("coordinate",l->X1,1*f); N("coordinate",l->Z2,6*f); } if(e->GetEntityType()==124) N("translation",((IGES_ENTITY_124*)e)->T.T.y,20*f); } }
static void valid(Rng&r,int n){ for(int c=0;c<n;++c) judge(r,base(r),true,"valid"); }
static void broken(Rng&r,int n){ for(int c=0;c<n;++c){ Par p=base(r); int k=3+r.below(24); if(k>p.n) p.n=26; static const char*B[]={"","0","-1","1","2","3","4","7","8","16","17","32","33","308","309","11","12","1.5","abc","3Habc","5Habc","0.0","-0.5","1.E3","0H","11H20200101.00","1H","-1."}; bool st=p.v[k].find('H')!=std::string::npos; std::string b=B[r.below(28)];
   // keep the value of the right lexical kind unless it is plainly malformed
   if(k==7||k==8||k==9||k==10||k==11||k==14||k==16||k==23||k==24){ if(b.find_first_not_of("0123456789-")!=std::string::npos) b=strf("%d",r.range(-2,400)); } else if(k==13||k==17||k==19||k==20){ if(!b.empty()&&b.find_first_not_of("0123456789-.E")!=std::string::npos) b="-0.001"; if(b.find_first_of(".E")==std::string::npos&&!b.empty()) b+="."; } else { b=r.flip()?"":H(strf("t%d",r.below(999))); if(k==18||k==25) b=H(rdate(r)); } (void)st; p.v[k]=b; judge(r,p,true,strf("parameter%d",k)); } }
static void dates(Rng&r,int n){ for(int c=0;c<n;++c){ Par p=base(r); p.n=26; std::string d=rdate(r); bool m=r.flip(); p.v[m?25:18]=H(d); judge(r,p,true,m?"modification-date":"creation-date"); } }
static void delims(Rng&r,int n){ for(int c=0;c<n;++c){ Par p=base(r); char b=r.flip()? " +-.0159DEH;\x7f"[r.below(13)] : (char)(33+r.below(94)); bool w=r.flip(); if(w){ p.pd=b; p.pdx=true; if(p.rd==p.pd&&r.flip()) p.rd=p.pd==','?';':','; p.rdx=true; } else { p.rd=b; p.rdx=true; }
   auto bad=[](char x){ return x<=0x20||x>=0x7f||strchr("+-.DEH0123456789",x); }; bool ok=!bad(p.pd)&&p.pd!=';'&&!bad(p.rd)&&p.rd!=p.pd; 
   if(ok){ // the values must not contain the delimiters
     for(int k=3;k<=p.n;++k){ size_t h=p.v[k].find('H'); std::string lead=h==std::string::npos?p.v[k]:p.v[k].substr(0,h+1); if(lead.find(p.pd)!=std::string::npos||lead.find(p.rd)!=std::string::npos) ok=false; } if(!ok) continue; }
   judge(r,p,ok,"delimiter"); } }
// ---- writing
static void writing(Rng&r,int n){ for(int c=0;c<n;++c){ IGES m; IGES_GLOBAL&G=m.globalData; IGES_ENTITY*e=NULL; m.NewEntity(110,&e); auto*l=(IGES_ENTITY_110*)e; l->X1=1;l->Y1=2;l->Z1=3;l->X2=4;l->Y2=5;l->Z2=6; IGES_ENTITY*t=NULL; m.NewEntity(308,&t); 
   if(r.below(3)==0){ G.pdelim=DL[r.below(31)]; if(G.pdelim==';') G.pdelim=','; } if(r.below(3)==0) do G.rdelim=DL[r.below(31)]; while(G.rdelim==G.pdelim); if(G.rdelim==G.pdelim) G.rdelim=';';
   auto rs=[&](int mx)->std::string{ if(r.below(3)==0) return ""; int k=r.below(8)? 1+r.below(12) : 1+r.below(mx); std::string s; for(int i=0;i<k;++i) s+=(char)(32+r.below(95)); return s; };
   G.productIDSS=rs(150); G.nativeSystemID=rs(80); G.productIDRS=rs(80); G.author=rs(80); G.organization=rs(200); G.applicationNote=rs(80); G.unitsFlag=(IGES_UNIT)(1+r.below(11)); G.unitsName=G.unitsFlag==3&&r.flip()?"FURLONG":""; static const double SC[]={1,2,0.5,0.125,100}; G.modelScale=SC[r.below(5)]; G.maxLinewidthGrad=r.below(6)-1; static const double W[]={0,1,0.5,2.25,1e-7}; G.maxLinewidth=W[r.below(5)]; static const double MR[]={1e-8,0.001,0.5,1e-13}; G.minResolution=MR[r.below(4)]; G.draftStandard=(IGES_DRAFTING_STANDARD)r.below(8); G.creationDate=r.flip()?rdate(r):"";
   IGES_GLOBAL g=G; std::string fn=dir_()+"/w.igs"; m.DelEntity(t); at(strf("write unit %d delimiters %c %c",g.unitsFlag,g.pdelim,g.rdelim)); { std::ofstream z(fn.c_str()); } bool ok=m.Write(fn.c_str(),true); std::string in=strf("written with delimiters %c %c",g.pdelim,g.rdelim); EXPECT(ok,"write","model with units %d refused on output",(int)g.unitsFlag); if(!ok) continue; ev();
   std::ifstream f(fn.c_str(),std::ios::binary); std::string L,s; int seq=0; while(std::getline(f,L)){ if(L.size()>=80&&L[72]=='G'){ s+=L.substr(0,72); EXPECT(atoi(L.c_str()+73)==++seq,"sequence","Global line %d numbered %s",seq,L.substr(73).c_str()); } }
   std::vector<std::string> v(3); std::vector<bool> h(3,false); size_t i=0; char pd=g.pdelim,rd=g.rdelim; std::string hd=(pd==','?std::string(","):strf("1H%c%c",pd,pd))+(rd==';'?std::string(1,pd):strf("1H%c%c",rd,pd)); EXPECT(s.compare(0,hd.size(),hd)==0,"write:delimiters","Global section starts %s, not %s",s.substr(0,8).c_str(),hd.c_str()); if(s.compare(0,hd.size(),hd)) continue; i=hd.size(); bool end=false,badf=false;
   while(!end&&!badf){ std::string num; while(i<s.size()&&s[i]==' ') ++i; size_t b=i; while(i<s.size()&&isdigit((unsigned char)s[i])) ++i; if(i<s.size()&&s[i]=='H'&&i>b){ int k=atoi(s.substr(b,i-b).c_str()); v.push_back(s.substr(i+1,k)); h.push_back(true); i+=1+k; while(i<s.size()&&s[i]==' '&&pd!=' ') ++i; } else { i=b; std::string w; while(i<s.size()&&s[i]!=pd&&s[i]!=rd) w+=s[i++]; while(!w.empty()&&w[w.size()-1]==' ') w.resize(w.size()-1); v.push_back(w); h.push_back(false); } if(i>=s.size()) badf=true; else if(s[i]==rd) end=true; else if(s[i]!=pd) badf=true; ++i; }
   EXPECT(!badf,"write:form","Global section cannot be split into delimited values: %s",s.c_str()); if(badf) continue; int np=(int)v.size()-1; EXPECT(np==(g.applicationNote.empty()?25:26),"write:count","%d parameters written: %s",np,s.c_str()); if(np<25) continue; v.resize(27); h.resize(27);
   auto S=[&](int k,const std::string&w){ EXPECT(v[k]==w&&(h[k]||w.empty()),strf("write:%d",k),"parameter %d is '%s', not '%s' (%s)",k,v[k].c_str(),w.c_str(),in.c_str()); }; auto N=[&](int k,double w){ double x; EXPECT(!h[k]&&isnum(v[k],x)&&fabs(x-w)<=1e-6*fabs(w)+1e-12,strf("write:%d",k),"parameter %d is '%s', not %g (%s)",k,v[k].c_str(),w,in.c_str()); };
   auto none=[](const std::string&x){ return x.empty()?std::string("none"):x; }; S(3,none(g.productIDSS)); S(4,"w.igs"); S(5,none(g.nativeSystemID)); EXPECT(!v[6].empty()&&h[6],"write:6","no preprocessor version"); N(7,32); N(8,38); N(9,6); N(10,308); N(11,15); S(12,g.productIDRS); N(13,g.modelScale); N(14,g.unitsFlag); if(!(g.unitsFlag==3&&!g.unitsName.empty()&&v[15]==g.unitsName)) S(15,UN[g.unitsFlag]); if(g.unitsFlag==3&&!g.unitsName.empty()) S(15,g.unitsName); N(16,g.maxLinewidthGrad<1?1:g.maxLinewidthGrad); if(g.maxLinewidth>=1e-6) N(17,g.maxLinewidth); if(date_ok(g.creationDate)) S(18,g.creationDate); EXPECT(date_ok(v[18]),"write:18","creation date %s",v[18].c_str()); if(g.minResolution>=1e-12) N(19,g.minResolution); S(21,g.author); S(22,g.organization); N(24,g.draftStandard); EXPECT(date_ok(v[25]),"write:25","modification date %s",v[25].c_str()); S(26,g.applicationNote); } }
static void units(Rng&r,int n){ for(int c=0;c<n;++c){ IGES m; IGES_ENTITY*e=NULL; IGES spare; (r.below(4)?m:spare).NewEntity(110,&e); auto*l=(IGES_ENTITY_110*)e; bool mine=m.entities.size()>0; int u=1+r.below(11); m.globalData.unitsFlag=(IGES_UNIT)u; m.globalData.unitsName=UN[u]; m.globalData.minResolution=0.001; double x=l->X1=r.real(-10,10),mr=0.001; std::string h=strf("%s",UN[u]);
   for(int k=1+r.below(5);k>0;--k){ int w=r.below(8)?1+r.below(11):r.range(-3,14); h+=strf(" -> %d",w); at(h); bool ok=w==u||(w>=1&&w<=11&&w!=3&&u!=3); bool rc=m.ConvertUnits((IGES_UNIT)w); ev(); EXPECT(rc==ok,"units:result","%s is %s",h.c_str(),rc?"accepted":"refused"); if(rc!=ok) break; if(ok&&w!=u){ x*=UF[u]/UF[w]; mr*=UF[u]/UF[w]; u=w; }
     EXPECT(m.globalData.unitsFlag==u,"units:flag","%s: units flag %d",h.c_str(),(int)m.globalData.unitsFlag); EXPECT(m.globalData.unitsName==UN[u],"units:name","%s: units name %s",h.c_str(),m.globalData.unitsName.c_str()); EXPECT(std::string(m.GetUnitName())==UN[u],"units:GetUnitName","%s: reported name %s",h.c_str(),m.GetUnitName()); EXPECT(!mine||near(l->X1,x)||fabs(l->X1-x)<=1e-9*fabs(x),"units:coordinate","%s: coordinate %.17g, not %.17g",h.c_str(),l->X1,x); EXPECT(fabs(m.globalData.minResolution-mr)<=1e-9*mr,"units:resolution","%s: resolution %.17g, not %.17g",h.c_str(),m.globalData.minResolution,mr); } } }
static void cleanup(Rng&,int){ }
int main(int c,char**v){ (void)cleanup; std::string d=dir_(); int x=run_groups(c,v,{{"valid",valid},{"broken",broken},{"dates",dates},{"delimiters",delims},{"writing",writing},{"units",units}}); unlink((d+"/g.igs").c_str()); unlink((d+"/w.igs").c_str()); rmdir(d.c_str()); return x; }
