// C05: directory entries written by writeDE are checked column by column, read back with readDE, resolved with associate
#include "graph.h"
#include <core/iges_io.h>
static std::string dir_(){ static std::string d; if(d.empty()){ char t[]="/tmp/replayc05XXXXXX"; d=mkdtemp(t); } return d; }
static std::string slurp(const std::string&f){ std::ifstream i(f.c_str(),std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
struct Clean { std::string f,d; Clean(){ d=dir_(); f=d+"/de.txt"; } ~Clean(){ unlink(f.c_str()); rmdir(d.c_str()); } };
static std::string f8(long v){ char b[32]; snprintf(b,sizeof b,"%8ld",v); return b; }
static int seqn(E*p){ return p?p->sequenceNumber:0; }
// targets of the pointer attributes: placeholder entities given the type the standard requires
static E* target(IGES&m,Rng&r,int ty,int fm){ E*p=mk(m,ty==124?124:ty==314?314:406); p->entityType=ty; p->form=fm; p->sequenceNumber=1+2*r.range(0,r.below(4)?500:4999998); return p; }
static int num(Rng&r,int hi){ switch(r.below(4)){ case 0: return 0; case 1: return r.range(0,9); case 2: return hi; default: return r.range(0,hi); } }
struct Exp { std::string a[9],b[9]; };
static void fill(Rng&r,IGES&m,E*x,bool big,int maxlw){
  x->parameterData=num(r,9999000); x->paramLineCount=r.range(1,900); x->structure=0; x->form=num(r,big?99999999:31);
  x->lineFontPattern=r.range(0,5); x->level=num(r,big?99999999:9999999); x->view=x->transform=x->labelAssoc=0; x->colorNum=r.range(0,8);
  x->visible=r.flip(); x->depends=(IGES_STAT_DEPENDS)r.below(4); x->use=(IGES_STAT_USE)r.below(7); x->hierarchy=(IGES_STAT_HIER)r.below(3);
  x->lineWeightNum=r.range(0,maxlw); x->entitySubscript=num(r,99999999); x->sequenceNumber=1+2*num(r,4999998);
  x->label.clear(); for(int i=r.below(12);i>0;--i) x->label+=(char)r.range(33,126); if(x->label.size()>2&&r.flip()) x->label[1]=' ';
  if(r.below(3)==0) x->pStructure=target(m,r,308,0); if(r.below(2)==0){ x->pLineFontPattern=target(m,r,304,1); x->lineFontPattern=-x->pLineFontPattern->sequenceNumber; }
  if(r.below(2)==0){ x->pLevel=target(m,r,406,1); x->level=-1; } if(r.below(2)==0) x->pView=target(m,r,410,0); if(r.below(2)==0) x->pTransform=(IGES_ENTITY_124*)target(m,r,124,0);
  if(r.below(2)==0) x->pLabelAssoc=target(m,r,402,5); if(r.below(2)==0){ x->pColor=(decltype(x->pColor))target(m,r,314,0); x->colorNum=-3; }
}
static Exp expect(E*x){
  Exp e; e.a[0]=f8(x->entityType); e.a[1]=f8(x->parameterData); e.a[2]=f8(-seqn(x->pStructure)); e.a[3]=f8(x->pLineFontPattern?-seqn(x->pLineFontPattern):x->lineFontPattern<0||x->lineFontPattern>5?0:x->lineFontPattern);
  e.a[4]=f8(x->pLevel?-seqn(x->pLevel):x->level<0?0:x->level); e.a[5]=f8(seqn(x->pView)); e.a[6]=f8(seqn((E*)x->pTransform)); e.a[7]=f8(seqn(x->pLabelAssoc));
  e.a[8]=f8((x->visible?0:1)*1000000+x->depends*10000+x->use*100+x->hierarchy);
  e.b[0]=e.a[0]; e.b[1]=f8(x->lineWeightNum); e.b[2]=f8(x->pColor?-seqn((E*)x->pColor):x->colorNum<0||x->colorNum>8?0:x->colorNum); e.b[3]=f8(x->paramLineCount); e.b[4]=f8(x->form); e.b[5]=e.b[6]="        ";
  std::string l=x->label.substr(0,8); e.b[7]=std::string(8-l.size(),' ')+l; e.b[8]=f8(x->entitySubscript); return e; }
static const char*NA[9]={"type","parameter-data","structure","line-font","level","view","transform","label-display","status"};
static const char*NB[9]={"type","line-weight","colour","line-count","form","unused","unused","label","subscript"};
static void drop(E*x){ x->pStructure=0; x->pLineFontPattern=0; x->pLevel=0; x->pView=0; x->pTransform=0; x->pLabelAssoc=0; x->pColor=0; }
static long status(const std::string&f){ return atol(f.c_str()); }
static void rt(Rng&r,int n){
  Clean cl;
  for(int it=0;it<n/12+20;++it) for(int k=0;k<3;++k){
    int t=TYPES[r.below(24)]; IGES m; m.globalData.maxLinewidthGrad=r.range(1,40); E*x=mk(m,t); if(!x) continue; bool big=r.below(8)==0;
    fill(r,m,x,big,m.globalData.maxLinewidthGrad); Exp e=expect(x); std::string ctx=strf("type %d seq %d: '%s%s%s%s%s%s%s%s%s' / '%s%s%s%s%s%s%s%s%s'",t,x->sequenceNumber,e.a[0].c_str(),e.a[1].c_str(),e.a[2].c_str(),e.a[3].c_str(),e.a[4].c_str(),e.a[5].c_str(),e.a[6].c_str(),e.a[7].c_str(),e.a[8].c_str(),e.b[0].c_str(),e.b[1].c_str(),e.b[2].c_str(),e.b[3].c_str(),e.b[4].c_str(),e.b[5].c_str(),e.b[6].c_str(),e.b[7].c_str(),e.b[8].c_str());
    at(ctx); bool ok; { std::ofstream o(cl.f.c_str(),std::ios::trunc|std::ios::binary); ok=x->IGES_ENTITY::writeDE(o); } ev();
    if(!ok){ fail("write-refused","a directory entry whose fields fit is refused: "+ctx); drop(x); continue; }
    std::string s=slurp(cl.f); EXPECT(s.size()==162&&s[80]=='\n'&&s[161]=='\n',"records","not two records of 80 columns: %s -> '%s'",ctx.c_str(),s.c_str());
    if(s.size()==162){
      for(int i=0;i<9;++i){ std::string g=s.substr(8*i,8),h=s.substr(81+8*i,8);
        if(i==8) EXPECT(status(g)==status(e.a[8])&&g.find_first_not_of(" 0123456789")==std::string::npos,"write:status","status field '%s', expected '%s': %s",g.c_str(),e.a[8].c_str(),ctx.c_str()); else EXPECT(g==e.a[i],strf("write:%s",NA[i]),"field %d holds '%s', expected '%s': %s",i+1,g.c_str(),e.a[i].c_str(),ctx.c_str());
        EXPECT(h==e.b[i],strf("write:%s",NB[i]),"field %d holds '%s', expected '%s': %s",i+11,h.c_str(),e.b[i].c_str(),ctx.c_str()); }
      std::string q=strf("D%7d",x->sequenceNumber),q2=strf("D%7d",x->sequenceNumber+1);
      EXPECT(s.substr(72,8)==q&&s.substr(81+72,8)==q2,"write:sequence","sequence columns '%s' '%s', expected '%s' '%s': %s",s.substr(72,8).c_str(),s.substr(153,8).c_str(),q.c_str(),q2.c_str(),ctx.c_str());
    }
    // read back into a fresh entity of the type
    E*y=mk(m,t); y->entityType=x->entityType; y->structure=77; y->lineFontPattern=IGES_LINEFONT_PATTERN(3); y->level=5; y->hierarchy=(IGES_STAT_HIER)1; y->use=(IGES_STAT_USE)1; y->depends=(IGES_STAT_DEPENDS)1; y->label="zz"; y->form=7; y->entitySubscript=9; y->colorNum=(decltype(y->colorNum))2; y->visible=!x->visible;
    std::ifstream in(cl.f.c_str(),std::ios::binary); IGES_RECORD rec; int sv=r.range(0,100000),sv0=sv; bool rr=ReadIGESRecord(&rec,in); 
    if(x->sequenceNumber<9999997){
      at("read "+ctx); rr=rr&&y->IGES_ENTITY::readDE(&rec,in,sv); ev();
      EXPECT(rr,"read-refused","a written directory entry is refused: %s",ctx.c_str());
      if(rr){
        auto C=[&](const char*nm,long got,long want){ EXPECT(got==want,std::string("read:")+nm,"%s reads back as %ld, written %ld: %s",nm,got,want,ctx.c_str()); };
        C("sequence",y->sequenceNumber,x->sequenceNumber); C("parameter-data",y->parameterData,x->parameterData); C("structure",y->structure,status(e.a[2])); C("line-font",y->lineFontPattern,status(e.a[3])); C("level",y->level,status(e.a[4])); C("view",y->view,status(e.a[5])); C("transform",y->transform,status(e.a[6])); C("label-display",y->labelAssoc,status(e.a[7]));
        C("visible",y->visible,x->visible); C("dependency",y->depends,x->depends); C("use",y->use,x->use); C("hierarchy",y->hierarchy,x->hierarchy); C("line-weight",y->lineWeightNum,x->lineWeightNum); C("colour",y->colorNum,status(e.b[2])); C("line-count",y->paramLineCount,x->paramLineCount); C("form",y->form,x->form); C("subscript",y->entitySubscript,x->entitySubscript); C("counter",sv-sv0,2);
        EXPECT(y->label==x->label.substr(0,8),"read:label","label reads back as '%s', written '%s': %s",y->label.c_str(),x->label.c_str(),ctx.c_str());
      } }
    drop(x); drop(y);
  }
}
// hand written records: every field value, blank fields, values out of range
static void rd(Rng&r,int n){
  Clean cl;
  for(int it=0;it<n/4+50;++it){
    int t=TYPES[r.below(24)]; IGES m; m.globalData.maxLinewidthGrad=r.range(0,20); E*y=mk(m,t); if(!y) continue; t=y->entityType;
    long v[9],w[9]; bool bl[9]={0},b2[9]={0}; int bad=r.below(3)?-1:r.below(12);
    v[0]=t; v[1]=r.range(0,9999999); v[2]=r.below(3)?0:r.flip()?r.range(1,9):-r.range(1,9999999); v[3]=r.flip()?r.range(0,5):-r.range(1,9999999); v[4]=r.flip()?r.range(0,99999999):-r.range(1,9999999); v[5]=r.range(0,9999999); v[6]=r.range(0,9999999); v[7]=r.range(0,9999999);
    int vis=r.below(2),dep=r.below(4),use=r.below(7),hi=r.below(3); w[0]=t; w[1]=r.range(0,30); w[2]=r.flip()?r.range(0,8):-r.range(1,9999999); w[3]=r.range(1,9999); w[4]=r.range(0,99999999); w[5]=w[6]=w[7]=0; w[8]=r.range(0,99999999);
    const char*why="";
    switch(bad){ case 0: v[0]=t+1; why="type"; break; case 1: w[0]=t+1; why="type 2"; break; case 2: v[3]=6+r.below(50); why="line font"; break; case 3: v[5]=-1; why="view"; break; case 4: v[6]=-1; why="transform"; break; case 5: v[7]=-3; why="label"; break; case 6: vis=2+r.below(90); why="visible"; break; case 7: dep=4+r.below(90); why="dependency"; break; case 8: use=7+r.below(90); why="use"; break; case 9: hi=3+r.below(90); why="hierarchy"; break; case 10: w[2]=9+r.below(90); why="colour"; break; case 11: w[4]=-1; why="form"; break; }
    v[8]=vis*1000000L+dep*10000+use*100+hi;
    for(int i:{2,3,4,5,6,7}) if(r.below(5)==0&&bad<0){ bl[i]=true; v[i]=0; } for(int i:{2,4,8}) if(r.below(5)==0&&bad<0){ b2[i]=true; w[i]=0; }
    std::string lab; for(int i=r.below(9);i>0;--i) lab+=(char)r.range(33,126);
    int seq=1+2*r.range(0,4999990); std::string a,b; for(int i=0;i<9;++i) a+=bl[i]?std::string(8,' '):(i==8&&r.flip())?strf("%08ld",v[8]):f8(v[i]); for(int i=0;i<9;++i) b+=i==5||i==6?std::string(8,' '):i==7?std::string(8-lab.size(),' ')+lab:b2[i]?std::string(8,' '):f8(w[i]);
    a+=strf("D%7d\n",seq); b+=strf("D%7d\n",seq+1); at(a+b);
    { std::ofstream o(cl.f.c_str(),std::ios::trunc|std::ios::binary); o<<a<<b; }
    std::ifstream in(cl.f.c_str(),std::ios::binary); IGES_RECORD rec; int sv=0; bool ok=ReadIGESRecord(&rec,in)&&y->IGES_ENTITY::readDE(&rec,in,sv); ev();
    if(bad>=0){ EXPECT(!ok,std::string("bad:")+why,"a directory entry with an invalid %s is accepted: %s%s",why,a.c_str(),b.c_str()); continue; }
    EXPECT(ok,"valid-refused","a valid directory entry is refused: %s%s",a.c_str(),b.c_str()); if(!ok) continue;
    auto C=[&](const char*nm,long got,long want){ EXPECT(got==want,std::string("readval:")+nm,"%s is %ld, field says %ld: %s%s",nm,got,want,a.c_str(),b.c_str()); };
    C("parameter-data",y->parameterData,v[1]); C("structure",y->structure,v[2]>0?0:v[2]); C("line-font",y->lineFontPattern,v[3]); C("level",y->level,v[4]); C("view",y->view,v[5]); C("transform",y->transform,v[6]); C("label-display",y->labelAssoc,v[7]); C("visible",y->visible,!vis); C("dependency",y->depends,dep); C("use",y->use,use); C("hierarchy",y->hierarchy,hi);
    C("line-weight",y->lineWeightNum,std::min<long>(w[1],m.globalData.maxLinewidthGrad)); C("colour",y->colorNum,w[2]); C("line-count",y->paramLineCount,w[3]); C("form",y->form,w[4]); C("subscript",y->entitySubscript,w[8]); C("sequence",y->sequenceNumber,seq);
    EXPECT(y->label==lab,"readval:label","label '%s' from %s%s",y->label.c_str(),a.c_str(),b.c_str());
  }
}
// pointers resolve to the entity with that sequence number, of the right type; nothing else keeps a reference
static void res(Rng&r,int n){
  static const struct{int ty,fm;} K[7]={{308,0},{304,1},{406,1},{410,0},{124,0},{402,5},{314,0}};
  for(int it=0;it<n/8+40;++it){
    IGES m; std::vector<E*> v; int N=r.range(8,24); 
    for(int i=0;i<N;++i){ int k=i<7?i:r.below(7); E*p=mk(m,K[k].ty==124?124:K[k].ty==314?314:K[k].ty==308?308:406); p->entityType=K[k].ty; p->form=K[k].fm; v.push_back(p); }
    E*x=mk(m,110); v.push_back(x); for(size_t i=v.size()-1;i>0;--i) std::swap(v[i],v[r.below(i+1)]);
    int f[7]; int bad=r.below(4)==0?r.below(7):-1; std::string what="entities"; for(size_t i=0;i<v.size();++i) what+=strf(" %d:%d-%d%s",(int)i*2+1,v[i]->entityType,v[i]->form,v[i]==x?"*":"");
    bool valid=true;
    for(int k=0;k<7;++k){ f[k]=0; if(r.below(3)==0) continue; std::vector<int> c; for(size_t i=0;i<v.size();++i) if(v[i]->entityType==K[k].ty&&v[i]!=x) c.push_back(i); if(c.empty()) continue; f[k]=2*c[r.below(c.size())]+1; }
    if(bad>=0){ int how=r.below(3); for(size_t i=0;i<v.size();++i) if(how==0&&v[i]==x) f[bad]=2*i+1; if(how==1) f[bad]=2*(int)v.size()+1+2*r.below(50); if(how==2){ for(size_t i=0;i<v.size();++i) if(v[i]->entityType!=K[bad].ty&&v[i]!=x&&bad!=0){ f[bad]=2*i+1; } for(int k=0;k<7;++k) if(k!=bad&&f[k]==f[bad]) f[k]=0; } if(bad==0&&how==2){ if(f[0]&&0) valid=false; } else valid=false; }
    what+=strf("; fields %d %d %d %d %d %d %d",-f[0],-f[1],-f[2],f[3],f[4],f[5],-f[6]); at(what); ev();
    x->structure=-f[0]; if(f[1]) x->lineFontPattern=-f[1]; if(f[2]) x->level=-f[2]; x->view=f[3]; x->transform=f[4]; x->labelAssoc=f[5]; if(f[6]) x->colorNum=-f[6]; x->massoc=false;
    bool ok=x->IGES_ENTITY::associate(&v); E*P[7]={x->pStructure,x->pLineFontPattern,x->pLevel,x->pView,(E*)x->pTransform,x->pLabelAssoc,(E*)x->pColor};
    static const char*NM[7]={"structure","line font","level","view","transform","label display","colour"};
    EXPECT(ok==valid,valid?"resolve-refused":"resolve-bad","associate returns %d: %s",ok,what.c_str());
    for(int k=0;k<7;++k){ E*w=f[k]&&f[k]/2<(int)v.size()?v[f[k]/2]:0; if(valid) EXPECT(P[k]==w,strf("resolve:%s",NM[k]),"%s resolves to the wrong entity: %s",NM[k],what.c_str()); else if(ok==valid) EXPECT(!P[k]||(P[k]==w&&(k==0||w->entityType==K[k].ty)),strf("resolve:%s",NM[k]),"%s resolves to an unsuitable entity: %s",NM[k],what.c_str()); }
    for(E*p:v){ size_t c=std::count(p->refs.begin(),p->refs.end(),x); bool u=std::count(P,P+7,p)>0; EXPECT(c==(u?1u:0u),"resolve:refs","an entity (type %d) records the parent %zu times, referenced %d: %s",p->entityType,c,u,what.c_str()); }
    for(E*p:v){ if(p->entityType==304||p->entityType==402||p->entityType==410||p->entityType==308) p->entityType=p->entityType==308?308:406; }
  }
}
int main(int c,char**v){ return run_groups(c,v,{{"roundtrip",rt},{"fields",rd},{"resolve",res}}); }
