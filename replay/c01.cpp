// C01: fixed-width integer fields
#include "common.h"
#include <core/iges_io.h>
static std::string want(long n){ std::string d=strf("%ld",n); return d.size()>8?std::string():std::string(8-d.size(),' ')+d; }
static void one(Rng&r,long n){
  std::string out=r.flip()?std::string("junk text here").substr(0,r.below(14)):std::string(); at(strf("format %ld",n));
  bool ok=FormatDEInt(out,(int)n); ev();
  if(n>99999999||n<-9999999){ EXPECT(!ok,"fmt-range","FormatDEInt(%ld) accepted, field '%s'",n,out.c_str()); EXPECT(out.empty(),"fmt-refused","FormatDEInt(%ld) refused but the field is '%s'",n,out.c_str()); return; }
  EXPECT(ok,"fmt-refuses","FormatDEInt(%ld) refused",n);
  EXPECT(out==want(n),"fmt-text","FormatDEInt(%ld) = '%s'",n,out.c_str());
  for(int f=0;f<10;++f){
    std::string rec(80,' '); for(int i=0;i<80;++i) rec[i]= r.below(4)? (char)('0'+r.below(10)) : (r.flip()?' ':'A');
    if(r.below(3)==0) rec.resize(8*(f+1));
    rec.replace(8*f,8,want(n)); int v=12345678, d=777; at(strf("read %ld field %d",n,f)); ev();
    bool q=DEItemToInt(rec,f,v,r.flip()?&d:NULL);
    EXPECT(q&&v==n,"read-back","field %d of '%s' read as %s %d, written %ld",f,rec.c_str(),q?"true":"false",v,n);
    std::string sv="zz"; q=DEItemToStr(rec,f,sv); EXPECT(q&&sv==strf("%ld",n),"read-str","field %d of '%s' read as '%s'",f,rec.c_str(),sv.c_str());
  }
}
static void g_values(Rng&r,int n){
  long p=1; for(int k=0;k<10;++k,p*=10) for(int d=-2;d<=2;++d){ if(p+d<=2147483647L){ one(r,p+d); one(r,-(p+d)); one(r,p/2+d); one(r,-(p/2+d)); } }
  one(r,2147483647L); one(r,-2147483647L-1);
  for(int i=0;i<n;++i){ int k=1+r.below(31); one(r,(r.flip()?-1L:1L)*(long)(r.next()%(1UL<<k))); }
}
static void g_bad(Rng&r,int n){
  for(int i=0;i<n;++i){
    int len=r.below(90); std::string rec; for(int k=0;k<len;++k) rec+= "  0123456789-+ A."[r.below(17)];
    int f=r.range(-2,11); if(r.below(20)==0) f=r.flip()?-2147483647-1:2147483647; bool bl=false; if(f>=0&&f<10&&8*(f+1)<=len&&r.below(4)==0){ rec.replace(8*f,8,"        "); bl=true; }
    int v=4242,d=777; bool hd=r.flip(); at(strf("bad field %d of '%s'",f,rec.c_str())); ev();
    bool q=DEItemToInt(rec,f,v,hd?&d:NULL); bool in=f>=0&&f<10&&8L*(f+1)<=len;
    EXPECT(in||!q,"bad-field","field %d of %d characters accepted",f,len);
    EXPECT(q||v==4242,"refused-var","refused read changed the variable to %d",v);
    if(bl) EXPECT(q==hd&&(!q||v==777),"blank","blank field with%s default: %s %d",hd?"":"out",q?"true":"false",v);
    if(in){ std::string t=rec.substr(8*f,8); size_t b=t.find_first_not_of(' '); if(b!=std::string::npos){ t=t.substr(b); bool num=t.find_first_not_of("0123456789",(t[0]=='-'||t[0]=='+')?1:0)==std::string::npos&&t.find_first_of("0123456789")!=std::string::npos;
      if(num) EXPECT(q&&v==(int)strtol(t.c_str(),0,10),"value","'%s' read as %s %d",t.c_str(),q?"true":"false",v); else EXPECT(!q,"nonint","'%s' accepted as %d",t.c_str(),v); } }
    std::string sv="old"; q=DEItemToStr(rec,f,sv); EXPECT(q==in,"str-field","DEItemToStr field %d of %d characters: %d",f,len,(int)q);
    std::string ws; if(in){ ws=rec.substr(8*f,8); size_t b=ws.find_first_not_of(' '); ws=b==std::string::npos?"":ws.substr(b); }
    EXPECT(sv==ws,"str-value","DEItemToStr gave '%s', field holds '%s'",sv.c_str(),ws.c_str());
  }
}
int main(int c,char**v){ return run_groups(c,v,{{"values",g_values},{"malformed",g_bad}}); }
