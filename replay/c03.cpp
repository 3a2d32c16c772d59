// C03: Hollerith strings
#include "common.h"
#include <core/iges_io.h>
static std::string txt(Rng&r,int len,char pd,char rd){ std::string s; int k=r.below(4); for(int i=0;i<len;++i) switch(k){ case 0: s+=(char)(32+r.below(95)); break; case 1: s+=r.flip()?pd:rd; break; case 2: s+="0123456789H"[r.below(11)]; break; default: s+=" \t;,"[r.below(4)]; } return s; }
static int len_(Rng&r){ switch(r.below(5)){ case 0: return 1+r.below(3); case 1: return 1+r.below(70); case 2: return r.range(8,11); case 3: return r.range(98,102); default: return 1+r.below(300);} }
static void g_direct(Rng&r,int n){ for(int i=0;i<n;++i){ char pd=",|"[r.below(2)],rd=";$"[r.below(2)]; int len=len_(r); if(r.below(300)==0) len=r.range(99990,100010); std::string s=txt(r,len,pd,rd),h="old"; at(strf("encode %d characters",len)); ev();
   bool ok=GetHConst(s,h); EXPECT(ok&&h==strf("%dH",len),"const","GetHConst of %d characters: '%s'",len,h.c_str());
   bool fin=r.flip(); std::string pre=r.flip()?"":txt(r,r.below(30),pd,rd), suf=r.flip()?"":txt(r,r.below(30),pd,rd); std::string d=pre+h+s+(fin?rd:pd)+suf; int idx=pre.size(); bool eor=false; std::string p="zz"; at(strf("parse '%s' at %d",d.c_str(),idx)); ev();
   ok=ParseHString(d,idx,p,eor,pd,rd); EXPECT(ok,"refused","'%s' at %d refused",d.c_str(),(int)pre.size()); if(!ok) continue;
   EXPECT(p==s,"text","'%s' read as '%s'",s.c_str(),p.c_str()); EXPECT(idx==(int)(pre.size()+h.size()+s.size()+1),"position","'%s' read to %d",d.c_str(),idx); EXPECT(eor==fin,"eor","'%s': end of record %d",d.c_str(),(int)eor);
   std::string e; EXPECT(!GetHConst(e,h),"empty","empty string encoded"); } }
static void g_records(Rng&r,int n){ for(int i=0;i<n;++i){ bool g=r.flip(); int W=g?72:64; char pd=',',rd=';'; std::string f,o; int idx=1; int k=1+r.below(5); std::vector<std::string> ss; std::string hist; std::string lead(r.below(W),'1'); bool ok=true;
   if(!lead.empty()){ lead.back()=pd; std::string t=lead; ok=g?AddSecItem(t,f,o,idx,pd,rd):AddPDItem(t,f,o,idx,5,pd,rd); }
   for(int j=0;j<k;++j){ ss.push_back(r.below(9)==0?std::string():txt(r,len_(r),pd,rd)); hist+=strf(" %d",(int)ss[j].size()); at(strf("%s lead %d strings%s",g?"G":"P",(int)lead.size(),hist.c_str())); ev(); char d=j==k-1?rd:pd; ok=ok&&(g?AddSecHStr(ss[j],f,o,idx,pd,rd,d):AddPDHStr(ss[j],f,o,idx,5,pd,rd,d)); }
   EXPECT(ok,"write","%s lead %d strings%s refused",g?"G":"P",(int)lead.size(),hist.c_str()); if(!ok) continue;
   EXPECT(o.size()%81==0&&f.empty(),"shape","%d characters, %d pending",(int)o.size(),(int)f.size()); std::string d; for(size_t a=0;a+81<=o.size();a+=81) d+=o.substr(a,W);
   int p=lead.size(); bool eor=false; 
   for(int j=0;j<k;++j){ // blanks between constants are the padding of a record
     while(p<(int)d.size()&&d[p]==' '&&p%W!=0) ++p; std::string v; int p0=p; bool q=ParseHString(d,p,v,eor,pd,rd); EXPECT(q&&v==ss[j],"record-text","string %d of%s (lead %d) read back as %s '%s', written '%s'",j,hist.c_str(),(int)lead.size(),q?"true":"false",v.c_str(),ss[j].c_str()); if(!q||v!=ss[j]) break; EXPECT(eor==(j==k-1),"record-eor","string %d of %d at %d: end of record %d",j,k,p0,(int)eor); } } }
int main(int c,char**v){ return run_groups(c,v,{{"direct",g_direct},{"records",g_records}}); }
