// C04: free-format parameter readers
#include "common.h"
#include <climits>
#include <core/iges_io.h>
static std::string rnd(Rng&r){ int len=r.below(40); std::string s; static const char*al[]={"0123456789,;H -+.","12,;","1234567890H,;ab","0123456789.EeDd+-,;"," ,;\n\tH9"}; const char*a=al[r.below(5)]; int n=strlen(a); for(int i=0;i<len;++i) s+=a[r.below(n)];
  if(r.below(5)==0){ static const char*big[]={"4294967297H","2147483647H","99999999999999999999H","2147483648","4294967299","-2147483649","-2147483648","2147483647","1e400","-9223372036854775809"}; s.insert(r.below(s.size()+1),big[r.below(10)]); } return s; }
static int start(Rng&r,const std::string&s){ int k=r.below(20); if(k==0) return -1-r.below(3); if(k==1) return s.size()+r.below(4); if(k==2) return INT_MIN; if(k==3) return INT_MAX; return s.empty()?0:r.below(s.size()); }
template<class T,class F> static void num(Rng&r,int n,bool real,F f){ for(int i=0;i<n;++i){ std::string s=rnd(r); char pd=",|1"[r.below(20)?0:1+r.below(2)],rd=r.below(30)?';':pd; int i0=start(r,s),ix=i0; bool eor=false; T v=(T)4242,d=(T)77; bool hd=r.flip(); std::string what=strf("'%s' at %d delimiters %c%c",s.c_str(),i0,pd,rd); at(what); ev();
    bool ok=f(s,ix,v,eor,pd,rd,hd?&d:(T*)NULL);
    size_t e=(i0<0||i0>=(int)s.size())?std::string::npos:s.find_first_of(std::string()+pd+rd,i0);
    if(e==std::string::npos){ EXPECT(!ok,"no-delim","%s accepted",what.c_str()); EXPECT(v==(T)4242,"var","%s: refused but variable changed",what.c_str()); continue; }
    if(ok){ EXPECT(ix==(int)e+1,"position","%s: position %d, delimiter at %d",what.c_str(),ix,(int)e); EXPECT(eor==(s[e]==rd),"eor","%s: end of record %d",what.c_str(),(int)eor); }
    std::string t=s.substr(i0,e-i0);
    if(t.empty()){ EXPECT(ok==hd,"default","%s: empty parameter with%s default %s",what.c_str(),hd?"":"out",ok?"accepted":"refused"); if(ok&&hd) EXPECT(v==d,"default-value","%s: not the default",what.c_str()); }
    else if(!real){ char*rp; errno=0; long x=strtol(t.c_str(),&rp,10); if(errno||rp==t.c_str()||x>INT_MAX||x<INT_MIN) EXPECT(!ok,"range","%s accepted as %g",what.c_str(),(double)v); else EXPECT(ok&&v==(T)x,"int","%s read as %s %g",what.c_str(),ok?"true":"false",(double)v); }
    else { std::string u=t; size_t q=u.find('D'); if(q!=std::string::npos) u[q]='E'; char*rp; errno=0; double x=strtod(u.c_str(),&rp); if(errno||rp==u.c_str()) EXPECT(!ok,"range","%s accepted",what.c_str()); else EXPECT(ok&&(v==(T)x||(x!=x&&v!=v)),"real","%s read as %s %g",what.c_str(),ok?"true":"false",(double)v); }
    EXPECT(ok||v==(T)4242,"var","%s: refused but variable changed",what.c_str()); } }
static void g_int(Rng&r,int n){ num<int>(r,n,false,[](const std::string&s,int&i,int&v,bool&e,char p,char d,int*df){ return ParseInt(s,i,v,e,p,d,df); }); }
static void g_real(Rng&r,int n){ num<double>(r,n,true,[](const std::string&s,int&i,double&v,bool&e,char p,char d,double*df){ return ParseReal(s,i,v,e,p,d,df); }); }
static void g_str(Rng&r,int n){ for(int i=0;i<n;++i){ std::string s=rnd(r); char pd=',',rd=';'; if(r.below(3)==0){ int l=r.below(12); s=strf("%d",l+r.range(-1,1)*(r.below(3)==0))+"H"+s.substr(0,l)+",x"; } int i0=start(r,s),ix=i0; if(r.below(2)) i0=ix=0; bool eor=false; std::string v="old"; std::string what=strf("'%s' at %d",s.c_str(),i0); at(what); ev();
    bool ok=ParseHString(s,ix,v,eor,pd,rd); bool in=i0>=0&&i0<(int)s.size(); EXPECT(in||!ok,"start","%s accepted",what.c_str()); if(!in) continue;
    if(s[i0]==pd||s[i0]==rd){ EXPECT(ok&&v.empty()&&ix==i0+1&&eor==(s[i0]==rd),"empty","%s: %d '%s' %d %d",what.c_str(),(int)ok,v.c_str(),ix,(int)eor); continue; }
    char*rp; errno=0; long l=strtol(s.c_str()+i0,&rp,10); long h=rp-s.c_str(); bool good=!errno&&rp!=s.c_str()+i0&&h<(long)s.size()&&s[h]=='H'&&l>0&&l<(long)s.size()-h-1&&(s[h+1+l]==pd||s[h+1+l]==rd);
    EXPECT(ok==good,"accept","%s: %s",what.c_str(),ok?"accepted":"refused"); if(ok&&good) EXPECT(v==s.substr(h+1,l)&&ix==h+1+l+1&&eor==(s[h+1+l]==rd),"string","%s: '%s' position %d end %d",what.c_str(),v.c_str(),ix,(int)eor);
    ix=i0; eor=false; at("ParseLString "+what); bool q=ParseLString(s,ix,v,eor,pd,rd); size_t e=s.find_first_of(",;",i0); EXPECT(q==(e!=std::string::npos),"lstr","%s: %d",what.c_str(),(int)q); if(q&&e!=std::string::npos) EXPECT(v==s.substr(i0,e-i0)&&ix==(int)e+1&&eor==(s[e]==rd),"lstr-text","%s: '%s' %d %d",what.c_str(),v.c_str(),ix,(int)eor); } }
int main(int c,char**v){ return run_groups(c,v,{{"int",g_int},{"real",g_real},{"string",g_str}}); }
