// Shared driver of the replay programs.  Each group runs in its own child process against the real library
// (address sanitizer, libstdc++ assertions), so a crash is attributed to the case that caused it.
// Output protocol:  "FAIL <key> | <concrete case>"   one line per failing case
//                   "CASES <group> <evaluated> <nontrivial>"
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <list>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
struct Rng { uint64_t s; Rng(uint64_t x):s(x*0x9E3779B97F4A7C15ULL+88172645463325252ULL){} uint64_t next(){ s^=s<<13; s^=s>>7; s^=s<<17; return s; }
  int below(int n){ return n<=0?0:(int)(next()%(uint64_t)n);} int range(int a,int b){ return a+(int)(next()%(uint64_t)((int64_t)b-a+1)); } bool flip(){ return next()&1; }
  double real(double a,double b){ return a+(b-a)*((double)(next()%1000001)/1000000.0);} };
static FILE* OUT_=stdout; static long EV_=0,NT_=0; static std::string CUR_;
static std::set<std::string> SEEN_;
static inline std::string strf(const char*f,...){ char b[4000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
static inline std::string esc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='\n') r+="\\n"; else if(c<32||c>126) r+=strf("\\x%02x",c); else r+=(char)c; } return r; }
static inline void fail(const std::string&key,const std::string&what){ if(getenv("REPLAY_TRACE")) fprintf(stderr,"=== FAIL %s | %s\n",key.c_str(),what.c_str()); if(SEEN_.size()>60||!SEEN_.insert(key).second) return; fprintf(OUT_,"FAIL %s | %s\n",key.c_str(),esc(what).c_str()); fflush(OUT_); }
static inline void at(const std::string&c){ CUR_=c; if(getenv("REPLAY_TRACE")) fprintf(stderr,"--- AT %s\n",c.c_str()); fprintf(OUT_,"AT %s\n",esc(c).c_str()); }   // case about to run: reported when the process dies in it
static inline void ev(bool nontrivial=true){ ++EV_; if(nontrivial) ++NT_; }
#define EXPECT(c,key,...) do{ if(!(c)) fail(key,strf(__VA_ARGS__)); }while(0)
struct Group { const char*name; std::function<void(Rng&,int)> fn; };
static int run_groups(int argc,char**argv,std::vector<Group> gs){
  long seed=argc>1?atol(argv[1]):1; int n=argc>2?atoi(argv[2]):100; const char*flt=argc>3?argv[3]:"";
  int bad=0;
  for(auto&g:gs){
    if(*flt && !strstr(g.name,flt)) continue;
    int p[2]; if(pipe(p)) return 2; fflush(stdout);
    char tmpl[]="/tmp/replayerrXXXXXX"; int ef=mkstemp(tmpl);
    pid_t pid=fork();
    if(!pid){ close(p[0]); OUT_=fdopen(p[1],"w"); setvbuf(OUT_,0,_IOLBF,1<<16); 
      int nul=open("/dev/null",O_WRONLY); dup2(nul,1); if(!getenv("REPLAY_TRACE")){ dup2(ef,2); std::cerr.setstate(std::ios::badbit); } alarm(100);
      Rng r(seed*7919+strlen(g.name)); g.fn(r,n); fprintf(OUT_,"CASES %s %ld %ld\n",g.name,EV_,NT_); fflush(OUT_); _exit(0); }
    close(p[1]); FILE*f=fdopen(p[0],"r"); char line[8192]; std::string last; 
    while(fgets(line,sizeof line,f)){ std::string l=line; if(!l.empty()&&l.back()=='\n') l.pop_back(); if(l.compare(0,3,"AT ")==0){ last=l.substr(3); continue; } if(l.compare(0,5,"FAIL ")==0) ++bad; puts(l.c_str()); }
    fclose(f); int st=0; waitpid(pid,&st,0);
    if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){
      std::string sum; FILE*e=fopen(tmpl,"r"); bool any=false; if(e){ while(fgets(line,sizeof line,e)){ if(strstr(line,"SUMMARY:")||strstr(line,"ERROR: AddressSanitizer")||strstr(line,"Assertion")||strstr(line,"runtime error")||strstr(line,"terminate called")){ sum+=line; any=true; } } fclose(e); }
      std::string how= WIFSIGNALED(st)? (WTERMSIG(st)==SIGALRM?"timeout":strf("signal %d",WTERMSIG(st))) : strf("exit %d",WEXITSTATUS(st));
      std::string w=last.substr(0,last.find(' '));
      if(how=="timeout") printf("TIMEOUT %s | %s\n",g.name,last.c_str());
      else { printf("FAIL crash:%s:%s | process died (%s) in: %s ; %s\n",g.name,w.c_str(),how.c_str(),last.c_str(),esc(sum).c_str()); ++bad; }
    }
    close(ef); unlink(tmpl);
  }
  return bad?1:0;
}
