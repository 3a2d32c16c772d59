// C17 on the real library: random models are written, the file is taken apart by an independent reader of the fixed
// record layout, read back and compared; damaged files; refused writes; header lines
#include "fill.h"
#include <sys/stat.h>
static std::string dir_(){ static std::string d; if(d.empty()){ char t[]="/tmp/replayc17XXXXXX"; d=mkdtemp(t); } return d; }
struct Clean { std::string f; Clean(const char*n="w.igs"){ f=dir_()+"/"+n; } ~Clean(){ unlink(f.c_str()); rmdir(dir_().c_str()); } };
static std::string slurp(const std::string&f){ std::ifstream i(f.c_str(),std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static void spill(const std::string&f,const std::string&t){ std::ofstream o(f.c_str(),std::ios::binary); o<<t; }
// ---- a complete random model
struct World { IGES m; Rng*r; std::string h; 
  E*pick(std::vector<int> ty){ std::vector<E*> v; for(E*e:m.entities) for(int t:ty) if(e->GetEntityType()==t) v.push_back(e); if(v.empty()||!r->below(3)) return make(ty[r->below(ty.size())]); return v[r->below(v.size())]; }
  E*curve(){ static const std::vector<int> C={110,110,110,100,104,126}; return pick(C); }
  E*surf(){ return pick({128,120,122}); }
  int depth=0;
  E*make(int t){ E*x=t==110? mkcurve(m,*r):mk(m,t); if(!x) return 0; Pool none; bool dup; ++depth; Rng&R=*r;
    switch(t){ case 110: break;
      case 100: case 124: case 126: case 128: case 154: case 314: case 406: case 502: fill(x,R,none,0); break;
      case 104: { auto*e=(IGES_ENTITY_104*)x; e->A=1; e->C=R.real(0.5,3); e->B=e->D=e->E=0; e->F=-1; e->ZT=R.range(-4,4); e->X1=1;e->Y1=0;e->X2=1;e->Y2=0; e->form=1; break; }
      case 102: { MCAD_POINT p; p.x=R.range(-4,4);p.y=R.range(-4,4);p.z=0; for(int i=1+R.below(5);i>0;--i) ((IGES_ENTITY_102*)x)->AddSegment(dynamic_cast<IGES_CURVE*>(mkcurve(m,R,&p))); break; }
      case 120: { auto*e=(IGES_ENTITY_120*)x; e->SetL(dynamic_cast<IGES_CURVE*>(pick({110}))); E*c; do c=curve(); while(c==(E*)e->L); e->SetC(dynamic_cast<IGES_CURVE*>(c)); e->SA=0; e->TA=R.real(0.5,6); break; }
      case 122: { auto*e=(IGES_ENTITY_122*)x; IGES_CURVE*c=dynamic_cast<IGES_CURVE*>(curve()); e->SetDE(c); e->LX=1;e->LY=R.range(-9,9);e->LZ=2; break; }
      case 142: { auto*e=(IGES_ENTITY_142*)x; e->SetSPTR(surf()); e->SetBPTR(curve()); e->SetCPTR(curve()); e->CRTN=R.below(4); e->PREF=R.below(4); break; }
      case 144: { auto*e=(IGES_ENTITY_144*)x; e->SetPTS(surf()); e->SetPTO((IGES_ENTITY_142*)pick({142})); for(int i=R.below(3);i>0;--i) e->AddPTI((IGES_ENTITY_142*)pick({142})); break; }
      case 164: { auto*e=(IGES_ENTITY_164*)x; auto*c0=(IGES_ENTITY_100*)make(100); c0->xEnd=c0->xStart; c0->yEnd=c0->yStart; e->SetClosedCurve(dynamic_cast<IGES_CURVE*>((E*)c0)); e->L=R.real(1,9); e->I1=0;e->J1=0;e->K1=1; break; }
      case 180: { auto*e=(IGES_ENTITY_180*)x; int n=0; for(int i=2+R.below(4);i>0;--i) if(e->AddArg(i<3?make(154):pick({154,164}))) ++n; for(int i=1;i<n;++i) e->AddOp((BTREE_OPERATOR)(1+R.below(3))); break; }
      case 308: { auto*e=(IGES_ENTITY_308*)x; e->NAME=name(R); for(int i=1+R.below(4);i>0;--i) e->AddDE(R.flip()?curve():R.flip()?pick({154}):pick({102})); break; }
      case 408: { auto*e=(IGES_ENTITY_408*)x; e->SetDE((IGES_ENTITY_308*)pick({308})); e->X=R.range(-9,9); e->S=1; break; }
      case 504: { auto*e=(IGES_ENTITY_504*)x; for(int i=1+R.below(4);i>0;--i){ auto*a=(IGES_ENTITY_502*)pick({502}),*b=(IGES_ENTITY_502*)pick({502}); e->AddEdge(curve(),a,1+R.below(a->GetNVertices()),b,1+R.below(b->GetNVertices())); } break; }
      case 508: { auto*e=(IGES_ENTITY_508*)x; for(int i=1+R.below(3);i>0;--i){ auto*d=new LOOP_DATA; auto*g=(IGES_ENTITY_504*)pick({504}); d->data=(E*)g; d->isVertex=false; d->idx=1+R.below((int)g->edges.size()); d->orientFlag=R.flip(); for(int k=R.below(3);k>0;--k) d->pcurves.push_back(new LOOP_PAIR(R.flip(),curve())); auto*dd=d; if(!e->AddEdge(dd)) { for(auto q:d->pcurves) delete q; delete d; } } break; }
      case 510: { auto*e=(IGES_ENTITY_510*)x; e->SetSurface(pick({128})); e->mOuterLoopFlag=R.flip(); for(int i=1+R.below(3);i>0;--i) e->AddBound((IGES_ENTITY_508*)make(508)); break; }
      case 514: { auto*e=(IGES_ENTITY_514*)x; for(int i=1+R.below(3);i>0;--i){ auto*f=(IGES_ENTITY_510*)make(510); if(((E*)f)->addReference(x,dup)) e->mfaces.push_back(std::make_pair(f,R.flip())); } break; }
      case 186: { auto*e=(IGES_ENTITY_186*)x; e->mSOF=R.flip(); auto*s=(IGES_ENTITY_514*)make(514); if(((E*)s)->addReference(x,dup)) e->mshell=s; for(int i=R.below(2);i>0;--i){ auto*v=(IGES_ENTITY_514*)make(514); if(((E*)v)->addReference(x,dup)) e->mvoids.push_back(std::make_pair(v,R.flip())); } break; }
    }
    --depth;
    if(R.below(4)==0){ std::string l; for(int i=1+R.below(8);i>0;--i) l+=(char)('A'+R.below(26)); x->SetLabel(l); }
    if(R.below(6)==0&&t!=124&&t!=314) x->SetTransform(pick({124}));
    if(R.below(6)==0&&t!=124&&t!=314) x->SetColor(pick({314}));
    if(R.below(6)==0) x->SetLevel(R.below(30));
    if(R.below(6)==0&&t!=406) x->AddOptionalEntity(pick({406}));
    if(R.below(6)==0&&t!=406) x->SetVisibility(false);
    if(R.below(5)==0) for(int i=1+R.below(3);i>0;--i) x->AddComment(name(R));
    return x; }
  void build(){ static const int ORD[]={110,100,102,104,110,120,122,124,126,128,142,144,154,164,180,308,314,406,408,502,504,508,510,514,186}; int n=1+r->below(6); for(int i=0;i<n;++i){ int t=ORD[r->below(25)]; h+=strf(" %d",t); make(t); }
    // the order of the entities in a file is arbitrary
    if(r->below(3)==0) for(size_t i=m.entities.size();i>1;--i) std::swap(m.entities[i-1],m.entities[r->below((int)i)]); }
};
// ---- independent reader of the fixed record layout
struct Doc { std::string err; std::vector<std::string> S,G,D,P,T; };
static Doc parse(const std::string&t){ Doc d; size_t i=0; int ln=0,stage=0; static const char SEC[]="SGDPT"; std::vector<std::string>*V[5]={&d.S,&d.G,&d.D,&d.P,&d.T};
  auto bad=[&](const std::string&s){ if(d.err.empty()) d.err=strf("line %d: ",ln)+s; };
  while(i<t.size()){ ++ln; size_t e=t.find('\n',i); if(e==std::string::npos){ bad("not terminated"); e=t.size(); } std::string l=t.substr(i,e-i); i=e+1;
    if(l.size()!=80){ bad(strf("%zu columns",l.size())); return d; } const char*p=strchr(SEC,l[72]); if(!p||!*p){ bad(strf("section '%c'",l[72])); return d; } int s=p-SEC;
    if(s!=stage&&s!=stage+1){ bad(strf("section %c after %c",l[72],SEC[stage])); return d; } if(s!=stage){ if(V[stage]->empty()) bad(strf("empty section %c",SEC[stage])); stage=s; }
    V[s]->push_back(l.substr(0,72)); std::string q=strf("%7zu",V[s]->size()); std::string got=l.substr(73); std::string z=got; for(auto&c:z) if(c=='0') c=' '; size_t k=got.find_first_not_of(" 0"); if(k==std::string::npos||got.substr(k)!=q.substr(q.find_first_not_of(' '))) bad(strf("sequence number '%s', expected %zu in section %c",got.c_str(),V[s]->size(),l[72])); }
  if(stage!=4) bad("no Terminate section"); else if(d.T.size()!=1) bad(strf("%zu Terminate lines",d.T.size())); return d; }
static long fld(const std::string&l,int f){ return atol(l.substr(f*8,8).c_str()); }
static bool numstr(const std::string&s,long n){ size_t k=s.find_first_not_of(' '); return k!=std::string::npos && s.substr(k)==strf("%ld",n); }
static std::vector<std::string> pieces(const std::string&s){ std::vector<std::string> v; for(size_t i=0;i<s.size();i+=72){ std::string l=s.substr(i,72); l.resize(72,' '); v.push_back(l); } return v; }
struct Snap { std::vector<int> type,form; std::vector<std::vector<int>> kids; std::vector<std::string> label; std::vector<size_t> ncom; std::vector<bool> vis; };
static Snap snap(IGES&m){ Snap s; std::map<E*,int> ix; for(size_t i=0;i<m.entities.size();++i) ix[m.entities[i]]=i; for(E*e:m.entities){ s.type.push_back(e->GetEntityType()); s.form.push_back(e->GetEntityForm()); std::vector<int> k; for(E*c:children(e)) k.push_back(ix.count(c)?ix[c]:-1); s.kids.push_back(k); std::string l; e->GetLabel(l); while(!l.empty()&&l.back()==' ') l.pop_back(); size_t b=l.find_first_not_of(' '); s.label.push_back(b==std::string::npos?"":l.substr(b)); s.ncom.push_back(e->comments.size()); bool v=true; e->GetVisibility(v); s.vis.push_back(v); } return s; }
static std::string one(const std::vector<int>&v){ std::string s; for(int i:v) s+=strf(" %d",i); return s; }
static std::string head(Rng&r){ std::string s; int n=r.below(3)==0?70+r.below(5):r.below(4)==0?140+r.below(8):1+r.below(72); for(int i=0;i<n;++i) s+=(char)(32+r.below(95)); if(s[0]==' '&&s.find_first_not_of(' ')==std::string::npos) s[0]='x'; return s; }
static bool judge_text(const std::string&t,IGES&m,const std::vector<std::string>&hd,const std::string&in){
  Doc d=parse(t); EXPECT(d.err.empty(),"written:layout","%s: %s",in.c_str(),d.err.c_str()); if(!d.err.empty()) return false; size_t n=m.entities.size();
  EXPECT(d.D.size()==2*n,"written:directory","%s: %zu Directory lines for %zu entities",in.c_str(),d.D.size(),n); if(d.D.size()!=2*n) return false;
  long next=1; for(size_t k=0;k<n;++k){ const std::string&a=d.D[2*k],&b=d.D[2*k+1]; E*e=m.entities[k]; long ty=fld(a,0),pp=fld(a,1),lc=fld(b,3); std::string w=strf("%s: entity %zu of type %d",in.c_str(),k,e->GetEntityType());
    EXPECT(e->sequenceNumber==(int)(2*k+1),"written:sequence","%s: sequence number %d",w.c_str(),e->sequenceNumber);
    EXPECT(ty==e->GetEntityType()&&fld(b,0)==ty,"written:type","%s: Directory Entry has type %ld and %ld",w.c_str(),ty,fld(b,0)); EXPECT(fld(b,4)==e->GetEntityForm(),"written:form","%s: form %ld, not %d",w.c_str(),fld(b,4),e->GetEntityForm());
    EXPECT(pp==next&&lc>=1,"written:pointer","%s: parameter data at %ld for %ld lines, expected at %ld",w.c_str(),pp,lc,next); if(pp!=next||lc<1) return false; std::string text;
    for(long q=pp;q<pp+lc;++q){ if(q>(long)d.P.size()){ EXPECT(false,"written:beyond","%s: parameter line %ld of %zu",w.c_str(),q,d.P.size()); return false; } const std::string&l=d.P[q-1]; EXPECT(l[64]==' '&&numstr(l.substr(64,8),2*k+1),"written:back-pointer","%s: line P%ld points to '%s'",w.c_str(),q,l.substr(64,8).c_str()); text+=l.substr(0,64); }
    std::string lead=strf("%ld%c",ty,m.globalData.pdelim); EXPECT(text.compare(0,lead.size(),lead)==0,"written:leading","%s: parameter data starts '%s'",w.c_str(),text.substr(0,20).c_str()); EXPECT(text.find(m.globalData.rdelim)!=std::string::npos,"written:end","%s: parameter data has no record delimiter",w.c_str());
    next+=lc; }
  EXPECT(next-1==(long)d.P.size(),"written:parameter","%s: the entities have %ld Parameter lines, the section %zu",in.c_str(),next-1,d.P.size());
  std::string T=strf("S%7zuG%7zuD%7zuP%7zu",d.S.size(),d.G.size(),d.D.size(),d.P.size()); T.resize(72,' '); EXPECT(d.T[0]==T,"written:terminate","%s: Terminate line '%s', not '%s'",in.c_str(),d.T[0].c_str(),T.c_str());
  if(!hd.empty()) EXPECT(d.S==hd,"written:start","%s: %zu Start lines, expected %zu, or different text",in.c_str(),d.S.size(),hd.size()); else EXPECT(d.S.size()==1,"written:start","%s: %zu Start lines without header",in.c_str(),d.S.size());
  return true; }
static void judge_read(IGES&q,const Snap&a,const std::vector<std::string>&hd,const std::string&in){ Snap b=snap(q);
  EXPECT(a.type==b.type,"read:types","%s: types%s read back as%s",in.c_str(),one(a.type).c_str(),one(b.type).c_str()); if(a.type!=b.type) return; EXPECT(a.form==b.form,"read:forms","%s: forms%s read back as%s",in.c_str(),one(a.form).c_str(),one(b.form).c_str());
  for(size_t i=0;i<a.kids.size();++i){ EXPECT(a.kids[i]==b.kids[i],strf("read:references:%d",a.type[i]),"%s: entity %zu of type %d refers to%s, read back%s",in.c_str(),i,a.type[i],one(a.kids[i]).c_str(),one(b.kids[i]).c_str()); EXPECT(a.label[i]==b.label[i],"read:label","%s: label '%s' read back '%s'",in.c_str(),a.label[i].c_str(),b.label[i].c_str()); EXPECT(a.vis[i]==b.vis[i],"read:visibility","%s: visibility of entity %zu (%d)",in.c_str(),i,a.type[i]); EXPECT((a.ncom[i]>0)==(b.ncom[i]>0),"read:comments","%s: %zu comments of entity %zu (%d) read back as %zu",in.c_str(),a.ncom[i],i,a.type[i],b.ncom[i]); }
  if(!hd.empty()){ std::vector<std::string> s(q.startSection.begin(),q.startSection.end()); EXPECT(s==hd,"read:header","%s: header lines differ",in.c_str()); EXPECT(q.GetNHeaderLines()==hd.size(),"read:headers","%s: %zu header lines",in.c_str(),q.GetNHeaderLines()); const char**L=0; size_t nh=0; EXPECT(q.GetHeaders(nh,L)&&L&&nh==hd.size(),"read:get-headers","%s: GetHeaders refused",in.c_str()); if(L) for(size_t i=0;i<hd.size();++i) EXPECT(hd[i]==L[i],"read:get-header","%s: header line %zu is '%s'",in.c_str(),i,L[i]); } }
static void whole(Rng&r,int n){ Clean f,f2("x.igs"); for(int c=0;c<n;++c){ World w; w.r=&r; w.build(); std::string in="model"+w.h; std::vector<std::string> hd; for(int i=r.below(4);i>0;--i){ std::string s=head(r); for(auto&l:pieces(s)) hd.push_back(l); const char*p=s.c_str(); w.m.AddToHeader(p); }
   if(r.below(4)==0) w.m.globalData.pdelim='|'; if(r.below(4)==0) w.m.globalData.rdelim='$'; if(r.below(3)==0&&w.m.entities.size()>1){ at("write and change "+in); w.m.Write(f2.f.c_str(),true); unlink(f2.f.c_str()); for(int k=1+r.below(3);k>0;--k){ if(r.below(3)==0){ mkcurve(w.m,r); in+="; add a curve"; continue; } for(size_t i=0;i<w.m.entities.size();++i) if(w.m.entities[i]->refs.empty()&&r.flip()){ in+=strf("; drop %zu of %zu",i,w.m.entities.size()); w.m.DelEntity(w.m.entities[i]); break; } } }
   bool grew=r.below(5)==0; if(grew) spill(f.f,std::string(200000,'x')); at("write "+in);
   bool ok=w.m.Write(f.f.c_str(),true); ev(ok&&!w.m.entities.empty()); if(w.m.entities.empty()){ EXPECT(!ok,"written:empty","%s: an empty model is written",in.c_str()); continue; } EXPECT(ok,"written:refused","%s: refused, %zu entities",in.c_str(),w.m.entities.size()); if(!ok) continue;
   std::string t=slurp(f.f); if(!judge_text(t,w.m,hd,in)) continue; Snap a=snap(w.m); IGES q; if(r.below(3)==0){ const char*o="left over"; q.AddToHeader(o); } at("read "+in); bool rc=q.Read(f.f.c_str()); EXPECT(rc,"read:refused","%s: the written file is refused",in.c_str()); if(!rc) continue; judge_read(q,a,hd,in);
   // once more: the file written from the model read back has the same directory and parameter sections
   at("write again "+in); bool ag=q.Write(f2.f.c_str(),r.flip()); unlink(f.f.c_str()); EXPECT(ag,"again:refused","%s: the model read back is not written",in.c_str()); if(ag){ Doc x=parse(t),y=parse(slurp(f2.f)); EXPECT(y.err.empty(),"again:layout","%s: %s",in.c_str(),y.err.c_str()); EXPECT(x.S==y.S,"again:start","%s: Start section changed",in.c_str()); EXPECT(x.D.size()==y.D.size()&&x.P.size()==y.P.size(),"again:size","%s: %zu and %zu lines became %zu and %zu",in.c_str(),x.D.size(),x.P.size(),y.D.size(),y.P.size()); if(x.D.size()!=y.D.size()||x.P.size()!=y.P.size()){ unlink(f2.f.c_str()); continue; } for(size_t i=0;i<x.D.size()&&i<y.D.size();++i) EXPECT(x.D[i]==y.D[i],"again:directory","%s: line D%zu '%s' became '%s'",in.c_str(),i+1,x.D[i].c_str(),y.D[i].c_str()); for(size_t i=0;i<x.P.size()&&i<y.P.size();++i) EXPECT(x.P[i]==y.P[i],"again:parameter","%s: line P%zu '%s' became '%s'",in.c_str(),i+1,x.P[i].c_str(),y.P[i].c_str()); }
   unlink(f2.f.c_str()); } }
// ---- refused writes
static void refusals(Rng&r,int n){ Clean f; for(int c=0;c<n;++c){ unlink(f.f.c_str()); std::string old=r.flip()?"something":std::string(r.below(300),'y'); IGES m; int k=r.below(5); mkcurve(m,r); ev();
   if(k==0){ IGES z; spill(f.f,old); at("no entities"); EXPECT(!z.Write(f.f.c_str(),true),"refusal:empty","a model without entities is written"); EXPECT(slurp(f.f)==old,"refusal:empty-changed","file changed by refused write"); unlink(f.f.c_str()); EXPECT(!z.Write(f.f.c_str(),true),"refusal:empty2","a model without entities is written"); EXPECT(access(f.f.c_str(),F_OK)!=0,"refusal:empty-created","file created by refused write"); }
   else if(k==1){ spill(f.f,old); at("existing file"); EXPECT(!m.Write(f.f.c_str(),false),"refusal:exists","existing file overwritten without leave"); EXPECT(slurp(f.f)==old,"refusal:exists-changed","file changed by refused write"); EXPECT(m.Write(f.f.c_str(),true),"refusal:overwrite","overwrite refused"); EXPECT(parse(slurp(f.f)).err.empty(),"refusal:overwrite-text","overwritten file: %s",parse(slurp(f.f)).err.c_str()); }
   else if(k==2){ std::string g=dir_()+"/none/w.igs"; at("no such directory"); EXPECT(!m.Write(g.c_str(),true),"refusal:open","write into a missing directory succeeds"); }
   else if(k==3){ at("full device"); IGES b; int e=1+r.below(60); for(int i=0;i<e;++i) mkcurve(b,r); EXPECT(!b.Write("/dev/full",true),"refusal:full","a model of %d lines is reported as written to a full device",e); }
   else { at("incomplete entity"); spill(f.f,old); static const int T[]={102,120,122,142,144,164,180,308,408,502,504,508,510,514,186}; int t=T[r.below(15)]; mk(m,t); size_t z=m.entities.size(); if(z==2){ bool ok=m.Write(f.f.c_str(),true); if(!ok) EXPECT(slurp(f.f)==old,"refusal:incomplete-changed","type %d: file changed by refused write",t); else EXPECT(parse(slurp(f.f)).err.empty(),"refusal:incomplete","type %d: %s",t,parse(slurp(f.f)).err.c_str()); } }
   } }
// ---- header lines
static void headers(Rng&r,int n){ Clean f; for(int c=0;c<n;++c){ IGES m; std::vector<std::string> hd; std::string h; auto check=[&]{ at(h); EXPECT(m.GetNHeaderLines()==hd.size(),"headers:count","%s: %zu lines, expected %zu",h.c_str(),m.GetNHeaderLines(),hd.size()); const char**L=0; size_t nh=99; bool ok=m.GetHeaders(nh,L); EXPECT(ok==!hd.empty()&&ok==(L!=0)&&nh==hd.size(),"headers:get","%s: GetHeaders returns %d",h.c_str(),ok); if(ok&&L&&m.GetNHeaderLines()==hd.size()) for(size_t i=0;i<hd.size();++i) EXPECT(hd[i]==L[i],"headers:text","%s: line %zu is '%s', not '%s'",h.c_str(),i,L[i],hd[i].c_str()); };
   for(int s=0;s<6;++s){ ev(); switch(r.below(6)){ case 0: m.Clear(); hd.clear(); h+=" Clear"; break; case 1: { std::string e; const char*p=e.c_str(); m.AddToHeader(p); h+=" Add(0)"; break; }
     case 2: { std::string t; int k=1+r.below(3); std::vector<std::string> fl; for(int i=0;i<k;++i){ std::string l=head(r).substr(0,72); l.resize(72,' '); fl.push_back(l); } World w; w.r=&r; mkcurve(w.m,r); for(auto&l:fl){ const char*p=l.c_str(); w.m.AddToHeader(p); } if(!w.m.Write(f.f.c_str(),true)) break; while(!m.entities.empty()) m.DelEntity(m.entities[0]); h+=strf(" Read(%d)",k); at(h); if(m.Read(f.f.c_str())) hd=fl; else fail("headers:read",h+": refused"); break; }
     default: { std::string t=head(r); h+=strf(" Add(%zu)",t.size()); at(h); const char*p=t.c_str(); EXPECT(m.AddToHeader(p),"headers:add","%s: refused",h.c_str()); for(auto&l:pieces(t)) hd.push_back(l); } }
     if(r.below(3)) check(); } check(); } }
// ---- damaged files
static std::string sample(Rng&r,const std::string&f,std::string&in){ for(;;){ World w; w.r=&r; w.build(); const char*p="one"; w.m.AddToHeader(p); p="two"; if(r.flip()) w.m.AddToHeader(p); in=w.h; if(w.m.entities.size()<40&&w.m.Write(f.c_str(),true)) return slurp(f); } }
static void structure(Rng&r,int n){ Clean f; for(int c=0;c<n;++c){ std::string in,t=sample(r,f.f,in); std::vector<std::string> L; for(size_t i=0;i<t.size();){ size_t e=t.find('\n',i); L.push_back(t.substr(i,e-i)); i=e+1; } int k=r.below(10); size_t i=r.below((int)L.size()); std::string what; auto sec=[&](char s){ std::vector<size_t> v; for(size_t j=0;j<L.size();++j) if(L[j][72]==s) v.push_back(j); return v; }; bool mustfail=true;
   switch(k){ case 0: what=strf("line %c%s removed",L[i][72],L[i].substr(73).c_str()); if(i+1==L.size()){ } else if(i+1<L.size()&&L[i+1][72]!=L[i][72]&&L[i][72]!='D'&&L[i][72]!='P'&&i&&L[i-1][72]==L[i][72]) mustfail=L[i][72]=='G'; L.erase(L.begin()+i); break;
    case 1: what=strf("line %c%s twice",L[i][72],L[i].substr(73).c_str()); L.insert(L.begin()+i,L[i]); if(i+2==L.size()) mustfail=false; break;
    case 2: { int q=r.flip()?1:-1; what=strf("line %c%s cut or extended",L[i][72],L[i].substr(73).c_str()); if(q>0) L[i]+=' '; else L[i].pop_back(); break; }
    case 3: { std::string num=L[i].substr(73); long v=atol(num.c_str()); long nv=r.below(3)==0?0:r.flip()?v+1:v+2; what=strf("line %c%ld numbered %ld",L[i][72],v,nv); L[i]=L[i].substr(0,73)+strf("%7ld",nv); break; }
    case 4: { char s="SGDPTFX"[r.below(7)]; if(s==L[i][72]) s='Z'; what=strf("line %c%s marked %c",L[i][72],L[i].substr(73).c_str(),s); L[i][72]=s; break; }
    case 5: { char s="SGDPT"[r.below(5)]; auto v=sec(s); what=strf("no section %c",s); if(!v.empty()) L.erase(L.begin()+v[0],L.begin()+v.back()+1); break; }
    case 6: { auto v=sec('P'); size_t j=v[r.below((int)v.size())]; long d=atol(L[j].substr(64,8).c_str()); long nd=r.flip()?d+2:d+1; what=strf("parameter line of D%ld marked D%ld",d,nd); L[j]=L[j].substr(0,64)+strf("%8ld",nd)+L[j].substr(72); break; }
    case 7: { auto v=sec('D'); if(v.size()<4) continue; size_t d=2*r.below((int)v.size()/2); long p0=atol(L[v[d]].substr(8,8).c_str()),pn=atol(L[v[d]+1].substr(24,8).c_str()); what=strf("entity D%zu removed, its directory entry and its parameters",d+1); if(d+2==v.size()) mustfail=false; auto w=sec('P'); L.erase(L.begin()+w[p0-1],L.begin()+w[p0-1]+pn); L.erase(L.begin()+v[d],L.begin()+v[d]+2); break; }
    case 8: { auto v=sec('D'); size_t d=2*r.below((int)v.size()/2); auto w=sec('P'); what=strf("parameter lines numbered one too high from D%zu on",d+1); for(size_t q=d;q<v.size();q+=2){ long p0=atol(L[v[q]].substr(8,8).c_str()),pn=atol(L[v[q]+1].substr(24,8).c_str()); L[v[q]].replace(8,8,strf("%8ld",p0+1)); for(long x=p0;x<p0+pn;++x){ std::string&y=L[w[x-1]]; y.replace(73,7,strf("%7ld",x+1)); } } break; }
    default: { size_t cut=1+r.below((int)L.size()-1); what=strf("cut after line %zu of %zu",cut,L.size()); L.resize(cut); } }
   std::string u; for(auto&l:L) u+=l+"\n"; spill(f.f,u); IGES m; at(what+" in"+in); bool rc=m.Read(f.f.c_str()); ev(); if(mustfail) EXPECT(!rc,strf("damage:%d",k),"%s: accepted; model%s",what.c_str(),in.c_str()); if(!rc) EXPECT(m.entities.empty()&&m.GetNHeaderLines()==0,strf("damage:%d:left",k),"%s: a refused file leaves %zu entities and %zu header lines",what.c_str(),m.entities.size(),m.GetNHeaderLines()); 
   if(!rc){ spill(f.f,t); EXPECT(m.Read(f.f.c_str()),"damage:next","%s: the undamaged file is refused afterwards",what.c_str()); } } }
static void mutate(Rng&r,int n){ Clean f; std::string in,t; for(int c=0;c<n*4;++c){ if(c%8==0) t=sample(r,f.f,in); std::string u=t; int k=1+r.below(3); std::string what; size_t nl=u.size()/81; for(int i=0;i<k;++i){ size_t ln=r.below((int)nl); for(int z=0;z<3&&u[ln*81+72]!='P'&&u[ln*81+72]!='D';++z) ln=r.below((int)nl); size_t col=u[ln*81+72]=='P'?r.below(r.flip()?24:66):r.below(72); char was=u[ln*81+col],now; static const char B[]="0123456789,;- .DE+H"; now=r.below(8)?B[r.below(19)]:(char)(32+r.below(95)); if(r.below(2)==0&&u[ln*81+72]=='P'){ std::string l=u.substr(ln*81,64); std::vector<size_t> cs; for(size_t q=0;q<64;++q) if(l[q]==',') cs.push_back(q); if(cs.size()>1){ size_t q=r.below((int)std::min<size_t>(cs.size()-1,8)); static const char*V[]={"99999999","-1","-9","0","1","2","3","7","1000000","2147483647","2147483646","-2147483648","65536","46341","","1.5","1H,","300","9","21"}; const char*v=V[r.below(20)]; l=l.substr(0,cs[q]+1)+v+l.substr(cs[q+1]); l.resize(64,' '); u.replace(ln*81,64,l); what+=strf(" P(line %zu)='%s'",ln,l.c_str()); } }
     else if(r.below(3)==0&&u[ln*81+72]=='D'){ size_t fl=r.below(9); std::string v=strf("%8d",r.below(5)==0?99999999:r.range(-40,80)); u.replace(ln*81+fl*8,8,v); what+=strf(" D-field(line %zu,%zu)=%s",ln,fl,v.c_str()); } else { u[ln*81+col]=now; what+=strf(" (line %zu col %zu '%c'->'%c')",ln,col,was,now); } }
   spill(f.f,u); IGES m; at("mutate"+what+" in"+in); bool rc=m.Read(f.f.c_str()); ev(true); if(!rc) EXPECT(m.entities.empty(),"mutate:left","%s: a refused file leaves %zu entities",what.c_str(),m.entities.size()); else { for(E*e:m.entities) for(E*q:children(e)) EXPECT(std::count(m.entities.begin(),m.entities.end(),q)>=1,"mutate:dangling","%s: entity refers outside the model",what.c_str()); } } }
// SISL moves the leading knots of a curve with memcpy over an overlapping range: not code of this library
extern "C" const char* __asan_default_suppressions(){ return "interceptor_via_fun:newCurve"; }
int main(int c,char**v){ return run_groups(c,v,{{"whole",whole},{"refusals",refusals},{"headers",headers},{"structure",structure},{"mutate",mutate}}); }
