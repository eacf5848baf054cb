// ---------------- driver
static int prep(const char* in,const char* out,const char* tag){
  SMDiagnostic err; auto m=parseIRFile(in,err,LC); if(!m){ err.print("prep",errs()); return 1; }
  std::vector<GlobalValue*> gs; for(auto& f:*m) if(!f.isDeclaration()) gs.push_back(&f); for(auto& g:m->globals()) if(!g.isDeclaration()) gs.push_back(&g); for(auto& a:m->aliases()) gs.push_back(&a);
  unsigned k=0; for(auto g:gs){ if(g->getName().starts_with("llvm.")) continue; if(g->hasLocalLinkage()||!g->hasName()){ g->setName(S("eb_")+tag+"_"+std::to_string(k++)+"_"+g->getName().str()); g->setLinkage(GlobalValue::ExternalLinkage); } if(g->hasLinkOnceLinkage()) g->setLinkage(g->hasLinkOnceODRLinkage()?GlobalValue::WeakODRLinkage:GlobalValue::WeakAnyLinkage); if(g->hasAvailableExternallyLinkage()) continue; g->setVisibility(GlobalValue::DefaultVisibility); g->setDSOLocal(false); g->setUnnamedAddr(GlobalValue::UnnamedAddr::None); }
  std::error_code ec; raw_fd_ostream o(out,ec); WriteBitcodeToFile(*m,o); return 0; }
static S jesc(const S& s){ S r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
extern "C" { // native fall-backs, only used by setup()
  long sym_int(const char*,long lo,long){ return lo; } long sym_choose(const char*,long lo,long){ return lo; } double sym_real(const char*){ return 0; } double sym_fp(const char*){ return 0; }
  void sym_assume(bool){} void sym_check(bool,const char*){} void sym_eq(double,double,const char*){} int sym_tier(){ return 0; } void sym_bytes(const char*,char*,unsigned long){} void sym_reach(const char*){} int sym_is_native(){ return 0; } void sym_merge(int){} void sym_expect_throw(int){} }
int main(int argc,char** argv){
  if(argc>=5&&S(argv[1])=="--prep") return prep(argv[2],argv[3],argv[4]);
  S lib,cexdir=".",only,replayer,harness; std::vector<S> bcs; int jobs=8,tier=0; double perGoal=300,budget=600; unsigned qt=20000; bool list=false;
  for(int i=1;i<argc;++i){ S a=argv[i]; if(a=="--lib") lib=argv[++i]; else if(a=="--bc") bcs.push_back(argv[++i]); else if(a=="--harness"){ harness=argv[++i]; bcs.insert(bcs.begin(),harness); } else if(a=="--cexdir") cexdir=argv[++i]; else if(a=="--goal") only=argv[++i]; else if(a=="--replayer") replayer=argv[++i]; else if(a=="--jobs") jobs=atoi(argv[++i]); else if(a=="--thorough") tier=1; else if(a=="--per-goal") perGoal=atof(argv[++i]); else if(a=="--budget") budget=atof(argv[++i]); else if(a=="--qtimeout") qt=atoi(argv[++i]); else if(a=="--list") list=true; }
  LIB=dlopen(lib.c_str(),RTLD_LAZY|RTLD_GLOBAL); if(!LIB){ fprintf(stderr,"dlopen: %s\n",dlerror()); return 2; }
  for(auto& b:bcs){ SMDiagnostic err; auto m=getLazyIRFileModule(b,err,LC); if(!m){ err.print("engine",errs()); return 2; } mods.push_back(std::move(m)); }
  DL=&mods[0]->getDataLayout();
  std::vector<S> goals;
  for(auto& m:mods){ for(auto& f:*m){ if(f.isDeclaration()&&!f.isMaterializable()) continue; if(f.hasAvailableExternallyLinkage()&&fdef.count(f.getName().str())) continue; S n=f.getName().str(); auto it=fdef.find(n); if(it==fdef.end()||it->second->hasAvailableExternallyLinkage()||(it->second->isWeakForLinker()&&!f.isWeakForLinker()&&!f.hasAvailableExternallyLinkage())) fdef[n]=&f; if(&m==&mods[0]&&n.compare(0,5,"goal_")==0) goals.push_back(n); }
    for(auto& a:m->aliases()){ if(auto f=dyn_cast<Function>(a.getAliaseeObject())) if(!fdef.count(a.getName().str())) fdef[a.getName().str()]=f; } }
  if(list){ for(auto& g:goals) puts(g.c_str()); return 0; }
  if(auto f=(void(*)())dlsym(LIB,"setup")) f();
  fflush(stdout); double t0=now(); std::map<pid_t,std::pair<S,double>> run; size_t next=0; if(!only.empty()) goals={only};
  auto report=[](const S& l){ S t="\n"+l+"\n"; size_t o=0; while(o<t.size()){ ssize_t n=write(1,t.data()+o,t.size()-o); if(n<=0) break; o+=n; } };
  auto body=[&](const S& g){
    Engine E; E.init(); E.goal=g; E.cexdir=cexdir; E.replayer=replayer; E.tier=tier; E.qtimeout=qt; z3::params p(Z()); p.set("timeout",qt); E.nra.set(p); E.qfbv.set(p); double ts=now(); E.deadline=ts+perGoal;
    try { E.run(fdef.at(g)); } catch(std::exception& e){ E.incon.push_back(S("engine: ")+e.what()); } catch(z3::exception& e){ E.incon.push_back(S("z3: ")+e.msg()); }
    S verdict= E.replayed?"sat": !E.incon.empty()?"unknown":"unsat"; S detail= E.replayed?E.vwhat:E.incon.empty()?"":E.incon[0];
    if(verdict=="unknown"&&E.incon.size()>1){ std::set<S> u(E.incon.begin(),E.incon.end()); detail.clear(); int c=0; for(auto& x:u) if(c++<6) detail+=x+"; "; }
    S fns; std::set<S> fs; for(auto f:E.executed){ S d=Engine::demangle(f->getName().str()); if(d.find("AmpGen::")!=S::npos&&d.find("std::")!=0&&d.compare(0,5,"void ")!=0){ size_t c=d.find('('); if(c!=S::npos&&d.find("anonymous")==S::npos) d=d.substr(0,c); if(d.size()<90) fs.insert(d); } } for(auto& f:fs) fns+=(fns.empty()?"\"":",\"")+jesc(f)+"\"";
    S md; for(auto& f:E.modelled) md+=(md.empty()?"\"":",\"")+jesc(Engine::demangle(f).substr(0,70))+"\"";
    char b[512]; snprintf(b,512,"\"paths\":%llu,\"completed\":%llu,\"pairs\":%llu,\"queries\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"instructions\":%llu,\"forks\":%llu",(unsigned long long)E.paths,(unsigned long long)E.completed,(unsigned long long)E.checks,(unsigned long long)E.queries,E.solver_s,now()-ts,(unsigned long long)E.instrs,(unsigned long long)E.forks);
    report("GOAL {\"id\":\""+g.substr(5)+"\",\"verdict\":\""+verdict+"\",\"replayed\":"+(E.replayed?"true":"false")+",\"witness\":"+(E.checks>0&&E.completed>0?"true":"false")+","+b+",\"cex\":\""+jesc(E.vcex)+"\",\"detail\":\""+jesc(detail.substr(0,1500))+"\",\"replay\":\""+jesc(E.vreplay.substr(0,800))+"\",\"functions\":["+fns+"],\"models\":["+md+"]}");
    _exit(0); };
  while(next<goals.size()||!run.empty()){
    while(next<goals.size()&&(int)run.size()<jobs){ S g=goals[next++]; pid_t p=fork(); if(!p) body(g); run[p]={g,now()}; }
    int st; pid_t p=waitpid(-1,&st,WNOHANG); if(p<=0){ usleep(5000); bool over=now()-t0>budget; for(auto& r:run) if(over||now()-r.second.second>perGoal*1.5+60) kill(r.first,9); continue; }
    auto it=run.find(p); if(it==run.end()) continue; S g=it->second.first; run.erase(it);
    if(!WIFEXITED(st)||WEXITSTATUS(st)) report("GOAL {\"id\":\""+g.substr(5)+"\",\"verdict\":\"unknown\",\"replayed\":false,\"witness\":false,\"detail\":\"engine process ended with status "+std::to_string(st)+(now()-t0>budget?" (time budget of the tier used up)":"")+"\"}"); }
  _exit(0); }
