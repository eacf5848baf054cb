// Replays a counter-example on the ordinary build of the code: replay <lib.so> <goal> <file> [tier]
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <sstream>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include "sym.h"
static std::map<std::string,long> I; static std::map<std::string,double> Rr; static std::map<std::string,int> names; static int tierv=0, expectThrow=0;
static std::string uniq(const std::string& n){ int k=names[n]++; return k? n+"#"+std::to_string(k) : n; }
static void out(int rc){ fflush(stdout); std::cout.flush(); _exit(rc); }
extern "C" {
  long sym_int(const char* n,long lo,long hi){ auto u=uniq(n); if(!I.count(u)) return lo; (void)hi; return I[u]; }
  long sym_choose(const char* n,long lo,long hi){ return sym_int(n,lo,hi); }
  double sym_real(const char* n){ auto u=uniq(n); return Rr.count(u)?Rr[u]:0; }
  double sym_fp(const char* n){ return sym_real(n); }
  void sym_bytes(const char* n,char* p,unsigned long k){ for(unsigned long i=0;i<k;++i){ auto u=uniq(std::string(n)+"["+std::to_string(i)+"]"); p[i]=I.count(u)?(char)I[u]:'a'; } }
  void sym_assume(bool c){ if(!c){ printf("REPLAY assumption not met\n"); out(0); } }
  void sym_check(bool c,const char* l){ if(!c){ printf("REPLAY violated: %s\n",l); out(3); } }
  void sym_eq(double a,double b,const char* l){ double t=1e-9*std::fmax(1,std::fmax(std::fabs(a),std::fabs(b))); if(!(std::fabs(a-b)<=t)&&!(a==b)&&!(std::isnan(a)&&std::isnan(b))){ printf("REPLAY violated: %s : %.17g vs %.17g\n",l,a,b); out(3); } }
  int sym_tier(){ return tierv; } void sym_reach(const char*){} int sym_is_native(){ return 1; } void sym_merge(int){} void sym_expect_throw(int x){ expectThrow=x; } }
int main(int c,char** v){
  std::ifstream f(v[3]); std::string k,n,x; while(f>>k>>n>>x){ if(k=="i") I[n]=atol(x.c_str()); else Rr[n]=atof(x.c_str()); } if(c>4) tierv=atoi(v[4]);
  void* L=dlopen(v[1],RTLD_LAZY|RTLD_GLOBAL); if(!L){ printf("REPLAY dlopen %s\n",dlerror()); return 2; }
  if(auto s=(void(*)())dlsym(L,"setup")) s();
  auto g=(void(*)())dlsym(L,v[2]); if(!g){ printf("REPLAY no goal\n"); return 2; }
  try { g(); } catch(std::exception& e){ if(!expectThrow){ printf("REPLAY violated: uncaught exception %s: %s\n",typeid(e).name(),e.what()); out(3); } } catch(...){ if(!expectThrow){ printf("REPLAY violated: uncaught exception\n"); out(3); } }
  printf("REPLAY held\n"); out(0); }
