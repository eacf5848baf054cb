// Engine B: symbolic executor for LLVM IR with z3.  The library under test is loaded natively (so its global state, virtual
// tables and constants are the real ones) and its IR is interpreted; memory reads fall through to native memory, writes and
// all symbolic data live in a copy-on-write overlay.  Paths fork at feasible symbolic branches; every check is a z3 query.
#include <z3++.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <cmath>
#include <cstring>
#include <csetjmp>
#include <chrono>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <typeinfo>
#include <stdexcept>
#include <new>
#include "sym.h"
#include "field_core.h"
using namespace llvm;
typedef std::string S;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static z3::context& Z(){ return va::ctx(); }

struct Abort : std::runtime_error { using std::runtime_error::runtime_error; };     // engine limitation -> inconclusive
struct Ex { // handle on a z3 ast
  Z3_ast a=nullptr;
  Ex(){} Ex(const z3::expr& e):a(e){ if(a) Z3_inc_ref(Z(),a); } Ex(const Ex& o):a(o.a){ if(a) Z3_inc_ref(Z(),a); } Ex(Ex&& o) noexcept:a(o.a){ o.a=nullptr; }
  Ex& operator=(const Ex& o){ if(o.a) Z3_inc_ref(Z(),o.a); if(a) Z3_dec_ref(Z(),a); a=o.a; return *this; }
  Ex& operator=(Ex&& o) noexcept { std::swap(a,o.a); return *this; }
  ~Ex(){ if(a) Z3_dec_ref(Z(),a); }
  z3::expr x() const { return z3::expr(Z(),a); }
};
enum Kind : uint8_t { CON, SYM, REAL, AGG };
struct Val { Kind k=CON; uint32_t w=0; unsigned __int128 c=0; Ex e; std::shared_ptr<std::vector<Val>> a;
  static Val con(unsigned __int128 v,uint32_t w){ Val r; r.w=w; r.c= w>=128?v:(v&((((unsigned __int128)1)<<w)-1)); return r; }
  static Val sym(const z3::expr& e,uint32_t w){ Val r; r.k=SYM; r.w=w; r.e=e; return r; }
  static Val real(const z3::expr& e,uint32_t w=64){ Val r; r.k=REAL; r.w=w; r.e=e; return r; }
  static Val agg(std::vector<Val> v){ Val r; r.k=AGG; r.a=std::make_shared<std::vector<Val>>(std::move(v)); return r; }
  bool isCon() const { return k==CON; }
  uint64_t u() const { return (uint64_t)c; }
  int64_t s() const { if(w>=64) return (int64_t)c; return (int64_t)((uint64_t)c<<(64-w))>>(64-w); }
};
static double asD(const Val& v){ if(v.w==32){ uint32_t b=v.u(); float f; memcpy(&f,&b,4); return f; } uint64_t b=v.u(); double d; memcpy(&d,&b,8); return d; }
static Val fromD(double d,uint32_t w=64){ if(w==32){ float f=d; uint32_t b; memcpy(&b,&f,4); return Val::con(b,32); } uint64_t b; memcpy(&b,&d,8); return Val::con(b,64); }

// ---------------- real numbers
static std::map<S,z3::expr> g_constRoots; static std::vector<z3::expr> g_axioms;
struct PathEnd {};              // this path is finished (assumption false)
// a quotient with divisor zero: it may be computed and discarded, a path that uses it ends there (stated: divisors are non-zero)
static const uint64_t ZERO_DIVISION=0x7ff800000000d1d0ull;
static z3::expr realOfDouble(double v){
  { uint64_t u; memcpy(&u,&v,8); if((u&0x7fffffffffffffffull)==ZERO_DIVISION) throw PathEnd(); }
  if(!std::isfinite(v)) throw Abort("non-finite double in real arithmetic");
  long n,d; if( va::as_rational(v,n,d) ) return Z().real_val((std::to_string(n)+"/"+std::to_string(d)).c_str()).simplify();
  if( std::fabs(v)<1e6 && va::as_rational(v*v,n,d,2000) ){
    S key=std::to_string(n)+"/"+std::to_string(d); auto it=g_constRoots.find(key);
    if(it==g_constRoots.end()){ z3::expr r=Z().real_const(("root("+key+")").c_str()); it=g_constRoots.emplace(key,r).first; g_axioms.push_back(r*r==Z().real_val(key.c_str())); g_axioms.push_back(r>0); }
    return v<0? -it->second : it->second; }
  if( va::as_rational(v/M_PI,n,d,2000) ){ static bool once=false; z3::expr pi=Z().real_const("pi"); if(!once){ once=true; g_axioms.push_back(pi>Z().real_val("31415926/10000000")&&pi<Z().real_val("31415927/10000000")); } return Z().real_val((std::to_string(n)+"/"+std::to_string(d)).c_str())*pi; }
  int ex; double m=std::frexp(v,&ex); long mi=(long)std::ldexp(m,53); ex-=53; z3::expr e=Z().real_val(std::to_string(mi).c_str()),two=Z().real_val(2),pw=Z().real_val(1); for(int i=0;i<std::abs(ex);++i) pw=(pw*two).simplify(); return (ex<0?e/pw:e*pw).simplify(); }
// a choice between concrete bit patterns read as a choice between numbers
static bool iteReal(const z3::expr& e,uint32_t w,z3::expr& out,int depth=0){ if(depth>12) return false; if(e.is_numeral()){ uint64_t u=e.get_numeral_uint64(); out=realOfDouble(asD(Val::con(u,w))); return true; } if(e.is_app()&&e.decl().decl_kind()==Z3_OP_ITE){ z3::expr a=out,b=out; if(!iteReal(e.arg(1),w,a,depth+1)||!iteReal(e.arg(2),w,b,depth+1)) return false; out=z3::ite(e.arg(0),a,b); return true; } return false; }
static z3::expr R(const Val& v){ if(v.k==SYM){ z3::expr r=Z().real_val(0); if(iteReal(v.e.x(),v.w,r)) return r; } if(v.k==REAL) return v.e.x(); if(v.k==CON) return realOfDouble(asD(v)); throw Abort("symbolic bits used as a real number"); }
static z3::expr B(const Val& v){ // bit-vector (Bool for width 1)
  if(v.k==SYM) return v.e.x(); if(v.k==REAL) throw Abort("bits of a symbolic real number"); if(v.k==AGG) throw Abort("aggregate used as scalar");
  if(v.w==1) return Z().bool_val(v.u()!=0); 
  if(v.w<=64) return Z().bv_val((uint64_t)v.u(),v.w);
  return z3::concat(Z().bv_val((uint64_t)(v.c>>64),v.w-64),Z().bv_val((uint64_t)v.c,64)); }
static Val norm(const z3::expr& e0,uint32_t w){ z3::expr e=e0.simplify();
  if(w==1){ if(e.is_true()) return Val::con(1,1); if(e.is_false()) return Val::con(0,1); return Val::sym(e,1); }
  if(e.is_numeral()){ if(w<=64) return Val::con(e.get_numeral_uint64(),w); S s=e.get_decimal_string(0); unsigned __int128 r=0; for(char c:s) if(isdigit(c)) r=r*10+(c-'0'); return Val::con(r,w); }
  return Val::sym(e,w); }

// ---------------- memory
struct SB { std::shared_ptr<Val> v; uint8_t idx=0; };
struct Page { uint8_t b[256]; uint64_t wr[4]={0,0,0,0}; std::unique_ptr<std::array<SB,256>> s;
  Page(){} Page(const Page& o){ memcpy(b,o.b,256); memcpy(wr,o.wr,32); if(o.s) s.reset(new std::array<SB,256>(*o.s)); }
  bool written(unsigned i) const { return wr[i>>6]>>(i&63)&1; } void mark(unsigned i){ wr[i>>6]|=1ull<<(i&63); } };
struct Alloc { uint64_t size; bool live; bool stack; };
static const uint64_t HEAP0=0x600000000000ull, HEAP1=0x680000000000ull, STACK0=0x678000000000ull;
struct FnInfo { std::unordered_map<const Value*,unsigned> num; unsigned n=0; };
struct Frame { FnInfo* fi=nullptr; Function* f; BasicBlock* bb; BasicBlock* prev; BasicBlock::iterator it; std::vector<Val> loc; Instruction* callsite=nullptr; std::vector<uint64_t> allocas; std::vector<Val> varargs; uint64_t sp0=0; };
struct SymVar { S name; int kind; Ex e; }; // kind 0 int, 1 real
struct State {
  std::vector<Frame> st; 
  std::shared_ptr<std::unordered_map<uint64_t,std::shared_ptr<Page>>> mem=std::make_shared<std::unordered_map<uint64_t,std::shared_ptr<Page>>>();
  std::shared_ptr<std::map<uint64_t,Alloc>> al=std::make_shared<std::map<uint64_t,Alloc>>();
  uint64_t brk=HEAP0+4096; std::vector<Ex> pc; std::vector<SymVar> vars; std::map<S,int> names;
  std::shared_ptr<std::unordered_map<unsigned,Ex>> model=std::make_shared<std::unordered_map<unsigned,Ex>>(); uint64_t steps=0; bool expectThrow=false; int merge=0; std::vector<uint64_t> caught; std::map<unsigned,Ex> roots; bool approx=false; uint64_t sp=STACK0; std::map<uint64_t,uint64_t> exTi; uint64_t lpObj=0; int lpSel=0; std::vector<Ex> implied;
  std::unordered_map<uint64_t,std::shared_ptr<Page>>& M(){ if(mem.use_count()>1) mem=std::make_shared<std::unordered_map<uint64_t,std::shared_ptr<Page>>>(*mem); return *mem; }
  std::map<uint64_t,Alloc>& A(){ if(al.use_count()>1) al=std::make_shared<std::map<uint64_t,Alloc>>(*al); return *al; }
};
struct Violation { S what; };   // thrown: property violated on this path

static LLVMContext LC; static std::vector<std::unique_ptr<Module>> mods; static std::unordered_map<S,Function*> fdef; static std::unordered_map<S,GlobalVariable*> gdef;
static std::unordered_map<uint64_t,Function*> addr2fn; static std::unordered_map<const GlobalValue*,uint64_t> gaddr; static std::unordered_map<Function*,FnInfo> finfo; static void* LIB; static const DataLayout* DL;
static std::unordered_map<const Constant*,Val> ccache;
static std::map<uint64_t,S> addrName;

struct Engine {
  std::deque<State> work; State* s=nullptr; 
  // statistics
  uint64_t instrs=0,paths=0,queries=0,checks=0,forks=0; double solver_s=0; std::set<Function*> executed; std::set<S> reached; 
  uint64_t maxSteps=6000000, maxPaths=2000000; double deadline=1e18; unsigned qtimeout=20000;
  S goal, cexdir, self, tierflag; bool violated=false, replayed=false; S vwhat, vreplay, vcex; std::vector<S> incon; bool stop=false;
  z3::solver nra{Z()}, qfbv{Z(),"QF_BV"}; 
  Engine(){ z3::params p(Z()); p.set("timeout",qtimeout); nra.set(p); qfbv.set(p); }

  // ---- solver: queries are restricted to the constraints that share variables with the question, and cached
  typedef std::shared_ptr<const std::vector<unsigned>> VS; std::unordered_map<unsigned,VS> varMemo; std::unordered_map<unsigned,Ex> varExpr; std::vector<Ex> pin;
  VS varsOf(const z3::expr& e){ unsigned id=Z3_get_ast_id(Z(),e); auto it=varMemo.find(id); if(it!=varMemo.end()) return it->second;
    std::set<unsigned> r; if(e.is_app()){ unsigned n=e.num_args(); if(e.decl().decl_kind()==Z3_OP_UNINTERPRETED){ if(n==0){ r.insert(id); varExpr.emplace(id,Ex(e)); } else r.insert(0x40000000u+Z3_get_ast_id(Z(),e.decl())); } for(unsigned i=0;i<n;++i){ auto v=varsOf(e.arg(i)); r.insert(v->begin(),v->end()); } }
    auto p=std::make_shared<std::vector<unsigned>>(r.begin(),r.end()); pin.push_back(e); varMemo[id]=p; return p; }
  // every application of an unknown function becomes an independent unknown: a question without solution stays without
  static void applications(const z3::expr& e,std::set<unsigned>& seen,z3::expr_vector& from,z3::expr_vector& to){ if(!e.is_app()||!seen.insert(Z3_get_ast_id(Z(),e)).second) return; if(e.num_args()>0&&e.decl().decl_kind()==Z3_OP_UNINTERPRETED){ from.push_back(e); to.push_back(z3::expr(Z(),Z3_mk_fresh_const(Z(),"app",e.get_sort()))); return; } for(unsigned i=0;i<e.num_args();++i) applications(e.arg(i),seen,from,to); }
  typedef std::shared_ptr<std::unordered_map<unsigned,Ex>> Mdl;
  struct Cached { z3::check_result r; Mdl m; std::vector<Ex> keep; };
  std::unordered_map<S,Cached> qcache; uint64_t cacheHits=0;
  z3::check_result query(const std::vector<Ex>& pc,const z3::expr& extra,std::shared_ptr<z3::model>* full=nullptr,Mdl* part=nullptr){
    std::vector<Ex> rel;
    if(full){ rel=pc; }
    else { std::set<unsigned> V; { auto v=varsOf(extra); V.insert(v->begin(),v->end()); } std::vector<VS> pv(pc.size()); std::vector<char> in(pc.size(),0); for(size_t i=0;i<pc.size();++i) pv[i]=varsOf(pc[i].x());
      for(bool ch=true;ch;){ ch=false; for(size_t i=0;i<pc.size();++i) if(!in[i]){ bool hit=false; for(auto x:*pv[i]) if(V.count(x)){ hit=true; break; } if(hit){ in[i]=1; ch=true; V.insert(pv[i]->begin(),pv[i]->end()); } } }
      for(size_t i=0;i<pc.size();++i) if(in[i]) rel.push_back(pc[i]); }
    S key; if(!full){ std::vector<unsigned> ids; for(auto& r:rel) ids.push_back(Z3_get_ast_id(Z(),r.a)); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end()); ids.push_back(Z3_get_ast_id(Z(),extra)); key.assign((const char*)ids.data(),ids.size()*4); auto it=qcache.find(key); if(it!=qcache.end()){ ++cacheHits; if(part) *part=it->second.m; return it->second.r; } }
    bool bvOnly=!full&&g_axioms.empty(); if(bvOnly){ auto chk=[&](const z3::expr& e){ for(auto x:*varsOf(e)){ auto it=varExpr.find(x); if(it==varExpr.end()) return false; z3::expr v=it->second.x(); if(!v.is_bool()&&!v.is_bv()) return false; } return true; }; bvOnly=chk(extra); for(size_t i=0;i<rel.size()&&bvOnly;++i) bvOnly=chk(rel[i].x()); }
    z3::solver& solver=bvOnly?qfbv:nra;
    solver.push(); for(auto& r:rel) solver.add(r.x()); solver.add(extra); for(auto& a:g_axioms) solver.add(a);
    double t=now(); z3::check_result r=z3::unknown;
    // purely real, non-linear questions: nlsat first
    if(!full&&!bvOnly){ bool real=true,fns=false; std::vector<z3::expr> ax; if(!g_axioms.empty()){ std::set<unsigned> V; auto add=[&](const z3::expr& e){ auto v=varsOf(e); V.insert(v->begin(),v->end()); }; add(extra); for(auto& r:rel) add(r.x()); for(auto& e:g_axioms){ bool hit=false; for(auto x:*varsOf(e)) hit=hit||V.count(x); if(hit) ax.push_back(e); } } auto chk=[&](const z3::expr& e){ for(auto x:*varsOf(e)){ if(x>=0x40000000u&&!varExpr.count(x)){ fns=true; continue; } auto it=varExpr.find(x); if(it==varExpr.end()||!it->second.x().is_real()) return false; } return true; }; real=chk(extra); for(size_t i=0;i<rel.size()&&real;++i) real=chk(rel[i].x()); for(auto& e:ax) real=real&&chk(e);
      if(real) try { z3::solver q=(z3::tactic(Z(),"simplify")&z3::tactic(Z(),"purify-arith")&z3::tactic(Z(),"elim-term-ite")&z3::tactic(Z(),"qfnra-nlsat")).mk_solver(); z3::params pp(Z()); pp.set("timeout",4000u); q.set(pp); if(!fns){ for(auto& c:rel) q.add(c.x()); q.add(extra); for(auto& e:ax) q.add(e); } else { std::vector<z3::expr> all; for(auto& c:rel) all.push_back(c.x()); all.push_back(extra); for(auto& e:ax) all.push_back(e); z3::expr_vector from(Z()),to(Z()); std::set<unsigned> seen; for(auto& e:all) applications(e,seen,from,to); for(auto& e:all){ z3::expr t=e; q.add(t.substitute(from,to)); } } if(q.check()==z3::unsat) r=z3::unsat; } catch(z3::exception&){} }
    if(r==z3::unknown) r=solver.check(); solver_s+=now()-t; ++queries;
    if(r==z3::sat&&full) *full=std::make_shared<z3::model>(solver.get_model());
    if(!full){ Cached c; c.r=r; c.keep=rel; c.keep.push_back(Ex(extra)); if(r==z3::sat){ z3::model md=solver.get_model(); c.m=std::make_shared<std::unordered_map<unsigned,Ex>>(); std::set<unsigned> V; for(auto& e:c.keep){ auto v=varsOf(e.x()); V.insert(v->begin(),v->end()); } for(auto v:V){ auto it=varExpr.find(v); if(it!=varExpr.end()) (*c.m)[v]=Ex(md.eval(it->second.x(),true)); } } if(part) *part=c.m; qcache.emplace(key,std::move(c)); }
    solver.pop(); return r; }
  Mdl merged(const Mdl& base,const Mdl& m){ if(!base||!m) return nullptr; auto r=std::make_shared<std::unordered_map<unsigned,Ex>>(*base); for(auto& kv:*m) (*r)[kv.first]=kv.second; return r; }
  z3::expr valueUnder(const Mdl& m,const z3::expr& c){ auto vs=varsOf(c); z3::expr_vector from(Z()),to(Z()); for(auto v:*vs){ auto ve=varExpr.find(v); if(ve==varExpr.end()) continue; z3::expr x=ve->second.x(); auto it=m->find(v); from.push_back(x); if(it!=m->end()) to.push_back(it->second.x()); else if(x.is_bool()) to.push_back(Z().bool_val(false)); else if(x.is_bv()) to.push_back(Z().bv_val(0,x.get_sort().bv_size())); else to.push_back(x.is_int()?Z().int_val(0):Z().real_val(0)); } z3::expr t=c; return t.substitute(from,to).simplify(); }
  bool evalTrue(const z3::expr& c){ if(!s->model) return false; return valueUnder(s->model,c).is_true(); }
  void assume(const z3::expr& c){ if(c.is_true()) return; if(s->merge){ s->model.reset(); s->pc.push_back(c); return; } if(s->model&&!evalTrue(c)) s->model.reset(); s->pc.push_back(c); }
  // feasibility of c on this path; m receives a model of the whole path condition and c (when one is known)
  bool feasible(const z3::expr& c,bool& unk,Mdl* m=nullptr){ if(evalTrue(c)){ if(m) *m=s->model; return true; } Mdl part; auto r=query(s->pc,c,nullptr,&part); if(r==z3::unknown){ unk=true; if(m) m->reset(); return true; } if(r==z3::sat&&m) *m=merged(s->model,part); return r==z3::sat; }

  // ---- memory
  Page& page(uint64_t a){ auto& m=s->M(); auto& p=m[a>>8]; if(!p) p=std::make_shared<Page>(); else if(p.use_count()>1) p=std::make_shared<Page>(*p); return *p; }
  const Page* rpage(uint64_t a){ auto it=s->mem->find(a>>8); return it==s->mem->end()?nullptr:it->second.get(); }
  std::map<uint64_t,uint64_t> maps; 
  void readMaps(){ maps.clear(); std::ifstream f("/proc/self/maps"); S l; while(std::getline(f,l)){ unsigned long lo,hi; char perm[8]; if(sscanf(l.c_str(),"%lx-%lx %4s",&lo,&hi,perm)==3&&perm[0]=='r') maps[lo]=hi; } }
  bool inMaps(uint64_t a,uint64_t n){ auto it=maps.upper_bound(a); if(it==maps.begin()) return false; --it; return a+n<=it->second; }
  void mapped(uint64_t a,uint64_t n,bool wr){ if(inMaps(a,n)) return; readMaps(); if(!inMaps(a,n)&&!inMaps(a,1)) throw Violation{S(wr?"write":"read")+" through a wild pointer"}; }
  void access(uint64_t a,uint64_t n,bool wr){
    if(n==0) return;
    if(!(a>=HEAP0&&a<HEAP1)&&a>=4096&&a+n>a) mapped(a,n,wr);
    if(a<4096||a+n<a) throw Violation{S(wr?"write":"read")+" through a null pointer"};
    if(a>=HEAP0&&a<HEAP1){ auto& A=*s->al; auto it=A.upper_bound(a); if(it==A.begin()) throw Violation{"access outside any allocation"}; --it;
      if(a+n>it->first+it->second.size) throw Violation{S(wr?"write":"read")+" past the end of an allocation of "+std::to_string(it->second.size)+" bytes at offset "+std::to_string(a-it->first)};
      if(!it->second.live) throw Violation{S(wr?"write":"read")+" after free"}; } }
  uint64_t alloc(uint64_t n,bool stack,uint64_t align=16){ uint64_t& top=stack?s->sp:s->brk; uint64_t a=(top+align-1)/align*align; top=a+std::max<uint64_t>(n,1)+32; s->A()[a]={n,true,stack}; if(s->brk>STACK0) throw Abort("address space"); return a; }
  void release(uint64_t a){ if(!a) return; if(!(a>=HEAP0&&a<HEAP1)) return; auto& A=s->A(); auto it=A.find(a); if(it==A.end()) throw Violation{"free of a pointer that was not allocated"}; if(!it->second.live) throw Violation{"double free"}; it->second.live=false; 
    // drop pages wholly inside
    for(uint64_t p=(a+255)>>8;((p+1)<<8)<=a+it->second.size;++p) s->M().erase(p); }
  static uint8_t nativeByte(uint64_t a){ return *(volatile uint8_t*)a; }
  void storeByteCon(uint64_t a,uint8_t v){ Page& p=page(a); unsigned i=a&255; p.b[i]=v; p.mark(i); if(p.s) (*p.s)[i].v.reset(); }
  void storeSym(uint64_t a,const Val& v,unsigned n){ auto sp=std::make_shared<Val>(v); for(unsigned i=0;i<n;++i){ Page& p=page(a+i); unsigned o=(a+i)&255; if(!p.s) p.s.reset(new std::array<SB,256>()); (*p.s)[o].v=sp; (*p.s)[o].idx=i; p.mark(o); } }
  void store(uint64_t a,const Val& v,Type* t){
    uint64_t n=DL->getTypeStoreSize(t);
    if(v.k==AGG){ storeAgg(a,v,t); return; }
    access(a,n,true);
    if(v.k==CON){ for(uint64_t i=0;i<n;++i) storeByteCon(a+i,i<16?(uint8_t)(v.c>>(8*i)):0); return; }
    if(v.k==SYM&&v.w==1){ storeSym(a,Val::sym(z3::ite(v.e.x(),Z().bv_val(1,8),Z().bv_val(0,8)),8),1); return; }
    if(v.k==SYM&&v.w%8){ storeSym(a,Val::sym(z3::zext(v.e.x(),n*8-v.w),n*8),n); return; }
    storeSym(a,v,n); }
  void storeAgg(uint64_t a,const Val& v,Type* t){
    auto& e=*v.a;
    if(auto st=dyn_cast<StructType>(t)){ auto* L=DL->getStructLayout(st); for(unsigned i=0;i<e.size();++i) store(a+L->getElementOffset(i),e[i],st->getElementType(i)); }
    else if(auto at=dyn_cast<ArrayType>(t)){ uint64_t n=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<e.size();++i) store(a+n*i,e[i],at->getElementType()); }
    else if(auto vt=dyn_cast<FixedVectorType>(t)){ if(vt->getElementType()->isIntegerTy(1)) throw Abort("store of <n x i1>"); uint64_t n=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<e.size();++i) store(a+n*i,e[i],vt->getElementType()); }
    else throw Abort("store aggregate"); }
  Val byteAt(uint64_t a){ const Page* p=rpage(a); unsigned i=a&255; if(p&&p->written(i)){ if(p->s&&(*p->s)[i].v){ auto& sb=(*p->s)[i]; const Val& v=*sb.v; if(v.k==REAL) throw Abort("byte access to a symbolic real"); if(v.w==8) return v; return norm(v.e.x().extract(sb.idx*8+7,sb.idx*8),8); } return Val::con(p->b[i],8); }
    if(a>=HEAP0&&a<HEAP1) return Val::con(0xCD,8); return Val::con(nativeByte(a),8); }
  Val load(uint64_t a,Type* t){
    if(auto st=dyn_cast<StructType>(t)){ auto* L=DL->getStructLayout(st); std::vector<Val> v; for(unsigned i=0;i<st->getNumElements();++i) v.push_back(load(a+L->getElementOffset(i),st->getElementType(i))); return Val::agg(v); }
    if(auto at=dyn_cast<ArrayType>(t)){ uint64_t n=DL->getTypeAllocSize(at->getElementType()); std::vector<Val> v; for(unsigned i=0;i<at->getNumElements();++i) v.push_back(load(a+n*i,at->getElementType())); return Val::agg(v); }
    if(auto vt=dyn_cast<FixedVectorType>(t)){ uint64_t n=DL->getTypeStoreSize(vt->getElementType()); std::vector<Val> v; for(unsigned i=0;i<vt->getNumElements();++i) v.push_back(load(a+n*i,vt->getElementType())); return Val::agg(v); }
    uint64_t n=DL->getTypeStoreSize(t); uint32_t w=DL->getTypeSizeInBits(t); access(a,n,false);
    return loadRaw(a,n,w); }
  Val loadRaw(uint64_t a,uint64_t n,uint32_t w){
    // fast path: one page
    const Page* p=rpage(a); bool anySym=false; unsigned __int128 c=0;
    for(uint64_t i=0;i<n;++i){ uint64_t x=a+i; const Page* q=(x>>8)==(a>>8)?p:rpage(x); unsigned o=x&255; uint8_t b;
      if(q&&q->written(o)){ if(q->s&&(*q->s)[o].v){ anySym=true; break; } b=q->b[o]; } else b=(x>=HEAP0&&x<HEAP1)?0xCD:nativeByte(x);
      if(i<16) c|=(unsigned __int128)b<<(8*i); }
    if(!anySym) return Val::con(c,w);
    if(p&&p->s&&(*p->s)[a&255].v&&(*p->s)[a&255].idx==0){ auto sp=(*p->s)[a&255].v; bool whole = sp->w==n*8; for(uint64_t i=1;i<n&&whole;++i){ const Page* q=rpage(a+i); whole = q&&q->s&&(*q->s)[(a+i)&255].v==sp&&(*q->s)[(a+i)&255].idx==i; } if(whole&&(sp->k==REAL||w==n*8)) return *sp; }
    std::vector<Val> by; for(uint64_t i=0;i<n;++i) by.push_back(byteAt(a+i));
    z3::expr e=B(by[n-1]); for(int i=(int)n-2;i>=0;--i) e=z3::concat(e,B(by[i]));
    if(w<n*8){ e=e.extract(w-1,0); if(w==1) e = e==Z().bv_val(1,1); }
    return norm(e,w); }
  void copyBytes(uint64_t d,uint64_t src,uint64_t n){
    if(!n) return; access(src,n,false); access(d,n,true);
    std::vector<SB> sb(n); std::vector<uint8_t> cb(n);
    for(uint64_t i=0;i<n;++i){ uint64_t x=src+i; const Page* q=rpage(x); unsigned o=x&255; if(q&&q->written(o)){ if(q->s&&(*q->s)[o].v) sb[i]=(*q->s)[o]; cb[i]=q->b[o]; } else cb[i]=(x>=HEAP0&&x<HEAP1)?0xCD:nativeByte(x); }
    for(uint64_t i=0;i<n;++i){ if(sb[i].v){ Page& p=page(d+i); unsigned o=(d+i)&255; if(!p.s) p.s.reset(new std::array<SB,256>()); (*p.s)[o]=sb[i]; p.mark(o); } else storeByteCon(d+i,cb[i]); } }
  S cstr(uint64_t a){ S r; for(;;){ Val b=byteAt(a++); if(!b.isCon()) throw Abort("symbolic label string"); if(!b.u()) return r; r+=(char)b.u(); if(r.size()>4000) return r; } }

  // ---- values
  unsigned number(Function* f,const Value* v){ return finfo[f].num.at(v); }
  static void ensureNumbered(Function* f){ auto& i=finfo[f]; if(i.n) return; if(f->isMaterializable()) cantFail(f->materialize()); for(auto& a:f->args()) i.num[&a]=i.n++; for(auto& b:*f) for(auto& in:b) if(!in.getType()->isVoidTy()) i.num[&in]=i.n++; if(!i.n) i.n=1; }
  static uint64_t globalAddr(const GlobalValue* g){
    auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
    S n=g->getName().str(); uint64_t a=(uint64_t)dlsym(LIB,n.c_str());
    if(!a) a=(uint64_t)dlsym(RTLD_DEFAULT,n.c_str());
    if(!a){ // unresolved: give a fake distinct address (calling it is an error unless modelled)
      static uint64_t fake=0x500000000000ull; a=fake; fake+=4096; addrName[a]=n; if(auto gv=dyn_cast<GlobalVariable>(g)) if(!gv->isDeclaration()) throw Abort("no native address for global "+n); }
    gaddr[g]=a; if(auto f=dyn_cast<Function>(g)){ auto d=fdef.find(n); if(d!=fdef.end()) addr2fn[a]=d->second; else { addr2fn[a]=const_cast<Function*>(f); } }
    return a; }
  Val undef(Type* t){ if(t->isStructTy()||t->isArrayTy()||t->isVectorTy()){ std::vector<Val> v; unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;++i) v.push_back(undef(t->isStructTy()?t->getStructElementType(i):t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType())); return Val::agg(v); } return Val::con(0,width(t)); }
  static uint32_t width(Type* t){ if(t->isPointerTy()) return 64; if(t->isVoidTy()) return 0; return (uint32_t)DL->getTypeSizeInBits(t); }
  Val constant(const Constant* c){ auto it=ccache.find(c); if(it!=ccache.end()) return it->second; Val v=constant0(c); ccache.emplace(c,v); return v; }
  Val constant0(const Constant* c){
    if(auto x=dyn_cast<ConstantInt>(c)){ auto& ap=x->getValue(); unsigned __int128 v=ap.getRawData()[0]; if(ap.getBitWidth()>64) v|=(unsigned __int128)ap.getRawData()[1]<<64; return Val::con(v,ap.getBitWidth()); }
    if(auto x=dyn_cast<ConstantFP>(c)){ auto ap=x->getValueAPF().bitcastToAPInt(); unsigned __int128 v=ap.getRawData()[0]; if(ap.getBitWidth()>64) v|=(unsigned __int128)ap.getRawData()[1]<<64; return Val::con(v,ap.getBitWidth()); }
    if(isa<ConstantPointerNull>(c)) return Val::con(0,64);
    if(isa<UndefValue>(c)) return undef(c->getType());
    if(isa<ConstantAggregateZero>(c)) return undef(c->getType());
    if(auto x=dyn_cast<ConstantDataSequential>(c)){ std::vector<Val> v; for(unsigned i=0;i<x->getNumElements();++i) v.push_back(constant(x->getElementAsConstant(i))); return Val::agg(v); }
    if(auto x=dyn_cast<ConstantAggregate>(c)){ std::vector<Val> v; for(unsigned i=0;i<x->getNumOperands();++i) v.push_back(constant(x->getOperand(i))); return Val::agg(v); }
    if(auto x=dyn_cast<GlobalAlias>(c)) return constant(x->getAliasee());
    if(auto x=dyn_cast<GlobalValue>(c)) return Val::con(globalAddr(x),64);
    if(auto x=dyn_cast<ConstantExpr>(c)){
      if(auto g=dyn_cast<GEPOperator>(x)){ APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) throw Abort("constant gep"); return Val::con(constant(cast<Constant>(g->getPointerOperand())).u()+off.getSExtValue(),64); }
      switch(x->getOpcode()){ case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return Val::con(constant(x->getOperand(0)).c,width(x->getType()));
        case Instruction::Sub: return Val::con(constant(x->getOperand(0)).c-constant(x->getOperand(1)).c,width(x->getType()));
        case Instruction::Add: return Val::con(constant(x->getOperand(0)).c+constant(x->getOperand(1)).c,width(x->getType()));
        case Instruction::Trunc: return Val::con(constant(x->getOperand(0)).c,width(x->getType()));
        case Instruction::ICmp: { auto p=(CmpInst::Predicate)x->getPredicate(); return icmp(p,constant(x->getOperand(0)),constant(x->getOperand(1))); }
        case Instruction::Select: return constant(x->getOperand(0)).u()?constant(x->getOperand(1)):constant(x->getOperand(2)); }
      throw Abort("constant expression"); }
    throw Abort("constant kind"); }
  Val get(const Value* v){ if(auto c=dyn_cast<Constant>(v)) return constant(c); auto& fr=s->st.back(); return fr.loc[fr.fi->num.find(v)->second]; }
  void set(const Instruction* i,Val v){ auto& fr=s->st.back(); fr.loc[fr.fi->num.find(i)->second]=std::move(v); }

  // ---- forking
  // branch on a boolean; returns the side taken on the current path, queues the other one if feasible
  bool branch(const z3::expr& c0){
    z3::expr c=c0.simplify(); if(c.is_true()) return true; if(c.is_false()) return false;
    int kn=known(c); if(kn>=0) return kn;
    if(s->merge){ ++forks; State o=*s; o.pc.push_back((!c).simplify()); o.model.reset(); pending.push_back(std::move(o)); s->pc.push_back(c); s->model.reset(); return true; }
    z3::expr nc=(!c).simplify(); Mdl mt,mf; bool ut=false,uf=false; bool t=feasible(c,ut,&mt), f=feasible(nc,uf,&mf);
    if(ut||uf) s->approx=true;
    if(t&&f){ ++forks; State o=*s; o.pc.push_back(nc); o.model=mf; pending.push_back(std::move(o)); s->pc.push_back(c); s->model=mt; return true; }
    if(!t&&!f) throw PathEnd();
    s->implied.push_back(t?c:(!c).simplify());   // implied: not added to the path condition, only remembered
    return t; }
  std::vector<State> pending;   // states created while executing the current instruction: re-execute it with the constraint
  // concretise: returns a concrete value; other feasible values become pending states which re-execute the instruction
  uint64_t concretise(const Val& v,const char* why,unsigned limit=4096){
    if(v.isCon()) return v.u();
    if(v.k!=SYM) throw Abort(S("cannot concretise a real: ")+why);
    z3::expr e=v.e.x(); auto lit=[&](uint64_t x){ return v.w==1? (x?e:!e) : e==Z().bv_val(x,v.w); };
    std::vector<uint64_t> vals=feasibleValues(e,v.w,limit,why);
    for(size_t i=1;i<vals.size();++i){ ++forks; State o=*s; z3::expr l=lit(vals[i]).simplify(); Mdl m; bool u=false; feasible(l,u,&m); o.pc.push_back(l); o.model=m; pending.push_back(std::move(o)); }
    if(vals.size()>1){ z3::expr l=lit(vals[0]).simplify(); Mdl m; bool u=false; feasible(l,u,&m); s->pc.push_back(l); s->model=m; }
    return vals[0]; }
#include "engine_ops.inc"
#include "engine_calls.inc"
#include "engine_run.inc"
};
#include "engine_main.inc"
