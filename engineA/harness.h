// Goal bookkeeping for Engine A harnesses: solve / replay modes, sharding, JSON report.
#pragma once
#include "field.h"
#include <unistd.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>
#include <random>
#include <sstream>

namespace va {
// z3 does not always honour its own time limit: every query runs in a child process that is ended when its time is up.
struct Verdict { z3::check_result r=z3::unknown; std::map<std::string,double> model; };
inline Verdict guarded(z3::solver& s, unsigned ms, const std::map<std::string,z3::expr>* vars=nullptr){
  Verdict v; int fd[2]; if( pipe(fd) ) return v; fflush(stdout);
  pid_t pid=fork();
  if( pid==0 ){
    close(fd[0]); FILE* o=fdopen(fd[1],"w");
    try { z3::params pr(ctx()); pr.set("timeout",ms); s.set(pr); auto r=s.check();
      fprintf(o,"%s\n", r==z3::sat?"sat":r==z3::unsat?"unsat":"unknown");
      if( r==z3::sat && vars ){ auto m=s.get_model(); for( auto& kv : *vars ) fprintf(o,"%s %.17g\n",kv.first.c_str(),Field::toDouble(m.eval(kv.second,true))); }
      fprintf(o,"end\n");
    } catch(...){ }
    fflush(o); _exit(0); }
  close(fd[1]); std::string out; auto t0=std::chrono::steady_clock::now(); 
  while( true ){ double left = ms/1000.+2-std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); if( left<=0 ) break;
    pollfd p{fd[0],POLLIN,0}; int k=poll(&p,1,int(left*1000)+1); if( k<=0 ) continue; char buf[4096]; ssize_t n=read(fd[0],buf,4096); if( n<=0 ) break; out.append(buf,n); }
  close(fd[0]); kill(pid,9); waitpid(pid,nullptr,0);
  if( out.size()<4 || out.compare(out.size()-4,4,"end\n")!=0 ) return v;
  std::istringstream is(out); std::string l; std::getline(is,l); v.r = l=="sat"?z3::sat:l=="unsat"?z3::unsat:z3::unknown;
  while( std::getline(is,l) ){ auto p=l.rfind(' '); if( p!=std::string::npos ) v.model[l.substr(0,p)]=std::strtod(l.c_str()+p+1,nullptr); }
  return v; }
// random rational point: a candidate model, checked by substitution
struct Point { z3::expr_vector from, to; std::map<std::string,double> val; Point():from(ctx()),to(ctx()){} 
  Point(const std::map<std::string,z3::expr>& vars, std::mt19937& g, bool positive):from(ctx()),to(ctx()){ for( auto& kv : vars ){ int n=std::uniform_int_distribution<int>(positive?1:-48,48)(g); if(n==0) n=1; int d=16; from.push_back(kv.second); to.push_back(ctx().real_val(n,d)); val[kv.first]=double(n)/d; } }
  z3::expr at(z3::expr e) const { return e.substitute(from,to).simplify(); }
  bool holds(const z3::expr_vector& v) const { for( unsigned i=0;i<v.size();++i ) if( !at(v[i]).is_true() ) return false; return true; } };
inline std::map<std::string,double>& replayValues(){ static std::map<std::string,double> m; return m; }
inline bool& replaying(){ static bool b=false; return b; }

// A symbolic real input.  In solve mode the default value is irrelevant; in replay mode it carries the
// solver's assignment so that AmpGen's own operator()() evaluates the expression there.
inline Expression sym(const std::string& name, double dflt=0.7312){
  auto it = replayValues().find(name);
  return AmpGen::Parameter(name, it==replayValues().end() ? dflt : it->second);
}
inline Tensor symVec(const std::string& n, unsigned N=4){
  static const char* lab[4]={"x","y","z","t"};
  std::vector<Expression> v; for(unsigned i=0;i<N;++i) v.push_back( sym(n+"_"+(N==4?std::string(lab[i]):std::to_string(i))) );
  return Tensor(v, std::vector<unsigned>{N});
}
inline Expression symC(const std::string& n){ return sym(n+"_re") + std::complex<double>(0,1)*sym(n+"_im"); }
inline Tensor symTensor(const std::string& n, const std::vector<unsigned>& dim, bool cplx=false){
  Tensor t(dim); 
  for(unsigned i=0;i<t.size();++i){ auto nm = n+"_"+std::to_string(i); t[i] = cplx ? symC(nm) : sym(nm); }
  return t;
}

struct Pair { Expression l, r; std::string label; };
struct Goal { std::string id; std::function<std::vector<Pair>()> make; std::function<std::vector<Expression>()> positive; 
              std::function<void(Field&)> setup; std::function<void(std::map<std::string,double>&)> derive; };

struct Harness {
  std::vector<Goal> goals;
  std::string property;
  unsigned timeout_ms = 60000;
  std::string cexdir = ".";
  int shard=0, nshard=1; std::string only;
  bool quick=true;
  Harness(int argc, char** argv, const std::string& prop) : property(prop) {
    for(int i=1;i<argc;++i){
      std::string a=argv[i];
      if( a=="--shard" ){ sscanf(argv[++i],"%d/%d",&shard,&nshard); }
      else if( a=="--goal" ) only=argv[++i];
      else if( a=="--cexdir" ) cexdir=argv[++i];
      else if( a=="--thorough" ) quick=false;
      else if( a=="--list" ) list=true;
      else if( a=="--timeout" ) timeout_ms = atoi(argv[++i])*1000;
      else if( a=="--replay" ){ replaying()=true; std::ifstream f(argv[++i]); std::string n; double v; 
        std::string line; while( std::getline(f,line) ){ auto p=line.rfind(' '); if(p==std::string::npos) continue; replayValues()[line.substr(0,p)] = std::strtod(line.c_str()+p+1,nullptr); } }
    }
  }
  void add(const std::string& id, std::function<std::vector<Pair>()> make,
           std::function<std::vector<Expression>()> positive = nullptr,
           std::function<void(Field&)> setup = nullptr, std::function<void(std::map<std::string,double>&)> derive = nullptr){ goals.push_back({id,make,positive,setup,derive}); }

  static std::string esc(const std::string& s){ std::string o; for(char c:s){ if(c=='"'||c=='\\') o+='\\'; if((unsigned char)c<32){ o+=' '; continue;} o+=c; } return o; }

  // exit code 0: agrees, 3: reproduces the disagreement
  int replayGoal(const Goal& g){
    if( g.derive ) g.derive(replayValues());
    auto pairs = g.make(); int rc=0;
    for( auto& p : pairs ){
      bindParameters(p.l,replayValues()); bindParameters(p.r,replayValues());
      auto a = p.l(), b = p.r();
      double scale = 1 + std::abs(a) + std::abs(b);
      bool differ = !(std::abs(a-b) <= 1e-6*scale);
      if( differ ){ rc=3; printf("REPLAY goal=%s %s: lhs=(%.12g,%.12g) rhs=(%.12g,%.12g)\n", g.id.c_str(), p.label.c_str(), a.real(),a.imag(),b.real(),b.imag()); }
    }
    return rc;
  }
  bool list=false;
  int run(){
    if( list ){ for( auto& g : goals ) printf("%s\n",g.id.c_str()); return 0; }
    if( replaying() ){
      for( auto& g : goals ) if( g.id==only ){ int rc=replayGoal(g); fflush(stdout); _exit(rc); }
      _exit(9);
    }
    int idx=0; size_t nviol=0;
    for( auto& g : goals ){
      int my = idx++;
      if( only.empty() ? (my % nshard != shard) : g.id!=only ) continue;
      auto t0 = std::chrono::steady_clock::now();
      Field F; F.timeout_ms = timeout_ms;
      std::string verdict="unsat", detail; size_t npairs=0, trivial=0; std::string cex; bool replayed=false; std::string replay_out;
      double solve_s=0; size_t queries=0; bool witness=false; std::map<std::string,double> firstModel;
      printf("START %s\n", g.id.c_str()); fflush(stdout);
      auto replay = [&](const std::map<std::string,double>& model, const std::string& lab){
        cex = cexdir + "/cex_" + property + "_" + g.id + ".txt";
        std::ofstream o(cex); o.precision(17);
        for( auto& kv : model ) o << kv.first << " " << kv.second << "\n";
        o.close();
        char self[4096]; ssize_t n = readlink("/proc/self/exe",self,4095); self[n]=0;
        std::string cmd = std::string(self) + " --replay '" + cex + "' --goal '" + g.id + "'" + (quick?"":" --thorough") + " 2>/dev/null";
        FILE* f = popen(cmd.c_str(),"r"); char buf[4096]; replay_out.clear(); 
        while( fgets(buf,4096,f) ) if( !strncmp(buf,"REPLAY",6) ) replay_out += buf;
        int rc = pclose(f); 
        if( WIFEXITED(rc) && WEXITSTATUS(rc)==3 ) replayed=true;
        detail = lab; };
      try {
        if( g.setup ) g.setup(F);
        auto pairs = g.make();
        printf("BUILT %s\n", g.id.c_str()); fflush(stdout);
        npairs = pairs.size();
        std::vector<Num> dom; 
        if( g.positive ) for( auto& e : g.positive() ) dom.push_back( F.enc(e) );
        z3::expr_vector bad(ctx());
        std::vector<std::pair<z3::expr,std::string>> badl;
        for( auto& p : pairs ){
          Num l = F.enc(p.l), r = F.enc(p.r);
          if( l.c.empty() && r.c.empty() ) trivial++;
          Num d = F.add(l,r,-1);
          for( auto& [m,e] : d.c ) badl.push_back({e,p.label});
        }
        auto positiveTerm = [&](const Num& n, z3::expr_vector& out, bool strict){
          if( n.c.empty() ){ if(strict) out.push_back(ctx().bool_val(false)); return; }
          if( n.c.size()!=1 || n.c.begin()->first!=0 ) return;      // nested radicals: not constrained
          z3::expr e = n.c.begin()->second;
          for( auto& [a,m] : n.den ) if( m%2 ) e = e * F.atoms[a];
          out.push_back( strict ? e>0 : e>=0 );
        };
        z3::expr_vector base(ctx());
        for( auto& a : F.atoms ) base.push_back( a != ctx().real_val(0) );
        z3::expr_vector phys(ctx());
        for( auto& n : dom ) positiveTerm(n,phys,true);
        for( size_t j=1;j<F.exts.size();++j ) positiveTerm(F.exts[j].sq,phys,false);
        for( auto& d : F.domain ) phys.push_back(d);
        // (1) the deciding query: is there any assignment, all denominators non-zero, where a component differs?
        {
          z3::solver s(ctx());
          for( unsigned i=0;i<base.size();++i ) s.add(base[i]);
          z3::expr_vector dis(ctx());
          for( auto& b : badl ) dis.push_back( b.first != ctx().real_val(0) );
          s.add( badl.empty() ? ctx().bool_val(false) : z3::mk_or(dis) );
          auto t1=std::chrono::steady_clock::now();
          auto gv = guarded(s,F.timeout_ms,&F.vars); auto res=gv.r; queries++; if( res==z3::sat ) firstModel=gv.model;
          solve_s += std::chrono::duration<double>(std::chrono::steady_clock::now()-t1).count();
          if( res==z3::unsat ) verdict="unsat"; else verdict = res==z3::sat ? "sat" : "unknown";
        }
        // (1b) radicals as real variables with their defining equations: rules out disagreements that only exist when
        //      related radicals are treated as independent
        if( verdict!="unsat" && F.exts.size()>1 ){
          std::map<std::string, std::pair<z3::expr,z3::expr>> tot; bool un=true;
          z3::expr_vector def(ctx());
          std::function<z3::expr(const Num&)> flat = [&](const Num& n)->z3::expr {
            z3::expr t = ctx().real_val(0);
            for( auto& [m,e] : n.c ){ z3::expr q=e; for(size_t j=1;j<F.exts.size();++j) if( (m>>j&1) && int(j)!=F.nil ) q = q*F.exts[j].var; t = t+q; }
            return t; };
          for( size_t j=1;j<F.exts.size();++j ){
            if( int(j)==F.nil ) continue;
            z3::expr lhs = F.exts[j].var*F.exts[j].var; 
            for( auto& [a,m] : F.exts[j].sq.den ) lhs = lhs*F.power(F.atoms[a],m);
            def.push_back( lhs == flat(F.exts[j].sq) ); def.push_back( F.exts[j].var >= 0 );
          }
          z3::expr_vector dis(ctx());
          for( auto& p : pairs ){
            Num d = F.add(F.enc(p.l),F.enc(p.r),-1);
            Num du,dv; F.splitNil(d,du,dv);
            for( auto& x : {F.real(du), F.imag(du), F.real(dv), F.imag(dv)} ) if( !x.c.empty() ) dis.push_back( flat(x)!=0 );
          }
          z3::solver s(ctx());
          for( unsigned i=0;i<base.size();++i ) s.add(base[i]);
          for( unsigned i=0;i<phys.size();++i ) s.add(phys[i]);
          for( unsigned i=0;i<def.size();++i ) s.add(def[i]);
          s.add( z3::mk_or(dis) );
          auto t1=std::chrono::steady_clock::now();
          auto res = guarded(s,std::min(F.timeout_ms,30000u)).r; queries++;
          solve_s += std::chrono::duration<double>(std::chrono::steady_clock::now()-t1).count();
          if( res==z3::unsat ) verdict="unsat";
        }
        // (2) vacuity witness: the assumptions themselves are satisfiable
        {
          std::mt19937 gen(7); for( int k=0;k<60 && !witness;++k ){ Point q(F.vars,gen,k%2==0); witness = q.holds(base) && q.holds(phys); } queries++;
          if( !witness ){
          z3::solver s(ctx());
          for( unsigned i=0;i<base.size();++i ) s.add(base[i]);
          for( unsigned i=0;i<phys.size();++i ) s.add(phys[i]);
          auto t1=std::chrono::steady_clock::now();
          auto res=guarded(s,std::min(F.timeout_ms,30000u)).r; queries++;
          solve_s += std::chrono::duration<double>(std::chrono::steady_clock::now()-t1).count();
          witness = res==z3::sat; }
        }
        if( verdict!="unsat" || !witness ){
          // (3) a physical counter-example, replayed on AmpGen's own evaluation of the same expressions
          auto physical = [&](const std::map<std::string,double>& m){ Point q; for( auto& kv : F.vars ){ auto it=m.find(kv.first); if( it==m.end() || !std::isfinite(it->second) ) return false; q.from.push_back(kv.second); char b[64]; snprintf(b,64,"%.12f",it->second); q.to.push_back(ctx().real_val(b)); } return q.holds(phys); };
          if( !firstModel.empty() && physical(firstModel) ) replay(firstModel,"");
          { std::mt19937 gen(3); int tried=0; for( int k=0;k<400 && tried<6 && !replayed && witness;++k ){ Point q(F.vars,gen,k%2==0); if( !q.holds(phys) || !q.holds(base) ) continue; for( auto& b : badl ){ auto v=q.at(b.first); if( v.is_numeral() && std::abs(Field::toDouble(v))>1e-3 ){ ++tried; z3::solver ps(ctx()); for( unsigned i=0;i<base.size();++i ) ps.add(base[i]); for( unsigned i=0;i<phys.size();++i ) ps.add(phys[i]); ps.add( b.first != ctx().real_val(0) ); for( unsigned i=0;i<q.from.size();++i ) ps.add( q.from[i]==q.to[i] ); queries++; if( guarded(ps,20000).r!=z3::sat ) break; replay(q.val,b.second); if( replayed ) verdict="sat"; break; } } if( k>80 && tried==0 && k%40==0 && badl.size()>200 ) break; } }
          auto tsearch=std::chrono::steady_clock::now();
          for( int attempt=0; attempt<4 && !replayed && witness; ++attempt ) for( size_t bi=0; bi<badl.size() && bi<6 && !replayed; ++bi ){
            if( std::chrono::duration<double>(std::chrono::steady_clock::now()-tsearch).count() > 120 ) break;
            z3::solver s(ctx()); z3::params pr(ctx()); pr.set("random_seed", unsigned(attempt)); s.set(pr);
            for( unsigned i=0;i<base.size();++i ) s.add(base[i]);
            for( unsigned i=0;i<phys.size();++i ) s.add(phys[i]);
            auto thr = ctx().real_val(attempt==0?"1/4":"1/1000");
            if( attempt<3 ) s.add( badl[bi].first > thr || badl[bi].first < -thr ); else s.add( badl[bi].first != ctx().real_val(0) );
            for( auto& kv : F.vars ){ 
              auto lim = ctx().real_val(attempt==0?4:50);
              if( attempt<2 ) s.add( kv.second <= lim && kv.second >= -lim );
            }
            for( auto& a : F.atoms ) if( attempt<2 ) s.add( a > ctx().real_val("1/100") || a < ctx().real_val("-1/100") );
            auto t1=std::chrono::steady_clock::now();
            auto gv=guarded(s,20000,&F.vars); queries++;
            solve_s += std::chrono::duration<double>(std::chrono::steady_clock::now()-t1).count();
            if( gv.r!=z3::sat ) continue;
            replay(gv.model,badl[bi].second); if( replayed ) verdict="sat";
          }
          // (4) a disagreement because AmpGen's side leaves its real domain (e.g. the root of a negative number) has no point where all
          //     roots are real: the goal's own reference point, which lies in the stated domain, is replayed instead
          if( !replayed && (verdict=="sat" || !witness) && !F.sample.empty() ){
            bool all=true; std::map<std::string,double> m; for( auto& kv : F.vars ){ auto it=F.sample.find(kv.first); if( it==F.sample.end() ) all=false; else m[kv.first]=it->second; }
            if( all ) replay(m,"reference point"); if( replayed ) verdict="sat";
          }
          if( replayed ) nviol++;
        }
      } catch( const Unsupported& e ){ verdict="unsupported"; detail=e.what();
        // the encoding shows a division by zero everywhere in the region of the goal: AmpGen's value there is looked at
        if( detail.find("identically zero")!=std::string::npos && !F.sample.empty() ){ replay(F.sample,"reference point"); if( replayed ){ verdict="sat"; nviol++; } else detail=e.what(); } }
        catch( const z3::exception& e ){ verdict="error"; detail=e.msg(); }
        catch( const std::exception& e ){ verdict="error"; detail=e.what(); }
      double wall = std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
      printf("GOAL {\"id\":\"%s\",\"verdict\":\"%s\",\"replayed\":%s,\"witness\":%s,\"pairs\":%zu,\"trivial\":%zu,\"queries\":%zu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"nodes\":%zu,\"exts\":%zu,\"atoms\":%zu,\"cex\":\"%s\",\"detail\":\"%s\",\"replay\":\"%s\"}\n",
        esc(g.id).c_str(), verdict.c_str(), replayed?"true":"false", witness?"true":"false", npairs, trivial, queries, solve_s, wall, F.stats.nodes, F.exts.size()-1, F.atoms.size(), esc(cex).c_str(), esc(detail).c_str(), esc(replay_out.substr(0,1500)).c_str());
      fflush(stdout);
    }
    fflush(stdout); _exit(0);
  }
};
// helpers to make pairs
inline void eqT(std::vector<Pair>& out, const Tensor& a, const Tensor& b, const std::string& lab=""){
  if( a.size()!=b.size() ){ out.push_back({Expression(1.),Expression(0.),lab+" size mismatch "+a.dimString()+" vs "+b.dimString()}); return; }
  for(unsigned i=0;i<a.size();++i) out.push_back({ a[a.coords(i)], b[b.coords(i)], lab+Tensor::coordinates_to_string(a.coords(i)) });
}
inline std::vector<Pair> eqT(const Tensor& a, const Tensor& b){ std::vector<Pair> o; eqT(o,a,b); return o; }
} // namespace va
