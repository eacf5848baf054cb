// Exact symbolic encoding of AmpGen expression trees for an SMT solver (field mode).
//
// AmpGen's own code is executed on symbolic operands (AmpGen::Parameter leaves); the expression
// trees that the code builds are translated here, node by node, into polynomial terms over the
// reals held by z3.  A value is an element of an extension  Q(x1..xn)[r1..rk, i]/(r_j^2 - X_j, i^2+1)
// kept as  sum_mask  N_mask * prod r_j / D  where every N_mask is a z3 term and D a multiset of
// denominator atoms (z3 terms that the claim assumes to be non-zero).
#pragma once
#include <z3++.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cmath>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <functional>
#include <complex>
#include <stdexcept>

namespace va {
using Mask = uint32_t;            // bit 0 = i, bit j = extension element j

inline z3::context& ctx(){ static z3::context c; return c; }

struct Num {
  std::map<int,int>        den;   // atom id -> multiplicity
  std::map<Mask, z3::expr> c;     // components (absent = 0)
};

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

// n/d with small d (continued fractions), relative tolerance 4 ulp.
inline bool as_rational(double v, long& n, long& d, long maxd = 20000)
{
  if( v == 0 ){ n=0; d=1; return true; }
  if( !std::isfinite(v) ) return false;
  double x = std::fabs(v), y = x;
  long h0=0,h1=1,k0=1,k1=0;
  for(int it=0; it<40; ++it){
    double fl = std::floor(y);
    if( fl > 1e15 ) return false;
    long a = long(fl);
    long h2 = a*h1+h0, k2 = a*k1+k0;
    if( k2 > maxd || h2 > 4000000000000000L ) return false;
    h0=h1;h1=h2;k0=k1;k1=k2;
    double approx = double(h1)/double(k1);
    if( std::fabs(approx-x) <= 40*2.3e-16*x ){ n = v<0 ? -h1 : h1; d = k1; return true; }
    if( y == fl ) return false;
    y = 1./(y-fl);
  }
  return false;
}

class FieldCore {
public:
  struct Ext { std::string key; Num sq; std::string label; z3::expr var; };
  struct Stats { size_t queries=0, unsat=0, sat=0, unknown=0, nodes=0, terms=0; double solver_s=0; } stats;
  std::vector<z3::expr> atoms;                 // denominator atoms
  std::map<std::string,int> atom_index;
  std::vector<Ext> exts;                       // ext 0 is a dummy (bit 0 = i)
  std::map<std::string,int> ext_index;
  std::map<std::string,z3::expr> vars;
  std::vector<z3::expr> domain;                // side conditions used only for counter-examples
  std::vector<std::string> notes;
  std::set<std::string> positiveVars;          // variables taken to be positive when a root of their square is met
  std::map<std::string,Num> subst;             // parameters that stand for something else (e.g. an on-shell energy)
  std::map<std::string,double> sample;         // conditionals are resolved to the region that contains this point
  bool opaqueRoots = false;                    // roots of real numbers become free variables (identities that do not depend on their squares)
  unsigned timeout_ms = 60000;
  int nil = 0;                                 // nilpotent element (dual number), used for infinitesimal transformations
  int nilpotent(){ if(!nil){ nil = exts.size(); exts.push_back({"#nil",Num(),"eps",ctx().real_const("eps#nil")}); } return nil; }
  void splitNil(const Num& a, Num& u, Num& v){ u=Num(); v=Num(); u.den=v.den=a.den; 
    for(auto& [m,e]:a.c) if( nil && (m>>nil&1) ) v.c.emplace(m&~(Mask(1)<<nil),e); else u.c.emplace(m,e);
    if(u.c.empty()) u.den.clear(); if(v.c.empty()) v.den.clear(); }

  FieldCore() { Num z; exts.push_back({"i", z, "i", ctx().int_val(0)}); }

  z3::expr simp(const z3::expr& e){
    static z3::params p = []{ z3::params q(ctx()); q.set("som", true); q.set("som_blowup", 1000000u); q.set("sort_sums", true); return q; }();
    return e.simplify(p);
  }
  static bool isZero(const z3::expr& e){ if(!e.is_numeral()) return false; return e.get_decimal_string(1)=="0" ; }
  z3::expr rat(long n, long d){ return ctx().real_val(n,1) / ctx().real_val(d,1); }
  z3::expr ratS(const std::string& s){ return ctx().real_val(s.c_str()); }

  Num fromTerm(const z3::expr& e){ Num r; auto s = simp(e); if(!isZero(s)) r.c.emplace(0,s); return r; }
  Num fromRat(long n,long d=1){ return fromTerm( d==1 ? ctx().real_val(n,1) : ctx().real_val((std::to_string(n)+"/"+std::to_string(d)).c_str()) ); }

  z3::expr var(const std::string& name){
    auto it = vars.find(name);
    if( it != vars.end() ) return it->second;
    auto v = ctx().real_const(name.c_str());
    vars.emplace(name, v);
    return v;
  }
  size_t limit = 0;                             // terms per product; 0: unlimited
  static size_t terms(const z3::expr& e){ return e.is_app() && e.decl().decl_kind()==Z3_OP_ADD ? e.num_args() : 1; }
  void guard(const z3::expr& a, const z3::expr& b) const { if( limit && terms(a)*terms(b) > limit ) throw Unsupported("polynomial too large"); }
  int atom(const z3::expr& e){
    auto key = e.to_string();
    auto it = atom_index.find(key);
    if( it != atom_index.end() ) return it->second;
    atoms.push_back(e); atom_index[key]=atoms.size()-1; return atoms.size()-1;
  }
  z3::expr power(const z3::expr& e, int n){ z3::expr r = e; for(int i=1;i<n;++i) r = r*e; return r; }

  // bring to the common denominator `target` (superset of x.den)
  void scaleTo(Num& x, const std::map<int,int>& target){
    z3::expr f = ctx().real_val(1); bool any=false;
    for( auto& [a,m] : target ){
      auto it = x.den.find(a); int have = it==x.den.end()?0:it->second;
      if( m>have ){ f = any ? f*power(atoms[a],m-have) : power(atoms[a],m-have); any=true; }
    }
    if( any ) for( auto& kv : x.c ) guard(kv.second,f), kv.second = simp( kv.second * f );
    x.den = target;
  }
  Num add(Num a, Num b, int sgn=1){
    if( a.c.empty() ){ if(sgn<0) for(auto& kv:b.c) kv.second = simp(-kv.second); return b; }
    if( b.c.empty() ) return a;
    auto t = a.den;
    for( auto& [k,m] : b.den ) t[k] = std::max(t[k],m);
    scaleTo(a,t); scaleTo(b,t);
    for( auto& [m,e] : b.c ){
      auto it = a.c.find(m);
      z3::expr v = it==a.c.end() ? (sgn>0 ? e : simp(-e)) : simp( sgn>0 ? it->second+e : it->second-e );
      if( it!=a.c.end() ) a.c.erase(it);
      if( !isZero(v) ) a.c.emplace(m,v);
    }
    if( a.c.empty() ) a.den.clear();
    return a;
  }
  Num mul(const Num& a, const Num& b){
    Num r;
    if( a.c.empty() || b.c.empty() ) return r;
    auto den = a.den; for( auto& [k,m] : b.den ) den[k]+=m;
    std::map<Mask, z3::expr> plain;              // products without overlap
    std::map<Mask, std::map<Mask, z3::expr>> over;
    for( auto& [m1,e1] : a.c ) for( auto& [m2,e2] : b.c ){
      Mask o = m1&m2, x = m1^m2; guard(e1,e2);
      z3::expr p = e1*e2;
      if( o & 1 ){ p = -p; }
      Mask oo = o & ~Mask(1);
      auto& slot = over[oo];
      auto it = slot.find(x);
      if( it==slot.end() ) slot.emplace(x,p); else { z3::expr q = it->second + p; slot.erase(it); slot.emplace(x,q);} 
    }
    for( auto& [oo,slot] : over ){
      Num part; part.den = den;
      for( auto& [x,e] : slot ){ auto s = simp(e); if(!isZero(s)) part.c.emplace(x,s); }
      if( part.c.empty() ) continue;
      for( unsigned j=1;j<exts.size();++j ) if( oo >> j & 1 ) part = mul( part, exts[j].sq );
      r = add( r, part );
    }
    if( r.c.empty() ) r.den.clear();
    return r;
  }
  Num neg(const Num& a){ return add(Num(), a, -1); }
  Num conj(const Num& a){ Num r=a; for( auto& kv : r.c ) if( kv.first & 1 ) kv.second = simp(-kv.second); return r; }
  Num real(const Num& a){ Num r; r.den=a.den; for(auto& kv:a.c) if(!(kv.first&1)) r.c.emplace(kv.first,kv.second); if(r.c.empty()) r.den.clear(); return r; }
  Num imag(const Num& a){ Num r; r.den=a.den; for(auto& kv:a.c) if( (kv.first&1)) r.c.emplace(kv.first&~Mask(1),kv.second); if(r.c.empty()) r.den.clear(); return r; }
  Num inv(const Num& a){
    if( a.c.empty() ) throw Unsupported("division by an expression that is identically zero");
    Mask all=0; for( auto& kv : a.c ) all |= kv.first;
    if( nil && (all>>nil&1) ){ Num u,v; splitNil(a,u,v); Num iu=inv(u); return add( iu, mul(extNum(nil), mul(v,mul(iu,iu))), -1 ); }
    if( all==0 ){
      Num r; 
      z3::expr n = ctx().real_val(1); bool any=false;
      for( auto& [k,m] : a.den ){ n = any ? n*power(atoms[k],m) : power(atoms[k],m); any=true; }
      z3::expr d = a.c.begin()->second;
      if( d.is_numeral() ){ r.c.emplace(0, simp(n/d)); return r; }
      r.c.emplace(0, simp(n)); r.den[atom(d)]=1;
      cancel(r);
      return r;
    }
    int j = 31 - __builtin_clz(all);
    // a = u + v*r_j  ->  1/a = (u - v r_j)/(u^2 - v^2 X_j)
    Num cj = a; for( auto& kv : cj.c ) if( kv.first >> j & 1 ) kv.second = simp(-kv.second);
    Num nrm = mul(a,cj);
    return mul( cj, inv(nrm) );
  }
  // cancel atoms that are syntactically the whole numerator (single component)
  void cancel(Num& r){
    if( r.c.size()!=1 ) return;
    auto s = r.c.begin()->second.to_string();
    auto it = atom_index.find(s);
    if( it==atom_index.end() ) return;
    auto d = r.den.find(it->second);
    if( d==r.den.end() ) return;
    Mask m = r.c.begin()->first; r.c.clear(); r.c.emplace(m, ctx().real_val(1));
    if( --d->second==0 ) r.den.erase(d);
  }
  std::string key(const Num& a){
    std::string s;
    for( auto& [k,m] : a.den ) s += "/"+std::to_string(k)+"^"+std::to_string(m);
    for( auto& [m,e] : a.c ) s += "|"+std::to_string(m)+":"+e.to_string();
    return s;
  }
  bool constant(const Num& a, double& v){
    if( a.c.empty() ){ v=0; return true; }
    if( a.c.size()!=1 || a.c.begin()->first!=0 || !a.den.empty() ) return false;
    auto& e = a.c.begin()->second; if(!e.is_numeral()) return false;
    v = toDouble(e); return true;
  }
  static double toDouble(const z3::expr& e){
    if( e.is_numeral() ){
      z3::expr n = e.numerator(), d = e.denominator();
      // numerator and denominator may be far outside the range of a double: leading digits and a decimal exponent
      auto sci=[](std::string t){ if( auto p=t.find('.'); p!=std::string::npos ) t.resize(p); bool neg=!t.empty()&&t[0]=='-'; if(neg) t.erase(0,1); int ex=0; if( t.size()>24 ){ ex=int(t.size())-24; t.resize(24); } return std::pair<long double,int>((neg?-1:1)*std::strtold(t.c_str(),nullptr),ex); };
      auto a=sci(n.get_decimal_string(20)), b=sci(d.get_decimal_string(20));
      return double(a.first/b.first*std::pow(10.0L,(long double)(a.second-b.second)));
    }
    std::string s = Z3_get_numeral_decimal_string(ctx(), e, 20);   // algebraic
    if( !s.empty() && s.back()=='?' ) s.pop_back();
    return std::strtod(s.c_str(),nullptr);
  }
  int newExt(const Num& sq, const std::string& label){
    auto k = key(sq);
    auto it = ext_index.find(k);
    if( it!=ext_index.end() ) return it->second;
    int id = exts.size();
    if( id > 30 ) throw Unsupported("too many square roots");
    exts.push_back({k,sq,label,ctx().real_const(("sqrt#"+std::to_string(id)).c_str())});
    ext_index[k]=id;
    return id;
  }
  Num extNum(int id){ Num r; r.c.emplace(Mask(1)<<id, ctx().real_val(1)); return r; }
  // if a == q*b with a positive rational q return it
  z3::expr atPoint(const z3::expr& e){
    z3::expr_vector from(ctx()), to(ctx()); int k=0; static const char* vals[]={"3/7","-5/11","13/17","-19/23","29/31","37/41","-43/47","53/59","61/67","-71/73"};
    for( auto& kv : vars ){ from.push_back(kv.second); to.push_back(ctx().real_val(vals[k%10]) + ctx().real_val(k/10)); ++k; }
    z3::expr t=e; return t.substitute(from,to).simplify();
  }
  bool ratio(const Num& a0, const Num& b0, double& q){
    if( a0.c.empty() || b0.c.empty() || a0.c.size()!=b0.c.size() ) return false;
    Num a=a0,b=b0; auto t=a.den; for( auto& [k,m] : b.den ) t[k]=std::max(t[k],m);
    scaleTo(a,t); scaleTo(b,t);
    auto ia=a.c.begin(), ib=b.c.begin(); if( ia->first!=ib->first ) return false;
    z3::expr x=atPoint(ia->second), y=atPoint(ib->second);
    if( !x.is_numeral() || !y.is_numeral() || isZero(y) || isZero(x) ) return false;
    z3::expr qq=(x/y).simplify(); q=toDouble(qq); long n,d; if( q<=0 || !as_rational(q,n,d) ) return false;
    for( ; ia!=a.c.end(); ++ia,++ib ){ if( ia->first!=ib->first || !isZero(simp(ia->second-qq*ib->second)) ) return false; }
    return true;
  }
  std::map<std::string,Num> sqrt_alias;
  // sqrt of a, reduced against the radicals that already exist: sqrt(q X_i), sqrt(q X_i X_j), sqrt(q X_i / X_j)
  // (all radicands are taken to be positive: stated assumption of field mode)
  Num sqrtReduced(const Num& a, const std::string& label){
    auto k = key(a);
    if( ext_index.count(k) ) return extNum(ext_index[k]);
    auto it = sqrt_alias.find(k); if( it!=sqrt_alias.end() ) return it->second;
    double q; 
    auto done = [&](const Num& r){ Num s = mul( sqrtConst(q), r ); sqrt_alias.emplace(k,s); return s; };
    auto known = [&](int j){ double v; return !constant(exts[j].sq,v); };
    size_t n = exts.size();
    size_t na = atoms.size();
    for( auto& v : positiveVars ) if( vars.count(v) ){ Num x = fromTerm(vars.at(v)); if( ratio(a,mul(x,x),q) ) return done(x); }
    for( size_t j=1;j<n;++j ) if( known(j) && ratio(a,exts[j].sq,q) ) return done(extNum(j));
    for( size_t j=1;j<n;++j ) if( known(j) ) for( size_t l=j+1;l<n;++l ) if( known(l) && ratio(a,mul(exts[j].sq,exts[l].sq),q) ) return done(mul(extNum(j),extNum(l)));
    for( size_t j=1;j<n;++j ) if( known(j) ) for( size_t l=1;l<n;++l ) if( l!=j && known(l) && ratio(mul(a,exts[l].sq),exts[j].sq,q) ) return done(mul(extNum(j),inv(extNum(l))));
    while( atoms.size()>na ){ atom_index.erase(atoms.back().to_string()); atoms.pop_back(); }   // drop atoms introduced by failed attempts
    return extNum( newExt(a,label) );
  }
  // N/D with a single rational component whose numerator is c * (product of variables to even powers): the root is taken exactly
  // (variables listed in positiveVars only)

  Num sqrtNum(const Num& a){
    double v; long nn,dd;
    if( a.c.empty() ) return a;
    if( constant(a,v) && ( !opaqueRoots || v<0 || as_rational(std::sqrt(v),nn,dd) ) ) return v<0 && opaqueRoots ? mul(sqrtConst(-1),sqrtNum(neg(a))) : sqrtConst(v);
    if( opaqueRoots && imag(a).c.empty() ) return opaque("sqrt",a);
    if( nil ){ Num x,y; splitNil(a,x,y); if( !y.c.empty() ){ Num s = sqrtNum(x); return add( s, mul(extNum(nil), mul(y, mul(fromRat(1,2),inv(s)))) ); } }
    return sqrtReduced(a,"sqrt");
  }
  Num sqrtConst(double v){
    if( v<0 ){ Num r = sqrtConst(-v); Num i; i.c.emplace(1,ctx().real_val(1)); return mul(r,i); }
    long n,d;
    double s = std::sqrt(v);
    if( as_rational(s,n,d) ) return fromRat(n,d);
    if( !as_rational(v,n,d) ) { return extNum( newExt( fromConst(v), "sqrt" ) ); }
    // sqrt(n/d) = sqrt(n*d)/d ; take out square factors and split into primes
    long x = n*d, out=1; Num r;
    std::vector<long> primes;
    for( long p=2;p*p<=x;++p ){ while( x%(p*p)==0 ){ out*=p; x/=p*p; } }
    for( long p=2;p<=x;++p ) if( x%p==0 ){ primes.push_back(p); x/=p; if( p>1000 ) throw Unsupported("large prime under square root"); }
    r = fromRat(out,d);
    for( auto p : primes ) r = mul( r, extNum( newExt( fromRat(p), "sqrt("+std::to_string(p)+")" ) ) );
    return r;
  }
  // a floating point literal is read as the small rational, or the square root of a small rational,
  // or the small rational multiple of pi, that it is the rounding of; otherwise as the exact dyadic number.
  Num fromConst(double v){
    long n,d;
    if( as_rational(v,n,d) ) return fromRat(n,d);
    if( as_rational(v*v,n,d,2000) && std::fabs(v*v)<1e8 ){ Num r = sqrtConst(v*v); return v<0 ? neg(r) : r; }
    if( as_rational(v/M_PI,n,d,2000) ) return mul( fromRat(n,d), fromTerm(var("pi")) );
    if( as_rational(v*M_PI,n,d,2000) ) return mul( fromRat(n,d), inv(fromTerm(var("pi"))) );
    if( as_rational(v*v*M_PI*M_PI,n,d,200) && std::fabs(v)<1e4 ){ Num r = mul( sqrtConst(v*v*M_PI*M_PI), inv(fromTerm(var("pi"))) ); return v<0 ? neg(r) : r; }
    int ex; double m = std::frexp(v,&ex); 
    long mi = (long)std::ldexp(m,53); ex -= 53;
    z3::expr e = ctx().real_val(std::to_string(mi).c_str());
    std::string p2 = "1"; 
    z3::expr two = ctx().real_val(2);
    z3::expr pw = ctx().real_val(1); for(int i=0;i<std::abs(ex);++i) pw = simp(pw*two);
    return fromTerm( ex<0 ? e/pw : e*pw );
  }
  Num fromConst(std::complex<double> z){
    Num r = fromConst(z.real());
    if( z.imag()!=0 ){ Num i; i.c.emplace(1,ctx().real_val(1)); r = add( r, mul(i, fromConst(z.imag())) ); }
    return r;
  }
  Num opaque(const std::string& fn, const Num& arg){
    return fromTerm( var(fn+"("+key(arg)+")") );
  }
  Num powInt(const Num& b, long n){
    if( n==0 ) return fromRat(1);
    if( n<0 ) return inv( powInt(b,-n) );
    Num r = b; for(long i=1;i<n;++i) r = mul(r,b);
    return r;
  }
  Num cosOf(const Num& a){ double v; if( constant(a,v)&&v==0 ) return fromRat(1);
    Num n = neg(a); auto k1=key(a), k2=key(n); return fromTerm(var("cos("+std::min(k1,k2)+")")); }
  Num sinOf(const Num& a){ double v; if( constant(a,v)&&v==0 ) return Num();
    Num n = neg(a); auto k1=key(a), k2=key(n); 
    Num c = cosOf(a); int id = newExt( add(fromRat(1), mul(c,c), -1), "sin" );
    return k1<=k2 ? extNum(id) : neg(extNum(id)); }

};
} // namespace va
