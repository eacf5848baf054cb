// Independent definitions used by C09 / C10.
#pragma once
#include "AmpGen/Units.h"
#define PAIRS(...) [=]{ PV out; __VA_ARGS__; return out; }
typedef std::vector<va::Pair> PV;
namespace lo {
using AmpGen::Expression; using va::sym; namespace fcn=AmpGen::fcn;
inline Expression m2(int i){ Expression m=sym("m"+std::to_string(i)); return m*m; }
inline Expression power(const Expression& x,unsigned n){ Expression r=1; for(unsigned i=0;i<n;++i) r=r*x; return r; }
inline Expression kallen(const Expression& s,const Expression& a,const Expression& b){ return s*s+a*a+b*b-2*s*a-2*s*b-2*a*b; }
inline Expression mom2(const Expression& s){ return kallen(s,m2(1),m2(2))/(4*s); }
// |theta_L(-ix)|^2 as a polynomial in z=x^2; theta_n=(2n-1)theta_{n-1}+x^2 theta_{n-2} (reverse Bessel polynomials, spherical Hankel functions)
inline std::vector<double> hankel(unsigned L){
  typedef std::vector<std::complex<double>> P; auto mul=[](const P& a,const P& b){ P r(a.size()+b.size()-1); for(size_t i=0;i<a.size();++i) for(size_t j=0;j<b.size();++j) r[i+j]+=a[i]*b[j]; return r; };
  P t0{1.},t1{1.,std::complex<double>(0,-1)}; if(L==0) t1=t0; for(unsigned n=2;n<=L;++n){ P t(n+1); for(size_t i=0;i<t1.size();++i) t[i]+=(2.*n-1)*t1[i]; for(size_t i=0;i<t0.size();++i) t[i+2]-=t0[i]; t0=t1; t1=t; }
  P c=t1; for(auto& x:c) x=std::conj(x); P q=mul(t1,c); std::vector<double> r; for(size_t i=0;i<q.size();i+=2) r.push_back(q[i].real()); return r; }
inline Expression poly(unsigned L,const Expression& z){ auto h=hankel(L); Expression r=0; for(size_t i=0;i<h.size();++i) r=r+Expression(h[i])*power(z,i); return r; }
inline double at(unsigned L,double z){ auto h=hankel(L); double r=0,p=1; for(double c:h){ r+=c*p; p*=z; } return r; }
inline double at0(unsigned L){ return at(L,0); } 
inline double at1(unsigned L){ return at(L,1); }
// particle masses that are exact in binary, so that constant folding loses nothing
inline void exactMasses(){ for(auto& [n,m]:std::map<std::string,double>{{"pi+",0.125},{"pi-",0.125},{"pi0",0.125},{"K+",0.5},{"K-",0.5},{"K0",0.515625},{"K0S0",0.515625},{"eta0",0.546875},{"eta'(958)0",0.9375}}){ auto p=const_cast<AmpGen::ParticleProperties*>(AmpGen::ParticlePropertiesList::get(n)); if(p) p->m_mass=m/AmpGen::MeV; }
  for(auto& n:{"rho(770)0","K*(892)0","f(0)(980)0","K(2)*(1430)0"}) const_cast<AmpGen::ParticleProperties*>(AmpGen::ParticlePropertiesList::get(n))->m_radius=1.5; }
// a region of the inputs: the point decides conditionals, the listed variables are positive
struct Region { std::map<std::string,double> sample; std::set<std::string> positive; std::string M;
  Region(std::map<std::string,double> s,std::set<std::string> p,std::string mass="M"):sample(s),positive(p),M(mass){ positive.insert("s"); }
  std::function<void(va::Field&)> set() const { auto r=*this; return [r](va::Field& F){ F.sample=r.sample; F.positiveVars=r.positive; }; }
  std::function<std::vector<Expression>()> pos() const { auto r=*this; return [r]{ std::vector<Expression> v; for(auto& p:r.positive) v.push_back(sym(p)); auto side=[&](const Expression& s,double x){ double a=r.sample.at("m1")+r.sample.at("m2"); Expression t=sym("m1")+sym("m2"); v.push_back(x>a*a?s-t*t:t*t-s); if(x<a*a) v.push_back(s-(sym("m1")-sym("m2"))*(sym("m1")-sym("m2"))); };
     if(r.sample.count("m1")){ if(r.sample.count("s")) side(sym("s"),r.sample.at("s")); if(r.sample.count(r.M)){ double m=r.sample.at(r.M); side(sym(r.M)*sym(r.M),m*m); } } return v; }; }
};
}
