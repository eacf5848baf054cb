// C05: Dirac algebra and external spin states.
#include "harness.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/Wigner.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/DiracMatrices.h"
using namespace AmpGen; using namespace va;
static const double g[4]={-1,-1,-1,1};
typedef std::vector<Pair> PV;
#define PAIRS(...) [=]{ PV out; __VA_ARGS__; return out; }
static Expression el(const Tensor& t, std::vector<unsigned> c){ return t[c]; }
static std::string L(int i,int j=-1,int k=-1){ return std::to_string(i)+(j<0?"":","+std::to_string(j))+(k<0?"":","+std::to_string(k)); }
static Expression mel(const Tensor& a,const Tensor& b,unsigned n,unsigned i,unsigned j){ Expression s=0; for(unsigned k=0;k<n;++k) s=s+el(a,{i,k})*el(b,{k,j}); return s; }
static int levi(int i,int j,int k){ return (i==j||j==k||i==k)?0:((j-i+3)%3==1?1:-1); }

// a particle whose mass and basis are set by us
static Particle part(const std::string& name,double mass,bool weyl){
  auto pp = const_cast<ParticleProperties*>(ParticlePropertiesList::get(name)); pp->m_mass = mass/MeV;
  Particle p(name,0); p.m_spinBasis = NamedParameter<spinBasis>("", weyl?spinBasis::Weyl:spinBasis::Dirac); return p; }

int main(int argc,char** argv){
  Harness H(argc,argv,"C05");
  // ---- matrices (no free variables: exact identities)
  H.add("clifford", PAIRS( for(int m=0;m<4;++m) for(int n=0;n<4;++n) for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) out.push_back({mel(Gamma[m],Gamma[n],4,i,j)+mel(Gamma[n],Gamma[m],4,i,j), Expression(m==n&&i==j?2*g[m]:0.), L(m,n)}); ));
  H.add("gamma5", PAIRS( for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ out.push_back({mel(Gamma[4],Gamma[4],4,i,j),Expression(i==j?1.:0.),"square"}); for(int m=0;m<4;++m) out.push_back({mel(Gamma[4],Gamma[m],4,i,j),-mel(Gamma[m],Gamma[4],4,i,j),"anticommute"}); } ));
  H.add("gamma5_is_product", PAIRS( // i g0 g1 g2 g3
     std::vector<std::vector<Expression>> a(4,std::vector<Expression>(4)); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) a[i][j]=el(Gamma[3],{i,j});
     for(int m=0;m<3;++m){ auto b=a; for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0; for(unsigned k=0;k<4;++k) s=s+a[i][k]*el(Gamma[m],{k,j}); b[i][j]=s; } a=b; }
     for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) out.push_back({el(Gamma[4],{i,j}),I*a[i][j],L(i,j)}); ));
  H.add("gamma_hermiticity", PAIRS( for(int m=0;m<4;++m) for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) out.push_back({fcn::conj(el(Gamma[m],{j,i})),(m==3?1.:-1.)*el(Gamma[m],{i,j}),L(m,i,j)}); ));
  H.add("pauli", PAIRS( for(int a=0;a<3;++a) for(int b=0;b<3;++b) for(unsigned i=0;i<2;++i) for(unsigned j=0;j<2;++j){ Expression r = a==b&&i==j?1.:0.; for(int c=0;c<3;++c) if(levi(a,b,c)) r = r + I*double(levi(a,b,c))*el(Sigma[c],{i,j}); out.push_back({mel(Sigma[a],Sigma[b],2,i,j),r,L(a,b)}); } ));
  H.add("sigma4_is_spin", PAIRS( // i/2 eps_abc Sigma4_c = [g_a,g_b]/(-2)... : Sigma_c = (i/2)[g_a,g_b], (abc) cyclic
     for(int c=0;c<3;++c){ int a=(c+1)%3; int b=(c+2)%3; for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) out.push_back({el(Sigma4[c],{i,j}),(0.5*I)*(mel(Gamma[a],Gamma[b],4,i,j)-mel(Gamma[b],Gamma[a],4,i,j)),L(c,i,j)}); } ));
  H.add("so3", PAIRS( for(int a=0;a<3;++a) for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) out.push_back({el(SO3[a],{i,j}),Expression(i<3&&j<3?-double(levi(a,i,j)):0.),L(a,i,j)}); ));
  H.add("gellmann", PAIRS( for(int a=0;a<8;++a){ Expression tr=0; for(unsigned i=0;i<3;++i) tr=tr+el(SU3[a],{i,i}); out.push_back({tr,Expression(0.),"traceless"}); for(unsigned i=0;i<3;++i) for(unsigned j=0;j<3;++j) out.push_back({el(SU3[a],{i,j}),fcn::conj(el(SU3[a],{j,i})),"hermitian"});
     for(int b=0;b<8;++b){ Expression s=0; for(unsigned i=0;i<3;++i) s=s+mel(SU3[a],SU3[b],3,i,i); out.push_back({s,Expression(a==b?2.:0.),"normalisation"}); } } ));
  // ---- external states.  Region 0: generic momentum; 1: along +z; 2: along -z ; 3: at rest
  const char* rname[4]={"generic","plus_z","minus_z","rest"};
  for(int weyl=0;weyl<2;++weyl) for(int region=0;region<4;++region) for(double mass : std::vector<double>{1.,3./7.}) {
    if( region!=0 && mass!=1. ) continue;
    auto setup=[=](Field& F){
      F.sample={{"0_Px",0.31},{"0_Py",-0.42},{"0_Pz",0.53},{"0_E",std::sqrt(mass*mass+0.31*0.31+0.42*0.42+0.53*0.53)}};
      Num z; 
      if( region ){ F.subst["0_Px"]=z; F.subst["0_Py"]=z; F.sample["0_Px"]=F.sample["0_Py"]=0; F.sample["0_Pz"]= region==1?0.53:region==2?-0.53:0; F.sample["0_E"]=std::sqrt(mass*mass+std::pow(F.sample["0_Pz"],2)); }
      if( region==3 ){ F.subst["0_Pz"]=z; F.subst["0_E"]=F.fromConst(mass); return; }
      auto sq=[&](Num a){ return F.mul(a,a); };
      Num px = region?z:F.fromTerm(F.var("0_Px")), py=region?z:F.fromTerm(F.var("0_Py")), pz=F.fromTerm(F.var("0_Pz"));
      if( region ){ F.positiveVars.insert("a"); pz = F.fromTerm(F.var("a")); if(region==2) pz=F.neg(pz); F.subst["0_Pz"]=pz; F.domain.push_back(F.var("a")>ctx().real_val("1/100")); }
      else F.domain.push_back( F.var("0_Px")*F.var("0_Px")+F.var("0_Py")*F.var("0_Py") > ctx().real_val("1/100") );
      Num p2 = F.add(F.add(sq(px),sq(py)),sq(pz)), m2=sq(F.fromConst(mass));
      if( region==0 ) F.sqrtNum(p2);
      F.subst["0_E"]=F.sqrtNum(F.add(p2,m2));
    };
    auto derive=[=](std::map<std::string,double>& v){ 
      if(region) v["0_Px"]=v["0_Py"]=0; if(region==1) v["0_Pz"]=std::abs(v["a"]); if(region==2) v["0_Pz"]=-std::abs(v["a"]); if(region==3) v["0_Pz"]=0;
      v["0_E"]=std::sqrt(mass*mass+v["0_Px"]*v["0_Px"]+v["0_Py"]*v["0_Py"]+v["0_Pz"]*v["0_Pz"]); };
    auto add=[&](const std::string& id,std::function<PV()> f){ H.add(std::string(weyl?"weyl_":"dirac_")+rname[region]+(mass==1?"_":"_m37_")+id, f, nullptr, setup, derive); };
    for(int anti=0;anti<2;++anti){
      std::string name = ParticlePropertiesList::get(anti?-2212:2212)->name(), tag=anti?"antifermion":"fermion"; double sg=anti?-1:1;
      auto st=[=](int pol){ return part(name,mass,weyl).externalSpinTensor(pol); };
      auto P=[=]{ return part(name,mass,weyl).P(); };
      for(int pol=-1;pol<=1;pol+=2){
        std::string s=tag+(pol>0?"_up":"_down");
        add(s+"_dirac_equation", PAIRS( Tensor u=st(pol); Tensor sl=slash(P()); for(unsigned i=0;i<4;++i){ Expression x=0; for(unsigned j=0;j<4;++j) x=x+el(sl,{i,j})*u[j]; out.push_back({x,(sg*mass)*u[i],L(i)}); } ));
        if(weyl && region!=3) add(s+"_helicity", PAIRS( Tensor u=st(pol); Tensor p=P(); Expression pp=fcn::sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]); for(unsigned i=0;i<4;++i){ Expression x=0; for(int c=0;c<3;++c) for(unsigned j=0;j<4;++j) x=x+p[c]*el(Sigma4[c],{i,j})*u[j]; out.push_back({x,double(pol)*pp*u[i],L(i)}); } ));
        if(!weyl) add(s+"_is_boosted_rest_spinor", PAIRS( // S(p) = (E+m - g5 ... ): u(p) = (pslash gamma0 + m) chi / sqrt(2m(E+m))
            Tensor u=st(pol); Tensor p=P(); Tensor chi=basisSpinor(pol,anti?-1:1); Expression N=fcn::sqrt(2*mass*(p[3]+mass)); Tensor sl=slash(p);
            for(unsigned i=0;i<4;++i){ Expression x=mass*chi[i]; for(unsigned j=0;j<4;++j) for(unsigned k=0;k<4;++k) x=x+el(sl,{i,j})*el(Gamma[3],{j,k})*chi[k]; out.push_back({u[i],x/N,L(i)}); } ));
      }
      add(tag+"_orthonormal", PAIRS( for(int a=-1;a<=1;a+=2) for(int b=-1;b<=1;b+=2){ Tensor ba=Bar(st(a)); Tensor ub=st(b); Expression x=0; for(unsigned i=0;i<4;++i) x=x+ba[i]*ub[i]; out.push_back({x,Expression(a==b?sg:0.),L(a+1,b+1)}); } ));
      add(tag+"_complete", PAIRS( Tensor sl=slash(P()); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression x=0; for(int a=-1;a<=1;a+=2){ Tensor u=st(a); Tensor b=Bar(st(a)); x=x+u[i]*b[j]; } out.push_back({x,(el(sl,{i,j})+(i==j?sg*mass:0.))/(2*mass),L(i,j)}); } ));
    }
    auto vt=[=](int pol){ return part("K*(892)0",mass,weyl).externalSpinTensor(pol); };
    auto P=[=]{ return part("K*(892)0",mass,weyl).P(); };
    for(int pol=-1;pol<=1;++pol){
      std::string s=std::string("vector_")+(pol>0?"plus":pol<0?"minus":"zero");
      add(s+"_transverse", PAIRS( Tensor e=vt(pol); Tensor p=P(); Expression x=0; for(unsigned i=0;i<4;++i) x=x+g[i]*p[i]*e[i]; out.push_back({x,Expression(0.),"p.e"}); ));
      if(weyl && region!=3) add(s+"_helicity", PAIRS( Tensor e=vt(pol); Tensor p=P(); Expression pp=fcn::sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]); for(unsigned i=0;i<4;++i){ Expression x=0; for(int c=0;c<3;++c) for(unsigned j=0;j<4;++j) x=x+I*p[c]*el(SO3[c],{i,j})*e[j]; out.push_back({x,double(pol)*pp*e[i],L(i)}); } ));
      if(!weyl) add(s+"_is_boosted_rest_vector", PAIRS( Tensor e=vt(pol); Tensor p=P(); Tensor r=basisVector(pol); Expression pr=p[0]*r[0]+p[1]*r[1]+p[2]*r[2]; for(unsigned i=0;i<3;++i) out.push_back({e[i],r[i]+p[i]*pr/(mass*(p[3]+mass)),L(i)}); out.push_back({e[3],pr/mass,L(3)}); ));
    }
    add("vector_orthonormal", PAIRS( for(int a=-1;a<=1;++a) for(int b=-1;b<=1;++b){ Tensor ea=vt(a); Tensor eb=vt(b); Expression x=0; for(unsigned i=0;i<4;++i) x=x+g[i]*fcn::conj(ea[i])*eb[i]; out.push_back({x,Expression(a==b?-1.:0.),L(a+1,b+1)}); } ));
    add("vector_complete", PAIRS( Tensor p=P(); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression x=0; for(int a=-1;a<=1;++a){ Tensor e=vt(a); x=x+e[i]*fcn::conj(e[j]); } out.push_back({x,p[i]*p[j]/(mass*mass)-(i==j?g[i]:0.),L(i,j)}); } ));
  }
  // photons: the two transverse helicities
  for(int region=0;region<3;++region){
    auto setup=[=](Field& F){ Num z; F.sample={{"0_Px",region?0:0.31},{"0_Py",region?0:-0.42},{"0_Pz",region==2?-0.53:0.53}}; F.sample["0_E"]=region?0.53:std::sqrt(0.31*0.31+0.42*0.42+0.53*0.53);
      auto sq=[&](Num a){ return F.mul(a,a); };
      if(region){ F.subst["0_Px"]=z; F.subst["0_Py"]=z; F.positiveVars.insert("a"); Num a=F.fromTerm(F.var("a")); F.subst["0_Pz"]=region==2?F.neg(a):a; F.subst["0_E"]=a; F.domain.push_back(F.var("a")>ctx().real_val("1/100")); }
      else { F.domain.push_back( F.var("0_Px")*F.var("0_Px")+F.var("0_Py")*F.var("0_Py") > ctx().real_val("1/100") ); F.subst["0_E"]=F.sqrtNum(F.add(F.add(sq(F.fromTerm(F.var("0_Px"))),sq(F.fromTerm(F.var("0_Py")))),sq(F.fromTerm(F.var("0_Pz"))))); } };
    auto derive=[=](std::map<std::string,double>& v){ if(region){ v["0_Px"]=v["0_Py"]=0; v["0_Pz"]=(region==2?-1:1)*std::abs(v["a"]); } v["0_E"]=std::sqrt(v["0_Px"]*v["0_Px"]+v["0_Py"]*v["0_Py"]+v["0_Pz"]*v["0_Pz"]); };
    auto ph=[=](int pol){ Particle p("gamma0",0); p.m_spinBasis = NamedParameter<spinBasis>("",spinBasis::Weyl); return p.externalSpinTensor(pol); };
    H.add(std::string("photon_")+rname[region], PAIRS( Particle q("gamma0",0); Tensor p=q.P(); Expression pp=fcn::sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]);
      for(int pol=-1;pol<=1;pol+=2){ Tensor e=ph(pol); Expression x=0; for(unsigned i=0;i<3;++i) x=x+p[i]*e[i]; out.push_back({x,Expression(0.),"transverse"}); out.push_back({e[3],Expression(0.),"time"});
        for(unsigned i=0;i<4;++i){ Expression y=0; for(int c=0;c<3;++c) for(unsigned j=0;j<4;++j) y=y+I*p[c]*el(SO3[c],{i,j})*e[j]; out.push_back({y,double(pol)*pp*e[i],"helicity"+L(i)}); }
        for(int b=-1;b<=1;b+=2){ Tensor f=ph(b); Expression y=0; for(unsigned i=0;i<3;++i) y=y+fcn::conj(e[i])*f[i]; out.push_back({y,Expression(pol==b?1.:0.),"orthonormal"}); } }
      for(unsigned i=0;i<3;++i) for(unsigned j=0;j<3;++j){ Expression y=0; for(int b=-1;b<=1;b+=2){ Tensor f=ph(b); y=y+f[i]*fcn::conj(f[j]); } out.push_back({y*pp*pp,(i==j?pp*pp:Expression(0.))-p[i]*p[j],"complete"+L(i,j)}); } ),nullptr,setup,derive);
  }
  // scalar
  H.add("scalar_state_is_one", PAIRS( for(int w=0;w<2;++w){ Tensor t=part("D0",1.,w).externalSpinTensor(0); out.push_back({Expression(double(t.size())),Expression(1.),"size"}); out.push_back({t[0],Expression(1.),"value"}); } ));
  // rest frame bases used by the canonical formalism
  H.add("rest_frame_bases", PAIRS( for(int a=-1;a<=1;++a) for(int b=-1;b<=1;++b){ Tensor u=basisVector(a); Tensor v=basisVector(b); Expression x=0; for(unsigned i=0;i<4;++i) x=x+g[i]*fcn::conj(u[i])*v[i]; out.push_back({x,Expression(a==b?-1.:0.),"vector"}); }
     for(int a=-1;a<=1;a++){ Tensor e=basisVector(a); for(unsigned i=0;i<4;++i){ Expression x=0; for(unsigned j=0;j<4;++j) x=x+I*el(SO3[2],{i,j})*e[j]; out.push_back({x,double(a)*e[i],"Jz"}); } Expression sgn=0; }
     for(int id=-1;id<=1;id+=2) for(int a=-1;a<=1;a+=2){ Tensor u=basisSpinor(a,id); for(unsigned i=0;i<4;++i){ Expression x=0,y=0; for(unsigned j=0;j<4;++j){ x=x+el(Sigma4[2],{i,j})*u[j]; y=y+el(Gamma[3],{i,j})*u[j]; } out.push_back({x,double(a)*u[i],"Sz"}); out.push_back({y,double(id)*u[i],"gamma0"}); } Expression n=0; for(unsigned i=0;i<4;++i) n=n+fcn::conj(u[i])*u[i]; out.push_back({n,Expression(1.),"norm"}); } ));
  return H.run();
}
