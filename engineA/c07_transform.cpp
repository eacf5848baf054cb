// C07: Lorentz transformations.
#include "harness.h"
#include "AmpGen/Transform.h"
#include "AmpGen/Wigner.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
using namespace AmpGen; using namespace va;
typedef std::vector<Pair> PV;
#define PAIRS(...) [=]{ PV out; __VA_ARGS__; return out; }
static const double g[4]={-1,-1,-1,1};
static Expression el(const Tensor& t, std::vector<unsigned> c){ return t[c]; }
static std::string L(int i,int j=-1,int k=-1){ return std::to_string(i)+(j<0?"":","+std::to_string(j))+(k<0?"":","+std::to_string(k)); }
typedef std::vector<std::vector<Expression>> M;
static M mat(const Tensor& t,unsigned n){ M m(n,std::vector<Expression>(n)); if(t.size()!=n*n){ for(auto&r:m) for(auto&e:r) e=Expression(999.); return m; }  for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) m[i][j]=el(t,{i,j}); return m; }
static M mmul(const M& a,const M& b){ unsigned n=a.size(); M r(n,std::vector<Expression>(n)); for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j){ Expression s=0; for(unsigned k=0;k<n;++k) s=s+a[i][k]*b[k][j]; r[i][j]=s; } return r; }
static M dag(const M& a){ unsigned n=a.size(); M r(n,std::vector<Expression>(n)); for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) r[i][j]=fcn::conj(a[j][i]); return r; }
static void cmp(PV& out,const M& a,const M& b,const std::string& s){ for(unsigned i=0;i<a.size();++i) for(unsigned j=0;j<a.size();++j) out.push_back({a[i][j],b[i][j],s+L(i,j)}); }
static M id(unsigned n){ M r(n,std::vector<Expression>(n)); for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) r[i][j]=Expression(i==j?1.:0.); return r; }
// transformation number t: argument and unit axis are symbolic.  type 0: rotation (cos), 1: boost (gamma)
static Transform tr(int t,int type,int axis=-1){ 
  std::string n=std::to_string(t); Expression arg=sym("c"+n, type?1.37:0.37);
  Tensor k({ axis<0?sym("kx"+n,0.3):Expression(axis==0?1.:0.), axis<0?sym("ky"+n,0.5):Expression(axis==1?1.:0.), axis<0?Parameter("kz"+n,std::sqrt(1-0.34)):Expression(axis==2?1.:0.) }, Tensor::dim(3));
  return Transform(arg,k,type?Transform::Boost:Transform::Rotate); }
static void setupT(Field& F,int t,int type,int axis=-1){
  std::string n=std::to_string(t); Num c=F.fromTerm(F.var("c"+n)), one=F.fromRat(1), half=F.fromRat(1,2);
  if(type==0){ F.sqrtNum(F.add(one,c)); F.sqrtNum(F.add(one,c,-1)); F.domain.push_back(F.var("c"+n)<1 && F.var("c"+n)>-1); }
  else { F.sqrtNum(F.add(c,one)); F.sqrtNum(F.add(c,one,-1)); F.domain.push_back(F.var("c"+n)>1); }
  if(axis<0){ Num x=F.fromTerm(F.var("kx"+n)),y=F.fromTerm(F.var("ky"+n)); F.subst["kz"+n]=F.sqrtNum(F.add(F.add(one,F.mul(x,x),-1),F.mul(y,y),-1)); }
}
static void deriveT(std::map<std::string,double>& v,int t){ std::string n=std::to_string(t); v["kz"+n]=std::sqrt(std::max(0.,1-v["kx"+n]*v["kx"+n]-v["ky"+n]*v["ky"+n])); }
static M rep(const Tensor& t,int r){ return mat(t,r==0?2:4); }
static const Transform::Representation R[3]={Transform::Spinor,Transform::Bispinor,Transform::Vector};
static const char* RN[3]={"spinor","bispinor","vector"};
static void metric(PV& out,const M& l){ for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0; for(unsigned k=0;k<4;++k) s=s+l[k][i]*g[k]*l[k][j]; out.push_back({s,Expression(i==j?g[i]:0.),L(i,j)}); } }
static void spinorRep(PV& out,const M& S,const M& Si,const M& l){ // S^-1 gamma^mu S = Lambda^mu_nu gamma^nu
  for(unsigned m=0;m<4;++m){ M lhs=mmul(mmul(Si,mat(Gamma[m],4)),S); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0; for(unsigned n=0;n<4;++n) s=s+l[m][n]*el(Gamma[n],{i,j}); out.push_back({lhs[i][j],s,"gamma"+L(m,i,j)}); } } }
static void weylRep(PV& out,const M& S,const M& l){ // S (t - sigma.x) S^dagger = t' - sigma.x'
  for(unsigned n=0;n<4;++n){ M X=id(2); if(n<3){ X=mat(Sigma[n],2); for(auto&r:X) for(auto&e:r) e=-e; } M lhs=mmul(mmul(S,X),dag(S));
    for(unsigned i=0;i<2;++i) for(unsigned j=0;j<2;++j){ Expression s= i==j?l[3][n]:Expression(0.); for(unsigned c=0;c<3;++c) s=s-l[c][n]*el(Sigma[c],{i,j}); out.push_back({lhs[i][j],s,"sigma"+L(n,i,j)}); } } }
static M inverseBi(const M& S){ M g0=mat(Gamma[3],4); return mmul(mmul(g0,dag(S)),g0); }   // gamma0 S^dagger gamma0

int main(int argc,char** argv){
  Harness H(argc,argv,"C07");
  for(int type=0;type<2;++type){
    std::string n=type?"boost":"rotation";
    auto setup=[=](Field& F){ setupT(F,1,type); }; auto derive=[=](std::map<std::string,double>& v){ deriveT(v,1); };
    auto add=[&](const std::string& s,std::function<PV()> f){ H.add(n+"_"+s,f,nullptr,setup,derive); };
    add("preserves_metric", PAIRS( metric(out,mat(tr(1,type)(Transform::Vector),4)); ));
    add("orthochronous_proper_form", PAIRS( auto l=mat(tr(1,type)(Transform::Vector),4); Expression c=sym("c1"); out.push_back({l[3][3],type?c:Expression(1.),"Lambda_tt"}); Expression t=0; for(int i=0;i<4;++i) t=t+l[i][i]; out.push_back({t,2+2*c,"trace"}); ));
    add("action_on_axis_and_time", PAIRS( auto l=mat(tr(1,type)(Transform::Vector),4); Tensor k({sym("kx1"),sym("ky1"),Expression(Parameter("kz1"))},Tensor::dim(3)); Expression c=sym("c1"), sh=fcn::sqrt(c*c-1);
       for(unsigned i=0;i<4;++i){ Expression x=0; for(unsigned j=0;j<3;++j) x=x+l[i][j]*k[j]; 
         if(!type){ out.push_back({x,i<3?k[i]:Expression(0.),"axis is fixed"}); out.push_back({l[i][3],Expression(i==3?1.:0.),"time is fixed"}); }
         else { out.push_back({x,i<3?c*k[i]:-sh,"axis"}); out.push_back({l[i][3],i<3?-sh*k[i]:c,"time"}); } } ));
    if(!type) add("sense_and_angle", PAIRS( // v -> v cos + (k x v) sin + k (k.v)(1-cos)
       auto l=mat(tr(1,0)(Transform::Vector),4); Tensor k({sym("kx1"),sym("ky1"),Expression(Parameter("kz1"))},Tensor::dim(3)); Expression c=sym("c1"); Expression s=fcn::sqrt(1-c*c);
       Expression v[3]={sym("vx"),sym("vy"),sym("vz")}; Expression kv=k[0]*v[0]+k[1]*v[1]+k[2]*v[2];
       for(unsigned i=0;i<3;++i){ Expression x=0; for(unsigned j=0;j<3;++j) x=x+l[i][j]*v[j]; unsigned a=(i+1)%3; unsigned b=(i+2)%3; out.push_back({x,v[i]*c+(k[a]*v[b]-k[b]*v[a])*s+k[i]*kv*(1-c),L(i)}); } ));
    for(int r=0;r<3;++r) add(std::string("inverse_undoes_")+RN[r], PAIRS( auto t=tr(1,type); cmp(out,mmul(rep(t.inverse()(R[r]),r),rep(t(R[r]),r)),id(r==0?2:4),""); cmp(out,mmul(rep(t(R[r]),r),rep(t.inverse()(R[r]),r)),id(r==0?2:4),""); ));
    add("bispinor_rotates_gamma", PAIRS( auto t=tr(1,type); auto S=mat(t(Transform::Bispinor),4); spinorRep(out,S,inverseBi(S),mat(t(Transform::Vector),4)); ));
    add("bispinor_pseudo_unitary", PAIRS( auto S=mat(tr(1,type)(Transform::Bispinor),4); cmp(out,mmul(inverseBi(S),S),id(4),""); ));
    add("spinor_rotates_sigma", PAIRS( auto t=tr(1,type); weylRep(out,mat(t(Transform::Spinor),2),mat(t(Transform::Vector),4)); ));
    add("spinor_unimodular", PAIRS( auto S=mat(tr(1,type)(Transform::Spinor),2); out.push_back({S[0][0]*S[1][1]-S[0][1]*S[1][0],Expression(1.),"det"}); ));
    add("applied_to_vector", PAIRS( auto t=tr(1,type); Tensor v=symVec("v"); Tensor w=t(v); auto l=mat(t(Transform::Vector),4); for(unsigned i=0;i<4;++i){ Expression x=0; for(unsigned j=0;j<4;++j) x=x+l[i][j]*v[j]; out.push_back({w[i],x,L(i)}); } ));
    add("applied_to_bispinor", PAIRS( auto t=tr(1,type); Tensor v=symTensor("v",{4},true); Tensor w=t(v,Transform::Bispinor); auto l=mat(t(Transform::Bispinor),4); for(unsigned i=0;i<4;++i){ Expression x=0; for(unsigned j=0;j<4;++j) x=x+l[i][j]*v[j]; out.push_back({w[i],x,L(i)}); } ));
  }
  // ---- sequences: length 0..3, all constructions, types symbolic axes for the first and coordinate axes for the others
  auto ax=[](int i){ return i==1?-1:(i==2?1:0); };
  auto T=[=](int i,int type){ return tr(i,type,ax(i)); };
  H.add("sequence_empty", PAIRS( for(int how=0;how<3;++how){ TransformSequence s; if(how==1){ s.push_back(T(1,0)); s.clear(); } if(how==2) s=TransformSequence().inverse(); for(int r=0;r<3;++r) cmp(out,rep(s(R[r]),r),id(r==0?2:4),RN[r]); } ));
  for(int n=1;n<=6;++n) for(int mask=0;mask<(1<<n);++mask){
    if( n>3 && H.quick && mask!=((1<<n)-1)/3 && mask!=6 ) continue; // longer sequences: coordinate axes only
    auto ax=[=](int i){ return n>3 ? i%3 : i==1?-1:(i==2?1:0); }; auto T=[=](int i,int type){ return tr(i,type,ax(i)); };
    auto ty=[=](int i){ return mask>>(i-1)&1; };
    auto setup=[=](Field& F){ for(int i=1;i<=n;++i) setupT(F,i,ty(i),ax(i)); }; auto derive=[=](std::map<std::string,double>& v){ if(n<=3) deriveT(v,1); };
    std::string nm="sequence_"; for(int i=1;i<=n;++i) nm+=ty(i)?"B":"R";
    for(int r=0;r<3;++r){
      H.add(nm+"_order_"+RN[r], PAIRS( 
        M ref=rep(T(1,ty(1))(R[r]),r); for(int i=2;i<=n;++i) ref=mmul(rep(T(i,ty(i))(R[r]),r),ref);
        TransformSequence a; for(int i=1;i<=n;++i) a.push_back(T(i,ty(i))); cmp(out,rep(a(R[r]),r),ref,"push_back ");
        if(n==1){ TransformSequence b(T(1,ty(1))); cmp(out,rep(b(R[r]),r),ref,"ctor "); TransformSequence e(b,TransformSequence()); cmp(out,rep(e(R[r]),r),ref,"concat with empty "); TransformSequence f(TransformSequence(),b); cmp(out,rep(f(R[r]),r),ref,"empty concat "); }
        if(n==2){ TransformSequence b(T(1,ty(1)),T(2,ty(2))); cmp(out,rep(b(R[r]),r),ref,"pair ctor "); }
        if(n>=2){ TransformSequence x(T(1,ty(1))),y; for(int i=2;i<=n;++i) y.push_back(T(i,ty(i))); TransformSequence b(x,y); cmp(out,rep(b(R[r]),r),ref,"concat "); out.push_back({Expression(double(b.size())),Expression(double(n)),"length"}); TransformSequence c=x; c.push_back(y); cmp(out,rep(c(R[r]),r),ref,"append "); }
        if(n>=4){ TransformSequence x,y; for(int i=1;i<=2;++i) x.push_back(T(i,ty(i))); for(int i=3;i<=n;++i) y.push_back(T(i,ty(i))); TransformSequence b(x,y); cmp(out,rep(b(R[r]),r),ref,"concat pairs "); TransformSequence c=x; c.push_back(y); cmp(out,rep(c(R[r]),r),ref,"append pairs "); }
        ),nullptr,setup,derive);
      if( n<3 || !H.quick ) H.add(nm+"_inverse_"+RN[r], PAIRS( TransformSequence a; for(int i=1;i<=n;++i) a.push_back(T(i,ty(i))); cmp(out,mmul(rep(a.inverse()(R[r]),r),rep(a(R[r]),r)),id(r==0?2:4),""); ),nullptr,setup,derive);
    }
    if( n<3 ) H.add(nm+"_applied", PAIRS( TransformSequence a; for(int i=1;i<=n;++i) a.push_back(T(i,ty(i))); Tensor v=symVec("v"); Tensor w=v; for(int i=1;i<=n;++i) w=T(i,ty(i))(w); Tensor z=a(v); for(unsigned i=0;i<4;++i) out.push_back({z[i],w[i],L(i)}); Tensor s=symTensor("s",{4},true); Tensor sw=s; for(int i=1;i<=n;++i) sw=T(i,ty(i))(sw,Transform::Bispinor); Tensor sz=a(s,Transform::Bispinor); for(unsigned i=0;i<4;++i) out.push_back({sz[i],sw[i],"bispinor"+L(i)}); ),nullptr,setup,derive);
  }
  // ---- frames: wickTransform takes a momentum to rest (massive) or onto the z axis (massless)
  for(int ve=-1;ve<=1;ve+=2) for(int kind=0;kind<3;++kind) for(int region=0;region<3;++region){
    auto setup=[=](Field& F){
      Num z; F.sample={{"0_Px",0.31},{"0_Py",-0.42},{"0_Pz",0.53},{"0_E",2.}};
      if(region){ F.subst["0_Px"]=z; F.subst["0_Py"]=z; F.sample["0_Px"]=F.sample["0_Py"]=0; F.sample["0_Pz"]=region==1?0.53:-0.53; F.positiveVars.insert("a"); Num a=F.fromTerm(F.var("a")); F.subst["0_Pz"]=region==1?a:F.neg(a); F.domain.push_back(F.var("a")>ctx().real_val("1/100")); }
      else F.domain.push_back( F.var("0_Px")*F.var("0_Px")+F.var("0_Py")*F.var("0_Py") > ctx().real_val("1/100") );
      Num px=region?z:F.fromTerm(F.var("0_Px")),py=region?z:F.fromTerm(F.var("0_Py")),pz=region?F.subst["0_Pz"]:F.fromTerm(F.var("0_Pz"));
      auto sq=[&](Num x){ return F.mul(x,x); };
      Num pt2=F.add(sq(px),sq(py)), p2=F.add(pt2,sq(pz)); if(!region){ F.sqrtNum(p2); F.sqrtNum(pt2); }
      Num p = F.sqrtNum(p2);
      if(kind==0){ F.subst["0_E"]=F.sqrtNum(F.add(p2,F.fromRat(1))); }
      if(kind==1){ F.subst["0_E"]=p; }
    };
    auto derive=[=](std::map<std::string,double>& v){ if(region){ v["0_Px"]=v["0_Py"]=0; v["0_Pz"]=(region==1?1:-1)*std::abs(v["a"]); } double p2=std::pow(v["0_Px"],2)+std::pow(v["0_Py"],2)+std::pow(v["0_Pz"],2); v["0_E"]=std::sqrt(p2+(kind==0?1:0)); };
    if(kind==2) continue;
    const char* rn[3]={"generic","plus_z","minus_z"};
    H.add(std::string("wick_")+(kind==0?"massive_":"massless_")+(ve>0?"first_":"second_")+rn[region], PAIRS(
      auto pp=const_cast<ParticleProperties*>(ParticlePropertiesList::get(kind==0?"K+":"gamma0")); if(kind==0) pp->m_mass=1./MeV;
      Particle p(kind==0?"K+":"gamma0",0); Tensor P=p.P(); TransformSequence s=wickTransform(P,p,ve); Tensor w=s(P);
      out.push_back({w[0],Expression(0.),"x"}); out.push_back({w[1],Expression(0.),"y"});
      if(kind==0){ out.push_back({w[2],Expression(0.),"z"}); out.push_back({w[3],Expression(1.),"t"}); }
      else { out.push_back({w[2],P[3],"z"}); out.push_back({w[3],P[3],"t"}); }
      metric(out,mat(s(Transform::Vector),4));
      ),nullptr,setup,derive);
  }
  // hyperbolic helpers
  H.add("hyperbolic", PAIRS( Expression x=sym("x"); out.push_back({cosh(x)*cosh(x)-sinh(x)*sinh(x),Expression(1.),"cosh2-sinh2"}); out.push_back({tanh(x)*cosh(x),sinh(x),"tanh"}); out.push_back({cosh(-x),cosh(x),"even"}); out.push_back({sinh(-x),-sinh(x),"odd"}); out.push_back({cosh(x)+sinh(x),fcn::exp(x),"exp"}); ));
  return H.run();
}
