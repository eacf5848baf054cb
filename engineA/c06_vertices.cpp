// C06: every registered spin vertex.
#include "harness.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/DiracMatrices.h"
using namespace AmpGen; using namespace va;
static const double g[4]={-1,-1,-1,1};
typedef std::vector<Pair> PV;
typedef std::complex<double> C;
static Expression el(const Tensor& t, std::vector<unsigned> c){ return t[c]; }
static unsigned sz(char c){ return c=='S'?1:(c=='T'||c=='r'||c=='R')?16:4; }
static bool spinor(char c){ return c=='f'||c=='F'; }
static bool known(char c){ return strchr("SVTfFrR",c)!=nullptr; }
// real daughter states: the phase goals (f(iV)=+-i f(V)) and additivity extend every statement to complex states
static Tensor mk(char c, const std::string& n){
  if( c=='S' ) return symTensor(n,{1},false);
  if( c=='V' || spinor(c) ) return symTensor(n,{4},false);
  Tensor t(Tensor::dim(4,4));
  for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ unsigned a=i,b=j; if(c=='T'&&a>b) std::swap(a,b); t(i,j)=sym(n+"_"+std::to_string(a)+std::to_string(b)); }
  return t;
}
static Tensor times(const Tensor& t, Expression f){ Tensor r(t.dims()); for(unsigned i=0;i<t.size();++i) r[i]=f*t[i]; return r; }
static void randomise(const Expression& e){ std::map<std::string,double> v; std::set<const IExpression*> seen; std::vector<Expression> st{e};
  while(!st.empty()){ Expression x=st.back(); st.pop_back(); if(!seen.insert(x.get()).second) continue; if(auto q=dynamic_cast<const Parameter*>(x.get())){ double h=double(std::hash<std::string>()(q->name())%1000)/700.-0.7; if(q->name()=="P_t") h=3.1; v[q->name()]=h; } for(auto& c:children(x)) st.push_back(c); }
  bindParameters(e,v); }
// --- representation matrices.  kind: 0..5 generators (Jx Jy Jz Kx Ky Kz) with parameter; 6 parity
typedef std::vector<std::vector<C>> CM;
static CM mulC(const CM& a,const CM& b){ CM r(4,std::vector<C>(4)); for(int i=0;i<4;++i) for(int j=0;j<4;++j) for(int k=0;k<4;++k) r[i][j]+=a[i][k]*b[k][j]; return r; }
static CM gam(int m){ CM r(4,std::vector<C>(4)); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) r[i][j]=el(Gamma[m],{i,j})(); return r; }
// omega^mu_nu (mixed) of generator k; our index order x,y,z,t
static void genV(int k, double w[4][4]){ for(int i=0;i<4;++i) for(int j=0;j<4;++j) w[i][j]=0;
  if(k<3){ int a=(k+1)%3,b=(k+2)%3; w[a][b]=-1; w[b][a]=1; } else { w[k-3][3]=1; w[3][k-3]=1; } }
static CM genS(int k){ double w[4][4]; genV(k,w); CM r(4,std::vector<C>(4));
  // delta psi = 1/8 omega_{mu nu} [gamma^mu,gamma^nu],  omega_{mu nu} = g_{mu mu} omega^mu_nu
  for(int m=0;m<4;++m) for(int n=0;n<4;++n) if(w[m][n]!=0){ auto A=mulC(gam(m),gam(n)),B=mulC(gam(n),gam(m)); for(int i=0;i<4;++i) for(int j=0;j<4;++j) r[i][j]+=0.125*g[m]*w[m][n]*(A[i][j]-B[i][j]); }
  return r; }
static CM expm(const CM& a,double t){ CM r(4,std::vector<C>(4)),p; for(int i=0;i<4;++i) r[i][i]=1; p=r; for(int n=1;n<40;++n){ p=mulC(p,a); for(auto& x:p) for(auto& y:x) y*=t/n; for(int i=0;i<4;++i) for(int j=0;j<4;++j) r[i][j]+=p[i][j]; } return r; }
static CM genVC(int k){ double w[4][4]; genV(k,w); CM r(4,std::vector<C>(4)); for(int i=0;i<4;++i) for(int j=0;j<4;++j) r[i][j]=w[i][j]; return r; }
static Expression cst(C z){ return z.imag()==0 ? Expression(z.real()) : Expression(z); }
// the 4x4 matrix of transformation `kind` in the vector / spinor representation, as Expressions.
// solving: 1 + eps*generator with eps nilpotent; replaying: the finite transformation exp(0.37*generator)
static Tensor rep(int kind,bool sp){
  Tensor r(Tensor::dim(4,4));
  if(kind==6){ for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) r(i,j)= sp ? el(Gamma[3],{i,j}) : Expression(i==j?(i<3?-1.:1.):0.); return r; }
  CM G = sp?genS(kind):genVC(kind);
  if( replaying() ){ CM X=expm(G,0.37); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) r(i,j)=cst(X[i][j]); return r; }
  Expression eps=Parameter("eps");
  for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression v = G[i][j]==C(0) ? Expression(0.) : cst(G[i][j])*eps; r(i,j)= i==j ? 1+v : v; }
  return r;
}
static Tensor apply(int kind,char c,const Tensor& t){
  if(c=='S') return t;
  if(c=='V'||spinor(c)){ Tensor m=rep(kind,spinor(c)); Tensor r(Tensor::dim(4)); for(unsigned i=0;i<4;++i){ Expression s=0; for(unsigned j=0;j<4;++j) s=s+el(m,{i,j})*t[j]; r[i]=s; } return r; }
  Tensor m1=rep(kind,false), m2=rep(kind,c!='T'); Tensor h(Tensor::dim(4,4)), r(Tensor::dim(4,4));
  for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0; for(unsigned k=0;k<4;++k) s=s+el(m1,{i,k})*el(t,{k,j}); h(i,j)=s; }
  for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0; for(unsigned k=0;k<4;++k) s=s+el(m2,{j,k})*el(h,{i,k}); r(i,j)=s; }
  return r;
}
static void cmp(PV& out,const Tensor& a,const Tensor& b,const std::string& lab,Expression f=1){
  if(a.size()!=b.size()){ out.push_back({Expression(1.),Expression(0.),lab+" size"}); return; }
  for(unsigned i=0;i<a.size();++i) out.push_back({a[i],f*b[i],lab+std::to_string(i)}); }

int main(int argc,char** argv){
  Harness H(argc,argv,"C06");
  std::vector<std::string> names; for(auto& kv : AmpGen::Factory<Vertex::Base>::getMe()->m_terms) names.push_back(kv.first);
  auto setup=[](Field& F){ F.subst["eps"]=F.extNum(F.nilpotent()); };
  auto pos=[]{ Tensor P=symVec("P"); return std::vector<Expression>{dot(P,P)}; };
  H.add("registry", [=]{ PV out; bool ok=names.size()>=60; for(auto& n:names) if(n.size()<6||n[1]!='_'||n[4]!='_'||!known(n[0])||!known(n[2])||!known(n[3])) ok=false; out.push_back({Expression(ok?1.:0.),Expression(1.),"registered vertices have a spin signature"}); return out; });
  // three-body vertices: a pseudovector made of the three momenta, or a scalar
  { auto N=[](const Tensor& p,const Tensor& q,const Tensor& r,unsigned J){ Tensor one({Expression(1.)},{1}); return Vertex::Factory::getSpinFactorNBody({{p,one},{q,one},{r,one}},J); };
    auto p1=[]{ return symVec("P1"); }; auto p2=[]{ return symVec("P2"); }; auto p3=[]{ return symVec("P3"); };
    for(int k=0;k<7;++k) H.add("nbody_vector_covariant_"+std::to_string(k),[=]{ PV out; cmp(out,N(apply(k,'V',p1()),apply(k,'V',p2()),apply(k,'V',p3()),1),apply(k,'V',N(p1(),p2(),p3(),1)),"component ",k==6?Expression(-1.):Expression(1.)); return out; },nullptr,setup);
    H.add("nbody_vector_transverse",[=]{ PV out; Tensor r=N(p1(),p2(),p3(),1); int w=0; for(auto& p : {p1(),p2(),p3()}){ Expression s=0; for(unsigned i=0;i<4;++i) s=s+g[i]*p[i]*r[i]; out.push_back({s,Expression(0.),"orthogonal to momentum "+std::to_string(++w)}); } return out; });
    H.add("nbody_vector_antisymmetric",[=]{ PV out; Tensor r=N(p1(),p2(),p3(),1); cmp(out,N(p2(),p1(),p3(),1),r,"12 ",Expression(-1.)); cmp(out,N(p1(),p3(),p2(),1),r,"23 ",Expression(-1.)); return out; });
    H.add("nbody_vector_nonzero",[=]{ PV out; Tensor x({Expression(1.),Expression(0.),Expression(0.),Expression(0.)},{4}),y({Expression(0.),Expression(1.),Expression(0.),Expression(0.)},{4}),t({Expression(0.),Expression(0.),Expression(0.),Expression(1.)},{4}); Tensor r=N(x,y,t,1); out.push_back({r[2]*r[2],Expression(1.),"unit volume"}); return out; });
    H.add("nbody_scalar",[=]{ PV out; Tensor r=N(p1(),p2(),p3(),0); out.push_back({Expression(double(r.size())),Expression(1.),"size"}); out.push_back({r[0],Expression(1.),"one"}); return out; }); }
  for( auto n : names ){
    if(n.size()<6||n[1]!='_'||n[4]!='_'||!known(n[0])||!known(n[2])||!known(n[3])) continue;
    char o=n[0], d1=n[2], d2=n[3]; std::string orb=n.substr(5);
    bool radiative = orb[0]=='r', chiral = orb.size()==2 && (orb[1]=='L'||orb[1]=='R');
    auto V=[=](const Tensor& P,const Tensor& Q,const Tensor& a,const Tensor& b){ return Vertex::Factory::getSpinFactor(P,Q,a,b,n); };
    int l = orb[0]=='S'?0:orb[0]=='P'?1:orb[0]=='D'?2:orb[0]=='F'?3:-1;
    bool reducible = l>=0 && !(chiral&&l>0);   // depends on Q only through Q mod P (its own goal below): Q_t=0 without loss of generality
    auto P=[]{ return symVec("P"); }; auto Qfull=[]{ return symVec("Q"); };
    auto Q=[=]{ Tensor q=symVec("Q"); if(reducible) q[3]=Expression(0.); return q; };
    H.add(n+"_shape",[=]{ PV out; Tensor r=V(P(),Q(),mk(d1,"a"),mk(d2,"b")); out.push_back({Expression(double(r.size())),Expression(double(sz(o))),"number of components"}); return out; });
    for(int k=0;k<(radiative?3:6);++k)
      H.add(n+"_covariant_"+std::string(k<3?"J":"K")+"xyz"[k%3], [=]{ PV out; Tensor a=mk(d1,"a"),b=mk(d2,"b"); 
        cmp(out, V(apply(k,'V',P()),apply(k,'V',Q()),apply(k,d1,a),apply(k,d2,b)), apply(k,o,V(P(),Q(),a,b)), "component "); return out; }, pos, setup);
    H.add(n+"_linear_1",[=]{ PV out; Tensor a=mk(d1,"a"),c=mk(d1,"c"),b=mk(d2,"b"); Expression k=sym("k"); Tensor r=V(P(),Q(),a+c*k,b),x=V(P(),Q(),a,b),y=V(P(),Q(),c,b); for(unsigned i=0;i<r.size();++i) out.push_back({r[i],x[i]+k*y[i],std::to_string(i)}); return out; },pos);
    H.add(n+"_linear_2",[=]{ PV out; Tensor a=mk(d1,"a"),c=mk(d2,"c"),b=mk(d2,"b"); Expression k=sym("k"); Tensor r=V(P(),Q(),a,b+c*k),x=V(P(),Q(),a,b),y=V(P(),Q(),a,c); for(unsigned i=0;i<r.size();++i) out.push_back({r[i],x[i]+k*y[i],std::to_string(i)}); return out; },pos);
    if(o=='V') H.add(n+"_transverse",[=]{ PV out; Tensor p=P(); Tensor r=V(p,Q(),mk(d1,"a"),mk(d2,"b")); Expression s=0; for(unsigned i=0;i<4;++i) s=s+g[i]*p[i]*r[i]; out.push_back({s,Expression(0.),"P.V"}); return out; },pos);
    if(o=='T') H.add(n+"_transverse",[=]{ PV out; Tensor p=P(); Tensor r=V(p,Q(),mk(d1,"a"),mk(d2,"b")); for(unsigned j=0;j<4;++j){ Expression s=0,t=0; for(unsigned i=0;i<4;++i){ s=s+g[i]*p[i]*el(r,{i,j}); t=t+g[i]*p[i]*el(r,{j,i}); } out.push_back({s,Expression(0.),"P.T"}); out.push_back({t,Expression(0.),"T.P"}); } return out; },pos);
    if(o=='T') H.add(n+"_symmetric_traceless",[=]{ PV out; Tensor r=V(P(),Q(),mk(d1,"a"),mk(d2,"b")); Expression s=0; for(unsigned i=0;i<4;++i){ s=s+g[i]*el(r,{i,i}); for(unsigned j=0;j<i;++j) out.push_back({el(r,{i,j}),el(r,{j,i}),"symmetric"}); } out.push_back({s,Expression(0.),"trace"}); return out; },pos);
    if(spinor(o)) H.add(n+"_dirac_equation",[=]{ PV out; Tensor p=P(); Tensor r=V(p,Q(),mk(d1,"a"),mk(d2,"b")); Tensor sl=slash(p); Expression m=fcn::sqrt(dot(p,p)); for(unsigned i=0;i<4;++i){ Expression s=0; for(unsigned j=0;j<4;++j) s=s+el(sl,{i,j})*r[j]; out.push_back({s,(o=='f'?1.:-1.)*m*r[i],std::to_string(i)}); } return out; },pos);
    if(o=='r'||o=='R') H.add(n+"_rarita_schwinger",[=]{ PV out; Tensor p=P(); Tensor r=V(p,Q(),mk(d1,"a"),mk(d2,"b")); Tensor sl=slash(p); Expression m=fcn::sqrt(dot(p,p));
        for(unsigned k=0;k<4;++k) for(unsigned i=0;i<4;++i){ Expression s=0; for(unsigned j=0;j<4;++j) s=s+el(sl,{i,j})*el(r,{k,j}); out.push_back({s,(o=='r'?1.:-1.)*m*el(r,{k,i}),"dirac equation"}); }
        for(unsigned i=0;i<4;++i){ Expression s=0,t=0; for(unsigned k=0;k<4;++k){ s=s+g[k]*p[k]*el(r,{k,i}); for(unsigned j=0;j<4;++j) t=t+g[k]*el(Gamma[k],{i,j})*el(r,{k,j}); } out.push_back({s,Expression(0.),"transverse"}); out.push_back({t,Expression(0.),"gamma trace"}); }
        return out; },pos);
    for(int w=1;w<=2;++w) H.add(n+"_phase_"+std::to_string(w),[=]{ PV out; Tensor a=mk(d1,"a"),b=mk(d2,"b"); Tensor r=V(P(),Q(),a,b), x= w==1 ? V(P(),Q(),times(a,I),b) : V(P(),Q(),a,times(b,I));
        bool rep=replaying(); double plus=0,minus=0; for(unsigned i=0;i<r.size();++i){ if(!rep){ randomise(r[i]); randomise(x[i]); } auto p=r[i](),q=x[i](); plus+=std::abs(q-C(0,1)*p); minus+=std::abs(q+C(0,1)*p); }
        double sg = plus<=minus ? 1 : -1; for(unsigned i=0;i<r.size();++i) out.push_back({x[i],(sg*I)*r[i],std::to_string(i)}); return out; },pos);
    if( reducible ) {
      H.add(n+"_degree",[=]{ PV out; Tensor a=mk(d1,"a"),b=mk(d2,"b"); Expression k=sym("k"),f=1; for(int i=0;i<l;++i) f=f*k; cmp(out,V(P(),Q()*k,a,b),V(P(),Q(),a,b),"component ",f); return out; },pos);
      H.add(n+"_transverse_relative_momentum",[=]{ PV out; Tensor a=mk(d1,"a"),b=mk(d2,"b"); Expression k=sym("k"); cmp(out,V(P(),Qfull()+P()*k,a,b),V(P(),Qfull(),a,b),"component "); return out; },pos);
    }
    // a pure D wave: harmonic in the relative momentum in the rest frame, sum of the values at the three unit vectors is zero
    if( l==2 && reducible ) H.add(n+"_harmonic",[=]{ PV out; Tensor a=mk(d1,"a"),b=mk(d2,"b"); Tensor p({Expression(0.),Expression(0.),Expression(0.),sym("P_t")},{4}); std::vector<Tensor> v; for(unsigned i=0;i<3;++i){ Tensor q({Expression(0.),Expression(0.),Expression(0.),Expression(0.)},{4}); q[i]=Expression(1.); v.push_back(V(p,q,a,b)); } for(unsigned i=0;i<v[0].size();++i) out.push_back({v[0][i]+v[1][i]+v[2][i],Expression(0.),std::to_string(i)}); return out; },nullptr,[](Field& F){ F.domain.push_back(F.var("P_t")>0); });
    // parity: natural parity of the spin tensors times (-1)^L
    if( l>=0 && !chiral && orb.size()==1 && !(spinor(d1)&&spinor(d2)) && !(d1=='T'&&spinor(d2)) ){
      auto nat=[](char c){ return c=='V'||c=='r'||c=='R' ? -1 : 1; };
      double eta = (l%2?-1:1)*nat(o)*nat(d1)*nat(d2);
      H.add(n+"_parity",[=]{ PV out; Tensor a=mk(d1,"a"),b=mk(d2,"b"); cmp(out, V(apply(6,'V',P()),apply(6,'V',Q()),apply(6,d1,a),apply(6,d2,b)), apply(6,o,V(P(),Q(),a,b)), "component ", Expression(eta)); return out; },pos);
    }
  }
  return H.run();
}
