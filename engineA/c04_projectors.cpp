// C04: spin projectors and orbital tensors.
#include "harness.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/DiracMatrices.h"
using namespace AmpGen; using namespace va;
static const double g[4]={-1,-1,-1,1};
static std::vector<Expression> posP(const Tensor& P){ return { dot(P,P) }; }
typedef std::vector<Pair> PV;
#define PAIRS(...) [=]{ PV out; __VA_ARGS__; return out; }
// plain (metric-free) reference algebra on element arrays
struct M4 { Expression e[4][4]; };
static M4 mat(const Tensor& t){ M4 m; for(int i=0;i<4;++i) for(int j=0;j<4;++j) m.e[i][j]=t(i,j); return m; }
static M4 mm(const M4& a,const M4& b){ M4 r; for(int i=0;i<4;++i) for(int j=0;j<4;++j){ Expression s=0; for(int k=0;k<4;++k) s=s+a.e[i][k]*b.e[k][j]; r.e[i][j]=s; } return r; }
static Expression mdot(const Tensor& a,const Tensor& b){ Expression s=0; for(int i=0;i<4;++i) s=s+g[i]*a[i]*b[i]; return s; }
static Expression E1(const Tensor& t, unsigned i){ return t[t.coords(i)]; }
static Expression el(const Tensor& t, std::vector<unsigned> c){ return t[c]; }
static std::string L(int i,int j=-1,int k=-1,int l=-1){ return std::to_string(i)+(j<0?"":","+std::to_string(j))+(k<0?"":","+std::to_string(k))+(l<0?"":","+std::to_string(l)); }

int main(int argc,char** argv){
  Harness H(argc,argv,"C04");
  auto P=[]{ return symVec("P"); }; auto Q=[]{ return symVec("Q"); };
  auto pos=[=]{ return posP(P()); };
  // ---- spin 1
  H.add("spin1_value_on_vectors", PAIRS( Tensor p=P(); Tensor v=symVec("v"); Tensor S=Spin1Projector(p);
      Expression p2=mdot(p,p), pv=mdot(p,v);
      for(unsigned i=0;i<4;++i){ Expression s=0; for(unsigned j=0;j<4;++j) s=s+el(S,{i,j})*g[j]*v[j]; out.push_back({s, v[i]-p[i]*pv/p2, L(i)}); } ), pos);
  H.add("spin1_symmetric", PAIRS( Tensor S=Spin1Projector(P()); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<i;++j) out.push_back({el(S,{i,j}),el(S,{j,i}),L(i,j)}); ), pos);
  H.add("spin1_transverse", PAIRS( Tensor p=P(); Tensor S=Spin1Projector(p); for(unsigned i=0;i<4;++i){ Expression s=0; for(unsigned j=0;j<4;++j) s=s+el(S,{i,j})*g[j]*p[j]; out.push_back({s,Expression(0.),L(i)}); } ), pos);
  H.add("spin1_idempotent", PAIRS( Tensor S=Spin1Projector(P()); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0; for(unsigned k=0;k<4;++k) s=s+el(S,{i,k})*g[k]*el(S,{k,j}); out.push_back({s,el(S,{i,j}),L(i,j)}); } ), pos);
  H.add("spin1_trace_is_3", PAIRS( Tensor S=Spin1Projector(P()); Expression s=0; for(unsigned k=0;k<4;++k) s=s+el(S,{k,k})*g[k]; out.push_back({s,Expression(3.),"trace"}); ), pos);
  // ---- spin 2
  H.add("spin2_transverse", PAIRS( Tensor p=P(); Tensor S=Spin2Projector(p); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) for(unsigned k=0;k<4;++k){ Expression a=0,b=0; for(unsigned l=0;l<4;++l){ a=a+el(S,{i,j,k,l})*g[l]*p[l]; b=b+el(S,{l,i,j,k})*g[l]*p[l]; } out.push_back({a,Expression(0.),L(i,j,k)}); out.push_back({b,Expression(0.),L(i,j,k)}); } ), pos);
  H.add("spin2_symmetric", PAIRS( Tensor S=Spin2Projector(P()); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) for(unsigned k=0;k<4;++k) for(unsigned l=0;l<4;++l){ out.push_back({el(S,{i,j,k,l}),el(S,{j,i,k,l}),L(i,j,k,l)}); out.push_back({el(S,{i,j,k,l}),el(S,{i,j,l,k}),L(i,j,k,l)}); out.push_back({el(S,{i,j,k,l}),el(S,{k,l,i,j}),L(i,j,k,l)}); } ), pos);
  H.add("spin2_traceless", PAIRS( Tensor S=Spin2Projector(P()); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression a=0,b=0; for(unsigned k=0;k<4;++k){ a=a+el(S,{i,j,k,k})*g[k]; b=b+el(S,{k,k,i,j})*g[k]; } out.push_back({a,Expression(0.),L(i,j)}); out.push_back({b,Expression(0.),L(i,j)}); } ), pos);
  for(unsigned i=0;i<4;++i) for(unsigned j=i;j<4;++j)
  H.add("spin2_idempotent_"+std::to_string(i)+std::to_string(j), PAIRS( Tensor S=Spin2Projector(P()); for(unsigned k=0;k<4;++k) for(unsigned l=k;l<4;++l){ Expression s=0; for(unsigned m=0;m<4;++m) for(unsigned n=0;n<4;++n) s=s+el(S,{i,j,m,n})*(g[m]*g[n])*el(S,{m,n,k,l}); out.push_back({s,el(S,{i,j,k,l}),L(i,j,k,l)}); } ), pos);
  H.add("spin2_trace_is_5", PAIRS( Tensor S=Spin2Projector(P()); Expression s=0; for(unsigned k=0;k<4;++k) for(unsigned l=0;l<4;++l) s=s+el(S,{k,l,k,l})*(g[k]*g[l]); out.push_back({s,Expression(5.),"trace"}); ), pos);
  // ---- spinor structures
  H.add("slash_squared", PAIRS( Tensor p=P(); M4 s=mat(slash(p)); M4 q=mm(s,s); Expression p2=mdot(p,p); for(int i=0;i<4;++i) for(int j=0;j<4;++j) out.push_back({q.e[i][j], i==j?p2:Expression(0.), L(i,j)}); ));
  H.add("slash_bilinear", PAIRS( Tensor p=P(); Tensor q=Q(); M4 a=mm(mat(slash(p)),mat(slash(q))), b=mm(mat(slash(q)),mat(slash(p))); Expression pq=mdot(p,q); for(int i=0;i<4;++i) for(int j=0;j<4;++j) out.push_back({a.e[i][j]+b.e[i][j], i==j?2*pq:Expression(0.), L(i,j)}); ));
  H.add("gamma_vector_elements", PAIRS( Tensor G=Gamma4Vec(); for(unsigned m=0;m<4;++m) for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) out.push_back({el(G,{m,i,j}),el(Gamma[m],{i,j}),L(m,i,j)}); ));
  H.add("gamma_twiddle_transverse", PAIRS( Tensor p=P(); Tensor G=gamma_twiddle(p); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0; for(unsigned m=0;m<4;++m) s=s+el(G,{m,i,j})*g[m]*p[m]; out.push_back({s,Expression(0.),L(i,j)}); } ), pos);
  H.add("gamma_twiddle_square_is_3", PAIRS( Tensor G=gamma_twiddle(P()); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0; for(unsigned m=0;m<4;++m) for(unsigned k=0;k<4;++k) s=s+g[m]*el(G,{m,i,k})*el(G,{m,k,j}); out.push_back({s,Expression(i==j?3.:0.),L(i,j)}); } ), pos);
  H.add("bar_is_conjugate_times_gamma0", PAIRS( Tensor u=symTensor("u",{4},true); Tensor b=Bar(u); for(unsigned i=0;i<4;++i){ Expression s=0; for(unsigned k=0;k<4;++k) s=s+fcn::conj(u[k])*el(Gamma[3],{k,i}); out.push_back({b[i],s,L(i)}); } ));
  for(int anti=0; anti<2; ++anti){
    std::string n = anti?"bar":""; double sg=anti?-1:1;
    auto F=[=](const Tensor& p){ return anti?Spin1hbProjector(p):Spin1hProjector(p); };
    auto R=[=](const Tensor& p){ return anti?Spin3hbProjector(p):Spin3hProjector(p); };
    H.add("spin1h"+n+"_idempotent", PAIRS( M4 f=mat(F(P())); M4 q=mm(f,f); for(int i=0;i<4;++i) for(int j=0;j<4;++j) out.push_back({q.e[i][j],f.e[i][j],L(i,j)}); ), pos);
    H.add("spin1h"+n+"_dirac_equation", PAIRS( Tensor p=P(); M4 f=mat(F(p)); M4 q=mm(mat(slash(p)),f); Expression m=fcn::sqrt(mdot(p,p)); for(int i=0;i<4;++i) for(int j=0;j<4;++j) out.push_back({q.e[i][j],sg*m*f.e[i][j],L(i,j)}); ), pos);
    H.add("spin1h"+n+"_trace_is_2", PAIRS( M4 f=mat(F(P())); out.push_back({f.e[0][0]+f.e[1][1]+f.e[2][2]+f.e[3][3],Expression(2.),"trace"}); ), pos);
    // elements of the spin-3/2 projector: indices (mu,nu,a,b)
    H.add("spin3h"+n+"_transverse", PAIRS( Tensor p=P(); Tensor S=R(p); for(unsigned m=0;m<4;++m) for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0,t=0; for(unsigned k=0;k<4;++k){ s=s+el(S,{k,m,i,j})*g[k]*p[k]; t=t+el(S,{m,k,i,j})*g[k]*p[k]; } out.push_back({s,Expression(0.),L(m,i,j)}); out.push_back({t,Expression(0.),L(m,i,j)}); } ), pos);
    H.add("spin3h"+n+"_gamma_traceless", PAIRS( Tensor S=R(P()); for(unsigned m=0;m<4;++m) for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0,t=0; for(unsigned k=0;k<4;++k) for(unsigned c=0;c<4;++c){ s=s+g[k]*el(Gamma[k],{i,c})*el(S,{k,m,c,j}); t=t+g[k]*el(S,{m,k,i,c})*el(Gamma[k],{c,j}); } out.push_back({s,Expression(0.),L(m,i,j)}); out.push_back({t,Expression(0.),L(m,i,j)}); } ), pos);
    H.add("spin3h"+n+"_dirac_equation", PAIRS( Tensor p=P(); Tensor S=R(p); Tensor sl=slash(p); Expression m0=fcn::sqrt(mdot(p,p)); for(unsigned m=0;m<4;++m) for(unsigned n=0;n<4;++n) for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0; for(unsigned c=0;c<4;++c) s=s+el(sl,{i,c})*el(S,{m,n,c,j}); out.push_back({s,sg*m0*el(S,{m,n,i,j}),L(m,n,i,j)}); } ), pos);
    H.add("spin3h"+n+"_trace", PAIRS( Tensor S=R(P()); Expression s=0; for(unsigned m=0;m<4;++m) for(unsigned i=0;i<4;++i) s=s+g[m]*el(S,{m,m,i,i}); out.push_back({s,Expression(-4.),"trace"}); ), pos);
    // P.P = -P with the sign convention -g for the spatial metric of the physical components
    for(unsigned m=0;m<4;++m) for(unsigned n0=m;n0<4;++n0)
    H.add("spin3h"+n+"_idempotent_"+std::to_string(m)+std::to_string(n0), PAIRS( Tensor S=R(P()); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ Expression s=0; for(unsigned k=0;k<4;++k) for(unsigned c=0;c<4;++c) s=s+g[k]*el(S,{m,k,i,c})*el(S,{k,n0,c,j}); out.push_back({s,-el(S,{m,n0,i,j}),L(m,n0,i,j)}); } ), pos);
  }
  // ---- orbital tensors
  H.add("orbitalP_value", PAIRS( Tensor p=P(); Tensor q=Q(); Tensor l=Orbital_PWave(p,q); Expression p2=mdot(p,p),pq=mdot(p,q); for(unsigned i=0;i<4;++i) out.push_back({l[i],q[i]-p[i]*pq/p2,L(i)}); ), pos);
  H.add("orbitalP_transverse", PAIRS( Tensor p=P(); out.push_back({mdot(p,Orbital_PWave(p,Q())),Expression(0.),"P.L"}); ), pos);
  H.add("orbitalD_value", PAIRS( Tensor p=P(); Tensor q=Q(); Tensor D=Orbital_DWave(p,q); Expression p2=mdot(p,p),pq=mdot(p,q); std::vector<Expression> l(4); Expression l2=0; for(int i=0;i<4;++i){ l[i]=q[i]-p[i]*pq/p2; l2=l2+g[i]*l[i]*l[i]; }
      for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) out.push_back({el(D,{i,j}), l[i]*l[j]-l2/3.*((i==j?Expression(g[i]):Expression(0.))-p[i]*p[j]/p2), L(i,j)}); ), pos);
  H.add("orbitalD_transverse", PAIRS( Tensor p=P(); Tensor D=Orbital_DWave(p,Q()); for(unsigned i=0;i<4;++i){ Expression s=0,t=0; for(unsigned k=0;k<4;++k){ s=s+el(D,{i,k})*g[k]*p[k]; t=t+el(D,{k,i})*g[k]*p[k]; } out.push_back({s,Expression(0.),L(i)}); out.push_back({t,Expression(0.),L(i)}); } ), pos);
  H.add("orbitalD_symmetric_traceless", PAIRS( Tensor D=Orbital_DWave(P(),Q()); Expression s=0; for(unsigned i=0;i<4;++i){ s=s+g[i]*el(D,{i,i}); for(unsigned j=0;j<i;++j) out.push_back({el(D,{i,j}),el(D,{j,i}),L(i,j)}); } out.push_back({s,Expression(0.),"trace"}); ), pos);
  for(int l=1;l<=2;++l){
    auto orb=[=](const Tensor& p,const Tensor& q){ return l==1?Orbital_PWave(p,q):Orbital_DWave(p,q); };
    H.add("orbital"+std::to_string(l)+"_degree", PAIRS( Tensor p=P(); Tensor q=Q(); Expression k=sym("k"); Tensor a=orb(p,q*k), b=orb(p,q); for(unsigned i=0;i<a.size();++i) out.push_back({E1(a,i), (l==1?k:k*k)*E1(b,i), L(i)}); ), pos);
    H.add("orbital"+std::to_string(l)+"_depends_on_transverse_part", PAIRS( Tensor p=P(); Tensor q=Q(); Expression k=sym("k"); Tensor a=orb(p,q+p*k), b=orb(p,q); for(unsigned i=0;i<a.size();++i) out.push_back({E1(a,i), E1(b,i), L(i)}); ), pos);
    H.add("orbital"+std::to_string(l)+"_independent_of_parent_scale", PAIRS( Tensor p=P(); Tensor q=Q(); Expression k=sym("k"); Tensor a=orb(p*k,q), b=orb(p,q); for(unsigned i=0;i<a.size();++i) out.push_back({E1(a,i), E1(b,i), L(i)}); ), pos);
  }
  H.add("orbitalD_is_spin2_projection", PAIRS( Tensor p=P(); Tensor q=Q(); Tensor D=Orbital_DWave(p,q); Tensor S=Spin2Projector(p); for(unsigned i=0;i<4;++i) for(unsigned j=i;j<4;++j){ Expression s=0; for(unsigned k=0;k<4;++k) for(unsigned l=0;l<4;++l) s=s+el(S,{i,j,k,l})*(g[k]*g[l])*q[k]*q[l]; out.push_back({el(D,{i,j}),s,L(i,j)}); } ), pos);
  return H.run();
}
