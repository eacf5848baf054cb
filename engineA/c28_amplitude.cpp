// C28: the amplitude of a decay tree: propagators, momenta, spin factors, modifiers; covariant and canonical formalism.
#include "harness.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/Wigner.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/DiracMatrices.h"
using namespace AmpGen; using namespace va; typedef std::vector<Pair> PV; typedef std::vector<std::string> SV; typedef std::map<std::string,double> VM;
static void option(const std::string& n,const std::string& v){ auto& m=OptionsParser::getMe()->m_parsedLines; if(v=="") m.erase(n); else m[n]={n,v}; }
// puts expressions in the place of parameters, everywhere in a tree
static void substitute(Expression& root,const std::map<std::string,Expression>& m){ std::set<const IExpression*> seen; std::vector<Expression*> st{&root};
  while(!st.empty()){ Expression* e=st.back(); st.pop_back(); IExpression* p=e->get(); if(auto q=dynamic_cast<Parameter*>(p)){ auto it=m.find(q->name()); if(it!=m.end()) *e=it->second; continue; } if(!seen.insert(p).second) continue;
    if(auto x=dynamic_cast<SubTree*>(p)) st.push_back(&x->m_expression); else if(auto x=dynamic_cast<Ternary*>(p)){ st.push_back(&x->m_cond); st.push_back(&x->m_v1); st.push_back(&x->m_v2); } else if(auto x=dynamic_cast<IBinaryExpression*>(p)){ st.push_back(&x->lval); st.push_back(&x->rval); } else if(auto x=dynamic_cast<IUnaryExpression*>(p)) st.push_back(&x->m_expression); } }
static const char* PX[4]={"_Px","_Py","_Pz","_E"};
static Tensor mom(int i){ std::vector<Expression> v; for(int k=0;k<4;++k) v.push_back(Parameter(std::to_string(i)+PX[k])); return Tensor(v,Tensor::dim(4)); }
static Expression dt(const Tensor& a,const Tensor& b){ return a[3]*b[3]-a[0]*b[0]-a[1]*b[1]-a[2]*b[2]; }
// written down independently: momenta, vertices and lineshapes of a tree
static Tensor Pof(const Particle& p){ if(p.isStable()) return mom(p.index()); Tensor r=Pof(*p.daughter(0)); for(size_t i=1;i<p.daughters().size();++i){ Tensor q=Pof(*p.daughter(i)); std::vector<Expression> v; for(int k=0;k<4;++k) v.push_back(r[k]+q[k]); r=Tensor(v,Tensor::dim(4)); } return r; }
static char letter(const Particle& p){ int j=p.props()->twoSpin(); bool anti=p.props()->pdgID()<0; switch(j){ case 0: return 'S'; case 2: return 'V'; case 4: return 'T'; case 1: return anti?'F':'f'; case 3: return anti?'R':'r'; } return '?'; }
static Tensor spin(const Particle& p){ if(p.isStable()) return p.externalSpinTensor(p.polState()); if(p.daughters().size()==1) return spin(*p.daughter(0)); auto &a=*p.daughter(0),&b=*p.daughter(1); std::string v{letter(p),'_',letter(a),letter(b),'_',"SPDF"[p.L()]}; if(p.S()!=0) v+=std::to_string(int(p.S())); Tensor pa=Pof(a),pb=Pof(b); std::vector<Expression> q; for(int k=0;k<4;++k) q.push_back(pa[k]-pb[k]); return Vertex::Factory::getSpinFactor(Pof(p),Tensor(q,Tensor::dim(4)),spin(a),spin(b),v,nullptr); }
static Expression props(const Particle& p){ if(p.isStable()) return 1; Expression r=1; auto n=p.daughters().size(); if(n==2) r=Lineshape::Factory::get(p.lineshape(),p,nullptr); if(n==3) r=Lineshape::Factory::get(p.lineshape()=="BW"?"SBW":p.lineshape(),p,nullptr); if(n==1&&p.lineshape()!="BW"&&p.lineshape()!="FormFactor") r=Lineshape::Factory::get(p.lineshape(),p,nullptr); for(auto& d:p.daughters()) r=r*props(*d); return r; }
static Expression reference(const Particle& p,bool ls=true,bool sf=true){ Expression r=ls?props(p):Expression(1); if(!sf) return r; Tensor t=spin(p); int j=p.props()->twoSpin(); if(j==0) return r*t[0]; Tensor e=p.externalSpinTensor(p.polState()); Expression s=0; if(j==1){ static const double g0[4]={1,1,-1,-1}; for(int k=0;k<4;++k) s=s+g0[k]*fcn::conj(e[k])*t[k]; } else { static const double g[4]={-1,-1,-1,1}; for(int k=0;k<4;++k) s=s+g[k]*fcn::conj(e[k])*t[k]; } return r*s; }
struct T { const char* id; std::string d; SV fs; std::vector<int> pol; };
int main(int argc,char** argv){ Harness H(argc,argv,"C28");
  std::string N="[None]",ks="K*(892)bar0",rho="rho(770)0";
  // ---- trees
  std::vector<T> ts{ {"scalar","D0{K(0)*(1430)bar0[ExpFF]{K-,pi+},pi0}",{"K-","pi+","pi0"},{}}, {"vector","D0{"+ks+"[None]{K-,pi+},pi0}",{"K-","pi+","pi0"},{}}, {"vector_reordered","D0{"+ks+"[None]{K-,pi+},pi0}",{"pi0","K-","pi+"},{}}, {"tensor","D0{K(2)*(1430)bar0[None]{K-,pi+},pi0}",{"K-","pi+","pi0"},{}},
    {"vv_s","D0{"+ks+"[None]{K-,pi+},"+rho+"[None]{pi0,eta0}}",{"K-","pi+","pi0","eta0"},{}}, {"vv_p","D0[P]{"+ks+"[None]{K-,pi+},"+rho+"[None]{pi0,eta0}}",{"K-","pi+","pi0","eta0"},{}}, {"vv_d","D0[D]{"+ks+"[None]{K-,pi+},"+rho+"[None]{pi0,eta0}}",{"K-","pi+","pi0","eta0"},{}},
    {"axial_s","D0{K(1)(1270)bar0[None]{"+ks+"[None]{K-,pi+},pi0},eta0}",{"K-","pi+","pi0","eta0"},{}}, {"axial_d","D0{K(1)(1270)bar0[D;None]{"+ks+"[None]{K-,pi+},pi0},eta0}",{"K-","pi+","pi0","eta0"},{}}, {"quasi","D0{NonResV0{"+ks+"[None]{K-,pi+}},pi0}",{"K-","pi+","pi0"},{}} };
  for(auto& t:ts) if(t.d.find("D0{")==0) t.d="D0[None]"+t.d.substr(2); else t.d.insert(4,";None");
  std::vector<T> pol{ {"fermion","Lambda(c)+[None]{p+,"+ks+"[None]{K-,pi+}}",{"p+","K-","pi+"},{1,1}}, {"fermion_minus","Lambda(c)+[None]{p+,"+ks+"[None]{K-,pi+}}",{"p+","K-","pi+"},{-1,1}}, {"vector_head","phi(1020)0[None]{K+,K-}",{"K+","K-"},{1}}, {"vector_head_0","phi(1020)0[None]{K+,K-}",{"K+","K-"},{0}}, {"vector_head_minus","phi(1020)0[None]{"+ks+"[None]{K-,pi+},pi0}",{"K-","pi+","pi0"},{-1}} };
  auto make=[](const T& t,const char* mod=""){ auto p=std::make_shared<Particle>(t.d,t.fs); if(*mod) p->addModifier(mod); return p; };
  std::vector<T> shaped{ {"shape_chain","D0[ExpFF]{K(1)(1270)bar0[ExpFF]{"+ks+"[ExpFF]{K-,pi+},pi0},eta0}",{"K-","pi+","pi0","eta0"},{}}, {"shape_pair","D0[ExpFF]{"+ks+"[ExpFF]{K-,pi+},"+rho+"[ExpFF]{pi0,eta0}}",{"K-","pi+","pi0","eta0"},{}}, {"shape_three","D0[ExpFF]{omega(782)0[ExpFF]{K-,pi+,pi0},eta0}",{"K-","pi+","pi0","eta0"},{}}, {"shape_three_scalar","D0[BgSpin0;ExpFF]{eta0[ExpFF]{K-,pi+,pi0},eta0}",{"K-","pi+","pi0","eta0"},{}}, {"shape_single","D0[ExpFF]{NonResV0{"+ks+"[ExpFF]{K-,pi+}},pi0}",{"K-","pi+","pi0"},{}}, {"shape_single_bw","D0[ExpFF]{NonResV0[BW]{"+ks+"[ExpFF]{K-,pi+}},pi0}",{"K-","pi+","pi0"},{}}, {"shape_fixed","D0[None]{"+ks+"[ExpFF]{K-,pi+},pi0}",{"K-","pi+","pi0"},{}} };
  for(auto& t:shaped) H.add("propagator_"+std::string(t.id),[=]{ PV out; auto p=make(t); out.push_back({p->propagator(),props(*p),t.d}); return out; });
  auto all=ts; all.push_back(shaped[0]); all.push_back(shaped[1]); all.push_back(shaped[4]); all.insert(all.end(),pol.begin(),pol.end());
  static const int V0[4][4]={{1,2,-1,4},{-1,1,3,5},{2,-1,1,3},{-2,1,1,6}};
  // only the momentum of one particle is symbolic, the others are fixed
  auto hold=[](Field& F,int n,int open){ for(int i=0;i<n;++i) if(i!=open) for(int k=0;k<4;++k){ auto nm=std::to_string(i)+PX[k]; F.subst[nm]=F.fromRat(V0[i][k]); F.sample[nm]=V0[i][k]; } };
  auto held=[](int n,int open){ return [=](VM& m){ for(int i=0;i<n;++i) if(i!=open) for(int k=0;k<4;++k) m[std::to_string(i)+PX[k]]=V0[i][k]; }; };
  auto heavy=[](const T& t){ std::string i=t.id; return i=="tensor"||i=="vv_d"||i=="axial_d"; };
  for(auto& t:all) if(heavy(t)) for(int o=0;o<(int)t.fs.size();++o) H.add("product_"+std::string(t.id)+"_"+std::to_string(o),[=]{ PV out; auto p=make(t); Expression a=p->getExpression(nullptr,t.pol); out.push_back({a,reference(*p),t.d}); return out; },nullptr,[=](Field& F){ hold(F,t.fs.size(),o); },held(t.fs.size(),o)); else H.add("product_"+std::string(t.id),[=]{ PV out; auto p=make(t); Expression a=p->getExpression(nullptr,t.pol); out.push_back({a,reference(*p),t.d}); return out; });
  for(auto& t:ts) H.add("momenta_"+std::string(t.id),[=]{ PV out; auto p=make(t); std::function<void(const Particle&)> go=[&](const Particle& q){ Tensor P=Pof(q),a=q.P(); for(int k=0;k<4;++k) out.push_back({a[k],P[k],q.name()+" momentum"}); if(q.isStable()) out.push_back({q.massSq(),q.mass()*q.mass(),"mass of a stable particle"}); else out.push_back({q.massSq(),dt(P,P),"mass of "+q.name()}); if(q.daughters().size()==2){ Tensor Q=q.Q(),x=Pof(*q.daughter(0)),y=Pof(*q.daughter(1)); for(int k=0;k<4;++k) out.push_back({Q[k],x[k]-y[k],q.name()+" relative momentum"}); } for(auto& d:q.daughters()) go(*d); }; go(*p); return out; });
  // ---- Lorentz invariance: infinitesimal transformations (finite ones in replays)
  auto transformed=[](Expression& e,int n,int kind){ std::map<std::string,Expression> m; double t=0.37; for(int i=0;i<n;++i){ Tensor p=mom(i); std::vector<Expression> v{p[0],p[1],p[2],p[3]},o=v; int a=(kind+1)%3,b=(kind+2)%3; if(kind>=3){ a=kind-3; b=3; } if(replaying()){ double c=kind<3?cos(t):cosh(t),s=kind<3?sin(t):sinh(t); o[a]=c*v[a]+(kind<3?-s:s)*v[b]; o[b]=c*v[b]+s*v[a]; } else { Expression eps=Parameter("eps"); o[a]=v[a]+(kind<3?-1.:1.)*eps*v[b]; o[b]=v[b]+eps*v[a]; } for(int k=0;k<4;++k) m[std::to_string(i)+PX[k]]=o[k]; } substitute(e,m); };
  auto nil=[](Field& F){ F.subst["eps"]=F.extNum(F.nilpotent()); };
  static const char* G[]={"rx","ry","rz","bx","by","bz"};
  for(auto& t:ts) for(int k=0;k<6;++k){ if(heavy(t)){ for(int o=0;o<(int)t.fs.size();++o){ if(H.quick&&(o+k)%3) continue; H.add("invariant_"+std::string(t.id)+"_"+G[k]+std::to_string(o),[=]{ PV out; Expression a=make(t)->getExpression(),b=make(t)->getExpression(); transformed(b,t.fs.size(),k); out.push_back({a,b,t.d}); return out; },nullptr,[=](Field& F){ nil(F); hold(F,t.fs.size(),o); },held(t.fs.size(),o)); } continue; } if(H.quick&&(k==0||k==1||k==4)) continue; H.add("invariant_"+std::string(t.id)+"_"+G[k],[=]{ PV out; Expression a=make(t)->getExpression(),b=make(t)->getExpression(); transformed(b,t.fs.size(),k); out.push_back({a,b,t.d}); return out; },nullptr,nil); }
  // ---- known angular distributions, in terms of invariants
  auto zem=[](Tensor p1,Tensor p2,Tensor p3,Expression& wv,Expression& ww,Expression& vv,Expression& extra){ auto lin=[](std::vector<std::pair<Expression,Tensor>> x){ std::vector<Expression> o; for(int k=0;k<4;++k){ Expression s=0; for(auto& y:x) s=s+y.first*y.second[k]; o.push_back(s); } return Tensor(o,Tensor::dim(4)); }; Tensor R=lin({{1,p1},{1,p2}}),D=lin({{1,p1},{-1,p2}}),M=lin({{1,R},{1,p3}}),Q=lin({{1,R},{-1,p3}}); Tensor v=lin({{1,Q},{-1*dt(Q,M)/dt(M,M),M}}); Expression m2=dt(R,R),dR=dt(D,R),vR=dt(v,R); wv=dt(D,v)-dR*vR/m2; ww=dt(D,D)-dR*dR/m2; vv=dt(v,v)-vR*vR/m2; Expression wM=dt(D,M)-dR*dt(R,M)/m2,MM=dt(M,M)-dt(R,M)*dt(R,M)/m2; extra=dt(v,v)/(3*dt(M,M))*(wM*wM-ww*MM/3); };
  auto fixedPoint=[](Expression& e,int n){ static const double V[4][4]={{1,2,-1,4},{-1,1,3,5},{2,-1,1,3},{-2,1,1,6}}; std::map<std::string,Expression> m; for(int i=0;i<n;++i) for(int k=0;k<4;++k) m[std::to_string(i)+PX[k]]=Expression(Constant(V[i][k])); substitute(e,m); };
  for(int L=1;L<3;++L) for(int o=0;o<(L==1?1:3);++o) H.add("zemach_"+std::to_string(L)+(L==1?"":std::to_string(o)),[=]{ PV out; const T& t=L==0?ts[0]:L==1?ts[1]:ts[3]; auto Z=[&]{ Expression wv,ww,vv,ex; zem(mom(0),mom(1),mom(2),wv,ww,vv,ex); return L==1?wv:wv*wv-ww*vv/3+ex; }; Expression a=make(t)->getExpression(),b=make(t)->getExpression(),z=Z(),y=Z(); fixedPoint(b,3); fixedPoint(y,3); out.push_back({a*y,b*z,t.d}); return out; },nullptr,[=](Field& F){ if(L==2) hold(F,3,o); },[=](VM& m){ if(L==2) held(3,o)(m); });
  // ---- modifiers
  for(auto& t:{ts[1],ts[5]}){ H.add("no_spin_"+std::string(t.id),[=]{ PV out; T u=t; u.d="D0[BgSpin0;None]"+u.d.substr(u.d.find('{')); size_t i=u.d.find("K*(892)bar0[None]"); if(i!=std::string::npos) u.d.replace(i+11,6,"[ExpFF]"); auto p=make(u); out.push_back({p->getExpression(),reference(*p,true,false),u.d}); return out; }); }
  // ---- canonical formalism, in the rest frame of the parent
  auto canonical=[=](const T& t){ option("Particle::SpinFormalism","Canonical"); Particle p(t.d,t.fs); Expression e=p.getExpression(nullptr,t.pol); option("Particle::SpinFormalism",""); return e; };
  auto rest=[](Expression& e,int n){ std::map<std::string,Expression> m; for(int k=0;k<3;++k){ Expression s=0; for(int i=0;i+1<n;++i) s=s-Parameter(std::to_string(i)+PX[k]); m[std::to_string(n-1)+PX[k]]=s; } substitute(e,m); };
  auto cosv=[=](Expression& c,Expression& s){ Expression wv,ww,vv,ex; zem(mom(0),mom(1),mom(2),wv,ww,vv,ex); c=wv*wv; s=ww*vv; };
  auto sample=[](Field& F){ static const double S[4][4]={{.3,.2,-.4,.75},{-.1,.3,.2,.55},{.25,-.35,.15,.6},{-.45,-.15,.05,.7}}; for(int i=0;i<4;++i) for(int k=0;k<4;++k){ auto n=std::to_string(i)+PX[k]; if(!F.sample.count(n)) F.sample[n]=S[i][k]; } };
  // the resonance moves along a fixed direction with rational momentum, energy and mass; its first daughter has any momentum
  struct FR { const char* id; int p[4]; }; static const FR fr[]={{"oblique",{3,4,12,85}},{"up",{0,0,3,5}},{"down",{0,0,-3,5}},{"transverse",{-4,3,0,13}},{"back",{-3,-4,-12,85}}};
  auto frame=[](Expression& e,const FR& f,int a,int b,int sgn){ std::map<std::string,Expression> m; for(int k=0;k<4;++k){ double v=(k<3?sgn:1)*f.p[k]; if(b<0) m[std::to_string(a)+PX[k]]=Expression(Constant(v)); else m[std::to_string(b)+PX[k]]=Constant(v)-Parameter(std::to_string(a)+PX[k]); } substitute(e,m); };
  for(auto& f:fr) for(int J=1;J<3;++J) H.add("canonical_"+std::string(J==1?"vector_":"tensor_")+f.id,[=]{ PV out; auto put=[&](Expression e){ frame(e,f,0,1,1); frame(e,f,2,-1,-1); return e; }; Expression a=put(canonical(ts[J==1?1:3])); Expression c,s; cosv(c,s); c=put(c); s=put(s); if(J==1) out.push_back({a*a*s,c,"cosine of the helicity angle"}); else out.push_back({4*a*a*s*s,(3*c-s)*(3*c-s),"second Legendre polynomial of the helicity angle"}); return out; },nullptr,[=](Field& F){ sample(F); });
  // two vectors in S, P and D wave: n1.n2, z.(n1 x n2) and 3 (n1.z)(n2.z) - n1.n2 of the directions of the decay products in the rest frames
  struct F2 { const char* id; int p[3],e1,m1,e2,m2,h[2][4]; }; static const F2 f2[]={{"oblique",{3,4,12},85,84,85,84,{{88,9,144,12},{55,-35,12,923}}},{"up",{0,0,3},5,4,5,4,{{1,2,-1,4},{2,-1,1,3}}},{"down",{0,0,-12},13,5,37,35,{{3,4,-12,8},{4,-3,0,35}}},{"transverse",{-4,3,0},13,12,13,12,{{1,2,-1,4},{2,-1,1,3}}}};
  for(auto& f:f2) for(int o=0;o<2;++o) for(int a=0;a<3;++a) for(int b=a;b<3;++b){ static const char* W="spd"; if((a==1&&b>0)||(H.quick&&a==2&&(o||&f!=f2))) continue; H.add("canonical_vv_"+std::string(1,W[a])+W[b]+"_"+f.id+"_"+(o?"2":"1"),[=]{ PV out; auto put=[&](Expression e){ std::map<std::string,Expression> m; for(int k=0;k<4;++k){ m[std::string("1")+PX[k]]=Constant(k<3?f.p[k]:f.e1)-Parameter(std::string("0")+PX[k]); m[std::string("3")+PX[k]]=Constant(k<3?-f.p[k]:f.e2)-Parameter(std::string("2")+PX[k]); } substitute(e,m); return e; };
      auto A=[&](int w){ return put(canonical(ts[4+w])); }; double P=std::sqrt(double(f.p[0]*f.p[0]+f.p[1]*f.p[1]+f.p[2]*f.p[2])); auto rest=[&](int i,int sgn,double e,double m){ Tensor q=mom(i); Expression l=0; for(int k=0;k<3;++k) l=l+q[k]*f.p[k]; l=l/P; Expression L=(e*l-sgn*P*q[3])/m; std::vector<Expression> r; for(int k=0;k<3;++k) r.push_back(q[k]+(L-l)*(f.p[k]/P)); r.push_back(L); return r; }; auto q1=rest(0,1,f.e1,f.m1),q2=rest(2,-1,f.e2,f.m2); auto d3=[](const std::vector<Expression>& x,const std::vector<Expression>& y){ return x[0]*y[0]+x[1]*y[1]+x[2]*y[2]; };
      auto X=[&](int w){ if(w==0) return d3(q1,q2); if(w==2) return 3*q1[3]*q2[3]-d3(q1,q2); Expression c=0; for(int k=0;k<3;++k) c=c+f.p[k]*(q1[(k+1)%3]*q2[(k+2)%3]-q1[(k+2)%3]*q2[(k+1)%3]); return Expression(c/P); }; static const double K2[]={3,2,6}; Expression l=fcn::sqrt(Expression(K2[a]*K2[b]))*A(a)*fcn::conj(A(b))*d3(q1,q1)*d3(q2,q2),r=X(a)*X(b); if(a!=b&&(a==1||b==1)) r=r*Expression(std::complex<double>(0,1)); out.push_back({l,(b-a==2?-1:1)*r,"waves"}); return out; },nullptr,[=](Field& F){ for(int k=0;k<4;++k){ auto n=std::string(o?"0":"2")+PX[k]; F.subst[n]=F.fromRat(f.h[o?0:1][k]); F.sample[n]=f.h[o?0:1][k]; } sample(F); },[=](VM& m){ for(int k=0;k<4;++k) m[std::string(o?"0":"2")+PX[k]]=f.h[o?0:1][k]; }); }
  // spin one half: sums over the polarisations
  auto heavyProton=[]{ const_cast<ParticleProperties*>(ParticlePropertiesList::get("p+"))->m_mass=84000; };
  for(auto& f:{fr[0],fr[4]}) for(int w=0;w<2;++w) H.add("canonical_unpolarised_"+std::string(w?"p_":"s_")+f.id,[=]{ PV out; heavyProton(); Expression sum=0; for(int M:{-1,1}) for(int m:{-1,1}){ Expression a=canonical({"",std::string(w?"Lambda(c)+[P;None]":"Lambda(c)+[None]")+"{p+,"+ks+"[None]{K-,pi+}}",{"K-","pi+","p+"},{M,0,0,m}}); frame(a,f,0,1,1); frame(a,f,2,-1,-1); sum=sum+a*fcn::conj(a); } out.push_back({3*sum,Expression(1),"an unpolarised decay with total spin one half is isotropic"}); return out; },nullptr,[=](Field& F){ sample(F); });
  // a total spin written in the descriptor: 2S as the second character of the modifier
  for(auto& f:{fr[0],fr[4]}) for(int w=0;w<3;++w){ static const char* WS[]={"S1","P1","P3"}; H.add("canonical_total_spin_"+std::string(WS[w])+"_"+f.id,[=]{ PV out; heavyProton(); Expression sum=0; for(int M:{-1,1}) for(int m:{-1,1}){ Expression a=canonical({"","Lambda(c)+["+std::string(WS[w])+";None]{p+,"+ks+"[None]{K-,pi+}}",{"K-","pi+","p+"},{M,0,0,m}}); frame(a,f,0,1,1); frame(a,f,2,-1,-1); sum=sum+a*fcn::conj(a); }
      double P=std::sqrt(double(f.p[0]*f.p[0]+f.p[1]*f.p[1]+f.p[2]*f.p[2])),mm=std::sqrt(f.p[3]*f.p[3]-P*P); Tensor q=mom(0); Expression l=0,qq=0; for(int k=0;k<3;++k){ l=l+q[k]*f.p[k]; qq=qq+q[k]*q[k]; } l=l/P; Expression L=(f.p[3]*l-P*q[3])/mm; qq=qq-l*l+L*L; out.push_back({6*sum*qq,w==2?qq+3*L*L:2*qq,"intensity in the helicity angle"}); return out; },nullptr,[=](Field& F){ sample(F); }); }
  for(auto& f:{fr[0],fr[4]}) for(int M:{-1,1}) H.add("canonical_polarised_"+std::string(M==1?"up_":"down_")+f.id,[=]{ PV out; heavyProton(); Expression ss=0,pp=0,sp=0; for(int m:{-1,1}){ auto A=[&](const char* L){ Expression a=canonical({"",std::string("Lambda(c)+[")+L+"]{p+,pi0}",{"p+","pi0"},{M,m}}); frame(a,f,0,-1,1); frame(a,f,1,-1,-1); return a; }; Expression a=A("S;None"),b=A("P;None"); ss=ss+a*fcn::conj(a); pp=pp+b*fcn::conj(b); sp=sp+a*fcn::conj(b); } out.push_back({2*ss,Expression(1),"S wave is isotropic"}); out.push_back({2*pp,Expression(1),"P wave is isotropic"}); out.push_back({26*sp,Expression(double(-M*f.p[2])),"interference"}); return out; },nullptr,[=](Field& F){ sample(F); });
  // a cascade: axial vector to vector in S and D wave, frames reached by successive pure boosts
  struct F3 { const char* id; int k[4],m; }; static const F3 f3[]={{"oblique",{3,4,12,85},84},{"transverse",{-4,3,0,13},12},{"along",{0,0,-12,13},5}};
  for(auto& f:f3) for(int a=0;a<2;++a) for(int b=a;b<2;++b) H.add("canonical_cascade_"+std::string(a?"d":"s")+(b?"d_":"s_")+f.id,[=]{ PV out; double kz=1.25*f.k[2]+0.75*f.k[3],ke=1.25*f.k[3]+0.75*f.k[2],K[4]={double(f.k[0]),double(f.k[1]),kz,ke},P[4]={0,0,3,5}; auto A=[&](int w){ Expression e=canonical(ts[7+w]); std::map<std::string,Expression> m; for(int i=0;i<4;++i){ m[std::string("1")+PX[i]]=Constant(K[i])-Parameter(std::string("0")+PX[i]); m[std::string("2")+PX[i]]=Expression(Constant(P[i]-K[i])); m[std::string("3")+PX[i]]=Expression(Constant(i<3?-P[i]:P[i])); } substitute(e,m); return e; };
      Tensor p=mom(0); std::vector<Expression> r{p[0],p[1],1.25*p[2]-0.75*p[3],1.25*p[3]-0.75*p[2]}; Expression kp=0; for(int i=0;i<3;++i) kp=kp+double(f.k[i])*r[i]; std::vector<Expression> q; for(int i=0;i<3;++i) q.push_back(r[i]+double(f.k[i])*(kp/double(f.m*(f.k[3]+f.m))-r[3]/double(f.m))); Expression qq=q[0]*q[0]+q[1]*q[1]+q[2]*q[2],qk=0; double kk=0; for(int i=0;i<3;++i){ qk=qk+double(f.k[i])*q[i]; kk+=f.k[i]*f.k[i]; } auto X=[&](int w){ return w?Expression(3*qk*double(f.k[2])/kk-q[2]):q[2]; }; static const double N2[]={3,6}; out.push_back({fcn::sqrt(Expression(N2[a]*N2[b]))*A(a)*fcn::conj(A(b))*qq,(a!=b?-1:1)*X(a)*X(b),"waves"}); return out; },nullptr,[=](Field& F){ sample(F); });
  return H.run(); }
