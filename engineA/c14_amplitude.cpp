// C14: amplitudes of decays with identical particles are (anti)symmetric under their exchange.
#include "harness.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
using namespace AmpGen; using namespace va; typedef std::vector<Pair> PV;
static void renameParameters(const Expression& e,const std::map<std::string,std::string>& m){ std::set<const IExpression*> seen; std::vector<Expression> st{e}; while(!st.empty()){ Expression x=st.back(); st.pop_back(); if(!seen.insert(x.get()).second) continue; if(auto q=dynamic_cast<const Parameter*>(x.get())){ auto n=q->name(); auto it=m.find(n.substr(0,n.find("_P"))); if(n.find("_E")!=std::string::npos) it=m.find(n.substr(0,n.find("_E"))); if(it!=m.end()&&isdigit(n[0])) const_cast<Parameter*>(q)->m_name=it->second+n.substr(n.find("_")); } for(auto& c:children(x)) st.push_back(c); } }
int main(int argc,char** argv){ Harness H(argc,argv,"C14");
  struct T { const char* id; std::string d; std::vector<std::string> fs; std::vector<int> pol; bool fermion; std::vector<std::vector<int>> groups; };
  std::string rho="rho(770)0[None]{pi+,pi-}";
  std::vector<T> ts{ {"two_bosons","D+[None]{"+rho+",pi+}",{"pi+","pi+","pi-"},{},false,{{0,1}}}, {"two_bosons_order","D+[None]{"+rho+",pi+}",{"pi-","pi+","pi+"},{},false,{{1,2}}}, {"two_pairs","D0[None]{"+rho+","+rho+"}",{"pi+","pi+","pi-","pi-"},{},false,{{0,1},{2,3}}}, {"three_bosons","D+[None]{a(1)(1260)+[None]{"+rho+",pi+},pi0}",{"pi0","pi+","pi+","pi-"},{},false,{{1,2}}},
    {"distinct","D0[None]{K*(892)bar0[None]{K-,pi+},rho(770)-[None]{pi0,pi-}}",{"K-","pi+","pi0","pi-"},{},false,{}}, {"two_fermions","Lambda(c)+[None]{eta0[None]{p+,pbar-},p+}",{"p+","p+","pbar-"},{1,1,1,1},true,{{0,1}}}, {"two_fermions_minus","Lambda(c)+[None]{eta0[None]{p+,pbar-},p+}",{"p+","pbar-","p+"},{-1,-1,1,-1},true,{{0,2}}}, {"two_antifermions","Lambda(c)bar-[None]{eta0[None]{p+,pbar-},pbar-}",{"pbar-","pbar-","p+"},{1,1,1,1},true,{{0,1}}} };
  auto amp=[](const T& t,const std::string& head){ Particle p(t.d,t.fs); if(head!="") p.addModifier(head); return p.getExpression(nullptr,t.pol); };
  for(auto& t:ts){
    H.add(std::string(t.id)+"_exchange",[=]{ PV out; Expression x=amp(t,""); for(auto& g:t.groups) for(size_t i=0;i+1<g.size();++i){ Expression y=amp(t,""); renameParameters(y,{{std::to_string(g[i]),std::to_string(g[i+1])},{std::to_string(g[i+1]),std::to_string(g[i])}}); out.push_back({x,t.fermion?-y:y,t.d}); } if(out.empty()) out.push_back({x,amp(t,"NoSym"),t.d}); return out; });
    // the symmetrised amplitude is the signed sum over all exchanges of the unsymmetrised one, divided by sqrt(number)
    H.add(std::string(t.id)+"_sum",[=]{ PV out; std::vector<int> id(t.fs.size()); for(size_t i=0;i<id.size();++i) id[i]=i; Expression sum=0; int n=0; auto p=id; do{ bool ok=true; int inv=0; for(size_t i=0;i<p.size();++i){ if(t.fs[i]!=t.fs[p[i]]) ok=false; for(size_t j=i+1;j<p.size();++j) inv+=p[i]>p[j]; } if(!ok) continue; ++n; Expression y=amp(t,"NoSym"); std::map<std::string,std::string> m; for(size_t i=0;i<p.size();++i) if(p[i]!=int(i)) m[std::to_string(i)]=std::to_string(p[i]); renameParameters(y,m); sum = (t.fermion&&inv%2) ? sum-y : sum+y; } while(std::next_permutation(p.begin(),p.end())); out.push_back({amp(t,"")*fcn::sqrt(Expression(double(n))),sum,t.d}); return out; });
  }
  return H.run(); }
