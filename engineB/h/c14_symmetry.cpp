// C14: arrangements of identical particles and their exchange signs.
#include "util.h"
#include <memory>
#include <algorithm>
#include "AmpGen/Particle.h"
#include "AmpGen/Utilities.h"
using namespace AmpGen; using std::vector; using std::string;
// sign of a permutation by counting inversions among the exchanged fermions
static void swaps(unsigned n){ vector<size_t> p(n); vector<int> cls(n),par(n); for(unsigned i=0;i<n;++i){ string s("p"); s+=char('0'+i); p[i]=sym_int(s.c_str(),0,n-1); s[0]='c'; cls[i]=sym_int(s.c_str(),0,1); } for(unsigned i=0;i<n;++i) for(unsigned j=0;j<i;++j) sym_assume(p[i]!=p[j]);
  int species=sym_choose("species",0,1); for(unsigned i=0;i<n;++i) par[i]=cls[i]?-1:1; if(species) for(unsigned i=0;i<n;++i) par[i]=-1;
  // only particles of the same kind are exchanged
  if(!species) for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) sym_assume(!(p[i]==j)|(par[i]==par[j]));
  auto r=minSwaps(p,par); int inv=0,all=0; for(unsigned i=0;i<n;++i) for(unsigned j=i+1;j<n;++j){ bool x=p[i]>p[j]; all^=x?1:0; inv^=(x&(par[i]<0)&(par[j]<0))?1:0; }
  sym_check(r.second==(inv?-1:1),"exchanging fermions carries the sign of their permutation, bosons none"); sym_check(((r.first&1)!=0)==(all!=0),"number of swaps has the parity of the permutation"); sym_check(r.first<n,"at most n-1 swaps"); bool id=true; for(unsigned i=0;i<n;++i) id=id&(p[i]==i); sym_check((r.first==0)==id,"no swap is needed exactly for the identity"); }
GOAL(sign_2){ swaps(2); } GOAL(sign_3){ swaps(3); } GOAL(sign_4){ swaps(4); } GOAL(sign_5){ swaps(5); }
// trees over up to five final-state particles, names symbolic
static const int NT=9; static Particle* tree[NT]; static int leaves[NT]; static vector<Particle*> leaf[NT];
typedef std::shared_ptr<Particle> PP; static PP L(int t){ auto p=std::make_shared<Particle>(); leaf[t].push_back(p.get()); return p; } static PP N(std::initializer_list<PP> d){ auto p=std::make_shared<Particle>(); for(auto& x:d) p->m_daughters.push_back(x); return p; }
static void reg(int t,PP p){ tree[t]=new Particle(*p); leaves[t]=leaf[t].size(); }
extern "C" void setup(){ for(auto& l:leaf) l.clear();
  { auto a=L(0),b=L(0); reg(0,N({a,b})); } { auto a=L(1),b=L(1),c=L(1); reg(1,N({a,b,c})); } { auto a=L(2),b=L(2),c=L(2); reg(2,N({N({a,b}),c})); } { auto a=L(3),b=L(3),c=L(3); reg(3,N({a,N({b,c})})); }
  { auto a=L(4),b=L(4),c=L(4),d=L(4); reg(4,N({N({a,b}),N({c,d})})); } { auto a=L(5),b=L(5),c=L(5),d=L(5); reg(5,N({N({N({a,b}),c}),d})); } { auto a=L(6),b=L(6),c=L(6),d=L(6); reg(6,N({a,b,c,d})); } { auto a=L(7),b=L(7),c=L(7); reg(7,N({N({N({a,b})}),c})); } { auto a=L(8),b=L(8),c=L(8),d=L(8),e=L(8); reg(8,N({N({a,b}),N({N({c,d}),e})})); } }
static void arrangements(int t){ int n=leaves[t]; vector<string> nm; for(int i=0;i<n;++i){ string s("n"); s+=char('0'+i); nm.push_back(sym_string(s.c_str(),1,n<4?"abc":"ab")); leaf[t][i]->m_name=nm[i]; leaf[t][i]->m_index=i; leaf[t][i]->m_originalIndex=i; }
  auto fs=tree[t]->getFinalStateParticles(); sym_check((int)fs.size()==n,"final state"); for(int i=0;i<n;++i) sym_check(fs[i].get()==leaf[t][i],"final state particles in index order");
  auto o=tree[t]->identicalDaughterOrderings(); vector<size_t> p(n); for(int i=0;i<n;++i) p[i]=i; unsigned want=0; do { bool ok=true; for(int i=0;i<n;++i) ok=ok&(nm[i][0]==nm[p[i]][0]); int k=0; for(auto& q:o) if(q==p) ++k; sym_check(k==(ok?1:0),"each arrangement that exchanges only identical particles occurs exactly once"); want+=ok?1:0; } while(std::next_permutation(p.begin(),p.end())); sym_check(o.size()==want,"no other arrangement");
  sym_check(!o.empty(),"at least the identity"); if(o.empty()) return; auto& q=o[o.size()-1]; tree[t]->setOrdering(q); for(int i=0;i<n;++i){ sym_check(leaf[t][i]->index()==q[i],"ordering sets the momentum index"); sym_check(leaf[t][i]->originalIndex()==(unsigned)i,"ordering keeps the original index"); } auto again=tree[t]->getFinalStateParticles(); for(int i=0;i<n;++i) sym_check(again[i].get()==leaf[t][i],"order of the final state is independent of the ordering"); auto o2=tree[t]->identicalDaughterOrderings(); sym_check(o2==o,"orderings are independent of the current ordering"); }
#define TR(t) GOAL(tree_##t){ arrangements(t); }
TR(0) TR(1) TR(2) TR(3) TR(4) TR(5) TR(6) TR(7) 
GOAL(tree_8){ arrangements(8); }
