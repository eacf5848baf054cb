// C13: orbital range and spin-orbit couplings of two-body decays against the triangle and parity rules.
#include "util.h"
#include <memory>
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
using namespace AmpGen; using std::vector;
static ParticleProperties* pp[3]; static Particle* mother; static Particle* lone; static Particle* single; static Particle* triple; 
extern "C" void setup(){ for(auto& p:pp) p=new ParticleProperties(); mother=new Particle(); lone=new Particle(); mother->m_props=pp[0]; lone->m_props=pp[0]; for(int i=0;i<2;++i){ mother->m_daughters.push_back(std::make_shared<Particle>()); mother->m_daughters[i]->m_props=pp[i+1]; } single=new Particle(*mother); single->m_daughters.pop_back(); triple=new Particle(*mother); triple->m_daughters.push_back(mother->m_daughters[0]); }
static const int MAX=6;
struct Q { int J,a,b,P,pa,pb; };
static void put(const Q& q){ pp[0]->m_twoSpin=q.J; pp[1]->m_twoSpin=q.a; pp[2]->m_twoSpin=q.b; pp[0]->m_parity=q.P; pp[1]->m_parity=q.pa; pp[2]->m_parity=q.pb; mother->m_parity=q.P; mother->m_daughters[0]->m_parity=q.pa; mother->m_daughters[1]->m_parity=q.pb; }
static int par(const char* n){ int p=sym_int(n,-1,1); sym_assume(p!=0); return p; }
static Q symbolic(){ int m=sym_tier()?12:MAX; Q q{(int)sym_int("J",0,m),(int)sym_int("a",0,m),(int)sym_int("b",0,m),par("P"),par("pa"),par("pb")}; sym_assume(((q.J+q.a+q.b)&1)==0); put(q); return q; }
static bool tri(int x,int y,int z){ int d=y-z; if(d<0) d=-d; return (x>=d)&(x<=y+z)&(((x+y+z)&1)==0); }
// can orbital momentum L (given as 2L) couple with some total spin of the daughters to J?
static bool allowed(const Q& q,int L2){ bool r=false; for(int S=0;S<=24;++S) r = r | (tri(S,q.a,q.b)&tri(q.J,L2,S)); return r; }
static bool parityOk(const Q& q,int L){ return q.P==q.pa*q.pb*((L&1)?-1:1); }
GOAL(range){ Q q=symbolic(); auto r=mother->orbitalRange(false); int lo=r.first,hi=r.second; sym_check((lo>=0)&(hi>=lo)&(hi<=18),"range is ordered"); int L=sym_int("L",0,18); sym_check(((L>=lo)&(L<=hi))==allowed(q,2*L),"the range holds exactly the orbital momenta that couple to the parent's spin"); }
GOAL(range_parity){ Q q=symbolic(); auto r=mother->orbitalRange(true); int lo=r.first,hi=r.second; int L=sym_int("L",0,18); bool ok=allowed(q,2*L)&parityOk(q,L); bool in=(L>=lo)&(L<=hi)&parityOk(q,L); sym_check(in==ok,"allowed orbital momenta are those of the range with the right parity"); if(lo==L) sym_check(ok,"lower end is allowed"); if(hi==L) sym_check(ok,"upper end is allowed"); }
GOAL(range_empty){ Q q=symbolic(); auto r=mother->orbitalRange(true); bool any=false; for(int L=0;L<=18;++L) any=any|(allowed(q,2*L)&parityOk(q,L)); sym_check((r.first==999)==!any,"no allowed orbital momentum is reported as 999"); }
GOAL(parity){ Q q=symbolic(); int L=sym_int("L",0,20); sym_check(mother->conservesParity(L)==parityOk(q,L),"parity selection"); }
GOAL(degenerate){ auto r=lone->orbitalRange(sym_choose("c",0,1)); sym_check(r.first==0&&r.second==0,"stable particle"); r=single->orbitalRange(sym_choose("d",0,1)); sym_check(r.first==0&&r.second==0,"quasi-particle"); r=triple->orbitalRange(sym_choose("e",0,1)); sym_check(r.first>r.second||r.first==999,"not defined for three daughters"); }
static void couplings(int J,bool cons){ int m=sym_tier()?8:5; Q q{J,(int)sym_choose("a",0,m),(int)sym_choose("b",0,m),par("P"),par("pa"),par("pb")}; sym_assume(((q.J+q.a+q.b)&1)==0); put(q); auto c=mother->spinOrbitCouplings(cons); unsigned n=0; for(int L=0;L<=14;++L) for(int S=0;S<=16;++S){ bool want=tri(S,q.a,q.b)&tri(q.J,2*L,S); if(cons) want=want&parityOk(q,L); int k=0; for(auto& x:c) if(x.first==L&&x.second==S/2.0) ++k; sym_check(k==(want?1:0),"each allowed (L,S) is listed exactly once, no other is"); n+=want?1:0; } sym_check(c.size()==n,"nothing else is listed"); }
#define CP(J) GOAL(couplings_##J){ couplings(J,false); } GOAL(couplings_parity_##J){ couplings(J,true); }
CP(0) CP(1) CP(2) CP(3) CP(4) CP(5) CP(6) CP(7) CP(8)
