// C21: events of the flat phase-space generator, with every random number symbolic.
#include "util.h"
#include <cmath>
#include "AmpGen/Event.h"
#include "AmpGen/PhaseSpace.h"
#include "TRandom.h"
using namespace AmpGen; using std::vector; using std::string;
// the theorem sin^2+cos^2=1 for the angles drawn
static void angle(double u){ double a=2*M_PI*u; if(!sym_is_native()) sym_assume(std::cos(a)*std::cos(a)+std::sin(a)*std::sin(a)==1); }
struct Dice : TRandom { int n=0,skip=1,accept=-1; vector<double> fixedDraws; double Rndm() override { if(n==accept){ ++n; return 0; } if(n<(int)fixedDraws.size()) return fixedDraws[n++]; string s("u"); s+=char('a'+n++); double x=sym_real(s.c_str()); sym_assume((x>=0)&(x<=1)); if(n>skip) angle(x); return x; } };
static PhaseSpace* gen(double M,const vector<double>& m,Dice* d){ auto p=new PhaseSpace(); p->setRandom(d); bool ok=p->setDecay(M,m); sym_check(ok,"an open decay is accepted"); return p; }
static void event(double M,const vector<double>& m,vector<double> fixedDraws={}){ Dice d; d.accept=m.size()-2; d.skip=m.size()-1; d.fixedDraws=fixedDraws; auto p=gen(M,m,&d); sym_check(p->size()==m.size(),"number of particles"); Event e=p->makeEvent(); sym_check(e.size()==4*m.size(),"size of the event"); double t[4]={0,0,0,0}; for(size_t i=0;i<m.size();++i){ for(int c=0;c<4;++c) t[c]=t[c]+e[4*i+c]; }
  sym_eq(t[0],0,"px sums to zero"); sym_eq(t[1],0,"py sums to zero"); sym_eq(t[2],0,"pz sums to zero"); sym_eq(t[3],M,"the energies sum to the parent's mass"); for(size_t i=0;i<m.size();++i) sym_eq(e.s(i),m[i]*m[i],"every particle is on its mass shell"); sym_eq(e.genPdf(),1,"flat density"); }
GOAL(closed){ double M=sym_real("M",0,10),a=sym_real("ma",0,10),b=sym_real("mb",0,10); PhaseSpace p; bool ok=p.setDecay(M,{a,b}); sym_check(ok==(M>a+b),"a decay is accepted exactly if it is open"); }
GOAL(two_energy){ double M=sym_real("M",1,10),a=sym_real("ma",0,10),b=sym_real("mb",0,10); sym_assume(M>a+b); Dice d; auto p=gen(M,{a,b},&d); double q=p->q(M,a,b); sym_check(q>=0,"not negative"); sym_eq(4*M*M*q*q,(M*M-(a+b)*(a+b))*(M*M-(a-b)*(a-b)),"two-body momentum"); }
GOAL(two_massless){ event(sym_real("M",1,10),{0,0}); }
GOAL(two){ double M=sym_real("M",1,10),a=sym_real("ma",0,10); sym_assume(M>a); event(M,{a,0}); }
GOAL(two_equal){ double M=sym_real("M",1,10),a=sym_real("ma",0,5); sym_assume(M>2*a); event(M,{a,a}); }
static const double R[3]={0.25,0.5,0.75};
GOAL(three_massless){ event(1,{0,0,0},{R[sym_choose("r",0,2)]}); }
GOAL(three_symbolic){ event(1,{0,0,0}); }
GOAL(three_massive){ event(35,{3,0,16},{0.375}); } // masses and random number for which the momenta are rational
GOAL(two_unit){ double a=sym_real("ma",0.1,0.9),b=sym_real("mb",0.1,0.9); sym_assume(a+b<1); event(1,{a,b}); }
GOAL(four_massless){ event(1,{0,0,0,0},{R[sym_choose("r",0,2)],0.375}); }
// the acceptance weight never exceeds one, so accepted events are uniform
GOAL(weight_three){ double M=sym_real("M",1,10),r=sym_real("r",0,1); Dice d; auto p=gen(M,{0,0,0},&d); double m=r*M; double w=p->q(m,0,0)*p->q(M,m,0)*p->m_wtMax; sym_check(w<=1,"weight"); sym_check(w>=0,"weight is not negative"); }
