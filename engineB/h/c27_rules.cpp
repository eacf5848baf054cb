// C27: amplitude rules: couplings, cascades, event types, CP conjugate models.
#include "util.h"
#include <algorithm>
#include "AmpGen/Particle.h"
#include "AmpGen/AmplitudeRules.h"
#include "AmpGen/AddCPConjugate.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/EventType.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "table.h"
using namespace AmpGen; using std::string; using std::vector;
typedef vector<string> V;
extern "C" void setup(){ loadTable(); OptionsParser::getMe()->setQuiet(); }
static string nmx(const char* b,int i){ return string(b)+char('0'+i); }
static void option(const string& a,const string& b){ auto p=new OptionsParser(); p->setQuiet(); OptionsParser::gOptionsParser=p; if(a!="") p->m_parsedLines[a]={a,b}; }
static MinuitParameterSet* M(){ return new MinuitParameterSet(); }
static void rule(MinuitParameterSet* m,const string& n,double re,double im){ m->add(new MinuitParameter(n+"_Re",Flag::Free,re,0.1)); m->add(new MinuitParameter(n+"_Im",Flag::Free,im,0.1)); }
static void ceq(const complex_t& z,double re,double im,const char* l){ sym_eq(std::real(z),re,l); sym_eq(std::imag(z),im,l); }
static void bindTo(Parameter& p,const MinuitParameterSet& m){ auto f=m.find(p.name()); sym_check(f!=nullptr,"every parameter of a coupling is in the set"); if(f) p.m_defaultValue=f->mean(); }
static void bind(const Expression& e,const MinuitParameterSet& m){ IExpression* q=e.get(); if(auto p=dynamic_cast<Parameter*>(q)) bindTo(*p,m); else if(auto c=dynamic_cast<ComplexParameter*>(q)){ bindTo(c->m_real,m); bindTo(c->m_imag,m); } else if(auto b=dynamic_cast<IBinaryExpression*>(q)){ bind(b->l(),m); bind(b->r(),m); } else if(auto u=dynamic_cast<IUnaryExpression*>(q)) bind(u->arg(),m); else if(auto t=dynamic_cast<SubTree*>(q)) bind(t->m_expression,m); }
// couplings
GOAL(cartesian){ if(sym_choose("opt",0,1)) option("CouplingConstant::Coordinates","cartesian"); else option("",""); double a=sym_real("a",-10,10),b=sym_real("b",-10,10); auto m=M(); rule(m,"d+{b+,g0}",a,b); Coupling c(m->at(size_t(0)),m->at(size_t(1))); ceq(c(),a,b,"cartesian coupling"); sym_check(c.isCartesian()&&c.name()=="d+{b+,g0}"&&c.head()=="d+"&&c.prefix()==""&&c.x()==m->at(size_t(0))&&c.y()==m->at(size_t(1)),"coupling"); double d=sym_real("d",-10,10); m->at(size_t(0))->setCurrentFitVal(d); ceq(c(),d,b,"follows the parameter"); }
GOAL(polar){ int u=sym_choose("u",0,2); option("CouplingConstant::Coordinates","polar"); if(u) OptionsParser::getMe()->m_parsedLines["CouplingConstant::AngularUnits"]={"CouplingConstant::AngularUnits",u==1?"rad":"deg"}; double a=sym_real("a",0,10),b=sym_real("b",-400,400); auto m=M(); rule(m,"d+{b+,g0}",a,b); Coupling c(m->at(size_t(0)),m->at(size_t(1))); double r= u==2? b*(M_PI/180) : b; auto z=c(); sym_eq(std::real(z),a*std::cos(r),"magnitude and angle"); sym_eq(std::imag(z),a*std::sin(r),"magnitude and angle"); sym_check(!c.isCartesian(),"polar"); }
GOAL(prefix){ option("",""); string p=sym_string("p",sym_choose("n",1,2),"xy"); auto m=M(); rule(m,p+"_d+{b+,g0}",1,2); rule(m,"d+{c+,g0}",3,4); AmplitudeRules r(*m); auto all=r.rulesForDecay("d+"),q=r.rulesForDecay("d+",p),z=r.rulesForDecay("d+","zz"); sym_check(all.size()==2&&q.size()==1&&z.empty(),"rules by prefix"); if(q.size()==1){ sym_check(q[0].prefix()==p&&q[0].name()=="d+{b+,g0}","prefix"); ceq(q[0](),1,2,"value"); } sym_check(r.rulesForDecay("b+").empty()&&!r.hasDecay("b+")&&r.hasDecay("d+"),"hasDecay"); EventType t({"d+","b+","g0"}),t2({"d+","c+","g0"}); sym_check(r.getMatchingRules(t,p).size()==1&&r.getMatchingRules(t).empty()&&r.getMatchingRules(t2).size()==1&&r.getMatchingRules(t2,p).empty(),"matching by prefix"); }
GOAL(which){ option("",""); auto m=M(); int k=sym_choose("k",0,6); static const char* N[]={"d+{b+,g0}","foo","b+_mass","d+{b+","d+{zz+,g0}","d+","d+{b+,g0}{"}; string n=N[k]; rule(m,n,1,2); AmplitudeRules r(*m); sym_check((r.rules().size()==1)==(k==0),"only decay descriptors are rules"); auto m2=M(); m2->add(new MinuitParameter("d+{b+,g0}_Re",Flag::Free,1,0.1)); sym_check(AmplitudeRules(*m2).rules().empty(),"a coupling needs both parts"); }
GOAL(expression_rule){ option("",""); double a=sym_real("a",-10,10),b=sym_real("b",-10,10); auto m=M(); m->add(new MinuitParameter("p",Flag::Free,a,0.1)); m->add(new MinuitParameter("q",Flag::Free,b,0.1)); m->add(new MinuitExpression("d+{b+,g0}",MinuitParameterLink(m->at(size_t(0)))*MinuitParameterLink(m->at(size_t(1))))); AmplitudeRules r(*m); auto all=r.rulesForDecay("d+"); sym_check(all.size()==1,"one rule"); if(all.size()==1) ceq(all[0](),a*b,0,"value"); }
// a product of couplings
GOAL(product){ option("",""); int n=sym_choose("n",1,3); auto m=M(); double re=1,im=0; static const char* N[]={"d+{b+,g0}","b+{a+,g0}","c+{a+,e0}"}; double A[3],B[3]; for(int i=0;i<n;++i){ A[i]=sym_real(nmx("a",i).c_str(),-3,3); B[i]=sym_real(nmx("b",i).c_str(),-3,3); rule(m,N[i],A[i],B[i]); } TotalCoupling t(Coupling(m->at(size_t(0)),m->at(size_t(1)))); re=A[0]; im=B[0]; for(int i=1;i<n;++i){ t=TotalCoupling(t,Coupling(m->at(size_t(2*i)),m->at(size_t(2*i+1)))); double x=re*A[i]-im*B[i],y=re*B[i]+im*A[i]; re=x; im=y; } sym_check(t.size()==(size_t)n,"number of factors"); ceq(t(),re,im,"product of the couplings"); for(int i=0;i<3;++i) sym_check(t.contains(N[i])==(i<n),"contains"); sym_check(t.contains("{b+")&&t.contains("g0}")&&t.contains("e0")==(n==3)&&!t.contains("f0"),"contains part of a name"); sym_check(!t.isFixed(),"free"); for(auto& p:*m) p->fix(); sym_check(t.isFixed(),"fixed"); m->at(size_t(2*n-1))->setFree(); sym_check(!t.isFixed(),"one free part"); }
GOAL(expression){ int n=sym_choose("n",1,2); option("",""); auto m=M(); double a=sym_real("a",-9,9),b=sym_real("b",-9,9),c=sym_real("c",-9,9),d=sym_real("d",-9,9); rule(m,"d+{b+,g0}",a,b); rule(m,"b+{a+,g0}",c,d); TotalCoupling t(Coupling(m->at(size_t(0)),m->at(size_t(1)))); if(n==2) t=TotalCoupling(t,Coupling(m->at(size_t(2)),m->at(size_t(3)))); Expression e=t.to_expression(); bind(e,*m); auto z=e(),w=t(); sym_eq(std::real(z),std::real(w),"the expression of a coupling has its value"); sym_eq(std::imag(z),std::imag(w),"the expression of a coupling has its value"); }
GOAL(expression_polar){ int u=sym_choose("u",0,2); option("CouplingConstant::Coordinates","polar"); if(u) OptionsParser::getMe()->m_parsedLines["CouplingConstant::AngularUnits"]={"CouplingConstant::AngularUnits",u==1?"rad":"deg"}; static const double B[]={0,0.5,-1,30,90,-200}; double a=sym_real("a",0,10),b=B[sym_choose("b",0,5)]; auto m=M(); rule(m,"d+{b+,g0}",a,b); Coupling c(m->at(size_t(0)),m->at(size_t(1))); Expression e=c.to_expression(); bind(e,*m); auto z=e(),w=c(); double t=1e-6,x=std::real(z)-std::real(w),y=std::imag(z)-std::imag(w); sym_check((x<=t)&(x>=-t)&(y<=t)&(y>=-t),"the expression of a coupling has its value"); }
// cascades: the reference replaces the first particle that has rules, over and over
struct R { string n; V d; };
static string leafs(const string& s){ return s; }
static void cascade(const vector<R>& rules,const string& head,const V& fs){ option("",""); auto m=M(); vector<double> val; for(size_t i=0;i<rules.size();++i){ string t=rules[i].n+"{"; for(size_t j=0;j<rules[i].d.size();++j) t+=(j?",":"")+rules[i].d[j]; t+="}"; double v=2+i*3; val.push_back(v); rule(m,t,v,0); } AmplitudeRules r(*m);
  // reference: all complete trees (text, product)
  struct N { string text; V open; double w; }; vector<std::pair<string,double>> out;
  struct Gen { const vector<R>& rules; const vector<double>& val; vector<std::pair<string,double>> of(const string& p) const { vector<std::pair<string,double>> o; bool any=false; for(size_t i=0;i<rules.size();++i) if(rules[i].n==p){ any=true; vector<std::pair<string,double>> acc{{p+"{",val[i]}}; for(size_t j=0;j<rules[i].d.size();++j){ auto sub=of(rules[i].d[j]); vector<std::pair<string,double>> nx; for(auto& a:acc) for(auto& b:sub) nx.push_back({a.first+(j?",":"")+b.first,a.second*b.second}); acc=nx; } for(auto& a:acc) o.push_back({a.first+"}",a.second}); } if(!any) o.push_back({p,1}); return o; } } g{rules,val};
  auto ref=g.of(head); V names{head}; for(auto& f:fs) names.push_back(f); EventType type(names); vector<std::pair<string,double>> want; for(auto& x:ref){ Particle p(x.first); V l; for(auto& f:p.getFinalStateParticles(false)) l.push_back(f->name()); V a=l,b=fs; if(a.size()!=b.size()) continue; bool ok=true; for(auto& u:b){ bool f=false; for(auto& v:a) if(!f&&v==u){ v="-"; f=true; } ok=ok&&f; } if(ok){ bool dup=false; for(auto& w:want) dup=dup||w.first==p.decayDescriptor(); if(!dup) want.push_back({p.decayDescriptor(),x.second}); } }
  auto got=r.getMatchingRules(type); sym_check(got.size()==want.size(),"one amplitude for each decay chain into the final state"); for(auto& w:want){ int n=0; for(auto& q:got) if(q.first.decayDescriptor()==w.first){ ++n; ceq(q.second(),w.second,0,"product of the couplings along the chain"); sym_check(q.first.isStateGood(),"state"); } sym_check(n==1,"each chain once"); } }
static string pick(const char* n,const char* letters){ return sym_string(n,1,letters)+"+"; }
GOAL(cascade_two){ string x=pick("x","bcd"),y=pick("y","bcd"); vector<R> r{{"i+",{x,"e0"}},{"i+",{y,"g0"}},{"b+",{"a+","g0"}},{"c+",{"a+","e0"}}}; sym_assume(x!=y); V F[]={{"a+","g0","e0"},{"d+","g0"},{"d+","e0"},{"a+","e0","e0"}}; cascade(r,"i+",F[sym_choose("f",0,3)]); }
GOAL(cascade_choices){ bool two=sym_choose("two",0,1),deep=sym_choose("deep",0,1); vector<R> r{{"i+",{"c+","e0"}},{"c+",{"b+","g0"}},{"b+",{"a+","f0"}}}; if(two) r.push_back({"c+",{"a+","h0"}}); if(deep) r.push_back({"f0",{"a-","d+"}}); else r.push_back({"b+",{"d+","f0"}}); string h=sym_choose("h",0,1)?"i+":"c+"; V F[]={{"a+","f0","g0","e0"},{"a+","h0","e0"},{"a+","a-","d+","g0","e0"},{"a+","f0","g0"},{"d+","f0","g0"},{"a+","h0"}}; cascade(r,h,F[sym_choose("f",0,5)]); }
GOAL(cascade_branches){ bool b2=sym_choose("b2",0,1); vector<R> r{{"i+",{"b+","f0"}},{"b+",{"a+","g0"}},{"b+",{"d+","e0"}},{"f0",{"a+","a-"}}}; if(b2) r.push_back({"f0",{"d+","a-"}}); V F[]={{"a+","g0","a+","a-"},{"d+","e0","a+","a-"},{"a+","g0","d+","a-"},{"d+","e0","d+","a-"},{"a+","g0","f0"}}; cascade(r,"i+",F[sym_choose("f",0,4)]); }
GOAL(cascade_identical){ int k=sym_choose("k",0,2); vector<R> r{{"i+",{"f0","f0","a+"}},{"f0",{"a+","a-"}}}; if(k==0) r[0].d={"f0","f0"}; if(k==2) r.push_back({"f0",{"d+","a-"}}); V F[]={{"a+","a-","a+","a-"},{"a+","a-","a+","a-","a+"},{"a+","a-","d+","a-","a+"},{"d+","a-","d+","a-","a+"}}; cascade(r,"i+",F[sym_choose("f",0,3)]); }
GOAL(add_rule){ option("",""); AmplitudeRules r; double v=sym_real("v",-5,5); r.add_rule(Particle("d+{b+,g0}"),v); auto q=r.rulesForDecay("d+"); sym_check(q.size()==1&&q[0].name()==Particle("d+{b+,g0}").decayDescriptor()&&q[0].head()=="d+","rule"); if(q.size()==1) ceq(q[0](),v,0,"value"); }
GOAL(event_type){ option("",""); auto m=M(); string x=pick("x","abd"); rule(m,"i+{b+{"+x+",g0},e0}",1,0); Coupling c(m->at(size_t(0)),m->at(size_t(1))); auto et=c.eventType(); auto f=et.finalStates(); sym_check(et.mother()=="i+"&&f.size()==3,"event type of a coupling"); V w{x,"g0","e0"}; for(auto& u:w){ int n=0; for(auto& v:f) n+=v==u; sym_check(n==1,"final state of a coupling"); } }
// CP conjugate models
static string ac(const string& n){ string r=n; for(auto& c:r){ if(c=='+') c='-'; else if(c=='-') c='+'; } if(r=="e0") r="ebar0"; return r; }
GOAL(cp){ int pol=sym_choose("pol",0,1); option("CouplingConstant::Coordinates",pol?"polar":"cartesian"); string x=sym_string("x",1,"abd"); string s=sym_string("s",1,"+-"); x+=s; double a=sym_real("a",-9,9),b=sym_real("b",-9,9); bool pre=sym_choose("pre",0,1); auto m=M(); Particle p("i+{"+x+",e0}"); string n=p.decayDescriptor(); rule(m,(pre?"pp_":"")+n,a,b); m->add(new MinuitParameter("foo",Flag::Free,5,0.1)); size_t n0=m->size(); AddCPConjugate(*m); string w=(pre?"pp_":"")+Particle("i-{"+ac(x)+",ebar0}").decayDescriptor(); auto re=m->find(w+"_Re"),im=m->find(w+"_Im"); sym_check(re!=nullptr&&im!=nullptr,"the conjugate decay has a coupling"); sym_check(m->size()==n0+2,"nothing else is added"); if(!re||!im) return; double sgn=Particle("i-{"+ac(x)+",ebar0}").CP(); sym_eq(re->mean(),sgn*a,"real part or magnitude"); sym_eq(im->mean(),pol?b:sgn*b,"imaginary part or angle"); sym_eq(m->at(size_t(0))->mean(),a,"the model itself is unchanged"); sym_eq(m->at(size_t(1))->mean(),b,"the model itself is unchanged"); m->at(size_t(0))->setCurrentFitVal(4); sym_eq(re->mean(),sgn*4,"follows the parameter"); AddCPConjugate(*m); sym_check(m->size()==n0+2,"adding again changes nothing"); }
GOAL(cp_other){ option("",""); int k=sym_choose("k",0,4); double a=sym_real("a",-9,9); static const char* N[]={"b+_mass","b+::Spline::1","foo","foo_bar","x::y"}; static const char* W[]={"b-_mass","b-::Spline::1","","",""}; auto m=M(); m->add(new MinuitParameter(N[k],Flag::Free,a,0.1)); AddCPConjugate(*m); sym_check(m->size()==(k<2?2u:1u),"parameters of a particle are shared with its antiparticle, others are left alone"); if(k<2){ auto p=m->find(W[k]); sym_check(p!=nullptr,"parameter of the antiparticle"); if(p) sym_eq(p->mean(),a,"same value"); } }
GOAL(cp_forbid){ option("AddCPConjugate::Forbid","i+"); auto m=M(); rule(m,"i+{b+,g0}",1,2); rule(m,"d+{b+,g0}",3,4); AddCPConjugate(*m); sym_check(m->size()==6&&m->find("i-{b-,g0}_Re")==nullptr&&m->find("d-{b-,g0}_Re")!=nullptr,"forbidden heads are left out"); }
