// C15: decay descriptors -> trees -> decay descriptors; conjugation.
#include "util.h"
#include <cstdlib>
#include <algorithm>
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/EventType.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/Units.h"
using namespace AmpGen; using std::string; using std::vector;
typedef vector<string> V; typedef std::shared_ptr<Particle> PP;
#include "table.h"
extern "C" void setup(){ loadTable(); }
static string nmx(const char* b,int i){ return string(b)+char('0'+i); }
// a name whose letter (and sign) is symbolic
static string ch(int k,const char* letters="abcd"){ string s=sym_string(nmx("n",k).c_str(),1,letters); return s+sym_string(nmx("s",k).c_str(),1,"+-"); }
static string neu(int k){ static const char* N[]={"e0","ebar0","f0","fbar0","g0"}; return N[sym_choose(nmx("n",k).c_str(),0,4)]; }
static string anti(const string& n){ if(n=="h0"||n=="e0"||n=="f0"||n=="k0") return string(1,n[0])+"bar0"; if(n.size()==5&&n.substr(1)=="bar0") return string(1,n[0])+"0"; string r=n; for(auto& c:r){ if(c=='+') c='-'; else if(c=='-') c='+'; } return r; }
struct T { string n; string mod; vector<T> k; T(const string& a,const vector<T>& b={},const string& m=""): n(a),mod(m),k(b) {} string text() const { string r=n; if(mod!="") r+="["+mod+"]"; if(!k.empty()){ r+="{"; for(size_t i=0;i<k.size();++i) r+=(i?",":"")+k[i].text(); r+="}"; } return r; } T conj(bool head=true) const { vector<T> c; for(auto& x:k) c.push_back(x.conj()); return T(head?anti(n):n,c,mod); } };
static bool has(const Particle& p,const T& t){ if(p.name()!=t.n||p.props()->name()!=t.n||p.daughters().size()!=t.k.size()) return false; vector<bool> used(t.k.size(),false); for(auto& d:p.daughters()){ bool f=false; for(size_t i=0;i<t.k.size()&&!f;++i) if(!used[i]&&has(*d,t.k[i])){ used[i]=true; f=true; } if(!f) return false; } return true; }
static bool allowed(const Particle& p){ if(p.m_minL==999) return false; for(auto& d:p.daughters()) if(!allowed(*d)) return false; return true; }
static void same(const Particle& a,const Particle& b,const char* l){ sym_check(a.name()==b.name()&&a.props()==b.props(),l); sym_check(a.L()==b.L()&&a.S()==b.S()&&a.lineshape()==b.lineshape()&&a.parity()==b.parity()&&a.orbitalString()==b.orbitalString(),l); sym_check(a.daughters().size()==b.daughters().size(),l); for(size_t i=0;i<a.daughters().size()&&i<b.daughters().size();++i) same(*a.daughters()[i],*b.daughters()[i],l); }
static void roundtrip(const Particle& p){ string s=p.decayDescriptor(); sym_check(s==p.uniqueString(),"descriptor"); Particle q(s); same(p,q,"printing and parsing gives the same tree"); sym_check(q.decayDescriptor()==s,"the descriptor is reproduced"); }
static void tree(const T& t){ Particle p(t.text()); sym_assume(allowed(p)); sym_check(p.isStateGood(),"state"); sym_check(has(p,t),"the tree has the written particles and nesting"); sym_check(p.isHead()&&p.isStable()==t.k.empty(),"head"); for(auto& d:p.daughters()) sym_check(!d->isHead(),"daughters have a parent"); roundtrip(p); }
GOAL(single){ tree(T(ch(0))); } 
GOAL(two){ tree(T(ch(0),{T(ch(1)),T(neu(2))})); } GOAL(two_neutral){ tree(T(neu(0),{T(ch(1)),T(ch(2))})); }
GOAL(three){ tree(T(ch(0,"cd"),{T(ch(1,"ab")),T(ch(2,"ab")),T(ch(3,"ad"))})); }
GOAL(nested){ tree(T(ch(0,"cd"),{T(ch(1,"bc"),{T(ch(2,"ad")),T("g0")}),T(ch(3,"ab"))})); } GOAL(nested_right){ tree(T(ch(0,"cd"),{T(ch(3,"ab")),T(ch(1,"bc"),{T(ch(2,"ad")),T("g0")})})); }
GOAL(nested_deep){ tree(T(ch(0,"cd"),{T(ch(1,"bc"),{T("f0",{T(ch(2,"ad")),T("a-")}),T("d+")}),T(ch(3,"ab"))})); }
GOAL(nested_both){ tree(T("d+",{T(ch(1,"bc"),{T(ch(2,"ad")),T("g0")}),T("f0",{T(ch(3,"ab")),T("d-")})})); }
GOAL(quasi){ tree(T("d+",{T("NonResS0",{T(ch(1,"ad")),T(ch(2,"ad"))}),T(ch(3,"ab"))})); }
// the written order of the daughters does not matter
GOAL(permuted){ string x=ch(1,sym_tier()?"abd":"ad"),y=ch(2,"ab"),z=ch(3,"abd"); sym_assume(x!=y&&y!=z&&x!=z); string h=ch(0,"d"); string D[]={x,y,z}; int pi=sym_choose("perm",0,4); static const int PM[5][3]={{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; Particle p(T(h,{x,y,z}).text()),q(T(h,{D[PM[pi][0]],D[PM[pi][1]],D[PM[pi][2]]}).text()); sym_check(p.decayDescriptor()==q.decayDescriptor(),"one descriptor for each decay"); }
GOAL(permuted_nested){ string h=ch(0,"d"); T a("b+",{T(ch(1,"ad")),T("g0")}),a2("b+",{T("g0"),a.k[0]}),b(ch(2,"abd")); Particle p(T(h,{a,b}).text()),q(T(h,{b,a2}).text()); if(b.n!="b+"||true) sym_check(p.decayDescriptor()==q.decayDescriptor(),"one descriptor for each decay"); }
GOAL(unordered){ string x=ch(1),y=ch(2),z=ch(3); Particle p(T(ch(0,"cd"),{x,y,z}).text(),V{},false); sym_check(p.daughters().size()==3&&p.daughter(0)->name()==x&&p.daughter(1)->name()==y&&p.daughter(2)->name()==z,"the order is kept on request"); }
// options in square brackets
static const char* LS[]={"","BW","SBW","GounarisSakurai","FormFactor","Flatte","BW.BL"}; static const char* OT[]={"","BgSpin0","NoSym","Inco"};
GOAL(orbital){ const char* O="SPDFGHI"; string o=sym_string("o",1,O); unsigned L=0; for(unsigned i=0;i<7;++i) if(o[0]==O[i]) L=i; int form=sym_choose("form",0,3); string n=sym_string("s",1,"123"); string m= form==0?o: form==1?o+n: form==2?n: o+";"+n; T t("c+",{T("b+"),T(sym_choose("k",0,1)?"f0":"g0")},m); Particle p(t.text()); sym_assume(allowed(p)); unsigned want= form==2?0:L; if(want==0) want=p.m_minL; sym_check(p.L()==want,"orbital angular momentum"); sym_check(p.S()==(form==0?0:n[0]-'0'),"spin configuration"); sym_check(has(p,t),"tree"); roundtrip(p); }
GOAL(orbital_letter){ string o=sym_string("o",1,"PDF"),s=sym_string("s",1,"+-LR"); T t("c+",{T("b+"),T("f0")},o+s); Particle p(t.text()); sym_check(p.L()==(o[0]=='P'?1u:o[0]=='D'?2u:3u),"orbital"); roundtrip(p); }
GOAL(lineshapes){ int k=sym_choose("k",0,6),m=sym_choose("m",0,3),o=sym_choose("o",0,2),ord=sym_choose("ord",0,2); bool st=sym_choose("st",0,1); V mods; string O[]={"","D","P1"}; string X[3]={LS[k],OT[m],O[o]}; for(int i=0;i<3;++i){ auto& x=X[(i+ord)%3]; if(x!="") mods.push_back(x); } string mm; for(size_t i=0;i<mods.size();++i) mm+=(i?";":"")+mods[i]; T b(st?"a+":"b+",{T("d+"),T("e0")},mm); T t("d+",{b,T("g0")}); Particle p(t.text()); sym_assume(allowed(p)); sym_check(has(p,t),"tree"); PP d; for(auto& x:p.daughters()) if(x->name()==b.n) d=x; sym_check(d!=nullptr,"daughter"); string want=k==0||k==1?(st?"FormFactor":"BW"):LS[k]; sym_check(d->lineshape()==want,"lineshape"); for(int i=1;i<4;++i) sym_check(d->hasModifier(OT[i])==(i==m),"option"); if(o) sym_check(d->L()==(o==1?2u:1u)&&d->S()==(o==2?1:0),"orbital"); roundtrip(p); }
GOAL(attributes){ string v=sym_string("v",sym_choose("n",1,3),"ab1"); int o=sym_choose("o",0,2); static const char* O[]={"","D;","P1;"}; bool vert=sym_choose("vert",0,1); T t("c+",{T("b+"),T("f0")},string(O[o])+(vert?"vertex=":"key=")+v); Particle p(t.text()); auto a=p.attribute(vert?"vertex":"key"); sym_check(bool(a)&&*a==v,"attribute"); sym_check(!p.attribute("other"),"absent attribute"); sym_check(p.L()==(o==1?2u:o==2?1u:p.m_minL)&&p.S()==(o==2?1:0),"orbital"); if(vert) sym_check(p.orbitalString()==v,"vertex"); Particle q(p.decayDescriptor()); same(p,q,"printing and parsing gives the same tree"); auto b=q.attribute(vert?"vertex":"key"); sym_check(bool(b)&&*b==v,"attribute after printing"); sym_check(q.decayDescriptor()==p.decayDescriptor(),"the descriptor is reproduced"); }
// conjugation
static void linked(const Particle& p){ for(auto& d:p.daughters()){ sym_check(!d->isHead(),"daughters have a parent"); linked(*d); } }
static bool identified(const Particle& p){ for(auto& d:p.daughters()) if(d->props()->pdgID()==0||!identified(*d)||(!d->isStable()&&!d->props()->hasDistinctAnti())) return false; return true; }
static void aligned(const Particle& p,const Particle& c,bool head){ sym_check(c.name()==(head?anti(p.name()):p.name())&&c.daughters().size()==p.daughters().size(),"the conjugate of each particle has its place"); for(size_t i=0;i<p.daughters().size()&&i<c.daughters().size();++i) aligned(*p.daughters()[i],*c.daughters()[i],true); }
static void conj(const T& t,bool allowedOnly=true){ Particle p(t.text()); if(allowedOnly) sym_assume(allowed(p)); bool head=sym_choose("head",0,1),reorder=sym_choose("reorder",0,1); Particle c=p.conj(head,reorder); sym_check(has(c,t.conj(head)),"every particle is replaced by its antiparticle"); sym_check(c.L()==p.L()&&c.S()==p.S()&&c.lineshape()==p.lineshape(),"options are kept"); Particle b=c.conj(head,true); same(b,p,"conjugating twice gives the tree back"); sym_check(b.decayDescriptor()==p.decayDescriptor(),"conjugating twice gives the descriptor back"); sym_check(has(p,t),"the tree itself is unchanged"); if(reorder&&head) same(c,Particle(t.conj(head).text()),"the conjugate is the tree of the conjugate descriptor"); linked(c); if(!reorder||(head&&p.props()->hasDistinctAnti()&&p.props()->pdgID()!=0&&identified(p))) aligned(p,c,head); }
GOAL(conj_two){ conj(T(ch(0,"abcd"),{T(ch(1)),T(neu(2))},"D")); } GOAL(conj_three){ conj(T(ch(0,"cd"),{T(ch(1,"ab")),T(ch(2,"ab")),T(ch(3,"ad"))})); } GOAL(conj_nested){ conj(T(ch(0,"d"),{T(ch(1,sym_tier()?"bc":"b"),{T(ch(2,"ad")),T(sym_choose("n4",0,1)?"e0":"g0")},"GounarisSakurai"),T(ch(3,sym_tier()?"ab":"b"))})); }
GOAL(conj_noid){ static const char* N[]={"h0","hbar0","i+","i-","g0","k0"}; string h=N[sym_choose("h",0,5)],x=N[sym_choose("x",0,5)]; int w=sym_choose("w",0,1); conj(w?T(h,{T("b+",{T("a+"),T(x)}),T("g0")}):T(ch(0,"cd"),{T(x),T(h)}),false); }
GOAL(conj_this){ T t(ch(0,"cd"),{T(ch(1,"bc"),{T(ch(2,"ad")),T("h0")}),T("i+")}); Particle p(t.text()); p.conjThis(); sym_check(p.props()->name()==anti(t.n),"head"); for(auto& d:p.daughters()) sym_check(d->props()->name()==anti(d->name()),"daughters"); p.conjThis(); roundtrip(p); sym_check(has(p,t),"twice"); }
// indices of the final state
GOAL(indices){ string x[3],f[3]; for(int i=0;i<3;++i){ x[i]=ch(i,"ab"); f[i]=ch(i+3,"ab"); } T t("d+",{T("c+",{T(x[0]),T(x[1])}),T(x[2])}); Particle p(t.text(),V{f[0],f[1],f[2]}); bool perm=true; bool used[3]={0,0,0}; for(int i=0;i<3;++i){ bool m=false; for(int j=0;j<3&&!m;++j) if(!used[j]&&x[j]==f[i]) used[j]=m=true; perm=perm&&m; } sym_check(p.isStateGood()==perm,"good iff the final state is the requested one"); if(!perm) return; auto fs=p.getFinalStateParticles(); sym_check(fs.size()==3,"size"); for(unsigned i=0;i<3&&i<fs.size();++i) sym_check(fs[i]->index()==i&&fs[i]->originalIndex()==i&&fs[i]->name()==f[i],"each particle takes a place of its name"); p.setOrdering({2,0,1}); sym_check(fs[0]->index()==2&&fs[1]->index()==0&&fs[2]->index()==1,"setOrdering"); auto et=p.eventType(); sym_check(et.mother()=="d+"&&et.size()==3,"event type"); }
GOAL(final_states){ T t("d+",{T(ch(1,"bc"),{T(ch(2,"ad")),T("g0")}),T(ch(3,"ab"))}); Particle p(t.text()); auto fs=p.getFinalStateParticles(false); V want; for(auto& d:p.daughters()) if(d->isStable()) want.push_back(d->name()); else for(auto& e:d->daughters()) want.push_back(e->name()); sym_check(fs.size()==3,"leaves"); for(size_t i=0;i<3&&i<fs.size();++i) sym_check(fs[i]->name()==want[i]&&fs[i]->isStable(),"leaves in order"); auto g=p.daughter(string("g0")); sym_check(g!=nullptr&&g->name()=="g0","daughter by name"); }
// other constructors agree with the descriptor
GOAL(constructors){ string h=ch(0,"cd"),x=ch(1),y=ch(2); Particle p(T(h,{T(x),T(y)}).text()); Particle a(h,Particle(x),Particle(y)),b(h,vector<Particle>{Particle(x),Particle(y)}); same(p,a,"pair"); same(p,b,"list"); sym_check(a.decayDescriptor()==p.decayDescriptor()&&b.decayDescriptor()==p.decayDescriptor(),"descriptor"); int id=p.props()->pdgID(); Particle c(id,Particle(x),Particle(y)); same(p,c,"identifier"); Particle d(h); d.addDaughter(std::make_shared<Particle>(x)); d.addDaughter(std::make_shared<Particle>(y)); sym_check(has(d,T(h,{T(x),T(y)})),"addDaughter"); linked(d); sym_check(d.decayDescriptor()==h+"{"+x+","+y+"}","addDaughter"); Particle e(h); e.setDaughters({Particle(x),Particle(y)}); sym_check(e.L()==p.L()&&e.decayDescriptor()==h+"{"+x+","+y+"}","setDaughters"); Particle i(x,3u); sym_check(i.name()==x&&i.index()==3&&i.decayDescriptor()==x&&i.props()->name()==x,"indexed particle"); }
GOAL(permuted_degenerate){ string x=ch(1,"bl"),y=ch(2,"bl"),h=ch(0,"d"); sym_assume(x!=y); int w=sym_choose("w",0,2); T z("g0"); T a= w==0?T(h,{x,y}):w==1?T(h,{T(x),T(y),z}):T(h,{T("c+",{T(x),T(y)}),z}), b= w==0?T(h,{y,x}):w==1?T(h,{z,T(y),T(x)}):T(h,{z,T("c+",{T(y),T(x)})}); sym_check(Particle(a.text()).decayDescriptor()==Particle(b.text()).decayDescriptor(),"one descriptor for each decay"); }
GOAL(permuted_decays){ string x=ch(1,"ad"),u=ch(2,"ad"); int w=sym_choose("w",0,2); T p("b+",{T(x),T("g0")}),q("b+",{T(u),T(w==1?"e0":"g0")},w==2?"D":""); int n=sym_choose("n",0,1); sym_assume(w!=0||x!=u); T a=n?T("d+",{p,q,T("h0")}):T("d+",{p,q}),b=n?T("d+",{T("h0"),q,p}):T("d+",{q,p}); sym_check(Particle(a.text()).decayDescriptor()==Particle(b.text()).decayDescriptor(),"one descriptor for each decay"); Particle c(a.text()),e(b.text()); sym_check(c.matches(e)==Particle::MatchState::Exact,"the same decay matches"); }
GOAL(conj_degenerate){ conj(T(ch(0,"cd"),{T(ch(1,"bl")),T(ch(2,"bl")),T("g0")})); }
GOAL(clone_deep){ T t("d+",{T(ch(1,"bc"),{T("f0",{T(ch(2,"ad")),T("a-")}),T("d+")}),T("g0")}); Particle p(t.text()); string s=p.decayDescriptor(); auto c=p.clone(); same(p,c,"clone"); PP n; for(auto& d:c.daughters()) if(!d->isStable()) n=d; int w=sym_choose("w",0,3); if(w==0) for(auto& l:c.getFinalStateParticles(false)) l->setIndex(7); else if(w==1) n->setDaughter(Particle("h0"),0); else if(w==2){ for(auto& e:n->daughters()) if(!e->isStable()) e->setDaughter(Particle("h0"),1); } else n->clearDecayProducts(); for(auto& l:p.getFinalStateParticles(false)) sym_check(l->index()!=7,"the original keeps its indices"); same(p,Particle(t.text()),"the original is unchanged"); sym_check(p.decayDescriptor()==s,"the original keeps its descriptor"); }
GOAL(attribute_keys){ string k1=sym_string("k",sym_choose("nk",1,2),"ab"),k2=sym_string("l",sym_choose("nl",1,2),"ab"),q=sym_string("q",sym_choose("nq",1,2),"ab"); sym_assume(k1!=k2); Particle p("c+[D;"+k1+"=1;"+k2+"=2]{b+,f0}"); auto a=p.attribute(q); if(q==k1) sym_check(bool(a)&&*a=="1","first attribute"); else if(q==k2) sym_check(bool(a)&&*a=="2","second attribute"); else sym_check(!a,"absent attribute"); Particle r(p.decayDescriptor()); auto b=r.attribute(q); sym_check(bool(a)==bool(b)&&(!a||*a==*b),"attributes after printing"); }
GOAL(modify){ T t(ch(0,"cd"),{T(ch(1,"ab")),T(ch(2,"ab")),T("g0")}); Particle p(t.text()); auto c=p.clone(); same(p,c,"clone"); string m=ch(3,"ab"); p.setDaughter(Particle(m),1); sym_check(p.daughter(1)->name()==m,"setDaughter"); sym_check(!p.daughter(1)->isHead()&&has(Particle(p.decayDescriptor()),T(p.name(),{T(p.daughter(0)->name()),T(m),T(p.daughter(2)->name())})),"setDaughter"); same(c,Particle(t.text()),"the clone is independent"); p.clearDecayProducts(); sym_check(p.isStable(),"cleared"); Particle q("b+{g0,a+}"); q.addModifier("D"); sym_check(q.L()==2&&q.decayDescriptor()=="b+[D]{g0,a+}","addModifier"); q.setOrbital(3); sym_check(q.L()==3&&q.decayDescriptor()=="b+[F]{g0,a+}","setOrbital"); q.setName("c+"); sym_check(q.name()=="c+"&&q.props()->name()=="c+","setName"); }
GOAL(expand){ string x=ch(1,"bc"),y=ch(2,"bc"); Particle p(T("d+",{T(x),T(y)}).text()); Particle sub(T(ch(3,"bc"),{T("a+"),T("g0")}).text()); bool in=sub.name()==x||sub.name()==y; sym_check(p.expand(sub)==in,"expands iff present"); int dec=0; for(auto& d:p.daughters()){ if(!d->isStable()){ ++dec; sym_check(has(*d,T(sub.name(),{T("a+"),T("g0")})),"expanded"); } } sym_check(dec==(in?1:0),"one daughter is expanded"); sym_check(in==(p.getFinalStateParticles(false).size()==3),"final state"); sym_check(has(Particle(p.decayDescriptor()),[&]{ T t("d+"); for(auto& d:p.daughters()) t.k.push_back(d->isStable()?T(d->name()):T(d->name(),{T("a+"),T("g0")})); return t; }()),"the descriptor shows the expansion"); if(in){ linked(p); Particle c=p.conj(false); for(auto& d:c.daughters()) sym_check(d->name()==anti(x)||d->name()==anti(y),"conjugation of an expanded tree"); bool both= x==y; sym_check(p.expand(sub)==both,"a particle that is expanded is not expanded again"); if(both) for(auto& d:p.daughters()) sym_check(has(*d,T(sub.name(),{T("a+"),T("g0")})),"both are expanded"); } }
GOAL(expand_nested){ string x=ch(1,"bc"),y=ch(2,"bc"); Particle p(T("d+",{T("f0",{T(x),T("a-")}),T(y)}).text()); Particle sub(T(ch(3,"bc"),{T("a+"),T("g0")}).text()); int n=(sub.name()==x)+(sub.name()==y); for(int i=0;i<3;++i) sym_check(p.expand(sub)==(i<n),"each place is expanded once"); T e(sub.name(),{T("a+"),T("g0")}); T t("d+",{T("f0",{x==sub.name()?e:T(x),T("a-")}),y==sub.name()?e:T(y)}); sym_check(has(p,t),"tree"); linked(p); sym_check(has(Particle(p.decayDescriptor()),t),"the descriptor shows the expansion"); }
// matching
GOAL(matches){ string x=ch(1,"ad"),y=ch(2,"ad"),u=ch(3,"ad"),v=ch(4,"ad"); int o=sym_choose("o",0,1),kind=sym_choose("kind",0,2); T ta("c+",{T("b+",{T(x),T("g0")}),T(y)}); T tb("c+",{T("b+",kind==1?vector<T>{}:vector<T>{T(u),T("g0")}),T(v)},o?"D":""); if(kind==2) tb.k[0].n="b-"; Particle a(ta.text()),b(tb.text()); auto m=a.matches(b); bool leaf= y==v, in=x==u; if(kind==2||!leaf||(kind==0&&!in)) sym_check(m==Particle::MatchState::None,"different decays do not match"); else if(kind==1) sym_check((m&Particle::MatchState::PartialExpansion)&&!(m&Particle::MatchState::Exact),"one is partly expanded"); else if(a.L()!=b.L()) sym_check((m&Particle::MatchState::DifferentOrbital)&&!(m&Particle::MatchState::Exact),"orbital"); else sym_check(m==Particle::MatchState::Exact,"the same decay matches"); }
// which texts are descriptors
GOAL(valid){ string h=sym_string("h",1,"cdz")+"+",x=sym_string("x",1,"ayz")+"-"; int form=sym_choose("form",0,5); string s; bool ok=h!="z+"&&x!="y-"&&x!="z-"; switch(form){ case 0: s=h+"{"+x+",g0}"; break; case 1: s=h+"[D;BW]{"+x+"[X],g0}"; break; case 2: s="pre_"+h+"{"+x+",g0}_Re"; break; case 3: s=h+"{b+{"+x+",g0},a+}_Im"; break; case 4: s=h+"{"+x+",g0"; ok=false; break; case 5: s=h; ok=false; break; } sym_check(Particle::isValidDecayDescriptor(s)==ok,"valid iff all braces match and all names are known"); }
// quantum numbers of a tree
GOAL(stable_tree){ bool q=sym_choose("q",0,1); string x=ch(1,"ad"); Particle p(T("d+",{T(q?"a+":"b+",{T(x),T("g0")}),T("e0")}).text()); auto s=p.quasiStableTree(); sym_check(has(s, q?T("d+",{T("a+",{T(x),T("g0")}),T("e0")}):T("d+",{T(x),T("g0"),T("e0")})),"only quasi-stable particles stay in the tree"); }
GOAL(stable_single){ string x=ch(1,"ad"),y=ch(2,"ad"); bool q=sym_choose("q",0,1); Particle p(T("d+",{T("b+",{T(q?"a+":"c+",{T(x),T(y)})}),T("e0")}).text()); auto s=p.quasiStableTree(); sym_check(has(s,T("d+",{T(x),T(y),T("e0")})),"a particle with a single daughter has the daughter's decay products"); }
GOAL(indices_sizes){ unsigned n=sym_choose("n",0,4); V f; static const char* N[]={"a+","b+","g0","a+"}; for(unsigned i=0;i<n;++i) f.push_back(N[i]); Particle p("d+{c+{a+,b+},g0}",f); sym_check(p.isStateGood()==(n==0||n==3),"good iff the final state is the requested one"); }
