// C24: the particle table: lines, antiparticles, look-up, aliases and user-defined particles.
#include "util.h"
#include <cstdlib>
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/QuarkContent.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Units.h"
using namespace AmpGen; using std::string; using std::vector;
typedef vector<string> V;
extern "C" void setup(){ setenv("AMPGENROOT","/nonexistent",1); }
struct Line { V f; Line(): f{"10","1","2","20","3","4","1","-","0","-","+","B","211","+","4","R","pi","uD"} {} string str() const { string s=f[0]; for(size_t i=1;i<f.size();++i) s+=","+f[i]; return s; } };
static double digits(const string& s){ double v=0; for(char c:s) v=v*10+(c-'0'); return v; }
static string pad(const char* n,const string& s){ int l=sym_choose(n,0,3); return (l&1?"  ":"")+s+(l&2?" ":""); }
static string nmx(const char* b,int i){ return string(b)+char('0'+i); }
static const char* CH[]={"+","-","0","++","--"," ","","?"}; static const int CV[]={1,-1,0,2,-2,0,0,0};
static const char* SP[]={"0","1","2","3","1/2","3/2","5/2","7/2","9/2","?"}; static const int SV[]={0,2,4,6,1,3,5,7,9,-1};
static ParticlePropertiesList* fresh(){ auto p=new ParticlePropertiesList(); ParticlePropertiesList::ptr=p; return p; }
// quark content written down independently: counts of d,u,s,c,b,t in one term
struct Q { int n[6]={0,0,0,0,0,0}; Q(const string& s,int sign=1){ for(char c:s) switch(c){ case 'd': n[0]+=sign; break; case 'D': n[0]-=sign; break; case 'u': n[1]+=sign; break; case 'U': n[1]-=sign; break; case 's': n[2]+=sign; break; case 'S': n[2]-=sign; break; case 'c': n[3]+=sign; break; case 'C': n[3]-=sign; break; case 'b': n[4]+=sign; break; case 'B': n[4]-=sign; break; case 't': n[5]+=sign; break; case 'T': n[5]-=sign; break; } } bool is(const QuarkState& q) const { for(int i=0;i<6;++i) if(q[i]!=n[i]) return false; return true; } bool vac() const { for(int i=0;i<6;++i) if(n[i]) return false; return true; } };
GOAL(numbers){ Line l; int w=sym_choose("w",0,5); string s=sym_string("s",2,"25"); static const char* T[]={"","E+01","E+00",".5","e2"}; static const double M[]={1,10,1,1,100}; int k=sym_choose("k",0,4); l.f[w]=pad("p",s+T[k]); double v[6]={10,1,2,20,3,4}; v[w]=k==3?digits(s)+0.5:digits(s)*M[k]; ParticleProperties p(l.str()); sym_check(p.isValid(),"valid"); sym_eq(p.mass(),v[0]*MeV,"mass"); sym_eq(p.mErrPlus(),v[1]*MeV,"mass error"); sym_eq(p.mErrMinus(),v[2]*MeV,"mass error"); sym_eq(p.width(),v[3]*MeV,"width"); sym_eq(p.wErrPlus(),v[4]*MeV,"width error"); sym_eq(p.wErrMinus(),v[5]*MeV,"width error"); }
GOAL(quantum){ Line l; int w=sym_choose("w",0,3),v=sym_choose("v",0,7),a=w==0?v:1,b=w==1?v:2,c=w==2?v:4,q=w==3&&v<7?v:0; l.f[7]=CH[a]; l.f[9]=pad("p",CH[b]); l.f[10]=CH[c]; l.f[13]=q<5?pad("r",CH[q]):CH[q]; ParticleProperties p(l.str()); sym_check(p.isValid()&&p.G()==CV[a]&&p.P()==CV[b]&&p.C()==CV[c]&&p.charge()==CV[q],"parities and charge"); sym_check(p.I()=="1"&&p.R()==4&&p.S()=='R'&&p.twoSpin()==0&&p.pdgID()==211,"other fields"); sym_check(p.name()==string("pi")+(q<5?CH[q]:""),"name"); }
GOAL(spin){ Line l; int k=sym_choose("k",0,9); l.f[8]=pad("p",SP[k]); l.f[12]=sym_choose("g",0,1)?"22":"23"; ParticleProperties p(l.str()); sym_check(p.twoSpin()==SV[k],"spin"); sym_check(p.J()==SP[k],"spin as text"); if(k<9){ sym_check(p.isFermion()==(SV[k]%2==1)&&p.isBoson()==(SV[k]%2==0),"statistics"); } static const char* N[]={"S","V","T","H","f","r","e","c"}; if(k<8){ sym_check(p.spinName()==N[k],"spin name"); static const char* AN[]={"S","V","T","H","F","R","E","C"}; sym_check(p.anti().spinName()==AN[k],"spin name of the antiparticle"); } if(k<3||k==4){ auto h=p.polarisations(); bool gam=p.pdgID()==22&&k!=0; sym_check((int)h.size()==(gam?2:SV[k]+1),"number of polarisation states"); for(size_t i=0;i<h.size();++i){ if(gam||k==4) sym_check(h[i]*h[i]==1,"polarisation"); else sym_check(h[i]>=-SV[k]/2&&h[i]<=SV[k]/2,"polarisation"); for(size_t j=0;j<i;++j) sym_check(h[i]!=h[j],"each polarisation once"); } } }
GOAL(ident){ Line l; string id=sym_string("id",3,"12"); l.f[12]=pad("p",id); ParticleProperties p(l.str()); long v=digits(id); sym_check(p.pdgID()==v,"identifier"); sym_check(p.isPhoton()==false&&p.isNeutrino()==false,"kinds"); }
GOAL(kinds){ Line l; int k=sym_choose("k",0,7); static const char* I[]={"22","11","12","13","14","15","16","421"}; l.f[12]=I[k]; l.f[11]="F"; ParticleProperties p(l.str()); bool nu=k==2||k==4||k==6; if(sym_choose("anti",0,1)) p.antiThis(); else sym_check(p.isPhoton()==(k==0),"photon"); sym_check(p.isNeutrino()==nu,"neutrino"); sym_eq(p.radius(),k==7?5./GeV:1.5/GeV,"radius"); }
GOAL(name){ Line l; unsigned n=sym_choose("n",1,4); string s=sym_string("s",n,"aK(0*'"); l.f[16]=pad("p",s); ParticleProperties p(l.str()); sym_check(p.name()==s+"+","name followed by the charge"); sym_check(p.isNonResonant()==false,"resonant"); l.f[16]="NonRes"+s; sym_check(ParticleProperties(l.str()).isNonResonant(),"non-resonant"); }
GOAL(quarks){ Line l; unsigned n=sym_choose("n",1,sym_tier()?4:3); string s=sym_string("s",n,"uUdDsB"); int k=sym_choose("k",0,2); l.f[17]= k==0?s:k==1?"("+s+")":"x("+s+"+y(cC))"; ParticleProperties p(l.str()); sym_check(p.isValid(),"valid"); Q q(s); auto& c=p.quarkContent(); sym_check(c.size()==1&&q.is(c[0]),"quark content"); ParticleProperties a=p.anti(); Q qa(s,-1); sym_check(a.quarkContent().size()==1&&qa.is(a.quarkContent()[0]),"conjugate quark content"); }
GOAL(quarks_mixed){ Line l; string s=sym_string("s",2,"uUdS"),t=sym_string("t",2,"uDsS"); Q a(s),b(t); sym_assume(!a.vac()&&!b.vac()); static const char* F[]={"sqrt(1/2)(","x(","("}; int f=sym_choose("f",0,2); bool m=sym_choose("m",0,1); l.f[17]=F[f]+s+(m?"-":"+")+t+")"; ParticleProperties p(l.str()); auto& c=p.quarkContent(); sym_check(c.size()==2&&a.is(c[0])&&b.is(c[1]),"mixture"); auto d=p.anti().quarkContent(); sym_check(d.size()==2&&Q(s,-1).is(d[0])&&Q(t,-1).is(d[1]),"conjugate mixture"); }
GOAL(quarks_none){ Line l; int k=sym_choose("k",0,2); static const char* N[]={"non-qQ","??","Maybe non-qQ"}; l.f[17]=N[k]; ParticleProperties p(l.str()); sym_check(p.isValid()&&p.quarkContent().size()==1&&Q("").is(p.quarkContent()[0]),"no quark content"); }
static Line any(int& q,int& sp,int& af){ Line l; q=sym_choose("q",0,4); sp=sym_choose("sp",0,5); af=sym_choose("af",0,2); l.f[13]=CH[q]; l.f[8]=SP[sp]; static const char* A[]={"B","F"," "}; l.f[11]=A[af]; l.f[9]=sym_choose("par",0,1)?"+":"-"; l.f[17]="usC"; return l; }
GOAL(anti){ int q,sp,af; Line l=any(q,sp,af); bool noid=sym_choose("noid",0,1); if(noid) l.f[12]=sym_choose("blank",0,1)?" ":"0"; ParticleProperties p(l.str()),a=p.anti(); bool dist=af!=2; sym_check(p.hasDistinctAnti()==dist&&a.hasDistinctAnti()==dist,"own antiparticle"); int s=dist?-1:1; sym_check(a.charge()==s*p.charge(),"charge"); sym_check(a.pdgID()==s*p.pdgID(),"identifier"); sym_check(a.twoSpin()==p.twoSpin()&&a.G()==p.G()&&a.C()==p.C()&&a.I()==p.I()&&a.S()==p.S()&&a.R()==p.R(),"same quantum numbers"); sym_check(a.P()==(dist&&SV[sp]%2?-p.P():p.P()),"parity"); sym_eq(a.mass(),p.mass(),"mass"); sym_eq(a.width(),p.width(),"width"); sym_eq(a.radius(),p.radius(),"radius"); sym_eq(a.mErrPlus(),p.mErrPlus(),"mass error"); sym_eq(a.wErrMinus(),p.wErrMinus(),"width error"); static const char* X[]={"-","+","0","--","++"}; string want="pi"; if(af==1) want+="bar"; want+=dist?X[q]:CH[q]; sym_check(a.name()==want,"name of the antiparticle"); sym_check(Q("usC",s).is(a.quarkContent()[0]),"quark content"); ParticleProperties b=a.anti(); sym_check(b.name()==p.name()&&b.charge()==p.charge()&&b.pdgID()==p.pdgID()&&b.P()==p.P()&&Q("usC").is(b.quarkContent()[0]),"the antiparticle of the antiparticle"); ParticleProperties c(p); sym_check(c.antiThis()==dist&&c.name()==a.name(),"antiThis"); }
GOAL(invalid){ Line l; int k=sym_choose("k",0,3); string s; if(k==0) s=""; if(k==1) s="*"+l.str(); if(k==2){ l.f.pop_back(); s=l.str(); } if(k==3){ l.f.push_back("x"); s=l.str(); } sym_check(!ParticleProperties(s).isValid(),"a line of another form is no particle"); ParticleProperties d; sym_check(!d.isValid()&&!d.hasDistinctAnti()&&!d.anti().isValid(),"default"); }
// ordering and equality
GOAL(order){ ParticleProperties p[3]; for(int i=0;i<3;++i){ Line l; l.f[12]=sym_string(nmx("i",i).c_str(),1,"012"); l.f[16]=sym_string(nmx("n",i).c_str(),1,"ab"); l.f[13]=sym_choose(nmx("q",i).c_str(),0,1)?"+":"-"; p[i]=ParticleProperties(l.str()); } auto &a=p[0],&b=p[1],&c=p[2]; sym_check(!(a<a)&&a==a,"irreflexive"); sym_check(!(a<b&&b<a),"asymmetric"); if(a<b&&b<c) sym_check(a<c,"transitive"); sym_check((a<b)+(b<a)+(a==b)==1,"exactly one of less, equal, greater"); if(a==b&&b==c) sym_check(a==c,"equality is transitive"); sym_check((a>b)==(b<a)&&(a<=b)==!(b<a)&&(a>=b)==!(a<b),"other comparisons"); sym_check((a==b)==(a.pdgID()==0&&b.pdgID()==0?a.name()==b.name():a.pdgID()==b.pdgID()),"same identifier"); }
// the list
static void check_entry(const ParticlePropertiesList* L,const ParticleProperties& p,int id){ auto e=L->find(p.name(),true); sym_check(e!=nullptr,"found by name"); if(!e) return; sym_check(e->name()==p.name()&&e->charge()==p.charge()&&e->pdgID()==p.pdgID()&&e->twoSpin()==p.twoSpin(),"entry of that name"); sym_eq(e->mass(),p.mass(),"mass of the entry"); sym_eq(e->width(),p.width(),"width of the entry"); auto f=L->find(id,true); if(id!=0) sym_check(f==e,"the same entry by identifier"); sym_check(ParticlePropertiesList::get(p.name(),true)==e&&ParticleProperties::get(p.name(),true)==e,"static look-up"); auto g=L->find(e->anti().name(),true); sym_check(g!=nullptr,"its antiparticle is in the table"); if(g){ sym_check(g->pdgID()==e->anti().pdgID()&&g->charge()==e->anti().charge(),"antiparticle entry"); sym_check(L->find(g->anti().name(),true)==e,"back from the antiparticle"); if(id!=0&&e->hasDistinctAnti()) sym_check(L->find(-id,true)==g,"antiparticle by identifier"); } }
static void table(bool import){ auto L=fresh(); int n=sym_choose("n",1,sym_tier()?3:2); string text=import?"":"* comment\n# comment\n"; vector<Line> ls; static const char* NM[]={"pi","K","eta"}; static const char* ID[]={"211","321","221"}; for(int i=0;i<n;++i){ Line l; int q=sym_choose(nmx("q",i).c_str(),0,2),af=sym_choose(nmx("a",i).c_str(),0,2); static const char* A[]={"B","F"," "}; l.f[13]=CH[q]; l.f[11]=A[af]; if(q==2&&af==0) l.f[11]="F"; l.f[16]=NM[i]; l.f[12]= sym_choose(nmx("z",i).c_str(),0,1)==0 ? "" : ID[i]; l.f[0]= i==0? sym_string("m",1,"25") : string("3"); ls.push_back(l); text+=l.str()+(i+1<n||i%2?"\n":""); }
  if(import){ Line l; l.f[16]="D"; l.f[12]="421"; L->readFile(sym_file(l.str()+"\n")); L->makeMappings(); auto d=L->find("D+",true); auto op=new OptionsParser(); op->setQuiet(); OptionsParser::gOptionsParser=op; op->addArg("ParticlePropertiesList::Import "+string(sym_file(text))); sym_check(d!=nullptr&&L->find("D+",true)==d&&L->find(421,true)==d&&d->name()=="D+"&&d->pdgID()==421,"earlier entries stay as they were"); check_entry(L,ParticleProperties(l.str()),421); }
  else { sym_check(L->readFile(sym_file(text)),"file read"); L->makeMappings(); }
  size_t count=import?2:0; for(auto& l:ls){ ParticleProperties p(l.str()); int id=l.f[12]==""?0:digits(l.f[12]); check_entry(L,p,id); count+=p.hasDistinctAnti()?2:1; if(p.hasDistinctAnti()) check_entry(L,p.anti(),-id); } size_t m=0; for(auto& e:*L){ (void)e; ++m; } sym_check(m==count,"number of entries"); sym_check(L->find("mu+",true)==nullptr&&L->find(13,true)==nullptr,"absent particles are not found"); }
GOAL(table){ table(false); } GOAL(import){ table(true); }
GOAL(table_comments){ auto L=fresh(); Line l; int k=sym_choose("k",0,4); static const char* C[]={"*","#","\n","x,y\n",""}; string t=C[k]; if(k<2) t+=l.str()+"\n"; l.f[16]="K"; t+=l.str(); L->readFile(sym_file(t)); L->makeMappings(); sym_check(L->find("pi+",true)==nullptr&&L->find("K+",true)!=nullptr&&L->getParticleNames().size()==2&&L->getParticleIds().size()==2,"only table lines define particles"); }
GOAL(labels){ auto L=fresh(); sym_check(L->readLatexLabels(sym_file("211 $p$ $q$\n11 $e$ $f$")),"labels read"); Line l; int q=sym_choose("q",0,1); l.f[12]=q?"211":"311"; L->readFile(sym_file(l.str())); L->makeMappings(); sym_check(L->find("pi+",true)->label()==(q?"$p$":"")&&L->find("pi-",true)->label()==(q?"$q$":""),"label of particle and antiparticle"); }
GOAL(alias){ auto L=fresh(); Line l; L->readFile(sym_file(l.str())); L->makeMappings(); unsigned n=sym_choose("n",1,3); string s=sym_string("s",n,"ab+"); auto op=new OptionsParser(); op->setQuiet(); OptionsParser::gOptionsParser=op; op->addArg("ParticlePropertiesList::Alias pi- "+s); auto a=L->find(s,true),p=L->find("pi-",true); sym_check(a!=nullptr&&a->name()==s&&a!=p,"alias defined"); if(a){ sym_check(a->charge()==-1&&a->pdgID()==-211&&a->twoSpin()==0,"an alias has the properties of the particle"); sym_eq(a->mass(),p->mass(),"mass of the alias"); } sym_check(p->name()=="pi-"&&p->hasDistinctAnti()&&L->find(-211,true)==p,"the particle itself is unchanged"); L->makeAlias("rho0","r"); sym_check(L->find("r",true)==nullptr,"alias of an unknown particle"); }
GOAL(add){ auto L=fresh(); Line l; L->readFile(sym_file(l.str())); L->makeMappings(); bool old=sym_choose("old",0,1); string n=old?"pi+":sym_string("n",2,"xy"); int sp=sym_choose("sp",0,8),q=sym_choose("q",0,4),pa=sym_choose("pa",0,1); string m=sym_string("m",2,"25"),w=sym_string("w",1,"25"); auto op=new OptionsParser(); op->setQuiet(); OptionsParser::gOptionsParser=op; bool part=sym_choose("part",0,1); string t="ParticleProperties "+n+" mass "+m+" spin "+SP[sp]+" quarks uS"; if(!part) t+=string(" width ")+w+" charge "+CH[q]+" parity "+CH[pa]; op->addArg(t); auto e=L->find(n,true); sym_check(e!=nullptr,"defined"); if(!e) return; sym_eq(e->mass(),digits(m),"mass in GeV"); sym_eq(e->width(),part?(old?20*MeV:0):digits(w),"width in GeV"); sym_check(e->twoSpin()==SV[sp]&&e->charge()==(part?(old?1:0):CV[q])&&e->P()==(part?(old?-1:0):CV[pa]),"quantum numbers"); sym_check(Q("uS").is(e->quarkContent()[0]),"quark content"); if(!old) sym_check(e->name()==n&&!e->hasDistinctAnti()&&e->pdgID()==0,"a new particle is its own antiparticle"); else sym_check(e->pdgID()==211&&L->find(211,true)==e,"same entry"); sym_check(L->find("pi-",true)->charge()==-1,"others unchanged"); }
GOAL(add_incomplete){ auto L=fresh(); L->addParticle({"ParticleProperties","x","mass","2","width"}); auto e=L->find("x",true); sym_check(e!=nullptr,"defined"); if(e) sym_eq(e->mass(),2,"the complete pairs are used"); }
