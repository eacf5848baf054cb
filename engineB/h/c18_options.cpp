// C18: option lines, files, command lines, named settings and enumerations.
#include "util.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/Particle.h"
#include "AmpGen/Units.h"
#include "AmpGen/enum.h"
using namespace AmpGen; using std::string; using std::vector;
namespace AmpGen { template<> Flag lexical_cast(const std::string&,bool&); template<> coordinateType lexical_cast(const std::string&,bool&); template<> angType lexical_cast(const std::string&,bool&); template<> Units lexical_cast(const std::string&,bool&); template<> spinFormalism lexical_cast(const std::string&,bool&); template<> spinBasis lexical_cast(const std::string&,bool&); }
typedef vector<string> V;
static void same(const V& a,const V& b,const char* l){ sym_check(a.size()==b.size(),l); for(size_t i=0;i<a.size()&&i<b.size();++i) sym_check(a[i]==b[i],l); }
static OptionsParser* fresh(){ auto p=new OptionsParser(); p->setQuiet(); OptionsParser::gOptionsParser=p; return p; }
// words are separated by blanks, a quoted text is one word, # outside quotes starts a comment
struct Words { V w; int depth=0; bool balanced=true; Words(const string& s){ string cur; bool q=false; for(char c:s){ if(q){ if(c=='"'){ if(!cur.empty()) w.push_back(cur); cur=""; q=false; } else cur+=c; continue; } if(c=='#') break; if(c=='"'||c==' '||c=='\t'){ if(!cur.empty()) w.push_back(cur); cur=""; if(c=='"') q=true; continue; } if(c=='{') ++depth; if(c=='}') --depth; cur+=c; } if(!q&&!cur.empty()) w.push_back(cur); balanced=!q; } };
GOAL(words){ unsigned n=sym_choose("n",0,sym_tier()?7:6); auto s=sym_string("s",n,"a #\""); Words r(s); sym_assume(r.balanced); int d=0; same(fresh()->makeParsedStrings(s,d),r.w,"words of a line"); sym_check(d==r.depth,"open braces"); }
GOAL(words_braces){ unsigned n=sym_choose("n",0,sym_tier()?6:4); auto s=sym_string("s",n,"a {}\"\t"); Words r(s); sym_assume(r.balanced); int d=sym_choose("d",0,1),d0=d; same(fresh()->makeParsedStrings(s,d),r.w,"words of a line"); sym_check(d==d0+r.depth,"open braces"); }
GOAL(words_anybyte){ unsigned n=sym_choose("n",0,3); auto s=sym_string("s",n); for(char c:s) sym_assume(c>31&&c<127); Words r(s); sym_assume(r.balanced); int d=0; same(fresh()->makeParsedStrings(s,d),r.w,"words of a line"); sym_check(d==r.depth,"open braces"); }
// a history of settings: the last line of a key counts; keys are listed once, in order of first appearance
static string key(int k){ string n("k"); n+=char('0'+k); return sym_string(n.c_str(),1,"xyz"); }
static string val(int k,unsigned n=1){ string m("v"); m+=char('0'+k); return sym_string(m.c_str(),n,"12"); }
GOAL(settings){ auto p=fresh(); int n=sym_choose("n",1,sym_tier()?4:3); vector<V> ref; for(int i=0;i<n;++i){ string k=key(i),v=val(i,i%2+1); int form=sym_choose((string("f")+char('0'+i)).c_str(),0,2); V line{k,v}; string t=k+" "+v; if(form==1){ t="  "+k+"\t"+v+" # c"; } if(form==2){ t+=" b"; line.push_back("b"); } p->addArg(t); bool known=false; for(auto& r:ref) if(r[0]==k){ r=line; known=true; } if(!known) ref.push_back(line); }
  auto o=p->getInputOrdered(); sym_check(o.size()==ref.size(),"each key is listed once"); for(size_t i=0;i<ref.size()&&i<o.size();++i) same(o[i],ref[i],"lines in order"); for(auto& r:ref){ auto it=p->find(r[0]); sym_check(it!=p->end(),"found"); if(it!=p->end()){ sym_check(it->first==r[0],"key"); same(it->second,r,"last line of the key"); } } const char* all[]={"x","y","z"}; for(auto a:all){ bool in=false; for(auto& r:ref) in|=r[0]==a; if(!in) sym_check(p->find(a)==p->end(),"a key that was not given is absent"); } size_t c=0; for(auto& kv:*p){ (void)kv; ++c; } sym_check(c==ref.size(),"number of keys"); }
GOAL(nothing){ auto p=fresh(); unsigned n=sym_choose("n",0,3); auto s=sym_string("s",n," \t#"); p->addArg(s); sym_check(p->begin()==p->end()&&p->getInputOrdered().empty(),"blank lines and comments define nothing"); }
// files
GOAL(file_lines){ auto p=fresh(); int n=sym_choose("n",1,sym_tier()?3:2); string text; vector<V> ref; for(int i=0;i<n;++i){ string k=key(i),v=val(i); int form=sym_choose((string("f")+char('0'+i)).c_str(),0,6); string end= sym_choose((string("e")+char('0'+i)).c_str(),0,1)?"\r\n":"\n"; V line{k,v}; bool def=true; switch(form){ case 0: text+=k+" "+v; break; case 1: text+="# "+k+" "+v; def=false; break; case 2: text+="* "+k+" "+v; def=false; break; case 3: text+=k+" "+v+" # "+k; break; case 4: text+="\n\n "+k+" \""+v+" w\""; line[1]=v+" w"; break; case 5: text+=k+" {\n "+v+"\n # in between\n }"; break; case 6: text+="   # "+k; def=false; break; } if(i+1<n||form%2) text+=end; if(!def) continue; bool known=false; for(auto& r:ref) if(r[0]==k){ r=line; known=true; } if(!known) ref.push_back(line); }
  p->import(sym_file(text)); auto o=p->getInputOrdered(); sym_check(o.size()==ref.size(),"settings of a file"); for(size_t i=0;i<ref.size()&&i<o.size();++i) same(o[i],ref[i],"settings of a file"); }
GOAL(file_any){ auto p=fresh(); unsigned n=sym_choose("n",0,sym_tier()?6:5); auto s=sym_string("s",n,"a #\n"); vector<V> ref; string cur; auto flush=[&]{ if(cur!=""&&cur[0]!='#'){ Words w(cur); if(!w.w.empty()){ bool known=false; for(auto& r:ref) if(r[0]==w.w[0]){ r=w.w; known=true; } if(!known) ref.push_back(w.w); } } cur=""; }; for(char c:s){ if(c=='\n') flush(); else cur+=c; } flush(); p->import(sym_file(s)); auto o=p->getInputOrdered(); sym_check(o.size()==ref.size(),"lines of a file"); for(size_t i=0;i<ref.size()&&i<o.size();++i) same(o[i],ref[i],"lines of a file"); }
GOAL(file_braces){ auto p=fresh(); unsigned n=sym_choose("n",0,sym_tier()?5:4); auto s=sym_string("s",n,"b\n }"); V want{"k"}; string cur; bool closed=false; V after; string rest; for(size_t i=0;i<s.size();++i){ char c=s[i]; if(closed){ rest+=c; continue; } if(c=='}'){ closed=true; if(cur!="") sym_assume(false); continue; } if(c=='\n'||c==' '){ if(cur!="") want.push_back(cur); cur=""; } else cur+=c; } sym_assume(closed); for(char c:rest) sym_assume(c==' '||c=='\n'); p->import(sym_file("k { "+s+"\nz 1\n")); auto o=p->getInputOrdered(); sym_check(o.size()==2,"a block in braces is one setting"); if(o.size()==2){ same(o[0],want,"values of a block"); same(o[1],V{"z","1"},"the next setting"); } }
// command line
GOAL(command_line){ auto p=fresh(); int n=sym_choose("n",1,3); vector<string> args{"prog"}; vector<V> ref; int after=0; for(int i=0;i<n;++i){ string k=key(i),v=val(i); int form=sym_choose((string("f")+char('0'+i)).c_str(),0,5); V line{k,v}; switch(form){ case 4: args.push_back("--"+k+"="+v+"="+v); line[1]=v+"="+v; break; case 5: args.push_back("--"+k); args.push_back(v+"=x"); line[1]=v+"=x"; break; case 0: args.push_back("--"+k+"="+v); break; case 1: args.push_back("--"+k); args.push_back(v); break; case 2: args.push_back("--"+k); line[1]="1"; break; case 3: args.push_back("--"+k+"=-"+v); line[1]="-"+v; break; } bool known=false; for(auto& r:ref) if(r[0]==k){ r=line; known=true; } if(!known) ref.push_back(line); }
  vector<char*> a; for(auto& s:args) a.push_back(&s[0]); p->setCommandLineArgs(a.size(),a.data()); auto o=p->getInputOrdered(); sym_check(o.size()==ref.size(),"settings of a command line"); for(size_t i=0;i<ref.size()&&i<o.size();++i) same(o[i],ref[i],"settings of a command line"); (void)after; }
// named settings
static long digits(const string& s){ long v=0; for(char c:s) v=v*10+(c-'0'); return v; }
GOAL(named_int){ auto p=fresh(); unsigned n=sym_choose("n",1,3); auto s=sym_string("s",n,"0379"); bool neg=sym_choose("neg",0,1),other=sym_choose("other",0,1); p->addArg(string("a")+" "+(neg?"-":"")+s); if(other) p->addArg("b 5 6"); long v=digits(s); if(neg) v=-v; sym_check(int(NamedParameter<int>("a",17))==v,"int"); if(!neg){ sym_check(size_t(NamedParameter<size_t>("a",17))==size_t(v),"size_t"); sym_check(unsigned(NamedParameter<unsigned>("a",17))==unsigned(v),"unsigned"); } sym_eq(NamedParameter<double>("a",17.),double(v),"double"); sym_check(string(NamedParameter<string>("a","u"))==(neg?"-":"")+s,"string"); NamedParameter<int> b("b",17); sym_check(b.size()==(other?2u:1u)&&b.getVal(0)==(other?5:17)&&(!other||b.getVal(1)==6),"default or list"); sym_check(int(NamedParameter<int>("c",17))==17,"default"); }
GOAL(named_list){ auto p=fresh(); unsigned n=sym_choose("n",0,4); string t="a"; long v[4]; V w; for(unsigned i=0;i<n;++i){ string m("s"); m+=char('0'+i); auto s=sym_string(m.c_str(),1+i%2,"04"); v[i]=digits(s); w.push_back(s); t+=" "+s; } p->addArg(t); unsigned m=sym_choose("m",0,2); vector<int> def; for(unsigned i=0;i<m;++i) def.push_back(100+i); NamedParameter<int> q("a",def); auto& g=q.getVector(); if(n==0) sym_check(g==def,"default list"); else { sym_check(g.size()==n,"length"); for(unsigned i=0;i<n&&i<g.size();++i) sym_check(g[i]==v[i]&&q.getVal(i)==v[i],"element"); } NamedParameter<string> str("a",V{"u","w"}); same(str.getVector(),n?w:V{"u","w"},"strings"); }
GOAL(named_bool){ auto p=fresh(); int k=sym_choose("k",0,4); static const char* T[]={"true","false","1","0",""}; p->addArg(string("a ")+T[k]); bool d=sym_choose("d",0,1); sym_check(bool(NamedParameter<bool>("a",d))==(k==0||k==2||(k==4&&d)),"bool"); }
GOAL(named_range){ sym_expect_throw(1); fresh()->addArg("a 1 2"); NamedParameter<int> q("a",0); int i=sym_int("i",-3,5); int r=q.getVal(i); sym_check(i>=0&&i<2&&r==i+1,"an index outside the list is rejected"); }
GOAL(named_set){ fresh(); NamedParameter<int> q("a",4); int i=sym_choose("i",0,2),v=sym_int("v",-5,5); q.setVal(v,i); sym_check(q.size()==(size_t)i+1&&q.getVal(i)==v&&(i==0||q.getVal(0)==4),"setVal"); q=9; sym_check(q.getVal(0)==9&&(i==0||q.getVal(i)==v),"assignment"); q=vector<int>{1,2,3,4}; sym_check(q.size()==4&&q.getVal(3)==4,"assignment of a list"); }
// enumerations
template <class E> static void enumeration(const V& names){ for(size_t i=0;i<names.size();++i){ sym_check(parse<E>(names[i])==E(i),"name to value"); sym_check(to_string<E>(E(i))==names[i],"value to name"); char d[2]={char('0'+i),0}; if(i<10) sym_check(parse<E>(d)==E(i),"number to value"); bool st=true; sym_check(lexical_cast<E>(names[i],st)==E(i)&&st,"conversion"); } string s; int kind=sym_choose("kind",0,2); if(kind==0) s=sym_string("s",sym_choose("n",0,sym_tier()?4:3),"0179a,"); else { auto& w=names[sym_choose("i",0,names.size()-1)]; string c=sym_string("c",1,"aFeV0,."); s= kind==1? w+c : w.substr(0,sym_choose("l",0,w.size()-1)); if(kind==2&&sym_choose("x",0,1)) s+=c+w.substr(s.size()+1); } size_t n=s.size(); bool num=n>0; unsigned long v=0; for(char c:s){ if(c<'0'||c>'9') num=false; else v=v*10+(c-'0'); } E r=parse<E>(s); E want=E::Invalid; for(size_t i=0;i<names.size();++i) if(s==names[i]) want=E(i); if(num&&v<names.size()) want=E(v); sym_check(r==want,"only names and numbers of the enumeration are accepted"); }
GOAL(enum_flag){ enumeration<Flag>({"Free","Hide","Fix","CompileTimeConstant","Blind"}); } GOAL(enum_coordinates){ enumeration<coordinateType>({"cartesian","polar"}); } GOAL(enum_angle){ enumeration<angType>({"deg","rad"}); } GOAL(enum_units){ enumeration<Units>({"TeV","GeV","MeV","KeV","eV","ms","us","ns","ps","fs"}); } GOAL(enum_formalism){ enumeration<spinFormalism>({"Covariant","Canonical"}); } GOAL(enum_basis){ enumeration<spinBasis>({"Dirac","Weyl"}); }
GOAL(named_enum){ auto p=fresh(); int k=sym_choose("k",0,3); static const char* T[]={"cartesian","polar","sperical",nullptr}; if(T[k]) p->addArg(string("c ")+T[k]); coordinateType c=NamedParameter<coordinateType>("c",coordinateType::polar); sym_check(c==(k==0?coordinateType::cartesian:k==2?coordinateType::Invalid:coordinateType::polar),"named enumeration"); }
// parameters stated in options
static string num(const char* n,double& v,bool free=true){ auto s= free? sym_string(n,2,"125") : string("1")+char(n[0]-'a'+'0'); v=digits(s); return s; }
static void par(MinuitParameterSet& m,const string& n,Flag f,double v,double s,double lo,double hi){ auto p=m.find(n); sym_check(p!=nullptr,"parameter defined"); if(!p) return; sym_check(p->flag()==f,"flag"); sym_eq(p->mean(),v,"mean"); sym_eq(p->stepInit(),s,"step"); sym_eq(p->minInit(),lo,"min"); sym_eq(p->maxInit(),hi,"max"); }
static const char* FL[]={"Free","Hide","Fix","CompileTimeConstant","Blind"};
static void parameter(int form){ auto o=fresh(); double v[8]; string s[8]; const char* nn[]={"a","b","c","d","e","f","g","h"}; int w=sym_choose("w",0,7); for(int i=0;i<8;++i) s[i]=num(nn[i],v[i],i==w); int f=sym_choose("fl",0,4),g=sym_choose("gl",0,4); string F=FL[f],G=FL[g]; bool lim=form%2,cplx=form/2; V t{"par",F,s[0],s[1]}; if(lim){ t.push_back(s[2]); t.push_back(s[3]); } if(cplx){ t.push_back(G); t.push_back(s[4]); t.push_back(s[5]); if(lim){ t.push_back(s[6]); t.push_back(s[7]); } } string line=t[0]; for(size_t i=1;i<t.size();++i) line+=" "+t[i]; if(!sym_is_native()||1) o->addArg(line); MinuitParameterSet* m=new MinuitParameterSet(); m->loadFromStream(); sym_check(m->size()==(cplx?2u:1u),"number of parameters"); if(!cplx) par(*m,"par",Flag(f),v[0],v[1],lim?v[2]:0,lim?v[3]:0); else { par(*m,"par_Re",Flag(f),v[0],v[1],lim?v[2]:0,lim?v[3]:0); par(*m,"par_Im",Flag(g),v[4],v[5],lim?v[6]:0,lim?v[7]:0); } }
GOAL(parameter_plain){ parameter(0); } GOAL(parameter_limits){ parameter(1); } GOAL(parameter_complex){ parameter(2); } GOAL(parameter_complex_limits){ parameter(3); }
GOAL(parameter_not){ auto o=fresh(); int k=sym_choose("k",0,5); static const char* T[]={"par Free 1","par Free 1 x","par free 1 2","par Free 1 2 3","par 1 2","par Free 1 2 Fixed 1 2"}; o->addArg(T[k]); MinuitParameterSet* m=new MinuitParameterSet(); m->loadFromStream(); sym_check(m->size()==0,"other lines define no parameter"); }
GOAL(parameter_alias){ auto o=fresh(); double a,b; string sa=num("a",a),sb=num("b",b); bool first=sym_choose("first",0,1); if(first) o->addArg("z = x * y"); o->addArg("x Free "+sa+" 1"); o->addArg("y Fix "+sb+" 1"); if(!first) o->addArg("z = x * y"); MinuitParameterSet* m=new MinuitParameterSet(); m->loadFromStream(); sym_check(m->size()==3,"number of parameters"); auto z=m->find("z"); sym_check(z!=nullptr,"defined"); if(z) sym_eq(z->mean(),a*b,"value"); }
