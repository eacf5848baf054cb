// C26: texts of the options language against a recursive-descent evaluator.
#include "util.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/OptionsParser.h"
#include <complex>
#include <cmath>
using namespace AmpGen; using std::string; using std::vector; typedef std::complex<double> C;
static void same(const C& a,const C& b,const char* l){ sym_eq(a.real(),b.real(),l); sym_eq(a.imag(),b.imag(),l); }
static string nm(const char* t,int k){ string n(t); n+=char('0'+k); return n; }
struct Env { MinuitParameterSet* m; double v[4]; Env(){ m=new MinuitParameterSet(); const char* n="abcd"; for(int i=0;i<4;++i){ string s(1,n[i]); v[i]=sym_real(s.c_str()); m->add(s,Flag::Free,v[i],0); } } };
// reference: && < comparison < sum < product < power < function application < operand; same kind associates to the left
struct Ref { const vector<string>& t; const Env& e; size_t p=0; Ref(const vector<string>& t,const Env& e):t(t),e(e){}
  bool is(const char* s){ return p<t.size()&&t[p]==s; }
  C prim(){ if(is("(")){ ++p; C r=land(); ++p; return r; } if(is("sin")){ ++p; return std::sin(prim()); } if(is("exp")){ ++p; return std::exp(prim()); } if(is("real")){ ++p; return C(prim().real(),0); } if(is("abs")){ ++p; return C(std::abs(prim()),0); }
    string s=t[p++]; if(s.size()==1&&s[0]>='a'&&s[0]<='d') return C(e.v[s[0]-'a'],0); if(s=="2") return 2.; if(s=="-0.5") return -0.5; return C(0,1); }
  C pw(){ C r=prim(); while(is("^")){ ++p; C x=prim(); r=std::pow(r,x); } return r; }
  C mul(){ C r=pw(); while(is("*")||is("/")){ bool d=t[p][0]=='/'; ++p; C x=pw(); if(d) r=r/x; else r=C(r.real()*x.real()-r.imag()*x.imag(),r.real()*x.imag()+r.imag()*x.real()); } return r; }
  C add(){ C r=mul(); while(is("+")||is("-")){ bool d=t[p][0]=='-'; ++p; C x=mul(); r= d? r-x: r+x; } return r; }
  C cmp(){ C r=add(); while(is("<")||is(">")){ bool l=t[p][0]=='<'; ++p; C x=add(); bool b= l? r.real()<x.real() : r.real()>x.real(); r=b?1.:0.; } return r; }
  C land(){ C r=cmp(); while(is("&&")){ ++p; C x=cmp(); bool b=(r.real()!=0)&&(x.real()!=0); r=b?1.:0.; } return r; } };
static string join(const vector<string>& t){ string s; for(size_t i=0;i<t.size();++i) s+=(i?" ":"")+t[i]; return s; }
static void agree(const vector<string>& t,const Env& e){ C want=Ref(t,e).land(); same(ExpressionParser::parse(t.cbegin(),t.cend(),e.m)(),want,"token list"); same(ExpressionParser::parse(join(t),e.m)(),want,"text"); }
static const char* OPS[]={"+","-","*","/","^","<",">","&&"};
static vector<string> chain(int n,int nops,const char* tag=""){ vector<string> t; int last=-1; for(int i=0;i<n;++i){ if(i){ int o=sym_choose((nm("op",i)+tag).c_str(),0,nops-1); if(o>=4){ sym_assume(!(last==4&&o==4)); sym_assume(!(last>=5&&last<7&&o>=5&&o<7)); } last=o; t.push_back(OPS[o]); } t.push_back(string(1,"abcd"[i])); } return t; }
// 0..n-1 operands; brackets around operands i..j
static void bracket(vector<string>& t,int i,int j){ t.insert(t.begin()+2*j+1,")"); t.insert(t.begin()+2*i,"("); }
GOAL(two){ Env e; agree(chain(2,8),e); }
GOAL(three){ Env e; agree(chain(3,8),e); }
#define FOUR(k) GOAL(four_##k){ Env e; vector<string> t{"a",OPS[k],"b"}; int o2=sym_choose("op2",0,sym_tier()?7:4),o3=sym_choose("op3",0,sym_tier()?7:4); sym_assume(!(k==4&&o2==4)&&!(o2==4&&o3==4)); auto cm=[](int o){ return o==5||o==6; }; sym_assume(cm(k)+cm(o2)+cm(o3)<2); t.push_back(OPS[o2]); t.push_back("c"); t.push_back(OPS[o3]); t.push_back("d"); agree(t,e); }
FOUR(0) FOUR(1) FOUR(2) FOUR(3) FOUR(4) FOUR(5) FOUR(6) FOUR(7)
GOAL(brackets3){ Env e; auto t=chain(3,5); int i=sym_choose("i",0,2),j=sym_choose("j",0,2); sym_assume(i<=j); bracket(t,i,j); agree(t,e); }
#define BR4(i,j) GOAL(brackets4_##i##j){ Env e; auto t=chain(4,sym_tier()?5:4); bracket(t,i,j); agree(t,e); }
BR4(0,1) BR4(1,2) BR4(2,3) BR4(0,2) BR4(1,3)
GOAL(brackets_nested){ Env e; auto t=chain(4,4); int k=sym_choose("k",0,3); if(k==0){ bracket(t,1,2); t.insert(t.begin(),"("); t.insert(t.begin()+8,")"); } else if(k==1){ t.insert(t.begin()+7,")"); t.insert(t.begin()+4,"("); t.insert(t.begin()+3,")"); t.insert(t.begin(),"("); } else if(k==2){ t.insert(t.begin()+7,")"); t.insert(t.begin()+7,")"); t.insert(t.begin()+4,"("); t.insert(t.begin()+2,"("); } else { t.insert(t.begin(),"("); t.push_back(")"); t.insert(t.begin(),"("); t.push_back(")"); } agree(t,e); }
static const char* UN[]={"sin","exp","real","abs"};
GOAL(functions){ Env e; auto t=chain(3,4); int i=sym_choose("i",0,2),f=sym_choose("f",0,1); t.insert(t.begin()+2*i,UN[f]); agree(t,e); }
GOAL(functions_nested){ Env e; auto t=chain(2,5); int i=sym_choose("i",0,1),f=sym_choose("f",0,3),g=sym_choose("g",0,3); t.insert(t.begin()+2*i,UN[f]); t.insert(t.begin()+2*i,UN[g]); agree(t,e); }
GOAL(functions_each){ Env e; auto t=chain(3,4); int f=sym_choose("f",0,1),g=sym_choose("g",0,1); t.insert(t.begin()+4,UN[f]); t.insert(t.begin()+2,UN[g]); agree(t,e); }
GOAL(functions_bracketed){ Env e; auto t=chain(3,4); int i=sym_choose("i",0,1),f=sym_choose("f",0,1); bracket(t,i,i+1); t.insert(t.begin()+2*i,UN[f]); if(sym_choose("g",0,1)){ t.insert(t.begin()+2*i,"sin"); } agree(t,e); }
GOAL(multi_argument){ Env e; auto f=chain(2,2); vector<string> t{"atan2","("}; for(auto& x:f) t.push_back(x); t.push_back(","); t.push_back("c"); t.push_back(")"); bool tail=sym_choose("tail",0,1); if(tail){ t.push_back("*"); t.push_back("d"); } double s= f[1]=="+"? e.v[0]+e.v[1] : e.v[0]-e.v[1]; double w=std::atan2(s,e.v[2]); if(tail) w*=e.v[3]; same(ExpressionParser::parse(t.cbegin(),t.cend(),e.m)(),w,"atan2"); }
GOAL(conditional){ Env e; int o=sym_choose("o",5,6); vector<string> t{"Ternary","(","a",OPS[o],"b",",","c","*","d",",","d","-","c",")"}; bool b= o==5? e.v[0]<e.v[1] : e.v[0]>e.v[1]; same(ExpressionParser::parse(t.cbegin(),t.cend(),e.m)(), b? e.v[2]*e.v[3] : e.v[3]-e.v[2],"conditional"); vector<string> u{"a","+","Ternary","(","a",OPS[o],"b","&&","c",">","d",",","c",",","d",")"}; b=b&&e.v[2]>e.v[3]; same(ExpressionParser::parse(u.cbegin(),u.cend(),e.m)(), e.v[0]+(b? e.v[2] : e.v[3]),"conditional with conjunction"); }
// end points
GOAL(numbers){ unsigned n=sym_choose("n",1,3); auto s=sym_string("s",n,"25.-"); bool ok=true,neg=false,dot=false; size_t i=0; int dg=0; double v=0,sc=1; if(s[0]=='-'){ neg=true; i=1; } for(;i<n;++i){ if(s[i]=='.'){ if(dot) ok=false; dot=true; } else if(s[i]=='-') ok=false; else { ++dg; if(dot){ sc/=10; v+=(s[i]-'0')*sc; } else v=v*10+(s[i]-'0'); } } sym_assume(ok&&dg>0); if(neg) v=-v; Env e; same(ExpressionParser::parse(s,e.m)(),v,"number"); same(ExpressionParser::parse("a * "+s,e.m)(),e.v[0]*v,"times a number"); }
static double dist(double a,double b){ double d=a-b; return d<0?-d:d; }
GOAL(constants){ Env e; for(auto n:{"pi","PI","M_PI"}){ C z=ExpressionParser::parse(n,e.m)(); sym_check(dist(z.real(),3.14159265358979324)<1e-15&&z.imag()==0,n); } C z=ExpressionParser::parse("e",e.m)(); sym_check(dist(z.real(),2.71828182845904524)<1e-15&&z.imag()==0,"e"); for(auto n:{"i","I"}){ same(ExpressionParser::parse(n,e.m)(),C(0,1),n); same(ExpressionParser::parse(string("a + ")+n+" * b",e.m)(),C(e.v[0],e.v[1]),n); } }
GOAL(lookup){ auto m=new MinuitParameterSet(); string n0=sym_string("n0",2,"xy"),n1=sym_string("n1",2,"xy"); sym_assume(n0!=n1); double x=sym_real("x"),y=sym_real("y"); auto p=m->add(n0,Flag::Free,x,0),q=m->add(n1,Flag::Free,y,0); auto ex=ExpressionParser::parse(n0+" - "+n1,m); sym_eq(ex().real(),x-y,"names denote their own parameter"); double z=sym_real("z"); p->setCurrentFitVal(z); sym_eq(ex().real(),z-y,"and follow its value"); q->setCurrentFitVal(x); sym_eq(ex().real(),z-x,"and follow its value"); }
GOAL(complex_name){ auto m=new MinuitParameterSet(); double x=sym_real("x"),y=sym_real("y"); bool swap=sym_choose("swap",0,1); if(!swap) m->add("g_Re",Flag::Free,x,0); m->add("g_Im",Flag::Free,y,0); if(swap) m->add("g_Re",Flag::Free,x,0); same(ExpressionParser::parse("g",m)(),C(x,y),"cartesian pair"); same(ExpressionParser::parse("2 * g",m)(),C(2*x,2*y),"cartesian pair"); }
static void polar(const char* unit,double sf){ auto& L=OptionsParser::getMe()->m_parsedLines; L["CouplingConstant::Coordinates"]={"CouplingConstant::Coordinates","polar"}; if(unit) L["CouplingConstant::AngularUnits"]={"CouplingConstant::AngularUnits",unit}; auto m=new MinuitParameterSet(); double x=sym_real("x"),y=sym_real("y"); m->add("g_Re",Flag::Free,x,0); m->add("g_Im",Flag::Free,y,0); ExpressionParser P; C z=P.processEndPoint("g",m)(); C w=std::exp(C(0,sf*y)); sym_eq(z.real(),x*w.real(),"real part"); sym_eq(z.imag(),x*w.imag(),"imaginary part"); }
GOAL(polar_default){ polar(nullptr,1); } GOAL(polar_rad){ polar("rad",1); } GOAL(polar_deg){ polar("deg",M_PI/180); }
// parameters defined by an expression
GOAL(alias){ Env e; auto t=chain(3,4); vector<string> line{"z","="}; for(auto& x:t) line.push_back(x); C want=Ref(t,e).land(); e.m->tryAlias(line); auto p=e.m->find("z"); sym_check(p!=nullptr,"defined"); if(p){ sym_eq(p->mean(),want.real(),"value"); sym_eq(double(*p),want.real(),"value"); same(ExpressionParser::parse("z * d",e.m)(),C(want.real()*e.v[3],0),"use of a defined parameter"); e.m->at(size_t(0))->setCurrentFitVal(5); Env f=e; f.v[0]=5; sym_eq(p->mean(),Ref(t,f).land().real(),"follows its inputs"); } }
