// Emission of translation-validation cases: for an expression, the source AmpGen generates (through its own CompilerWrapper) and an
// independent one-node-per-line evaluation of the same tree (the oracle), plus goals that compare them for symbolic inputs.
#pragma once
#include "../engineA/field.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/Array.h"
#include "AmpGen/Spline.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/Types.h"
#include <fstream>
#include <sstream>
#include <iostream>
#include <set>
#include <unistd.h>
namespace vg {
using namespace AmpGen; typedef std::vector<Expression> EV; typedef std::map<std::string,unsigned> EM;
inline std::string num(double v){ char b[64]; snprintf(b,64,"%a",v); std::string s=b; return v<0||s[0]=='-'?"("+s+")":s; }
inline EV kids(const Expression& e){ const IExpression* p=e.get();
  if(auto x=dynamic_cast<const Array*>(p)) return {x->m_address}; if(auto x=dynamic_cast<const TensorExpression*>(p)){ EV r; Tensor t=x->tensor(); for(unsigned i=0;i<t.size();++i) r.push_back(t[i]); return r; }
  if(auto x=dynamic_cast<const ExpressionPack*>(p)) return x->m_expressions; if(auto x=dynamic_cast<const Function*>(p)) return x->m_args; if(auto x=dynamic_cast<const Spline*>(p)) return {x->m_x}; return va::children(e); }
inline std::vector<Expression> nodes(const EV& roots){ EV out,st=roots; std::set<const IExpression*> seen; while(!st.empty()){ auto x=st.back(); st.pop_back(); if(!seen.insert(x.get()).second) continue; out.push_back(x); for(auto& c:kids(x)) st.push_back(c); if(auto q=dynamic_cast<const Array*>(x.get())) st.push_back(q->m_top); } return out; }
// distinct values for every named parameter, so that its slot can be read off the array of externals
struct Distinct { std::map<std::string,double> v; double next=1000.5; double of(const std::string& n){ auto it=v.find(n); if(it!=v.end()) return it->second; double r=next; next+=1; return v[n]=r; } };
inline void distinct(const EV& roots, Distinct& D, const EM& evt){ auto set=[&](const Parameter* q){ if(!evt.count(q->name())) const_cast<Parameter*>(q)->m_defaultValue=D.of(q->name()); };
  for(auto& x:nodes(roots)){ if(auto q=dynamic_cast<const Parameter*>(x.get())) set(q); if(auto q=dynamic_cast<const ComplexParameter*>(x.get())){ set(&q->m_real); set(&q->m_imag); } } }
struct Oracle { // prints the tree, one node per line
  std::function<std::string(const std::string&)> slot; std::function<std::string(const IExpression*)> special; std::map<const IExpression*,std::string> memo; std::ostringstream os; std::string prefix; int n=0; std::vector<Expression> keep;
  std::string fresh(const std::string& rhs){ std::string v=prefix+std::to_string(n++); os<<"  auto "<<v<<" = "<<rhs<<";\n"; return v; }
  std::string operator()(const Expression& e){ auto p=e.get(); auto it=memo.find(p); if(it!=memo.end()) return it->second; keep.push_back(e); return memo[p]=node(e,p); }
  template <class T> static const T* as(const IExpression* p){ return dynamic_cast<const T*>(p); }
  std::string node(const Expression& e,const IExpression* p){ auto& O=*this;
    if(auto x=as<Constant>(p)){ complex_t z=(*x)(); return fresh(z.imag()==0?num(z.real()):"C_("+num(z.real())+","+num(z.imag())+")"); }
    if(auto x=as<SubTree>(p)) return O(x->expression());
    if(auto x=as<Parameter>(p)) return fresh(x->isResolved()?x->name():slot(x->name()));
    if(auto x=as<ComplexParameter>(p)) return fresh("C_("+slot(x->m_real.name())+","+slot(x->m_imag.name())+")");
    if(auto x=as<MinuitParameterLink>(p)) return fresh(slot(x->name()));
    if(auto x=as<Ternary>(p)){ auto c=O(x->m_cond),a=O(x->m_v1),b=O(x->m_v2); return fresh("o_sel("+c+","+a+","+b+")"); }
    if(auto x=as<Array>(p)){ auto a=O(x->m_address); return fresh("o_at("+special(x->m_top.get())+","+a+","+std::to_string(x->size())+")"); }
    if(auto x=as<Function>(p)){ std::string s; for(auto& a:x->m_args) s+=(s==""?"":", ")+O(a); return fresh(x->m_name+"("+s+")"); }
#define U_(T,f) if(auto x=as<T>(p)) return fresh(f "("+O(x->arg())+")");
    U_(Log,"log") U_(Sqrt,"sqrt") U_(Exp,"exp") U_(Sin,"sin") U_(Cos,"cos") U_(Tan,"tan") U_(ASin,"asin") U_(ACos,"acos") U_(ATan,"atan") U_(Norm,"std::norm") U_(Real,"o_re") U_(Imag,"o_im") U_(Conj,"o_conj") U_(Abs,"std::abs") U_(LGamma,"std::lgamma") U_(ISqrt,"1./sqrt")
#define B_(T,op) if(auto x=as<T>(p)){ auto a=O(x->l()),b=O(x->r()); return fresh(a+" " op " "+b); }
    B_(Sum,"+") B_(Sub,"-") B_(Product,"*") B_(Divide,"/") B_(And,"&&") B_(Or,"||") B_(LessThan,"<") B_(GreaterThan,">") B_(LessThanEqualTo,"<=") B_(GreaterThanEqualTo,">=") B_(Equal,"==")
#define F_(T,f) if(auto x=as<T>(p)){ auto a=O(x->l()),b=O(x->r()); return fresh(f "("+a+","+b+")"); }
    F_(Pow,"pow") F_(Fmod,"fmod") F_(ATan2,"atan2")
    return special(p); } };
inline const char* prelude(){ return R"(
#include "util.h"
#include <complex>
#include <cmath>
#include <cstring>
#include <vector>
typedef std::complex<double> C_;
template <class A,class B> inline C_ o_mix(bool c,const A& a,const B& b){ return c?C_(a):C_(b); }
inline double o_sel(bool c,double a,double b){ return c?a:b; }
inline C_ o_sel(bool c,const C_& a,const C_& b){ return o_mix(c,a,b); }
inline C_ o_sel(bool c,double a,const C_& b){ return o_mix(c,a,b); }
inline C_ o_sel(bool c,const C_& a,double b){ return o_mix(c,a,b); }
inline double o_at(const double* p,double a,int size){ if(size!=-1 && !(a>=0 && a<size)) a=0; return p[int(a)]; }
inline double o_re(double a){ return a; } inline double o_im(double a){ return 0; } inline C_ o_conj(double a){ return C_(a,0); }
inline double o_re(const C_& a){ return a.real(); } inline double o_im(const C_& a){ return a.imag(); } inline C_ o_conj(const C_& a){ return C_(a.real(),-a.imag()); }
inline C_ o_c(double a){ return C_(a,0); } inline C_ o_c(const C_& a){ return a; }
static void same_(const C_& a,const C_& b,const char* l){ sym_eq(a.real(),b.real(),l); sym_eq(a.imag(),b.imag(),l); }
)"; }
struct Slots { std::string expr; bool ok; };
// locate the slot of every parameter by its distinctive value
template <class CE> std::function<std::string(const std::string&)> slots(const CE& ce,const EM& evt,Distinct& D,std::vector<std::string>& missing,const std::string& event="x1"){
  auto ext=ce.externBuffer(); return [=,&D,&missing](const std::string& n)->std::string{ auto it=evt.find(n); if(it!=evt.end()) return event+"["+std::to_string(it->second)+"]"; double v=D.of(n); int at=-1,c=0; for(size_t i=0;i<ext.size();++i) if(ext[i]==v){ at=i; ++c; } if(c!=1){ missing.push_back(n+(c?" occupies more than one slot":" has no slot")); return "0."; } return "x0["+std::to_string(at)+"]"; }; }
inline void slurp(std::ostream& out,const CompiledExpressionBase& ce,const std::string& dir){ std::string f=dir+"/tmp_"+std::to_string(getpid())+".cpp"; CompilerWrapper().generateSource(ce,f); std::ifstream in(f); out<<in.rdbuf()<<"\n"; in.close(); unlink(f.c_str()); }
struct File { std::string dir,name; std::ofstream out; std::vector<std::string> ids;
  File(const std::string& d,const std::string& n,const std::string& extra=""): dir(d),name(n),out(d+"/"+n){ out<<prelude()<<extra; }
  void begin(const std::string& id){ out<<"//BEGIN "<<id<<"\n"; ids.push_back(id); } void end(){ out<<"//END\n"; } };
inline void declare(std::ostream& o,unsigned nx0,unsigned nx1,unsigned lanes=1,bool choose=false){ nx0=nx0?nx0:1; nx1=nx1?nx1:1; if(choose) o<<"  const int l=sym_choose(\"lane\",0,3);\n";
  o<<"  double x0["<<nx0<<"], x1["<<nx1*lanes<<"]; { char n_[8]; for(int i=0;i<"<<nx0<<";++i){ n_[0]='p'; n_[1]='0'+i/10; n_[2]='0'+i%10; n_[3]=0; x0[i]=sym_real(n_); } for(int i=0;i<"<<nx1*lanes<<";++i){ n_[0]='e'; n_[1]='0'+i/10; n_[2]='0'+i%10; n_[3]=0; x1[i]="; if(choose) o<<"i%4!=l? (i*0.3125-1.40625)*(i&4?-1:1) : "; o<<"sym_real(n_); } }\n"; }
}
