// C02: family of expressions whose generated code is compared with the expression tree.  usage: c02_emit <outdir> [thorough]
#include "emit.h"
#include "AmpGen/Particle.h"
#include "AmpGen/EventType.h"
using namespace vg; using namespace std::complex_literals;
static std::string OUT; static bool THOROUGH;
struct Opt { MinuitParameterSet* mps=nullptr; bool batch=false, wparams=false, py=false, merge=false; };
// oracle function for a list of outputs
static unsigned body(std::ostream& o,const std::string& id,const EV& outs,std::function<std::string(const std::string&)> slot,std::function<std::string(const IExpression*)> special){
  Oracle O; O.slot=slot; O.special=special; O.prefix="t"; std::vector<std::string> r; for(auto& e:outs) r.push_back(O(e)); o<<"static void oracle_"<<id<<"(const double* x0,const double* x1,C_* out){\n"<<O.os.str(); for(size_t i=0;i<r.size();++i) o<<"  out["<<i<<"]=o_c("<<r[i]<<");\n"; o<<"}\n"; return O.n; }
template <class CE> static void prep(CE& ce,const std::string& id,const Expression& e,const EM& evt,const Opt& opt){
  if(opt.mps){ if(opt.wparams&&opt.py) ce.set(e,id,evt,opt.mps,includeParameters(),includePythonBindings()); else if(opt.wparams) ce.set(e,id,evt,opt.mps,includeParameters()); else ce.set(e,id,evt,opt.mps); }
  else { if(opt.wparams&&opt.py) ce.set(e,id,evt,includeParameters(),includePythonBindings()); else if(opt.wparams) ce.set(e,id,evt,includeParameters()); else ce.set(e,id,evt); } ce.prepare(); }
static unsigned nev(const EM& m){ unsigned n=0; for(auto& k:m) n=std::max(n,k.second+1); return n; }
static void common(File& F,const std::string& id,const EV& outs,const EM& evt,Distinct& D,const CompiledExpressionBase& ce,const std::map<const IExpression*,double>& lam,std::vector<std::string>& missing){
  auto ext=ce.externBuffer(); auto special=[&](const IExpression* p)->std::string{ double v; std::string what; bool addr=false;
      if(auto q=dynamic_cast<const LambdaExpression*>(p)){ v=q->m_function(); what="lambda"; } else if(auto q=dynamic_cast<const Parameter*>(p)){ addr=true; if(q->isResolved()) return q->name(); v=D.of(q->name()); what=q->name(); auto it=evt.find(what); if(it!=evt.end()) return "(&x1["+std::to_string(it->second)+"])"; } else { std::cerr<<"no oracle for "<<p->to_string(nullptr)<<"\n"; exit(3); }
      int at=-1,c=0; for(size_t i=0;i<ext.size();++i) if(ext[i]==v){ at=i; ++c; } if(c!=1){ missing.push_back(what+" has "+std::to_string(c)+" slots"); return "0."; } return (addr?"(&x0[":"x0[")+std::to_string(at)+(addr?"])":"]"); };
  body(F.out,id,outs,slots(ce,evt,D,missing),special); }
static void head(File& F,const std::string& id,const std::vector<std::string>& missing){ F.out<<"GOAL("<<id<<"){\n"; for(auto& m:missing) F.out<<"  sym_check(false,\"parameter "<<m<<"\");\n"; }
static void setup(const EV& outs,const EM& evt,Distinct& D,const Opt& opt){ distinct(outs,D,evt); if(opt.mps) for(auto* p:*opt.mps) p->setCurrentFitVal(D.of(p->name())); }
// value returned through r[s[j]]
static void caseR(File& F,const std::string& id,const EV& outs,const EM& evt,Opt opt={},bool tensor=true){
  Distinct D; setup(outs,evt,D,opt); CompiledExpression<void(complex_t*,const size_t*,const real_t*,const real_t*)> ce(id); Tensor t(outs,Tensor::dim(outs.size())); prep(ce,id,tensor?Expression(TensorExpression(t)):outs[0],evt,opt); if(opt.mps){ for(auto* p:*opt.mps) p->setCurrentFitVal(D.of(p->name())); ce.prepare(); }
  F.begin(id); slurp(F.out,ce,OUT); std::vector<std::string> missing; common(F,id,outs,evt,D,ce,{},missing); unsigned n=outs.size(),ne=nev(evt); head(F,id,missing);
  unsigned N=opt.batch?2:1, es=ne+1, cs=n+1; declare(F.out,ce.externBuffer().size(),N*es+(opt.batch?0:0));
  F.out<<"  size_t s["<<n<<"]; for(int j=0;j<"<<n<<";++j) s[j]="<<n-1<<"-j;\n  C_ r["<<N*cs<<"], o["<<n<<"];\n";
  if(opt.batch) F.out<<"  size_t N=2, es="<<es<<", cs="<<cs<<"; "<<ce.progName()<<"_batch(N,es,cs,nullptr,r,s,x0,x1);\n  for(int i=0;i<2;++i){ oracle_"<<id<<"(x0,x1+i*"<<es<<",o); for(int j=0;j<"<<n<<";++j) same_(r[i*"<<cs<<"+s[j]],o[j],\""<<id<<" batch\"); }\n}\n";
  else { F.out<<"  "<<ce.progName()<<"(r,s,x0,x1); oracle_"<<id<<"(x0,x1,o);\n"; for(unsigned j=0;j<n;++j) F.out<<"  same_(r[s["<<j<<"]],o["<<j<<"],\""<<id<<"["<<j<<"]\");\n"; F.out<<"}\n"; }
  F.end(); }
// value returned directly
template <class RT> static void caseC(File& F,const std::string& id,const EV& outs,const EM& evt,Opt opt={}){
  constexpr bool vec=isVector<RT>::value, real=std::is_same<RT,real_t>::value; Distinct D; setup(outs,evt,D,opt);
  CompiledExpression<RT(const real_t*,const real_t*)> ce(id); Tensor t(outs,Tensor::dim(outs.size())); prep(ce,id,vec?Expression(TensorExpression(t)):outs[0],evt,opt); if(opt.mps){ for(auto* p:*opt.mps) p->setCurrentFitVal(D.of(p->name())); ce.prepare(); }
  F.begin(id); if(opt.wparams){ // values whose digits matter
    double k=1; for(auto& v:D.v){ double x=k*1.2345678901e-9; k=-k*1.75; if(opt.mps && opt.mps->find(v.first)) opt.mps->find(v.first)->setCurrentFitVal(x); v.second=x; } if(!opt.mps){ for(auto& x:nodes(outs)) if(auto q=dynamic_cast<const Parameter*>(x.get())) if(!evt.count(q->name())) const_cast<Parameter*>(q)->m_defaultValue=D.of(q->name()); CompiledExpression<RT(const real_t*,const real_t*)> c2(id); prep(c2,id,vec?Expression(TensorExpression(t)):outs[0],evt,opt); ce=c2; } ce.prepare(); }
  slurp(F.out,ce,OUT); std::vector<std::string> missing; common(F,id,outs,evt,D,ce,{},missing); unsigned n=outs.size(),ne=nev(evt); head(F,id,missing); if(opt.merge) F.out<<"  sym_merge(1);\n"; unsigned N=opt.batch?2:1, es=ne+1; declare(F.out,ce.externBuffer().size(),N*es); F.out<<"  C_ o["<<n<<"];\n"; auto get=[&](const std::string& v,unsigned j){ return vec?v+"["+std::to_string(j)+"]":"C_("+v+")"; };
  if(opt.wparams) F.out<<"  { double y0["<<std::max<size_t>(1,ce.externBuffer().size())<<"]={"<<vectorToString(ce.externBuffer(),",",[](auto& v){return num(v);})<<"}; for(int i=0;i<"<<ce.externBuffer().size()<<";++i) x0[i]=y0[i]; }\n";
  if(opt.batch) F.out<<"  size_t N=2, es="<<es<<", cs=3; "<<type_string<RT>()<<" q[6]; "<<ce.progName()<<"_batch(N,es,cs,q,x0,x1);\n  for(int i=0;i<2;++i){ oracle_"<<id<<"(x0,x1+i*"<<es<<",o); "; else F.out<<"  {  auto q="<<ce.progName()<<(opt.wparams?"_wParams(x1)":"(x0,x1)")<<"; oracle_"<<id<<"(x0,x1,o); ";
  if(real) F.out<<"sym_eq("<<(opt.batch?"q[3*i]":"q")<<",o[0].real(),\""<<id<<"\");"; else { if(vec) F.out<<"sym_check("<<(opt.batch?"q[3*i]":"q")<<".size()=="<<n<<",\"size\");"; for(unsigned j=0;j<n;++j) F.out<<" same_("<<get(opt.batch?"q[3*i]":"q",j)<<",o["<<j<<"],\""<<id<<"["<<j<<"]\");"; }
  F.out<<" }\n"; if(opt.py){ F.out<<"  { double z["<<2*n+1<<"]; z["<<(real?n:2*n)<<"]=77; "<<ce.progName()<<"__py("<<(opt.wparams?"x1":"x0,x1")<<",z); oracle_"<<id<<"(x0,x1,o);"; for(unsigned j=0;j<n;++j){ if(real) F.out<<" sym_eq(z[0],o[0].real(),\"python\");"; else F.out<<" same_(C_(z["<<2*j<<"],z["<<2*j+1<<"]),o["<<j<<"],\"python\");"; } F.out<<" sym_check(z["<<(real?n:2*n)<<"]==77,\"python binding writes past its result\"); }\n"; }
  F.out<<"}\n"; F.end(); }
// vector types; every lane
static void caseV(File& F,const std::string& id,const EV& outs,const EM& evt,Opt opt={},DebugSymbols db={}){
  Distinct D; EV all=outs; for(auto& d:db) all.push_back(d.second); setup(all,evt,D,opt); CompiledExpression<void(complex_v*,const size_t*,const real_t*,const real_v*)> ce(id); Tensor t(outs,Tensor::dim(outs.size())); Expression e=TensorExpression(t); if(opt.mps) ce.set(e,id,evt,db,opt.mps); else ce.set(e,id,evt,db); ce.prepare();
  F.begin(id); slurp(F.out,ce,OUT); std::vector<std::string> missing; EV show; for(auto& d:db) if(d.second.to_string()!="NULL") show.push_back(d.second); EV oo=outs; oo.insert(oo.end(),show.begin(),show.end()); common(F,id,oo,evt,D,ce,{},missing); unsigned n=outs.size(),ne=nev(evt),no=oo.size(); head(F,id,missing); unsigned N=opt.batch?2:1,es=ne+1,cs=n+1; declare(F.out,ce.externBuffer().size(),N*es,4,true);
  F.out<<"  real_v xv["<<N*es<<"]; for(int i=0;i<"<<N*es<<";++i) xv[i]=real_v(x1[4*i],x1[4*i+1],x1[4*i+2],x1[4*i+3]);\n  size_t s["<<n<<"]; for(int j=0;j<"<<n<<";++j) s[j]="<<n-1<<"-j;\n  complex_v r["<<N*cs<<"]; C_ o["<<no<<"];\n";
  if(opt.batch) F.out<<"  size_t N=2, es="<<es<<", cs="<<cs<<"; "<<ce.progName()<<"_batch(N,es,cs,nullptr,r,s,x0,xv);\n"; else F.out<<"  "<<ce.progName()<<"(r,s,x0,xv);\n"; if(!db.empty()) F.out<<"  auto d="<<ce.progName()<<"_DB(r,s,x0,xv); sym_check(d.size()=="<<db.size()<<",\"debug symbols\");\n";
  F.out<<"  for(int i=0;i<"<<N<<";++i){ double e["<<es<<"]; for(int k=0;k<"<<es<<";++k) e[k]=x1[4*(i*"<<es<<"+k)+l]; oracle_"<<id<<"(x0,e,o); for(int j=0;j<"<<n<<";++j) same_(C_(r[i*"<<cs<<"+s[j]].re.at(l),r[i*"<<cs<<"+s[j]].im.at(l)),o[j],\""<<id<<"\");"; unsigned k=0; for(size_t i=0;i<db.size();++i) if(db[i].second.to_string()!="NULL") F.out<<" same_(C_(d["<<i<<"].second.re.at(l),d["<<i<<"].second.im.at(l)),o["<<n+k++<<"],\"debug "<<i<<"\");"; F.out<<" }\n}\n"; F.end(); }
static Expression P(const char* n){ return Parameter(n,0.); }
static const EM E2{{"e0",0},{"e1",1}};
struct Sh { const char* n; Expression e; bool cplx, boolean; };
static std::vector<Sh> shapes(bool avx=false){ Expression p=P("p"),q=P("q"),a=P("e0"),b=P("e1"); Expression c=ComplexParameter(Parameter("cr"),Parameter("ci")); Expression K=Constant(complex_t(0.5,-1.25)); std::vector<Sh> v{
  {"par",p},{"evt",b},{"const",Constant(-0.7)},{"const0",Constant(0.1)},{"sum",Sum(p,a)},{"sub",Sub(p,a)},{"prod",Product(p,a)},{"div",Divide(p,a)},{"neg",Product(Constant(-1.),a)},{"negsum",Sum(Constant(-2.),a)},{"subsub",Sub(p,Sub(a,q))},{"sqrt",Sqrt(Product(a,a))},{"isqrt",ISqrt(Sum(Constant(1.),Product(a,a)))},{"sin",Sin(a)},{"exp",Exp(a)},{"ternary",Ternary(p>a,q,b)},{"atan2",ATan2(p,a)},{"abs",Abs(a)},{"cse",make_cse(p*a+q)},{"csum",Sum(c,a),true},{"cprod",Product(c,K),true},{"cconst",K,true},{"cpar",c,true},{"conj",Conj(c),true},{"norm",Norm(c)},{"real",Real(c)},{"imag",Imag(c)},{"mixed",Ternary(p>a,c,K),true} };
  if(!avx){ std::vector<Sh> w{{"pow",Pow(p,q)},{"pow2",Pow(a,Constant(2.))},{"fmod",Fmod(a,b)},{"cos",Cos(b)},{"tan",Tan(a)},{"asin",ASin(a)},{"acos",ACos(b)},{"atan",ATan(a)},{"log",Log(a)},{"lgamma",LGamma(a)},{"less",LessThan(p,a),false,true},{"geq",GreaterThanEqualTo(p,a),false,true},{"and",And(p>a,b>q),false,true},{"or",Or(p>a,b>q),false,true},{"equal",Equal(p,a),false,true},{"mixed2",Ternary(p>a,b,K),true},{"csqrt",Sqrt(c),true},{"cexp",Exp(c),true},{"function",Function("std::fabs",{a})}}; v.insert(v.end(),w.begin(),w.end()); }
  return v; }
int main(int argc,char** argv){ OUT=argv[1]; THOROUGH=argc>2; auto S=shapes();
  auto val=[](const Sh& s){ return s.boolean?Expression(Ternary(s.e,Constant(1.),Constant(2.))):s.e; }; (void)val;
  { File F(OUT,"c02_scalar.cpp"); Expression p=P("p2"),q=P("q2"),a=P("e0"),b=P("e1");
    // every node below every operator, on either side, as nodes and through the operators
    typedef std::function<Expression(const Expression&,const Expression&)> B2; struct Op { const char* n; B2 f; bool real; };
    std::vector<Op> ops{{"sum",[](auto& x,auto& y){return Sum(x,y);}},{"sub",[](auto& x,auto& y){return Sub(x,y);}},{"product",[](auto& x,auto& y){return Product(x,y);}},{"divide",[](auto& x,auto& y){return Divide(x,y);}},{"pow",[](auto& x,auto& y){return Pow(x,y);}},{"atan2",[](auto& x,auto& y){return ATan2(x,y);},true},{"fmod",[](auto& x,auto& y){return Fmod(x,y);},true},{"less",[](auto& x,auto& y){return Ternary(LessThan(x,y),Constant(1.),Constant(2.));},true},{"greater",[](auto& x,auto& y){return Ternary(GreaterThan(x,y),Constant(1.),Constant(2.));},true},{"leq",[](auto& x,auto& y){return Ternary(LessThanEqualTo(x,y),Constant(1.),Constant(2.));},true},{"geq",[](auto& x,auto& y){return Ternary(GreaterThanEqualTo(x,y),Constant(1.),Constant(2.));},true},{"equal",[](auto& x,auto& y){return Ternary(Equal(x,y),Constant(1.),Constant(2.));}},{"and",[](auto& x,auto& y){return Ternary(And(x,y),Constant(1.),Constant(2.));},true},{"or",[](auto& x,auto& y){return Ternary(Or(x,y),Constant(1.),Constant(2.));},true},
      {"op_plus",[](auto& x,auto& y){return x+y;}},{"op_minus",[](auto& x,auto& y){return x-y;}},{"op_times",[](auto& x,auto& y){return x*y;}},{"op_over",[](auto& x,auto& y){return x/y;}},{"tern_a",[](auto& x,auto& y){return Ternary(P("e0")<P("e1"),x,y);}} };
    std::vector<std::pair<const char*,Expression>> others{{"par",p},{"sum",Sum(q,b)},{"sub",Sub(q,b)},{"const",Constant(-1.5)}};
    for(auto& op:ops) for(int side=0;side<2;++side){ EV outs; for(auto& s:S){ if(op.real&&s.cplx) continue; if(s.boolean&&side&&(std::string(op.n)=="divide"||std::string(op.n)=="op_over")) continue; size_t k=0; for(auto& o:others){ if(++k>(THOROUGH?9u:2u)) break; bool pw=std::string(op.n)=="pow"; if(pw&&s.cplx&&side==0&&k>1) continue; outs.push_back(side?op.f(o.second,s.e):op.f(s.e,o.second)); } }
      // split to keep the number of branches per goal small
      const std::string on=op.n; const size_t step = on=="less"||on=="greater"||on=="leq"||on=="geq"||on=="equal"||on=="and"||on=="or"?6:16;
      size_t part=0; for(size_t i=0;i<outs.size();i+=step,++part) caseR(F,std::string("pair_")+op.n+(side?"_r":"_l")+std::to_string(part),EV(outs.begin()+i,outs.begin()+std::min(outs.size(),i+step)),E2); }
    // triples of arithmetic nodes in all shapes
    std::vector<B2> ar{ops[0].f,ops[1].f,ops[2].f,ops[3].f}; EV tri; Expression l[4]={p,a,q,b};
    for(int i=0;i<64;++i){ auto& f=ar[i&3]; auto& g=ar[(i>>2)&3]; auto& h=ar[(i>>4)&3]; tri.push_back(f(g(h(l[0],l[1]),l[2]),l[3])); tri.push_back(f(l[0],g(l[1],h(l[2],l[3])))); tri.push_back(f(g(l[0],l[1]),h(l[2],l[3]))); tri.push_back(f(g(l[0],h(l[1],l[2])),l[3])); tri.push_back(f(l[0],g(h(l[1],l[2]),l[3]))); }
    for(size_t i=0,k=0;i<tri.size();i+=32,++k) caseR(F,"triple_"+std::to_string(k),EV(tri.begin()+i,tri.begin()+std::min(tri.size(),i+32)),E2);
    // unary functions
    typedef std::function<Expression(const Expression&)> B1; struct Un { const char* n; B1 f; bool real; }; std::vector<Un> un{{"sqrt",[](auto& x){return Sqrt(x);}},{"isqrt",[](auto& x){return ISqrt(x);}},{"exp",[](auto& x){return Exp(x);}},{"log",[](auto& x){return Log(x);}},{"sin",[](auto& x){return Sin(x);}},{"cos",[](auto& x){return Cos(x);}},{"tan",[](auto& x){return Tan(x);}},{"asin",[](auto& x){return ASin(x);}},{"acos",[](auto& x){return ACos(x);}},{"atan",[](auto& x){return ATan(x);}},{"norm",[](auto& x){return Norm(x);}},{"real",[](auto& x){return Real(x);}},{"imag",[](auto& x){return Imag(x);}},{"conj",[](auto& x){return Conj(x);}},{"abs",[](auto& x){return Abs(x);}},{"lgamma",[](auto& x){return LGamma(x);},true},{"csqrt",[](auto& x){return fcn::complex_sqrt(x);},true},{"safesqrt",[](auto& x){return fcn::safe_sqrt(x);},true},{"fpow",[](auto& x){return fcn::fpow(x,3);}},{"fpowm",[](auto& x){return fcn::fpow(x,-2);}},{"minus",[](auto& x){return -x;}},{"cse",[](auto& x){return make_cse(x);}},{"cse_s",[](auto& x){return make_cse(x,true);}},{"cse_2",[](auto& x){return make_cse(x*x,true)+make_cse(x*x)*make_cse(x+1.);}}};
    for(auto& u:un){ EV outs; int k=0; for(auto& s:S){ if(u.real&&s.cplx) continue; outs.push_back(u.f(s.e)); if(outs.size()==(std::string(u.n)=="safesqrt"||std::string(u.n)=="abs"?5u:16u)){ caseR(F,std::string("unary_")+u.n+"_"+std::to_string(k++),outs,E2); outs.clear(); } } if(!outs.empty()) caseR(F,std::string("unary_")+u.n+"_"+std::to_string(k++),outs,E2); }
    // sub-expressions: shared, nested, equal up to order, repeated in different depths, many
    { Expression x=make_cse(a+b), y=make_cse(x*p), z=make_cse(x*y+q), w=make_cse(z*z-x); caseC<complex_t>(F,"cse_chain",{w+z+y+x},E2); caseC<complex_t>(F,"cse_chain_rev",{x+y*(z+w)},E2); caseC<complex_t>(F,"cse_deep_first",{z*w/x-y},E2);
      Expression c=0,d=make_cse(a*b); for(int i=0;i<8;++i){ d=make_cse(d*d+Constant(0.125*i)); c=c+d*P(("k"+std::to_string(i%3)).c_str()); } caseC<complex_t>(F,"cse_ladder",{c},E2);
      caseC<complex_t>(F,"cse_commuted",{make_cse(a*b+p*q,true)-2*make_cse(q*p+b*a,true)+make_cse(make_cse(b*a,true)+q)},E2);
      EV many; for(int i=0;i<6;++i) for(int j=0;j<6;++j) many.push_back(make_cse(fcn::sin(a*double(i))+double(j))*make_cse(fcn::cos(b*double(j))+double(i))); caseR(F,"cse_many",many,E2);
      caseR(F,"cse_near_constants",{make_cse(a*0.1234567),make_cse(a*0.1234568),make_cse(a*1e-7),make_cse(a*1.00000001e-7),make_cse(a+1e9),make_cse(a+(1e9+1)),make_cse(a*complex_t(1,1e-9)),make_cse(a*1.)},E2);
      caseR(F,"cse_similar",{make_cse(a-(b-p)),make_cse((a-b)-p),make_cse(a/(b*p)),make_cse((a/b)*p),make_cse(fcn::sqrt(a*a)),make_cse(fcn::isqrt(a*a)),make_cse(Ternary(a<b,p,q)),make_cse(Ternary(b<a,p,q)),make_cse(fcn::atan2(a,b)),make_cse(fcn::atan2(b,a)),make_cse(fcn::pow(p*p,a)),make_cse(fcn::pow(a*a,p))},E2);
      { EV ks; for(double v:{700056.42649999994,832519.68149999995,570642.28849999991,757320.23549999995,62326.087500000001,344258.51850000001,848548.88049999997,711028.89049999998,640498.53649999993,401644.88450000004,415275.00950000004,928925.26049999997}) ks.push_back(make_cse(a*v)+q); caseR(F,"cse_keys",ks,E2); }
      Expression big=0; for(int i=0;i<10;++i){ Expression t=make_cse(fcn::exp(a*double(i))); big=big+make_cse(t*t+big)*make_cse(t-p); } caseC<complex_t>(F,"cse_nested_sum",{big},E2); }
    // constants
    caseR(F,"constants",{a*0.1,a*(1./3.),a*1e-300,a*1e300,a*123456789.123,a*-1e-17,a+Constant(complex_t(1./3,-2./7)),a*Constant(complex_t(0,1e-20)),Constant(3),Constant(1e22)*a,Constant(-0.)+a,Constant(5e-324)*a,Constant(2147483648.)*a},E2);
    // parameters: kinds, many, order, names
    { EV outs; for(int i=11;i>=0;--i) outs.push_back(P(("par"+std::to_string(i)).c_str())*double(i+1)+a); caseR(F,"many_parameters",outs,E2); EV ev; EM m; for(int i=0;i<12;++i){ m["v"+std::to_string(i)]=(5*i+3)%12; ev.push_back(P(("v"+std::to_string(i)).c_str())+P("p")*double(i)); } caseR(F,"event_slots",ev,m);
      MinuitParameterSet mps; for(const char* n:{"zeta","alpha","mid","unused","Beta"}) mps.add(n,Flag::Free,1.,0.1); Expression A=P("alpha"),Z=P("zeta"),M=MinuitParameterLink(mps["mid"]),B=P("Beta"),U=P("free_default"); Opt o; o.mps=&mps; caseR(F,"minuit_parameters",{A-Z,M*a,B/U,MinuitParameterLink(mps["alpha"])*Z,U,M-MinuitParameterLink(mps["zeta"])},E2,o);
      ComplexParameter cp(Parameter("c_re"),Parameter("c_im")), cq(Parameter("alpha"),Parameter("zeta")); caseR(F,"complex_parameters",{Expression(cp)*a,Expression(cq)/Expression(cp),Expression(cq)},E2,o);
      caseR(F,"resolved_parameters",{Parameter("x1[0]",0,true)*A},E2,o);
      EM shadow=E2; shadow["alpha"]=2; caseR(F,"event_before_parameter",{P("alpha")*A+Z},shadow,o); }
    { EV outs; for(int i=0;i<3;++i){ double v=500.25+i; Expression L=LambdaExpression([v]{return v;}); outs.push_back(L*a); outs.push_back(make_cse(L+b)*p); outs.push_back(make_cse(make_cse(L*L)+a)); } caseR(F,"functions_as_parameters",outs,E2); double u=7.5,w=8.5; Expression L1=LambdaExpression([&u]{return u;}), L2=LambdaExpression([&w]{return w;}); caseR(F,"functions_by_reference",{make_cse(L1*a)-make_cse(L2*a),L1/L2},E2); }
    // return types and entry points
    Expression c=ComplexParameter(Parameter("cr"),Parameter("ci")); Expression amp=c*a/(p*p-b*b-1i*p*q), re=fcn::sqrt(a*a+1.)/p-b;
    caseC<complex_t>(F,"return_complex",{amp},E2); caseC<complex_t>(F,"return_complex_of_real",{re},E2); caseC<real_t>(F,"return_real",{re},E2); caseC<std::vector<complex_t>>(F,"return_vector",{amp,re,a,c,amp*re},E2); caseR(F,"return_scalar_slot",{amp},E2,{},false); caseR(F,"return_tensor",{amp,re,Constant(0.),c},E2);
    Opt ba; ba.batch=true; caseR(F,"batch_tensor",{amp,re,c*a},E2,ba); caseC<complex_t>(F,"batch_complex",{amp},E2,ba); caseC<real_t>(F,"batch_real",{re},E2,ba); 
    { MinuitParameterSet mps; for(const char* n:{"p2","q2","cr","ci"}) mps.add(n,Flag::Free,1.,0.1); Opt o; o.mps=&mps; o.wparams=true; EV lin{p*a+q*b,c*a-b,q}; caseC<complex_t>(F,"with_parameters",{c*a+p*b},E2,o); caseC<real_t>(F,"with_parameters_real",{p*a-q},E2,o); caseC<std::vector<complex_t>>(F,"with_parameters_vector",lin,E2,o); o.py=true; caseC<complex_t>(F,"python_complex",{c*a+p*b},E2,o); caseC<std::vector<complex_t>>(F,"python_vector",lin,E2,o); caseC<real_t>(F,"python_real",{p*a-q},E2,o); Opt n; n.wparams=true; caseC<complex_t>(F,"with_default_parameters",{P("d0")*a+P("d1")},E2,n); caseC<complex_t>(F,"with_no_parameters",{a*b},E2,n); }
    // arrays
    { EM m; for(int i=0;i<4;++i) m["v"+std::to_string(i)]=i; m["idx"]=5; Parameter top("v0"); Array arr(top,4), un(top,-1); EV outs; for(int i=-1;i<6;++i) outs.push_back(arr[Constant(double(i))]); outs.push_back(un[Constant(2.)]); outs.push_back(arr[Constant(1.)]*arr[Constant(2.)]-un[Constant(3.)]); outs.push_back(arr[Constant(2.75)]+make_cse(arr[Constant(3.)]+1.)); outs.push_back(arr[Ternary(P("v1")<P("v2"),Constant(1.),Constant(3.))]); caseR(F,"arrays",outs,m); }
  }
  { File F(OUT,"c02_decays.cpp"); struct D_ { const char* id; std::string d; std::vector<std::string> ev; std::vector<int> pol; };
    std::vector<D_> ds{{"d_kstar","D0{K*(892)bar0{K-,pi+},pi0}",{"D0","K-","pi+","pi0"}},{"d_rho_gs","D0{rho(770)+[GounarisSakurai]{pi+,pi0},K-}",{"D0","K-","pi+","pi0"}},{"d_f0_flatte","D0{f(0)(980)0[Flatte]{pi+,pi-},K0S0}",{"D0","K0S0","pi+","pi-"}},{"d_lass","D0{K(0)*(1430)bar-[LASS]{K0S0,pi-},pi+}",{"D0","K0S0","pi+","pi-"}}};
    if(THOROUGH) for(auto& x:std::vector<D_>{{"d_4body","D0[D]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}",{"D0","K-","pi+","pi+","pi-"}},{"d_a1","D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},K-}",{"D0","K-","pi+","pi+","pi-"}},}) ds.push_back(x);
    if(THOROUGH) ds.push_back({"d_tensor","D0[D]{K(2)*(1430)bar0{K-,pi+},rho(770)0{pi+,pi-}}",{"D0","K-","pi+","pi+","pi-"}});
    for(auto& d:ds){ EventType et(d.ev); Particle p(d.d,et.finalStates()); Expression e=p.getExpression(nullptr,d.pol); Opt mo; mo.merge=true; caseC<complex_t>(F,d.id,{e},et.getEventFormat(),mo); }
  }
  { File F(OUT,"c02_avx.cpp","#include \"AmpGen/simd/avx2d_types.h\"\nusing namespace AmpGen::AVX2d;\n"); auto T=shapes(true); EV r,c; for(auto& s:T) r.push_back(s.e); Expression p=P("p2"),q=P("q2"),a=P("e0"),b=P("e1");
    typedef std::function<Expression(const Expression&)> B1; struct Un { const char* n; B1 f; bool real; }; std::vector<Un> fs{{"value",[](auto& x){return x;}},{"sum_l",[&](auto& x){return Sum(x,b);}},{"sum_r",[&](auto& x){return Sum(b,x);}},{"sub_l",[&](auto& x){return Sub(x,b);}},{"sub_r",[&](auto& x){return Sub(b,x);}},{"mul_l",[&](auto& x){return Product(x,b);}},{"mul_r",[&](auto& x){return Product(p,x);}},{"div_l",[&](auto& x){return Divide(x,b);}},{"div_r",[&](auto& x){return Divide(b,x);}},{"cse",[&](auto& x){return make_cse(x*x+b);}},{"less",[&](auto& x){return Ternary(x<b,p,q);},true},{"and",[&](auto& x){return Ternary(b>0&&x>b,a,b);},true},{"tern",[&](auto& x){return Ternary(a<b,x,b);}},{"norm",[](auto& x){return Norm(x);}},{"conj",[](auto& x){return Conj(x);}},{"abs",[](auto& x){return Abs(x);},true},{"sqrt",[](auto& x){return Sqrt(x);},true},{"csqrt",[](auto& x){return fcn::complex_sqrt(x);},true},{"safesqrt",[](auto& x){return fcn::safe_sqrt(x);},true},{"exp",[](auto& x){return Exp(x);},true},{"log",[](auto& x){return Log(x);},true},{"sin",[](auto& x){return Sin(x);},true},{"cos",[](auto& x){return Cos(x);},true},{"atan2",[&](auto& x){return ATan2(x,b);},true}};
    for(auto& u:fs){ EV outs; int k=0; for(auto& s:T){ std::string sn=s.n; if(u.real&&s.cplx) continue; if(std::string(u.n)=="norm"&&!s.cplx) continue; if(sn=="const"||sn=="const0"||sn=="cconst"||sn=="par"||sn=="norm"||sn=="real"||sn=="imag"||sn=="cprod"||sn=="cpar") continue; Expression e=u.f(s.e); outs.push_back(e); if(outs.size()==(std::string(u.n)=="safesqrt"||std::string(u.n)=="less"||std::string(u.n)=="abs"?1u:4u)){ caseV(F,std::string("avx_")+u.n+"_"+std::to_string(k++),outs,E2); outs.clear(); } } if(!outs.empty()) caseV(F,std::string("avx_")+u.n+"_"+std::to_string(k++),outs,E2); }
    Opt ba; ba.batch=true; Expression c1=ComplexParameter(Parameter("cr"),Parameter("ci")), amp=c1*a/(p*p-b*b-1i*p*q); caseV(F,"avx_batch",{amp,a-b},E2,ba); caseV(F,"avx_batch1",{amp},E2,ba);
    DebugSymbols db{{"amp",amp},{"difference",make_cse(a-b)*p},{"title",Parameter("NULL",0,true)},{"real",a/b}}; caseV(F,"avx_debug",{amp,make_cse(a-b)},E2,{},db);
    { EM m; for(int i=0;i<4;++i) m["v"+std::to_string(i)]=i; (void)m; }
  }
}
