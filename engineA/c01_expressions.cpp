// C01: operators, elementary identities, simplification and sub-expression substitution keep the value.
// Oracle: the same operation written as a bare node (no rewriting), decided over all parameter values.
#include "harness.h"
#include "AmpGen/Simplify.h"
#include "AmpGen/Utilities.h"
using namespace AmpGen; using namespace va; typedef std::vector<Pair> PV;
static const std::complex<double> I(0,1);
struct Sh { std::string n; Expression e; };
static Expression raw(char op,const Expression& a,const Expression& b){ switch(op){ case '+': return Sum(a,b); case '-': return Sub(a,b); case '*': return Product(a,b); default: return Divide(a,b); } }
static Expression opr(char op,const Expression& a,const Expression& b){ switch(op){ case '+': return a+b; case '-': return a-b; case '*': return a*b; default: return a/b; } }
static bool zero(const Expression& e){ auto v=e(); return !(std::abs(v)>1e-30) ; }
static std::map<std::string,double> point(){ return {{"x",0.7312},{"y",-1.3391},{"z",0.4177},{"wr",0.2931},{"wi",0.8537}}; }
static std::vector<Sh> consts(){ return { {"0",Constant(0.)},{"1",Constant(1.)},{"-1",Constant(-1.)},{"2",Constant(2.)},{"-3/2",Constant(-1.5)},{"i",Constant(I)},{"1-2i",Constant(std::complex<double>(1,-2))},{"-2+i",Constant(std::complex<double>(-2,1))},{"1+i",Constant(std::complex<double>(1,1))} }; }
static Expression X(){ return sym("x",.7312); } static Expression Y(){ return sym("y",-1.3391); } static Expression Z(){ return sym("z",.4177); }
static Expression W(){ auto v=replayValues(); return ComplexParameter(Parameter("wr",v.count("wr")?v["wr"]:.2931),Parameter("wi",v.count("wi")?v["wi"]:.8537)); }
static std::vector<Sh> atoms(){ auto c=consts(); c.push_back({"x",X()}); c.push_back({"y",Y()}); c.push_back({"w",W()}); return c; }
// one level of bare nodes over the atoms (the shapes the rewriting distinguishes)
static std::vector<Sh> level1(bool small){
  std::vector<Sh> out=atoms(); std::vector<Sh> a=small? std::vector<Sh>{{"x",X()},{"w",W()},{"-1",Constant(-1.)},{"-2+i",Constant(std::complex<double>(-2,1))},{"2",Constant(2.)}} : atoms();
  for(char op:{'+','-','*','/'}) for(auto& l:a) for(auto& r:a){ bool lc=is<Constant>(l.e), rc=is<Constant>(r.e); if(lc&&rc) continue; if(op=='/'&&zero(r.e)) continue; if(!lc&&!rc&&l.n==r.n&&l.n=="x"&&op=='-') continue; out.push_back({"("+l.n+op+r.n+")",raw(op,l.e,r.e)}); }
  out.push_back({"sqrt(x)",Sqrt(X())}); out.push_back({"conj(w)",Conj(W())}); out.push_back({"conj(w+ix)",Conj(Sum(W(),Product(Constant(I),X())))}); out.push_back({"pow(w,2)",Pow(W(),Constant(2.))}); out.push_back({"cse(x+w)",Expression(SubTree(Sum(X(),W())))}); out.push_back({"cos(x)",Cos(X())}); out.push_back({"real(w)",Real(W())}); out.push_back({"norm(w)",Norm(W())});
  return out; }
static std::vector<Sh> level2(){ std::vector<Sh> b={ {"x",X()},{"w",W()},{"2",Constant(2.)},{"-1",Constant(-1.)},{"1-2i",Constant(std::complex<double>(1,-2))},{"(-2*x)",Product(Constant(-2.),X())},{"(x+2)",Sum(X(),Constant(2.))},{"(2+w)",Sum(Constant(2.),W())},{"(x-w)",Sub(X(),W())},{"(x/w)",Divide(X(),W())},{"(y*w)",Product(Y(),W())},{"(i*y)",Product(Constant(I),Y())},{"sqrt(x)",Sqrt(X())},{"pow(w,2)",Pow(W(),Constant(2.))},{"conj(w)",Conj(W())},{"cse(x*w)",Expression(SubTree(Product(X(),W())))} };
  return b; }
static void positive(Field& F){ F.sample=point(); F.domain.push_back(F.var("x")>0); F.positiveVars.insert("x"); }
int main(int argc,char** argv){ Harness H(argc,argv,"C01"); const bool quick=H.quick;
  for(char op:{'+','-','*','/'}){ std::string on= op=='+'?"add":op=='-'?"subtract":op=='*'?"multiply":"divide";
    auto n=level1(false).size(); const size_t chunk=12;
    for(size_t i=0;i<n;i+=chunk) H.add(on+"_pairs_"+std::to_string(i/chunk),[=]{ PV out; auto s=level1(false), t=level1(quick); for(size_t k=i;k<std::min(n,i+chunk);++k) for(auto& r:t){ if(op=='/'&&zero(r.e)) continue; out.push_back({opr(op,s[k].e,r.e),raw(op,s[k].e,r.e),s[k].n+" "+op+" "+r.n}); } return out; },nullptr,positive);
    // nested: both operands are themselves results of the operators
    auto m=level2().size();
    for(size_t i=0;i<m;++i) H.add(on+"_nested_"+std::to_string(i),[=]{ PV out; auto s=level2(); auto c=std::vector<Sh>{s[0],s[2],s[4],s[5],s[6],s[7],s[9],s[10]}; if(!quick) c=s;
       for(auto& b:s) for(char o2:{'+','-','*','/'}){ Expression inner=opr(o2,s[i].e,b.e), rin=raw(o2,s[i].e,b.e); for(auto& k:c){ std::string lab="("+s[i].n+" "+o2+" "+b.n+")"; 
         if(!(op=='/'&&zero(k.e))) out.push_back({opr(op,inner,k.e),raw(op,rin,k.e),lab+op+k.n}); if(!(op=='/'&&zero(rin))) out.push_back({opr(op,k.e,inner),raw(op,k.e,rin),k.n+op+lab}); } } return out; },nullptr,positive); }
  // constants far below one are not zero (results scaled back up by a bare product)
  H.add("small_constants",[=]{ PV out; const double sm=std::ldexp(1.,-70); Expression s=Constant(sm), b=Constant(1/sm), x=X(), sx=Product(s,x); auto P=[&](Expression l,Expression r,const char* n){ out.push_back({Product(b,l),Product(b,r),n}); };
     P(s*x,Product(s,x),"c*x"); P(x*s,Product(s,x),"x*c"); P(s+sx,Sum(s,sx),"c+x"); P(sx+s,Sum(sx,s),"x+c"); P(s-sx,Sub(s,sx),"c-x"); P(sx-s,Sub(sx,s),"x-c"); P(s/x,Divide(s,x),"c/x"); P(s*(x*s)*Constant(1/sm),Product(b,Product(s,Product(x,s))),"c*(x*c)"); P(Expression(Constant(I*sm))*x,Product(Constant(I*sm),x),"ic*x"); P(Expression(Constant(I*sm))+sx,Sum(Constant(I*sm),sx),"ic+x"); P((s*s)*Constant(1/sm),Product(b,Product(s,s)),"c*c"); P(-s*x,Product(Constant(-sm),x),"-c*x"); return out; },nullptr,positive);
  // unary minus, compound assignment, integer powers, conjugation of real parameters
  H.add("assign_and_negate",[=]{ PV out; for(auto& a:level1(true)){ out.push_back({-a.e,Product(Constant(-1.),a.e),"-"+a.n}); for(auto& b:level2()){ Expression t=a.e; t+=b.e; out.push_back({t,Sum(a.e,b.e),a.n+"+="+b.n}); t=a.e; t-=b.e; out.push_back({t,Sub(a.e,b.e),a.n+"-="+b.n}); t=a.e; t*=b.e; out.push_back({t,Product(a.e,b.e),a.n+"*="+b.n}); t=a.e; t/=b.e; out.push_back({t,Divide(a.e,b.e),a.n+"/="+b.n}); } } return out; },nullptr,positive);
  H.add("integer_powers",[=]{ PV out; for(auto& a:level1(true)){ Expression p=Constant(1.); for(int n=0;n<=5;++n){ out.push_back({fcn::fpow(a.e,n),p,a.n+"^"+std::to_string(n)}); if(n>0&&!zero(a.e)) out.push_back({fcn::fpow(a.e,-n),Divide(Constant(1.),p),a.n+"^-"+std::to_string(n)}); if(!is<Constant>(a.e)||n==1||n==0) out.push_back({fcn::pow(a.e,Constant(double(n))),p,"pow "+a.n+" "+std::to_string(n)}); p=Product(p,a.e); } } return out; },nullptr,positive);
  H.add("functions",[=]{ PV out; for(auto& a:level1(true)){ out.push_back({fcn::conj(a.e),Conj(a.e),"conj "+a.n}); out.push_back({fcn::norm(a.e),Product(a.e,Conj(a.e)),"norm "+a.n}); } 
     for(auto& a:std::vector<Sh>{{"x",X()},{"x/2",Divide(X(),Constant(2.))},{"x*x+1",Sum(Product(X(),X()),Constant(1.))},{"2",Constant(2.)},{"9/4",Constant(2.25)}}){ out.push_back({fcn::sqrt(a.e),Sqrt(a.e),"sqrt "+a.n}); out.push_back({fcn::isqrt(a.e),Divide(Constant(1.),Sqrt(a.e)),"isqrt "+a.n}); out.push_back({fcn::safe_sqrt(a.e),Sqrt(a.e),"safe_sqrt "+a.n}); out.push_back({fcn::complex_sqrt(a.e),Sqrt(a.e),"complex_sqrt "+a.n}); if(a.n!="x*x+1") out.push_back({fcn::abs(a.e),a.e,"abs "+a.n}); if(!is<Constant>(a.e)){ out.push_back({fcn::complex_sqrt(Product(Constant(-1.),a.e)),Product(Constant(I),Sqrt(a.e)),"complex_sqrt -"+a.n}); out.push_back({fcn::safe_sqrt(Product(Constant(-1.),a.e)),Constant(0.),"safe_sqrt -"+a.n}); } }
     out.push_back({fcn::complex_sqrt(Constant(-4.)),Constant(std::complex<double>(0,2)),"complex_sqrt -4"}); out.push_back({fcn::sqrt(Constant(std::complex<double>(-4,0))),Constant(std::complex<double>(0,2)),"sqrt -4"}); return out; },nullptr,positive);
  // derivative rules: f'(x) from d(), against the inverse-function and defining relations
  H.add("derivatives",[=]{ PV out; Expression x=X(), one=Constant(1.), t=Product(Constant(-1.),sym("u",-.7312)); auto D=[](const Expression& e){ return dynamic_cast<const IUnaryExpression*>(e.get())->d(); }; Expression s=Sin(t), c=Cos(t);
     out.push_back({Product(D(Sqrt(x)),Product(Constant(2.),Sqrt(x))),one,"sqrt"}); out.push_back({D(Exp(x)),Exp(x),"exp"}); out.push_back({Product(D(Log(Exp(x))),Exp(x)),one,"log"}); out.push_back({D(Sin(x)),Cos(x),"sin"}); out.push_back({D(Cos(x)),Product(Constant(-1.),Sin(x)),"cos"}); out.push_back({Product(D(Tan(x)),Product(Cos(x),Cos(x))),one,"tan"});
     out.push_back({Product(D(ATan(Divide(s,c))),Divide(one,Product(c,c))),one,"atan"}); out.push_back({Product(D(ASin(s)),c),one,"asin"}); out.push_back({Product(D(ACos(c)),Product(Constant(-1.),s)),one,"acos"}); out.push_back({Product(D(ISqrt(x)),Product(Constant(-2.),Product(x,Sqrt(x)))),one,"isqrt"}); return out; },nullptr,[](Field& F){ positive(F); F.cosOf(F.fromTerm(F.var("u"))); for(auto& kv:F.vars) if(kv.first.find("cos(")==0) F.positiveVars.insert(kv.first); F.domain.push_back(F.var("u")<0&&F.var("u")>-1); },[](std::map<std::string,double>& v){ v["u"]=-.7312; });
  // simplification of every nested shape, with and without expanding sub-trees
  auto l2=level2(); for(size_t i=0;i<l2.size();++i) H.add("simplify_"+std::to_string(i),[=]{ PV out; auto s=level2(); auto& a=s[i]; for(auto& b:s) for(char o1:{'+','-','*','/'}) for(auto& c:s){ if(&c>&b&&quick&&o1=='/') {} 
       for(char o2:{'+','-','*'}){ if(quick&&(&c-&s[0]+(&b-&s[0])+o1+o2)%3) continue; Expression e=opr(o2,opr(o1,a.e,b.e),c.e); std::string lab=a.n+" "+o1+" "+b.n+" "+o2+" "+c.n; out.push_back({Simplify(e),e,lab}); out.push_back({NormalOrderedExpression(e,true),e,"expanded "+lab}); if(o2=='*') { Expression q=opr('/',c.e,opr(o1,a.e,b.e)); if(!zero(opr(o1,a.e,b.e))) out.push_back({Simplify(q),q,"quotient "+lab}); } } } return out; },nullptr,positive);
  H.add("simplify_functions",[=]{ PV out; Expression x=X(),y=Y(),w=W(); std::vector<Expression> f{ Pow(w,Constant(2.)),Pow(x,Constant(2.)),Sqrt(x),Cos(x),Conj(w),Conj(Sum(w,x)),Conj(Product(w,Sum(x,w))),Norm(w),Real(w),Imag(w),Exp(x),Expression(SubTree(Sum(x,w))),fcn::complex_sqrt(x),fcn::safe_sqrt(x),Abs(x),ISqrt(x) }; int k=0; 
     for(auto& a:f){ int l=0; for(auto& b:f){ for(auto e:{a*b,a+b,a-b,a/b,x*a+y*b,(x+a)*(y-b),(a+b)*(a-b),a/(x+b),2*a*b-3*b*a,conj(std::complex<double>(1,2))*a+b}) { out.push_back({Simplify(e),e,"f"+std::to_string(k)+",f"+std::to_string(l)}); out.push_back({make_cse(e,true),e,"cse"}); } ++l; } ++k; } return out; },nullptr,positive);
  // two sub-expressions that are given the same key (and hence share one computed value) have the same value
  auto family=[]{ std::vector<Expression> v; auto s=level2(); Expression x=X(); s.push_back({"",Pow(W(),Constant(3.))}); s.push_back({"",Pow(X(),Constant(2.))}); s.push_back({"",Constant(2500001.)}); s.push_back({"",Constant(2500002.)}); s.push_back({"",Cos(1234567.*x)}); s.push_back({"",Cos(1234568.*x)}); s.push_back({"",Exp(x*123456789.)}); s.push_back({"",Exp(x*123456788.)});
    s.push_back({"",Ternary(x>1,x,Y())}); s.push_back({"",Ternary(x>2,x,Y())}); s.push_back({"",Conj(Sum(W(),x))}); s.push_back({"",Abs(W())}); s.push_back({"",Real(W())}); s.push_back({"",Imag(W())}); s.push_back({"",Norm(W())}); for(auto& a:s) for(auto& b:s) for(char o:{'+','-','*','/'}){ v.push_back(opr(o,a.e,b.e)); for(auto c:{x,W()}) v.push_back(opr(o,a.e,b.e)*c + c); } return v; };
  for(int mode=0;mode<2;++mode) for(int sh=0;sh<8;++sh) H.add(std::string(mode?"keys_simplified_":"keys_plain_")+std::to_string(sh),[=]{ PV out; std::map<uint64_t,Expression> rep; for(auto& e:family()){ Expression c=make_cse(e,mode==1); if(!is<SubTree>(c)) continue; auto k=cast<SubTree>(c).key(); if(int(k%8)!=sh) continue; auto it=rep.find(k); if(it==rep.end()) rep.emplace(k,c); else out.push_back({c,it->second,"key "+std::to_string(k)+": "+e.to_string()+" vs "+cast<SubTree>(it->second).m_expression.to_string()}); } return out; },nullptr,positive);
  return H.run(); }
