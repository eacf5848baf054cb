// C01: numeric evaluation of every node kind, folding of constants and the operators with symbolic constants and parameters.
#include "util.h"
#include "AmpGen/Expression.h"
#include "AmpGen/Types.h"
#include <complex>
#include <cmath>
using namespace AmpGen; typedef std::complex<double> C;
static C Z(const char* n){ S_ a(n),b(n); a+="r"; b+="i"; double x=sym_real(a.c_str()), y=sym_real(b.c_str()); return C(x,y); }
static void same(const C& a,double re,double im,const char* l){ sym_eq(a.real(),re,l); sym_eq(a.imag(),im,l); }
static void same(const C& a,const C& b,const char* l){ same(a,b.real(),b.imag(),l); }
static Expression K(const C& z){ return Constant(z); }
static Expression PR(const char* n,double v){ return Parameter(n,v); }
static Expression PC(const char* n,const C& z){ S_ a(n),b(n); a+="_re"; b+="_im"; return ComplexParameter(Parameter(a,z.real()),Parameter(b,z.imag())); }
// ---- bare nodes
GOAL(node_arithmetic){ C a=Z("a"),b=Z("b"); sym_assume(b.real()!=0||b.imag()!=0); double n=b.real()*b.real()+b.imag()*b.imag(); Expression A=PC("a",a),B=PC("b",b);
  same(Expression(Sum(A,B))(),a.real()+b.real(),a.imag()+b.imag(),"sum"); same(Expression(Sub(A,B))(),a.real()-b.real(),a.imag()-b.imag(),"difference"); same(Expression(Product(A,B))(),a.real()*b.real()-a.imag()*b.imag(),a.real()*b.imag()+a.imag()*b.real(),"product"); same(Expression(Divide(A,B))(),(a.real()*b.real()+a.imag()*b.imag())/n,(a.imag()*b.real()-a.real()*b.imag())/n,"quotient"); }
static void truth(const Expression& e,bool v,const char* l){ C r=e(); sym_check(r.real()==(v?1.:0.),l); sym_check(r.imag()==0,l); }
GOAL(node_comparison){ double a=sym_real("a"),b=sym_real("b"); Expression A=PR("a",a),B=PR("b",b); truth(A<B,a<b,"<"); truth(A>B,a>b,">"); truth(A<=B,a<=b,"<="); truth(A>=B,a>=b,">="); truth(A==B,a==b,"=="); truth(A==b,a==b,"== value"); truth(a==B,a==b,"value =="); truth(A&&B,a!=0&&b!=0,"&&"); truth(A||B,a!=0||b!=0,"||"); }
GOAL(node_comparison_complex){ C a=Z("a"),b=Z("b"); Expression A=PC("a",a),B=PC("b",b); truth(A==B,a.real()==b.real()&&a.imag()==b.imag(),"=="); truth(A<B,a.real()<b.real(),"<"); truth(A>B,a.real()>b.real(),">"); }
GOAL(node_ternary){ double c=sym_real("c"); C a=Z("a"),b=Z("b"); C r=Expression(Ternary(PR("c",c),PC("a",a),PC("b",b)))(); bool t=c!=0; same(r,t?a.real():b.real(),t?a.imag():b.imag(),"conditional"); double x=sym_real("x"),y=sym_real("y"); C q=Expression(Ternary(PR("x",x)<PR("y",y),PC("a",a),PC("b",b)))(); same(q,x<y?a.real():b.real(),x<y?a.imag():b.imag(),"conditional on a comparison"); }
GOAL(node_parts){ C a=Z("a"); Expression A=PC("a",a); same(Expression(Real(A))(),a.real(),0,"real"); same(Expression(Imag(A))(),a.imag(),0,"imag"); same(Expression(Conj(A))(),a.real(),-a.imag(),"conj"); same(Expression(Norm(A))(),a.real()*a.real()+a.imag()*a.imag(),0,"norm"); same(Expression(Abs(A))(),std::abs(a),C(0).imag(),"abs"); same(Expression(SubTree(A))(),a,"sub-tree"); same(A(),a,"complex parameter"); same(K(a)(),a,"constant"); same(PR("x",a.real())(),a.real(),0,"parameter"); 
  same(fcn::conj(A)(),a.real(),-a.imag(),"fcn::conj"); same(fcn::conj(K(a))(),a.real(),-a.imag(),"fcn::conj of a constant"); same(fcn::conj(PR("x",a.real()))(),a.real(),0,"fcn::conj of a parameter"); same(fcn::norm(A)(),a.real()*a.real()+a.imag()*a.imag(),0,"fcn::norm"); same(fcn::norm(K(a))(),a.real()*a.real()+a.imag()*a.imag(),0,"fcn::norm of a constant"); same(make_cse(A)(),a,"make_cse"); same(make_cse(K(a))(),a,"make_cse of a constant"); }
#define UN(name,NODE,F) GOAL(function_##name){ C a=Z("a"); C e=F; Expression A=PC("a",a); same(Expression(NODE(A))(),e,"node"); same(fcn::name(A)(),e,"function of an expression"); same(fcn::name(K(a))(),e,"function of a constant"); same(fcn::name(A+K(C(0)))(),e,"function of a folded sum"); }
UN(sin,Sin,std::sin(a)) UN(cos,Cos,std::cos(a)) UN(tan,Tan,std::tan(a)) UN(asin,ASin,std::asin(a)) UN(acos,ACos,std::acos(a)) UN(atan,ATan,std::atan(a)) UN(exp,Exp,std::exp(a)) UN(log,Log,std::log(a)) UN(sqrt,Sqrt,std::sqrt(a)) UN(abs,Abs,C(std::abs(a)))
GOAL(function_atan2){ double a=sym_real("a"),b=sym_real("b"); same(fcn::atan2(PR("a",a),PR("b",b))(),std::atan2(a,b),0,"atan2"); }
GOAL(function_lgamma){ double a=sym_real("a"); sym_assume(a>0); same(Expression(LGamma(PR("a",a)))(),std::lgamma(a),0,"lgamma"); }
GOAL(function_fmod){ double a=sym_real("a"),b=sym_real("b"); sym_assume(b>0); same(Expression(Fmod(PR("a",a),PR("b",b)))(),std::fmod(a,b),0,"fmod"); }
GOAL(function_pow){ C a=Z("a"),b=Z("b"); sym_assume(a.real()!=0||a.imag()!=0); C e=std::pow(a,b); same(Expression(Pow(PC("a",a),PC("b",b)))(),e,"node"); same(fcn::pow(PC("a",a),PC("b",b))(),e,"pow"); int k=sym_choose("k",0,8); static const C x[]={0.,1.,2.,-1.,.5,1e-20,C(0,1),C(0,-2),C(1,3)}; Expression r=fcn::pow(PC("a",a),K(x[k])); if(k==0) same(r(),1,0,"power 0"); else if(k==1) same(r(),a,"power 1"); else same(r(),std::pow(a,x[k]),"power"); }
GOAL(function_fpow){ C a=Z("a"); sym_assume(a.real()!=0||a.imag()!=0); int n=sym_choose("n",-4,sym_tier()?7:5); C e(1,0); for(int i=0;i<std::abs(n);++i) e=C(e.real()*a.real()-e.imag()*a.imag(),e.real()*a.imag()+e.imag()*a.real()); C r=fcn::fpow(PC("a",a),n)(); if(n<0){ double q=e.real()*e.real()+e.imag()*e.imag(); same(r,e.real()/q,-e.imag()/q,"negative power"); } else same(r,e,"power"); }
GOAL(function_roots){ double a=sym_real("a"); sym_assume(a!=0); Expression A=PR("a",a); C c=fcn::complex_sqrt(A)(), s=fcn::safe_sqrt(A)(); if(a>0){ double q=std::sqrt(C(a,0)).real(); (void)q; C r=std::sqrt(C(a,0)); same(c,r,"complex_sqrt"); same(s,r,"safe_sqrt"); C i=fcn::isqrt(A)(); C one=C(1.)/r; same(i,one,"isqrt"); same(fcn::isqrt(K(C(a,0)))(),one,"isqrt of a constant"); } else { C r=std::sqrt(C(-a,0)); same(c,C(-r.imag(),r.real()),"complex_sqrt of a negative number"); same(s,0,0,"safe_sqrt of a negative number"); } }
GOAL(function_root_constant){ static const double x[]={4,-4,0.25,-2.25,0}; int k=sym_choose("k",0,4); C r=fcn::complex_sqrt(K(x[k]))(); double m=std::sqrt(std::fabs(x[k])); sym_check(std::abs(r-(x[k]<0?C(0,m):C(m,0)))<1e-12,"complex_sqrt of a constant"); }
// ---- operators: shapes with symbolic constants
struct SV { Expression e; C v; };
static C mul(const C& a,const C& b){ return C(a.real()*b.real()-a.imag()*b.imag(),a.real()*b.imag()+a.imag()*b.real()); }
static C dvd(const C& a,const C& b){ double n=b.real()*b.real()+b.imag()*b.imag(); return C((a.real()*b.real()+a.imag()*b.imag())/n,(a.imag()*b.real()-a.real()*b.imag())/n); }
static SV shape(const char* n,int k,bool nz){ S_ c(n),p(n),q(n); c+="c"; p+="p"; q+="q";
  switch(k){ case 0: { double v=sym_real(c.c_str()); if(nz) sym_assume(v!=0); return {K(C(v,0)),C(v,0)}; }
    case 1: { C v=Z(c.c_str()); sym_assume(v.imag()!=0); return {K(v),v}; }
    case 2: { double v=sym_real(p.c_str()); if(nz) sym_assume(v!=0); return {PR(p.c_str(),v),C(v,0)}; }
    case 3: { double k2=sym_real(c.c_str()),v=sym_real(p.c_str()); if(nz){ sym_assume(v!=0); sym_assume(k2!=0);} return {Product(K(C(k2)),PR(p.c_str(),v)),C(k2*v,0)}; }
    case 4: { double k2=sym_real(c.c_str()),v=sym_real(p.c_str()); if(nz) sym_assume(k2+v!=0); return {Sum(K(C(k2)),PR(p.c_str(),v)),C(k2+v,0)}; }
    case 5: { double u=sym_real(q.c_str()),v=sym_real(p.c_str()); if(nz){ sym_assume(v!=u); } return {Sub(PR(p.c_str(),v),PR(q.c_str(),u)),C(v-u,0)}; }
    case 6: { double u=sym_real(q.c_str()),v=sym_real(p.c_str()); sym_assume(u!=0); if(nz){ sym_assume(v!=0); } return {Divide(PR(p.c_str(),v),PR(q.c_str(),u)),C(v/u,0)}; }
    case 7: { double k2=sym_real(c.c_str()),v=sym_real(p.c_str()); if(nz){ sym_assume(v!=0); sym_assume(k2!=0);} return {Product(PR(p.c_str(),v),K(C(k2))),C(k2*v,0)}; }
    case 8: { C k2=Z(c.c_str()); double v=sym_real(p.c_str()); sym_assume(k2.imag()!=0); if(nz) sym_assume(v!=0); return {Product(K(k2),PR(p.c_str(),v)),C(k2.real()*v,k2.imag()*v)}; }
    case 9: { double u=sym_real(q.c_str()),v=sym_real(p.c_str()); if(nz){ sym_assume(v!=-u); } return {Sum(PR(p.c_str(),v),PR(q.c_str(),u)),C(v+u,0)}; }
    default:{ double k2=sym_real(c.c_str()),v=sym_real(p.c_str()); if(nz) sym_assume(k2-v!=0); return {Sub(K(C(k2)),PR(p.c_str(),v)),C(k2-v,0)}; } } }
static void ops(int ka){ int op=sym_choose("op",0,3); int kb=sym_choose("kb",0,10); SV a=shape("a",ka,false), b=shape("b",kb,op==3);
  switch(op){ case 0: same((a.e+b.e)(),C(a.v.real()+b.v.real(),a.v.imag()+b.v.imag()),"sum"); break; case 1: same((a.e-b.e)(),C(a.v.real()-b.v.real(),a.v.imag()-b.v.imag()),"difference"); break; case 2: same((a.e*b.e)(),mul(a.v,b.v),"product"); break; default: same((a.e/b.e)(),dvd(a.v,b.v),"quotient"); } }
#define OPS(k) GOAL(operators_##k){ ops(k); }
OPS(0) OPS(1) OPS(2) OPS(3) OPS(4) OPS(5) OPS(6) OPS(7) OPS(8) OPS(9) OPS(10)
GOAL(negate){ int k=sym_choose("k",0,10); SV a=shape("a",k,false); same((-a.e)(),C(-a.v.real(),-a.v.imag()),"unary minus"); }
