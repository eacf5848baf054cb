// C11: code generated for splines, executed together with the real SplineTransfer.  usage: c11_emit <outdir> [thorough]
#include "emit.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/OptionsParser.h"
using namespace vg; static std::string OUT;
struct Cfg { unsigned N; double lo,hi; };
// natural cubic spline in the generated file: independent (Thomas algorithm is not used: dense elimination on the defining equations)
static const char* extra=R"(
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_linalg.h>
#include "AmpGen/Spline.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/CompiledExpressionBase.h"
using namespace AmpGen;
struct Dest : CompiledExpressionBase { double* x0; int n; Dest(double* p,int n): CompiledExpressionBase("dest"),x0(p),n(n){} bool link(void*){return true;} bool link(const std::string&){return true;} void setExternal(const double& v,const unsigned& a){ sym_check(int(a)<n,"cache slot"); x0[a]=v; } void resizeExternalCache(const size_t&){} bool isReady() const {return true;} std::string returnTypename() const {return "double";} void print() const {} unsigned returnTypeSize() const {return 8;} std::vector<std::string> types() const {return {};} std::vector<real_t> externBuffer() const {return {};} bool use_rto() const {return false;} std::string arg_type(const unsigned&) const {return "";} };
#ifdef VERIF_IR  // dense Gauss-Jordan stand-in for the GSL calls
extern "C" { gsl_matrix* gsl_matrix_alloc(size_t a,size_t b){ gsl_matrix* m=new gsl_matrix; m->size1=a; m->size2=b; m->tda=b; m->data=new double[a*b]; return m; } void gsl_matrix_free(gsl_matrix* m){ delete[] m->data; delete m; } void gsl_matrix_set_all(gsl_matrix* m,double x){ for(size_t i=0;i<m->size1*m->size2;++i) m->data[i]=x; } double gsl_matrix_get(const gsl_matrix* m,size_t i,size_t j){ sym_check(i<m->size1&&j<m->size2,"matrix index"); return m->data[i*m->tda+j]; } void gsl_matrix_set(gsl_matrix* m,size_t i,size_t j,double x){ sym_check(i<m->size1&&j<m->size2,"matrix index"); m->data[i*m->tda+j]=x; } void gsl_matrix_set_zero(gsl_matrix* m){ gsl_matrix_set_all(m,0); } void gsl_matrix_set_identity(gsl_matrix* m){ gsl_matrix_set_all(m,0); for(size_t i=0;i<m->size1;++i) m->data[i*m->tda+i]=1; }
gsl_permutation* gsl_permutation_alloc(size_t n){ auto p=new gsl_permutation; p->size=n; p->data=nullptr; return p; } void gsl_permutation_free(gsl_permutation* p){ delete p; } int gsl_linalg_LU_decomp(gsl_matrix*,gsl_permutation*,int* s){ *s=1; return 0; }
int gsl_linalg_LU_invert(const gsl_matrix* A,const gsl_permutation*,gsl_matrix* R){ size_t n=A->size1; std::vector<double> a(A->data,A->data+n*n); gsl_matrix_set_identity(R); for(size_t c=0;c<n;++c){ double p=a[c*n+c]; for(size_t j=0;j<n;++j){ a[c*n+j]/=p; R->data[c*n+j]/=p; } for(size_t i=0;i<n;++i) if(i!=c){ double f=a[i*n+c]; for(size_t j=0;j<n;++j){ a[i*n+j]-=f*a[c*n+j]; R->data[i*n+j]-=f*R->data[c*n+j]; } } } return 0; } }
#endif
static const double TOL=1e-7;
static void near_(double a,double b,const char* l){ double d=a-b; sym_check(d<=TOL && d>=-TOL,l); }
template <int N> struct Knots { MinuitParameter* p[N]; double y[N]; Knots(const char* tag){ char n[4]={tag[0],'0',0,0}; for(int i=0;i<N;++i){ n[1]='0'+i; y[i]=sym_real(n,-10.,10.); p[i]=new MinuitParameter(n,Flag::Free,y[i],0.1); } } void fill(double* x0,int n,size_t address,double lo,double hi){ Dest d(x0,n); SplineTransfer t(address,"s",N,lo,hi); for(int i=0;i<N;++i) t.set(i,p[i]); sym_check(t.isConfigured(),"configured"); t.transfer(&d); } };
)";

static std::string lit(double v){ return num(v); }
struct Dst : CompiledExpressionBase { std::vector<double> x; Dst(size_t n): CompiledExpressionBase("d"),x(n){} bool link(void*){return true;} bool link(const std::string&){return true;} void setExternal(const double& v,const unsigned& a){ x.at(a)=v; } void resizeExternalCache(const size_t&){} bool isReady() const {return true;} std::string returnTypename() const {return "double";} void print() const {} unsigned returnTypeSize() const {return 8;} std::vector<std::string> types() const {return {};} std::vector<real_t> externBuffer() const {return {};} bool use_rto() const {return false;} std::string arg_type(const unsigned&) const {return "";} };
static void options(const std::string& n,const Cfg& c){ char a[32],b[32]; snprintf(a,32,"%.17g",c.lo); snprintf(b,32,"%.17g",c.hi); OptionsParser::getMe()->m_parsedLines[n+"::Spline"]={n+"::Spline",std::to_string(c.N),a,b}; }
static size_t address(const CompiledExpressionBase& ce,const std::string& n){ for(auto* t:ce.orderedCacheFunctors()) if(t->name()==n) return t->address(); std::cerr<<"no transfer "<<n<<"\n"; exit(3); }
// does the compiled expression bind the named knots to the transfer?
static std::string binding(const CompiledExpressionBase& ce,MinuitParameterSet& mps,const std::string& n,const Cfg& c){ auto ext=ce.externBuffer(); size_t a=address(ce,n); Dst d(ext.size()); SplineTransfer t(a,n,c.N,c.lo,c.hi); for(unsigned i=0;i<c.N;++i) t.set(i,mps.find(n+"::"+std::to_string(i))); t.transfer(&d); std::string r; for(size_t i=a;i<a+2*c.N;++i) if(!(std::abs(d.x[i]-ext[i])<1e-9)) r="the cache of "+n+" is not filled from its knots"; return r; }
template <class CE> static void bindTo(CE& ce,const std::string& id,const Expression& e,const EM& evt,MinuitParameterSet& mps){ ce.set(e,id,evt,&mps); ce.prepare(); }
static void knots(MinuitParameterSet& mps,const std::string& n,unsigned N,double o){ for(int i=N-1;i>=0;--i) mps.add(n+"::"+std::to_string(i),Flag::Free,o+i*i*0.37-i*0.11,0.1); }
int main(int argc,char** argv){ OUT=argv[1]; bool thorough=argc>2; EM evt{{"e0",0},{"e1",1}};
  std::vector<Cfg> cfgs{{3,0.25,1.25},{4,0.5,2.0},{5,-1.0,1.0},{6,0.0,5.0}}; if(thorough) for(auto& c:std::vector<Cfg>{{7,0.25,3.25},{8,1.,8.}}) cfgs.push_back(c);
  { File F(OUT,"c11_spline.cpp",extra);
  for(auto& c:cfgs){ std::string id="spline_"+std::to_string(c.N), X="X"+std::to_string(c.N), nm=X+"::Spline::Re"; unsigned N=c.N; double h=(c.hi-c.lo)/(N-1); options(X,c);
    MinuitParameterSet mps; mps.add("other",Flag::Free,1.,0.1); knots(mps,nm,N,0.5);
    CompiledExpression<real_t(const real_t*,const real_t*)> ce(id); bindTo(ce,id,Parameter("other")+getSpline(X,Parameter("e0"),"Re"),evt,mps); size_t a=address(ce,nm), n=ce.externBuffer().size(); int oth=-1; for(size_t i=0;i<n;++i) if(i<a||i>=a+2*N) oth=i;
    F.begin(id); slurp(F.out,ce,OUT); std::string f="f_"+id; auto& o=F.out;
    o<<"static double "<<f<<"(const double* x0,double x){ double x1[2]={x,0}; return "<<ce.progName()<<"(x0,x1); }\n";
    o<<"static const double w_"<<id<<"=0;\n";
    std::string b=binding(ce,mps,nm,c); o<<"GOAL("<<id<<"_binding){ "; if(b!="") o<<"sym_check(false,\""<<b<<"\");"; o<<" double z=sym_real(\"z\"); sym_check(z==z,\"\"); }\n";
    std::string pre="  double x0["+std::to_string(n)+"]; for(int i=0;i<"+std::to_string(n)+";++i) x0[i]=0; ", fill="Knots<"+std::to_string(N)+"> K(\"y\"); K.fill(x0,"+std::to_string(n)+","+std::to_string(a)+","+lit(c.lo)+","+lit(c.hi)+");\n";
    o<<"GOAL("<<id<<"_knots){\n"<<pre<<fill; for(unsigned i=0;i<N;++i) o<<"  near_("<<f<<"(x0,"<<lit(c.lo+i*h)<<"),K.y["<<i<<"],\"value at knot "<<i<<"\");\n"; o<<"}\n";
    // the cubic through four interior points of each interval, continued to its ends
    o<<"GOAL("<<id<<"_smooth){\n"<<pre<<fill<<"  const double h="<<lit(h)<<"; double v["<<N-1<<"][2],d["<<N-1<<"][2],s["<<N-1<<"][2];\n  for(int k=0;k<"<<N-1<<";++k){ double g[4]; for(int j=0;j<4;++j) g[j]="<<f<<"(x0,"<<lit(c.lo)<<"+h*(k+0.125+0.25*j)); double d1=g[1]-g[0],d2=g[2]-2*g[1]+g[0],d3=g[3]-3*g[2]+3*g[1]-g[0];\n"
     <<"    for(int e=0;e<2;++e){ double u=e?3.5:-0.5; /* Newton form in u, step h/4 */ v[k][e]=g[0]+d1*u+d2*(u*(u-1)/2)+d3*(u*(u-1)*(u-2)/6); d[k][e]=d1+d2*((2*u-1)/2)+d3*((3*u*u-6*u+2)/6); s[k][e]=d2+d3*(u-1); } }\n"
     <<"  for(int k=0;k<"<<N-1<<";++k){ near_(v[k][0],K.y[k],\"left end\"); near_(v[k][1],K.y[k+1],\"right end\"); if(k){ near_(d[k][0],d[k-1][1],\"first derivative\"); near_(s[k][0],s[k-1][1],\"second derivative\"); } }\n  near_(s[0][0],0,\"natural end\"); near_(s["<<N-2<<"][1],0,\"natural end\");\n}\n";
    o<<"GOAL("<<id<<"_line){\n"<<pre<<fill<<"  double A=K.y[0],B=K.y[1]-K.y[0]; for(int i=2;i<"<<N<<";++i) sym_assume(K.y[i]==A+B*i);\n  for(int k=0;k<"<<N-1<<";++k) for(int j=0;j<4;++j){ double u=k+0.125+0.25*j; near_("<<f<<"(x0,"<<lit(c.lo)<<"+"<<lit(h)<<"*u),A+B*u,\"straight line\"); }\n}\n";
    // between the knots: cubic for every cache content and every abscissa
    for(unsigned k=0;k+1<N;++k) o<<"GOAL("<<id<<"_cubic_"<<k<<"){\n  double x0["<<n<<"]; char nn[4]={'c','0','0',0}; for(int i=0;i<"<<n<<";++i){ nn[1]='0'+i/10; nn[2]='0'+i%10; x0[i]=sym_real(nn); }\n  double t=sym_real(\"t\"); sym_assume(t>0); sym_assume(t<1); const double h="<<lit(h)<<", l="<<lit(c.lo+k*h)<<";\n  double g[4]; for(int j=0;j<4;++j) g[j]="<<f<<"(x0,l+h*(0.125+0.25*j));\n  double u=4*t-0.5; double d1=g[1]-g[0],d2=g[2]-2*g[1]+g[0],d3=g[3]-3*g[2]+3*g[1]-g[0];\n  sym_eq("<<f<<"(x0,l+h*t),g[0]+d1*u+d2*(u*(u-1)/2)+d3*(u*(u-1)*(u-2)/6),\"cubic\");\n}\n";
    o<<"GOAL("<<id<<"_beyond){\n"<<pre<<fill<<"  double x=sym_real(\"x\"),z=sym_real(\"z\"),w=sym_real(\"w\"); sym_assume(x>"<<lit(c.hi)<<"); sym_assume(z<"<<lit(c.lo)<<"); sym_assume(w<"<<lit(c.lo)<<"); near_("<<f<<"(x0,x),K.y["<<N-1<<"],\"above the last knot\"); sym_eq("<<f<<"(x0,z),"<<f<<"(x0,w),\"constant below the first knot\");\n}\n";
    if(oth>=0) o<<"GOAL("<<id<<"_other){\n"<<pre<<fill<<"  double q=sym_real(\"q\"),r0="<<f<<"(x0,"<<lit(c.lo+0.5*h)<<"); x0["<<oth<<"]=q; sym_eq("<<f<<"(x0,"<<lit(c.lo+0.5*h)<<"),r0+q,\"other parameter\");\n}\n";
    F.end(); } }
  // lineshapes built on splines, at the knots
  { File F(OUT,"c11_shapes.cpp",extra); Cfg c{4,0.5,2.0}; double h=0.5; unsigned N=4;
    struct Sh { const char* id; std::string shape; std::vector<std::string> arrays; const char* check; };
    std::vector<Sh> shapes{{"MIPWA","MIPWA",{"Re","Im"},"same_(v,C_(A.y[i],B.y[i]),\"value\");"},{"MIPWA_Polar","MIPWA.Polar",{"Re","Im"},"same_(v,C_(A.y[i]*std::cos(B.y[i]),A.y[i]*std::sin(B.y[i])),\"polar\");"},{"InelasticSpline","InelasticSpline",{"Eta","Delta"},"same_(v*C_(0,2)+C_(1),C_(A.y[i]*std::cos(2*B.y[i]),A.y[i]*std::sin(2*B.y[i])),\"S matrix\");"}};
    for(auto& sh:shapes){ std::string P="rho(770)0"; options(P,c); std::string n0=P+"::Spline::"+sh.arrays[0],n1=P+"::Spline::"+sh.arrays[1]; MinuitParameterSet mps; knots(mps,n1,N,0.5); knots(mps,n0,N,2.5); CompiledExpression<complex_t(const real_t*,const real_t*)> ce(sh.id); bindTo(ce,sh.id,Lineshape::Factory::get(sh.shape,Parameter("e0"),Constant(0.0625),Constant(0.0625),P,0),evt,mps); size_t n=ce.externBuffer().size(); auto& o=F.out; F.begin(sh.id); slurp(o,ce,OUT);
      o<<"GOAL("<<sh.id<<"_binding){ "; for(auto& m:{n0,n1}){ auto b=binding(ce,mps,m,c); if(b!="") o<<"sym_check(false,\""<<b<<"\");"; } o<<" double z=sym_real(\"z\"); sym_check(z==z,\"\"); }\n";
      o<<"GOAL("<<sh.id<<"){\n  double x0["<<n<<"]; for(int i=0;i<"<<n<<";++i) x0[i]=0; Knots<4> A(\"a\"),B(\"b\"); A.fill(x0,"<<n<<","<<address(ce,n0)<<","<<lit(c.lo)<<","<<lit(c.hi)<<"); B.fill(x0,"<<n<<","<<address(ce,n1)<<","<<lit(c.lo)<<","<<lit(c.hi)<<");\n  for(int i=0;i<4;++i){ double x1[2]={"<<lit(c.lo)<<"+"<<lit(h)<<"*i,0}; C_ v="<<ce.progName()<<"(x0,x1); "<<sh.check<<" }\n}\n"; F.end(); } }
}
