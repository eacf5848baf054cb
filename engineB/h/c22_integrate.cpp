// C22: cubature and quadrature rules against the exact integrals of polynomials with symbolic coefficients.
#include "util.h"
#include <array>
#include <tuple>
#include <vector>
#include "AmpGen/MetaUtils.h"
#include "AmpGen/Types.h"
#include "AmpGen/simd/utils.h"
#include "AmpGen/simd/integrate_fp.h"
#include "AmpGen/NumericalIntegration.h"
using namespace AmpGen; using std::array; using std::vector; using std::string;
#ifdef VERIF_IR
// GSL is linked as a binary; its integrators are modelled by a ten-point Gauss-Legendre rule (exact to degree 19)
static const double gx[5]={0.1488743389816312,0.4333953941292472,0.6794095682990244,0.8650633666889845,0.9739065285171717},gw[5]={0.2955242247147529,0.2692667193099963,0.2190863625159820,0.1494513491505806,0.0666713443086881};
static int workspaces=0;
extern "C" { gsl_integration_workspace* gsl_integration_workspace_alloc(size_t){ ++workspaces; return (gsl_integration_workspace*)malloc(8); } void gsl_integration_workspace_free(gsl_integration_workspace* w){ --workspaces; free(w); }
int gsl_integration_qags(const gsl_function* f,double a,double b,double,double,size_t,gsl_integration_workspace* w,double* r,double* e){ sym_check(w!=nullptr,"workspace"); double s=0; for(int i=0;i<5;++i) s+=gw[i]*(f->function((a+b)/2+(b-a)/2*gx[i],f->params)+f->function((a+b)/2-(b-a)/2*gx[i],f->params)); *r=s*(b-a)/2; *e=0; return 0; } }
#endif
// the coarse check comes first: its counter-examples are far outside the fine tolerance, so they replay in floating point
static void near(double a,double b,double t,const char* l){ double d=a-b; sym_check((d<=100*t)&(d>=-100*t),l); sym_check((d<=t)&(d>=-t),l); }
static double ipow(double x,int n){ double r=1; while(n-->0) r*=x; return r; }
struct Poly { int dim; vector<array<int,8>> e; vector<double> c; };
static string nmOf(const array<int,8>& e,int dim){ string s("c"); for(int i=0;i<dim;++i) s+=char('0'+e[i]); return s; }
static void gen(Poly& p,int d,int left,array<int,8> e,double lo,double hi){ if(d==p.dim){ p.e.push_back(e); p.c.push_back(sym_real(nmOf(e,p.dim).c_str(),lo,hi)); return; } for(int k=0;k<=left;++k){ e[d]=k; gen(p,d+1,left-k,e,lo,hi); } }
static Poly poly(int dim,int deg){ Poly p; p.dim=dim; gen(p,0,deg,array<int,8>{},-1,1); return p; }
template<unsigned D> static double value(const Poly& p,const array<double,D>& z){ double s=0; for(size_t i=0;i<p.e.size();++i){ double m=1; for(unsigned d=0;d<D;++d) m*=ipow(z[d],p.e[i][d]); s+=p.c[i]*m; } return s; }
template<unsigned D> static double exact(const Poly& p,const array<double,D>& lo,const array<double,D>& hi){ double s=0; for(size_t i=0;i<p.e.size();++i){ double m=1; for(unsigned d=0;d<D;++d){ int n=p.e[i][d]+1; m*=(ipow(hi[d],n)-ipow(lo[d],n))/n; } s+=p.c[i]*m; } return s; }
template<unsigned D> static void box(array<double,D>& c,array<double,D>& w){ int b=sym_choose("box",0,2); for(unsigned d=0;d<D;++d){ if(b==0){ c[d]=0; w[d]=1; } else if(b==1){ c[d]=0.5-0.25*d; w[d]=0.5+0.125*d; } else { c[d]=-1.+d; w[d]= d==1? 0.25 : 1.5; } } }
template<unsigned D> struct Vec { const Poly& p; int* calls; real_v operator()(const array<real_v,D>& z) const { ++*calls; array<double,4> r; for(int l=0;l<4;++l){ array<double,D> x; for(unsigned d=0;d<D;++d) x[d]=z[d].at(l); r[l]=value<D>(p,x); } return real_v(r.data()); } };
template<unsigned D> static void rule(int deg,bool vec,bool err){ sym_merge(2); Poly p=poly(D,deg); array<double,D> c,w,lo,hi; box<D>(c,w); for(unsigned d=0;d<D;++d){ lo[d]=c[d]-w[d]; hi[d]=c[d]+w[d]; } int calls=0; double v,e; unsigned ax;
  if(vec){ auto t=integrate_fp<D,4>(Vec<D>{p,&calls},c,w); v=std::get<0>(t); e=std::get<1>(t); ax=std::get<2>(t); } else { auto t=integrate_fp_scalar<D>([&p](const array<double,D>& z){ return value<D>(p,z); },c,w); v=std::get<0>(t); e=std::get<1>(t); ax=std::get<2>(t); }
  near(v,exact<D>(p,lo,hi),1e-7,"the rule integrates the polynomial exactly"); sym_check(e>=0,"the error estimate is not negative"); if(err) sym_check(e<=1e-7,"polynomials of degree five have no estimated error"); sym_check(ax<D,"the axis to split is one of the axes"); }
#define RULES(D) GOAL(scalar_##D){ rule<D>(7,false,false); } GOAL(vector_##D){ rule<D>(7,true,false); } GOAL(scalar_error_##D){ rule<D>(5,false,true); } GOAL(vector_error_##D){ rule<D>(5,true,true); }
RULES(2) RULES(3)
#define RULES4(D,d) GOAL(scalar_##D){ rule<D>(sym_tier()?7:d,false,false); } GOAL(vector_##D){ rule<D>(sym_tier()?7:d,true,false); }
RULES4(4,5)
// higher dimensions: one term of each shape up to the degree of the rule
template<unsigned D> static void shapes(bool vec){ sym_merge(2); Poly p; p.dim=D; static const int E[][3]={{0,0,0},{2,0,0},{4,0,0},{6,0,0},{2,2,0},{4,2,0},{2,2,2},{1,2,4}}; int a=sym_choose("a",0,D-1),b=(a+1)%D,c=(a+2)%D; for(auto& t:E){ array<int,8> e{}; e[a]=t[0]; e[b]=t[1]; e[c]=t[2]; p.e.push_back(e); p.c.push_back(sym_real(nmOf(e,D).c_str(),-1,1)); } array<double,D> ct,w,lo,hi; for(unsigned d=0;d<D;++d){ ct[d]=d%2?0.25:0; w[d]=d%3?1:0.5; lo[d]=ct[d]-w[d]; hi[d]=ct[d]+w[d]; } int calls=0; double v,e; unsigned ax; if(vec) std::tie(v,e,ax)=integrate_fp<D,4>(Vec<D>{p,&calls},ct,w); else std::tie(v,e,ax)=integrate_fp_scalar<D>([&p](const array<double,D>& z){ return value<D>(p,z); },ct,w); near(v,exact<D>(p,lo,hi),1e-6,"the rule integrates the polynomial exactly"); sym_check(e>=0,"the error estimate is not negative"); sym_check(ax<D,"the axis to split is one of the axes"); }
GOAL(shapes_5){ shapes<5>(true); } GOAL(shapes_6){ shapes<6>(true); } GOAL(shapes_7){ shapes<7>(true); } GOAL(shapes_8){ shapes<8>(true); } GOAL(shapes_scalar_5){ shapes<5>(false); } GOAL(shapes_scalar_7){ shapes<7>(false); }
// the axis that is split is the one along which the integrand is furthest from a quadratic
template<unsigned D> static void split(bool vec){ sym_merge(2); Poly p; p.dim=D; int k=sym_choose("k",0,D-1); double q[D]; for(unsigned d=0;d<D;++d) for(int n=1;n<=4;++n){ array<int,8> e{}; e[d]=n; p.e.push_back(e); p.c.push_back(sym_real(nmOf(e,D).c_str(),-1,1)); if(n==4) q[d]=p.c.back(); } double b=q[k]<0?-q[k]:q[k]; sym_assume(b>=0.1); for(unsigned d=0;d<D;++d) if((int)d!=k) sym_assume((2*q[d]<=b)&(-2*q[d]<=b)); array<double,D> c,w; for(unsigned d=0;d<D;++d){ c[d]=0; w[d]=1; } unsigned ax; int n=0; if(vec) ax=std::get<2>(integrate_fp<D,4>(Vec<D>{p,&n},c,w)); else ax=std::get<2>(integrate_fp_scalar<D>([&p](const array<double,D>& z){ return value<D>(p,z); },c,w)); sym_check((int)ax==k,"the axis with the largest fourth difference is split"); }
GOAL(split_2){ split<2>(false); } GOAL(split_3){ split<3>(false); } GOAL(split_4){ split<4>(false); } GOAL(split_vector_2){ split<2>(true); } GOAL(split_vector_3){ split<3>(true); } GOAL(split_vector_4){ split<4>(true); }
// the error estimate sees a change of the integrand that the lower rule misses
template<unsigned D> static void estimate(bool vec){ sym_merge(2); double a=sym_real("a",-1,1); int axis=sym_choose("axis",0,D-1); array<double,D> c,w; for(unsigned d=0;d<D;++d){ c[d]=0; w[d]=1; } double e; if(vec){ Poly p; p.dim=D; array<int,8> x{}; x[axis]=6; p.e.push_back(x); p.c.push_back(a); int n=0; e=std::get<1>(integrate_fp<D,4>(Vec<D>{p,&n},c,w)); } else e=std::get<1>(integrate_fp_scalar<D>([&](const array<double,D>& z){ return a*ipow(z[axis],6); },c,w)); double b=a<0?-a:a; sym_check(e>=0.01*b,"a sixth-order term shows up in the error estimate"); }
GOAL(estimate_2){ estimate<2>(false); } GOAL(estimate_3){ estimate<3>(false); } GOAL(estimate_vector_2){ estimate<2>(true); }
// adaptive integration: whatever is split, the parts add up
template<unsigned D> static void adaptive(double lo6,double hi6,bool offset){ Poly p; p.dim=D; auto term=[&](int k,int n,const char* nmx,double l,double h){ array<int,8> e{}; e[k]=n; p.e.push_back(e); p.c.push_back(sym_real(nmx,l,h)); }; term(0,0,"c0",5,10); term(0,1,"cx",-1,1); term(1,1,"cy",-1,1); { array<int,8> e{}; e[0]=1; e[1]=1; p.e.push_back(e); p.c.push_back(sym_real("cxy",-1,1)); } if(hi6>0){ int ax=sym_choose("axis",0,D-1); term(ax,6,"c6",lo6,hi6); }
  array<double,D> lo,hi; for(unsigned d=0;d<D;++d){ lo[d]= offset? -0.5+0.25*d : -1; hi[d]= offset? 1+0.5*d : 1; } int calls=0; double r=integrate<D>(Vec<D>{p,&calls},lo,hi); near(r,exact<D>(p,lo,hi),1e-6,"the integral is the sum over the box"); sym_check(calls>0,"the integrand is used"); }
GOAL(adaptive_2){ adaptive<2>(0,0,false); } GOAL(adaptive_offset_2){ adaptive<2>(0,0,true); } GOAL(adaptive_3){ adaptive<3>(0,0,true); }
GOAL(adaptive_split_2){ adaptive<2>(2e-8,3e-8,false); } GOAL(adaptive_more_2){ adaptive<2>(2e-6,3e-6,true); } GOAL(adaptive_split_3){ adaptive<3>(2e-8,3e-8,true); }
// one dimension
template<class F> static double one(const F& f,double a,double b){ return integrate<1>(f,array<double,1>{a},array<double,1>{b}); }
GOAL(one_dimension){ Poly p=poly(1,7); int b=sym_choose("box",0,2); double lo=b==0?0:b==1?-2:1, hi=b==0?1:b==1?1.5:-1; double w=exact<1>(p,array<double,1>{lo},array<double,1>{hi}); auto f=[&p](const double& x){ return value<1>(p,array<double,1>{x}); }; auto g=[&p](const array<double,1>& x){ return value<1>(p,x); };
  near(integrate_1d(f,lo,hi),w,1e-4,"integrate_1d"); near(integrate_1d(g,lo,hi),w,1e-4,"integrate_1d of a one-dimensional array"); near(one(g,lo,hi),w,1e-4,"integrate<1> of an array function"); near(one(f,lo,hi),w,1e-4,"integrate<1> of a function of a number"); }
GOAL(workspace){ Poly p=poly(1,3); auto f=[&p](const double& x){ return value<1>(p,array<double,1>{x}); }; auto ws=gsl_integration_workspace_alloc(1000); double a=integrate_1d(f,-1,2,ws),b=integrate_1d(f,-1,2); near(a,b,1e-4,"a caller's workspace gives the same answer");
#ifdef VERIF_IR
  sym_check(workspaces==1,"own workspaces are released, the caller's is kept");
#endif
  gsl_integration_workspace_free(ws); }
