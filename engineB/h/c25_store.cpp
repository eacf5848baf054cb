// C25: Store / FunctionCache against a plain two-dimensional table.
#include "util.h"
#include <numeric>
#include "AmpGen/Store.h"
using namespace AmpGen; using std::string; using std::vector;
template <class T> struct Tag; 
template <> struct Tag<double>{ static double mk(double x){ return x; } static void eq(const double& a,double x,const char* l){ sym_eq(a,x,l); } static double lane(const double& a,unsigned){ return a; } static const unsigned n=1; };
template <> struct Tag<complex_t>{ static complex_t mk(double x){ return complex_t(x,x+1000); } static void eq(const complex_t& a,double x,const char* l){ sym_eq(a.real(),x,l); sym_eq(a.imag(),x+1000,l); } static double lane(const complex_t& a,unsigned){ return a.real(); } static const unsigned n=1; };
template <> struct Tag<real_v>{ static real_v mk(double x){ return real_v(x,x+1,x+2,x+3); } static void eq(const real_v& a,double x,const char* l){ for(unsigned k=0;k<4;++k) sym_eq(a.at(k),x+k,l); } static const unsigned n=4; };
template <> struct Tag<complex_v>{ static complex_v mk(double x){ return complex_v(Tag<real_v>::mk(x),Tag<real_v>::mk(x+1000)); } static void eq(const complex_v& a,double x,const char* l){ Tag<real_v>::eq(a.real(),x,l); Tag<real_v>::eq(a.imag(),x+1000,l); } static const unsigned n=4; };
template <class T,Alignment A> void shape(const Store<T,A>& s,size_t n,size_t nf){ const size_t B=Tag<T>::n; size_t nb=n/B+(n%B?1:0); sym_check(s.size()==n&&s.nFields()==nf,"size and number of fields"); sym_check(s.nBlocks()==nb,"number of blocks"); sym_check(s.aligned_size()==nb*B,"aligned size is the next multiple of the block"); sym_check(s.size_raw()==nb*nf,"storage holds exactly every block of every field"); }
// one write, then every element is what it should be
template <class T,Alignment A> void oneWrite(){ const size_t B=Tag<T>::n; size_t n=sym_choose("n",1,sym_tier()?3*B+1:2*B+1), nf=sym_choose("nf",1,3); Store<T,A> s(n,nf); shape(s,n,nf); size_t nb=s.nBlocks();
  for(size_t b=0;b<nb;++b) for(size_t f=0;f<nf;++f) s(b,f)=Tag<T>::mk(100*b+10*f);
  size_t i=sym_int("i",0,nb-1),f=sym_int("f",0,nf-1); double x=sym_real("x"); s(i,f)=Tag<T>::mk(x); const Store<T,A>& c=s;
  for(size_t b=0;b<nb;++b) for(size_t g=0;g<nf;++g){ bool hit=(b==i)&(g==f); if(hit){ Tag<T>::eq(s(b,g),x,"the value written"); Tag<T>::eq(c(b,g),x,"the value written (const)"); } else { Tag<T>::eq(s(b,g),100*b+10*g,"other elements unchanged"); Tag<T>::eq(c(b,g),100*b+10*g,"other elements unchanged"); } }
  for(size_t b=0;b<nb;++b) for(size_t g=0;g<nf;++g){ bool in=(&s(b,g)>=s.data())&(&s(b,g)<s.data()+s.size_raw()); sym_check(in&(&s(b,g)==&c(b,g)),"inside the storage"); }
  for(size_t b=0;b<nb;++b) for(size_t g=0;g<nf;++g){ size_t pos= A==Alignment::SoA ? g*nb+b : b*nf+g; sym_check(&s(b,g)==s.data()+pos,"documented layout"); } }
GOAL(double_soa){ oneWrite<double,SoA>(); } GOAL(double_aos){ oneWrite<double,AoS>(); } GOAL(complex_soa){ oneWrite<complex_t,SoA>(); } GOAL(complex_aos){ oneWrite<complex_t,AoS>(); } GOAL(realv_soa){ oneWrite<real_v,SoA>(); } GOAL(realv_aos){ oneWrite<real_v,AoS>(); } GOAL(complexv_soa){ oneWrite<complex_v,SoA>(); } GOAL(complexv_aos){ oneWrite<complex_v,AoS>(); }
template <class T> void single(const T& v,double x,const char* l){ sym_eq(std::real(v),x,l); }
template <class T,Alignment A,class R> void getElem(){ const size_t B=Tag<T>::n; size_t n=sym_choose("n",1,2*B+2), nf=sym_choose("nf",1,2); Store<T,A> s(n,nf); for(size_t b=0;b<s.nBlocks();++b) for(size_t f=0;f<nf;++f) s(b,f)=Tag<T>::mk(100*b+10*f); for(size_t e=0;e<n;++e) for(size_t f=0;f<nf;++f) single(s.template get<R>(e,f),100*(e/B)+10*f+e%B,"element of an event"); }
GOAL(get_double){ getElem<double,SoA,double>(); } GOAL(get_realv){ getElem<real_v,AoS,double>(); } GOAL(get_complexv){ getElem<complex_v,SoA,complex_t>(); } GOAL(get_complexv_aos){ getElem<complex_v,AoS,complex_t>(); }
// aligned size for every size
GOAL(aligned){ size_t n=sym_int("n",0,1l<<30); size_t a=utils::aligned_size<real_v>(n),b=utils::aligned_size<complex_v>(n),c=utils::aligned_size<double>(n); sym_check(a%4==0,"multiple of the block"); sym_check(a>=n,"not smaller"); sym_check(a<n+4,"not larger than needed"); sym_check(b==a,"complex"); sym_check(c==n,"scalar"); }
// named fields
struct Fn { string nm; unsigned sz; string name() const { return nm; } unsigned returnTypeSize() const { return sz; } };
template <class T,Alignment A> void named(){ Store<T,A> s; vector<Fn> f; unsigned k=sym_choose("k",1,sym_tier()?4:3); vector<string> seen; vector<unsigned> w; for(unsigned i=0;i<k;++i){ string a("a"); a+=char('0'+i); Fn x{sym_string(a.c_str(),1,"fgh"),unsigned(sizeof(T))*(unsigned)sym_choose((a+".w").c_str(),1,2)}; f.push_back(x); } size_t n=sym_choose("n",1,5); s.allocate(n,f);
  unsigned off=0; for(unsigned i=0;i<k;++i){ bool dup=false; for(unsigned j=0;j<seen.size();++j) dup=dup||seen[j]==f[i].nm; if(dup) continue; auto ix=s.find(f[i].nm); sym_check(ix.size()==f[i].sz/sizeof(T),"one field per value"); for(unsigned j=0;j<ix.size();++j) sym_check(ix[j]==off+j,"fields are consecutive and disjoint"); off+=f[i].sz/sizeof(T); seen.push_back(f[i].nm); } shape(s,n,off); }
GOAL(named_soa){ named<complex_v,SoA>(); } GOAL(named_aos){ named<complex_t,AoS>(); }
GOAL(store_items){ Store<complex_t,AoS> s(3,4); for(size_t b=0;b<3;++b) for(size_t f=0;f<4;++f) s(b,f)=Tag<complex_t>::mk(100*b+10*f); unsigned i0=sym_choose("i0",0,3),i1=sym_choose("i1",0,3); sym_assume(i0!=i1); size_t e=sym_choose("e",0,2); unsigned ix[2]={i0,i1}; complex_t v[2]={Tag<complex_t>::mk(7),Tag<complex_t>::mk(8)}; s.store(e,ix,v,2); for(size_t b=0;b<3;++b) for(size_t f=0;f<4;++f){ double x=100*b+10*f; if(b==e&&f==i0) x=7; if(b==e&&f==i1) x=8; Tag<complex_t>::eq(s(b,f),x,"store writes the listed fields of one event"); } }
template <Alignment A> void resized(){ size_t n=sym_choose("n",1,9),m=sym_choose("m",1,9),f=sym_choose("f",1,3),g=sym_choose("g",1,3); Store<real_v,A> s(n,f); s.resize(m,g); shape(s,m,g); s.resize(n); shape(s,n,g); for(size_t b=0;b<s.nBlocks();++b) for(size_t k=0;k<g;++k) s(b,k)=Tag<real_v>::mk(100*b+10*k); for(size_t b=0;b<s.nBlocks();++b) for(size_t k=0;k<g;++k) Tag<real_v>::eq(s(b,k),100*b+10*k,"every element of a resized store has its own place"); }
GOAL(resize_soa){ resized<SoA>(); } GOAL(resize_aos){ resized<AoS>(); }
// a cache of functions of an input table: after updating, every event's field is that function of that event's input
struct In { Store<real_v,AoS> s; size_t size() const { return s.size(); } size_t nFields() const { return s.nFields(); } const real_v* data() const { return s.data(); } };
struct One { typedef complex_v return_type; string nm; double k; string name() const { return nm; } unsigned returnTypeSize() const { return sizeof(complex_v); } vector<double> externBuffer() const { return {k}; }
  void batch(const size_t& N,const size_t& es,const size_t& cs,complex_v* rt,const double* x0,const real_v* x1) const { for(size_t i=0;i<N;++i) rt[cs*i]=complex_v(x1[i*es]*real_v(x0[0]),x1[i*es+1]); } };
struct Two { typedef void return_type; string nm; double k; string name() const { return nm; } unsigned returnTypeSize() const { return 2*sizeof(complex_v); } vector<double> externBuffer() const { return {k}; }
  void batch(const size_t& N,const size_t& es,const size_t& cs,void*,complex_v* r,const size_t* s,const double* x0,const real_v* x1) const { for(size_t i=0;i<N;++i){ r[cs*i+s[0]]=complex_v(x1[i*es]*real_v(x0[0]),x1[i*es+1]); r[cs*i+s[1]]=complex_v(x1[i*es+1],x1[i*es]*real_v(x0[0])); } } };
template <Alignment A> void cache(){ size_t n=sym_choose("n",1,9); In in; in.s=Store<real_v,AoS>(n,2); for(size_t b=0;b<in.s.nBlocks();++b) for(unsigned f=0;f<2;++f) in.s(b,f)=Tag<real_v>::mk(100*b+10*f); int first=sym_choose("first",0,1); 
  FunctionCache<In,complex_v,A> c; One f{"f",2},h{"h",3}; Two g{"g",5}; double k=sym_real("k"); f.k=k; if(first){ c.allocate(&in,f); c.allocate(&in,g); c.allocate(&in,h); } else { c.allocate(&in,g); c.allocate(&in,vector<One>{f,h}); }
  c.update(f); c.update(g); c.update(h); sym_check(c.nFields()==4&&c.size()==n,"fields of all functions"); for(size_t e=0;e<n;++e){ double a=100*(e/4)+e%4,b=a+10; auto chk=[&](const char* nm,unsigned j,double re,double im){ auto ix=c.find(string(nm)); auto v=c.template get<complex_t>(e,ix[j]); sym_eq(v.real(),re,nm); sym_eq(v.imag(),im,nm); }; chk("f",0,a*k,b); chk("g",0,a*5,b); chk("g",1,b,a*5); chk("h",0,a*3,b); } }
GOAL(cache_soa){ cache<SoA>(); } GOAL(cache_aos){ cache<AoS>(); }
GOAL(cache_constructors){ size_t n=sym_choose("n",1,6); In in; in.s=Store<real_v,AoS>(n,2); FunctionCache<In,complex_v,AoS> a(&in,size_t(3)); shape(a,n,3); sym_check(a.m_input==&in,"input"); FunctionCache<In,complex_v,SoA> b(&in,vector<Two>{Two{"g",1},Two{"h",2}}); shape(b,n,4); }
