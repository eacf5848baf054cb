// C19: where parameters, spline tables and cached functions live in the external array, and what refreshing copies there.
#include "util.h"
#include "AmpGen/ASTResolver.h"
#include "AmpGen/CacheTransfer.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompiledExpressionBase.h"
#include "AmpGen/Expression.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Spline.h"
#include <gsl/gsl_linalg.h>
#include <memory>
using namespace AmpGen; using std::string; using std::vector;
#ifdef VERIF_IR
// GSL is linked as a binary; its matrix routines are modelled here (dense matrices, Gauss-Jordan inversion without pivoting)
extern "C" {
gsl_matrix* gsl_matrix_alloc(size_t a,size_t b){ auto m=(gsl_matrix*)malloc(sizeof(gsl_matrix)); m->size1=a; m->size2=b; m->tda=b; m->data=(double*)malloc(sizeof(double)*(a*b+1)); m->block=nullptr; m->owner=1; return m; }
void gsl_matrix_free(gsl_matrix* m){ free(m->data); free(m); }
void gsl_matrix_set_all(gsl_matrix* m,double v){ for(size_t i=0;i<m->size1*m->size2;++i) m->data[i]=v; }
void gsl_matrix_set(gsl_matrix* m,const size_t i,const size_t j,const double v){ sym_check(i<m->size1&&j<m->size2,"matrix index in range"); m->data[i*m->tda+j]=v; }
double gsl_matrix_get(const gsl_matrix* m,const size_t i,const size_t j){ sym_check(i<m->size1&&j<m->size2,"matrix index in range"); return m->data[i*m->tda+j]; }
gsl_permutation* gsl_permutation_alloc(size_t n){ auto p=(gsl_permutation*)malloc(sizeof(gsl_permutation)); p->size=n; p->data=nullptr; return p; }
void gsl_permutation_free(gsl_permutation* p){ free(p); }
int gsl_linalg_LU_decomp(gsl_matrix*,gsl_permutation*,int* s){ *s=1; return 0; }
int gsl_linalg_LU_invert(const gsl_matrix* M,const gsl_permutation*,gsl_matrix* R){ size_t n=M->size1; vector<double> a(M->data,M->data+n*n); for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) R->data[i*n+j]= i==j; for(size_t c=0;c<n;++c){ double d=a[c*n+c]; for(size_t j=0;j<n;++j){ a[c*n+j]/=d; R->data[c*n+j]/=d; } for(size_t r=0;r<n;++r) if(r!=c){ double f=a[r*n+c]; for(size_t j=0;j<n;++j){ a[r*n+j]-=f*a[c*n+j]; R->data[r*n+j]-=f*R->data[c*n+j]; } } } return 0; }
}
#endif
typedef CompiledExpression<double(const double*,const double*)> CE;
static string id(const char* p,int k){ string s(p); s+=char('0'+k); return s; }
// slot named in the generated code, e.g. "x0[3]"; -1 when it is anything else
static int slot(const string& t,char arr='0'){ if(t.size()<5||t[0]!='x'||t[1]!=arr||t[2]!='['||t[t.size()-1]!=']') return -1; int v=0; for(size_t i=3;i+1<t.size();++i){ if(t[i]<'0'||t[i]>'9') return -1; v=v*10+(t[i]-'0'); } return v; }

// --- the allocator itself: any sizes, any repetition of names
GOAL(allocate){ ASTResolver r; int n=sym_tier()?6:4; vector<string> names; vector<size_t> at,sz; size_t end=0;
  for(int k=0;k<n;++k){ string nmx=sym_string(id("n",k).c_str(),1,"abcd"); size_t s=sym_int(id("s",k).c_str(),0,64); size_t a=r.addCacheFunction<CacheTransfer>(nmx,double(k),s); int old=-1; for(size_t i=0;i<names.size();++i) if(names[i]==nmx) old=i;
    if(old>=0){ sym_check(a==at[old],"the same name keeps its slot"); continue; }
    sym_check(a==end,"a new name starts where the last one ended"); names.push_back(nmx); at.push_back(a); sz.push_back(s); end=a+s; sym_check(r.nParams()==end,"the array is as long as the slots given out"); }
  auto f=r.cacheFunctions(); sym_check(f.size()==names.size(),"one transfer per name"); for(size_t i=0;i<names.size();++i){ auto it=f.find(names[i]); sym_check(it!=f.end()&&it->second->address()==at[i]&&it->second->size()==sz[i]&&it->second->name()==names[i],"each transfer knows its own slot"); }
  r.clear(); sym_check(r.nParams()==0&&r.cacheFunctions().empty()&&r.parameters().empty(),"clear forgets every slot"); }
// slots of any order of allocation are disjoint
GOAL(disjoint){ ASTResolver r; int n=sym_tier()?7:5; vector<size_t> at,sz; for(int k=0;k<n;++k){ size_t s=sym_int(id("s",k).c_str(),0,1000); at.push_back(r.addCacheFunction<CacheTransfer>(id("n",(k*5)%7),0.,s)); sz.push_back(s); } size_t w=sym_int("w",0,10000); int owners=0; for(int k=0;k<n;++k) owners+= (w>=at[k])&(w<at[k]+sz[k]); sym_check(owners<=1,"no word of the array has two owners"); sym_check((owners==1)==(w<r.nParams()),"the array holds the slots and nothing else"); }
// event variables
GOAL(event_map){ int a=sym_choose("a",0,12),b=sym_choose("b",0,12); MinuitParameterSet m; m.add("E0",Flag::Free,1,0); ASTResolver r({{"E0",(unsigned)a},{"Px",(unsigned)b}},&m); Parameter e("E0"),p("Px"),q("Px"); e.resolve(r); p.resolve(r); q.resolve(r); e.resolve(r); sym_check(slot(r.resolvedParameter(&e),'1')==a&&slot(r.resolvedParameter(&p),'1')==b&&slot(r.resolvedParameter(&q),'1')==b,"an event variable is read from its place in the event"); sym_check(r.nParams()==0&&r.cacheFunctions().empty(),"event variables take no slot of the parameter array"); }
// --- whole expressions: any sequence of leaves
struct World { MinuitParameterSet m; double v[8]; double d[2]; double lam[2]; double kn[2][5]; int nk[2]; Expression x; vector<Expression> keep; World():x(Parameter("x")){} };
struct Leaf { const IExpression* p; int kind,which; };
static World* world(){ auto w=new World(); int order=sym_choose("order",0,1); for(int i=0;i<3;++i){ int j=order?2-i:i; w->v[j]=sym_real(id("v",j).c_str(),1,10); w->m.add(id("p",j),j==1?Flag::Fix:Flag::Free,w->v[j],1); } w->nk[0]=3; w->nk[1]=4; for(int s=0;s<2;++s) for(int k=0;k<w->nk[s];++k){ string n=id("S",s); const double fixedKnots[4]={0,-20,3,0}; w->kn[s][k]= s==1&&k<3? fixedKnots[k] : s==0&&k==1? sym_real((n+"k"+char('0'+k)).c_str(),-20,-11) : sym_real((n+"k"+char('0'+k)).c_str(),1,10); w->m.add(n+"::"+char('0'+k),Flag::Free,w->kn[s][k],1); } for(int i=0;i<2;++i){ w->d[i]=sym_real(id("d",i).c_str(),1,10); w->lam[i]=sym_real(id("lam",i).c_str(),1,10); } return w; }
static Leaf leaf(World* w,int c){ auto push=[&](Expression e,int kind,int which){ w->keep.push_back(e); return Leaf{e.get(),kind,which}; };
  switch(c){ case 0: return push(Parameter("p0"),0,0); case 1: return push(Parameter("p1"),0,1); case 2: return push(MinuitParameterLink(w->m.at("p2")),0,2); case 3: return push(MinuitParameterLink(w->m.at("p0")),0,0); case 4: return push(Parameter("u0",w->d[0]),1,0); case 5: return push(Parameter("u1",w->d[1]),1,1); case 6: { double* l=&w->lam[0]; return push(LambdaExpression([l](){ return *l; }),2,0); } case 7: { double* l=&w->lam[1]; return push(LambdaExpression([l](){ return *l; }),2,1); }
    case 8: { Expression e=Spline("S0",3,0,2)(w->x,nullptr); w->keep.push_back(e); return Leaf{e.get(),3,0}; } case 9: { Expression e=Spline("S1",4,0,3)(w->x,nullptr); w->keep.push_back(e); return Leaf{e.get(),3,1}; } default: return push(Parameter("x"),4,0); } }
static void contents(World* w,CE& ce,const vector<Leaf>& ls,const char* l){ auto ext=ce.externBuffer(); int len=ext.size(); vector<int> owner(len,-1); string lab(l);
  sym_check(ce.getNParams()==ce.m_resolver->nParams(),"the array is as long as its slots");
  vector<int> at0(64,-1);
  for(size_t i=0;i<ls.size();++i){ const Leaf& q=ls[i]; string t=ce.m_resolver->resolvedParameter(q.p); if(q.kind==4){ sym_check(slot(t,'1')==2,"event variable"); continue; } int a=slot(t), n= q.kind==3? 2*w->nk[q.which] : 1; sym_check(a>=0&&a+n<=len,"the slot lies in the array"); if(a<0||a+n>len) continue;
    int key= q.kind==2? 100+(int)i : q.kind*10+q.which; if(q.kind==2){ for(size_t j=0;j<i;++j) if(ls[j].p==q.p) key=100+j; } for(int b=a;b<a+n;++b){ sym_check(owner[b]==-1||owner[b]==key,"no two quantities share a slot"); owner[b]=key; }
    if(q.kind==0) sym_eq(ext[a],w->v[q.which],"a fit parameter's slot holds its current value"); else if(q.kind==1) sym_eq(ext[a],w->d[q.which],"an unknown parameter's slot holds its default"); else if(q.kind==2) sym_eq(ext[a],w->lam[q.which],"a function's slot holds its current value"); else for(int k=0;k<w->nk[q.which];++k) sym_eq(ext[a+k],w->kn[q.which][k],"a spline's slot holds its knots"); }
  for(int b=0;b<len;++b) sym_check(owner[b]>=0,"no slot is left over"); }
// values move to another range, so that no word keeps its old value by accident (that case is goal `changed`)
static void change(World* w,int which){ w->v[which]=sym_real("nv",11,20); w->m.at(id("p",which))->setCurrentFitVal(w->v[which]); w->lam[0]=sym_real("nl",11,20); w->kn[0][1]=sym_real("nk0",-40,-31); w->m.at(string("S0::1"))->setCurrentFitVal(w->kn[0][1]); w->kn[1][3]=sym_real("nk1",11,20); w->m.at(string("S1::3"))->setCurrentFitVal(w->kn[1][3]); }
static void whole(int first,int n,bool cse,int tail=11){ auto w=world(); vector<Leaf> ls; Expression e=0; for(int k=0;k<n;++k){ int c= k==0? first : (int)sym_choose(id("leaf",k).c_str(),0,10); if(k>=tail) c=10; ls.push_back(leaf(w,c)); Expression t=w->keep.back(); if(cse&&k==1) t=make_cse(t*t); e= k==0? t : e+t*(k+1); }
  CE* ce=new CE(e,"f",std::map<string,unsigned>{{"x",2}},&w->m,disableBatch()); contents(w,*ce,ls,"built"); change(w,sym_choose("which",0,2)); ce->prepare(); contents(w,*ce,ls,"refreshed"); }
#define WH(k) GOAL(whole_##k){ whole(k,sym_tier()?4:3,false); } GOAL(whole_cse_##k){ whole(k,sym_tier()?3:2,true); }
WH(0) WH(1) WH(2) WH(3) WH(4) WH(5) WH(6) WH(7) WH(8) WH(9) WH(10)
// a second resolution, or a second expression of the same parameters, moves nothing
GOAL(again){ auto w=world(); vector<Leaf> ls; Expression e=0; const int set[5]={8,0,6,4,9}; int rot=sym_choose("rot",0,4); for(int k=0;k<5;++k){ ls.push_back(leaf(w,set[(k+rot)%5])); e=e+w->keep.back(); } CE ce(e,"f",std::map<string,unsigned>{{"x",2}},&w->m,disableBatch()); auto before=ce.externBuffer(); vector<string> t; for(auto& l:ls) t.push_back(ce.m_resolver->resolvedParameter(l.p)); ce.resolve(&w->m); auto after=ce.externBuffer(); sym_check(before.size()==after.size(),"nothing is allocated twice"); for(size_t i=0;i<ls.size();++i) sym_check(ce.m_resolver->resolvedParameter(ls[i].p)==t[i],"slots do not move"); contents(w,ce,ls,"again"); }
GOAL(two_expressions){ auto w=world(); vector<Leaf> a,b; Expression e=0,f=0; const int A[3]={8,0,6},B[4]={4,9,0,8}; for(int k:A){ a.push_back(leaf(w,k)); e=e+w->keep.back(); } for(int k:B){ b.push_back(leaf(w,k)); f=f+w->keep.back(); } std::map<string,unsigned> ev{{"x",2}}; CE p(e,"p",ev,&w->m,disableBatch()),q(f,"q",ev,&w->m,disableBatch()); contents(w,p,a,"p"); contents(w,q,b,"q"); auto old=q.externBuffer(); change(w,sym_choose("which",0,2)); p.prepare(); contents(w,p,a,"p"); auto now=q.externBuffer(); for(size_t i=0;i<old.size();++i) sym_eq(now[i],old[i],"refreshing one expression leaves another alone"); q.prepare(); contents(w,q,b,"q"); }
// whether anything changed is known
GOAL(changed){ MinuitParameterSet m; double a=sym_real("a",-1e3,1e3),b=sym_real("b",-1e3,1e3); auto p=m.add("p0",Flag::Free,a,1); m.add("p1",Flag::Free,b,1); CE ce(Parameter("p0")*Parameter("p1"),"f",&m,disableBatch()); ce.resetExternals(); ce.prepare(); sym_check(!ce.hasExternalsChanged(),"refreshing without a change reports none"); double c=sym_real("c",-1e3,1e3); p->setCurrentFitVal(c); ce.prepare(); sym_check(ce.hasExternalsChanged()==(a!=c),"a change is reported"); auto e=ce.externBuffer(); int i0=ce.m_resolver->m_cacheFunctions["p0"]->address(); sym_eq(e[i0],c,"value"); sym_eq(e[1-i0],b,"the other value"); }
GOAL(set_external){ MinuitParameterSet m; Expression e=0; double v[4]; for(int k=0;k<4;++k){ v[k]=sym_real(id("v",k).c_str(),-1e3,1e3); m.add(id("p",k),Flag::Free,v[k],1); e=e+Parameter(id("p",k)); } CE ce(e,"f",&m,disableBatch()); auto before=ce.externBuffer(); int a=sym_choose("a",0,3); double c=sym_real("c",-1e3,1e3); ce.setExternal(c,a); auto now=ce.externBuffer(); for(int k=0;k<4;++k) sym_eq(now[k],k==a?c:before[k],"setting one word changes that word only"); ce.resizeExternalCache(sym_choose("n",0,6)); auto after=ce.externBuffer(); sym_check(after.size()>=4,"the array never shrinks"); for(int k=0;k<4;++k) sym_eq(after[k],now[k],"growing keeps the values"); }
// compile-time constants are written into the code, not the array
GOAL(compile_time){ OptionsParser::getMe()->m_parsedLines["ASTResolver::CompileTimeConstants"]={"ASTResolver::CompileTimeConstants","1"}; MinuitParameterSet m; m.add("p0",Flag::CompileTimeConstant,2.5,1); m.add("p1",Flag::Free,3.5,1); m.add("p2",Flag::Fix,4.5,1); ASTResolver r({},&m); Parameter a("p0"),b("p1"),c("p2"); int o=sym_choose("o",0,2); if(o==0){ a.resolve(r); b.resolve(r); c.resolve(r); } else if(o==1){ c.resolve(r); a.resolve(r); b.resolve(r); } else { b.resolve(r); c.resolve(r); a.resolve(r); } sym_check(r.nParams()==2&&r.cacheFunctions().size()==2&&r.cacheFunctions().count("p0")==0,"constants take no slot"); sym_check(r.resolvedParameter(&a)==Constant(2.5).to_string(),"the constant's value is written out"); sym_check(slot(r.resolvedParameter(&b))>=0&&slot(r.resolvedParameter(&c))>=0&&slot(r.resolvedParameter(&b))!=slot(r.resolvedParameter(&c)),"the others keep slots"); ASTResolver q({},nullptr); Parameter d("z",1.5); d.resolve(q); sym_check(q.nParams()==0&&q.resolvedParameter(&d)==Constant(1.5).to_string(),"without a parameter set defaults are constants"); }
// --- spline tables: knots followed by the second derivatives of the natural cubic spline through them
static void table(int N){ struct D: CompiledExpressionBase { vector<double> v; vector<int> set; D(size_t n):v(n,-7),set(n,0){} bool link(void*) override {return true;} bool link(const string&) override {return true;} void setExternal(const double& x,const unsigned& a) override { sym_check(a<v.size(),"in range"); v[a]=x; set[a]++; } void resizeExternalCache(const size_t&) override {} bool isReady() const override {return true;} string returnTypename() const override {return "";} string arg_type(const unsigned&) const override {return "";} unsigned returnTypeSize() const override {return 8;} void print() const override {} vector<string> types() const override {return {};} bool use_rto() const override {return false;} vector<real_t> externBuffer() const override {return v;} };
  int addr=sym_choose("addr",0,2)*3; double lo=-1,hi=lo+(N-1)*0.5; auto t=new SplineTransfer(addr,"S",N,lo,hi); sym_check(!t->isConfigured(),"not configured before the knots are set"); sym_check(t->size()==size_t(2*N)&&t->address()==size_t(addr),"size and place"); vector<double> y; for(int k=0;k<N;++k){ string n("y"); n+=char('a'+k); y.push_back(sym_real(n.c_str(),-100,100)); auto p=new MinuitParameter("k",Flag::Free,0,1); p->setCurrentFitVal(y[k]); if(k%2) t->set(k,p); else t->set(k,y[k]); } sym_check(t->isConfigured(),"configured"); D d(addr+2*N+2); t->transfer(&d);
  for(size_t i=0;i<d.v.size();++i) sym_check(d.set[i]==((int)i>=addr&&(int)i<addr+2*N),"every word of the table is written once, no other is"); double h=0.5; const double* Y=&d.v[addr]; const double* M=&d.v[addr+N]; for(int k=0;k<N;++k) sym_eq(Y[k],y[k],"knots"); sym_eq(M[0],0,"natural at the left end"); sym_eq(M[N-1],0,"natural at the right end");
  for(int k=1;k+1<N;++k){ double res=M[k-1]+4*M[k]+M[k+1]-6*(y[k+1]-2*y[k]+y[k-1])/(h*h); sym_check((res<1e-8)&(res>-1e-8),"second derivatives join smoothly"); } }
#define TB(n) GOAL(table_##n){ table(n); }
TB(3) TB(4) TB(5) TB(6) TB(8)
GOAL(table_11){ if(sym_tier()) table(11); else table(10); }
