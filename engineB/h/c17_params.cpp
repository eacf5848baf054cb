// C17: histories of MinuitParameterSet against a list of (name, parameter) pairs, and accessors of MinuitParameter.
#include "util.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
using namespace AmpGen; using std::string; using std::vector;
static string nm(const char* t,int k,const char* al="ab"){ string n(t); n+=char('0'+k); return sym_string(n.c_str(),1,al); }
struct Ref { vector<MinuitParameter*> p; vector<string> n; int find(const string& k){ for(size_t i=0;i<n.size();++i) if(n[i]==k) return i; return -1; } };
static void consistent(MinuitParameterSet& m,Ref& r){
  sym_check(m.size()==r.p.size(),"size is the number of parameters added and not removed");
  for(size_t i=0;i<r.p.size()&&i<m.size();++i){ sym_check(m.at(i)==r.p[i]&&m[i]==r.p[i],"position"); sym_check(r.p[i]->name()==r.n[i],"name"); sym_check(m.find(r.n[i])==r.p[i],"find by name"); sym_check(m.at(r.n[i])==r.p[i],"at(name)"); sym_check(m[r.n[i]]==r.p[i],"operator[](name)"); }
  sym_check(m.at(r.p.size())==nullptr,"at past the end");
  size_t c=0; for(auto q:m){ sym_check(c<r.p.size()&&q==r.p[c],"iteration order"); ++c; } sym_check(c==r.p.size()&&size_t(m.cend()-m.cbegin())==c,"iteration covers the set");
  const char* all="abcd"; for(int k=0;k<4;++k){ string s(1,all[k]); if(r.find(s)<0){ sym_check(m.find(s)==nullptr,"an absent name is not found"); sym_check(m.at(s)==nullptr,"at(absent name)"); const MinuitParameterSet& cm=m; sym_check(m[s]==nullptr&&cm[s]==nullptr,"operator[](absent name)"); sym_check(m.find(s)==nullptr,"looking a name up does not add it"); } } }
static void step(MinuitParameterSet& m,Ref& r,int k,int op){
  switch(op){
    case 0: { string s=nm("n",k); auto p=new MinuitParameter(s,Flag::Free,k,1); bool ok=m.add(p); sym_check(ok==(r.find(s)<0),"add reports whether the name was new"); if(r.find(s)<0){ r.p.push_back(p); r.n.push_back(s); } break; }
    case 1: { string s=nm("n",k); int i=r.find(s); auto p= sym_choose((string("how")+char('0'+k)).c_str(),0,1)? m.add(s,Flag::Fix,k,2) : m.addOrGet(s,Flag::Fix,k,2); if(i>=0) sym_check(p==r.p[i],"an existing name returns the existing parameter"); else { sym_check(p!=nullptr&&p->name()==s&&p->mean()==k,"new parameter as requested"); r.p.push_back(p); r.n.push_back(s); } break; }
    case 2: { if(r.p.empty()){ MinuitParameter q("z",Flag::Free,0,0); sym_check(!m.unregister(&q),"unregister of a stranger"); break; } int i=sym_choose((string("i")+char('0'+k)).c_str(),0,r.p.size()-1); sym_check(m.unregister(r.p[i]),"unregister"); r.p.erase(r.p.begin()+i); r.n.erase(r.n.begin()+i); break; }
    case 3: { string a=nm("f",k),b=nm("t",k,"abc"); int i=r.find(a),j=r.find(b); bool ok=m.rename(a,b); sym_check(ok==(i>=0&&j<0),"rename succeeds iff the old name exists and the new one is free"); if(i>=0&&j<0) r.n[i]=b; break; }
    case 4: { if(r.p.empty()) break; sym_check(!m.add(r.p[0]),"the same parameter cannot be added twice"); sym_check(!m.add(nullptr),"null"); break; }
  } }
static void history(int first,int len){ auto m=new MinuitParameterSet(); Ref r; string pre("op"); for(int k=0;k<len;++k){ int op= k==0? first : (int)sym_choose((pre+char('0'+k)).c_str(),0,4); step(*m,r,k,op); } consistent(*m,r); }
static void history2(int a,int b,int len){ auto m=new MinuitParameterSet(); Ref r; string pre("op"); for(int k=0;k<len;++k){ int op= k==0? a : k==1? b : (int)sym_choose((pre+char('0'+k)).c_str(),0,4); step(*m,r,k,op); } consistent(*m,r); }
#define H2(a) GOAL(history_##a##0){ history2(a,0,sym_tier()?4+(a==0):3+(a==0)); } GOAL(history_##a##1){ history2(a,1,sym_tier()?4+(a==0):3+(a==0)); } GOAL(history_##a##2){ history2(a,2,sym_tier()?4+(a==0):3+(a==0)); } GOAL(history_##a##3){ history2(a,3,sym_tier()?4+(a==0):3+(a==0)); } GOAL(history_##a##4){ history2(a,4,sym_tier()?4+(a==0):3+(a==0)); }
H2(0) H2(1)
GOAL(history_empty){ history(2,3); } GOAL(history_rename_empty){ history(3,3); }
// the set owns its parameters: constructing and destroying after any short history touches no freed memory
GOAL(lifetime){ Ref r; { MinuitParameterSet m; for(int k=0;k<3;++k) step(m,r,k,sym_choose((string("op")+char('0'+k)).c_str(),0,4)); } sym_check(true,"destruction"); }
GOAL(constructed){ string a=nm("a",0,"abc"),b=nm("b",0,"abc"),c=nm("c",0,"abc"); auto p=new MinuitParameter(a,Flag::Free,1,1),q=new MinuitParameter(b,Flag::Free,2,1),s=new MinuitParameter(c,Flag::Free,3,1); auto m=new MinuitParameterSet({p,q,s}); Ref r; r.p.push_back(p); r.n.push_back(a); if(r.find(b)<0){ r.p.push_back(q); r.n.push_back(b); } if(r.find(c)<0){ r.p.push_back(s); r.n.push_back(c); } consistent(*m,r); }
// single parameters
static Flag fl(const char* n){ return Flag(sym_choose(n,0,4)); }
GOAL(parameter){ double v=sym_real("v",-1e6,1e6),s=sym_real("s",-1e6,1e6),lo=sym_real("lo",-1e6,1e6),hi=sym_real("hi",-1e6,1e6); Flag f=fl("f"); int ctor=sym_choose("ctor",0,1); MinuitParameter* q= ctor? new MinuitParameter("p",v,s,lo,hi) : new MinuitParameter("p",f,v,s,lo,hi); MinuitParameter& p=*q; if(ctor) f=Flag::Free;
  sym_check(p.flag()==f&&p.isFixed()==(f==Flag::Fix||f==Flag::CompileTimeConstant)&&p.isFree()==(f==Flag::Free)&&p.isBlind()==(f==Flag::Blind),"flag"); sym_check(p.name()=="p"&&p.index()==-1,"name");
  sym_eq(p.mean(),v,"mean"); sym_eq(double(p),v,"conversion"); sym_eq(*p.vp(),v,"address"); sym_eq(p.meanInit(),v,"meanInit"); sym_eq(p.stepInit(),s,"step"); sym_eq(p.err(),s,"err"); sym_eq(p.minInit(),lo,"min"); sym_eq(p.maxInit(),hi,"max"); }
struct M { Flag f; double v,v0,s,lo,hi,e,ep,en; };
static void same(MinuitParameter& p,const M& r){ sym_check(p.flag()==r.f&&p.name()=="p","flag and name"); sym_eq(p.mean(),r.v,"mean"); sym_eq(p.meanInit(),r.v0,"initial value"); sym_eq(p.stepInit(),r.s,"step"); sym_eq(p.minInit(),r.lo,"min"); sym_eq(p.maxInit(),r.hi,"max"); sym_eq(p.err(),r.e,"error"); sym_eq(p.errPos(),r.ep,"positive error"); sym_eq(p.errNeg(),r.en,"negative error"); }
GOAL(parameter_history){ double x[4]; const char* nmx[4]={"x0","x1","x2","x3"}; for(int i=0;i<4;++i) x[i]=sym_real(nmx[i],-1e6,1e6); M r{fl("f"),x[0],x[0],x[1],x[2],x[3],x[1],-9999,-9999}; MinuitParameter p("p",r.f,x[0],x[1],x[2],x[3]); int n=sym_tier()?3:2;
  for(int k=0;k<n;++k){ string o("op"); o+=char('0'+k); string a("a"),b("b"); a+=char('0'+k); b+=char('0'+k); double u=sym_real(a.c_str(),-1e6,1e6),w=sym_real(b.c_str(),-1e6,1e6);
    switch(sym_choose(o.c_str(),0,9)){ case 0: p.fix(); r.f=Flag::Fix; break; case 1: p.setFree(); r.f=Flag::Free; break; case 2: p.setCurrentFitVal(u); r.v=u; break; case 3: p.setVal(u); r.v=u; break; case 4: p.setInit(u); r.v=r.v0=u; break; case 5: sym_assume(w!=-1); p.setInit(u,w); r.v=r.v0=u; r.s=w; break; case 6: p.scaleStep(u); r.s*=u; r.e*=u; break; case 7: p.setLimits(u,w); r.lo=u; r.hi=w; break; case 8: p.setResult(u,w,u+1,w+1); r.v=u; r.e=w; r.en=u+1; r.ep=w+1; break; case 9: p.resetToInit(); r.v=r.v0; r.e=r.s; r.ep=r.en=-9999; break; } }
  p.setStepInit(r.s); same(p,r); }
// operations of a set on its parameters change only what they say
GOAL(set_values){ auto m=new MinuitParameterSet(); auto o=new MinuitParameterSet(); double x[3],y[2]; const char* nx[3]={"x0","x1","x2"}; const char* ny[2]={"y0","y1"}; const char* names="abc"; for(int i=0;i<3;++i){ x[i]=sym_real(nx[i],-1e6,1e6); m->add(string(1,names[i]),Flag::Free,x[i],1,i,i+1); } string s0=nm("s",0,"abcd"),s1=nm("s",1,"abcd"); sym_assume(s0!=s1); for(int i=0;i<2;++i) y[i]=sym_real(ny[i],-1e6,1e6); o->add(s0,Flag::Fix,y[0],2); o->add(s1,Flag::Fix,y[1],2); m->set(*o);
  for(int i=0;i<3;++i){ double e=x[i]; if(s0[0]==names[i]) e=y[0]; if(s1[0]==names[i]) e=y[1]; auto p=m->at(size_t(i)); sym_eq(p->mean(),e,"set copies the values of common parameters"); sym_eq(p->meanInit(),x[i],"and nothing else"); sym_check(p->flag()==Flag::Free&&p->stepInit()==1&&p->minInit()==i&&p->maxInit()==i+1,"and nothing else"); } sym_check(m->size()==3&&o->size()==2,"sizes unchanged"); sym_eq((*o)(s0),y[0],"value by name"); m->resetToInit(); for(int i=0;i<3;++i) sym_eq(m->at(size_t(i))->mean(),x[i],"reset"); }
GOAL(mapping){ auto m=new MinuitParameterSet(); double x[4],y[2]={sym_real("y0",-9,9),sym_real("y1",-9,9)}; const char* nx[4]={"x0","x1","x2","x3"}; const char* names="abcd"; for(int i=0;i<4;++i){ x[i]=sym_real(nx[i],-9,9); m->add(string(1,names[i]),Flag::Free,x[i],1); } unsigned i=sym_choose("i",0,3),j=sym_choose("j",0,3); sym_assume(i!=j); m->setMapping({i,j}); m->setFromMinuit(y); for(unsigned k=0;k<4;++k){ double e=k==i?y[0]:k==j?y[1]:x[k]; sym_eq(m->at(size_t(k))->mean(),e,"mapped parameters take their own value"); sym_check(m->at(size_t(k))->index()==(k==i?0:k==j?1:-1),"mapped index"); double z[2]={5,6}; m->at(size_t(k))->setFromMinuitState(z); sym_eq(m->at(size_t(k))->mean(),k==i?5:k==j?6:x[k],"state"); sym_eq(m->getFromMinuitIndex(k),m->at(size_t(k))->mean(),"get by index"); m->setFromMinuitIndex(k,7); for(unsigned l=0;l<4;++l) if(l>k) sym_eq(m->at(size_t(l))->mean(),l==i?y[0]:l==j?y[1]:x[l],"only that one"); } }
