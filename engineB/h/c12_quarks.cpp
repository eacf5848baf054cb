#include "util.h"
#include "AmpGen/QuarkContent.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
using namespace AmpGen; using std::string; using std::vector;
static const char* FL="duscbt";
static int net(const string& s,int f){ int n=0; for(char c:s){ n+= (c==FL[f]); n-= (c==FL[f]-32); } return n; }
static string str(const char* nm,unsigned lo,unsigned hi,const char* al){ string t(nm); t+=".n"; return sym_string(nm,sym_choose(t.c_str(),lo,hi),al); }
static void stateParse(const string& s){ QuarkState q(s); bool vac=true; for(int i=0;i<6;++i){ int n=net(s,i); sym_check(q[i]==n,"net number of each flavour"); vac=vac&(n==0); } sym_check(q.isVacuum()==vac,"vacuum iff no net flavour"); }
GOAL(state_parse){ stateParse(str("s",0,sym_tier()?3:2,"duscbtDUSCBTx1")); }
GOAL(state_parse_long){ stateParse(str("s",3,sym_tier()?5:4,"dDtx")); }
GOAL(state_parse_anychar){ auto s=str("s",0,2,nullptr); for(char c:s) sym_assume(c>0); QuarkState q(s); for(int i=0;i<6;++i) sym_check(q[i]==net(s,i),"every other character is ignored"); }
static void stateAlgebra(const string& a,const string& b){ QuarkState x(a),y(b); QuarkState p=x+y,m=x-y,n=x; n.antiThis(); QuarkState nn=n; nn.antiThis(); bool eq=true; for(int i=0;i<6;++i){ int u=net(a,i),v=net(b,i); sym_check(p[i]==u+v,"sum adds flavour numbers"); sym_check(m[i]==u-v,"difference subtracts flavour numbers"); sym_check(n[i]==-u,"conjugation negates"); sym_check(nn[i]==u,"conjugation is an involution"); sym_check(x[i]==u&&y[i]==v,"operands unchanged"); eq=eq&(u==v); } sym_check((x==y)==eq&&(x!=y)==!eq,"equality is equality of all flavour numbers"); QuarkState t=x; t+=y; sym_check(t==p,"+="); t=x; t-=y; sym_check(t==m,"-="); }
GOAL(state_algebra_flavours){ auto a=str("a",0,1,"duscbtDUSCBT"),b=str("b",0,sym_tier()?2:1,"duscbtDUSCBT"); stateAlgebra(a,b); }
GOAL(state_algebra_counts){ auto a=str("a",0,sym_tier()?3:2,"dDs"),b=str("b",0,sym_tier()?3:2,"dDs"); stateAlgebra(a,b); }
GOAL(state_names){ QuarkState q; int i=sym_int("i",-3,9); char c=q.nameFromPosition(i); if(i>=0&&i<6){ sym_check(c==FL[i],"flavour names in order"); sym_check(q.positionFromName(c)==i,"position of its name"); } else sym_check(c=='X',"unknown position"); auto s=sym_string("c",1,nullptr); sym_assume(s[0]>0); int pos=q.positionFromName(s[0]); int ref=-9999; for(int k=0;k<6;++k) ref = s[0]==FL[k]?k:ref; sym_check(pos==ref,"position of any character"); }
// superpositions: coefficients and brackets separate components, flavour-neutral components are dropped
static vector<vector<int>> refContent(const string& s0){ string s; for(size_t i=0;i<s0.size();){ if(s0.compare(i,4,"sqrt")==0) i+=4; else s+=s0[i++]; } vector<vector<int>> r; string cur; auto flush=[&]{ vector<int> v; bool vac=true; for(int f=0;f<6;++f){ v.push_back(net(cur,f)); vac=vac&&v[f]==0; } if(!vac) r.push_back(v); cur=""; }; for(char c:s){ if(c=='('||c==')'||c=='+'||c=='-') flush(); else cur+=c; } flush(); if(r.empty()) r.push_back(vector<int>(6,0)); return r; }
static bool sameAs(const QuarkState& q,const vector<int>& v){ bool e=true; for(int f=0;f<6;++f) e=e&(q[f]==v[f]); return e; }
GOAL(content_parse){ auto s=str("s",0,sym_tier()?5:4,"dSu+()"); QuarkContent q(s); auto r=refContent(s); sym_check(q.size()==r.size(),"number of components"); for(size_t i=0;i<r.size()&&i<q.size();++i) sym_check(sameAs(q[i],r[i]),"components"); }
GOAL(content_words){ auto a=str("a",0,2,"dSuC"),b=str("b",0,2,"dSuC"); QuarkContent q("sqrt(1/2)("+a+"-"+b+")"); auto r=refContent("("+a+"-"+b+")"); sym_check(q.size()==r.size(),"coefficients do not count"); for(size_t i=0;i<r.size()&&i<q.size();++i) sym_check(sameAs(q[i],r[i]),"components"); QuarkContent n(a+"non-qQ"+b); sym_check(n.size()==1&&n[0].isVacuum(),"exotic content carries no net flavour"); QuarkContent d; sym_check(d.size()==1&&d[0].isVacuum(),"default content"); }
static string sup(const char* nm){ string n(nm); string r=str((n+"0").c_str(),1,sym_tier()?2:1,"dSu"); if(sym_choose((n+".two").c_str(),0,1)) r+="+"+str((n+"1").c_str(),1,1,"dSD"); return r; }
GOAL(content_algebra){ auto a=sup("a"),b=sup("b"); QuarkContent x(a),y(b); auto rx=refContent(a),ry=refContent(b); bool compat=false; for(auto& u:rx) for(auto& v:ry) compat=compat|(u==v); sym_check((x==y)==compat&&(x!=y)==!compat,"compatible iff some pair of components carries the same flavour"); auto p=x+y,m=x-y; sym_check(p.size()==rx.size()*ry.size()&&m.size()==p.size(),"all combinations"); for(auto& u:rx) for(auto& v:ry){ vector<int> su,di; for(int f=0;f<6;++f){ su.push_back(u[f]+v[f]); di.push_back(u[f]-v[f]); } bool fs=false,fd=false; for(size_t k=0;k<p.size();++k){ fs=fs||sameAs(p[k],su); fd=fd||sameAs(m[k],di); } sym_check(fs,"sum contains every combination"); sym_check(fd,"difference contains every combination"); }
  QuarkContent n=x; n.antiThis(); sym_check(n.size()==x.size(),"conjugate size"); for(size_t k=0;k<n.size()&&k<rx.size();++k) for(int f=0;f<6;++f) sym_check(n[k][f]==-rx[k][f],"conjugate"); }
// strong decays: parity restricts the orbital momenta exactly when the quark contents are compatible
#include <memory>
static ParticleProperties* pp[5]; static Particle* mother; static std::shared_ptr<Particle> kid[4];
extern "C" void setup(){ setenv("AMPGENROOT","/nonexistent",1); auto L=new ParticlePropertiesList(); ParticlePropertiesList::ptr=L; for(auto& p:pp) p=new ParticleProperties(); mother=new Particle(); mother->m_props=pp[0]; for(int i=0;i<4;++i){ kid[i]=std::make_shared<Particle>(); kid[i]->m_props=pp[i+1]; } mother->m_daughters={kid[0],kid[1]}; }
static int minL(int J,int a,int b,int P,bool strong){ for(int L=0;L<12;++L) for(int S=std::abs(a-b);S<=a+b;++S) if(std::abs(L-S)<=J&&J<=L+S&&(!strong||P==((L&1)?-1:1))) return L; return 999; }
static vector<vector<int>> sumOf(const vector<vector<int>>& a,const vector<vector<int>>& b){ vector<vector<int>> r; for(auto& u:a) for(auto& v:b){ r.push_back(u); for(int f=0;f<6;++f) r.back()[f]+=v[f]; } return r; }
static bool compatible(const vector<vector<int>>& a,const vector<vector<int>>& b){ for(auto& u:a) for(auto& v:b) if(u==v) return true; return false; }
static void content(Particle& p,ParticleProperties* q,const string& s){ q->m_quarkContent=QuarkContent(s); p.m_props=q; p.m_name="x"; }
static void check(bool strong,int J,int a,int b,int P){ pp[0]->m_twoSpin=2*J; pp[1]->m_twoSpin=2*a; pp[2]->m_twoSpin=2*b; pp[0]->m_parity=P; pp[1]->m_parity=pp[2]->m_parity=1; kid[0]->m_parity=kid[1]->m_parity=1; mother->m_orbital=0; mother->pdgLookup(true); int w=minL(J,a,b,P,strong); sym_check((int)mother->m_minL==w,"parity restricts the orbital momentum exactly for strong decays"); sym_check((int)mother->L()==w,"the lowest allowed orbital momentum is the default"); }
static void spins(bool strong){ static const int Q[][3]={{0,0,0},{1,0,0},{2,0,0},{1,1,0},{0,1,0},{0,1,1},{1,1,1},{2,1,0},{0,2,2},{2,1,1}}; int k=sym_choose("spins",0,sym_tier()?9:5); check(strong,Q[k][0],Q[k][1],Q[k][2],sym_choose("P",0,1)?1:-1); }
GOAL(strong_decay){ auto h=sup("h"),a=str("a",0,1,"dSu"),b=sup("b"); content(*mother,pp[0],h); content(*kid[0],pp[1],a); content(*kid[1],pp[2],b); spins(compatible(refContent(h),sumOf(refContent(a),refContent(b)))); }
GOAL(strong_decay_nonresonant){ auto h=str("h",0,1,"dSu"),a=str("a",0,1,"dSu"),b=str("b",0,1,"dDs"); content(*mother,pp[0],h); content(*kid[0],pp[1],a); content(*kid[1],pp[2],b); mother->m_name=sym_choose("nr",0,1)?"NonResP0":"NonResA"; spins(true); }
GOAL(strong_decay_bosons){ auto h=str("h",0,1,"dSu"),a=str("a",0,1,"dSu"); content(*mother,pp[0],h); content(*kid[0],pp[1],a); content(*kid[1],pp[2],""); int id=sym_int("id",-30,30); pp[0]->m_pdgID=id; bool W=(id==23)|(id==-23)|(id==24)|(id==-24); spins(compatible(refContent(h),refContent(a))&&!W); }
GOAL(strong_decay_cascade){ auto h=str("h",0,1,"dSu"),a=str("a",0,1,"dSu"),b=str("b",0,1,"dDs"),c=str("c",0,1,"SsD"),own=str("own",0,1,"sD"); content(*mother,pp[0],h); content(*kid[0],pp[1],own); content(*kid[1],pp[2],a); content(*kid[2],pp[3],b); content(*kid[3],pp[4],c); kid[0]->m_daughters={kid[2],kid[3]}; bool nr=sym_choose("nr",0,1); kid[0]->m_name=nr?"NonResS0":"x"; auto inner=nr?sumOf(refContent(b),refContent(c)):refContent(own); spins(compatible(refContent(h),sumOf(inner,refContent(a)))); }
