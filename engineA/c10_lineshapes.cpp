// C10: lineshapes evaluate their documented formula; unitarity; common limits.
#include "harness.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/CoupledChannel.h"
#include "AmpGen/kMatrix.h"
#include "AmpGen/Particle.h"
#include "AmpGen/Spline.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "lineshape_oracle.h"
using namespace AmpGen; using namespace va; using namespace lo;
typedef std::map<std::string,double> V; typedef std::set<std::string> S; typedef std::vector<Expression> EV;
static const Expression I=Constant(0,1);
static void option(const std::string& n,std::vector<std::string> v){ v.insert(v.begin(),n); OptionsParser::getMe()->m_parsedLines[n]=v; }
static Expression shape(const std::string& n,const std::string& p,unsigned L){ return Lineshape::Factory::get(n,sym("s"),m2(1),m2(2),p,L); }
static Expression im(const Expression& e){ return Imag(e); }
static Expression re(const Expression& e){ return Real(e); }
static double mass(const char* n){ return ParticlePropertiesList::get(n)->mass(); }
static Expression ff(unsigned L,const std::string& mod,const Expression& z,const Expression& w){ return mod=="NFF"?Expression(1.):fcn::sqrt(mod=="BL"?Expression(at1(L))*power(z,L)/poly(L,z):mod=="BELLE2018"?poly(L,w)/poly(L,z):Expression(at0(L))/poly(L,z)); }
static Expression kf(const Expression& M,const Expression& G){ Expression g=M*fcn::sqrt(M*M+G*G); return fcn::sqrt((2*std::sqrt(2.)/M_PI)*M*G*g/fcn::sqrt(M*M+g)); }
static Expression rw(unsigned L,const Expression& s,const Expression& M,const Expression& G,const Expression& R){ Expression k=mom2(s),k0=mom2(M*M); return G*M*power(k/k0,L)*fcn::sqrt(k/k0/s)*poly(L,k0*R*R)/poly(L,k*R*R); }
static std::function<void(std::map<std::string,double>&)> fixd(std::map<std::string,std::pair<int,int>> m){ return [=](std::map<std::string,double>& v){ for(auto& x:m) v[x.first]=double(x.second.first)/x.second.second; }; }
static void fixs(Field& F,const std::map<std::string,std::pair<int,int>>& m){ for(auto& x:m){ F.subst[x.first]=F.fromRat(x.second.first,x.second.second); F.sample[x.first]=double(x.second.first)/x.second.second; } }
typedef std::map<std::string,std::pair<int,int>> Fix;
static Expression csq(const Expression& x,bool open){ return open?fcn::sqrt(x):I*fcn::sqrt(-x); }
static const std::vector<std::string> MOM{"0_Px","0_Py","0_Pz","1_Px","1_Py","1_Pz","1_E"};
// a spline node becomes a quadratic in its argument, with coefficients that carry the name of the spline
static std::vector<const Spline*> asQuadratics(Expression& root){ std::vector<const Spline*> found; static std::vector<Expression> keep; std::set<const IExpression*> seen; std::vector<Expression*> st{&root};
  while(!st.empty()){ Expression* e=st.back(); st.pop_back(); IExpression* p=e->get(); if(auto x=dynamic_cast<Spline*>(p)){ keep.push_back(*e); found.push_back(x); Expression a=x->m_x,n=sym(x->m_name+"_0")+sym(x->m_name+"_1")*a+sym(x->m_name+"_2")*a*a; *e=n; continue; } if(!seen.insert(p).second) continue;
    if(auto x=dynamic_cast<SubTree*>(p)) st.push_back(&x->m_expression); else if(auto x=dynamic_cast<Ternary*>(p)){ st.push_back(&x->m_cond); st.push_back(&x->m_v1); st.push_back(&x->m_v2); } else if(auto x=dynamic_cast<IBinaryExpression*>(p)){ st.push_back(&x->lval); st.push_back(&x->rval); } else if(auto x=dynamic_cast<IUnaryExpression*>(p)) st.push_back(&x->m_expression); } return found; }
int main(int argc,char** argv){
  Harness H(argc,argv,"C10"); const bool quick=H.quick; exactMasses(); (void)quick;
  const std::string r="rho(770)0", M_=r+"_mass",G_=r+"_width",R_=r+"_radius";
  auto reg=[=](const std::string& p,double s,double M,V more={}){ V v{{"s",s},{p+"_mass",M},{p+"_width",0.15},{p+"_radius",1.5},{"m1",0.14},{"m2",0.3}}; for(auto& x:more) v[x.first]=x.second; S q; for(auto& x:v) if(x.second>0) q.insert(x.first); return Region(v,q,p+"_mass"); };
  // Breit-Wigner family
  Region up=reg(r,1.1,0.9), low=reg(r,0.15,0.9);
  // general masses for the S wave; beyond, equal masses with the break-up momenta squared q (at s) and p (at the pole) as the variables: s = M^2+4(q-p), m^2 = M^2/4-p
  auto em=[=](unsigned L){ return L==0?std::make_pair(m2(1),m2(2)):std::make_pair(sym("a"),sym("a")); };
  auto eq=[=](bool above){ return [=](Field& F){ up.set()(F); double q=above?0.25:-0.05,p=0.18,M=0.9; F.sample["a"]=M*M/4-p; F.sample["s"]=M*M+4*(q-p); F.sample["q"]=q; F.sample["p"]=p; auto v=[&](const std::string& n){ return F.fromTerm(F.var(n)); }; Num m=v(M_); m=F.mul(m,m); F.subst["s"]=F.add(m,F.mul(F.fromRat(4),F.add(v("q"),v("p"),-1))); F.subst["a"]=F.add(F.mul(F.fromRat(1,4),m),v("p"),-1); F.positiveVars.insert({"q","p"}); }; };
  auto eqd=[=](std::map<std::string,double>& v){ double m=v[M_]; v["s"]=m*m+4*(v["q"]-v["p"]); v["a"]=m*m/4-v["p"]; };
  auto eqp=[=](bool above){ return [=]{ return EV{sym("s"),sym("a"),sym(M_),sym(G_),sym(R_),above?sym("q"):-sym("q"),sym("p")}; }; };
  auto K=[=](unsigned L){ return L==0?mom2(sym("s")):sym("q"); }; auto K0=[=](unsigned L){ return L==0?mom2(sym(M_)*sym(M_)):sym("p"); };
  auto w_=[=](unsigned L){ Expression s=sym("s"),M=sym(M_),G=sym(G_),R=sym(R_),k=K(L),k0=K0(L); return G*M*power(k/k0,L)*fcn::sqrt(k/k0/s)*poly(L,k0*R*R)/poly(L,k*R*R); };
  auto sh=[=](const std::string& n,unsigned L){ auto m=em(L); return Lineshape::Factory::get(n,sym("s"),m.first,m.second,r,L); };
  auto put=[&](const std::string& id,unsigned L,bool above,std::function<PV()> f){ if(L==0) H.add(id,f,(above?up:low).pos(),(above?up:low).set()); else H.add(id,f,eqp(above),eq(above),eqd); };
  for(unsigned L=0;L<=4;++L) for(std::string mod:{"","BL","BELLE2018","NFF"}){ std::string id="BW_L"+std::to_string(L)+"_"+mod;
    auto f=[=]{ return sh(mod==""?"BW":"BW."+mod,L); };
    put(id,L,true,PAIRS( Expression s=sym("s"),M=sym(M_),G=sym(G_),R=sym(R_); Expression n=mod=="BELLE2018"?Expression(1.):kf(M,G); out.push_back({f(),n*ff(L,mod,K(L)*R*R,K0(L)*R*R)/(M*M-s-I*M*w_(L)),"value"}); ));
    if(mod=="BL"||mod=="") put(id+"_closed",L,false,PAIRS( Expression s=sym("s"),M=sym(M_),G=sym(G_),R=sym(R_); out.push_back({f(),kf(M,G)*ff(L,mod,-K(L)*R*R,Expression(1.))/(M*M-s),"value"}); )); }
  for(unsigned L=1;L<=2;++L) put("BW_unitarity_L"+std::to_string(L),L,true,PAIRS( Expression M=sym(M_),G=sym(G_); Expression T=M*w_(L)*sh("BW.NFF",L)/kf(M,G); out.push_back({im(T),fcn::norm(T),"L"+std::to_string(L)}); ));
  H.add("SBW",PAIRS( Expression s=sym("s"),M=sym(M_),G=sym(G_); out.push_back({shape("SBW",r,1),kf(M,G)/(M*M-s-I*M*G),"value"}); ),up.pos(),up.set());
  H.add("NonRelBW",PAIRS( Expression s=sym("s"),M=sym(M_),G=sym(G_); Expression A=shape("NonRelBW",r,0); Expression e=fcn::sqrt(s); out.push_back({A,fcn::sqrt(G/(2*M_PI))/(e-M-I*G/2.),"value"}); ),up.pos(),up.set());
  H.add("Photon_None",PAIRS( Expression s=sym("s"),M=sym(M_); out.push_back({shape("Photon",r,0),1/(s-M*M),"photon"}); out.push_back({shape("None",r,0),Expression(1.),"none"}); ),up.pos(),up.set());
  for(unsigned L=0;L<=4;++L){ std::string l=std::to_string(L);
    for(std::string mod:{"","BL","BELLE2018","NFF","L0","L1","L2","L3"}){ unsigned l2=mod.size()==2&&mod[0]=='L'?unsigned(mod[1]-'0'):L; Region r({{"s",1.1},{"rho(770)0_mass",0.9},{"m1",0.14},{"m2",0.3},{"rho(770)0_radius",1.5}},{"m1","m2","rho(770)0_radius","rho(770)0_mass"},"rho(770)0_mass");
      H.add("form_factor_L"+l+"_"+mod,PAIRS( Expression s=sym("s"),R=sym("rho(770)0_radius"),M=sym("rho(770)0_mass"); Expression z=mom2(s)*R*R,w=mom2(M*M)*R*R; Expression f=Lineshape::Factory::get(mod==""?"FormFactor":"FormFactor."+mod,s,m2(1),m2(2),"rho(770)0",L); Expression ref=mod=="BL"?Expression(at1(l2))*power(z,l2)/poly(l2,z):mod=="NFF"?Expression(1.):mod=="BELLE2018"?poly(l2,w)/poly(l2,z):Expression(at0(l2))/poly(l2,z); out.push_back({f*f,ref,"squared"}); out.push_back({f,fcn::sqrt(ref),"value"}); ),r.pos(),r.set()); }
  }
  H.add("exponential_form_factor",PAIRS( Expression R=sym(R_); out.push_back({shape("ExpFF",r,1),fcn::exp(-mom2(sym("s"))*R*R/2.),"value"}); ),up.pos(),up.set());
  H.add("gaussian",PAIRS( Expression s=sym("s"),m=sym("g_mean"),w=sym("g_sigma"); out.push_back({shape("Gaussian.g",r,0),fcn::exp(-(s-m)*(s-m)/(2*w*w)),"value"}); ));
  for(int d=0;d<=4;++d){ H.add("polynomial_"+std::to_string(d),[=]{ PV out; option("q::Degree",{std::to_string(d)}); Expression ref=0; for(int i=0;i<=d;++i) ref=ref+sym("q_c"+std::to_string(i))*power(sym("s"),i); out.push_back({shape("Poly.q",r,0),ref,"value"}); return out; }); }
  H.add("pol",PAIRS( std::vector<Expression> c; Expression x=sym("x"),ref=0; for(int i=0;i<7;++i){ c.push_back(sym("c"+std::to_string(i))); ref=ref+c.back()*power(x,i); } out.push_back({pol(x,c),ref,"pol"}); ));
  // Gounaris-Sakurai in terms of the loop function h(s)
  for(std::string mod:{"","IncludeRadiusInWidth","BL"}) for(unsigned L:{1u,0u}) H.add("GounarisSakurai_"+mod+std::to_string(L),PAIRS( Expression s=sym("s"),M=sym(M_),G=sym(G_),R=sym(R_); double mp=mass("pi+"); Expression s0=M*M;
     auto k=[=](const Expression& x){ return fcn::sqrt(x-4*mp*mp)/2.; }; auto lg=[=](const Expression& x,const Expression& rt){ return fcn::log((rt+2*k(x))/(2*mp)); }; auto h=[=](const Expression& x,const Expression& rt){ return (2/M_PI)*k(x)/rt*lg(x,rt); };
     Expression rs=fcn::sqrt(s); Expression h0=h(s0,M); Expression dh=h0*(1/(8*k(s0)*k(s0))-1/(2*s0))+1/(2*M_PI*s0); Expression fs=G*s0/power(k(s0),3)*(k(s)*k(s)*(h(s,rs)-h0)+(s0-s)*k(s0)*k(s0)*dh);
     Expression w=rw(L,s,M,G,mod=="IncludeRadiusInWidth"?R:Expression(0.)); Expression num=kf(M,G)*ff(L,mod=="BL"?"BL":"",mom2(s)*R*R,1.); out.push_back({num/shape(mod==""?"GounarisSakurai":"GounarisSakurai."+mod,r,L),s0-s+fs-I*M*w,"inverse"}); ),up.pos(),[=](Field& F){ up.set()(F); F.positiveVars.insert(M_); if(L==1) fixs(F,Fix{{"m1",{1,8}},{"m2",{1,8}}}); },L==1?fixd(Fix{{"m1",{1,8}},{"m2",{1,8}}}):nullptr);
  // K pi S-wave
  { const std::string k="K(0)*(1430)0"; auto q=[=](const Expression& s){ return fcn::sqrt(mom2(s)); }; Fix lm{{"m1",{1,8}},{"m2",{1,2}},{k+"_mass",{11,8}}}; auto lset=[=](Region q){ return [=](Field& F){ q.set()(F); fixs(F,lm); }; }; Region R1=reg(k,1.1,1.3,{{"LASS::a",2.},{"LASS::r",3.}}); Region R0=reg(k,0.15,1.3,{{"LASS::a",2.},{"LASS::r",3.}});
    auto parts=[=](int which){ Expression s=sym("s"),M=sym(k+"_mass"),G=sym(k+"_width"),a=sym("LASS::a"),rr=sym("LASS::r"); Expression qq=q(s); Expression cot=1/(a*qq)+rr*qq/2.; Expression w=G*(qq/q(M*M))*M/fcn::sqrt(s); Expression nr=fcn::sqrt(s)/(qq*cot-I*qq); Expression ph=(cot+I)/(cot-I); Expression bw=ph*M*G*(M/q(M*M))/(M*M-s-I*M*w); return which==0?nr+bw:which==1?bw:nr; };
    H.add("LASS",PAIRS( out.push_back({shape("LASS",k,0),parts(0),"total"}); out.push_back({shape("LASS.BW",k,0),parts(1),"resonant"}); out.push_back({shape("LASS.NR",k,0),parts(2),"non-resonant"}); ),R1.pos(),lset(R1),fixd(lm));
    H.add("LASS_split",PAIRS( out.push_back({shape("LASS",k,0),shape("LASS.BW",k,0)+shape("LASS.NR",k,0),"sum"}); ),R1.pos(),lset(R1),fixd(lm));
    H.add("LASS_unitarity",PAIRS( Expression T=shape("LASS",k,0)*q(sym("s"))/fcn::sqrt(sym("s")); out.push_back({im(T),fcn::norm(T),"elastic"}); Expression N=shape("LASS.NR",k,0)*q(sym("s"))/fcn::sqrt(sym("s")); out.push_back({im(N),fcn::norm(N),"non-resonant"}); ),R1.pos(),lset(R1),fixd(lm));
    H.add("LASS_closed",PAIRS( Expression s=sym("s"),M=sym(k+"_mass"),G=sym(k+"_width"),a=sym("LASS::a"); out.push_back({shape("LASS",k,0),a*fcn::sqrt(s)+M*M*G/(q(M*M)*(M*M-s)),"q=0"}); ),R0.pos(),R0.set());
    std::string g=k+"::GLASS::"; Fix gx{{g+"r",{3,2}},{k+"_width",{2,7}}}; V gp{{g+"a",2.},{g+"r",3.},{g+"R",-1.1},{g+"F",-0.9},{g+"phiR",-0.2},{g+"phiF",-0.3}}; Region RG=reg(k,1.1,1.3,gp); auto gl=[=](bool documented){ Expression s=sym("s"),M=sym(k+"_mass"),G=sym(k+"_width"),a=sym(g+"a"),rr=sym(g+"r"); Expression fR=sym(g+"phiR")*(M_PI/180),fF=sym(g+"phiF")*(M_PI/180); Expression qq=q(s); Expression C=1/(a*qq)+rr*qq/2.; Expression w=G*(qq/q(M*M))*M/fcn::sqrt(s);
        Expression dF=(fcn::cos(fF)+C*fcn::sin(fF))/(C-I)*fcn::exp(I*fF); Expression bw=M*w/(M*M-s-I*M*w); if(documented) bw=(fcn::cos(fR)*M*w+fcn::sin(fR)*(M*M-s))/(M*M-s-I*M*w); return (sym(g+"R")*fcn::exp(I*(fR+2*fF))*bw*(C+I)/(C-I)+sym(g+"F")*dF)*fcn::sqrt(s)/qq; };
    for(int part=0;part<3;++part) H.add(part==1?"GLASS_resonant":part?"GLASS_resonant_F":"GLASS_background",PAIRS( out.push_back({shape("GLASS",k,0),gl(false),"value"}); ),RG.pos(),[=](Field& F){ lset(RG)(F); fixs(F,gx); F.subst[g+(part?"F":"R")]=Num(); if(part){ F.subst[g+(part==1?"phiF":"phiR")]=Num(); F.subst[g+"a"]=F.fromRat(2); F.subst[g+"R"]=F.fromRat(5,3); } },[=](std::map<std::string,double>& v){ fixd(lm)(v); fixd(gx)(v); v[g+(part?"F":"R")]=0; if(part){ v[g+(part==1?"phiF":"phiR")]=0; v[g+"a"]=2; v[g+"R"]=5./3; } });
    H.add("GLASS_is_LASS",PAIRS( out.push_back({shape("GLASS",k,0),shape("LASS",k,0),"common limit"}); ),R1.pos(),[=](Field& F){ lset(R1)(F); Num z=F.fromRat(0); for(auto& n:{"phiR","phiF"}) F.subst[g+n]=z; for(auto& n:{"R","F"}) F.subst[g+n]=F.fromRat(1); F.subst[g+"a"]=F.fromTerm(F.var("LASS::a")); F.subst[g+"r"]=F.fromTerm(F.var("LASS::r")); },[=](std::map<std::string,double>& v){ fixd(lm)(v); v[g+"phiR"]=v[g+"phiF"]=0; v[g+"R"]=v[g+"F"]=1; v[g+"a"]=v["LASS::a"]; v[g+"r"]=v["LASS::r"]; });
  }
  // coupled channels
  { for(int which=0;which<3;++which) for(bool cut:{false,true}){ double sv=which==0?1.5:which==1?0.6:0.05; const std::string k="f(0)(980)0"; Region Rf(V{{"s",sv},{k+"_mass",0.95},{"Flatte::gPi",0.2},{"Flatte::gK_by_gPi",4.}},S{k+"_mass"});
      H.add("Flatte_f0_"+std::to_string(which)+(cut?"_CutKK":""),PAIRS( Expression s=sym("s"),M=sym(k+"_mass"); auto ph=[=](double m,bool open){ return csq(1.-4*m*m/s,open); }; bool oP=which<2, oK=which<1; Expression pp=ph(mass("pi0"),oP)*(1./3.)+ph(mass("pi+"),oP)*(2./3.); Expression kk=cut&&!oK?Expression(0.):ph(mass("K0"),oK)*0.5+ph(mass("K+"),oK)*0.5; out.push_back({1/shape(cut?"Flatte.CutKK":"Flatte",k,0),M*M-s-I*M*sym("Flatte::gPi")*(pp+sym("Flatte::gK_by_gPi")*kk),"inverse"}); ),Rf.pos(),Rf.set()); }
    for(bool oK:{true,false}){ const std::string k="a(0)(980)0"; Region Ra(V{{"s",oK?1.5:0.7},{k+"_mass",0.95},{"Flatte::g2pieta",0.2},{"Flatte::g2KK_by_g2pieta",1.}},S{k+"_mass"}); H.add(std::string("Flatte_a0_")+(oK?"open":"closed"),PAIRS( Expression s=sym("s"),M=sym(k+"_mass"); double a=mass("pi+"),b=mass("eta0"); Expression A=1./shape("Flatte",k,0); Expression pe=fcn::sqrt((1-(a-b)*(a-b)/s)*(1-(a+b)*(a+b)/s)); out.push_back({A,M*M-s-I*M*sym("Flatte::g2pieta")*(pe+sym("Flatte::g2KK_by_g2pieta")*csq(1.-4*mass("K+")*mass("K+")/s,oK)),"inverse"}); ),Ra.pos(),Ra.set()); }
    // generic coupled channel
    const std::string k="f(0)(1370)0"; std::vector<std::string> two{k+"{pi+,pi-}","g_pi",k+"{K+,K-}","g_K"};
    auto ph=[=](const Expression& s,double m,bool open){ return open?fcn::sqrt(s*s-4*s*m*m)/s:I*fcn::sqrt(4*s*m*m-s*s)/s; };
    for(bool norm:{false,true}) for(bool oK:{true,false}){ Region Rc=reg(k,oK?1.7:0.6,1.3,{{"g_pi",0.1},{"g_K",0.2}}); H.add(std::string("CoupledChannel_")+(norm?"norm_":"")+(oK?"open":"closed"),[=]{ PV out; option(k+"_channels",two); Expression s=sym("s"),M=sym(k+"_mass"),G=sym(k+"_width"); Expression w=(sym("g_pi")*ph(s,mass("pi+"),true)+sym("g_K")*ph(s,mass("K+"),oK))/(16*M_PI); Expression w0=(sym("g_pi")*ph(M*M,mass("pi+"),true)+sym("g_K")*ph(M*M,mass("K+"),true))/(16*M_PI); out.push_back({kf(M,G)/shape(norm?"CoupledChannel.norm":"CoupledChannel",k,0),M*M-s-I*M*w*(norm?G/w0:Expression(1.)),"inverse"}); return out; },Rc.pos(),Rc.set()); }
    // one channel only: the relativistic Breit-Wigner
    for(unsigned L=0;L<=2;++L){ std::string p=L==0?k:L==1?"rho(770)0":"f(2)(1270)0"; V v{{"s",1.7},{p+"_mass",1.3},{p+"_width",0.15},{p+"_radius",1.5},{"g1",0.3}}; H.add("one_channel_is_BW_L"+std::to_string(L),[=]{ PV out; option(p+"_channels",{p+"{pi+,pi-}","g1"}); double m=mass("pi+"); Expression s=sym("s"); out.push_back({Lineshape::Factory::get("CoupledChannel.norm",s,m*m,m*m,p,L),Lineshape::Factory::get("BW",s,m*m,m*m,p,L),"limit"}); return out; },[=]{ EV e; for(auto& x:v) e.push_back(sym(x.first)); double m=mass("pi+"); e.push_back(sym("s")-4*m*m); e.push_back(sym(p+"_mass")*sym(p+"_mass")-4*m*m); return e; },[=](Field& F){ F.sample=v; F.positiveVars={"s",p+"_mass",p+"_width",p+"_radius"}; if(L==2) fixs(F,Fix{{p+"_mass",{5,4}}}); },L==2?fixd(Fix{{p+"_mass",{5,4}}}):nullptr); }
  }
  // pi pi isotensor: phase shift, elastic
  { V v{{"s",0.8},{"Isotensor::a",55.},{"Isotensor::b",0.8},{"Isotensor::c",-0.9},{"Isotensor::d",0.3}}; auto set=[=](Field& F){ F.sample=v; }; H.add("Isotensor",PAIRS( Expression s=sym("s"); Expression a=sym("Isotensor::a")*(M_PI/180); Expression poly=1+sym("Isotensor::b")*s+sym("Isotensor::c")*s*s+sym("Isotensor::d")*s*s*s; Expression d2=-2*a*fcn::sqrt(s/4.-0.139570*0.139570)/poly; Expression T=shape("Isotensor",r,0); out.push_back({2*I*T+1,fcn::cos(d2)+I*fcn::sin(d2),"S-matrix"}); out.push_back({fcn::norm(1+2*I*T),Expression(1.),"elastic"}); ),nullptr,set); }
  // two-channel K matrices of the K pi S-wave
  for(int which=0;which<2;++which){ std::string n=which?"PALANO":"FOCUS"; const char* eta=which?"eta0":"eta'(958)0"; for(int open=2;open>=0;--open){ double sv=open==2?3.5:open==1?0.9:0.2; Region Rk(V{{"s",sv}},S{}); auto set=Rk.set();
      auto rho=[=](double m,bool o){ Expression s=sym("s"); double k=mass("K+"); Expression x=which?1.-(k+m)*(k+m)/s:(1.-(k+m)*(k+m)/s)*(1.-(k-m)*(k-m)/s); return csq(x,o); };
      auto K=[=](int i,int j){ Expression s=sym("s"); double mk=mass("K+"),mp=mass("pi+"); Expression sn=Expression(mk*mk+mp*mp); auto P=[&](std::vector<double> c,const Expression& x){ Expression r=0; for(size_t q=0;q<c.size();++q) r=r+Expression(c[q])*power(x,q); return r; };
         if(!which){ double g[2]={0.31072,-0.02323}; std::vector<double> c[3]={{0.79299,-0.15099,0.00811},{0.15040,-0.038266,0.0022596},{0.17054,-0.0219,0.00085655}}; return (s-0.23)/sn*(Expression(g[i]*g[j])/(1.7919-s)+P(c[i+j],s/sn-1)); }
         double g[2][2]={{0.3139,-0.00775},{1.1804,-0.22335}}; double sp[2]={1.7991,8.3627}; std::vector<double> c[3]={{-0.1553,0.0909,0.8618,0.0629},{0.0738,0.3866,1.2195,0.8390},{-0.0036,0.2590,1.6950,2.2300}}; return (s/sn-0.87753)*(Expression(g[0][i]*g[0][j])/(sp[0]-s)+Expression(g[1][i]*g[1][j])/(sp[1]-s)+P(c[i+j],(2*s-5.832-0.360)/(5.832-0.360))); };
      bool o1=open>0,o2=open>1; double mp=mass("pi+"),me=mass(eta); std::string tag=n+(open==2?"_above":open==1?"_below_second":"_below_first");
      // T (1 - i rho K) = K: the shapes are the first row of T
      H.add(tag,PAIRS( Expression T1=shape(n+".Kpi",r,0),T2=shape(n+".KEta",r,0),r1=rho(mp,o1),r2=rho(me,o2); out.push_back({T1-I*(T1*r1*K(0,0)+T2*r2*K(1,0)),K(0,0),"11"}); out.push_back({T2-I*(T1*r1*K(0,1)+T2*r2*K(1,1)),K(0,1),"12"}); ),Rk.pos(),set);
      if(!which||!quick) H.add(tag+"_unitarity",PAIRS( Expression T1=shape(n+".Kpi",r,0),T2=shape(n+".KEta",r,0); Expression r1=o1?rho(mp,true):Expression(0.),r2=o2?rho(me,true):Expression(0.); out.push_back({im(T1),r1*fcn::norm(T1)+r2*fcn::norm(T2),"optical theorem"}); ),Rk.pos(),set);
      H.add(tag+"_I32",PAIRS( Expression s=sym("s"); double mk=mass("K+"); Expression sn=Expression(mk*mk+mp*mp); Expression X=which?(2*s-5.832-0.360)/(5.832-0.360):s/sn-1; Expression K3=which?(s/sn-1.0209)*(Expression(-0.04046)+0.08143*X-0.08849*X*X):(s-0.27)/sn*(Expression(-0.22147)+0.026637*X-0.00092057*X*X); out.push_back({1/shape(n+".I32",r,0),1-I*rho(mp,o1)*K3,"inverse"}); ),Rk.pos(),set); } }
  // K matrix building blocks, up to three channels and two poles
  for(unsigned nc=1;nc<=3;++nc) for(unsigned np=0;np<=2;++np){ std::string id="kmatrix_"+std::to_string(nc)+"ch_"+std::to_string(np)+"poles"; 
    H.add(id,PAIRS( Expression s=sym("s"); std::vector<poleConfig> pc; for(unsigned a=0;a<np;++a){ poleConfig p(sym("p"+std::to_string(a))); for(unsigned c=0;c<nc;++c) p.add(sym("g"+std::to_string(a)+std::to_string(c))); pc.push_back(p); } Tensor k=constructKMatrix(s,nc,pc); for(unsigned i=0;i<nc;++i) for(unsigned j=0;j<nc;++j){ Expression ref=0; for(unsigned a=0;a<np;++a) ref=ref+sym("g"+std::to_string(a)+std::to_string(i))*sym("g"+std::to_string(a)+std::to_string(j))/(sym("p"+std::to_string(a))-s); out.push_back({k[{i,j}],ref,"K"}); } )); }
  for(unsigned nc=1;nc<=3;++nc) for(unsigned row=0;row<(nc>2?nc:1);++row){ auto val=[=](unsigned i,unsigned j){ return std::make_pair(int((7*i+3*j+2)%11)-5,int(2+(i+2*j)%3)); }; auto conc=[=](unsigned i,unsigned j){ return nc>2&&i!=row; }; H.add("propagator_"+std::to_string(nc)+(nc>2?"_row"+std::to_string(row):""),PAIRS( Tensor K=symTensor("K",{nc,nc}); std::vector<Expression> rho; for(unsigned i=0;i<nc;++i) rho.push_back(sym("rho"+std::to_string(i))); Tensor F=getPropagator(K,rho); for(unsigned i=0;i<nc;++i) for(unsigned j=0;j<nc;++j){ Expression e=0; for(unsigned k=0;k<nc;++k) e=e+(Expression(i==k?1.:0.)-I*K[{i,k}]*rho[k])*F[{k,j}]; out.push_back({e,Expression(i==j?1.:0.),"(1-iK rho)F=1"}); } ),nullptr,[=](Field& F){ for(unsigned i=0;i<nc;++i) for(unsigned j=0;j<nc;++j) if(conc(i,j)){ auto v=val(i,j); F.subst["K_"+std::to_string(i*nc+j)]=F.fromRat(v.first,v.second); } if(nc>2) for(unsigned i=0;i<nc;++i) F.subst["rho"+std::to_string(i)]=F.fromRat(2*i+1,i+3); },[=](std::map<std::string,double>& q){ for(unsigned i=0;i<nc;++i) for(unsigned j=0;j<nc;++j) if(conc(i,j)){ auto v=val(i,j); q["K_"+std::to_string(i*nc+j)]=double(v.first)/v.second; } if(nc>2) for(unsigned i=0;i<nc;++i) q["rho"+std::to_string(i)]=(2.*i+1)/(i+3.); }); }
  H.add("phase_space_functions",PAIRS( Expression s=sym("s"); out.push_back({phsp_twoBody(s,0.5,0.125),fcn::sqrt(1.-0.625*0.625/s),"two body"}); out.push_back({phsp_FOCUS(s,0.5,0.125),fcn::sqrt((1.-0.625*0.625/s)*(1.-0.375*0.375/s)),"FOCUS"}); out.push_back({phsp_fourPi(s),fcn::sqrt(1.-(4*0.139570)*(4*0.139570)/s),"four pi above 1 GeV"}); Expression g=gFromGamma(sym("m"),sym("w"),sym("rho")); out.push_back({g*g,sym("m")*sym("w")/sym("rho"),"coupling"}); ),[]{ return EV{sym("s"),sym("s")-1.,sym("m"),sym("w"),sym("rho")}; },[](Field& F){ F.sample={{"s",2.}}; });
  H.add("phase_space_functions_low",PAIRS( Expression s=sym("s"); Expression ref=0; int i=0; for(double c:{0.00051,-0.01933,0.13851,-0.20840,-0.29744,0.13655,1.07885}) ref=ref+c*power(s,i++); out.push_back({phsp_fourPi(s),ref,"four pi below 1 GeV"}); out.push_back({phsp_twoBody(s,0.5,0.125),I*fcn::sqrt(0.625*0.625/s-1.),"two body closed"}); ),[]{ return EV{sym("s"),0.2-sym("s")}; },[](Field& F){ F.sample={{"s",0.15}}; });
  // simple K matrix: two channels, two poles
  { Fix km{{"s",{9,5}},{"kMatrix::pole::1::width::1",{1,7}},{"kMatrix::pole::2::width::0",{1,5}},{"kMatrix::pole::1::mass",{5,4}},{"kMatrix::pole::2::mass",{5,3}}}; V v{{"s",1.7}}; for(int a=1;a<=2;++a){ std::string st="kMatrix::pole::"+std::to_string(a); v[st+"::mass"]=1.1+0.2*a; for(int c=0;c<2;++c) v[st+"::width::"+std::to_string(c)]=0.1*a+0.05*c; }
    auto opts=[]{ option("kMatrix::nPoles",{"2"}); option("kMatrix::nChannels",{"2"}); option("kMatrix::Channel::1",{"pi+","pi-"}); option("kMatrix::Channel::2",{"K+","K-"}); }; auto pos=[=]{ EV e; for(auto& x:v) e.push_back(sym(x.first)); e.push_back(sym("s")-1.); for(int a=1;a<=2;++a){ Expression m=sym("kMatrix::pole::"+std::to_string(a)+"::mass"); e.push_back(m*m-1.); } return e; };
    for(int term=0;term<2;++term) H.add("kMatrixSimple_"+std::to_string(term),[=]{ PV out; opts(); Expression s=sym("s"); double m[2]={mass("pi+"),mass("K+")}; Expression rho[2],g2[2][2],M[2]; for(int c=0;c<2;++c) rho[c]=fcn::sqrt(1.-4*m[c]*m[c]/s); Expression g[2][2]; for(int a=0;a<2;++a){ std::string st="kMatrix::pole::"+std::to_string(a+1); M[a]=sym(st+"::mass"); for(int c=0;c<2;++c) g[a][c]=fcn::sqrt(M[a]*sym(st+"::width::"+std::to_string(c))/fcn::sqrt(1.-4*m[c]*m[c]/(M[a]*M[a]))); }
       auto K=[&](int i,int j){ Expression e=0; for(int a=0;a<2;++a) e=e+g[a][i]*g[a][j]/(M[a]*M[a]-s); return e; }; Expression F=shape("kMatrixSimple."+std::to_string(term),r,0)*(M[term]*M[term]-s);
       Expression det=(1-I*K(0,0)*rho[0])*(1-I*K(1,1)*rho[1])+K(0,1)*rho[1]*K(1,0)*rho[0]; out.push_back({F*det,(1-I*K(1,1)*rho[1])*g[term][0]+I*K(0,1)*rho[1]*g[term][1],"first component"}); return out; },pos,[=](Field& F){ F.sample=v; F.opaqueRoots=true; fixs(F,km); },fixd(km)); }
  // generic K matrix: production vector, Q vector and pole terms
  { const std::string k="f(0)(980)0"; Fix gk{{k+"::pole::1::mass",{3,2}},{k+"::pole::2::mass",{5,3}},{k+"::pole::1::g::2",{2,3}},{k+"::pole::2::g::1",{3,5}},{k+"::f1::2::2",{1,3}},{k+"::f1::1::1",{2,7}},{k+"::s0",{-3,7}}}; for(int mode=0;mode<4;++mode) for(unsigned np=0;np<=2;++np) for(unsigned nc=1;nc<=2;++nc){ if((mode>=2)&&np==0) continue; if(mode==3&&np==1) continue; std::string id=std::string("GenericKmatrix_")+(mode==0?"PVec":mode==1?"QVec":mode==2?"ZVec1":"ZVec2")+"_"+std::to_string(nc)+"ch_"+std::to_string(np)+"poles"; for(bool nr:{false,true}){ if(nr&&(np>1&&nc>1&&quick)) continue; V v; v["f(0)(980)0_mass"]=0.95;
      H.add(id+(nr?"_nr":""),[=]{ PV out; option(k+"::kMatrix::nPoles",{std::to_string(np)}); std::vector<std::string> ch{k+"{K+,K-}",k+"{pi+,pi-}"}; ch.resize(nc); option(k+"::kMatrix::channels",ch); option(k+"::kMatrix::production_amplitude",{mode==0?"PVec":mode==1?"QVec":"ZVec"});
        Particle p(k+(mode<2?"[GenericKmatrix]":mode==2?"[GenericKmatrix.pole.1.1]":"[GenericKmatrix.pole.2.1]")+"{K+,K-}",std::vector<std::string>{"K+","K-"}); Expression s=p.massSq(); Expression A=Lineshape::Factory::get(p.lineshape(),p,nullptr); double ms[2]={mass("K+"),mass("pi+")}; Expression rho[2]; for(unsigned c=0;c<nc;++c) rho[c]=phaseSpace(s,Particle(ch[c]),0); (void)ms;
        auto g=[=](unsigned a,unsigned c){ return sym(k+"::pole::"+std::to_string(a+1)+"::g::"+std::to_string(c+1)); }; auto m2=[=](unsigned a){ Expression m=sym(k+"::pole::"+std::to_string(a+1)+"::mass"); return m*m; }; auto f=[=](unsigned i,unsigned j){ if(i>j) std::swap(i,j); return nr?sym(k+"::f1::"+std::to_string(i+1)+"::"+std::to_string(j+1)):Expression(0.); };
        auto K=[&](unsigned i,unsigned j){ Expression e=f(i,j); for(unsigned a=0;a<np;++a) e=e+g(a,i)*g(a,j)/(m2(a)-s); return e; };
        std::vector<Expression> P; for(unsigned i=0;i<nc;++i){ Expression e=0; if(mode==0){ Expression s0=sym(k+"::s0"); for(unsigned a=0;a<np;++a){ Expression b=0; for(unsigned q=0;q<nc;++q) b=b+sym(k+"::a::"+std::to_string(q+1))*g(a,q); e=e+b*g(a,i)/(m2(a)-s); } for(unsigned q=0;q<nc;++q) e=e+sym(k+"::a::"+std::to_string(q+1))*f(i,q)*(1+s0)/(s-s0); } else if(mode==1) e=K(i,0); else e=g(mode-2,i)/(m2(mode-2)-s); P.push_back(e); }
        if(nc==1) out.push_back({A*(1-I*K(0,0)*rho[0]),P[0],"one channel"}); else { Expression det=(1-I*K(0,0)*rho[0])*(1-I*K(1,1)*rho[1])+K(0,1)*rho[1]*K(1,0)*rho[0]; out.push_back({A*det,(1-I*K(1,1)*rho[1])*P[0]+I*K(0,1)*rho[1]*P[1],"two channels"}); } return out; },nullptr,[=](Field& F){ F.sample=V{{"0_E",1.4}}; F.opaqueRoots=true; if(nc==2){ fixs(F,gk); if(np+nr>1) fixs(F,Fix{{"0_E",{7,5}}}); } for(auto& n:MOM) F.subst[n]=Num(); for(auto& n:MOM) F.sample[n]=0; if(!nr) for(auto& n:{"1::1","1::2","2::2"}) F.subst[k+"::f1::"+n]=Num(); },[=](std::map<std::string,double>& q){ if(nc==2){ fixd(gk)(q); if(np+nr>1) q["0_E"]=1.4; } for(auto& n:MOM) q[n]=0; if(!nr) for(auto& n:{"1::1","1::2","2::2"}) q[k+"::f1::"+std::string(n)]=0; }); } } }
  // shapes built from splines: each spline is any quadratic; the knots are where the options put them
  for(bool three:{false,true}){ auto knots=[=]{ auto& m=OptionsParser::getMe()->m_parsedLines; for(auto n:{"::Spline","::Spline::N","::Spline::Min","::Spline::Max"}) m.erase(r+n); if(three) option(r+"::Spline",{"5","0.25","2"}); else { option(r+"::Spline::N",{"5"}); option(r+"::Spline::Min",{"0.25"}); option(r+"::Spline::Max",{"2"}); } };
    auto put=[=](const std::string& n,unsigned L,PV& out){ knots(); Expression e=shape(n,r,L); for(auto x:asQuadratics(e)){ out.push_back({Expression(double(x->m_nKnots)),Expression(5.),"number of knots"}); out.push_back({Expression(x->m_min),Expression(0.25),"first knot"}); out.push_back({Expression(x->m_max),Expression(2.),"last knot"}); } return e; };
    auto q=[=](const char* n,const Expression& x){ std::string a=r+"::Spline::"+n; return sym(a+"_0")+sym(a+"_1")*x+sym(a+"_2")*x*x; }; std::string t=three?"":"_named";
    Region sr=up; for(auto n:{"Gamma","dm2","FF","Re","Im","Eta","Delta"}) for(int k=0;k<3;++k) sr.sample[r+"::Spline::"+n+"_"+std::to_string(k)]=0.3+0.1*k;
    H.add("spline_decay"+t,PAIRS( out.push_back({put("DecaySpline",0,out),q("FF",mom2(sym("s"))),"value"}); ),sr.pos(),sr.set());
    for(unsigned L=0;L<3;++L) for(std::string m:{"","EFF","BL","Dis","Dis.EFF"}){ if(!three&&(L||m!="")) continue; H.add("spline_width_"+std::to_string(L)+(m==""?"":"_"+m)+t,PAIRS( Expression s=sym("s"),M=sym(M_),G=sym(G_),R=sym(R_),k=mom2(s); Expression BF=m.find("EFF")!=std::string::npos?fcn::exp(-k*R*R/2.):ff(L,m=="BL"?"BL":"",k*R*R,k*R*R); Expression self=M*M-I*M*G*q("Gamma",s)/q("Gamma",M*M); if(m.find("Dis")==0) self=self+q("dm2",s)-q("dm2",M*M); out.push_back({put("GSpline"+(m==""?"":"."+m),L,out)*(self-s),kf(M,G)*BF,"value"}); ),sr.pos(),sr.set()); }
    H.add("spline_form_factor"+t,PAIRS( Expression s=sym("s"),M=sym(M_); out.push_back({put("FormFactorSpline",0,out)*(M*M-s-I*M*rw(0,s,M,sym(G_),sym(R_))),q("FF",s),"value"}); ),sr.pos(),sr.set());
    for(std::string m:{"","Polar","continue"}) H.add("spline_mipwa"+(m==""?"":"_"+m)+t,PAIRS( Expression s=sym("s"),a=q("Re",s),b=q("Im",s); out.push_back({put("MIPWA"+(m==""?"":"."+m),0,out),m=="Polar"?a*(fcn::cos(b)+I*fcn::sin(b)):a+I*b,"value"}); ),sr.pos(),sr.set());
    H.add("spline_inelastic"+t,PAIRS( Expression s=sym("s"),e=q("Eta",s),d=q("Delta",s); out.push_back({put("InelasticSpline",0,out)*(2.*I),e*(fcn::cos(2*d)+I*fcn::sin(2*d))-1,"value"}); ),sr.pos(),sr.set());
  }
  // three-body shapes
  { auto P=[](int i){ std::vector<Expression> v; for(auto n:{"_Px","_Py","_Pz","_E"}) v.push_back(Parameter(std::to_string(i)+n)); return v; }; auto dot4=[](const EV& a,const EV& b){ return a[3]*b[3]-a[0]*b[0]-a[1]*b[1]-a[2]*b[2]; }; auto add=[](const EV& a,const EV& b){ EV v; for(int k=0;k<4;++k) v.push_back(a[k]+b[k]); return v; };
    for(int perm=0;perm<3;++perm) for(int side=0;side<2;++side) H.add("EtaDalitz_"+std::to_string(perm)+(side?"_beyond":""),[=]{ PV out; static const char* W[3][3]={{"pi+","pi-","pi0"},{"pi0","pi+","pi-"},{"pi-","pi0","pi+"}}; Particle p("eta0[EtaDalitz]{pi+,pi-,pi0}",std::vector<std::string>(W[perm],W[perm]+3)); Expression A=Lineshape::Factory::get("EtaDalitz",p,nullptr); int i0=perm==0?2:perm==1?0:1; EV p0=P(i0),p1=P((i0+1)%3),p2=P((i0+2)%3),T=add(add(P(0),P(1)),P(2)); double M=mass("eta0"),m0=mass("pi0"),mc=mass("pi+"); Expression t0=dot4(p0,T)-M*m0,t1=dot4(p1,T)-M*mc,t2=dot4(p2,T)-M*mc; Expression z=1-1.07*(3*t0/(t0+t1+t2)-1); out.push_back({A,side?Expression(1.):fcn::sqrt(z),"amplitude"}); return out; },nullptr,[=](Field& F){ for(int i=0;i<3;++i) for(auto n:{"_Px","_Py","_Pz"}){ F.sample[std::to_string(i)+n]=0.01*(i+1); } int i0=perm==0?2:perm==1?0:1; for(int i=0;i<3;++i) F.sample[std::to_string(i)+"_E"]=(i==i0)==(side==1)?0.9:0.2; });
    for(int deg=0;deg<3;++deg) H.add("PolyNR_"+std::to_string(deg),[=]{ PV out; option("pnr::Degree",{std::to_string(deg)}); Particle p("D0[PolyNR.pnr]{K-,pi+,pi0}",std::vector<std::string>{"pi+","pi0","K-"}); Expression A=Lineshape::Factory::get("PolyNR.pnr",p,nullptr); auto idx=[&](int d){ return int(p.daughter(d)->index()); }; EV a=add(P(idx(0)),P(idx(1))),b=add(P(idx(0)),P(idx(2))); Expression x=dot4(a,a),y=dot4(b,b),e=0; for(int i=0;i<=deg;++i) for(int j=0;j<=deg;++j) e=e+sym("pnr_"+std::to_string(i)+"_"+std::to_string(j))*power(x,i)*power(y,j); out.push_back({A,e,"polynomial"}); return out; });
  }
  // generic K matrix: the second channel, the channel of the decay itself, and a non-resonant term with a pole
  { const std::string k="f(0)(980)0"; Fix gk{{k+"::pole::1::mass",{3,2}},{k+"::pole::1::g::2",{2,3}},{k+"::f1::2::2",{1,3}},{k+"::f1::1::1",{2,7}},{k+"::s0",{-3,7}},{k+"::s0::1::1",{-2,5}},{"0_E",{7,5}}}; for(int mode=0;mode<4;++mode) H.add(std::string("GenericKmatrix_")+(mode==0?"second_channel":mode==1?"own_channel":mode==2?"nr_pole":"nr_pole_PVec"),[=]{ PV out; option(k+"::kMatrix::nPoles",{"1"}); std::vector<std::string> ch{k+"{K+,K-}",k+"{pi+,pi-}"}; if(mode>1){ ch.resize(1); option(k+"::1::1::nrShape",{"pole"}); } option(k+"::kMatrix::channels",ch); option(k+"::kMatrix::production_amplitude",{mode==2?"QVec":mode==3?"PVec":"ZVec"});
      Particle p(k+(mode==1?"{pi+,pi-}":"{K+,K-}"),mode==1?std::vector<std::string>{"pi+","pi-"}:std::vector<std::string>{"K+","K-"}); Expression s=p.massSq(),A=Lineshape::Factory::get(mode==0?"GenericKmatrix.pole.1.2":mode==1?"GenericKmatrix.pole.1":"GenericKmatrix",p,nullptr); Expression rho[2]; for(unsigned c=0;c<ch.size();++c) rho[c]=phaseSpace(s,Particle(ch[c]),0);
      auto g=[=](unsigned c){ return sym(k+"::pole::1::g::"+std::to_string(c+1)); }; Expression m=sym(k+"::pole::1::mass"); auto f=[=](unsigned i,unsigned j){ if(i>j) std::swap(i,j); std::string n=std::to_string(i+1)+"::"+std::to_string(j+1); return mode>1?(sym(k+"::f1::"+n)+sym(k+"::f2::"+n)*fcn::sqrt(s))/(s-sym(k+"::s0::"+n)):sym(k+"::f1::"+n); }; auto K=[&](unsigned i,unsigned j){ return f(i,j)+g(i)*g(j)/(m*m-s); };
      if(mode<2){ Expression P0=g(0)/(m*m-s),P1=g(1)/(m*m-s),det=(1-I*K(0,0)*rho[0])*(1-I*K(1,1)*rho[1])+K(0,1)*rho[1]*K(1,0)*rho[0]; out.push_back({A*det,(1-I*K(0,0)*rho[0])*P1+I*K(1,0)*rho[0]*P0,"second row"}); } else { Expression a=sym(k+"::a::1"),s0=sym(k+"::s0"),Pv=mode==2?K(0,0):a*g(0)*g(0)/(m*m-s)+a*f(0,0)*(1+s0)/(s-s0); out.push_back({A*(1-I*K(0,0)*rho[0]),Pv,"one channel"}); } return out; },nullptr,[=](Field& F){ F.sample=V{{"0_E",1.4}}; F.opaqueRoots=true; fixs(F,gk); for(auto& n:MOM){ F.subst[n]=Num(); F.sample[n]=0; } },[=](std::map<std::string,double>& q){ fixd(gk)(q); for(auto& n:MOM) q[n]=0; }); }
  // 5x5 isoscalar K matrix: one active pole (rank one), all couplings symbolic, above and below thresholds
  { const char* ch[5]={"pipi","KK","4pi","EtaEta","EtapEta"}; double mm[5][2]={{0.139570,0.139570},{0.493677,0.493677},{2*0.139570,2*0.139570},{0.547862,0.547862},{0.547862,0.95778}};
    for(int high=2;high>=0;--high) for(int act=1;act<=5;++act) for(int ot=1;ot<=4;++ot){ if(quick&&(high==2?(act>1&&ot!=1+act%4):ot!=1+act%4)) continue; std::string st="IS_p"+std::to_string(act)+"_"; Fix ix{{"s",{high==2?29:high==1?11:6,10}},{"sA",{1,1}},{"sA0",{-3,20}},{st+"mass",{11,10}},{st+ch[ot],{-3,4}}}; double sv=high==2?2.9:high==1?1.1:0.6; V v{{"s",sv}}; auto setup=[=](Field& F){ F.sample=v; F.subst["s0_scatt"]=F.fromRat(-4); for(int p=1;p<=5;++p) for(int c=0;c<5;++c) if(p!=act||(c!=0&&c!=ot)) F.subst["IS_p"+std::to_string(p)+"_"+ch[c]]=Num(); F.opaqueRoots=true; fixs(F,ix); for(int i=0;i<5;++i) F.subst["f_scatt"+std::to_string(i)]=Num(); };
      auto der=[=](std::map<std::string,double>& q){ fixd(ix)(q); q["s0_scatt"]=-4; for(int p=1;p<=5;++p) for(int c=0;c<5;++c) if(p!=act||(c!=0&&c!=ot)) q["IS_p"+std::to_string(p)+"_"+ch[c]]=0; for(int i=0;i<5;++i) q["f_scatt"+std::to_string(i)]=0; };
      auto parts=[=](EV& rho,EV& g,Expression& den,Expression& adler){ Expression s=sym("s"); for(int c=0;c<5;++c){ double t=(mm[c][0]+mm[c][1])*(mm[c][0]+mm[c][1]); if(c==2&&high==0){ Expression e=0; int i=0; for(double x:{0.00051,-0.01933,0.13851,-0.20840,-0.29744,0.13655,1.07885}) e=e+x*power(s,i++); rho.push_back(e); } else rho.push_back(csq(1.-t/s,sv>t)); g.push_back(sym("IS_p"+std::to_string(act)+"_"+ch[c])); } Expression m=sym("IS_p"+std::to_string(act)+"_mass"); den=m*m+I*1e-6-s; adler=(1-sym("sA0"))*(s-sym("sA")*0.139570*0.139570/2)/(s-sym("sA0")); };
      std::string tag="isoscalar_"+std::to_string(high)+"_pole"+std::to_string(act)+"_"+ch[ot]; std::string pt=std::to_string(act-1);
      // K = a g g^T/den  =>  (1-iK rho)^-1 g = g /(1 - i a sum g^2 rho/den)
      H.add(tag+"_pole",PAIRS( EV rho,g; Expression den,a; parts(rho,g,den,a); Expression D=0; for(int c=0;c<5;++c) D=D+g[c]*g[c]*rho[c]; out.push_back({shape("kMatrix.pole."+pt,r,0)*(den-I*a*D),g[0],"pole"}); out.push_back({shape("kMatrix.poleKK."+pt,r,0)*(den-I*a*D),g[1],"poleKK"}); ),nullptr,setup,der);
      H.add(tag+"_scatt",PAIRS( EV rho,g; Expression den,a; parts(rho,g,den,a); Expression D=0; for(int c=0;c<5;++c) D=D+g[c]*g[c]*rho[c]; for(auto x:std::vector<std::pair<int,int>>{{0,0},{0,ot},{ot,ot}}) out.push_back({shape("kMatrix.scatt."+std::to_string(x.first)+"."+std::to_string(x.second),r,0)*(den-I*a*D),a*g[x.first]*g[x.second],"scatt"}); ),nullptr,setup,der);
      H.add(tag+"_prod",PAIRS( EV rho,g; Expression den,a; parts(rho,g,den,a); Expression D=0,s=sym("s"),s0=sym(r+"_s0_prod"); for(int c=0;c<5;++c) D=D+g[c]*g[c]*rho[c]; for(int c:{0,1,ot}) for(int row=0;row<2;++row) out.push_back({shape((row?"kMatrix.prodKK.":"kMatrix.prod.")+std::to_string(c),r,0)*(den-I*a*D)*(s-s0),(1-s0)*(Expression(row==c?1.:0.)*(den-I*a*D)+I*a*g[row]*g[c]*rho[c]),"prod"}); ),nullptr,setup,der); }
    // scattering background: the coupling of channel i to pi pi
    for(int i=0;i<5;++i){ auto set=[=](Field& F){ F.sample={{"s",2.9}}; F.opaqueRoots=true; for(int p=1;p<=5;++p) for(auto* c:ch) F.subst["IS_p"+std::to_string(p)+"_"+c]=Num(); for(int j=0;j<5;++j) if(j!=i) F.subst["f_scatt"+std::to_string(j)]=Num(); }; auto der=[=](std::map<std::string,double>& q){ for(int p=1;p<=5;++p) for(auto* c:ch) q["IS_p"+std::to_string(p)+"_"+c]=0; for(int j=0;j<5;++j) if(j!=i) q["f_scatt"+std::to_string(j)]=0; };
      H.add("isoscalar_background_"+std::to_string(i),PAIRS( Expression s=sym("s"),s0=sym("s0_scatt"); Expression a=(1-sym("sA0"))*(s-sym("sA")*0.139570*0.139570/2)/(s-sym("sA0")); Expression x=a*sym("f_scatt"+std::to_string(i))*(1-s0)/(s-s0); auto rho=[&](int c){ double t=(mm[c][0]+mm[c][1])*(mm[c][0]+mm[c][1]); return fcn::sqrt(1.-t/s); }; Expression D=i==0?1-I*x*rho(0):1+x*x*rho(0)*rho(i); out.push_back({shape("kMatrix.scatt.0."+std::to_string(i),r,0)*D,x,"scatt"}); ),nullptr,set,der); } }
  // Bugg's sigma parametrisation
  for(int high=1;high>=0;--high){ double sv=high?1.5:0.25; V v{{"s",sv}}; auto set=[=](Field& F){ F.sample=v; F.opaqueRoots=true; for(auto& x:std::map<std::string,std::pair<int,int>>{{"Bugg::M",{15,16}},{"Bugg::b1",{13,10}},{"Bugg::b2",{1,3}},{"Bugg::sA",{2,5}}}) F.subst[x.first]=F.fromRat(x.second.first,x.second.second); }; auto der=[](std::map<std::string,double>& q){ q["Bugg::M"]=0.9375; q["Bugg::b1"]=1.3; q["Bugg::b2"]=1./3; q["Bugg::sA"]=0.4; };
    H.add(std::string("Bugg_")+(high?"above":"below"),PAIRS( double M=0.9375; Expression s=sym("s"); const double mp=0.139570,mk=0.493677,me=0.547863; Expression sA=sym("Bugg::sA")*mp*mp; auto rho=[](const Expression& x,double m,bool o){ return csq(1.-4*m*m/x,o); }; auto j1=[&](const Expression& x){ Expression y=fcn::sqrt(1.-4*mp*mp/x); return (2+y*fcn::log((1-y)/(1+y)))/M_PI; }; 
      Expression Mx=Parameter("Bugg::M"); Expression g1=Mx*(sym("Bugg::b1")+sym("Bugg::b2")*s)*fcn::exp(-(s-Mx*Mx)/sym("Bugg::A")); Expression ad=(s-sA)/(Mx*Mx-sA); Expression z=j1(s)-j1(Mx*Mx); (void)M;
      auto damp=[&](double m){ return fcn::exp(-sym("Bugg::alpha")*(high?s-4*m*m:4*m*m-s)); }; auto fermi=[&](const Expression& x){ return 1/(1+fcn::exp(sym("Bugg::lambda_4pi")*(sym("Bugg::s0_4pi")-x))); };
      Expression G=g1*ad*rho(s,mp,true)+sym("Bugg::g_2K")*g1*s/(Mx*Mx)*damp(mk)*rho(s,mk,high)+sym("Bugg::g_2eta")*g1*s/(Mx*Mx)*damp(me)*rho(s,me,high); if(high) G=G+Mx*sym("Bugg::g_4pi")*fermi(s)/fermi(Mx*Mx); Expression inv=Mx*Mx-s-g1*ad*z-I*G; out.push_back({1/shape("Bugg",r,0),inv,"inverse"}); out.push_back({shape("Bugg.Az",r,0)*inv,(s-sA)*g1,"Az"}); ),nullptr,set,der); }
  return H.run();
}
