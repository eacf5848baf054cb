// C09: barrier factors, running widths, phase space.
#include "harness.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/CoupledChannel.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "lineshape_oracle.h"
using namespace AmpGen; using namespace va; using namespace lo;
int main(int argc,char** argv){
  Harness H(argc,argv,"C09"); const bool quick=H.quick; exactMasses();
  for(unsigned L=0;L<=4;++L){ std::string l=std::to_string(L);
    H.add("hankel_ratio_L"+l,PAIRS( Expression z=sym("z"),w=sym("w"); out.push_back({BlattWeisskopf_Norm(z,w,L),poly(L,w)/poly(L,z),"ratio"}); out.push_back({BlattWeisskopf_Norm(z,0,L),Expression(at0(L))/poly(L,z),"from threshold"}); out.push_back({BlattWeisskopf_Norm(w,w,L),Expression(1.),"reference"}); out.push_back({BlattWeisskopf_Norm(z,w,L)*BlattWeisskopf_Norm(w,z,L),Expression(1.),"inverse"}); Expression v=sym("v"); out.push_back({BlattWeisskopf_Norm(z,w,L)*BlattWeisskopf_Norm(v,z,L),BlattWeisskopf_Norm(v,w,L),"chain"}); ));
    H.add("blatt_weisskopf_L"+l,PAIRS( Expression z=sym("z"); out.push_back({BlattWeisskopf(z,L),Expression(at1(L))*power(z,L)/poly(L,z),"formula"}); out.push_back({BlattWeisskopf(1,L),Expression(1.),"at unit momentum"}); out.push_back({BlattWeisskopf(0,L),Expression(L==0?1.:0.),"at threshold"}); Expression w=sym("w"); out.push_back({BlattWeisskopf(z,L)/BlattWeisskopf(w,L),power(z/w,L)*BlattWeisskopf_Norm(z,w,L),"two forms"}); ));
    // energy-dependent width: s, mass above threshold
    auto mk=[=]{ return width(sym("s"),m2(1),m2(2),sym("M"),sym("G"),sym("R"),L); };
    Region up({{"s",1.1},{"M",0.9},{"m1",0.14},{"m2",0.3},{"G",0.15},{"R",1.5}},{"M","m1","m2","R"}), lowS({{"s",0.15},{"M",0.9},{"m1",0.14},{"m2",0.3},{"G",0.15},{"R",1.5}},{"M","m1","m2","R"}), lowM({{"s",1.1},{"M",0.4},{"m1",0.14},{"m2",0.3},{"G",0.15},{"R",1.5}},{"M","m1","m2","R"});
    H.add("width_formula_L"+l,PAIRS( Expression s=sym("s"),M=sym("M"),R=sym("R"); Expression k=mom2(s),k0=mom2(M*M); out.push_back({mk(),sym("G")*M*power(k/k0,L)*fcn::sqrt(k/k0/s)*poly(L,k0*R*R)/poly(L,k*R*R),"value"}); ),up.pos(),up.set());
    H.add("width_at_pole_L"+l,PAIRS( Expression M=sym("M"); out.push_back({width(M*M,m2(1),m2(2),M,sym("G"),sym("R"),L),sym("G"),"nominal width"}); ),up.pos(),up.set());
    H.add("width_below_threshold_L"+l,PAIRS( out.push_back({mk(),Expression(0.),"closed"}); ),lowS.pos(),lowS.set());
    H.add("width_pole_below_threshold_L"+l,PAIRS( Expression s=sym("s"),M=sym("M"),R=sym("R"); Expression k=mom2(s),k0=-mom2(M*M); out.push_back({mk(),sym("G")*M*power(k/k0,L)*fcn::sqrt(k/k0/s)*poly(L,k0*R*R)/poly(L,k*R*R),"value"}); ),lowM.pos(),lowM.set());
    { auto A=[=]{ return L<2?m2(1):sym("a"); }; auto B=[=]{ return L<2?m2(2):sym("a"); }; auto K=[=](const Expression& s){ return L<2?mom2(s):s/4.-sym("a"); };   // L>1: equal masses
    H.add("BL_L"+l,PAIRS( Expression s=sym("s"),s0=sym("s0"),R=sym("R"); Expression z=K(s)*R*R,w=K(s0)*R*R; out.push_back({BL(s,s0,A(),B(),R,L),fcn::sqrt(power(z,L)/poly(L,z)*poly(L,w)/power(w,L)),"value"}); out.push_back({BL(s0,s0,A(),B(),R,L),Expression(1.),"reference"}); ),[=]{ return std::vector<Expression>{sym("s"),sym("s0"),sym("R"),K(sym("s")),K(sym("s0"))}; },[](Field& F){ F.sample={{"s",1.1},{"s0",0.9},{"m1",0.14},{"m2",0.3},{"a",0.1},{"R",1.5}}; F.positiveVars={"m1","m2","R","s","s0","a"}; }); }
    // form factors of the lineshape factory
    for(std::string mod:{"","BL","BELLE2018","NFF","L0","L1","L2","L3"}){ unsigned l2=mod.size()==2&&mod[0]=='L'?unsigned(mod[1]-'0'):L; Region r({{"s",1.1},{"rho(770)0_mass",0.9},{"m1",0.14},{"m2",0.3},{"rho(770)0_radius",1.5}},{"m1","m2","rho(770)0_radius","rho(770)0_mass"},"rho(770)0_mass");
      H.add("form_factor_L"+l+"_"+mod,PAIRS( Expression s=sym("s"),R=sym("rho(770)0_radius"),M=sym("rho(770)0_mass"); Expression z=mom2(s)*R*R,w=mom2(M*M)*R*R; Expression f=Lineshape::Factory::get(mod==""?"FormFactor":"FormFactor."+mod,s,m2(1),m2(2),"rho(770)0",L); Expression ref=mod=="BL"?Expression(at1(l2))*power(z,l2)/poly(l2,z):mod=="NFF"?Expression(1.):mod=="BELLE2018"?poly(l2,w)/poly(l2,z):Expression(at0(l2))/poly(l2,z); out.push_back({f*f,ref,"squared"}); out.push_back({f,fcn::sqrt(ref),"value"}); ),r.pos(),r.set()); }
  }
  H.add("momentum",PAIRS( Expression s=sym("s"),a=sym("a"),b=sym("b"); out.push_back({4*s*Q2(s,a,b),s*s+a*a+b*b-2*s*a-2*s*b-2*a*b,"Kallen"}); Expression m=sym("m1"),n=sym("m2"); out.push_back({Q2((m+n)*(m+n),m*m,n*n),Expression(0.),"threshold"}); out.push_back({Q2(s,a,b),Q2(s,b,a),"exchange"}); out.push_back({Q2(s,a,a),s/4.-a,"equal masses"}); ));
  H.add("k_factor",PAIRS( Expression M=sym("M"),G=sym("G"); Expression g=M*fcn::sqrt(M*M+G*G); Expression k=kFactor(M,G); out.push_back({k,fcn::sqrt((2*std::sqrt(2.)/M_PI)*M*G*g/fcn::sqrt(M*M+g)),"value"}); ),[]{ return std::vector<Expression>{sym("M"),sym("G")}; },[](Field& F){ F.positiveVars={"M","G"}; });
  // two-body phase space of coupled channels; masses are those of the particles
  struct Ch { const char* d; unsigned L; }; 
  for(Ch c:{Ch{"rho(770)0{pi+,pi-}",1},Ch{"K*(892)0{K+,pi-}",1},Ch{"f(0)(980)0{K+,K-}",0},Ch{"K(2)*(1430)0{K+,pi-}",2}}) for(unsigned L=0;L<=3;++L){
    std::string nm=c.d; nm=nm.substr(0,nm.find('{')); const std::string rn=nm+"_radius"; const std::string d=c.d;
    auto masses=[=]{ Particle p(d); return std::make_pair(Expression(p.daughter(0)->mass()),Expression(p.daughter(1)->mass())); };
    for(bool open:{true,false}) H.add("phase_space_"+nm+"_L"+std::to_string(L)+(open?"_open":"_closed"),PAIRS( Particle p(d); Expression s=sym("s"),R=sym(rn); auto mm=masses(); Expression a=mm.first*mm.first,b=mm.second*mm.second; Expression k=(s*s+a*a+b*b-2*s*a-2*s*b-2*a*b)/(4*s); Expression got=phaseSpace(s,p,L);
       if(open) out.push_back({got*(16*M_PI),fcn::sqrt(kallen(s,a,b))/s*Expression(at1(L))*power(k*R*R,L)/poly(L,k*R*R),"open"}); else out.push_back({got*(16*M_PI),L==0?Constant(0,1)*fcn::sqrt(-kallen(s,a,b))/s:Expression(0.),"closed"}); ),[=]{ return std::vector<Expression>{sym("s"),sym(rn)}; },[=](Field& F){ F.sample={{"s",open?4.1:nm[0]=='r'?0.05:0.2},{rn,1.5}}; F.positiveVars={rn,"s"}; });
  }
  // the "CM" phase space: its absorptive part above threshold
  for(unsigned L=1;L<=3;++L) H.add("absorptive_CM_L"+std::to_string(L),PAIRS( Particle p("rho(770)0[phsp=CM]{pi+,pi-}"); Expression s=sym("s"); double m=p.daughter(0)->props()->mass(),R=p.props()->radius(); Expression k=Q2(s,m*m,m*m); Expression rho=phaseSpace(s,p,L); out.push_back({Expression(Real(rho)),2*fcn::sqrt(k/s)*Expression(at1(L))*power(k*R*R,L)/poly(L,k*R*R),"absorptive"}); ),[]{ return std::vector<Expression>{sym("s")}; },[](Field& F){ F.sample={{"s",1.1}}; F.positiveVars={"s"}; });
  (void)quick;
  return H.run();
}
