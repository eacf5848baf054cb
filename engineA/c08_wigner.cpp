// C08: Wigner functions, Clebsch-Gordan coefficients, LS <-> helicity recoupling.
#include "harness.h"
#include "AmpGen/Wigner.h"
using namespace AmpGen; using namespace va;
typedef std::vector<Pair> PV;
#define PAIRS(...) [=]{ PV out; __VA_ARGS__; return out; }
static std::string h(int t){ return t%2? std::to_string(t)+"h" : std::to_string(t/2); }
static std::string L(int i,int j=99,int k=99){ return std::to_string(i)+(j==99?"":","+std::to_string(j))+(k==99?"":","+std::to_string(k)); }
// twice-spin arguments
static Expression d(Expression c,int j,int m,int n){ return wigner_d(c,j/2.,m/2.,n/2.); }
static double cg(int j1,int m1,int j2,int m2,int J,int M){ return CG(j1/2.,m1/2.,j2/2.,m2/2.,J/2.,M/2.); }
static void angle(Field& F,const std::string& n){ Num c=F.fromTerm(F.var(n)),one=F.fromRat(1); F.sqrtNum(F.add(one,c)); F.sqrtNum(F.add(one,c,-1)); F.domain.push_back(F.var(n)<1 && F.var(n)>-1); }
static bool tri(int a,int b,int c){ return c>=std::abs(a-b) && c<=a+b && (a+b+c)%2==0; }

int main(int argc,char** argv){
  Harness H(argc,argv,"C08");
  int JM = H.quick?6:8;        // twice the maximal spin for single-d goals
  auto one=[](Field& F){ angle(F,"c"); };
  for(int j=0;j<=JM;++j){
    H.add("d"+h(j)+"_orthogonal", PAIRS( Expression c=sym("c"); for(int m=-j;m<=j;m+=2) for(int n=m;n<=j;n+=2){ Expression s=0,t=0; for(int k=-j;k<=j;k+=2){ s=s+d(c,j,m,k)*d(c,j,n,k); t=t+d(c,j,k,m)*d(c,j,k,n); } out.push_back({s,Expression(m==n?1.:0.),L(m,n)}); out.push_back({t,Expression(m==n?1.:0.),L(m,n)}); } ),nullptr,one);
    H.add("d"+h(j)+"_identity_at_zero_angle", PAIRS( for(int m=-j;m<=j;m+=2) for(int n=-j;n<=j;n+=2) out.push_back({d(1,j,m,n),Expression(m==n?1.:0.),L(m,n)}); ));
    H.add("d"+h(j)+"_half_turn", PAIRS( for(int m=-j;m<=j;m+=2) for(int n=-j;n<=j;n+=2) out.push_back({d(-1,j,m,n),Expression(m==-n?(((j+m)/2)%2?-1.:1.):0.),L(m,n)}); ));
    H.add("d"+h(j)+"_symmetries", PAIRS( Expression c=sym("c"); for(int m=-j;m<=j;m+=2) for(int n=-j;n<=j;n+=2){ double sg=((m-n)/2)%2?-1:1; out.push_back({d(c,j,m,n),sg*d(c,j,n,m),"transpose "+L(m,n)}); out.push_back({d(c,j,m,n),d(c,j,-n,-m),"reflection "+L(m,n)}); out.push_back({d(-c,j,m,n),(((j-n)/2)%2?-1.:1.)*d(c,j,-m,n),"supplement "+L(m,n)}); } ),nullptr,one);
  }
  // explicit low spins fix the phase convention: d^{1/2}, d^1 in cos(beta/2)=sqrt((1+c)/2), sin(beta/2)=sqrt((1-c)/2)
  H.add("d_explicit", PAIRS( Expression c=sym("c"); Expression C=fcn::sqrt((1+c)/2.),S=fcn::sqrt((1-c)/2.);
     out.push_back({d(c,0,0,0),Expression(1.),"0"}); out.push_back({d(c,1,1,1),C,"1/2 ++"}); out.push_back({d(c,1,1,-1),-S,"1/2 +-"}); out.push_back({d(c,1,-1,1),S,"1/2 -+"}); out.push_back({d(c,1,-1,-1),C,"1/2 --"});
     out.push_back({d(c,2,0,0),c,"1 00"}); out.push_back({d(c,2,2,2),C*C,"1 ++"}); out.push_back({d(c,2,2,0),-std::sqrt(2)*C*S,"1 +0"}); out.push_back({d(c,2,2,-2),S*S,"1 +-"}); out.push_back({d(c,4,0,0),1.5*c*c-0.5,"2 00"}); ),nullptr,one);
  // composition d(b1+b2) = d(b1) d(b2)
  auto two=[](Field& F){ angle(F,"c1"); angle(F,"c2"); Num o=F.fromRat(1), c1=F.fromTerm(F.var("c1")),c2=F.fromTerm(F.var("c2"));
    Num p1=F.sqrtNum(F.add(o,c1)),m1=F.sqrtNum(F.add(o,c1,-1)),p2=F.sqrtNum(F.add(o,c2)),m2=F.sqrtNum(F.add(o,c2,-1));
    Num c12=F.add(F.mul(c1,c2),F.mul(F.mul(p1,m1),F.mul(p2,m2)),-1); F.subst["c12"]=c12; Num r2=F.inv(F.sqrtConst(2));
    Num C=F.mul(r2,F.add(F.mul(p1,p2),F.mul(m1,m2),-1)), S=F.mul(r2,F.add(F.mul(m1,p2),F.mul(p1,m2)));
    F.sqrt_alias[F.key(F.add(o,c12))]=C; F.sqrt_alias[F.key(F.add(o,c12,-1))]=S; F.sqrt_alias[F.key(F.add(o,F.mul(c12,c12),-1))]=F.mul(C,S);
    F.domain.push_back(F.var("c1")+F.var("c2")>0); };
  auto der=[](std::map<std::string,double>& v){ v["c12"]=v["c1"]*v["c2"]-std::sqrt((1-v["c1"]*v["c1"])*(1-v["c2"]*v["c2"])); };
  for(int j=0;j<=(H.quick?4:6);++j) for(int m=-j;m<=j;m+=2)
    H.add("d"+h(j)+"_composition_row"+std::to_string(m), PAIRS( Expression a=sym("c1"),b=sym("c2"),ab=Parameter("c12"); for(int n=-j;n<=j;n+=2){ Expression s=0; for(int k=-j;k<=j;k+=2) s=s+d(a,j,m,k)*d(b,j,k,n); out.push_back({d(ab,j,m,n),s,L(m,n)}); } ),nullptr,two,der);
  // full D: unitary, and D with (cos theta, e^{i phi}) = e^{i(n-m)phi} d
  auto phi=[](Field& F){ angle(F,"c"); Num x=F.fromTerm(F.var("x")); F.subst["y"]=F.sqrtNum(F.add(F.fromRat(1),F.mul(x,x),-1)); };
  auto dphi=[](std::map<std::string,double>& v){ v["y"]=std::sqrt(std::max(0.,1-v["x"]*v["x"])); };
  for(int j=0;j<=(H.quick?4:6);++j){
    auto D=[=](int m,int n){ return wigner_D({sym("c"),sym("x")+std::complex<double>(0,1)*Expression(Parameter("y"))},j/2.,m/2.,n/2.,nullptr); };
    H.add("D"+h(j)+"_unitary", PAIRS( for(int m=-j;m<=j;m+=2) for(int n=m;n<=j;n+=2){ Expression s=0; for(int k=-j;k<=j;k+=2) s=s+D(m,k)*fcn::conj(D(n,k)); out.push_back({s,Expression(m==n?1.:0.),L(m,n)}); } ),nullptr,phi,dphi);
    H.add("D"+h(j)+"_phase", PAIRS( Expression e=sym("x")+std::complex<double>(0,1)*Expression(Parameter("y")); for(int m=-j;m<=j;m+=2) for(int n=-j;n<=j;n+=2){ Expression f=1; for(int k=0;k<std::abs(n-m)/2;++k) f=f*(n>m?e:fcn::conj(e)); out.push_back({D(m,n),f*d(sym("c"),j,m,n),L(m,n)}); } ),nullptr,phi,dphi);
  }
  // Clebsch-Gordan: for every state psi of j1 x j2 (symbolic amplitudes) recoupling preserves the norm, both ways
  int CM=H.quick?4:6;
  for(int j1=0;j1<=CM;++j1) for(int j2=0;j2<=CM;++j2){
    std::string n=h(j1)+"_x_"+h(j2);
    auto psi=[](int a,int b){ return sym("p_"+std::to_string(a)+"_"+std::to_string(b)); };
    H.add("cg_"+n+"_isometry", PAIRS( Expression lhs=0,rhs=0; for(int m1=-j1;m1<=j1;m1+=2) for(int m2=-j2;m2<=j2;m2+=2) rhs=rhs+psi(m1,m2)*psi(m1,m2);
       for(int J=std::abs(j1-j2);J<=j1+j2;J+=2) for(int M=-J;M<=J;M+=2){ Expression a=0; for(int m1=-j1;m1<=j1;m1+=2){ int m2=M-m1; if(std::abs(m2)<=j2) a=a+cg(j1,m1,j2,m2,J,M)*psi(m1,m2); } lhs=lhs+a*a; } out.push_back({lhs,rhs,"norm"}); ));

    H.add("cg_"+n+"_selection_and_symmetry", PAIRS( for(int J=std::abs(j1-j2);J<=j1+j2;J+=2) for(int m1=-j1;m1<=j1;m1+=2) for(int m2=-j2;m2<=j2;m2+=2){ for(int M=-J;M<=J;M+=2) if(M!=m1+m2) out.push_back({Expression(cg(j1,m1,j2,m2,J,M)),Expression(0.),"selection"}); int M=m1+m2; if(std::abs(M)>J) continue; double sg=((j1+j2-J)/2)%2?-1:1; out.push_back({Expression(cg(j1,m1,j2,m2,J,M)),sg*Expression(cg(j2,m2,j1,m1,J,M)),"exchange"}); out.push_back({Expression(cg(j1,m1,j2,m2,J,M)),sg*Expression(cg(j1,-m1,j2,-m2,J,-M)),"reversal"}); } 
       for(int J=std::abs(j1-j2);J<=j1+j2;J+=2){ double v=cg(j1,j1,j2,J-j1,J,J); out.push_back({Expression(v>0?1.:0.),Expression(1.),"Condon-Shortley phase"}); } ));
    // the coefficients intertwine rotations: product of d's = sum over J (Clebsch-Gordan series), every angle
    if( j1+j2<=(H.quick?4:6) && j1>0 && j2>0 ) H.add("cg_"+n+"_intertwines_rotations", PAIRS( Expression c=sym("c"); for(int m1=-j1;m1<=j1;m1+=2) for(int n1=-j1;n1<=j1;n1+=2) for(int m2=-j2;m2<=j2;m2+=2) for(int n2=-j2;n2<=j2;n2+=2){ Expression s=0; for(int J=std::abs(j1-j2);J<=j1+j2;J+=2) if(std::abs(m1+m2)<=J&&std::abs(n1+n2)<=J) s=s+Expression(cg(j1,m1,j2,m2,J,m1+m2))*Expression(cg(j1,n1,j2,n2,J,n1+n2))*d(c,J,m1+m2,n1+n2); out.push_back({d(c,j1,m1,n1)*d(c,j2,m2,n2),s,L(m1,n1)+";"+L(m2,n2)}); } ),nullptr,one);
  }
  // LS <-> helicity: for every J, j1, j2 the recoupling is an isometry on arbitrary helicity amplitudes
  int RM=H.quick?3:4;
  for(int J=0;J<=4;++J) for(int j1=0;j1<=RM;++j1) for(int j2=0;j2<=RM;++j2){
    if((J+j1+j2)%2) continue;
    H.add("recoupling_"+h(J)+"_to_"+h(j1)+"_"+h(j2), PAIRS( 
      auto psi=[](int a,int b){ return sym("p_"+std::to_string(a)+"_"+std::to_string(b)); }; Expression lhs=0,rhs=0; 
      for(int m1=-j1;m1<=j1;m1+=2) for(int m2=-j2;m2<=j2;m2+=2) if(std::abs(m1-m2)<=J) rhs=rhs+psi(m1,m2)*psi(m1,m2);
      for(int S=std::abs(j1-j2);S<=j1+j2;S+=2) for(int l=std::abs(J-S);l<=J+S;l+=2) if(l%2==0){ auto rc=calculate_recoupling_constants(J/2.,0,l/2.,S/2.,j1/2.,j2/2.); Expression a=0; 
        for(auto& f:rc){ int m1=std::lround(2*f.m1),m2=std::lround(2*f.m2); if(std::abs(m1-m2)>J){ out.push_back({Expression(f.factor),Expression(0.),"coupling outside |m1-m2|<=J"}); continue; } a=a+Expression(f.factor)*psi(m1,m2); } lhs=lhs+a*a; }
      out.push_back({lhs,rhs,"norm"}); ));
  }
  return H.run();
}
