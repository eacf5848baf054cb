// C20: invariants, boosts, rotations and angles of events.
#include "util.h"
#include <tuple>
#include "AmpGen/Event.h"
#include "AmpGen/Kinematics.h"
using namespace AmpGen; using std::vector; using std::string; typedef std::tuple<double,double,double> T3;
static string id(const char* p,int k){ string s(p); s+=char('0'+k/10); s+=char('0'+k%10); return s; }
static vector<double> raw(int n){ vector<double> v; for(int i=0;i<n;++i) v.push_back(sym_real(id("e",i).c_str(),-100,100)); return v; }
static double minv(const vector<double>& v,const vector<unsigned>& ids){ double x=0,y=0,z=0,e=0; for(auto i:ids){ x=x+v[4*i]; y=y+v[4*i+1]; z=z+v[4*i+2]; e=e+v[4*i+3]; } return e*e-x*x-y*y-z*z; }
static vector<double> copyOf(const Event& e){ vector<double> v; for(unsigned i=0;i<e.size();++i) v.push_back(e[i]); return v; }
GOAL(storage){ auto v=raw(9); Event e(v.data(),9); sym_check(e.size()==9,"size"); for(int i=0;i<9;++i){ sym_eq(e[i],v[i],"contents"); sym_eq(*e.address(i),v[i],"address"); } sym_eq(e.weight(),1,"weight"); sym_eq(e.genPdf(),1,"generator density"); double w=sym_real("w"),g=sym_real("g"),x=sym_real("x"); e.setWeight(w); e.setGenPdf(g); e.extendEvent(x); e.setIndex(7); sym_eq(e.weight(),w,"weight"); sym_eq(e.genPdf(),g,"generator density"); sym_check(e.size()==10&&e.index()==7,"extended"); sym_eq(e[9],x,"new entry"); for(int i=0;i<9;++i) sym_eq(e[i],v[i],"extending keeps the rest"); *e.pWeight()=g; sym_eq(e.weight(),g,"weight by address"); *e.pGenPdf()=w; sym_eq(e.genPdf(),w,"density by address"); }
GOAL(set){ auto v=raw(12); Event e(v.data(),12); int how=sym_choose("how",0,3); unsigned i=sym_choose("i",0,2); vector<double> p; for(int k=0;k<12;++k) p.push_back(sym_real(id("p",k).c_str())); if(how==0) e.set(i,vector<double>(p.begin(),p.begin()+4)); else if(how==1) e.set(i,p.data()); else if(how==2) e.set(p.data()); else e.set(4*i+1,p[0]); for(unsigned k=0;k<12;++k){ bool in= how==2 || (how<2&&k/4==i) || (how==3&&k==4*i+1); sym_eq(e[k], !in? v[k] : how==2? p[k] : how==3? p[0] : p[k%4],"exactly the entries asked for are replaced"); } }
GOAL(masses){ auto v=raw(16); Event e(v.data(),16); unsigned i=sym_choose("i",0,3),j=sym_choose("j",0,3),k=sym_choose("k",0,3); sym_eq(e.s(i),minv(v,{i}),"mass of one"); sym_eq(e.s(i,j),minv(v,{i,j}),"mass of two"); sym_eq(e.s(i,j,k),minv(v,{i,j,k}),"mass of three"); sym_eq(e.s(vector<unsigned>{i}),minv(v,{i}),"list of one"); sym_eq(e.s(vector<unsigned>{i,j}),minv(v,{i,j}),"list of two"); sym_eq(e.s(vector<unsigned>{i,j,k}),minv(v,{i,j,k}),"list of three"); sym_eq(e.s(vector<unsigned>{i,j,k,3-k}),minv(v,{i,j,k,3-k}),"list of four"); }
GOAL(swap){ auto v=raw(14); Event e(v.data(),14); unsigned i=sym_choose("i",0,2),j=sym_choose("j",0,2); e.swap(i,j); for(unsigned p=0;p<3;++p) for(int c=0;c<4;++c) sym_eq(e[4*p+c],v[4*(p==i?j:p==j?i:p)+c],"two particles change places"); sym_eq(e[12],v[12],"the rest stays"); sym_eq(e[13],v[13],"the rest stays"); e.swap(i,j); for(int k=0;k<14;++k) sym_eq(e[k],v[k],"swapping twice does nothing"); }
GOAL(reorder){ auto v=raw(17); Event e(v.data(),17); vector<unsigned> a; for(int k=0;k<4;++k) a.push_back(sym_choose(id("a",k).c_str(),0,3)); for(int x=0;x<4;++x) for(int y=0;y<x;++y) sym_assume(a[x]!=a[y]); e.reorder(a); for(int p=0;p<4;++p) for(int c=0;c<4;++c) sym_eq(e[4*a[p]+c],v[4*p+c],"each particle goes to its address"); sym_eq(e[16],v[16],"the rest stays"); sym_eq(e.s(a[0],a[1]),minv(v,{0,1}),"masses follow the particles"); }
// boosts and rotations
struct Mv { T3 n; double v; };
static Mv motion(bool boostOnly){ double x=sym_real("nx"),y=sym_real("ny"),z=sym_real("nz"); sym_assume(x*x+y*y+z*z>0); double v= boostOnly? sym_real("v") : 0; if(boostOnly) sym_assume((v<1)&(v>-1)); return {T3(x,y,z),v}; }
GOAL(boost){ auto v=raw(8); Event e(v.data(),8); Mv m=motion(true); boost(e,m.n,m.v); auto w=copyOf(e); sym_eq(minv(w,{0}),minv(v,{0}),"a boost keeps the mass"); sym_eq(minv(w,{1}),minv(v,{1}),"a boost keeps the mass"); sym_eq(minv(w,{0,1}),minv(v,{0,1}),"a boost keeps every pair mass"); }
GOAL(boost_direction){ auto v=raw(4); Event e(v.data(),4); Mv m=motion(true); boost(e,m.n,m.v); double nx=std::get<0>(m.n),ny=std::get<1>(m.n),nz=std::get<2>(m.n); double d[3]={e[0]-v[0],e[1]-v[1],e[2]-v[2]}; sym_eq(d[0]*ny,d[1]*nx,"momentum changes along the boost only"); sym_eq(d[1]*nz,d[2]*ny,"momentum changes along the boost only"); sym_eq(d[2]*nx,d[0]*nz,"momentum changes along the boost only"); }
GOAL(boost_rest){ double M=sym_real("M",1,10); Event e(4u); e[3]=M; e[0]=e[1]=e[2]=0; Mv m=motion(true); boost(e,m.n,m.v); double nx=std::get<0>(m.n),ny=std::get<1>(m.n),nz=std::get<2>(m.n),n=std::sqrt(nx*nx+ny*ny+nz*nz); sym_eq(e[0]*n,m.v*nx*e[3],"a particle at rest gets the velocity asked for"); sym_eq(e[1]*n,m.v*ny*e[3],"velocity"); sym_eq(e[2]*n,m.v*nz*e[3],"velocity"); }
GOAL(boost_back){ auto v=raw(4); Event e(v.data(),4); Mv m=motion(true); boost(e,m.n,m.v); boost(e,m.n,-m.v); for(int i=0;i<4;++i) sym_eq(e[i],v[i],"a boost and its opposite cancel"); }
// the theorem sin^2+cos^2=1 for the angle in use (the executor keeps sin and cos as unknown functions)
static double angle(){ double a=sym_real("angle"); if(!sym_is_native()) sym_assume(std::cos(a)*std::cos(a)+std::sin(a)*std::sin(a)==1); return a; }
static Mv axis(int i){ static const double A[6][3]={{1,2,2},{-2,3,6},{0,3,-4},{2,0,0},{4,4,-7},{-6,-6,7}}; return {T3(A[i][0],A[i][1],A[i][2]),0}; }
// a rotation is linear, so it is decided by what it does to the three unit vectors
GOAL(rotate_linear){ auto v=raw(8); Event e(12u); double x=sym_real("x"),y=sym_real("y"); for(int i=0;i<4;++i){ e[i]=v[i]; e[4+i]=v[4+i]; e[8+i]=x*v[i]+y*v[4+i]; } Mv m=motion(false); rotate(e,m.n,sym_real("angle")); for(int i=0;i<4;++i) sym_eq(e[8+i],x*e[i]+y*e[4+i],"linear in the momenta"); }
GOAL(rotate){ Event e(12u); for(int i=0;i<12;++i) e[i]=0; e[0]=e[5]=e[10]=1; Mv m=axis(sym_choose("axis",0,5)); double a=angle(); rotate(e,m.n,a); for(int i=0;i<3;++i) for(int j=0;j<=i;++j) sym_eq(e[4*i]*e[4*j]+e[4*i+1]*e[4*j+1]+e[4*i+2]*e[4*j+2],i==j,"a rotation keeps lengths and angles"); double det=e[0]*(e[5]*e[10]-e[6]*e[9])-e[1]*(e[4]*e[10]-e[6]*e[8])+e[2]*(e[4]*e[9]-e[5]*e[8]); sym_eq(det,1,"a rotation keeps handedness"); double n[3]={std::get<0>(m.n),std::get<1>(m.n),std::get<2>(m.n)}; for(int k=0;k<3;++k) sym_eq(e[k]*n[0]+e[4+k]*n[1]+e[8+k]*n[2],n[k],"the axis is fixed"); sym_eq(e[0]+e[5]+e[10],1+2*std::cos(a),"the angle is the one asked for"); }
GOAL(rotate_along){ auto v=raw(4); Event e(v.data(),4); Mv m=motion(false); double a=angle(); rotate(e,m.n,a); double nx=std::get<0>(m.n),ny=std::get<1>(m.n),nz=std::get<2>(m.n); sym_eq(e[0]*nx+e[1]*ny+e[2]*nz,v[0]*nx+v[1]*ny+v[2]*nz,"the axis is fixed"); sym_eq(e[3],v[3],"energy"); }
GOAL(rotate_axis){ auto v=raw(4); double k=sym_real("k",0.5,8); int ax=sym_choose("ax",0,2); double n[3]={0,0,0}; n[ax]=k; Event e(v.data(),4); double a=sym_real("angle"); rotate(e,T3(n[0],n[1],n[2]),a); int p=(ax+1)%3,q=(ax+2)%3; double c=std::cos(a),s=std::sin(a); sym_eq(e[p],c*v[p]-s*v[q],"anticlockwise by the angle asked for"); sym_eq(e[q],s*v[p]+c*v[q],"anticlockwise by the angle asked for"); sym_eq(e[ax],v[ax],"along the axis"); sym_eq(e[3],v[3],"energy"); }
GOAL(rotate_back){ Event e(12u); for(int i=0;i<12;++i) e[i]=0; e[0]=e[5]=e[10]=1; Mv m=axis(sym_choose("axis",0,5)); double a=angle(); rotate(e,m.n,a); double nx=std::get<0>(m.n),ny=std::get<1>(m.n),nz=std::get<2>(m.n); rotate(e,T3(-nx,-ny,-nz),a); for(int i=0;i<12;++i) sym_eq(e[i],i==0||i==5||i==10,"a rotation and its opposite cancel"); }
GOAL(basis){ auto v=raw(8); Event e(v.data(),8); double b[3][3]; for(int i=0;i<3;++i){ for(int j=0;j<3;++j) b[i][j]=sym_real(id("b",3*i+j).c_str()); sym_assume(b[i][0]*b[i][0]+b[i][1]*b[i][1]+b[i][2]*b[i][2]>0); } TVector3 p1(b[0][0],b[0][1],b[0][2]),p2(b[1][0],b[1][1],b[1][2]),p3(b[2][0],b[2][1],b[2][2]); rotateBasis(e,p1,p2,p3); const TVector3* P[3]={&p1,&p2,&p3}; for(int q=0;q<2;++q){ for(int i=0;i<3;++i) sym_eq(e[4*q+i]*P[i]->Mag(),b[i][0]*v[4*q]+b[i][1]*v[4*q+1]+b[i][2]*v[4*q+2],"component along the new axis"); sym_eq(e[4*q+3],v[4*q+3],"energy"); } }
// derived quantities
static double lam(double a,double b,double c){ return a*a+b*b+c*c-2*a*b-2*b*c-2*c*a; }
GOAL(from_event){ auto v=raw(12); Event e(v.data(),12); unsigned i=sym_choose("i",0,2),j=sym_choose("j",0,2); auto p=pFromEvent(e,i); auto q=pFromEvent(e,vector<unsigned>{i,j}); sym_eq(p.Px(),v[4*i],"px"); sym_eq(p.Py(),v[4*i+1],"py"); sym_eq(p.Pz(),v[4*i+2],"pz"); sym_eq(p.E(),v[4*i+3],"E"); sym_eq(q.Px(),v[4*i]+v[4*j],"sum px"); sym_eq(q.Py(),v[4*i+1]+v[4*j+1],"sum py"); sym_eq(q.Pz(),v[4*i+2]+v[4*j+2],"sum pz"); sym_eq(q.E(),v[4*i+3]+v[4*j+3],"sum E"); }
GOAL(breakup){ auto v=raw(12); int w=sym_choose("w",0,1); vector<unsigned> a={0},b=w?vector<unsigned>{1,2}:vector<unsigned>{1},ab=a; for(auto x:b) ab.push_back(x); double s=minv(v,ab),s1=minv(v,a),s2=minv(v,b); sym_assume(s>0); sym_assume(lam(s,s1,s2)>=0); Event e(v.data(),12); double q=MomentumTransfer(a,b)(e); sym_check(q>=0,"not negative"); sym_eq(4*s*q*q,lam(s,s1,s2),"the break-up momentum of two systems in their rest frame"); }
GOAL(dot_at_rest){ auto v=raw(8); double M=sym_real("M",1,10); TLorentzVector a(v.data()),b(v.data()+4),X(0,0,0,M); sym_eq(dotProduct(a,b,X),v[0]*v[4]+v[1]*v[5]+v[2]*v[6],"in the rest frame of X it is the product of the three-momenta"); }
GOAL(dot_invariant){ auto v=raw(12); Event e(v.data(),12); sym_assume(minv(v,{2})>0); auto d=[&](const Event& q){ return dotProduct(pFromEvent(q,0),pFromEvent(q,1),pFromEvent(q,2)); }; double b=d(e); double x=sym_real("vx"); sym_assume((x<1)&(x>-1)); int ax=sym_choose("ax",0,2); boost(e,T3(ax==0,ax==1,ax==2),x); sym_assume(minv(copyOf(e),{2})>0); sym_eq(d(e),b,"a frame-independent number"); }
GOAL(helicity){ auto v=raw(8); Event e(12u); for(int i=0;i<8;++i) e[i]=v[i]; double M=sym_real("M",1,10); e[8]=-(v[0]+v[4]); e[9]=-(v[1]+v[5]); e[10]=-(v[2]+v[6]); e[11]=M; sym_assume(M+v[3]+v[7]>0); double a=v[0]*v[0]+v[1]*v[1]+v[2]*v[2],b=v[4]*v[4]+v[5]*v[5]+v[6]*v[6]; sym_assume(a>0); sym_assume(b>0); double c=HelicityCosine(0,1,{0,1,2})(e),c2=HelicityCosine(vector<unsigned>{0},vector<unsigned>{1},vector<unsigned>{2,0,1})(e); double d=v[0]*v[4]+v[1]*v[5]+v[2]*v[6]; sym_eq(c*std::sqrt(a*b),d,"cosine of the angle between two particles in the rest frame of a third system"); sym_eq(c2*std::sqrt(a*b),d,"the same from lists"); vector<Event> l{e}; sym_eq(HelicityCosine(0,1,{0,1,2})(l.begin()),c,"from a list of events"); }
// angle between two decay planes, for planes through the z axis
static void planes(int which){ static const double A[6][2]={{1,0},{0,1},{-1,0},{0.6,0.8},{-0.8,0.6},{0.28,-0.96}}; double a=sym_real("a",0.5,2),k=1,l=2,c=sym_real("c",0.5,2),m=0.5,E=10; int q=sym_choose("angle",0,5); double x=A[q][0],y=A[q][1],one=sym_real("one"); sym_assume(one==1); double p[4][4]={{a,0,k,E},{-a,0,l,E+1},{c*x,c*y,m,E+2},{-c*x,-c*y,-(k+l+m),E+3}}; Event e(16u); static const int ord[3][4]={{0,1,2,3},{3,1,0,2},{0,1,3,2}}; int o= which==0? (int)sym_choose("order",0,1) : which==1? 2 : 0; for(int i=0;i<4;++i) for(int j=0;j<4;++j) e[4*ord[o][i]+j]=p[i][j]; if(which==2){ if(x==0) return; double r=acoplanarity(e); sym_eq(r,std::acos(-x*one),"angle between the normals"); return; } double r= which==1? PHI(e) : phi(e,ord[o][0],ord[o][1],ord[o][2],ord[o][3]); sym_eq(r,std::atan2(y*one,-x*one),"signed angle between the planes"); }
GOAL(phi){ planes(0); } GOAL(PHI){ planes(1); } GOAL(acoplanarity){ planes(2); }
