// C23: every lane of a vector operation is the scalar operation on that lane.
#include "util.h"
#include <numeric>
#include <array>
#include <cmath>
#include "AmpGen/simd/utils.h"
#include "AmpGen/Types.h"
#include "AmpGen/MetaUtils.h"
using namespace AmpGen; using std::vector; using std::array; namespace V=AmpGen::AVX2d;
typedef array<double,4> A4; typedef std::complex<double> C;
static A4 reals(const char* n){ A4 a; for(int i=0;i<4;++i){ std::string s(n); s+=char('0'+i); a[i]=sym_real(s.c_str()); } return a; }
static real_v mk(const A4& a){ return real_v(a.data()); }
static void eq(const real_v& v,const A4& x,const char* l){ for(int i=0;i<4;++i) sym_eq(v.at(i),x[i],l); }
template<class F> static A4 each(const A4& a,F f){ A4 r; for(int i=0;i<4;++i) r[i]=f(a[i]); return r; }
template<class F> static A4 each(const A4& a,const A4& b,F f){ A4 r; for(int i=0;i<4;++i) r[i]=f(a[i],b[i]); return r; }
GOAL(construct){ A4 a=reals("a"); eq(real_v(a[0],a[1],a[2],a[3]),a,"four values"); eq(real_v(a.data()),a,"from memory"); eq(real_v(a),a,"from array"); eq(real_v(a[1]),A4{a[1],a[1],a[1],a[1]},"broadcast"); real_v v=mk(a); A4 o; v.store(&o[0]); for(int i=0;i<4;++i) sym_eq(o[i],a[i],"store"); o=v.to_array(); for(int i=0;i<4;++i) sym_eq(o[i],a[i],"to_array"); for(int i=0;i<4;++i){ sym_eq(v.at(i),a[i],"at"); sym_eq(utils::at(v,i),a[i],"utils::at"); sym_eq(v.to_ptr()[i],a[i],"to_ptr"); } sym_eq(utils::get<0>(v),a[0],"get"); sym_eq(utils::get<1>(v),a[1],"get"); sym_eq(utils::get<2>(v),a[2],"get"); sym_eq(utils::get<3>(v),a[3],"get"); double buf[6]={9,9,9,9,9,9}; utils::store(buf+1,v); for(int i=0;i<4;++i) sym_eq(buf[i+1],a[i],"utils::store"); sym_check(buf[0]==9&&buf[5]==9,"store writes four values only"); sym_eq(utils::sum_elements(v),a[0]+a[1]+a[2]+a[3],"sum of elements"); sym_check(utils::size<real_v>::value==4&&utils::size<complex_v>::value==4&&utils::size<double>::value==1,"sizes"); }
GOAL(arithmetic){ A4 a=reals("a"),b=reals("b"); real_v x=mk(a),y=mk(b); eq(x+y,each(a,b,[](double p,double q){return p+q;}),"+"); eq(x-y,each(a,b,[](double p,double q){return p-q;}),"-"); eq(x*y,each(a,b,[](double p,double q){return p*q;}),"*"); eq(-x,each(a,[](double p){return -p;}),"negation"); real_v z=x; z+=y; eq(z,each(a,b,[](double p,double q){return p+q;}),"+="); z=x; z-=y; eq(z,each(a,b,[](double p,double q){return p-q;}),"-="); z=x; z*=y; eq(z,each(a,b,[](double p,double q){return p*q;}),"*="); eq(x*2.5,each(a,[](double p){return p*2.5;}),"times scalar"); eq(1.5-x,each(a,[](double p){return 1.5-p;}),"scalar minus"); A4 c=reals("c"); eq(V::fmadd(x,y,mk(c)),A4{a[0]*b[0]+c[0],a[1]*b[1]+c[1],a[2]*b[2]+c[2],a[3]*b[3]+c[3]},"fmadd"); eq(V::conj(x),a,"conj of a real"); }
GOAL(division){ A4 a=reals("a"),b=reals("b"); for(auto& q:b) sym_assume(q!=0); real_v x=mk(a),y=mk(b); eq(x/y,each(a,b,[](double p,double q){return p/q;}),"/"); real_v z=x; z/=y; eq(z,each(a,b,[](double p,double q){return p/q;}),"/="); eq(1./y,each(b,[](double q){return 1./q;}),"inverse"); }
GOAL(abs_sqrt){ A4 a=reals("a"); eq(V::abs(mk(a)),each(a,[](double p){return p<0?-p:p;}),"abs"); for(auto& q:a) sym_assume(q>=0); real_v r=V::sqrt(mk(a)); for(int i=0;i<4;++i){ sym_eq(r.at(i)*r.at(i),a[i],"sqrt squared"); sym_check(r.at(i)>=0,"sqrt is not negative"); } }
// comparison results used through select, all_of and the mask operators
template<class F,class G> static void cmp(F f,G g,const char* l){ A4 a=reals("a"),b=reals("b"),p=reals("p"),q=reals("q"); real_v m=f(mk(a),mk(b)); eq(V::select(m,mk(p),mk(q)),A4{g(a[0],b[0])?p[0]:q[0],g(a[1],b[1])?p[1]:q[1],g(a[2],b[2])?p[2]:q[2],g(a[3],b[3])?p[3]:q[3]},l); }
#define CMP(n,op) GOAL(compare_##n){ cmp([](const real_v& x,const real_v& y){ return x op y; },[](double x,double y){ return x op y; },#op); }
CMP(lt,<) CMP(gt,>) CMP(le,<=) CMP(ge,>=) CMP(eq,==)
GOAL(masks){ A4 a=reals("a"),b=reals("b"); int op=sym_choose("op",0,4); real_v m=mk(a)<mk(b), k=mk(a)>real_v(1.), r= op==0?(m&&k):op==1?(m||k):op==2?!m:op==3?(m&k):(m|k); real_v s=V::select(r,real_v(1.),real_v(0.)); for(int i=0;i<4;++i){ bool x=a[i]<b[i],y=a[i]>1, w= (op==0||op==3)?(x&y):op==2?!x:(x|y); if(w) sym_eq(s.at(i),1,"mask operators"); else sym_eq(s.at(i),0,"mask operators"); } }
GOAL(all_of){ A4 a=reals("a"),b=reals("b"); bool r=utils::all_of(mk(a)<mk(b)); bool w=(a[0]<b[0])&(a[1]<b[1])&(a[2]<b[2])&(a[3]<b[3]); sym_check(r==w,"all lanes"); bool e=utils::all_of(mk(a),real_v(2.)); bool f=(a[0]==2)&(a[1]==2)&(a[2]==2)&(a[3]==2); sym_check(e==f,"all lanes equal"); }
GOAL(select_forms){ A4 a=reals("a"),b=reals("b"),c=reals("c"),d=reals("d"),m=reals("m"); real_v k=mk(m)>0.; complex_v z(mk(a),mk(b)),w(mk(c),mk(d)); complex_v r=V::select(k,z,w),s=V::select(k,mk(a),w),t=V::select(k,z,mk(c)); bool B=sym_choose("B",0,1); complex_v u=V::select(B,z,w); real_v v=V::select(B,mk(a),mk(b)); for(int i=0;i<4;++i){ bool g=m[i]>0; if(g){ sym_eq(r.re.at(i),a[i],"re"); sym_eq(r.im.at(i),b[i],"im"); sym_eq(s.re.at(i),a[i],"re"); sym_eq(s.im.at(i),0,"im"); sym_eq(t.re.at(i),a[i],"re"); sym_eq(t.im.at(i),b[i],"im"); } else { sym_eq(r.re.at(i),c[i],"re"); sym_eq(r.im.at(i),d[i],"im"); sym_eq(s.re.at(i),c[i],"re"); sym_eq(s.im.at(i),d[i],"im"); sym_eq(t.re.at(i),c[i],"re"); sym_eq(t.im.at(i),0,"im"); } sym_eq(u.re.at(i),B?a[i]:c[i],"bool select"); sym_eq(u.im.at(i),B?b[i]:d[i],"bool select"); sym_eq(v.at(i),B?a[i]:b[i],"bool select"); } }
GOAL(sign){ A4 a=reals("a"); for(auto& x:a) sym_assume(x!=0); real_v s=V::sign(mk(a)); for(int i=0;i<4;++i){ if(a[i]>0) sym_eq(s.at(i),1,"sign"); else sym_eq(s.at(i),-1,"sign"); } }
// fmod: r = a - n b with n an integer towards zero, |r| < |b|, sign of a
GOAL(fmod){ A4 a=reals("a"),b=reals("b"); for(auto& q:b) sym_assume(q!=0); for(int i=1;i<4;++i){ sym_assume(a[i]>0); sym_assume(b[i]>0); } real_v m=V::fmod(mk(a),mk(b)); for(int i=0;i<2;++i){ double A=a[i]<0?-a[i]:a[i],B=b[i]<0?-b[i]:b[i]; double r=A-std::floor(A/B)*B; if(a[i]>=0) sym_eq(m.at(i),r,"fmod"); else sym_eq(m.at(i),-r,"fmod"); } }
GOAL(remainder){ A4 a=reals("a"),b=reals("b"); for(auto& q:b) sym_assume(q>0); real_v m=V::remainder(mk(a),mk(b)); for(int i=0;i<4;++i) sym_eq(m.at(i),a[i]-std::floor(a[i]/b[i])*b[i],"remainder"); }
#define FN(f) GOAL(fn_##f){ A4 a=reals("a"); eq(V::f(mk(a)),each(a,[](double x){ return std::f(x); }),#f); }
FN(sin) FN(cos) FN(exp) FN(log)
GOAL(fn_tan){ A4 a=reals("a"); eq(V::tan(mk(a)),each(a,[](double x){ return std::sin(x)/std::cos(x); }),"tan"); }
GOAL(fn_sincos){ A4 a=reals("a"); real_v s,c; V::sincos(mk(a),s,c); eq(s,each(a,[](double x){return std::sin(x);}),"sin"); eq(c,each(a,[](double x){return std::cos(x);}),"cos"); auto [p,q]=V::sincos(mk(a)); eq(p,each(a,[](double x){return std::sin(x);}),"sin"); eq(q,each(a,[](double x){return std::cos(x);}),"cos"); }
GOAL(fn_atan2){ A4 a=reals("a"),b=reals("b"); eq(V::atan2(mk(a),mk(b)),each(a,b,[](double y,double x){ return std::atan2(y,x); }),"atan2"); }
GOAL(to_int){ static const double t[]={0,0.5,1,1.25,2,2.75,3,3.999,7,100.5,-1,-1.5}; int i=sym_choose("i",0,11),j=sym_choose("j",0,11); auto r=V::store(real_v(t[i],t[j],4.5,t[i]).to_int()); sym_check(r[0]==(long)std::floor(t[i])&&r[1]==(long)std::floor(t[j])&&r[2]==4&&r[3]==r[0],"conversion to integer"); }
GOAL(gather){ double tab[8]; for(int i=0;i<8;++i){ std::string s("t"); s+=char('0'+i); tab[i]=sym_real(s.c_str()); } static const double f[]={0,0.25,0.5,0.999}; int i=sym_choose("i",0,7),j=sym_choose("j",0,7),k=sym_choose("f",0,3); real_v v=V::gather(tab,real_v(i+f[k],j,j+f[k],i)); sym_eq(v.at(0),tab[i],"gather"); sym_eq(v.at(1),tab[j],"gather"); sym_eq(v.at(2),tab[j],"gather"); sym_eq(v.at(3),tab[i],"gather"); }
GOAL(gather_container){ int n=sym_choose("n",1,6),off=sym_choose("off",0,5); sym_assume(off<n); vector<double> c(n); for(int i=0;i<n;++i){ std::string s("c"); s+=char('0'+i); c[i]=sym_real(s.c_str()); } real_v v=utils::gather<real_v>(c,[](double x){ return 2*x+1; },off); real_v w=utils::gather<real_v>(c,[](double x){ return 2*x+1; },off,7.); for(int k=0;k<4;++k){ int i=off+k; sym_eq(v.at(k),2*c[i<n?i:n-1]+1,"gather repeats the last element"); sym_eq(w.at(k),i<n?2*c[i]+1:7.,"gather pads with the default"); } }
// complex numbers
struct Z4 { A4 r,i; Z4(const char* n):r(reals((std::string(n)+"r").c_str())),i(reals((std::string(n)+"i").c_str())){} complex_v v() const { return complex_v(mk(r),mk(i)); } C at(int k) const { return C(r[k],i[k]); } };
static void ceq(const complex_v& v,int k,double re,double im,const char* l){ sym_eq(v.re.at(k),re,l); sym_eq(v.im.at(k),im,l); }
GOAL(complex_construct){ A4 a=reals("a"); double x=sym_real("x"),y=sym_real("y"); complex_v z(mk(a)); complex_v u(C(x,y)); complex_v w(mk(a),2.5); complex_v t=utils::is_complex_type<complex_v>::value? detail::make_complex<complex_v>(mk(a)) : z; for(int k=0;k<4;++k){ ceq(z,k,a[k],0,"a real number has no imaginary part"); ceq(u,k,x,y,"from a scalar complex number"); ceq(w,k,a[k],2.5,"real and imaginary part"); ceq(t,k,a[k],0,"make_complex"); auto q=utils::at(u,k); sym_eq(q.real(),x,"at"); sym_eq(q.imag(),y,"at"); } auto g=utils::get<2>(z); sym_eq(g.real(),a[2],"get"); sym_eq(g.imag(),0,"get"); sym_check(sizeof(complex_v)==2*sizeof(real_v),"layout"); }
GOAL(complex_arithmetic){ Z4 a("a"),b("b"); complex_v x=a.v(),y=b.v(); complex_v s=x+y,d=x-y,p=x*y,n=-x,c=conj(x); complex_v s2=x,d2=x,p2=x; s2+=y; d2-=y; p2*=y; for(int k=0;k<4;++k){ double ar=a.r[k],ai=a.i[k],br=b.r[k],bi=b.i[k]; ceq(s,k,ar+br,ai+bi,"+"); ceq(d,k,ar-br,ai-bi,"-"); ceq(p,k,ar*br-ai*bi,ar*bi+ai*br,"*"); ceq(n,k,-ar,-ai,"negation"); ceq(c,k,ar,-ai,"conj"); ceq(s2,k,ar+br,ai+bi,"+="); ceq(d2,k,ar-br,ai-bi,"-="); ceq(p2,k,ar*br-ai*bi,ar*bi+ai*br,"*="); sym_eq(real(x).at(k),ar,"real"); sym_eq(imag(x).at(k),ai,"imag"); sym_eq(norm(x).at(k),ar*ar+ai*ai,"norm"); sym_eq(x.norm().at(k),ar*ar+ai*ai,"norm"); sym_eq(utils::norm(x).at(k),ar*ar+ai*ai,"utils::norm"); } }
GOAL(complex_division){ Z4 a("a"),b("b"); for(int k=0;k<4;++k) sym_assume(b.r[k]*b.r[k]+b.i[k]*b.i[k]>0); complex_v q=a.v()/b.v(),q2=a.v(); q2/=b.v(); complex_v r=q*b.v(),r2=q2*b.v(); for(int k=0;k<4;++k){ ceq(r,k,a.r[k],a.i[k],"(a/b)*b"); ceq(r2,k,a.r[k],a.i[k],"/="); } }
GOAL(complex_mixed){ Z4 a("a"); A4 b=reals("b"); for(auto& x:b) sym_assume(x!=0); complex_v x=a.v(); real_v y=mk(b); complex_v s=x+y,d=x-y,p=x*y,q=x/y,s2=y+x,d2=y-x,p2=y*x; for(int k=0;k<4;++k){ double r=a.r[k],i=a.i[k],t=b[k]; ceq(s,k,r+t,i,"c+r"); ceq(d,k,r-t,i,"c-r"); ceq(p,k,r*t,i*t,"c*r"); ceq(q,k,r/t,i/t,"c/r"); ceq(s2,k,r+t,i,"r+c"); ceq(d2,k,t-r,-i,"r-c"); ceq(p2,k,r*t,i*t,"r*c"); } double z=sym_real("z"); sym_assume(z!=0); complex_v S=x+z,D=z-x,P=z*x,Q=x/z,P3=x*z; for(int k=0;k<4;++k){ double r=a.r[k],i=a.i[k]; ceq(S,k,r+z,i,"c+d"); ceq(D,k,z-r,-i,"d-c"); ceq(P,k,r*z,i*z,"d*c"); ceq(Q,k,r/z,i/z,"c/d"); ceq(P3,k,r*z,i*z,"c*d"); } }
GOAL(complex_inverse){ Z4 a("a"); A4 b=reals("b"); for(int k=0;k<4;++k) sym_assume(a.r[k]*a.r[k]+a.i[k]*a.i[k]>0); complex_v q=mk(b)/a.v()*a.v(),q2=2./a.v()*a.v(); for(int k=0;k<4;++k){ ceq(q,k,b[k],0,"(r/c)*c"); ceq(q2,k,2,0,"(d/c)*c"); } }
GOAL(complex_abs){ Z4 a("a"); real_v m=abs(a.v()); for(int k=0;k<4;++k){ sym_eq(m.at(k)*m.at(k),a.r[k]*a.r[k]+a.i[k]*a.i[k],"modulus squared"); sym_check(m.at(k)>=0,"modulus"); } }
// principal square root: s*s=z, Re s>=0, and Im s>=0 where Re s=0 (as std::sqrt)
GOAL(complex_sqrt){ Z4 a("a"); for(int k=1;k<4;++k){ sym_assume(a.r[k]==k); sym_assume(a.i[k]==0); } complex_v s=sqrt(a.v()); double x=s.re.at(0),y=s.im.at(0); sym_eq(x*x-y*y,a.r[0],"real part of the square"); sym_eq(2*x*y,a.i[0],"imaginary part of the square"); sym_check(x>=0,"principal branch"); if(x==0) sym_check(y>=0,"principal branch on the cut"); for(int k=1;k<4;++k){ sym_eq(s.im.at(k),0,"other lanes"); sym_eq(s.re.at(k)*s.re.at(k),k,"other lanes"); } }
GOAL(complex_exp_log){ Z4 a("a"); complex_v e=exp(a.v()); for(int k=0;k<4;++k) ceq(e,k,std::exp(a.r[k])*std::cos(a.i[k]),std::exp(a.r[k])*std::sin(a.i[k]),"exp"); complex_v l=log(a.v()); for(int k=0;k<4;++k) ceq(l,k,0.5*std::log(a.r[k]*a.r[k]+a.i[k]*a.i[k]),std::atan2(a.i[k],a.r[k]),"log"); }
