// C03: tensor algebra.
#include "harness.h"
using namespace AmpGen; using namespace va;
typedef std::vector<unsigned> U;
static U coordsOf(unsigned i, const U& d){ U c(d.size()); for(int k=int(d.size())-1;k>=0;--k){ c[k]=i%d[k]; i/=d[k]; } return c; }
static unsigned vol(const U& d){ unsigned v=1; for(auto x:d) v*=x; return v; }
static unsigned flat(const U& c,const U& d){ unsigned v=0; for(size_t i=0;i<d.size();++i) v=v*d[i]+c[i]; return v; }
static Expression el(const std::string& n, const U& c, const U& d){ return sym(n+"_"+std::to_string(flat(c,d))); }
static Tensor T(const std::string& n,const U& d){ 
  std::vector<Expression> v; for(unsigned i=0;i<vol(d);++i) v.push_back(sym(n+"_"+std::to_string(i))); return Tensor(v,d); }
static int msign(unsigned c){ return c==3?1:-1; }

int main(int argc,char** argv){
  Harness H(argc,argv,"C03");
  // --- named index products: every partial matching of index positions x relative variance
  struct Case{ U d1,d2; };
  std::vector<Case> cases = { {{4},{4}}, {{4,4},{4}}, {{4},{4,4}}, {{4,4},{4,4}}, {{2,3},{3,2}}, {{3,3},{3,3}}, {{2,2,2},{2,2}}, {{2,2},{2,2,2}}, {{2,2,2},{2,2,2}}, {{4,4,4},{4}}, {{4},{4,4,4}}, {{4,2,2},{2,4}}, {{4,2,2},{4,2}} , {{2,3,4},{4,3,2}}};
  if( !H.quick ){ cases.push_back({{4,4,4},{4,4}}); cases.push_back({{4,4},{4,4,4}}); cases.push_back({{4,4,4},{4,4,4}}); cases.push_back({{4,4,4,4},{4,4}}); cases.push_back({{4,4},{4,4,4,4}}); cases.push_back({{4,4,4,4},{4}}); cases.push_back({{2,2,2,2},{2,2,2,2}});} 
  for( auto& c : cases ){
    unsigned r1=c.d1.size(), r2=c.d2.size();
    std::vector<std::vector<int>> matchings; std::vector<int> cur(r1,-1);
    std::function<void(unsigned,unsigned)> rec=[&](unsigned i,unsigned used){
      if(i==r1){ matchings.push_back(cur); return; }
      cur[i]=-1; rec(i+1,used);
      for(unsigned j=0;j<r2;++j) if(!(used>>j&1) && c.d1[i]==c.d2[j]){ cur[i]=j; rec(i+1,used|1u<<j);} cur[i]=-1; };
    rec(0,0);
    for( auto& m : matchings ){
      unsigned nc=0; for(auto x:m) if(x>=0) nc++;
      unsigned nfree = 1; for(unsigned i=0;i<r1;++i) if(m[i]<0) nfree*=c.d1[i]; 
      for(unsigned j=0;j<r2;++j){ bool b=false; for(auto x:m) if(x==int(j)) b=true; if(!b) nfree*=c.d2[j]; }
      if( H.quick && nfree>300 ) continue;
      for( unsigned sg=0; sg<(1u<<nc); ++sg ){
        std::string id="prod_"; for(auto x:c.d1) id+=std::to_string(x); id+="x"; for(auto x:c.d2) id+=std::to_string(x); id+="_m"; for(auto x:m) id+= x<0?"-":std::to_string(x); id+="_v"+std::to_string(sg);
        H.add(id,[=]{
          std::vector<Pair> out;
          Tensor A=T("a",c.d1), B=T("b",c.d2);
          std::vector<Tensor::Index> i1,i2; for(unsigned i=0;i<r1;++i) i1.push_back(Tensor::Index(i%2)); for(unsigned j=0;j<r2;++j) i2.push_back(Tensor::Index());
          unsigned k=0; std::vector<int> metric(r1,0);
          for(unsigned i=0;i<r1;++i) if(m[i]>=0){ bool opp=sg>>k&1; k++; i2[m[i]] = opp ? -i1[i] : i1[i]; metric[i]=opp; }
          TensorProxy P = A(i1)*B(i2);
          Tensor R = P;
          U fd; std::vector<std::pair<int,int>> src; std::vector<Tensor::Index> expectIdx;
          for(unsigned i=0;i<r1;++i) if(m[i]<0){ fd.push_back(c.d1[i]); src.push_back({1,i}); expectIdx.push_back(i1[i]); }
          for(unsigned j=0;j<r2;++j){ bool used=false; for(auto x:m) if(x==int(j)) used=true; if(!used){ fd.push_back(c.d2[j]); src.push_back({2,j}); expectIdx.push_back(i2[j]); } }
          bool shape = R.size()==vol(fd) && P.indices().size()==expectIdx.size();
          for(size_t i=0;shape && i<expectIdx.size();++i) if(P.indices()[i]!=expectIdx[i] || P.indices()[i].isUpper()!=expectIdx[i].isUpper()) shape=false;
          for(size_t i=0;shape && i<fd.size();++i) if(R.dims()[i]!=fd[i]) shape=false;
          out.push_back({Expression(shape?1.:0.),Expression(1.),"shape and free indices"});
          if(!shape) return out;
          U cd; std::vector<int> ci; for(unsigned i=0;i<r1;++i) if(m[i]>=0){ cd.push_back(c.d1[i]); ci.push_back(i); }
          for(unsigned f=0;f<vol(fd);++f){
            U fc=coordsOf(f,fd); U c1(r1),c2(r2);
            for(size_t q=0;q<src.size();++q){ if(src[q].first==1) c1[src[q].second]=fc[q]; else c2[src[q].second]=fc[q]; }
            Expression sum=0;
            for(unsigned s=0;s<vol(cd);++s){ U sc=coordsOf(s,cd); int sign=1;
              for(size_t q=0;q<ci.size();++q){ c1[ci[q]]=sc[q]; c2[m[ci[q]]]=sc[q]; if(metric[ci[q]]) sign*=msign(sc[q]); }
              sum = sum + double(sign)*el("a",c1,c.d1)*el("b",c2,c.d2); }
            out.push_back({ fd.empty()? R[0] : R[fc], sum, Tensor::coordinates_to_string(fc) });
          }
          return out; });
      }
    }
  }
  // --- permuted addition / subtraction / reorder of named-index tensors
  std::vector<U> perms3 = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
  for( unsigned d : {2u,4u} ) for( auto& p : perms3 ) for( int op=0; op<3; ++op ){
    if( H.quick && d==4 && op==1 ) continue;
    std::string id = std::string(op==0?"add":op==1?"sub":"reorder")+"_d"+std::to_string(d)+"_p"+std::to_string(p[0])+std::to_string(p[1])+std::to_string(p[2]);
    H.add(id,[=]{
      std::vector<Pair> out; U dd={d,d,d};
      Tensor A=T("a",dd), B=T("b",dd);
      std::vector<Tensor::Index> ix={Tensor::Index(),Tensor::Index(),Tensor::Index()};
      std::vector<Tensor::Index> iy={ix[p[0]],ix[p[1]],ix[p[2]]};
      // B carries index ix[p[k]] in slot k
      Tensor R = op==0 ? A(ix)+B(iy) : op==1 ? A(ix)-B(iy) : B(iy).reorder(ix);
      for(unsigned i=0;i<vol(dd);++i){ U c=coordsOf(i,dd); U cb={c[p[0]],c[p[1]],c[p[2]]};
        Expression b = el("b",cb,dd), a = el("a",c,dd);
        out.push_back({R[c], op==0? a+b : op==1 ? a-b : b, Tensor::coordinates_to_string(c)}); }
      return out; });
  }
  for( unsigned pp=0; pp<2; ++pp ) for( int op=0;op<3;++op ) H.add(std::string(op==0?"add":op==1?"sub":"reorder")+"_rank2_p"+std::to_string(pp),[=]{
      std::vector<Pair> out; U dd={4,4}; Tensor A=T("a",dd), B=T("b",dd);
      std::vector<Tensor::Index> ix={Tensor::Index(),Tensor::Index()}; std::vector<Tensor::Index> iy= pp? std::vector<Tensor::Index>{ix[1],ix[0]} : ix;
      Tensor R = op==0 ? A(ix)+B(iy) : op==1 ? A(ix)-B(iy) : B(iy).reorder(ix);
      for(unsigned i=0;i<16;++i){ U c=coordsOf(i,dd); U cb= pp ? U{c[1],c[0]} : c; Expression b=el("b",cb,dd), a=el("a",c,dd);
        out.push_back({R[c], op==0? a+b : op==1 ? a-b : b, Tensor::coordinates_to_string(c)}); }
      return out; });
  if( true ) for( auto& p : std::vector<U>{{3,0,1,2},{1,2,3,0},{2,3,0,1},{0,3,1,2},{3,2,1,0}} ) for( int op=0; op<2; ++op ) H.add(std::string(op?"reorder":"add")+"_rank4_"+std::to_string(p[0])+std::to_string(p[1])+std::to_string(p[2])+std::to_string(p[3]),[=]{
      std::vector<Pair> out; U dd={2,2,2,2}; Tensor A=T("a",dd), B=T("b",dd);
      std::vector<Tensor::Index> ix(4); for(auto& q:ix) q=Tensor::Index(); std::vector<Tensor::Index> iy={ix[p[0]],ix[p[1]],ix[p[2]],ix[p[3]]};
      Tensor R = op ? Tensor(B(iy).reorder(ix)) : Tensor(A(ix)+B(iy));
      for(unsigned i=0;i<16;++i){ U c=coordsOf(i,dd); U cb={c[p[0]],c[p[1]],c[p[2]],c[p[3]]}; 
        out.push_back({R[c], op ? el("b",cb,dd) : el("a",c,dd)+el("b",cb,dd), Tensor::coordinates_to_string(c)}); }
      return out; });
  // --- element-wise operations
  H.add("elementwise",[=]{
    std::vector<Pair> out; U dd={3,4}; Tensor A=T("a",dd), B=T("b",dd); Expression s=sym("s");
    Tensor::Index i,j; 
    auto chk=[&](const Tensor& R, std::function<Expression(Expression,Expression)> f, const std::string& l){
      if( R.size()!=12 || R.dims()!=dd ){ out.push_back({Expression(0.),Expression(1.),l+" shape"}); return; }
      for(unsigned k=0;k<12;++k){ U c=coordsOf(k,dd); out.push_back({R[c], f(el("a",c,dd),el("b",c,dd)), l+Tensor::coordinates_to_string(c)}); } };
    chk(A+B,[](auto a,auto b){return a+b;},"+"); chk(A-B,[](auto a,auto b){return a-b;},"-");
    chk(s*A,[&](auto a,auto b){return s*a;},"s*"); chk(A*s,[&](auto a,auto b){return s*a;},"*s"); chk(A/s,[&](auto a,auto b){return a/s;},"/s");
    chk(3.*A,[&](auto a,auto b){return 3*a;},"3*"); chk(A*3.,[&](auto a,auto b){return 3*a;},"*3"); chk(A/4.,[&](auto a,auto b){return a/4.;},"/4"); chk(-A,[&](auto a,auto b){return -1*a;},"neg");
    { Tensor C=A; C+=B; chk(C,[](auto a,auto b){return a+b;},"+="); C=A; C-=B; chk(C,[](auto a,auto b){return a-b;},"-="); C=A; C.st(); chk(C,[](auto a,auto b){return a;},"st"); C=A; C.st(true); chk(C,[](auto a,auto b){return a;},"st(true)"); }
    chk(Tensor(A(i,j)*s),[&](auto a,auto b){return a*s;},"proxy*s"); chk(Tensor(s*A(i,j)),[&](auto a,auto b){return a*s;},"s*proxy"); chk(Tensor(A(i,j)/s),[&](auto a,auto b){return a/s;},"proxy/s");
    chk(Tensor(A(i,j)*3.),[&](auto a,auto b){return a*3.;},"proxy*3"); chk(Tensor(3.*A(i,j)),[&](auto a,auto b){return a*3.;},"3*proxy"); chk(Tensor(A(i,j)/3.),[&](auto a,auto b){return a/3.;},"proxy/3");
    return out; });
  for(U dd : std::vector<U>{{2,3},{4},{4,4,4},{4,4,4,4},{1}}) H.add(dd.size()==2?std::string("conjugate"):"conjugate_rank"+std::to_string(dd.size())+"_"+std::to_string(dd[0]),[=]{ std::vector<Pair> out; Tensor A=symTensor("z",dd,true); Tensor C=A.conjugate(); std::complex<double> I(0,1);
    for(unsigned k=0;k<vol(dd);++k){ auto n="z_"+std::to_string(k); out.push_back({C[coordsOf(k,dd)], sym(n+"_re")-I*sym(n+"_im"), std::to_string(k)}); } return out; });
  // --- full contraction
  for( unsigned r=1;r<=3;++r ) H.add("dot_rank"+std::to_string(r),[=]{ U dd(r,4); Tensor A=T("a",dd),B=T("b",dd); Expression s=0;
    for(unsigned k=0;k<vol(dd);++k){ U c=coordsOf(k,dd); int sg=1; for(auto x:c) sg*=msign(x); s=s+double(sg)*el("a",c,dd)*el("b",c,dd); }
    return std::vector<Pair>{{dot(A,B),s,"dot"}}; });
  H.add("dot_scalar",[=]{ return std::vector<Pair>{{dot(T("a",{1}),T("b",{1})), sym("a_0")*sym("b_0"),"dot"}}; });
  H.add("metricSgn",[=]{ std::vector<Pair> out; U dd={4,4,4}; Tensor A=T("a",dd); for(unsigned k=0;k<64;++k){ U c=coordsOf(k,dd); int sg=1; for(auto x:c) sg*=msign(x);
     out.push_back({Expression(double(A.metricSgn(c))),Expression(double(sg)),"c"}); out.push_back({Expression(double(A.metricSgn(k))),Expression(double(sg)),"i"}); } return out; });
  // --- inverse: A * A^-1 = A^-1 * A = 1
  for( unsigned n=1;n<=(H.quick?4u:5u);++n ) H.add("inverse_"+std::to_string(n),[=]{ U dd={n,n}; Tensor A=T("a",dd); Tensor V=A.Invert(); std::vector<Pair> out;
    if( n<=3 || !H.quick ){ for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j){ Expression s=0; for(unsigned k=0;k<n;++k) s=s+V[U{i,k}]*A[U{k,j}]; out.push_back({s,Expression(i==j?1.:0.),"VA"}); } }
    for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j){ Expression s=0; for(unsigned k=0;k<n;++k) s=s+A[U{i,k}]*V[U{k,j}]; out.push_back({s,Expression(i==j?1.:0.),"AV"}); }
    return out; });
  // larger matrices: integers whose elimination is exact (pivots are powers of two) and three symbolic entries in the last row and column
  for( unsigned n=5;n<=(H.quick?6u:8u);++n ) for(unsigned w=0;w<3;++w) H.add("inverse_"+std::to_string(n)+"_partly_symbolic_"+std::to_string(w),[=]{
    auto lo=[](unsigned i,unsigned j){ return i<j?0:i==j?double(1<<(i%3)):double(int((7*i+5*j)%5)-2); }; auto up=[](unsigned i,unsigned j){ return i>j?0:i==j?1.:double(int((3*i+4*j)%5)-2); };
    Tensor A(Tensor::dim(n,n)); for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j){ double x=0; for(unsigned k=0;k<n;++k) x+=lo(i,k)*up(k,j); A(i,j)=Expression(x); }
    if(w==0){ A(n-1,0)=sym("a"); A(n-1,n/2)=sym("b"); A(n-1,n-1)=sym("c"); } if(w==1){ A(0,n-1)=sym("a"); A(n/2,n-1)=sym("b"); A(n-1,n-1)=sym("c"); } if(w==2){ A(n-1,1)=sym("a"); A(1,n-1)=sym("b"); A(n-1,n-2)=sym("c"); }
    Tensor V=A.Invert(); std::vector<Pair> out;
    for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j){ Expression s=0; for(unsigned k=0;k<n;++k) s=s+A[U{i,k}]*V[U{k,j}]; out.push_back({s,Expression(i==j?1.:0.),"AV"}); }
    return out; });
  // --- index <-> coordinates
  H.add("coordinates",[=]{ std::vector<Pair> out; for( auto& dd : std::vector<U>{{5},{2,3},{4,4},{3,1,2},{2,3,4},{4,4,4,4},{2,1,3,2}} ) for(unsigned k=0;k<vol(dd);++k){
     U c=coordsOf(k,dd); out.push_back({Expression(Tensor::index_to_coordinates(k,dd)==c?1.:0.),Expression(1.),"i2c"}); out.push_back({Expression(double(Tensor::coordinates_to_index(c,dd))),Expression(double(k)),"c2i"});
     Tensor t(dd); out.push_back({Expression(t.coords(k)==c?1.:0.),Expression(1.),"coords"}); out.push_back({Expression(double(t.index(c))),Expression(double(k)),"index"}); } return out; });
  H.add("access",[=]{ std::vector<Pair> out; U dd={3,4}; Tensor A=T("a",dd); const Tensor& K=A; for(unsigned k=0;k<12;++k){ U c=coordsOf(k,dd); auto e=el("a",c,dd);
     out.push_back({A[k],e,"[i]"}); out.push_back({A[c],e,"[c]"}); out.push_back({K[k],e,"c[i]"}); out.push_back({K[c],e,"c[c]"}); out.push_back({A(c[0],c[1]),e,"()"}); out.push_back({K(c[0],c[1]),e,"c()"}); out.push_back({A.get(k),e,"get"}); out.push_back({K.get(c),e,"get c"});
     Tensor W=A; W[c]=sym("new"); for(unsigned q=0;q<12;++q) out.push_back({W[q], q==k? sym("new") : el("a",coordsOf(q,dd),dd),"write"}); } return out; });
  // --- declared symmetries: every permuted coordinate reads/writes the same element, nothing else changes
  for( auto& dd : std::vector<U>{{3,3},{4,4},{3,3,3},{2,3,3},{3,2,3},{2,2,2,2},{3,3,3,3}} ){
    for( unsigned mask=0; mask<(1u<<dd.size()); ++mask ){ U idx; for(unsigned i=0;i<dd.size();++i) if(mask>>i&1) idx.push_back(i); if(idx.size()<2) continue; bool same=true; for(auto i:idx) if(dd[i]!=dd[idx[0]]) same=false; if(!same) continue;
      std::string id="symmetry_"; for(auto x:dd) id+=std::to_string(x); id+="_"; for(auto i:idx) id+=std::to_string(i);
      H.add(id,[=]{ std::vector<Pair> out; 
        // canonical element per orbit = sorted coordinates; start from a tensor that has the symmetry
        auto canon=[&](U c){ U v; for(auto i:idx) v.push_back(c[i]); std::sort(v.begin(),v.end()); for(size_t q=0;q<idx.size();++q) c[idx[q]]=v[q]; return c; };
        std::vector<Expression> els; for(unsigned k=0;k<vol(dd);++k) els.push_back(el("a",canon(coordsOf(k,dd)),dd));
        Tensor A(els,dd); A.imposeSymmetry(idx);
        for(unsigned k=0;k<vol(dd);++k){ U c=coordsOf(k,dd); out.push_back({A[c],el("a",canon(c),dd),"read"}); out.push_back({A[k],el("a",canon(c),dd),"read i"}); }
        std::set<U> orbits; for(unsigned k=0;k<vol(dd);++k) orbits.insert(canon(coordsOf(k,dd)));
        std::set<unsigned> uniq(A.uniqueElements().begin(),A.uniqueElements().end()); std::set<U> cov; for(auto u:uniq) cov.insert(canon(coordsOf(u,dd)));
        out.push_back({Expression(double(uniq.size())),Expression(double(orbits.size())),"number of unique elements"}); out.push_back({Expression(double(cov.size())),Expression(double(orbits.size())),"every orbit represented"});
        if( vol(dd)<=27 ) for(unsigned k=0;k<vol(dd);++k){ Tensor W=A; U c=coordsOf(k,dd); W[c]=sym("new"); for(unsigned q=0;q<vol(dd);++q){ U e=coordsOf(q,dd); out.push_back({W[e], canon(e)==canon(c)? sym("new") : el("a",canon(e),dd),"write"}); } }
        // sums of symmetric tensors
        std::vector<Expression> elb; for(unsigned k=0;k<vol(dd);++k) elb.push_back(el("b",canon(coordsOf(k,dd)),dd)); Tensor B(elb,dd); B.imposeSymmetry(idx);
        std::vector<Tensor::Index> ix(dd.size()); for(auto& q:ix) q=Tensor::Index(); Tensor S=A(ix)+B(ix); Tensor S2=A+B;
        for(unsigned k=0;k<vol(dd);++k){ U c=coordsOf(k,dd); Expression e=el("a",canon(c),dd)+el("b",canon(c),dd); out.push_back({S[c],e,"sum"}); out.push_back({S2[c],e,"sum2"}); }
        return out; }); } }
  // --- permutation symbol and identity
  for( unsigned n=2;n<=(H.quick?4u:5u);++n ) H.add("levicivita_"+std::to_string(n),[=]{ std::vector<Pair> out; Tensor L=LeviCivita(n); U dd(n,n);
    for(unsigned k=0;k<vol(dd);++k){ U c=coordsOf(k,dd); int s=1; for(unsigned i=0;i<n;++i) for(unsigned j=i+1;j<n;++j){ if(c[i]==c[j]) s=0; else if(c[i]>c[j]) s=-s; } out.push_back({L[c],Expression(double(s)),Tensor::coordinates_to_string(c)}); } return out; });
  H.add("levicivita_determinant",[=]{ // eps contracted with four arbitrary vectors is the determinant, antisymmetric under exchange
    std::vector<Pair> out; Tensor L=LeviCivita(); Tensor A=T("a",{4,4}); Tensor::Index m,n,a,b;
    auto row=[&](int i){ std::vector<Expression> v; for(int j=0;j<4;++j) v.push_back(sym("a_"+std::to_string(4*i+j))); return Tensor(v,U{4}); };
    Expression e = L(m,n,a,b)*row(0)(m)*row(1)(n)*row(2)(a)*row(3)(b); Expression f = L(m,n,a,b)*row(1)(m)*row(0)(n)*row(2)(a)*row(3)(b);
    U p={0,1,2,3}; Expression det=0; do { int s=1; for(int i=0;i<4;++i) for(int j=i+1;j<4;++j) if(p[i]>p[j]) s=-s; Expression t=double(s); for(int i=0;i<4;++i) t=t*sym("a_"+std::to_string(4*i+p[i])); det=det+t; } while(std::next_permutation(p.begin(),p.end()));
    out.push_back({e,det,"det"}); out.push_back({f,-det,"exchange"}); return out; });
  for( unsigned n=1;n<=5;++n ) H.add("identity_"+std::to_string(n),[=]{ std::vector<Pair> out; Tensor I=Identity(n); for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) out.push_back({I[U{i,j}],Expression(i==j?1.:0.),"I"}); return out; });
  H.run();
}
