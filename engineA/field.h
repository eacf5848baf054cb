// Engine A : encoding of AmpGen expression trees (see field_core.h for the arithmetic).
#pragma once
#include "field_core.h"
#include "AmpGen/Expression.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/Spline.h"

namespace va {
using AmpGen::Expression;
using AmpGen::Tensor;

// children of a node
inline std::vector<Expression> children(const Expression& e){
  using namespace AmpGen; const IExpression* p=e.get(); std::vector<Expression> c;
  if( auto x = dynamic_cast<const SubTree*>(p) ) c={x->expression()};
  else if( auto x = dynamic_cast<const Ternary*>(p) ) c={x->m_cond,x->m_v1,x->m_v2};
  else if( auto x = dynamic_cast<const IBinaryExpression*>(p) ) c={x->l(),x->r()};
  else if( auto x = dynamic_cast<const IUnaryExpression*>(p) ) c={x->arg()};
  return c;
}
// put parameter values into a tree (parameters carry the value their evaluation returns)
inline void bindParameters(const Expression& e, const std::map<std::string,double>& v){
  using namespace AmpGen;
  std::set<const IExpression*> seen; std::vector<Expression> st{e};
  auto set=[&](const Parameter* q){ auto it=v.find(q->name()); if(it!=v.end()) const_cast<Parameter*>(q)->m_defaultValue=it->second; };
  while(!st.empty()){ Expression x=st.back(); st.pop_back(); if(!seen.insert(x.get()).second) continue;
    if( auto q=dynamic_cast<const Parameter*>(x.get()) ) set(q);
    else if( auto q=dynamic_cast<const ComplexParameter*>(x.get()) ){ set(&q->m_real); set(&q->m_imag); }
    for(auto& c:children(x)) st.push_back(c); }
}

class Field : public FieldCore {
public:
  std::map<const AmpGen::IExpression*, Num> memo;
  std::vector<Expression> keep;                // keeps visited nodes alive so addresses stay unique
  std::function<int(Field&, const AmpGen::Ternary&)> ternary;   // 1: take first branch, 0: second
  // conditions that hold in the region of the sample point (they bound the search for counter-examples)
  void region(const Num& n, bool positive){
    if( n.c.size()!=1 || n.c.begin()->first!=0 ) return;
    z3::expr e = n.c.begin()->second; for( auto& [a,m] : n.den ) if( m%2 ) e = e*atoms[a];
    domain.push_back( positive ? e>0 : e<0 );
  }
  void condition(const Expression& c, bool yes){
    using namespace AmpGen; const IExpression* p=c.get();
    auto b = dynamic_cast<const IBinaryExpression*>(p); if( !b ) return;
    if( dynamic_cast<const And*>(p) ){ if( yes ){ condition(b->l(),true); condition(b->r(),true); } return; }
    if( dynamic_cast<const Or*>(p) ){ if( !yes ){ condition(b->l(),false); condition(b->r(),false); } return; }
    bool gt = dynamic_cast<const GreaterThan*>(p) || dynamic_cast<const GreaterThanEqualTo*>(p), lt = dynamic_cast<const LessThan*>(p) || dynamic_cast<const LessThanEqualTo*>(p);
    if( gt||lt ) region( add(enc(b->l()),enc(b->r()),-1), gt==yes );
  }
  Num enc(const Expression& e){
    using namespace AmpGen;
    const IExpression* p = e.get();
    auto it = memo.find(p);
    if( it!=memo.end() ) return it->second;
    stats.nodes++;
    Num r = enc_node(e,p);
    keep.push_back(e);
    memo.emplace(p,r);
    return r;
  }
  Num enc_node(const Expression& e, const AmpGen::IExpression* p){
    using namespace AmpGen;
    if( auto x = dynamic_cast<const Constant*>(p) ) return fromConst( (*x)() );
    if( auto x = dynamic_cast<const SubTree*>(p) )  return enc( x->expression() );
    if( auto x = dynamic_cast<const Parameter*>(p) ) { auto it=subst.find(x->name()); return it!=subst.end() ? it->second : fromTerm( var( x->name() ) ); }
    if( auto x = dynamic_cast<const ComplexParameter*>(p) ){
      Num i; i.c.emplace(1,ctx().real_val(1));
      return add( enc(Expression(x->m_real)), mul(i, enc(Expression(x->m_imag))) );
    }
    if( auto x = dynamic_cast<const Ternary*>(p) ){
      if( ternary ) return ternary(*this,*x)==1 ? enc(x->m_v1) : enc(x->m_v2);
      if( sample.empty() ) throw Unsupported("Ternary in field mode");
      bindParameters( x->m_cond, sample );
      bool yes = std::abs(x->m_cond())!=0; condition(x->m_cond,yes);
      return yes ? enc(x->m_v1) : enc(x->m_v2);
    }
    if( auto x = dynamic_cast<const IBinaryExpression*>(p) ){
      if( dynamic_cast<const Pow*>(p) ){
        double v; Num ex = enc(x->r());
        if( !constant(ex,v) ) throw Unsupported("pow with symbolic exponent");
        if( v == std::floor(v) ) return powInt( enc(x->l()), long(v) );
        if( 2*v == std::floor(2*v) ) return powInt( sqrtNum(enc(x->l())), long(2*v) );
        throw Unsupported("pow with fractional exponent");
      }
      Num a = enc(x->l()), b = enc(x->r());
      if( dynamic_cast<const Sum*>(p) )     return add(a,b);
      if( dynamic_cast<const Sub*>(p) )     return add(a,b,-1);
      if( dynamic_cast<const Product*>(p) ) return mul(a,b);
      if( dynamic_cast<const Divide*>(p) )  return mul(a,inv(b));
      throw Unsupported("binary node in field mode: "+e.to_string());
    }
    if( auto x = dynamic_cast<const IUnaryExpression*>(p) ){
      Num a = enc(x->arg());
      if( dynamic_cast<const Sqrt*>(p) )  return sqrtNum(a);
      if( dynamic_cast<const ISqrt*>(p) ) return inv(sqrtNum(a));
      if( dynamic_cast<const Conj*>(p) )  return conj(a);
      if( dynamic_cast<const Real*>(p) )  return real(a);
      if( dynamic_cast<const Imag*>(p) )  return imag(a);
      if( dynamic_cast<const Norm*>(p) )  return mul(a,conj(a));
      if( dynamic_cast<const Abs*>(p) && !sample.empty() ){   // a real argument: the sign it has in the region of the sample
        bindParameters( x->arg(), sample ); auto v = x->arg()(); 
        if( std::abs(v.imag())<1e-14*std::abs(v.real()) ){ bool pos=v.real()>0; region(a,pos); return pos ? a : neg(a); }
      }
      if( dynamic_cast<const Abs*>(p) )   return sqrtNum(mul(a,conj(a)));
      if( dynamic_cast<const Cos*>(p) )   return cosOf(a);
      if( dynamic_cast<const Sin*>(p) )   return sinOf(a);
      if( dynamic_cast<const Tan*>(p) )   return mul( sinOf(a), inv(cosOf(a)) );
      if( dynamic_cast<const Exp*>(p) ){
        Num re = real(a), im = imag(a); double v;
        if( constant(a,v) && v==0 ) return fromRat(1);
        Num i; i.c.emplace(1,ctx().real_val(1));
        Num ph = im.c.empty() ? fromRat(1) : add( cosOf(im), mul(i,sinOf(im)) );
        if( re.c.empty() ) return ph;
        Num nre = neg(re); auto k1=key(re), k2=key(nre);
        Num ex = fromTerm( var("exp("+std::min(k1,k2)+")") );
        if( k2 < k1 ) ex = inv(ex);
        return mul(ex,ph);
      }
      if( dynamic_cast<const Log*>(p) )   return opaque("log",a);
      if( dynamic_cast<const ASin*>(p) )  return opaque("asin",a);
      if( dynamic_cast<const ACos*>(p) )  return opaque("acos",a);
      if( dynamic_cast<const ATan*>(p) )  return opaque("atan",a);
      throw Unsupported("unary node in field mode: "+e.to_string());
    }
    throw Unsupported("node kind in field mode: "+e.to_string());
  }
};
} // namespace va
