  // ---------------- integer and floating point operations (inside struct Engine)
  static unsigned __int128 mask(uint32_t w){ return w>=128?~(unsigned __int128)0:((((unsigned __int128)1)<<w)-1); }
  static __int128 sx(const Val& v){ if(v.w>=128) return (__int128)v.c; unsigned sh=128-v.w; return (__int128)(v.c<<sh)>>sh; }
  Val icmp(CmpInst::Predicate p,const Val& a,const Val& b){
    if(a.k==AGG){ std::vector<Val> r; for(size_t i=0;i<a.a->size();++i) r.push_back(icmp(p,(*a.a)[i],(*b.a)[i])); return Val::agg(r); }
    if(a.isCon()&&b.isCon()){ bool r=false; __int128 x=sx(a),y=sx(b); auto ux=a.c,uy=b.c;
      switch(p){ case CmpInst::ICMP_EQ: r=ux==uy; break; case CmpInst::ICMP_NE: r=ux!=uy; break; case CmpInst::ICMP_UGT: r=ux>uy; break; case CmpInst::ICMP_UGE: r=ux>=uy; break; case CmpInst::ICMP_ULT: r=ux<uy; break; case CmpInst::ICMP_ULE: r=ux<=uy; break; case CmpInst::ICMP_SGT: r=x>y; break; case CmpInst::ICMP_SGE: r=x>=y; break; case CmpInst::ICMP_SLT: r=x<y; break; case CmpInst::ICMP_SLE: r=x<=y; break; default: throw Abort("icmp"); }
      return Val::con(r,1); }
    if(a.k==REAL||b.k==REAL){ // bitwise comparison of doubles that went through integers
      if(a.k==REAL&&b.k==REAL&&a.e.a==b.e.a&&(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)) return Val::con(p==CmpInst::ICMP_EQ,1);
      if(p==CmpInst::ICMP_EQ) return norm(R(a)==R(b),1); if(p==CmpInst::ICMP_NE) return norm(R(a)!=R(b),1); 
      if(b.isCon()&&b.c==0&&p==CmpInst::ICMP_SLT) return norm(R(a)<0,1); if(b.isCon()&&sx(b)==-1&&p==CmpInst::ICMP_SGT) return norm(R(a)>=0,1);
      throw Abort("integer comparison of real"); }
    z3::expr x=B(a),y=B(b); 
    if(a.w==1){ switch(p){ case CmpInst::ICMP_EQ: return norm(x==y,1); case CmpInst::ICMP_NE: return norm(x!=y,1); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return norm(x&&!y,1); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return norm(!x&&y,1); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SLE: return norm(x||!y,1); default: return norm(!x||y,1); } }
    switch(p){ case CmpInst::ICMP_EQ: return norm(x==y,1); case CmpInst::ICMP_NE: return norm(x!=y,1); case CmpInst::ICMP_UGT: return norm(z3::ugt(x,y),1); case CmpInst::ICMP_UGE: return norm(z3::uge(x,y),1); case CmpInst::ICMP_ULT: return norm(z3::ult(x,y),1); case CmpInst::ICMP_ULE: return norm(z3::ule(x,y),1); case CmpInst::ICMP_SGT: return norm(x>y,1); case CmpInst::ICMP_SGE: return norm(x>=y,1); case CmpInst::ICMP_SLT: return norm(x<y,1); case CmpInst::ICMP_SLE: return norm(x<=y,1); default: throw Abort("icmp"); } }
  Val fcmp(CmpInst::Predicate p,const Val& a,const Val& b){
    if(a.k==AGG){ std::vector<Val> r; for(size_t i=0;i<a.a->size();++i) r.push_back(fcmp(p,(*a.a)[i],(*b.a)[i])); return Val::agg(r); }
    if(a.isCon()&&b.isCon()){ double x=asD(a),y=asD(b); bool un=std::isnan(x)||std::isnan(y),r=false; switch(p){ case CmpInst::FCMP_FALSE: r=false; break; case CmpInst::FCMP_TRUE: r=true; break; case CmpInst::FCMP_OEQ: r=!un&&x==y; break; case CmpInst::FCMP_OGT: r=!un&&x>y; break; case CmpInst::FCMP_OGE: r=!un&&x>=y; break; case CmpInst::FCMP_OLT: r=!un&&x<y; break; case CmpInst::FCMP_OLE: r=!un&&x<=y; break; case CmpInst::FCMP_ONE: r=!un&&x!=y; break; case CmpInst::FCMP_ORD: r=!un; break; case CmpInst::FCMP_UNO: r=un; break; case CmpInst::FCMP_UEQ: r=un||x==y; break; case CmpInst::FCMP_UGT: r=un||x>y; break; case CmpInst::FCMP_UGE: r=un||x>=y; break; case CmpInst::FCMP_ULT: r=un||x<y; break; case CmpInst::FCMP_ULE: r=un||x<=y; break; case CmpInst::FCMP_UNE: r=un||x!=y; break; default: break; } return Val::con(r,1); }
    // infinities against finite reals
    auto inf=[](const Val& v){ return v.isCon()&&std::isinf(asD(v)); };
    if(inf(a)||inf(b)){ double x=inf(a)?asD(a):0,y=inf(b)?asD(b):0; return fcmp(p,fromD(x),fromD(y)); }
    if((a.isCon()&&std::isnan(asD(a)))||(b.isCon()&&std::isnan(asD(b)))) return fcmp(p,fromD(NAN),fromD(NAN));
    if(p==CmpInst::FCMP_ORD||p==CmpInst::FCMP_TRUE) return Val::con(1,1); if(p==CmpInst::FCMP_UNO||p==CmpInst::FCMP_FALSE) return Val::con(0,1);
    z3::expr x=R(a),y=R(b);
    switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return norm(x==y,1); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return norm(x!=y,1); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return norm(x>y,1); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return norm(x>=y,1); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return norm(x<y,1); default: return norm(x<=y,1); } }
  Val toBV(const z3::expr& b){ return Val::sym(b,1); }
  Val intop(unsigned op,const Val& a,const Val& b,uint32_t w){
    if(a.k==AGG){ std::vector<Val> r; for(size_t i=0;i<a.a->size();++i) r.push_back(intop(op,(*a.a)[i],(*b.a)[i],(*a.a)[i].w)); return Val::agg(r); }
    if(a.isCon()&&b.isCon()){ auto x=a.c,y=b.c; 
      switch(op){ case Instruction::Add: return Val::con(x+y,w); case Instruction::Sub: return Val::con(x-y,w); case Instruction::Mul: return Val::con(x*y,w);
        case Instruction::UDiv: case Instruction::URem: if(!y) throw Violation{"integer division by zero"}; return Val::con(op==Instruction::UDiv?x/y:x%y,w);
        case Instruction::SDiv: case Instruction::SRem: if(!y) throw Violation{"integer division by zero"}; return Val::con((unsigned __int128)(op==Instruction::SDiv?sx(a)/sx(b):sx(a)%sx(b)),w);
        case Instruction::Shl: return Val::con(y>=w?0:x<<(unsigned)y,w); case Instruction::LShr: return Val::con(y>=w?0:x>>(unsigned)y,w); case Instruction::AShr: return Val::con((unsigned __int128)(sx(a)>>(unsigned)(y>=w?w-1:(unsigned)y)),w);
        case Instruction::And: return Val::con(x&y,w); case Instruction::Or: return Val::con(x|y,w); case Instruction::Xor: return Val::con(x^y,w); } throw Abort("int op"); }
    if(a.k==REAL||b.k==REAL){ // sign manipulation of doubles in integer registers
      const Val& r=a.k==REAL?a:b; const Val& m=a.k==REAL?b:a;
      if(m.isCon()&&w==64){ if(op==Instruction::Xor&&m.u()==0x8000000000000000ull) return Val::real(-R(r)); if(op==Instruction::And&&m.u()==0x7fffffffffffffffull) return fabsv(r); if(op==Instruction::And&&m.u()==~0ull) return r; if(op==Instruction::And&&m.u()==0) return m; if((op==Instruction::Or||op==Instruction::Xor||op==Instruction::Add)&&m.u()==0) return r; }
      throw Abort("integer arithmetic on a real"); }
    if(w==1){ z3::expr x=B(a),y=B(b); switch(op){ case Instruction::And: case Instruction::Mul: return norm(x&&y,1); case Instruction::Or: return norm(x||y,1); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return norm(x!=y,1); default: throw Abort("i1 op"); } }
    z3::expr x=B(a),y=B(b);
    switch(op){ case Instruction::Add: return norm(x+y,w); case Instruction::Sub: return norm(x-y,w); case Instruction::Mul: return norm(x*y,w);
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if(branch(y==Z().bv_val(0,w))) throw Violation{"integer division by zero"};
        return norm(op==Instruction::UDiv?z3::udiv(x,y):op==Instruction::URem?z3::urem(x,y):op==Instruction::SDiv?x/y:z3::srem(x,y),w);
      case Instruction::Shl: return norm(z3::shl(x,y),w); case Instruction::LShr: return norm(z3::lshr(x,y),w); case Instruction::AShr: return norm(z3::ashr(x,y),w);
      case Instruction::And: return norm(x&y,w); case Instruction::Or: return norm(x|y,w); case Instruction::Xor: return norm(x^y,w); } throw Abort("int op"); }
  Val mkReal(const z3::expr& e,uint32_t w=64){ return Val::real(e,w); }
  static bool isNum(const Val& v,double d){ return v.isCon()&&asD(v)==d; }
  Val fpop(unsigned op,const Val& a,const Val& b,uint32_t w){
    if(a.k==AGG){ std::vector<Val> r; for(size_t i=0;i<a.a->size();++i) r.push_back(fpop(op,(*a.a)[i],(*b.a)[i],(*a.a)[i].w)); return Val::agg(r); }
    if(a.isCon()&&b.isCon()){ 
      if(w==32){ float x=asD(a),y=asD(b); switch(op){ case Instruction::FAdd: return fromD(x+y,32); case Instruction::FSub: return fromD(x-y,32); case Instruction::FMul: return fromD(x*y,32); case Instruction::FDiv: return fromD(x/y,32); case Instruction::FRem: return fromD(std::fmod(x,y),32);} }
      if(w==80) throw Abort("x87 arithmetic");
      double x=asD(a),y=asD(b); switch(op){ case Instruction::FAdd: return fromD(x+y,w); case Instruction::FSub: return fromD(x-y,w); case Instruction::FMul: return fromD(x*y,w); case Instruction::FDiv: return fromD(x/y,w); case Instruction::FRem: return fromD(std::fmod(x,y),w);} throw Abort("fp op"); }
    if(a.k==SYM||b.k==SYM) return fpop(op,pick(a),pick(b),w);
    switch(op){
      case Instruction::FAdd: if(isNum(a,0)) return b; if(isNum(b,0)) return a; return mkReal(R(a)+R(b),w);
      case Instruction::FSub: if(isNum(b,0)) return a; if(isNum(a,0)) return mkReal(-R(b),w); return mkReal(R(a)-R(b),w);
      case Instruction::FMul: if(isNum(a,0)||isNum(b,0)) return fromD(0,w); if(isNum(a,1)) return b; if(isNum(b,1)) return a; if(isNum(a,-1)) return mkReal(-R(b),w); if(isNum(b,-1)) return mkReal(-R(a),w); return mkReal(R(a)*R(b),w);
      case Instruction::FDiv: if(isNum(a,0)) return fromD(0,w); if(isNum(b,1)) return a; 
        if(b.k==REAL){ z3::expr d=R(b).simplify(); if(d.is_numeral()&&w==64&&z3::eq(d,Z().real_val(0))) return Val::con(ZERO_DIVISION,64); if(w==64&&!s->merge&&!d.is_numeral()&&!(s->model&&evalTrue(d!=0))&&query(s->pc,d!=0)==z3::unsat) return Val::con(ZERO_DIVISION,64); divisor(R(b)); } else if(isNum(b,0)){ if(w==64) return Val::con(ZERO_DIVISION,64); throw PathEnd(); } return mkReal(R(a)/R(b),w);
      case Instruction::FRem: { std::vector<Val> q{a,b}; return models["fmod"](q); }
      default: throw Abort("fp op on reals"); } }
  // a symbolic choice between numbers: one path per number
  Val pick(const Val& a){ if(s->merge){ if(a.k==SYM&&a.w!=1) return mkReal(R(a),a.w); return a; } if(a.k==REAL){ z3::expr e=a.e.x(); bool any=false; while(e.is_app()&&e.decl().decl_kind()==Z3_OP_ITE){ e=branch(e.arg(0))?e.arg(1):e.arg(2); any=true; } if(!any) return a; if(e.is_numeral()){ double d=va::FieldCore::toDouble(e); if(d==std::floor(d)) return fromD(d,a.w); } return mkReal(e,a.w); }
    if(a.k!=SYM||a.w==1) return a; z3::expr e=a.e.x(); while(e.is_app()&&e.decl().decl_kind()==Z3_OP_ITE) e=branch(e.arg(0))?e.arg(1):e.arg(2); if(!e.is_numeral()) throw Abort("arithmetic on a symbolic IEEE double"); return Val::con(e.get_numeral_uint64(),a.w); }
  void divisor(const z3::expr& d){ assume((d!=0).simplify()); }     // stated: divisors are non-zero
  Val fabsv(const Val& a){ if(a.isCon()) return fromD(std::fabs(asD(a)),a.w); z3::expr x=R(a); if(s->merge==1) return uf("fabs",{a},a.w); if(s->merge==2) return mkReal(z3::ite(x>=0,x,-x),a.w); return branch(x>=0)? a : mkReal(-x,a.w); }
  Val sqrtv(const Val& a){ if(a.isCon()) return fromD(std::sqrt(asD(a)),a.w); z3::expr x=R(a).simplify(); 
    if(x.is_numeral()) return mkReal(realOfDouble(std::sqrt(va::FieldCore::toDouble(x))),a.w);
    unsigned id=Z3_get_ast_id(Z(),x); auto it=s->roots.find(id); if(it!=s->roots.end()) return Val::real(it->second.x(),a.w);
    z3::expr y=z3::function("sqrt",Z().real_sort(),Z().real_sort())(x); 
    s->roots[id]=y; keepAlive.push_back(x); s->pc.push_back(y>=0); s->pc.push_back(y*y==x); // the model stays valid for everything else; questions about y go to the solver
    return Val::real(y,a.w); }
  std::vector<Ex> keepAlive;
  Val uf(const char* n,const std::vector<Val>& a,uint32_t w=64){ z3::sort_vector d(Z()); z3::expr_vector x(Z()); for(auto& v:a){ d.push_back(Z().real_sort()); x.push_back(R(v)); } return Val::real(z3::function(n,d,Z().real_sort())(x),w); }
  Val castop(unsigned op,const Val& a,Type* st,Type* dt){
    if(auto vt=dyn_cast<FixedVectorType>(dt)){ 
      if(op==Instruction::BitCast) return bitcast(a,st,dt);
      std::vector<Val> r; auto e=vt->getElementType(),f=cast<VectorType>(st)->getElementType(); for(auto& x:*a.a) r.push_back(castop(op,x,f,e)); return Val::agg(r); }
    uint32_t w=width(dt);
    switch(op){
      case Instruction::Trunc: if(a.isCon()) return Val::con(a.c,w); if(a.k==REAL) throw Abort("truncation of a real"); { z3::expr x=B(a).extract(w-1,0); return w==1?norm(x==Z().bv_val(1,1),1):norm(x,w); }
      case Instruction::ZExt: if(a.isCon()) return Val::con(a.c,w); if(a.w==1) return norm(z3::ite(B(a),Z().bv_val(1,w),Z().bv_val(0,w)),w); return norm(z3::zext(B(a),w-a.w),w);
      case Instruction::SExt: if(a.isCon()) return Val::con((unsigned __int128)sx(a),w); if(a.w==1) return norm(z3::ite(B(a),Z().bv_val(-1,w),Z().bv_val(0,w)),w); return norm(z3::sext(B(a),w-a.w),w);
      case Instruction::PtrToInt: case Instruction::IntToPtr: if(a.isCon()) return Val::con(a.c,w); if(w==a.w) return a; if(w<a.w) return norm(B(a).extract(w-1,0),w); return norm(z3::zext(B(a),w-a.w),w);
      case Instruction::BitCast: return bitcast(a,st,dt);
      case Instruction::AddrSpaceCast: return a;
      case Instruction::FPExt: case Instruction::FPTrunc: if(a.k==REAL){ Val r=a; r.w=w; return r; } if(a.isCon()){ if(w==80||a.w==80) throw Abort("long double"); return fromD(asD(a),w); } throw Abort("fp conversion");
      case Instruction::SIToFP: if(a.isCon()) return fromD((double)sx(a),w); if(a.w==1) return norm2real(z3::ite(B(a),Z().real_val(-1),Z().real_val(0)),w); return norm2real(z3::expr(Z(),Z3_mk_int2real(Z(),Z3_mk_bv2int(Z(),B(a),true))),w);
      case Instruction::UIToFP: if(a.isCon()) return fromD((double)a.c,w); if(a.w==1) return norm2real(z3::ite(B(a),Z().real_val(1),Z().real_val(0)),w); return norm2real(z3::expr(Z(),Z3_mk_int2real(Z(),Z3_mk_bv2int(Z(),B(a),false))),w);
      case Instruction::FPToSI: case Instruction::FPToUI: if(a.isCon()){ double d=asD(a); return op==Instruction::FPToSI?Val::con((unsigned __int128)(__int128)d,w):Val::con((unsigned __int128)d,w); }
        { z3::expr x=R(a); z3::expr fl=z3::expr(Z(),Z3_mk_real2int(Z(),x)); z3::expr t= z3::ite(x>=0,fl,-z3::expr(Z(),Z3_mk_real2int(Z(),-x))); return Val::sym(z3::expr(Z(),Z3_mk_int2bv(Z(),w,t)),w); }
    } throw Abort("cast"); }
  Val norm2real(const z3::expr& e,uint32_t w){ return Val::real(e.simplify(),w); }
  Val bitcast(const Val& a,Type* st,Type* dt){
    uint32_t sw=DL->getTypeSizeInBits(st);
    auto flat=[&](const Val& v,Type* t){ std::vector<Val> r; if(v.k==AGG) r=*v.a; else r.push_back(v); return r; };
    auto src=flat(a,st); unsigned n=dt->isVectorTy()?cast<FixedVectorType>(dt)->getNumElements():1; uint32_t ew=dt->isVectorTy()?width(cast<VectorType>(dt)->getElementType()):width(dt);
    if(src.size()==n){ if(dt->isVectorTy()) return Val::agg(src); return src[0]; }
    // regroup through a wide bit-vector
    bool con=true; for(auto& v:src) con&=v.isCon();
    std::vector<Val> out; uint32_t fw=sw/src.size();
    if(n>src.size()){ unsigned k=n/src.size(); for(auto& v:src) for(unsigned i=0;i<k;++i){ if(v.isCon()) out.push_back(Val::con(v.c>>(i*ew),ew)); else if(v.k==REAL) throw Abort("bitcast of real"); else { z3::expr x=v.e.x().extract(i*ew+ew-1,i*ew); out.push_back(ew==1?norm(x==Z().bv_val(1,1),1):norm(x,ew)); } } }
    else { unsigned k=src.size()/n; for(unsigned i=0;i<n;++i){ bool c2=true; for(unsigned j=0;j<k;++j) c2&=src[i*k+j].isCon();
        if(c2){ unsigned __int128 v=0; for(unsigned j=0;j<k;++j) v|=src[i*k+j].c<<(j*fw); out.push_back(Val::con(v,ew)); }
        else { auto bv=[&](const Val& v){ z3::expr x=B(v); return fw==1?z3::ite(x,Z().bv_val(1,1),Z().bv_val(0,1)):x; }; z3::expr e=bv(src[i*k+k-1]); for(int j=(int)k-2;j>=0;--j) e=z3::concat(e,bv(src[i*k+j])); out.push_back(norm(e,ew)); } } }
    if(dt->isVectorTy()) return Val::agg(out); return out[0]; }
  Val selectv(const Val& c,const Val& a,const Val& b){
    if(c.k==AGG){ std::vector<Val> r; for(size_t i=0;i<c.a->size();++i) r.push_back(selectv((*c.a)[i],(*a.a)[i],(*b.a)[i])); return Val::agg(r); }
    if(c.isCon()) return c.u()?a:b;
    if(a.k==AGG){ return branch(B(c))?a:b; }
    if(a.isCon()&&b.isCon()&&a.c==b.c) return a;
    if(s->merge&&(a.k==REAL||b.k==REAL)) return mkReal(z3::ite(B(c),R(a),R(b)),a.w);
    if(a.k==REAL||b.k==REAL){ return branch(B(c))?a:b; }
    return norm(z3::ite(B(c),B(a),B(b)),a.w); }
