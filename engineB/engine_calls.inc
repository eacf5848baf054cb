  // ---------------- models of external functions (inside struct Engine)
  struct CxxThrow { uint64_t obj; uint64_t ti; };
  struct Fallthrough {};
  typedef std::function<Val(std::vector<Val>&)> H;
  std::unordered_map<S,H> models; std::vector<std::pair<S,H>> prefixModels; std::unordered_map<S,H*> modelCache; std::set<S> modelled;
  static Val V64(uint64_t x){ return Val::con(x,64); }
  static Val V32(uint32_t x){ return Val::con(x,32); }
  uint64_t P(const Val& v,const char* why="pointer"){ return concretise(v,why); }
  [[noreturn]] void throwStd(const char* ti,const S& msg){ uint64_t o=alloc(128,false); for(int i=0;i<128;++i) storeByteCon(o+i,0); uint64_t t=(uint64_t)dlsym(RTLD_DEFAULT,ti); (void)msg; throw CxxThrow{o,t}; }
  std::map<uint64_t,int> tiId; int typeId(uint64_t ti){ auto it=tiId.find(ti); if(it!=tiId.end()) return it->second; int n=tiId.size()+1; tiId[ti]=n; return n; }
  static bool catches(uint64_t catchTi,uint64_t thrownTi,uint64_t& obj){ if(!catchTi) return true; if(catchTi==thrownTi) return true; void* p=(void*)obj; auto c=(const std::type_info*)catchTi; auto t=(const std::type_info*)thrownTi; 
    if(!strcmp(c->name(),t->name())) return true;
    // walk single-inheritance bases only (no reads of the object)
    const std::type_info* k=t; for(int d=0;d<10;++d){ auto si=dynamic_cast<const __cxxabiv1::__si_class_type_info*>(k); if(!si) break; k=si->__base_type; if(!strcmp(k->name(),c->name())) return true; } (void)p; return false; }
  S bytes(uint64_t p,uint64_t n,const char* why){ S r; for(uint64_t i=0;i<n;++i) r+=(char)concretise(byteAt(p+i),why,300); return r; }
  uint64_t strLen(uint64_t p){ uint64_t n=0; for(;;++n){ access(p+n,1,false); Val b=byteAt(p+n); if(b.isCon()){ if(!b.u()) return n; } else if(branch(B(b)==Z().bv_val(0,8))) return n; } }
  S cstring(uint64_t p){ uint64_t n=strLen(p); return bytes(p,n,"string passed to the C library"); }
  void putBytes(uint64_t p,const void* d,uint64_t n){ access(p,n,true); for(uint64_t i=0;i<n;++i) storeByteCon(p+i,((const uint8_t*)d)[i]); }
  Val compareBytes(uint64_t a,uint64_t b,uint64_t n){ // memcmp as one term
    access(a,n,false); access(b,n,false); std::vector<std::pair<Val,Val>> v; bool sym=false; 
    for(uint64_t i=0;i<n;++i){ Val x=byteAt(a+i),y=byteAt(b+i); if(x.isCon()&&y.isCon()){ if(x.u()==y.u()) continue; v.push_back({x,y}); break; } sym=true; v.push_back({x,y}); }
    if(v.empty()) return V32(0); (void)sym;
    if(v.size()==1&&v[0].first.isCon()&&v[0].second.isCon()) return V32(v[0].first.u()<v[0].second.u()?(uint32_t)-1:1);
    z3::expr r=Z().bv_val(0,32); for(int i=(int)v.size()-1;i>=0;--i){ z3::expr x=B(v[i].first),y=B(v[i].second); r=z3::ite(x==y,r,z3::ite(z3::ult(x,y),Z().bv_val(-1,32),Z().bv_val(1,32))); }
    return norm(r,32); }
  // first coefficient negative?
  static bool negLead(z3::expr e){ for(;;){ if(e.is_numeral()) return va::FieldCore::toDouble(e)<0; if(!e.is_app()) return false; auto k=e.decl().decl_kind(); if(k==Z3_OP_UMINUS) return true; if(k==Z3_OP_ADD||k==Z3_OP_MUL){ if(k==Z3_OP_ADD&&e.arg(0).is_numeral()&&e.num_args()>1){ e=e.arg(1); continue; } if(k==Z3_OP_MUL&&!e.arg(0).is_numeral()) return false; e=e.arg(0); continue; } return false; } }
  Val math1(const char* n,double(*f)(double),std::vector<Val>& a){ a[0]=pick(a[0]); if(a[0].isCon()) return fromD(f(asD(a[0])),a[0].w);
    S nm=n; bool odd=nm=="sin"||nm=="tan"||nm=="asin"||nm=="atan"||nm=="sinh"||nm=="tanh", even=nm=="cos"||nm=="cosh";
    if(odd||even){ z3::expr e=R(a[0]).simplify(); if(negLead(e)){ Val r=uf(n,{mkReal((-e).simplify(),a[0].w)},a[0].w); return odd?mkReal(-R(r),a[0].w):r; } return uf(n,{mkReal(e,a[0].w)},a[0].w); }
    Val r=uf(n,{a[0]},a[0].w); if(nm=="exp"||nm=="exp2"||nm=="cosh"){ unsigned id=Z3_get_ast_id(Z(),r.e.a); if(!s->roots.count(id)){ s->roots[id]=r.e; s->pc.push_back((r.e.x()>0)); } } return r; }
  bool smallInt(const Val& v,int& n){ if(!v.isCon()) return false; double d=asD(v); if(d!=std::floor(d)||std::fabs(d)>64) return false; n=(int)d; return true; }
  Val powv(const Val& x,int n){ if(n==0) return fromD(1); Val r=x; for(int i=1;i<std::abs(n);++i) r=fpop(Instruction::FMul,r,x,64); if(n<0) r=fpop(Instruction::FDiv,fromD(1),r,64); return r; }
  Val floorReal(const Val& a){ z3::expr e=z3::expr(Z(),Z3_mk_int2real(Z(),Z3_mk_real2int(Z(),R(a)))); return norm2real(e,a.w); }
  // ---- symbolic inputs
  void setModel(State& o,const z3::expr& x,const z3::expr& v){ varsOf(x); if(!o.model) return; auto r=std::make_shared<std::unordered_map<unsigned,Ex>>(*o.model); (*r)[Z3_get_ast_id(Z(),x)]=Ex(v); o.model=r; }
  S uniq(const S& n){ int k=s->names[n]++; return k? n+"#"+std::to_string(k) : n; }
  Val newInt(const S& n,int64_t lo,int64_t hi){ S u=uniq(n); z3::expr x=Z().bv_const(u.c_str(),64); s->vars.push_back({u,0,x}); if(lo==hi){ s->pc.push_back(x==Z().bv_val((int64_t)lo,64)); setModel(*s,x,Z().bv_val((int64_t)lo,64)); return V64(lo); } setModel(*s,x,Z().bv_val((int64_t)lo,64)); s->pc.push_back(x>=Z().bv_val((int64_t)lo,64)&&x<=Z().bv_val((int64_t)hi,64)); return Val::sym(x,64); }
  void init(){
    auto& m=models;
    m["sym_int"]=[this](auto& a){ return newInt(cstr(a[0].u()),a[1].s(),a[2].s()); };
    m["sym_choose"]=[this](auto& a){ S n=cstr(a[0].u()); // created once, forked here
        S u=n; { int k=s->names[n]; u=k? n+"#"+std::to_string(k):n; }
        z3::expr x=Z().bv_const(u.c_str(),64); s->names[n]++; s->vars.push_back({u,0,x}); int64_t lo=a[1].s(),hi=a[2].s(); if(hi<lo) throw PathEnd();
        // one finished state per value
        for(int64_t v=hi;v>lo;--v){ State o=*s; o.pc.push_back(x==Z().bv_val(v,64)); setModel(o,x,Z().bv_val(v,64)); retInto(o,V64(v)); finished.push_back(std::move(o)); ++forks; }
        s->pc.push_back(x==Z().bv_val(lo,64)); setModel(*s,x,Z().bv_val(lo,64)); return V64(lo); };
    m["sym_real"]=[this](auto& a){ S u=uniq(cstr(a[0].u())); z3::expr x=Z().real_const(u.c_str()); s->vars.push_back({u,1,x}); return Val::real(x); };
    m["sym_fp"]=m["sym_real"];
    m["sym_bytes"]=[this](auto& a){ S n=cstr(a[0].u()); uint64_t p=a[1].u(),k=P(a[2]); if(k) access(p,k,true); for(uint64_t i=0;i<k;++i){ S u=uniq(n+"["+std::to_string(i)+"]"); z3::expr x=Z().bv_const(u.c_str(),8); s->vars.push_back({u,0,x}); storeSym(p+i,Val::sym(x,8),1); } return Val(); };
    m["sym_assume"]=[this](auto& a){ if(a[0].isCon()){ if(!a[0].u()) throw PathEnd(); return Val(); } z3::expr c=B(a[0]).simplify(); if(known(c)==1) return Val(); bool unk=false; Mdl md; if(!feasible(c,unk,&md)) throw PathEnd(); if(unk) s->approx=true; s->pc.push_back(c); s->model=md; return Val(); };
    m["sym_check"]=[this](auto& a){ S l=cstr(a[1].u()); ++checks; if(a[0].isCon()){ if(!a[0].u()) violation(l,Z().bool_val(true)); return Val(); } z3::expr c=B(a[0]); if(known(c)==1) return Val(); auto r=query(s->pc,!c); if(r==z3::unsat) return Val(); if(r==z3::unknown){ incon.push_back("solver gave up on: "+l); return Val(); } violation(l,!c); return Val(); };
    m["sym_eq"]=[this](auto& a){ S l=cstr(a[2].u()); ++checks; realEq(a[0],a[1],l); return Val(); };
    m["sym_tier"]=[this](auto&){ return V32(tier); };
    m["sym_reach"]=[this](auto& a){ reached.insert(cstr(a[0].u())); return Val(); };
    m["sym_merge"]=[this](auto& a){ s->merge=a[0].u(); return Val(); };
    m["sym_is_native"]=[](auto&){ return V32(0); };
    m["sym_expect_throw"]=[this](auto& a){ s->expectThrow=a[0].u(); return Val(); };
    // ---- memory
    auto mal=[this](auto& a){ uint64_t n=P(a[0],"allocation size"); if(n>(1ull<<28)) throwStd("_ZTISt9bad_alloc","bad_alloc"); return V64(alloc(n,false)); };
    for(auto n:{"malloc","_Znwm","_Znam","_ZnwmSt11align_val_t","_ZnamSt11align_val_t","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t","__cxa_allocate_exception"}) m[n]=mal;
    m["aligned_alloc"]=[this](auto& a){ return V64(alloc(P(a[1]),false,std::max<uint64_t>(16,P(a[0])))); };
    m["posix_memalign"]=[this](auto& a){ uint64_t p=alloc(P(a[2]),false,std::max<uint64_t>(16,P(a[1]))); putBytes(P(a[0]),&p,8); return V32(0); };
    m["calloc"]=[this](auto& a){ uint64_t n=P(a[0])*P(a[1]); uint64_t p=alloc(n,false); for(uint64_t i=0;i<n;++i) storeByteCon(p+i,0); return V64(p); };
    m["realloc"]=[this](auto& a){ uint64_t o=P(a[0]),n=P(a[1]); uint64_t p=alloc(n,false); if(o){ auto it=s->al->find(o); if(it==s->al->end()) throw Abort("realloc of native memory"); uint64_t k=std::min(n,it->second.size); copyBytes(p,o,k); release(o);} return V64(p); };
    auto fr=[this](auto& a){ release(P(a[0])); return Val(); };
    for(auto n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t","_ZdaPvmSt11align_val_t","__cxa_free_exception"}) m[n]=fr;
    auto cp=[this](auto& a){ copyBytes(P(a[0]),P(a[1]),P(a[2],"copy length")); return a[0]; }; for(auto n:{"memcpy","memmove"}) m[n]=cp;
    m["memset"]=[this](auto& a){ uint64_t p=P(a[0]),n=P(a[2],"memset length"); access(p,n,true); Val b=castop(Instruction::Trunc,a[1],nullptr,Type::getInt8Ty(LC)); if(b.isCon()) for(uint64_t i=0;i<n;++i) storeByteCon(p+i,b.u()); else for(uint64_t i=0;i<n;++i) storeSym(p+i,b,1); return a[0]; };
    m["memcmp"]=[this](auto& a){ return compareBytes(P(a[0]),P(a[1]),P(a[2],"memcmp length")); }; m["bcmp"]=m["memcmp"];
    m["strlen"]=[this](auto& a){ return V64(strLen(P(a[0]))); };
    m["memchr"]=[this](auto& a){ uint64_t p=P(a[0]),n=P(a[2],"memchr length"); Val c=castop(Instruction::Trunc,a[1],nullptr,Type::getInt8Ty(LC)); for(uint64_t i=0;i<n;++i){ access(p+i,1,false); Val e=icmp(CmpInst::ICMP_EQ,byteAt(p+i),c); if(e.isCon()?e.u():branch(B(e))) return V64(p+i); } return V64(0); };
    m["strchr"]=[this](auto& a){ uint64_t p=P(a[0]); Val c=castop(Instruction::Trunc,a[1],nullptr,Type::getInt8Ty(LC)); for(uint64_t i=0;;++i){ access(p+i,1,false); Val b=byteAt(p+i); Val e=icmp(CmpInst::ICMP_EQ,b,c); if(e.isCon()?e.u():branch(B(e))) return V64(p+i); Val z=icmp(CmpInst::ICMP_EQ,b,Val::con(0,8)); if(z.isCon()?z.u():branch(B(z))) return V64(0); } };
    m["strcmp"]=[this](auto& a){ uint64_t x=P(a[0]),y=P(a[1]); uint64_t n=std::min(strLen(x),strLen(y))+1; return compareBytes(x,y,n); };
    m["strncmp"]=[this](auto& a){ uint64_t x=P(a[0]),y=P(a[1]); uint64_t n=std::min(std::min(strLen(x),strLen(y))+1,P(a[2])); return compareBytes(x,y,n); };
    // ---- C library on strings (bytes are enumerated, then the real function is called)
    auto endp=[this](const Val& e,uint64_t base,const char* b,const char* q){ uint64_t p=P(e); if(p){ uint64_t v=base+(q-b); putBytes(p,&v,8); } };
    m["strtod"]=[this,endp](auto& a){ uint64_t p=P(a[0]); S t=cstring(p); char* q; double d=strtod(t.c_str(),&q); endp(a[1],p,t.c_str(),q); return fromD(d); };
    m["strtof"]=[this,endp](auto& a){ uint64_t p=P(a[0]); S t=cstring(p); char* q; float d=strtof(t.c_str(),&q); endp(a[1],p,t.c_str(),q); return fromD(d,32); };
    auto stol=[this,endp](auto& a){ uint64_t p=P(a[0]); S t=cstring(p); char* q; errno=0; long d=strtol(t.c_str(),&q,(int)P(a[2])); setErrno(); endp(a[1],p,t.c_str(),q); return V64(d); };
    for(auto n:{"strtol","__isoc23_strtol","__isoc23_strtoll","strtoll"}) m[n]=stol;
    auto stoul=[this,endp](auto& a){ uint64_t p=P(a[0]); S t=cstring(p); char* q; errno=0; unsigned long d=strtoul(t.c_str(),&q,(int)P(a[2])); setErrno(); endp(a[1],p,t.c_str(),q); return V64(d); };
    for(auto n:{"strtoul","__isoc23_strtoul","__isoc23_strtoull","strtoull"}) m[n]=stoul;
    m["atoi"]=[this](auto& a){ return V32(atoi(cstring(P(a[0])).c_str())); };
    m["atof"]=[this](auto& a){ return fromD(atof(cstring(P(a[0])).c_str())); };
    m["stat"]=[this](auto& a){ S n=cstring(P(a[0])); return V64(n.compare(0,6,"verif:")==0||::access(n.c_str(),F_OK)==0?uint64_t(0):~uint64_t(0)); };
    m["getenv"]=[this](auto& a){ S n=cstring(P(a[0])); return V64((uint64_t)getenv(n.c_str())); };
    m["__errno_location"]=[](auto&){ return V64((uint64_t)__errno_location()); };
    m["snprintf"]=[this](auto& a){ char buf[512]; S f=cstring(P(a[2])); int n=-1; if(a.size()==4){ if(!a[3].isCon()) throw Abort("formatting of a symbolic value"); bool isd=f.find_first_of("fgeEG")!=S::npos; n=isd? snprintf(buf,512,f.c_str(),asD(a[3])) : snprintf(buf,512,f.c_str(),(long)a[3].s()); } else if(a.size()==3) n=snprintf(buf,512,"%s",f.c_str()); else if(a.size()==5&&f.find("*")!=S::npos){ if(!a[4].isCon()) throw Abort("formatting of a symbolic value"); n=snprintf(buf,512,f.c_str(),(int)a[3].s(),asD(a[4])); } else throw Abort("snprintf format "+f); uint64_t k=P(a[1]); uint64_t c=std::min<uint64_t>(n+1,k); if(c){ buf[c-1]=0; putBytes(P(a[0]),buf,c);} return V32(n); };
    m["vsnprintf"]=[this](auto& a){ // std::to_string: va_list with one argument
        char buf[512]; S f=cstring(P(a[2])); uint64_t va=P(a[3]); Type* i64=Type::getInt64Ty(LC); Type* i32=Type::getInt32Ty(LC); bool isd=f.find_first_of("fgeEG")!=S::npos; Val v; uint64_t gp=load(va,i32).u(),fp=load(va+4,i32).u(),ov=load(va+8,i64).u(),rs=load(va+16,i64).u(); v= isd? load(fp<176?rs+fp:ov,i64) : load(gp<48?rs+gp:ov,i64); if(!v.isCon()) throw Abort("formatting of a symbolic value"); int n= isd? snprintf(buf,512,f.c_str(),asD(v)) : snprintf(buf,512,f.c_str(),v.s()); uint64_t k=P(a[1]); uint64_t c=std::min<uint64_t>(n+1,k); if(c){ buf[c-1]=0; putBytes(P(a[0]),buf,c);} return V32(n); };
    auto cls=[&](const char* n,std::function<z3::expr(const z3::expr&)> f,int(*g)(int)){ m[n]=[this,f,g](auto& a){ if(a[0].isCon()) return V32(g((int)a[0].s())?1:0); return norm(z3::ite(f(B(a[0])),Z().bv_val(1,32),Z().bv_val(0,32)),32); }; };
    auto in=[](const z3::expr& x,int lo,int hi){ return x>=Z().bv_val(lo,32)&&x<=Z().bv_val(hi,32); };
    cls("isdigit",[in](auto& x){ return in(x,'0','9'); },isdigit); cls("isspace",[in](auto& x){ return x==Z().bv_val(' ',32)||in(x,9,13); },isspace); cls("isblank",[in](auto& x){ return x==Z().bv_val(' ',32)||x==Z().bv_val(9,32); },isblank); cls("isupper",[in](auto& x){ return in(x,'A','Z'); },isupper); cls("islower",[in](auto& x){ return in(x,'a','z'); },islower);
    cls("isalpha",[in](auto& x){ return in(x,'a','z')||in(x,'A','Z'); },isalpha); cls("isalnum",[in](auto& x){ return in(x,'a','z')||in(x,'A','Z')||in(x,'0','9'); },isalnum); cls("ispunct",[in](auto& x){ return in(x,33,126)&&!(in(x,'a','z')||in(x,'A','Z')||in(x,'0','9')); },ispunct); cls("isprint",[in](auto& x){ return in(x,32,126); },isprint);
    m["toupper"]=[this,in](auto& a){ if(a[0].isCon()) return V32(toupper((int)a[0].s())); z3::expr x=B(a[0]); return norm(z3::ite(in(x,'a','z'),x-Z().bv_val(32,32),x),32); };
    m["tolower"]=[this,in](auto& a){ if(a[0].isCon()) return V32(tolower((int)a[0].s())); z3::expr x=B(a[0]); return norm(z3::ite(in(x,'A','Z'),x+Z().bv_val(32,32),x),32); };
    // ---- C++ runtime
    m["__cxa_throw"]=[this](auto& a)->Val{ throw CxxThrow{P(a[0]),P(a[1])}; };
    m["__cxa_begin_catch"]=[this](auto& a){ s->caught.push_back(P(a[0])); return a[0]; };
    m["__cxa_end_catch"]=[this](auto&){ if(!s->caught.empty()) s->caught.pop_back(); return Val(); };
    m["__cxa_get_exception_ptr"]=[](auto& a){ return a[0]; };
    m["__cxa_rethrow"]=[this](auto&)->Val{ if(s->caught.empty()) throw Abort("rethrow"); uint64_t o=s->caught.back(); throw CxxThrow{o,s->exTi.count(o)?s->exTi[o]:0}; };
    m["_ZSt9terminatev"]=[](auto&)->Val{ throw Violation{"std::terminate"}; }; m["__clang_call_terminate"]=m["_ZSt9terminatev"];
    m["abort"]=[](auto&)->Val{ throw Violation{"abort()"}; }; m["exit"]=[](auto&)->Val{ throw Violation{"exit()"}; };
    m["__cxa_pure_virtual"]=[](auto&)->Val{ throw Violation{"pure virtual call"}; };
    m["__cxa_bad_cast"]=[this](auto&)->Val{ throwStd("_ZTISt8bad_cast",""); };
    m["__cxa_throw_bad_array_new_length"]=[this](auto&)->Val{ throwStd("_ZTISt20bad_array_new_length",""); };
    m["__cxa_guard_acquire"]=[this](auto& a){ uint64_t p=P(a[0]); Val b=byteAt(p); return V32(b.u()?0:1); };
    m["__cxa_guard_release"]=[this](auto& a){ storeByteCon(P(a[0]),1); return Val(); };
    m["__cxa_guard_abort"]=[](auto&){ return Val(); };
    m["__cxa_atexit"]=[](auto&){ return V32(0); };
    m["__dynamic_cast"]=[this](auto& a){ uint64_t p=P(a[0]); uint64_t st=P(a[1]),dt=P(a[2]); if(!p) return V64(0); 
        uint64_t vp=load(p,Type::getInt64Ty(LC)).u(); uint64_t top=load(vp-16,Type::getInt64Ty(LC)).u(); uint64_t full=p+top; uint64_t dyn=load(vp-8,Type::getInt64Ty(LC)).u();
        // a stand-in object: its memory holds the vtable pointers of the object
        std::vector<uint64_t> buf(512,0); uint64_t fvp=load(full,Type::getInt64Ty(LC)).u(); (void)fvp; (void)dyn;
        uint64_t sz=4096; auto it=s->al->upper_bound(full); if(full>=HEAP0&&full<HEAP1&&it!=s->al->begin()){ --it; sz=std::min<uint64_t>(sz,it->first+it->second.size-full); } else { void* r=abi::__dynamic_cast((void*)p,(const abi::__class_type_info*)st,(const abi::__class_type_info*)dt,a[3].s()); return V64((uint64_t)r); }
        for(uint64_t i=0;i+8<=sz&&i/8<buf.size();i+=8){ Val v=loadRawSafe(full+i); if(v.isCon()) buf[i/8]=v.u(); }
        void* r=abi::__dynamic_cast((void*)((char*)buf.data()+(p-full)),(const abi::__class_type_info*)st,(const abi::__class_type_info*)dt,a[3].s()); if(!r) return V64(0); return V64(full+((char*)r-(char*)buf.data())); };
    m["__gxx_personality_v0"]=[](auto&){ return V32(0); };
    for(auto& t:std::vector<std::pair<const char*,const char*>>{{"_ZSt20__throw_length_errorPKc","_ZTISt12length_error"},{"_ZSt20__throw_out_of_rangePKc","_ZTISt12out_of_range"},{"_ZSt24__throw_out_of_range_fmtPKcz","_ZTISt12out_of_range"},{"_ZSt19__throw_logic_errorPKc","_ZTISt11logic_error"},{"_ZSt17__throw_bad_allocv","_ZTISt9bad_alloc"},{"_ZSt28__throw_bad_array_new_lengthv","_ZTISt20bad_array_new_length"},{"_ZSt25__throw_bad_function_callv","_ZTISt17bad_function_call"},{"_ZSt24__throw_invalid_argumentPKc","_ZTISt16invalid_argument"},{"_ZSt20__throw_runtime_errorPKc","_ZTISt13runtime_error"},{"_ZSt16__throw_bad_castv","_ZTISt8bad_cast"},{"_ZSt21__throw_runtime_errorPKc","_ZTISt13runtime_error"}}){ const char* ti=t.second; m[t.first]=[this,ti](auto&)->Val{ throwStd(ti,""); }; }
    // exception constructors: the message is not modelled
    for(auto n:{"_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt13runtime_errorC1EPKc","_ZNSt13runtime_errorC1ERKS_","_ZNSt13runtime_errorD1Ev","_ZNSt13runtime_errorD2Ev","_ZNSt11logic_errorC1EPKc","_ZNSt11logic_errorC2EPKc","_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt16invalid_argumentC1EPKc","_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt12out_of_rangeC1EPKc","_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt12domain_errorC1EPKc","_ZNSt9exceptionD1Ev","_ZNSt9exceptionD2Ev"}) m[n]=[](auto& a){ return a.empty()?Val():a[0]; };
    // ---- containers' out-of-line parts are in support.cpp (interpreted); hashing of concrete keys
    m["_ZSt11_Hash_bytesPKvmm"]=[this](auto& a){ uint64_t n=P(a[1]); S b=bytes(P(a[0]),n,"hashed key"); static auto f=(size_t(*)(const void*,size_t,size_t))dlsym(RTLD_DEFAULT,"_ZSt11_Hash_bytesPKvmm"); return V64(f(b.data(),n,P(a[2]))); };
    m["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"]=[this](auto& a){ uint64_t p=P(a[0]); uint64_t o[2]; for(int i=0;i<2;++i) o[i]=load(p+8*i,Type::getInt64Ty(LC)).u(); static auto f=(std::pair<bool,size_t>(*)(void*,size_t,size_t,size_t))dlsym(RTLD_DEFAULT,"_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"); auto r=f(o,P(a[1]),P(a[2]),P(a[3])); putBytes(p,o,16); std::vector<Val> v{Val::con(r.first,8),V64(r.second)}; return Val::agg(v); };
    m["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"]=[this](auto& a){ uint64_t p=P(a[0]); uint64_t o[2]; for(int i=0;i<2;++i) o[i]=load(p+8*i,Type::getInt64Ty(LC)).u(); static auto f=(size_t(*)(void*,size_t))dlsym(RTLD_DEFAULT,"_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"); auto r=f(o,P(a[1])); putBytes(p,o,16); return V64(r); };
    // ---- streams: printing has no effect
    for(auto n:{"_ZStls","_ZNSo","_ZNSolsE","_ZSt16__ostream_insert","_ZSt4endl","_ZSt5flush","_ZNSt13basic_ostream","_ZNKSt13basic_ostream","_ZNSt9basic_ios","_ZNKSt9basic_ios","_ZNSt8ios_base","_ZNKSt8ios_base"}) prefixModels.push_back({n,[](auto& a){ return a.empty()?Val():a[0]; }});
    for(auto n:{"_ZNKSt5ctypeIcE13_M_widen_initEv","_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode","puts","printf","putchar","fflush","fprintf","fputs","fwrite","pthread_mutex_lock","pthread_mutex_unlock"}) m[n]=[](auto&){ return V64(0); };
    // ---- mathematics
    m["sqrt"]=[this](auto& a){ return sqrtv(a[0]); }; m["llvm.sqrt.f64"]=m["sqrt"]; m["fabs"]=[this](auto& a){ return fabsv(a[0]); }; m["llvm.fabs.f64"]=m["fabs"]; m["sqrtf"]=m["sqrt"]; m["llvm.sqrt.f32"]=m["sqrt"]; m["llvm.fabs.f32"]=m["fabs"];
#define MATH1(f) m[#f]=[this](auto& a){ return math1(#f,::f,a); };
    MATH1(sin) MATH1(cos) MATH1(tan) MATH1(exp) MATH1(log) MATH1(asin) MATH1(acos) MATH1(atan) MATH1(sinh) MATH1(cosh) MATH1(tanh) MATH1(log10) MATH1(log2) MATH1(exp2) MATH1(cbrt) MATH1(tgamma) MATH1(lgamma) MATH1(erf) MATH1(log1p) MATH1(expm1) MATH1(asinh) MATH1(acosh) MATH1(atanh)
    for(auto n:{"sin","cos","exp","log"}) { m[S("llvm.")+n+".f64"]=m[n]; } m["llvm.exp2.f64"]=m["exp2"];
    m["pow"]=[this](auto& a){ a[0]=pick(a[0]); a[1]=pick(a[1]); if(a[0].isCon()&&a[1].isCon()) return fromD(std::pow(asD(a[0]),asD(a[1]))); int n; if(smallInt(a[1],n)) return powv(a[0],n); if(a[1].isCon()&&asD(a[1])==0.5) return sqrtv(a[0]); return uf("pow",{a[0],a[1]}); }; m["llvm.pow.f64"]=m["pow"]; m["ldexp"]=[this](auto& a){ return fpop(Instruction::FMul,a[0],fromD(std::ldexp(1.,(int)a[1].s())),64); };
    m["llvm.powi.f64.i32"]=[this](auto& a){ if(a[0].isCon()&&a[1].isCon()) return fromD(std::pow(asD(a[0]),(double)a[1].s())); return powv(a[0],(int)concretise(a[1],"powi")); };
    m["atan2"]=[this](auto& a){ if(a[0].isCon()&&a[1].isCon()) return fromD(std::atan2(asD(a[0]),asD(a[1]))); return uf("atan2",{a[0],a[1]}); }; m["llvm.atan2.f64"]=m["atan2"];
    m["fmod"]=[this](auto& a){ if(a[0].isCon()&&a[1].isCon()) return fromD(std::fmod(asD(a[0]),asD(a[1])));
      if(a[1].isCon()&&asD(a[1])!=0){ z3::expr x=R(a[0]), y=R(a[1]), q=x/y; z3::expr t=z3::ite(q>=0,z3::expr(Z(),Z3_mk_int2real(Z(),Z3_mk_real2int(Z(),q))),-z3::expr(Z(),Z3_mk_int2real(Z(),Z3_mk_real2int(Z(),-q)))); Val r=uf("fmod",{a[0],a[1]}); unsigned id=Z3_get_ast_id(Z(),r.e.a); if(!s->roots.count(id)){ s->roots[id]=r.e; s->pc.push_back((r.e.x()==x-y*t)); } return r; }
      return uf("fmod",{a[0],a[1]}); };
    m["hypot"]=[this](auto& a){ if(a[0].isCon()&&a[1].isCon()) return fromD(std::hypot(asD(a[0]),asD(a[1]))); return sqrtv(fpop(Instruction::FAdd,fpop(Instruction::FMul,a[0],a[0],64),fpop(Instruction::FMul,a[1],a[1],64),64)); };
    m["cabs"]=m["hypot"];
    auto fl=[this](auto& a){ if(a[0].isCon()) return fromD(std::floor(asD(a[0])),a[0].w); return floorReal(a[0]); }; m["floor"]=fl; m["llvm.floor.f64"]=fl;
    auto ce=[this](auto& a){ if(a[0].isCon()) return fromD(std::ceil(asD(a[0])),a[0].w); Val n=Val::real(-R(a[0])); Val f=floorReal(n); return norm2real(-R(f),64); }; m["ceil"]=ce; m["llvm.ceil.f64"]=ce;
    auto tr=[this](auto& a){ if(a[0].isCon()) return fromD(std::trunc(asD(a[0])),a[0].w); if(branch(R(a[0])>=0)) return floorReal(a[0]); return norm2real(-R(floorReal(Val::real(-R(a[0])))),64); }; m["trunc"]=tr; m["llvm.trunc.f64"]=tr;
    auto rd=[this](auto& a){ if(a[0].isCon()) return fromD(std::round(asD(a[0])),a[0].w); z3::expr h=Z().real_val("1/2"); if(branch(R(a[0])>=0)) return floorReal(Val::real(R(a[0])+h)); return norm2real(-R(floorReal(Val::real(-R(a[0])+h))),64); }; m["round"]=rd; m["llvm.round.f64"]=rd;
    auto mx=[this](bool big){ return [this,big](auto& a){ if(a[0].isCon()&&a[1].isCon()) return fromD(big?std::fmax(asD(a[0]),asD(a[1])):std::fmin(asD(a[0]),asD(a[1])),a[0].w); if(s->merge) return uf(big?"fmax":"fmin",{a[0],a[1]},a[0].w); bool g=branch(R(a[0])>=R(a[1])); return g==big?a[0]:a[1]; }; }; m["fmax"]=mx(true); m["fmin"]=mx(false); m["llvm.maxnum.f64"]=mx(true); m["llvm.minnum.f64"]=mx(false);
    auto fma=[this](auto& a){ return fpop(Instruction::FAdd,fpop(Instruction::FMul,a[0],a[1],a[0].w),a[2],a[0].w); }; for(auto n:{"fma","llvm.fma.f64","llvm.fmuladd.f64","llvm.fma.f32","llvm.fmuladd.f32"}) m[n]=fma;
    m["llvm.copysign.f64"]=[this](auto& a){ if(a[0].isCon()&&a[1].isCon()) return fromD(std::copysign(asD(a[0]),asD(a[1]))); Val x=fabsv(a[0]); bool neg= a[1].isCon()? std::signbit(asD(a[1])) : branch(R(a[1])<0); return neg? (x.isCon()?fromD(-asD(x)):Val::real(-R(x))) : x; }; m["copysign"]=m["llvm.copysign.f64"];
    // vector forms of the same intrinsics
    for(auto n:{"llvm.sqrt.","llvm.fabs.","llvm.fma.","llvm.fmuladd.","llvm.floor.","llvm.round.","llvm.trunc.","llvm.ceil.","llvm.maxnum.","llvm.minnum."}){ S base=S(n)+"f64"; for(int k:{2,4,8}){ S vn=S(n)+"v"+std::to_string(k)+"f64"; auto h=m[base]; m[vn]=[h](auto& a){ std::vector<Val> r; for(size_t i=0;i<a[0].a->size();++i){ std::vector<Val> q; for(auto& x:a) q.push_back((*x.a)[i]); r.push_back(h(q)); } return Val::agg(r); }; } }
    m["__muldc3"]=[this](auto& a){ auto mul=[&](const Val& x,const Val& y){ return fpop(Instruction::FMul,x,y,64); }; std::vector<Val> v{fpop(Instruction::FSub,mul(a[0],a[2]),mul(a[1],a[3]),64),fpop(Instruction::FAdd,mul(a[0],a[3]),mul(a[1],a[2]),64)}; return Val::agg(v); };
    m["__divdc3"]=[this](auto& a){ auto mul=[&](const Val& x,const Val& y){ return fpop(Instruction::FMul,x,y,64); }; Val d=fpop(Instruction::FAdd,mul(a[2],a[2]),mul(a[3],a[3]),64); Val re=fpop(Instruction::FAdd,mul(a[0],a[2]),mul(a[1],a[3]),64), im=fpop(Instruction::FSub,mul(a[1],a[2]),mul(a[0],a[3]),64); std::vector<Val> v{fpop(Instruction::FDiv,re,d,64),fpop(Instruction::FDiv,im,d,64)}; return Val::agg(v); };
    // complex elementary functions: exact in terms of the real ones
    auto pairv=[](const Val& x,const Val& y){ std::vector<Val> v{x,y}; return Val::agg(v); };
    auto conc=[this](std::vector<Val>& a){ for(auto& x:a) x=pick(x); for(auto& x:a) if(!x.isCon()) return false; return true; };
    auto zer=[this](Val& v){ v=pick(v); if(!v.isCon()){ z3::expr e=R(v).simplify(); if(e.is_numeral()&&e.get_decimal_string(3)=="0") v=fromD(0); } return v.isCon()&&asD(v)==0; };
#define CMATH(f) m["c" #f]=[this,pairv,conc,zer](auto& a){ if(conc(a)){ auto z=std::f(std::complex<double>(asD(a[0]),asD(a[1]))); return pairv(fromD(z.real()),fromD(z.imag())); } S n=#f; std::vector<Val> q{a[0]}; \
      if(zer(a[1])){ if(n=="exp"||n=="sin"||n=="cos"||n=="tan"||n=="atan") return pairv(models[n](q),fromD(0)); if(n=="sqrt"&&!s->merge){ if(branch(R(a[0])>=0)) return pairv(models["sqrt"](q),fromD(0)); q[0]=Val::real(-R(a[0])); return pairv(fromD(0),models["sqrt"](q)); } if(n=="log"&&!s->merge&&branch(R(a[0])>0)) return pairv(models["log"](q),fromD(0)); if((n=="asin"||n=="acos")&&!s->merge&&branch(R(a[0])<=1&&R(a[0])>=-1)) return pairv(models[n](q),fromD(0)); } \
      if(n=="exp"&&zer(a[0])){ std::vector<Val> w{a[1]}; Val x=models["cos"](w); std::vector<Val> w2{a[1]}; return pairv(x,models["sin"](w2)); } \
      return pairv(uf("c" #f "_re",{a[0],a[1]}),uf("c" #f "_im",{a[0],a[1]})); };
    CMATH(exp) CMATH(log) CMATH(sin) CMATH(cos) CMATH(tan) CMATH(sqrt) CMATH(asin) CMATH(acos) CMATH(atan) CMATH(sinh) CMATH(cosh) CMATH(tanh)
    m["cpow"]=[this,pairv,conc,zer](auto& a){ if(conc(a)){ auto z=std::pow(std::complex<double>(asD(a[0]),asD(a[1])),std::complex<double>(asD(a[2]),asD(a[3]))); return pairv(fromD(z.real()),fromD(z.imag())); } int n; if(zer(a[3])&&smallInt(a[2],n)){ if(n==0) return pairv(fromD(1),fromD(0)); Val r=pairv(a[0],a[1]); auto& mul=models["__muldc3"]; for(int i=1;i<std::abs(n);++i){ std::vector<Val> q{(*r.a)[0],(*r.a)[1],a[0],a[1]}; r=mul(q); } if(n<0){ std::vector<Val> q{fromD(1),fromD(0),(*r.a)[0],(*r.a)[1]}; r=models["__divdc3"](q); } return r; }
      if(zer(a[3])&&a[2].isCon()&&asD(a[2])==.5){ std::vector<Val> q{a[0],a[1]}; return models["csqrt"](q); }
      if(zer(a[1])&&zer(a[3])&&branch(R(a[0])>0)){ std::vector<Val> q{a[0],a[2]}; return pairv(models["pow"](q),fromD(0)); }
      return pairv(uf("cpow_re",{a[0],a[1],a[2],a[3]}),uf("cpow_im",{a[0],a[1],a[2],a[3]})); };
    m["__cxa_demangle"]=[this](auto& a){ S t=cstring(P(a[0])); int st; char* d=abi::__cxa_demangle(t.c_str(),nullptr,nullptr,&st); uint64_t sp=P(a[3]); if(sp) putBytes(sp,&st,4); if(!d) return V64(0); uint64_t n=strlen(d)+1,o=alloc(n,false); putBytes(o,d,n); ::free(d); return V64(o); };
    // ---- intrinsics without effect
    for(auto n:{"llvm.lifetime.start","llvm.lifetime.end","llvm.assume","llvm.experimental.noalias.scope.decl","llvm.donothing","llvm.dbg.","llvm.invariant","llvm.prefetch","llvm.va_end"}) prefixModels.push_back({n,[](auto&){ return Val(); }});
    prefixModels.push_back({"llvm.load.relative",[this](auto& a){ uint64_t b=P(a[0]); uint64_t o=concretise(a[1],"relative load"); return V64(b+load(b+o,Type::getInt32Ty(LC)).s()); }});
    prefixModels.push_back({"llvm.memcpy",cp}); prefixModels.push_back({"llvm.memmove",cp}); prefixModels.push_back({"llvm.memset",m["memset"]});
    prefixModels.push_back({"llvm.expect",[](auto& a){ return a[0]; }}); prefixModels.push_back({"llvm.launder",[](auto& a){ return a[0]; }}); prefixModels.push_back({"llvm.threadlocal.address",[](auto& a){ return a[0]; }});
    prefixModels.push_back({"llvm.is.constant",[](auto&){ return Val::con(0,1); }}); prefixModels.push_back({"llvm.objectsize",[](auto&){ return V64(~0ull); }});
    m["llvm.eh.typeid.for"]=[this](auto& a){ return V32(typeId(P(a[0]))); }; m["llvm.eh.typeid.for.p0"]=m["llvm.eh.typeid.for"];
    m["llvm.trap"]=[](auto&)->Val{ throw Violation{"trap"}; };
    m["llvm.stacksave.p0"]=[this](auto&){ return V64(s->sp); }; m["llvm.stackrestore.p0"]=[](auto&){ return Val(); };
    auto lift=[this](std::function<Val(const Val&,const Val&)> f){ return [f](auto& a)->Val{ if(a[0].k==AGG){ std::vector<Val> r; for(size_t i=0;i<a[0].a->size();++i) r.push_back(f((*a[0].a)[i],(*a[1].a)[i])); return Val::agg(r); } return f(a[0],a[1]); }; };
    auto mm=[this,lift](CmpInst::Predicate p){ return lift([this,p](const Val& x,const Val& y){ return selectv(icmp(p,x,y),x,y); }); };
    prefixModels.push_back({"llvm.umax",mm(CmpInst::ICMP_UGT)}); prefixModels.push_back({"llvm.umin",mm(CmpInst::ICMP_ULT)}); prefixModels.push_back({"llvm.smax",mm(CmpInst::ICMP_SGT)}); prefixModels.push_back({"llvm.smin",mm(CmpInst::ICMP_SLT)});
    prefixModels.push_back({"llvm.abs",[this](auto& a){ auto f=[this](const Val& x){ return selectv(icmp(CmpInst::ICMP_SLT,x,Val::con(0,x.w)),intop(Instruction::Sub,Val::con(0,x.w),x,x.w),x); }; if(a[0].k==AGG){ std::vector<Val> r; for(auto& x:*a[0].a) r.push_back(f(x)); return Val::agg(r); } return f(a[0]); }});
    prefixModels.push_back({"llvm.usub.sat",lift([this](const Val& x,const Val& y){ return selectv(icmp(CmpInst::ICMP_UGT,x,y),intop(Instruction::Sub,x,y,x.w),Val::con(0,x.w)); })});
    auto ovf=[this](unsigned op,bool sg){ return [this,op,sg](auto& a){ uint32_t w=a[0].w; Val r=intop(op,a[0],a[1],w); Val o; if(a[0].isCon()&&a[1].isCon()){ bool f; if(sg){ __int128 x=sx(a[0]),y=sx(a[1]); __int128 z=op==Instruction::Add?x+y:op==Instruction::Sub?x-y:x*y; f=z!=sx(r); } else { unsigned __int128 x=a[0].c,y=a[1].c; f= op==Instruction::Sub? x<y : ((op==Instruction::Add?x+y:x*y)!=r.c); } o=Val::con(f,1); } else { auto ext=[&](const Val& v){ return sg? z3::sext(B(v),w) : z3::zext(B(v),w); }; z3::expr x=ext(a[0]),y=ext(a[1]); z3::expr z= op==Instruction::Add?x+y:op==Instruction::Sub?x-y:x*y; o=norm(z!=ext(r),1); } std::vector<Val> v{r,o}; return Val::agg(v); }; };
    prefixModels.push_back({"llvm.uadd.with.overflow",ovf(Instruction::Add,false)}); prefixModels.push_back({"llvm.sadd.with.overflow",ovf(Instruction::Add,true)}); prefixModels.push_back({"llvm.usub.with.overflow",ovf(Instruction::Sub,false)}); prefixModels.push_back({"llvm.ssub.with.overflow",ovf(Instruction::Sub,true)}); prefixModels.push_back({"llvm.umul.with.overflow",ovf(Instruction::Mul,false)}); prefixModels.push_back({"llvm.smul.with.overflow",ovf(Instruction::Mul,true)});
    auto conop=[this](std::function<uint64_t(uint64_t,uint32_t)> f){ return [this,f](auto& a){ return Val::con(f(concretise(a[0],"bit count"),a[0].w),a[0].w); }; };
    prefixModels.push_back({"llvm.ctpop",conop([](uint64_t x,uint32_t){ return (uint64_t)__builtin_popcountll(x); })});
    prefixModels.push_back({"llvm.ctlz",conop([](uint64_t x,uint32_t w){ return x? (uint64_t)__builtin_clzll(x)-(64-w) : (uint64_t)w; })});
    prefixModels.push_back({"llvm.cttz",conop([](uint64_t x,uint32_t w){ return x? (uint64_t)__builtin_ctzll(x) : (uint64_t)w; })});
    prefixModels.push_back({"llvm.bswap",[this](auto& a){ uint32_t w=a[0].w; uint64_t x=concretise(a[0],"bswap"),r=0; for(uint32_t i=0;i<w;i+=8) r|=((x>>i)&255)<<(w-8-i); return Val::con(r,w); }});
    auto fsh=[this](bool left){ return [this,left](auto& a){ uint32_t w=a[0].w; uint64_t k=concretise(a[2],"shift")%w; if(!k) return left?a[0]:a[1]; Val hi=intop(Instruction::Shl,a[0],Val::con(left?k:w-k,w),w), lo=intop(Instruction::LShr,a[1],Val::con(left?w-k:k,w),w); return intop(Instruction::Or,hi,lo,w); }; };
    prefixModels.push_back({"llvm.fshl",fsh(true)}); prefixModels.push_back({"llvm.fshr",fsh(false)});
    prefixModels.push_back({"llvm.is.fpclass",[this](auto& a){ if(a[0].isCon()){ double d=asD(a[0]); uint32_t k=a[1].u(); bool r=false; if(std::isnan(d)) r=k&3; else if(std::isinf(d)) r=d<0?k&4:k&512; else if(d==0) r=std::signbit(d)?k&32:k&64; else if(std::fpclassify(d)==FP_SUBNORMAL) r=d<0?k&16:k&128; else r=d<0?k&8:k&256; return Val::con(r,1); } uint32_t k=a[1].u(); if((k&0x108)==0x108&&(k&0xF0)!=0) return Val::con(1,1); if((k&0x1F8)==0) return Val::con(0,1); throw Abort("is.fpclass of a real"); }});
    m["llvm.va_start"]=[](auto&)->Val{ throw Abort("va_start"); };
    auto red=[this](unsigned op,bool fp){ return [this,op,fp](auto& a){ size_t i=0; Val r; auto& v=*a.back().a; if(fp){ r=a[0]; } else { r=v[0]; i=1; } for(;i<v.size();++i) r=fp?fpop(op,r,v[i],v[i].w):intop(op,r,v[i],v[i].w); return r; }; };
    prefixModels.push_back({"llvm.vector.reduce.fadd",red(Instruction::FAdd,true)}); prefixModels.push_back({"llvm.vector.reduce.fmul",red(Instruction::FMul,true)}); prefixModels.push_back({"llvm.vector.reduce.add",red(Instruction::Add,false)}); prefixModels.push_back({"llvm.vector.reduce.or",red(Instruction::Or,false)}); prefixModels.push_back({"llvm.vector.reduce.and",red(Instruction::And,false)}); prefixModels.push_back({"llvm.vector.reduce.xor",red(Instruction::Xor,false)});
    // ---- x86
    m["llvm.x86.avx.round.pd.256"]=[this](auto& a){ uint64_t md=a[1].u()&7; std::vector<Val> r; for(auto& x:*a[0].a){ std::vector<Val> q{x}; r.push_back(models[md==1?"floor":md==2?"ceil":md==3?"trunc":"rint"](q)); } return Val::agg(r); };
    m["rint"]=[this](auto& a){ if(a[0].isCon()) return fromD(std::nearbyint(asD(a[0])),a[0].w); return uf("rint",{a[0]}); }; m["nearbyint"]=m["rint"]; m["llvm.rint.f64"]=m["rint"]; m["llvm.nearbyint.f64"]=m["rint"];
    m["lrint"]=[this](auto& a){ if(a[0].isCon()) return V64(std::lrint(asD(a[0]))); throw Abort("lrint"); };
    m["llvm.x86.avx.movmsk.pd.256"]=[this](auto& a){ Val r=V32(0); for(size_t i=0;i<a[0].a->size();++i){ Val sgn=icmp(CmpInst::ICMP_SLT,(*a[0].a)[i],Val::con(0,64)); r=intop(Instruction::Or,r,intop(Instruction::Shl,castop(Instruction::ZExt,sgn,nullptr,Type::getInt32Ty(LC)),V32(i),32),32); } return r; };
    m["llvm.x86.avx.blendv.pd.256"]=[this](auto& a){ std::vector<Val> r; for(size_t i=0;i<a[0].a->size();++i){ Val sgn=icmp(CmpInst::ICMP_SLT,(*a[2].a)[i],Val::con(0,64)); r.push_back(selectv(sgn,(*a[1].a)[i],(*a[0].a)[i])); } return Val::agg(r); };
    m["llvm.x86.avx.cmp.pd.256"]=[this](auto& a)->Val{ static const CmpInst::Predicate pr[]={CmpInst::FCMP_OEQ,CmpInst::FCMP_OLT,CmpInst::FCMP_OLE,CmpInst::FCMP_UNO,CmpInst::FCMP_UNE,CmpInst::FCMP_UGE,CmpInst::FCMP_UGT,CmpInst::FCMP_ORD}; std::vector<Val> r; unsigned k=a[2].u(); CmpInst::Predicate p= k<8?pr[k]: k==13?CmpInst::FCMP_OGE:k==14?CmpInst::FCMP_OGT:k==12?CmpInst::FCMP_ONE:k==17?CmpInst::FCMP_OLT:k==30?CmpInst::FCMP_OGT:CmpInst::FCMP_OEQ; for(size_t i=0;i<a[0].a->size();++i) r.push_back(castop(Instruction::SExt,fcmp(p,(*a[0].a)[i],(*a[1].a)[i]),nullptr,Type::getInt64Ty(LC))); return Val::agg(r); };
    m["llvm.x86.avx2.gather.q.pd.256"]=[this](auto& a){ std::vector<Val> r; uint64_t base=P(a[1]); for(size_t i=0;i<4;++i) r.push_back(load(base+(int64_t)concretise((*a[2].a)[i],"gather")*(int64_t)a[4].s(),Type::getDoubleTy(LC))); return Val::agg(r); };
    // libmvec: one lane at a time
    struct MV{const char* n; const char* f;}; for(auto& v:std::vector<MV>{{"_ZGVdN4v_cos","cos"},{"_ZGVdN4v_sin","sin"},{"_ZGVdN4v_exp","exp"},{"_ZGVdN4v_log","log"},{"_ZGVdN4v_tan","tan"},{"_ZGVdN4v_asin","asin"},{"_ZGVdN4v_acos","acos"}}){ S fn=v.f; m[v.n]=[this,fn](auto& a){ std::vector<Val> r; for(auto& x:*a[0].a){ std::vector<Val> q{x}; r.push_back(models[fn](q)); } return Val::agg(r); }; }
    for(auto f:{"sin","cos","exp","log","tan"}) m[S("_ZGVcN4v_")+f]=m[S("_ZGVdN4v_")+f];
    m["_ZGVdN4vvv_sincos"]=[this](auto& a){ for(size_t i=0;i<4;++i){ std::vector<Val> q{(*a[0].a)[i]}; store(P((*a[1].a)[i]),models["sin"](q),Type::getDoubleTy(LC)); store(P((*a[2].a)[i]),models["cos"](q),Type::getDoubleTy(LC)); } return Val(); };
    m["_ZGVdN4vv_atan2"]=[this](auto& a){ std::vector<Val> r; for(size_t i=0;i<4;++i){ std::vector<Val> q{(*a[0].a)[i],(*a[1].a)[i]}; r.push_back(models["atan2"](q)); } return Val::agg(r); };
    m["_ZGVdN4vv_pow"]=[this](auto& a){ std::vector<Val> r; for(size_t i=0;i<4;++i){ std::vector<Val> q{(*a[0].a)[i],(*a[1].a)[i]}; r.push_back(models["pow"](q)); } return Val::agg(r); };
  }
  Val loadRawSafe(uint64_t a){ for(int i=0;i<8;++i){ const Page* p=rpage(a+i); unsigned o=(a+i)&255; if(p&&p->written(o)&&p->s&&(*p->s)[o].v) return Val::sym(Z().bv_val(0,64),64); } return loadRaw(a,8,64); }
  void setErrno(){ int e=errno; uint64_t p=(uint64_t)__errno_location(); for(int i=0;i<4;++i) storeByteCon(p+i,((uint8_t*)&e)[i]); }
  H* findModel(const S& n){ auto c=modelCache.find(n); if(c!=modelCache.end()) return c->second; H* r=nullptr; auto it=models.find(n); if(it!=models.end()) r=&it->second; else { size_t best=0; for(auto& p:prefixModels) if(n.compare(0,p.first.size(),p.first)==0&&p.first.size()>best){ best=p.first.size(); r=&p.second; } } modelCache[n]=r; return r; }
