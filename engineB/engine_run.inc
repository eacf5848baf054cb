  // ---------------- interpreter (inside struct Engine)
  int tier=0; std::vector<State> finished; S replayer;
  int known(const z3::expr& c){ // 1: on the path condition, 0: its negation is
    z3::expr n=(!c).simplify(); for(auto it=s->pc.rbegin();it!=s->pc.rend();++it){ if(it->a==(Z3_ast)c) return 1; if(it->a==(Z3_ast)n) return 0; } for(auto it=s->implied.rbegin();it!=s->implied.rend();++it){ if(it->a==(Z3_ast)c) return 1; if(it->a==(Z3_ast)n) return 0; } return -1; }
  static void jump(State& st,BasicBlock* to){ auto& fr=st.st.back(); fr.prev=fr.bb; fr.bb=to; fr.it=to->begin(); }
  void doPhis(){ auto& fr=s->st.back(); std::vector<std::pair<Instruction*,Val>> v; auto it=fr.bb->begin(); for(;it!=fr.bb->end();++it){ auto ph=dyn_cast<PHINode>(&*it); if(!ph) break; v.push_back({ph,get(ph->getIncomingValueForBlock(fr.prev))}); } for(auto& p:v) set(p.first,p.second); fr.it=it; }
  void enter(BasicBlock* to){ jump(*s,to); doPhis(); }
  static void setIn(State& st,const Instruction* i,Val v){ auto& fr=st.st.back(); if(i->getType()->isVoidTy()) return; fr.loc[fr.fi->num.find(i)->second]=std::move(v); }
  void retInto(State& o,Val v){ State* keep=s; s=&o; finishCall(v); s=keep; }
  static Val fit(Val v,Type* t){ if(v.k==CON&&!t->isVoidTy()&&!t->isAggregateType()&&!t->isVectorTy()){ uint32_t w=width(t); if(v.w!=w) return Val::con(v.c,w); } return v; }
  void finishCall(Val v){ auto& fr=s->st.back(); Instruction* I=&*fr.it; if(!I->getType()->isVoidTy()) set(I,fit(v,I->getType())); if(auto inv=dyn_cast<InvokeInst>(I)) enter(inv->getNormalDest()); else ++fr.it; }
  void popFrame(){ auto& fr=s->st.back(); if(!fr.allocas.empty()){ auto& A=s->A(); for(auto a:fr.allocas) A.erase(a); } s->sp=fr.sp0; s->st.pop_back(); }
  void unwind(uint64_t obj,uint64_t ti){
    s->exTi[obj]=ti;
    while(!s->st.empty()){
      auto& fr=s->st.back(); Instruction* I=&*fr.it;
      if(auto inv=dyn_cast<InvokeInst>(I)){ auto lp=inv->getUnwindDest()->getLandingPadInst(); bool hit=false; int sel=0;
        for(unsigned i=0;i<lp->getNumClauses()&&!hit;++i) if(lp->isCatch(i)){ uint64_t ct=constant(lp->getClause(i)).u(); uint64_t o=obj; if(catches(ct,ti,o)){ hit=true; sel=typeId(ct); } } else { hit=true; sel=-1; }
        if(hit||lp->isCleanup()){ jump(*s,inv->getUnwindDest()); doPhis(); s->lpObj=obj; s->lpSel=sel; return; } }
      popFrame(); }
    const char* nm= ti? ((const std::type_info*)ti)->name() : "?"; int st=0; char* d=abi::__cxa_demangle(nm,0,0,&st); S n=st==0&&d?d:nm; free(d);
    if(s->expectThrow) throw PathEnd(); throw Violation{"uncaught exception "+n}; }
  Function* target(CallBase* cb,S& name){
    Value* cv=cb->getCalledOperand()->stripPointerCasts(); Function* f=dyn_cast<Function>(cv); if(!f) if(auto ga=dyn_cast<GlobalAlias>(cv)) f=dyn_cast<Function>(ga->getAliaseeObject());
    if(!f){ uint64_t a=concretise(get(cb->getCalledOperand()),"call target"); if(!a) throw Violation{"call through a null function pointer"}; auto it=addr2fn.find(a); if(it!=addr2fn.end()) f=it->second;
      else { Dl_info di; auto an=addrName.find(a); if(an!=addrName.end()) name=an->second; else if(dladdr((void*)a,&di)&&di.dli_sname&&(uint64_t)di.dli_saddr==a) name=di.dli_sname; else throw Abort("call of an unknown address"); auto d=fdef.find(name); if(d!=fdef.end()){ f=d->second; addr2fn[a]=f; } else return nullptr; } }
    name=f->getName().str(); if((f->isDeclaration()&&!f->isMaterializable())||f->isWeakForLinker()){ auto d=fdef.find(name); if(d!=fdef.end()&&(!f->isWeakForLinker()||!d->second->isWeakForLinker())) f=d->second; } return f; }
  const std::map<S,S> supportMap{{"_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base","sup_inc"},{"_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base","sup_inc"},{"_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base","sup_dec"},{"_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base","sup_dec"},{"_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_","sup_insert"},{"_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_","sup_erase"},{"_ZNSt8__detail15_List_node_base7_M_hookEPS0_","sup_list_hook"},{"_ZNSt8__detail15_List_node_base9_M_unhookEv","sup_list_unhook"},{"_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_","sup_list_transfer"}};
  void pushFrame(Function* f,std::vector<Val> args,CallBase* cb){
    ensureNumbered(f); executed.insert(f); if(s->st.size()>400) throw Abort("call depth");
    Frame fr; fr.f=f; fr.fi=&finfo[f]; fr.bb=&f->getEntryBlock(); fr.prev=nullptr; fr.it=fr.bb->begin(); fr.loc.resize(finfo[f].n); fr.sp0=s->sp;
    unsigned n=f->arg_size(); for(unsigned i=0;i<n&&i<args.size();++i){ if(cb&&cb->isByValArgument(i)){ Type* t=cb->getParamByValType(i); uint64_t sz=DL->getTypeAllocSize(t); uint64_t a=alloc(sz,true); fr.allocas.push_back(a); copyBytes(a,concretise(args[i],"byval"),sz); fr.loc[i]=V64(a); } else fr.loc[i]=args[i]; }
    for(unsigned i=n;i<args.size();++i) fr.varargs.push_back(args[i]);
    s->st.push_back(std::move(fr)); }
  void call(CallBase* cb){
    if(cb->isInlineAsm()){ auto ia=cast<InlineAsm>(cb->getCalledOperand()); if(ia->getAsmString().empty()){ finishCall(cb->arg_size()&&!cb->getType()->isVoidTy()?get(cb->getArgOperand(0)):Val()); return; } throw Abort("inline assembly"); }
    S name; Function* f=target(cb,name); std::vector<Val> args; for(auto& a:cb->args()){ if(a->getType()->isMetadataTy()) args.push_back(Val()); else args.push_back(get(a)); }
    if(name.compare(0,13,"llvm.va_start")==0){ auto& fr=s->st.back(); uint64_t n=fr.varargs.size(); uint64_t ov=alloc(8*n+8,false); for(uint64_t i=0;i<n;++i) store(ov+8*i,fr.varargs[i],fr.varargs[i].k==CON&&fr.varargs[i].w==32?Type::getInt32Ty(LC):Type::getInt64Ty(LC)); uint64_t p=args[0].u(); uint32_t gp=48,fp=176; putBytes(p,&gp,4); putBytes(p+4,&fp,4); putBytes(p+8,&ov,8); uint64_t z=0; putBytes(p+16,&z,8); finishCall(Val()); return; }
    if(H* h=findModel(name)){ if(name.compare(0,4,"llvm")&&name.compare(0,4,"sym_")) modelled.insert(name); finished.clear(); Val r=(*h)(args); finishCall(r); return; }
    auto sm=supportMap.find(name); if(sm!=supportMap.end()) f=fdef.at(sm->second);
    if(!f||(f->isDeclaration()&&!f->isMaterializable())) throw Abort("no model for external function "+demangle(name));
    pushFrame(f,std::move(args),cb); }
  static S demangle(const S& n){ int st=0; char* d=abi::__cxa_demangle(n.c_str(),0,0,&st); S r=st==0&&d?d:n; free(d); return r; }
  // all feasible values of a pointer (or index)
  z3::expr lit0(const z3::expr& e,uint32_t w){ if(w==1) return e||!e; z3::expr k=Z().bv_const("any!value",w); return e==k; }
  std::vector<uint64_t> feasibleValues(const z3::expr& e,uint32_t w,unsigned limit,const char* why){
    std::vector<uint64_t> vals; z3::expr block=Z().bool_val(true);
    auto lit=[&](uint64_t x){ return w==1? (x?e:!e) : e==Z().bv_val(x,w); };
    if(s->model){ z3::expr x=valueUnder(s->model,e); if(w==1?(x.is_true()||x.is_false()):x.is_numeral()){ uint64_t u=w==1?x.is_true():x.get_numeral_uint64(); vals.push_back(u); block=!lit(u); } }
    for(;;){ Mdl m; z3::expr q=block.simplify(); if(q.is_false()) break; if(q.is_true()) q=(e==e); auto r=query(s->pc,vals.empty()?lit0(e,w):q,nullptr,&m); if(r==z3::unknown) throw Abort("solver gave up while enumerating values"); if(r==z3::unsat) break; z3::expr x=valueUnder(m,e); uint64_t u=w==1?x.is_true():x.get_numeral_uint64(); vals.push_back(u); block=block&&!lit(u); if(vals.size()>limit) throw Abort(S("too many values for ")+why); }
    if(vals.empty()) throw PathEnd(); return vals; }
  Val loadV(const Val& p,Type* t){
    if(p.isCon()) return load(p.u(),t);
    auto vals=feasibleValues(p.e.x(),64,1024,"load address");
    if(vals.size()==1) return load(vals[0],t);
    bool ok=!t->isAggregateType()&&!t->isVectorTy()&&!t->isDoubleTy()&&!t->isFloatTy(); std::vector<Val> v; 
    if(ok) for(auto a:vals){ try{ v.push_back(load(a,t)); } catch(Violation& x){ violation(x.what,p.e.x()==Z().bv_val(a,64)); throw PathEnd(); } if(v.back().k==REAL) ok=false; }
    if(!ok){ uint64_t a=concretise(p,"load address",1024); return load(a,t); }
    uint32_t w=width(t); z3::expr e=B(v[0]); for(size_t i=1;i<v.size();++i) e=z3::ite(p.e.x()==Z().bv_val(vals[i],64),B(v[i]),e); return norm(e,w); }
  void exec(Instruction* I){
    auto& fr=s->st.back();
    switch(I->getOpcode()){
      case Instruction::Ret: { Val v; auto r=cast<ReturnInst>(I); if(r->getReturnValue()) v=get(r->getReturnValue()); popFrame(); if(s->st.empty()) throw PathEnd(); finishCall(v); return; }
      case Instruction::Br: { auto b=cast<BranchInst>(I); if(b->isUnconditional()){ enter(b->getSuccessor(0)); return; } Val c=get(b->getCondition()); bool t=c.isCon()?c.u():branch(B(c)); enter(b->getSuccessor(t?0:1)); return; }
      case Instruction::Switch: { auto sw=cast<SwitchInst>(I); Val c=get(sw->getCondition());
        if(c.isCon()){ for(auto& k:sw->cases()) if(k.getCaseValue()->getZExtValue()==(uint64_t)(c.c&mask(c.w))) { enter(k.getCaseSuccessor()); return; } enter(sw->getDefaultDest()); return; }
        for(auto& k:sw->cases()){ if(branch(B(c)==Z().bv_val((uint64_t)k.getCaseValue()->getZExtValue(),c.w))){ enter(k.getCaseSuccessor()); return; } } enter(sw->getDefaultDest()); return; }
      case Instruction::Unreachable: throw Violation{"unreachable code reached"};
      case Instruction::Resume: { Val v=get(I->getOperand(0)); uint64_t o=(*v.a)[0].u(); popFrame(); unwind(o,s->exTi[o]); return; }
      case Instruction::LandingPad: { std::vector<Val> v{V64(s->lpObj),V32(s->lpSel)}; set(I,Val::agg(v)); ++fr.it; return; }
      case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
      case Instruction::Alloca: { auto a=cast<AllocaInst>(I); uint64_t n=DL->getTypeAllocSize(a->getAllocatedType())*concretise(get(a->getArraySize()),"alloca size"); uint64_t p=alloc(n,true,std::max<uint64_t>(16,a->getAlign().value())); fr.allocas.push_back(p); set(I,V64(p)); break; }
      case Instruction::Load: { auto l=cast<LoadInst>(I); set(I,loadV(get(l->getPointerOperand()),l->getType())); break; }
      case Instruction::Store: { auto st=cast<StoreInst>(I); uint64_t a=concretise(get(st->getPointerOperand()),"store address",1024); store(a,get(st->getValueOperand()),st->getValueOperand()->getType()); break; }
      case Instruction::GetElementPtr: { auto g=cast<GetElementPtrInst>(I); if(g->getType()->isVectorTy()) throw Abort("vector gep"); Val p=get(g->getPointerOperand()); for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ if(auto stt=it.getStructTypeOrNull()){ uint64_t o=DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); if(o) p=intop(Instruction::Add,p,V64(o),64); } else { Val i=get(it.getOperand()); if(i.isCon()){ i=Val::con((unsigned __int128)sx(i),64); } else if(i.w<64) i=castop(Instruction::SExt,i,nullptr,Type::getInt64Ty(LC)); uint64_t sz=DL->getTypeAllocSize(it.getIndexedType()); p=intop(Instruction::Add,p,intop(Instruction::Mul,i,V64(sz),64),64); } } set(I,p); break; }
      case Instruction::ICmp: set(I,icmp(cast<ICmpInst>(I)->getPredicate(),get(I->getOperand(0)),get(I->getOperand(1)))); break;
      case Instruction::FCmp: set(I,fcmp(cast<FCmpInst>(I)->getPredicate(),get(I->getOperand(0)),get(I->getOperand(1)))); break;
      case Instruction::Select: set(I,selectv(get(I->getOperand(0)),get(I->getOperand(1)),get(I->getOperand(2)))); break;
      case Instruction::FNeg: { Val a=get(I->getOperand(0)); auto ng=[&](const Val& v){ if(v.isCon()) return fromD(-asD(v),v.w); return mkReal(-R(v),v.w); }; if(a.k==AGG){ std::vector<Val> r; for(auto& x:*a.a) r.push_back(ng(x)); set(I,Val::agg(r)); } else set(I,ng(a)); break; }
      case Instruction::Freeze: set(I,get(I->getOperand(0))); break;
      case Instruction::ExtractValue: { auto e=cast<ExtractValueInst>(I); Val v=get(e->getAggregateOperand()); for(auto i:e->indices()){ Val x=(*v.a)[i]; v=x; } set(I,v); break; }
      case Instruction::InsertValue: { auto e=cast<InsertValueInst>(I); Val v=get(e->getAggregateOperand()); std::vector<unsigned> ix(e->idx_begin(),e->idx_end()); Val x=get(e->getInsertedValueOperand()); std::function<Val(Val,size_t)> ins=[&](Val a,size_t d)->Val{ if(d==ix.size()) return x; auto c=*a.a; c[ix[d]]=ins(c[ix[d]],d+1); return Val::agg(c); }; set(I,ins(v,0)); break; }
      case Instruction::ExtractElement: { Val v=get(I->getOperand(0)); uint64_t i=concretise(get(I->getOperand(1)),"vector index"); set(I,(*v.a).at(i)); break; }
      case Instruction::InsertElement: { Val v=get(I->getOperand(0)); uint64_t i=concretise(get(I->getOperand(2)),"vector index"); auto c=*v.a; c.at(i)=get(I->getOperand(1)); set(I,Val::agg(c)); break; }
      case Instruction::ShuffleVector: { auto sv=cast<ShuffleVectorInst>(I); Val a=get(sv->getOperand(0)),b=get(sv->getOperand(1)); std::vector<Val> r; int n=a.a->size(); for(int k:sv->getShuffleMask()){ if(k<0) r.push_back((*a.a)[0]); else r.push_back(k<n?(*a.a)[k]:(*b.a)[k-n]); } set(I,Val::agg(r)); break; }
      case Instruction::AtomicRMW: { auto r=cast<AtomicRMWInst>(I); uint64_t p=concretise(get(r->getPointerOperand()),"atomic"); Type* t=r->getValOperand()->getType(); Val o=load(p,t),v=get(r->getValOperand()); Val n; switch(r->getOperation()){ case AtomicRMWInst::Add: n=intop(Instruction::Add,o,v,o.w); break; case AtomicRMWInst::Sub: n=intop(Instruction::Sub,o,v,o.w); break; case AtomicRMWInst::Xchg: n=v; break; case AtomicRMWInst::Or: n=intop(Instruction::Or,o,v,o.w); break; case AtomicRMWInst::And: n=intop(Instruction::And,o,v,o.w); break; default: throw Abort("atomicrmw"); } store(p,n,t); set(I,o); break; }
      case Instruction::AtomicCmpXchg: { auto r=cast<AtomicCmpXchgInst>(I); uint64_t p=concretise(get(r->getPointerOperand()),"atomic"); Type* t=r->getNewValOperand()->getType(); Val o=load(p,t); Val e=icmp(CmpInst::ICMP_EQ,o,get(r->getCompareOperand())); bool k=e.isCon()?e.u():branch(B(e)); if(k) store(p,get(r->getNewValOperand()),t); std::vector<Val> v{o,Val::con(k,1)}; set(I,Val::agg(v)); break; }
      case Instruction::Fence: break;
      default:
        if(auto b=dyn_cast<BinaryOperator>(I)){ Val x=get(b->getOperand(0)),y=get(b->getOperand(1)); uint32_t w=b->getType()->isVectorTy()?0:width(b->getType()); switch(b->getOpcode()){ case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: set(I,fpop(b->getOpcode(),x,y,w)); break; default: set(I,intop(b->getOpcode(),x,y,w)); } break; }
        if(auto c=dyn_cast<CastInst>(I)){ set(I,castop(c->getOpcode(),get(c->getOperand(0)),c->getSrcTy(),c->getDestTy())); break; }
        throw Abort(S("instruction ")+I->getOpcodeName()); }
    ++s->st.back().it; }

  // ---------------- properties
  S modelText(const z3::model& md){ S o; char b[64]; for(auto& v:s->vars){ z3::expr x=md.eval(v.e.x(),true); if(v.kind==0){ uint64_t u=x.get_numeral_uint64(); o+="i "+v.name+" "+std::to_string((int64_t)u)+"\n"; } else { snprintf(b,64,"%.17g",va::FieldCore::toDouble(x)); o+="r "+v.name+" "+b+"\n"; } } return o; }
  int nviol=0;
  void violation(const S& what,const z3::expr& extra,const std::vector<z3::expr>& hard={}){
    if(++nviol>12){ stop=true; return; }
    std::shared_ptr<z3::model> md; z3::check_result r=z3::unknown; bool anyReal=false; for(auto& v:s->vars) anyReal|=v.kind==1;
    S where; if(!s->st.empty()) where=demangle(s->st.back().f->getName().str());
    for(int att=0;att<(anyReal?4:1)&&!replayed;++att){
      z3::expr e=extra; if(anyReal&&att<3){ for(auto& h:hard) e=e&&(att==0?h:Z().bool_val(true)); for(auto& v:s->vars) if(v.kind==1){ z3::expr L=Z().real_val(att==0?5:att==1?50:1000); e=e&&v.e.x()<=L&&v.e.x()>=-L; } }
      r=query(s->pc,e,&md); if(r!=z3::sat){ if(r==z3::unsat&&att==(anyReal?3:0)) return; continue; }
      S path=cexdir+"/cex_"+goal+"_"+std::to_string(nviol)+".txt"; S txt; try{ txt=modelText(*md); } catch(std::exception& x){ continue; } catch(z3::exception& x){ continue; }
      { std::ofstream o(path); o<<txt; }
      vcex=path; vwhat=what+(where.empty()?"":" (in "+where.substr(0,120)+")");
      if(replayer.empty()){ replayed=true; vreplay="(replay disabled)"; }
      else { S cmd=replayer+" "+goal+" '"+path+"' 2>&1"; FILE* f=popen(cmd.c_str(),"r"); char buf[4096]; vreplay.clear(); while(fgets(buf,4096,f)) if(vreplay.size()<1200) vreplay+=buf; int rc=pclose(f); if(WIFEXITED(rc)&&WEXITSTATUS(rc)==3) replayed=true; } }
    violated=true; if(replayed) stop=true; else incon.push_back("counter-example not reproduced on the real build: "+what+" ["+vcex+"]"); }
  va::Num toNum(va::FieldCore& F,const z3::expr& e,std::unordered_map<unsigned,va::Num>& memo){
    unsigned id=Z3_get_ast_id(Z(),e); auto it=memo.find(id); if(it!=memo.end()) return it->second; va::Num r;
    if(e.is_numeral()) r=F.fromTerm(e);
    else { auto k=e.decl().decl_kind(); unsigned n=e.num_args();
      switch(k){ case Z3_OP_ADD: r=toNum(F,e.arg(0),memo); for(unsigned i=1;i<n;++i) r=F.add(r,toNum(F,e.arg(i),memo)); break;
        case Z3_OP_SUB: r=toNum(F,e.arg(0),memo); for(unsigned i=1;i<n;++i) r=F.add(r,toNum(F,e.arg(i),memo),-1); break;
        case Z3_OP_UMINUS: r=F.neg(toNum(F,e.arg(0),memo)); break;
        case Z3_OP_MUL: r=toNum(F,e.arg(0),memo); for(unsigned i=1;i<n;++i) r=F.mul(r,toNum(F,e.arg(i),memo)); break;
        case Z3_OP_DIV: r=F.mul(toNum(F,e.arg(0),memo),F.inv(toNum(F,e.arg(1),memo))); break;
        case Z3_OP_UNINTERPRETED: { S nm=e.decl().name().str(); if(n==0){ if(nm.compare(0,5,"root(")==0){ S q=nm.substr(5,nm.size()-6); size_t sl=q.find('/'); r=F.sqrtConst(std::stod(q.substr(0,sl))/std::stod(q.substr(sl+1))); } else r=F.fromTerm(F.var(nm)); } else if(nm=="sqrt") r=F.sqrtNum(toNum(F,e.arg(0),memo)); else { S key=nm+"("; for(unsigned i=0;i<n;++i) key+=F.key(toNum(F,e.arg(i),memo))+","; r=F.fromTerm(F.var(key+")")); } break; }
        default: r=F.fromTerm(F.var("t!"+e.to_string())); } }
    keepAlive.push_back(e); memo[id]=r; return r; }
  // variables that the path condition fixes to a number are replaced by it
  void pinned(z3::expr& x,z3::expr& y){ for(int round=0;round<3;++round){ z3::expr_vector from(Z()),to(Z()); std::set<unsigned> seen; std::vector<z3::expr> st; for(auto& c:s->pc) st.push_back(c.x()); 
      while(!st.empty()){ z3::expr e=st.back(); st.pop_back(); if(!e.is_app()) continue; auto k=e.decl().decl_kind(); if(k==Z3_OP_AND){ for(unsigned i=0;i<e.num_args();++i) st.push_back(e.arg(i)); continue; } if(k==Z3_OP_NOT&&e.arg(0).is_app()&&e.arg(0).decl().decl_kind()==Z3_OP_OR){ for(unsigned i=0;i<e.arg(0).num_args();++i) st.push_back((!e.arg(0).arg(i)).simplify()); continue; } if(k!=Z3_OP_EQ) continue;
        z3::expr l=e.arg(0),r=e.arg(1); if(l.is_numeral()) std::swap(l,r); if(!r.is_numeral()||!l.is_real()||!l.is_const()||l.is_numeral()) continue; if(seen.insert(Z3_get_ast_id(Z(),l)).second){ from.push_back(l); to.push_back(r); } }
      if(from.empty()) return; z3::expr nx=x.substitute(from,to).simplify(),ny=y.substitute(from,to).simplify(); if(z3::eq(nx,x)&&z3::eq(ny,y)) return; x=nx; y=ny; } }
  void diff(const z3::expr& x,const z3::expr& y,int d){ if(z3::eq(x,y)||d>60) return; if(x.is_app()&&y.is_app()&&x.num_args()==y.num_args()&&x.num_args()>0&&x.decl().name().str()==y.decl().name().str()){ unsigned n=x.num_args(),k=0; for(unsigned i=0;i<n;++i) k+=!z3::eq(x.arg(i),y.arg(i)); if(k<=2){ for(unsigned i=0;i<n;++i) if(!z3::eq(x.arg(i),y.arg(i))){ diff(x.arg(i),y.arg(i),d+1); return; } } } fprintf(stderr,"DIFF depth %d\n--- %s\n--- %s\n",d,x.to_string().substr(0,1500).c_str(),y.to_string().substr(0,1500).c_str()); }
  void realEq(const Val& a,const Val& b,const S& l){
    if(a.isCon()&&b.isCon()){ double x=asD(a),y=asD(b); if(!(std::fabs(x-y)<=1e-9*std::max(1.,std::max(std::fabs(x),std::fabs(y))))&&!(x==y)&&!(std::isnan(x)&&std::isnan(y))) violation(l,Z().bool_val(true)); return; }
    if(a.k==SYM||b.k==SYM){ realEq(pick(a),pick(b),l); return; }
    z3::expr x=R(a),y=R(b); if(z3::eq(x,y)){ ++normalForm; return; } { z3::expr x1=x.simplify(),y1=y.simplify(); if(z3::eq(x1,y1)){ ++normalForm; return; } if(getenv("EB_DIFF")) diff(x1,y1,0); }
    pinned(x,y); if(z3::eq(x,y)) return;
    try { va::FieldCore F; F.limit=4000; std::unordered_map<unsigned,va::Num> memo; va::Num d=F.add(toNum(F,x,memo),toNum(F,y,memo),-1); if(d.c.empty()){ z3::check_result r=query({},Z().bool_val(false)); if(r==z3::unsat){ ++normalForm; return; } } } catch(va::Unsupported&){}
    auto r=query(s->pc,x!=y); if(r==z3::unsat) return; z3::expr dd=x-y; z3::expr t=Z().real_val("1/100");
    if(r==z3::unknown){ // look for a concrete disagreement anyway
      violation(l,x!=y,{dd>t||dd<-t}); if(!violated) incon.push_back("solver gave up on: "+l); return; }
    violation(l,x!=y,{dd>t||dd<-t}); }
  uint64_t normalForm=0;

  void run(Function* g){
    State st0; work.push_back(std::move(st0)); s=&work.back(); pushFrame(g,{},nullptr); 
    while(!work.empty()&&!stop){
      State cur=std::move(work.back()); work.pop_back(); s=&cur; bool live=true;
      while(live&&!stop){
        pending.clear(); finished.clear();
        if((instrs&1023)==0&&now()>deadline){ incon.push_back("time budget of this goal used up after "+std::to_string(paths)+" paths, "+std::to_string(work.size())+" open"); stop=true; break; }
        ++instrs; if(++s->steps>maxSteps){ size_t k=incon.size(); violation("does not finish within "+std::to_string(maxSteps)+" steps",Z().bool_val(true)); if(!replayed&&incon.size()==k) incon.push_back("step bound of a path reached"); ++paths; break; }
        if(s->st.empty()){ ++paths; break; }
        Instruction* I=&*s->st.back().it;
        try { exec(I); }
        catch(CxxThrow& t){ try { unwind(t.obj,t.ti); } catch(PathEnd&){ live=false; ++paths; } catch(Violation& v){ violation(v.what,Z().bool_val(true)); live=false; ++paths; } }
        catch(PathEnd&){ live=false; if(s->st.empty()) ++completed; ++paths; }
        catch(Violation& v){ violation(v.what,Z().bool_val(true)); live=false; ++paths; }
        catch(Abort& a){ S w=a.what(); S at=s->st.empty()?"":demangle(s->st.back().f->getName().str()); incon.push_back(w+" [in "+at.substr(0,150)+"]"+(getenv("EB_TRACE")?trace():S())); live=false; ++paths; if(incon.size()>20) stop=true; }
        catch(z3::exception& e){ incon.push_back(S("z3: ")+e.msg()); live=false; ++paths; if(incon.size()>20) stop=true; }
        for(auto& p:pending) work.push_back(std::move(p)); for(auto& p:finished) work.push_back(std::move(p));
        if(work.size()>200000){ incon.push_back("too many open paths"); stop=true; }
      } } }
  uint64_t completed=0;
  S trace(){ S r; for(auto& f:s->st) r+="\n    "+demangle(f.f->getName().str()).substr(0,160); return r; }
