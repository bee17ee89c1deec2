// ------------------------------------------------------------------ decoding
static unsigned slotsOf(Type *t) { if (auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : st->elements()) n += slotsOf(e); return n; } if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * slotsOf(at->getElementType()); if (t->isVoidTy()) return 0; return 1; }
static unsigned widthOf(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static void leaves(Type *t, uint64_t off, std::vector<std::pair<uint64_t, unsigned>> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out); return; }
  out.push_back({off, widthOf(t)});
}
static uint64_t fnAddr(const Function *F);
static uint64_t constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() > 64 ? ci->getValue().extractBitsAsZExtValue(64, 0) : ci->getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto *f = dyn_cast<Function>(c)) return fnAddr(f);
  if (auto *g = dyn_cast<GlobalVariable>(c)) { auto it = globIdx.find(g); if (it == globIdx.end()) { fprintf(stderr, "no global %s\n", g->getName().str().c_str()); exit(3); } return GLOB0 + it->second * STRIDE + 4096; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return constVal(ce->getOperand(0)) + off.getSExtValue(); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
      case Instruction::Sub: return constVal(ce->getOperand(0)) - constVal(ce->getOperand(1));
      case Instruction::Add: return constVal(ce->getOperand(0)) + constVal(ce->getOperand(1));
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "constVal: %s\n", os.str().c_str()); exit(3);
}
static Fn *getFn(const Function *F) {
  auto it = fnOf.find(F); if (it != fnOf.end()) return it->second;
  Fn *f = new Fn(); f->name = F->getName().str(); f->idx = fns.size(); f->F = const_cast<Function*>(F); fns.push_back(f); fnOf[F] = f; return f;
}
static uint64_t fnAddr(const Function *F) { return FN0 + getFn(F)->idx * 16ull; }
static void initGlobal(const Constant *c, Obj *o, uint64_t off) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(cs->getOperand(i), o, off + sl->getElementOffset(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(ca->getOperand(i), o, off + i * es); return; }
  uint64_t v = constVal(c); memcpy(o->d + off, &v, DL->getTypeStoreSize(t));
}
static std::map<std::string, int> builtinIds; 
enum { B_MALLOC = 1, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_STRCMP, B_STRNCMP, B_MEMCMP, B_SYM_BYTES, B_SYM_U8, B_SYM_U16, B_SYM_U32, B_SYM_U64, B_FRESH8, B_FRESH64, B_HINT8, B_SAME, B_ASSUME, B_ASSERT, B_FAIL, B_REACH, B_KNOWN, B_KNOWNCRASH, B_CONCR, B_LIVE, B_OBS, B_ISSYM, B_STOP, B_STRTOD, B_FMTD, B_ISFREED, B_PARAM, B_ABORT, B_OBJSIZE, B_BOTH, B_MALLOC_USABLE, B_ENGERR, B_RANGEOK, B_FMOD,
  N_VASTART = 100, N_VAEND, N_VACOPY, N_STACKSAVE, N_STACKRESTORE, N_NOP, N_BSWAP, N_CTPOP, N_CTLZ, N_CTTZ, N_FABS, N_EXPECT, N_OBJSZ, N_UMULO, N_SMULO, N_UADDO, N_SADDO, N_USUBO, N_SSUBO, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_TRAP, N_FLOOR, N_CEIL, N_FSHL, N_TRUNC, N_ISCONST };
static void initBuiltins() {
  auto a = [](const char *n, int i) { builtinIds[n] = i; };
  a("malloc", B_MALLOC); a("calloc", B_CALLOC); a("realloc", B_REALLOC); a("free", B_FREE); a("memcpy", B_MEMCPY); a("memmove", B_MEMMOVE); a("memset", B_MEMSET);
  a("strcmp", B_STRCMP); a("strncmp", B_STRNCMP); a("memcmp", B_MEMCMP); a("bcmp", B_MEMCMP); a("strcoll", B_STRCMP);
  a("sym_bytes", B_SYM_BYTES); a("sym_u8", B_SYM_U8); a("sym_u16", B_SYM_U16); a("sym_u32", B_SYM_U32); a("sym_u64", B_SYM_U64); a("sym_fresh8", B_FRESH8); a("sym_hint8", B_HINT8); a("sym_same", B_SAME); a("sym_fresh64", B_FRESH64);
  a("sym_assume", B_ASSUME); a("sym_assert_", B_ASSERT); a("sym_fail", B_FAIL); a("sym_reach", B_REACH); a("sym_known", B_KNOWN); a("sym_known_crash", B_KNOWNCRASH); a("sym_concretize", B_CONCR); a("sym_heap_live", B_LIVE); a("sym_observe", B_OBS); a("sym_is_symbolic", B_ISSYM); a("sym_stop", B_STOP);
  a("sym_host_strtod", B_STRTOD); a("sym_host_fmt_double", B_FMTD); a("sym_is_freed", B_ISFREED); a("sym_param", B_PARAM); a("abort", B_ABORT); a("sym_object_size", B_OBJSIZE); a("sym_both", B_BOTH); a("malloc_usable_size", B_MALLOC_USABLE); a("sym_engine_error", B_ENGERR); a("sym_mem_ok", B_RANGEOK); a("fmod", B_FMOD);
}
static int intrinsicId(const std::string &n) {
  auto p = [&](const char *x) { return n.compare(0, strlen(x), x) == 0; };
  if (p("llvm.memcpy")) return B_MEMCPY; if (p("llvm.memmove")) return B_MEMMOVE; if (p("llvm.memset")) return B_MEMSET;
  if (p("llvm.va_start")) return N_VASTART; if (p("llvm.va_end")) return N_VAEND; if (p("llvm.va_copy")) return N_VACOPY; if (p("llvm.stacksave")) return N_STACKSAVE; if (p("llvm.stackrestore")) return N_STACKRESTORE;
  if (p("llvm.dbg") || p("llvm.lifetime") || p("llvm.assume") || p("llvm.donothing") || p("llvm.prefetch")) return N_NOP;
  if (p("llvm.bswap")) return N_BSWAP; if (p("llvm.ctpop")) return N_CTPOP; if (p("llvm.ctlz")) return N_CTLZ; if (p("llvm.cttz")) return N_CTTZ; if (p("llvm.fabs")) return N_FABS; if (p("llvm.expect")) return N_EXPECT; if (p("llvm.objectsize")) return N_OBJSZ;
  if (p("llvm.umul.with")) return N_UMULO; if (p("llvm.smul.with")) return N_SMULO; if (p("llvm.uadd.with")) return N_UADDO; if (p("llvm.sadd.with")) return N_SADDO; if (p("llvm.usub.with")) return N_USUBO; if (p("llvm.ssub.with")) return N_SSUBO;
  if (p("llvm.umax")) return N_UMAX; if (p("llvm.umin")) return N_UMIN; if (p("llvm.smax")) return N_SMAX; if (p("llvm.smin")) return N_SMIN; if (p("llvm.abs")) return N_ABS; if (p("llvm.trap")) return N_TRAP; if (p("llvm.floor")) return N_FLOOR; if (p("llvm.ceil")) return N_CEIL; if (p("llvm.fshl")) return N_FSHL; if (p("llvm.trunc.")) return N_TRUNC; if (p("llvm.is.constant")) return N_ISCONST;
  return -1;
}
static std::string repoPrefix;
static void decode(Fn *f) {
  f->decoded = true; Function *F = f->F;
  auto bi = builtinIds.find(f->name); if (bi != builtinIds.end()) { f->builtin = bi->second; return; }
  if (F->isIntrinsic()) { f->builtin = intrinsicId(f->name); if (f->builtin < 0) f->undefinedExt = true; return; }
  if (F->isDeclaration()) { f->undefinedExt = true; return; }
  f->vararg = F->isVarArg();
  if (auto *sp = F->getSubprogram()) { std::string p = sp->getFilename().str(); if (!p.empty() && p[0] != '/') p = sp->getDirectory().str() + "/" + p; f->isRepo = !repoPrefix.empty() && p.compare(0, repoPrefix.size(), repoPrefix) == 0; }
  std::unordered_map<const Value*, int> regOf; uint32_t nr = 0;
  for (auto &A : F->args()) { regOf[&A] = nr; f->argReg.push_back(nr); unsigned n = slotsOf(A.getType()); f->argSlots.push_back(n); nr += n; f->byvalSize.push_back(A.hasByValAttr() ? (int)DL->getTypeAllocSize(A.getParamByValType()) : 0); }
  std::set<const Value*> promoted;
  for (auto &BB : *F) for (auto &I : BB) {
    if (auto *ai = dyn_cast<AllocaInst>(&I)) if (&BB == &F->getEntryBlock() && !ai->isArrayAllocation() && widthOf(ai->getAllocatedType()) && widthOf(ai->getAllocatedType()) <= 64) {
      bool ok = true;
      for (auto *U : ai->users()) {
        if (auto *li = dyn_cast<LoadInst>(U)) { if (li->getType() != ai->getAllocatedType() || li->isVolatile()) ok = false; }
        else if (auto *si = dyn_cast<StoreInst>(U)) { if (si->getPointerOperand() != ai || si->getValueOperand() == ai || si->getValueOperand()->getType() != ai->getAllocatedType() || si->isVolatile()) ok = false; }
        else ok = false;
      }
      if (ok) promoted.insert(ai);
    }
    if (!I.getType()->isVoidTy()) { regOf[&I] = nr; nr += slotsOf(I.getType()); }
  }
  f->nregs = nr;
  std::unordered_map<const BasicBlock*, uint32_t> bidx; uint32_t nb = 0; for (auto &BB : *F) bidx[&BB] = nb++;
  f->blocks.resize(nb);
  auto opnd = [&](const Value *v) -> Opnd { if (auto *c = dyn_cast<Constant>(v)) return Opnd{-1, constVal(c)}; if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return Opnd{-1, 0}; return Opnd{regOf.at(v), 0}; };
  auto opnds = [&](const Value *v, std::vector<Opnd> &out) { unsigned n = slotsOf(v->getType()); if (auto *c = dyn_cast<Constant>(v)) { if (n == 1 && !c->getType()->isAggregateType()) out.push_back(Opnd{-1, constVal(c)}); else { for (unsigned i = 0; i < n; i++) { Opnd o{-1, 0}; if (!isa<UndefValue>(c) && !isa<ConstantAggregateZero>(c)) { if (auto *e = c->getAggregateElement(i)) if (!e->getType()->isAggregateType()) o.c = constVal(e); } out.push_back(o); } } return; } int r = regOf.at(v); for (unsigned i = 0; i < n; i++) out.push_back(Opnd{r + (int)i, 0}); };
  for (auto &BB : *F) {
    Block &blk = f->blocks[bidx[&BB]]; blk.start = f->code.size();
    for (auto &I : BB) {
      Inst in; in.I = &I; in.dst = I.getType()->isVoidTy() ? -1 : regOf[&I]; in.line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0; in.isPtr = I.getType()->isPointerTy(); in.w = std::min(255u, widthOf(I.getType())); in.w2 = 0; in.op = 0; in.ndst = I.getType()->isVoidTy() ? 0 : slotsOf(I.getType());
      if (auto *p = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { std::vector<Opnd> os; opnds(p->getIncomingValue(i), os); for (unsigned j = 0; j < os.size(); j++) { auto &mv = blk.phis[bidx[p->getIncomingBlock(i)]]; mv.push_back(PhiMove{in.dst + (int)j, os[j], 1}); } }
        continue;
      }
      switch (I.getOpcode()) {
        case Instruction::Add: in.op = O_ADD; goto bin; case Instruction::Sub: in.op = O_SUB; goto bin; case Instruction::Mul: in.op = O_MUL; goto bin;
        case Instruction::UDiv: in.op = O_UDIV; goto bin; case Instruction::SDiv: in.op = O_SDIV; goto bin; case Instruction::URem: in.op = O_UREM; goto bin; case Instruction::SRem: in.op = O_SREM; goto bin;
        case Instruction::And: in.op = O_AND; goto bin; case Instruction::Or: in.op = O_OR; goto bin; case Instruction::Xor: in.op = O_XOR; goto bin;
        case Instruction::Shl: in.op = O_SHL; goto bin; case Instruction::LShr: in.op = O_LSHR; goto bin; case Instruction::AShr: in.op = O_ASHR; goto bin;
        bin: in.code = I_BIN; in.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
        case Instruction::FAdd: in.op = O_FADD; goto fbin; case Instruction::FSub: in.op = O_FSUB; goto fbin; case Instruction::FMul: in.op = O_FMUL; goto fbin; case Instruction::FDiv: in.op = O_FDIV; goto fbin; case Instruction::FRem: in.op = O_FREM; goto fbin;
        fbin: in.code = I_FBIN; in.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
        case Instruction::FNeg: in.code = I_FNEG; in.o = {opnd(I.getOperand(0))}; break;
        case Instruction::FCmp: in.code = I_FCMP; in.op = cast<FCmpInst>(I).getPredicate(); in.w2 = widthOf(I.getOperand(0)->getType()); in.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
        case Instruction::ICmp: in.code = I_CMP; in.op = cast<ICmpInst>(I).getPredicate(); in.w2 = widthOf(I.getOperand(0)->getType()); in.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
          in.code = I_CAST; in.w2 = widthOf(I.getOperand(0)->getType()); in.o = {opnd(I.getOperand(0))};
          switch (I.getOpcode()) { case Instruction::SExt: in.op = O_SEXT; break; case Instruction::ZExt: in.op = O_ZEXT; break; case Instruction::Trunc: in.op = O_EXTRACT; break; case Instruction::PtrToInt: case Instruction::IntToPtr: in.op = in.w < in.w2 ? O_EXTRACT : O_ZEXT; break;
            case Instruction::SIToFP: in.op = O_SITOFP; break; case Instruction::UIToFP: in.op = O_UITOFP; break; case Instruction::FPToSI: in.op = O_FPTOSI; break; case Instruction::FPToUI: in.op = O_FPTOUI; break; case Instruction::FPExt: in.op = O_FPEXT; break; case Instruction::FPTrunc: in.op = O_FPTRUNC; break; default: in.op = O_CONST; }
          break;
        case Instruction::Freeze: in.code = I_FREEZE; in.o = {opnd(I.getOperand(0))}; break;
        case Instruction::Select: in.code = I_SELECT; in.o = {opnd(I.getOperand(0))}; opnds(I.getOperand(1), in.o); opnds(I.getOperand(2), in.o); break;
        case Instruction::GetElementPtr: {
          in.code = I_GEP; in.o.push_back(opnd(I.getOperand(0))); uint64_t off = 0; auto *g = cast<GetElementPtrInst>(&I);
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            if (auto *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
            else { uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(it.getOperand())) off += sz * ci->getSExtValue(); else { in.o.push_back(opnd(it.getOperand())); in.k.push_back(sz); in.ws.push_back(widthOf(it.getOperand()->getType())); } } }
          in.k.push_back(off); break; }
        case Instruction::Load: {
          if (promoted.count(I.getOperand(0))) { in.code = I_PLOAD; in.o = {Opnd{regOf[I.getOperand(0)], 0}}; break; }
          in.o = {opnd(I.getOperand(0))};
          if (I.getType()->isAggregateType()) { in.code = I_AGGLOAD; std::vector<std::pair<uint64_t, unsigned>> lv; leaves(I.getType(), 0, lv); for (auto &p : lv) { in.k.push_back(p.first); in.ws.push_back(p.second); } }
          else in.code = I_LOAD; break; }
        case Instruction::Store: {
          Type *vt = I.getOperand(0)->getType();
          if (promoted.count(I.getOperand(1))) { in.code = I_PSTORE; in.dst = regOf[I.getOperand(1)]; in.o = {opnd(I.getOperand(0))}; break; }
          if (vt->isAggregateType()) { in.code = I_AGGSTORE; in.o = {opnd(I.getOperand(1))}; opnds(I.getOperand(0), in.o); std::vector<std::pair<uint64_t, unsigned>> lv; leaves(vt, 0, lv); for (auto &p : lv) { in.k.push_back(p.first); in.ws.push_back(p.second); } break; }
          in.code = I_STORE; in.w2 = widthOf(vt); in.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break; }
        case Instruction::Alloca: {
          auto *ai = cast<AllocaInst>(&I); if (promoted.count(&I)) { in.code = I_NOP; in.op = 1; break; }
          in.code = I_ALLOCA; in.k = {DL->getTypeAllocSize(ai->getAllocatedType())}; in.o = {opnd(ai->getArraySize())}; in.w2 = widthOf(ai->getArraySize()->getType()); break; }
        case Instruction::Br: { auto *b = cast<BranchInst>(&I); if (b->isConditional()) { in.code = I_BR; in.o = {opnd(b->getCondition())}; in.t1 = bidx[b->getSuccessor(0)]; in.t2 = bidx[b->getSuccessor(1)]; } else { in.code = I_JMP; in.t1 = bidx[b->getSuccessor(0)]; } break; }
        case Instruction::Switch: { auto *sw = cast<SwitchInst>(&I); in.code = I_SWITCH; in.w2 = widthOf(sw->getCondition()->getType()); in.o = {opnd(sw->getCondition())}; in.t1 = bidx[sw->getDefaultDest()]; for (auto &c : sw->cases()) { in.k.push_back(c.getCaseValue()->getZExtValue()); in.k.push_back(bidx[c.getCaseSuccessor()]); } break; }
        case Instruction::Ret: in.code = I_RET; if (I.getNumOperands()) opnds(I.getOperand(0), in.o); break;
        case Instruction::Unreachable: in.code = I_UNREACH; break;
        case Instruction::ExtractValue: { auto *ev = cast<ExtractValueInst>(&I); in.code = I_EXTRACTV; Type *t = ev->getAggregateOperand()->getType(); unsigned off = 0; for (unsigned ix : ev->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += slotsOf(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * slotsOf(at->getElementType()); t = at->getElementType(); } } std::vector<Opnd> os; opnds(ev->getAggregateOperand(), os); for (unsigned i = 0; i < in.ndst; i++) in.o.push_back(os[off + i]); break; }
        case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(&I); in.code = I_INSERTV; Type *t = iv->getType(); unsigned off = 0; for (unsigned ix : iv->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += slotsOf(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * slotsOf(at->getElementType()); t = at->getElementType(); } } opnds(iv->getAggregateOperand(), in.o); std::vector<Opnd> os; opnds(iv->getInsertedValueOperand(), os); for (unsigned i = 0; i < os.size(); i++) in.o[off + i] = os[i]; break; }
        case Instruction::Call: {
          auto *cb = cast<CallInst>(&I); in.code = I_CALL; Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
          if (cf) { in.callee = getFn(cf); if (cf->isIntrinsic()) { in.intr = intrinsicId(cf->getName().str()); if (in.intr == N_NOP) { in.code = I_NOP; break; } } }
          else { if (cb->isInlineAsm()) { in.k.push_back(1); } in.o.push_back(opnd(cb->getCalledOperand())); }
          in.t1 = in.o.size(); // first arg operand
          for (unsigned i = 0; i < cb->arg_size(); i++) { Value *v = cb->getArgOperand(i); unsigned n = slotsOf(v->getType()); std::vector<Opnd> os; opnds(v, os); for (unsigned j = 0; j < n; j++) { in.o.push_back(os[j]); unsigned w = n == 1 ? widthOf(v->getType()) : 64; if (v->getType()->isFloatTy()) w = 32; in.ws.push_back(w); in.k.push_back(cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)) : 0); } }
          break; }
        default: { std::string s; raw_string_ostream os(s); I.print(os); fprintf(stderr, "unsupported instruction in %s: %s\n", f->name.c_str(), os.str().c_str()); in.code = I_UNREACH; in.op = 1; }
      }
      f->code.push_back(in);
    }
  }
  f->cov.assign(f->code.size(), 0);
}

// ------------------------------------------------------------------ execution
static std::map<std::string, int64_t> params;
static Expr *const UNINIT = (Expr*)1;
static inline Val R(State &s, const Opnd &o) { if (o.reg < 0) return CV(o.c); return s.top->r[o.reg]; }
static void enterBlock(State &s, int to) {
  Frame *f = s.top; Block &b = f->f->blocks[to];
  if (!b.phis.empty()) { auto it = b.phis.find(f->blk); if (it != b.phis.end()) { Val tmp[32]; auto &mv = it->second; for (size_t i = 0; i < mv.size(); i++) tmp[i] = R(s, mv[i].src); for (size_t i = 0; i < mv.size(); i++) f->r[mv[i].dst] = tmp[i]; } }
  f->blk = to; f->pc = b.start;
}
static void pushFrame(State &s, Fn *f, int retDst) {
  Frame *fr = new Frame(); fr->rc = 1; fr->f = f; fr->pc = 0; fr->blk = 0; fr->r.assign(f->nregs, Val{0, nullptr}); fr->vaObj = 0; fr->retDst = retDst; fr->up = s.top; s.top = fr; s.depth++;
}
static void popFrame(State &s) {
  Frame *f = s.top; for (auto i : f->stk) s.stack.set(i, nullptr); s.stkTop -= f->stk.size();
  Frame *u = f->up; if (u) u->rc++; unrefFrame(f); s.top = u; s.depth--;
  if (u && u->rc > 1) { s.top = cloneFrame(u); u->rc--; }
}
static State *forkState(State &s) { State *n = new State(s); n->top->rc--; n->top = cloneFrame(n->top); return n; }

static void finishPath(State &s) {
  S.paths++;
  for (auto &k : s.known) knownHits[k]++;
  // reservoir sample of completed paths
  sampleSeen++;
  auto mk = [&]() { std::string o; for (auto &p : s.obs) { uint64_t v = p.second.e ? evalExpr(p.second.e, s.model) : p.second.c; char b[64]; snprintf(b, 64, " %llx\n", (unsigned long long)v); o += p.first; o += b; } return std::make_pair(modelText(s, s.model), o); };
  if (samples.size() < nSamples) samples.push_back(mk());
  else { uint64_t k = rnd() % sampleSeen; if (k < nSamples) samples[k] = mk(); }
}
static std::unordered_map<std::string, const char*> internTab;
static const char *intern(const std::string &s) { auto it = internTab.find(s); if (it != internTab.end()) return it->second; char *p = strdup(s.c_str()); internTab[s] = p; return p; }
static Val newInput(State &s, const std::string &name, unsigned w) {
  int k = s.occ[name]++; std::string n = name + "#" + std::to_string(k); Expr *v = mkVar(n, w, false, false); s.inputs.push_back({v, n}); if (s.model.size() <= v->k) s.model.resize(v->k + 1, 0); return EV(v);
}
static Val byteAt(State &s, uint64_t a) { Loc l = access(s, a, 1, false, "read"); return readObj(s, l, a - l.o->base, 1); }

// branch on a width-1 value inside an instruction that may simply be re-executed
static bool branchRetry(State &s, Val c) {
  std::vector<uint64_t> om; bool cur; int d = decide(s, c, om, cur);
  if (d == 2) { if (c.e->uninit && dependsUninit(s, c.e)) memError(s, "uninit", "branch depends on uninitialised memory"); State *n = forkState(s); addC(*n, cur ? mkNot1(c) : c); n->model = om; n->top->pc--; forkOff(n); addC(s, cur ? c : mkNot1(c)); }
  return cur;
}
static Val cmpStr(State &s, uint64_t a, uint64_t b, uint64_t n, bool stopNul) {
  // sign of the comparison as an ITE chain, no forking
  std::vector<std::pair<Val, Val>> v;
  for (uint64_t i = 0; i < n; i++) { Val x = byteAt(s, a + i), y = byteAt(s, b + i); v.push_back({x, y});
    Val eq = mkCmp(O_EQ, 8, x, y); if (!eq.e && !eq.c) break;
    if (stopNul && ((!x.e && !x.c) || (!y.e && !y.c))) break;
    if (stopNul && (x.e || y.e)) { // avoid running past a terminator that is certain under the path condition
      if (x.e && y.e) { if (mustTrue(s, mkCmp(O_EQ, 8, x, CV(0))) || mustTrue(s, mkCmp(O_EQ, 8, y, CV(0)))) break; }
    } }
  Val r = CV(0);
  for (int i = (int)v.size() - 1; i >= 0; i--) {
    Val x = v[i].first, y = v[i].second; Val eq = mkCmp(O_EQ, 8, x, y), lt = mkCmp(O_ULT, 8, x, y);
    Val rest = r; if (stopNul) rest = mkIte(mkCmp(O_EQ, 8, x, CV(0)), CV(0), r, 32);
    r = mkIte(eq, rest, mkIte(lt, CV(0xffffffff), CV(1), 32), 32);
  }
  return r;
}
static bool runBuiltin(State &s, int id, std::vector<Val> &a, const Inst &in, std::vector<Val> &ret) {
  auto conc = [&](unsigned i) -> uint64_t { Val v = a[i]; if (v.e == UNINIT) { v = uninitVar(s, in.ws[i]); a[i] = v; } return concretize(s, v, in.ws[i]); };
  auto str = [&](unsigned i) { return readCStr(s, conc(i)); };
  auto ret1 = [&](Val v) { ret.assign(1, v); return true; };
  switch (id) {
    case B_MALLOC: { uint64_t n = conc(0); return ret1(CV(heapAlloc(s, n, false))); }
    case B_CALLOC: { uint64_t n = conc(0), m = conc(1); return ret1(CV(heapAlloc(s, n * m, true))); }
    case B_REALLOC: { uint64_t p = conc(0), n = conc(1); if (!p) return ret1(CV(heapAlloc(s, n, false))); Loc l; if (!lookup(s, p, l) || l.o->kind != K_HEAP || p != l.o->base) memError(s, "bad-free", "realloc of a pointer that is not a heap object"); if (l.o->freed) memError(s, "use-after-free", "realloc of freed memory"); uint64_t q = heapAlloc(s, n, false); copyMem(s, q, p, std::min<uint64_t>(n, l.o->size)); heapFree(s, p); return ret1(CV(q)); }
    case B_FREE: { heapFree(s, conc(0)); return true; }
    case B_MALLOC_USABLE: { Loc l = access(s, conc(0), 0, false, "read"); return ret1(CV(l.o->size)); }
    case B_MEMCPY: case B_MEMMOVE: { uint64_t d = conc(0), q = conc(1), n = conc(2); if (id == B_MEMCPY && n && d != q && d < q + n && q < d + n) memError(s, "memcpy-overlap", "memcpy with overlapping ranges"); copyMem(s, d, q, n); return ret1(CV(d)); }
    case B_MEMSET: { uint64_t d = conc(0); Val v = a[1]; uint64_t n = conc(2); if (n) { Loc l = access(s, d, n, true, "write"); uint32_t off = d - l.o->base; Obj *o = l.o; Val b = in.ws[1] > 8 ? mkExtract(v, in.ws[1], 0, 8) : v; if (!b.e) { memset(o->d + off, b.c, n); if (o->un) memset(o->un + off, 0, n); if (o->s) memset(o->s + off, 0, n * sizeof(Expr*)); } else for (uint64_t i = 0; i < n; i++) writeObj(o, off + i, 1, b); } return ret1(CV(d)); }
    case B_STRCMP: return ret1(cmpStr(s, conc(0), conc(1), ~0ull, true));
    case B_STRNCMP: { uint64_t x = conc(0), y = conc(1), n = conc(2); return ret1(cmpStr(s, x, y, n, true)); }
    case B_MEMCMP: { uint64_t x = conc(0), y = conc(1), n = conc(2); access(s, x, n, false, "read"); access(s, y, n, false, "read"); return ret1(cmpStr(s, x, y, n, false)); }
    case B_SYM_BYTES: { uint64_t p = conc(0), n = conc(1); std::string nm = str(2); for (uint64_t i = 0; i < n; i++) { Val v = newInput(s, nm, 8); Loc l = access(s, p + i, 1, true, "write"); writeObj(l.o, p + i - l.o->base, 1, v); } return true; }
    case B_SYM_U8: return ret1(newInput(s, str(0), 8)); case B_SYM_U16: return ret1(newInput(s, str(0), 16)); case B_SYM_U32: return ret1(newInput(s, str(0), 32)); case B_SYM_U64: return ret1(newInput(s, str(0), 64));
    case B_SAME: return ret1(CV(a[0].e == a[1].e && (a[0].e || a[0].c == a[1].c)));
    case B_HINT8: { // a fresh byte whose value in the path's current model is that of the argument (the caller assumes the relation afterwards)
      int k = s.occ["!fresh"]++; Expr *v = mkVar("!f" + std::to_string(k), 8, false, true); Val h = a[0]; uint64_t x = h.e ? evalExpr(h.e, s.model) : h.c;
      if (s.model.size() <= v->k) s.model.resize(v->k + 1, 0); s.model[v->k] = x & 255; return ret1(EV(v)); }
    case B_FRESH8: case B_FRESH64: { int k = s.occ["!fresh"]++; unsigned w = id == B_FRESH8 ? 8 : 64; return ret1(EV(mkVar("!f" + std::to_string(k), w, false, true))); }
    case B_ASSUME: { Val c = mkNot1(mkCmp(O_EQ, in.ws[0], a[0], CV(0))); if (!c.e) { if (!c.c) { S.assumeKilled++; throw PathEnd(); } return true; }
        if (!evalExpr(c.e, s.model)) { std::vector<uint64_t> om; int r = solve(s, c.e, &om); if (r == 1) s.model = om; else { if (r < 0) S.incomplete++; S.assumeKilled++; throw PathEnd(); } }
        addC(s, c); return true; }
    case B_ASSERT: { S.asserts++; Val c = mkNot1(mkCmp(O_EQ, in.ws[0], a[0], CV(0)));
        if (!c.e) { if (!c.c) memError(s, "assert", str(1)); return true; }
        S.assertsSolver++;
        if (!evalExpr(c.e, s.model)) { violation(s, c.e->uninit && dependsUninit(s, c.e) ? "uninit" : "assert", str(1), s.model); std::vector<uint64_t> om; int r = solve(s, c.e, &om); if (r != 1) throw PathEnd(); s.model = om; addC(s, c); return true; }
        std::vector<uint64_t> om; Val nc = mkNot1(c); int r = nc.e ? solve(s, nc.e, &om) : (int)nc.c;
        if (r == 1) violation(s, c.e->uninit && dependsUninit(s, c.e) ? "uninit" : "assert", str(1), om); else if (r < 0) S.incomplete++;
        addC(s, c); return true; }
    case B_FAIL: memError(s, "assert", str(0));
    case B_REACH: reach[str(0)]++; return true;
    case B_KNOWN: { std::string k = str(0); bool h = false; for (auto &x : s.known) h |= x == k; if (!h) s.known.push_back(k); return true; }
    case B_KNOWNCRASH: s.crashId = str(0); s.crashFn = str(1); return true;
    case B_CONCR: return ret1(CV(conc(0)));
    case B_LIVE: return ret1(CV(s.liveHeap));
    case B_OBS: s.obs.push_back({intern(str(0)), a[1]}); return true;
    case B_ISSYM: return ret1(CV(a[0].e != nullptr));
    case B_STOP: finishPath(s); throw PathEnd();
    case B_STRTOD: { std::string t = str(0); char *e; double d = strtod(t.c_str(), &e); uint64_t outp = conc(1); if (outp) storeMem(s, CV(outp), CV(e - t.c_str()), 64); return ret1(CV(dBits(d))); }
    case B_FMTD: { uint64_t p = conc(0), n = conc(1); std::string fmt = str(2); uint64_t d = conc(3); char b[1200]; int r = snprintf(b, sizeof b, fmt.c_str(), asD(d)); for (uint64_t i = 0; i < n && i <= (uint64_t)r; i++) storeMem(s, CV(p + i), CV((uint8_t)(i + 1 == n ? 0 : b[i])), 8); return ret1(CV((uint32_t)r)); }
    case B_FMOD: return ret1(CV(dBits(fmod(asD(conc(0)), asD(conc(1))))));
    case B_ISFREED: { uint64_t p = conc(0); Loc l; if (!lookup(s, p, l)) return ret1(CV(1)); return ret1(CV(l.o->freed)); }
    case B_OBJSIZE: { uint64_t p = conc(0); Loc l; if (!lookup(s, p, l) || l.o->freed || p < l.o->base || p > l.o->base + l.o->size) return ret1(CV(0)); return ret1(CV(l.o->size - (p - l.o->base))); }
    case B_RANGEOK: { uint64_t p = conc(0), n = conc(1); Loc l; bool ok = p > 4096 && lookup(s, p, l) && !l.o->freed && p >= l.o->base && p + n <= l.o->base + l.o->size; return ret1(CV(ok)); }
    case B_PARAM: { std::string n = str(0); auto it = params.find(n); return ret1(it != params.end() ? CV((uint32_t)it->second) : a[1]); }
    case B_ABORT: memError(s, "abort", "abort() called");
    case B_ENGERR: engineError(s, str(0)); return true;
    case B_BOTH: { // can this condition go both ways?
        Val c = mkNot1(mkCmp(O_EQ, in.ws[0], a[0], CV(0))); if (!c.e) return ret1(CV(0)); std::vector<uint64_t> om; bool cur; return ret1(CV(decide(s, c, om, cur) == 2)); }
    case N_VASTART: { uint64_t p = conc(0); storeMem(s, CV(p), CV(48), 32); storeMem(s, CV(p + 4), CV(176), 32); storeMem(s, CV(p + 8), CV(s.top->vaObj), 64); storeMem(s, CV(p + 16), CV(0), 64); return true; }
    case N_VAEND: return true;
    case N_VACOPY: { uint64_t d = conc(0), q = conc(1); copyMem(s, d, q, 24); return true; }
    case N_STACKSAVE: return ret1(CV(s.top->stk.size()));
    case N_STACKRESTORE: { uint64_t n = conc(0); while (s.top->stk.size() > n) { s.stack.set(s.top->stk.back(), nullptr); s.top->stk.pop_back(); s.stkTop--; } return true; }
    case N_EXPECT: return ret1(a[0]);
    case N_ISCONST: return ret1(CV(0));
    case N_OBJSZ: return ret1(CV(~0ull));
    case N_FABS: { if (a[0].e) return ret1(mkBin(O_AND, 64, a[0], CV(~(1ull << 63)))); return ret1(CV(a[0].c & ~(1ull << 63))); }
    case N_FLOOR: return ret1(CV(dBits(floor(asD(conc(0)))))); case N_CEIL: return ret1(CV(dBits(ceil(asD(conc(0)))))); case N_TRUNC: return ret1(CV(dBits(trunc(asD(conc(0))))));
    case N_BSWAP: { Val r = mkExtract(a[0], in.w, 0, 8); unsigned w = 8; for (unsigned i = 8; i < in.w; i += 8, w += 8) r = mkConcat(r, w, mkExtract(a[0], in.w, i, 8), 8); return ret1(r); }
    case N_CTPOP: return ret1(CV(__builtin_popcountll(conc(0)))); case N_CTLZ: { uint64_t v = conc(0); return ret1(CV(v ? __builtin_clzll(v) - (64 - in.w) : in.w)); } case N_CTTZ: { uint64_t v = conc(0); return ret1(CV(v ? __builtin_ctzll(v) : in.w)); }
    case N_UMAX: return ret1(mkIte(mkCmp(O_ULT, in.w, a[0], a[1]), a[1], a[0], in.w)); case N_UMIN: return ret1(mkIte(mkCmp(O_ULT, in.w, a[0], a[1]), a[0], a[1], in.w));
    case N_SMAX: return ret1(mkIte(mkCmp(O_SLT, in.w, a[0], a[1]), a[1], a[0], in.w)); case N_SMIN: return ret1(mkIte(mkCmp(O_SLT, in.w, a[0], a[1]), a[0], a[1], in.w));
    case N_ABS: return ret1(mkIte(mkCmp(O_SLT, in.w, a[0], CV(0)), mkBin(O_SUB, in.w, CV(0), a[0]), a[0], in.w));
    case N_UADDO: case N_USUBO: case N_UMULO: case N_SADDO: case N_SSUBO: case N_SMULO: {
      unsigned w = in.ws[0]; uint64_t x = conc(0), y = conc(1); bool ov; uint64_t r;
      __int128 X1 = (id == N_SADDO || id == N_SSUBO || id == N_SMULO) ? (__int128)sx(x, w) : (__int128)x, Y1 = (id == N_SADDO || id == N_SSUBO || id == N_SMULO) ? (__int128)sx(y, w) : (__int128)y; __int128 Z1;
      if (id == N_UADDO || id == N_SADDO) Z1 = X1 + Y1; else if (id == N_USUBO || id == N_SSUBO) Z1 = X1 - Y1; else Z1 = X1 * Y1;
      r = (uint64_t)Z1 & maskw(w); ov = (id == N_UADDO || id == N_USUBO || id == N_UMULO) ? (Z1 < 0 || Z1 > (__int128)maskw(w)) : (Z1 != (__int128)sx(r, w));
      ret = {CV(r), CV(ov)}; return true; }
    case N_TRAP: memError(s, "abort", "trap");
  }
  engineError(s, "unsupported builtin " + std::to_string(id) + (in.callee ? " " + in.callee->name : "")); return false;
}
static void divCheck(State &s, Val b, unsigned w) {
  Val z = mkCmp(O_EQ, w, b, CV(0)); if (!z.e) { if (z.c) memError(s, "div-by-zero", "division by zero"); return; }
  std::vector<uint64_t> om; bool cur; int d = decide(s, z, om, cur);
  if (d == 1) memError(s, "div-by-zero", "division by zero");
  if (d == 2) { violation(s, "div-by-zero", "division by zero", cur ? s.model : om); if (cur) s.model = om; addC(s, mkNot1(z)); }
}
static void execCall(State &s, const Inst &in) {
  Frame *f = s.top; Fn *cf = in.callee; unsigned na = in.ws.size();
  if (!cf) {
    if (!in.k.empty() && in.t1 == 1 && in.I && cast<CallInst>(in.I)->isInlineAsm()) engineError(s, "inline asm");
    Val t = R(s, in.o[0]); if (t.e == UNINIT) memError(s, "uninit", "call through an uninitialised pointer"); uint64_t a = concretize(s, t, 64);
    if (a < 4096) memError(s, "null-deref", "call through a null function pointer");
    if (a < FN0 || (a - FN0) % 16 || (a - FN0) / 16 >= fns.size()) memError(s, "wild-pointer", "call through a wild function pointer");
    cf = fns[(a - FN0) / 16];
  }
  if (!cf->decoded) decode(cf);
  std::vector<Val> args(na); for (unsigned i = 0; i < na; i++) args[i] = R(s, in.o[in.t1 + i]);
  int id = in.intr >= 0 ? in.intr : cf->builtin;
  if (id >= 0) {
    for (unsigned i = 0; i < na; i++) if (args[i].e == UNINIT) args[i] = uninitVar(s, in.ws[i] ? in.ws[i] : 64);
    std::vector<Val> ret; runBuiltin(s, id, args, in, ret); if (in.dst >= 0) for (unsigned i = 0; i < in.ndst && i < ret.size(); i++) s.top->r[in.dst + i] = ret[i]; return; }
  if (cf->undefinedExt) { engineError(s, "call to unmodelled external " + cf->name); }
  if (s.depth >= maxDepth) memError(s, "stack-overflow", "call depth limit exceeded");
  unsigned nslots = 0; for (auto n : cf->argSlots) nslots += n;
  if (na < nslots) engineError(s, "call with too few arguments: " + cf->name);
  // byval copies and the vararg area live in the callee's frame
  pushFrame(s, cf, in.dst); f = s.top;
  unsigned k = 0;
  for (unsigned i = 0; i < cf->argReg.size(); i++) for (unsigned j = 0; j < cf->argSlots[i]; j++, k++) {
    if (cf->byvalSize[i]) { uint64_t p = stackAlloc(s, cf->byvalSize[i]); if (args[k].e) engineError(s, "symbolic byval pointer"); copyMem(s, p, args[k].c, cf->byvalSize[i]); f->r[cf->argReg[i]] = CV(p); }
    else f->r[cf->argReg[i] + j] = args[k];
  }
  if (cf->vararg) {
    uint64_t tot = 0; for (unsigned i = k; i < na; i++) tot += in.k[i] ? (in.k[i] + 7) & ~7ull : 8;
    uint64_t p = stackAlloc(s, tot), q = p; f->vaObj = p;
    for (unsigned i = k; i < na; i++) { if (in.k[i]) { copyMem(s, q, args[i].c, in.k[i]); q += (in.k[i] + 7) & ~7ull; } else { Val v = args[i]; unsigned w = in.ws[i]; if (v.e == UNINIT) v = uninitVar(s, w); v = mkZext(v, w, 64); if (!v.e) v.c &= maskw(w); storeMem(s, CV(q), v, 64); q += 8; } }
  }
  for (auto &i : cf->code) { if (i.code == I_NOP && i.op == 1) f->r[i.dst] = Val{0, UNINIT}; else if (i.code != I_ALLOCA && i.code != I_NOP) break; }
}
static void step(State &s) {
  Frame *f = s.top; const Inst &in = f->f->code[f->pc]; f->f->cov[f->pc] = 1; f->pc++; s.steps++; S.instrs++;
  auto get = [&](const Opnd &o) -> Val { if (o.reg < 0) return CV(o.c); return s.top->r[o.reg]; };
  switch (in.code) {
    case I_NOP: return;
    case I_BIN: { Val a = get(in.o[0]), b = get(in.o[1]);
      if (in.op == O_UDIV || in.op == O_SDIV || in.op == O_UREM || in.op == O_SREM) { divCheck(s, b, in.w); a = get(in.o[0]); }
      if (in.w > 64) engineError(s, "integer wider than 64 bits");
      if (!a.e && !b.e) { f->r[in.dst] = CV(evalOp(in.op, in.w, in.w, a.c, b.c, 0, in.w)); return; }
      f->r[in.dst] = mkBin(in.op, in.w, a, b); return; }
    case I_FBIN: f->r[in.dst] = mkFbin(in.op, in.w, get(in.o[0]), get(in.o[1])); return;
    case I_FNEG: f->r[in.dst] = mkBin(O_XOR, in.w, get(in.o[0]), CV(1ull << (in.w - 1))); return;
    case I_FCMP: f->r[in.dst] = mkFcmp(in.op, in.w2, get(in.o[0]), get(in.o[1])); return;
    case I_CMP: { Val a = get(in.o[0]), b = get(in.o[1]); unsigned w = in.w2; Val r;
      switch (in.op) { case ICmpInst::ICMP_EQ: r = mkCmp(O_EQ, w, a, b); break; case ICmpInst::ICMP_NE: r = mkNot1(mkCmp(O_EQ, w, a, b)); break;
        case ICmpInst::ICMP_ULT: r = mkCmp(O_ULT, w, a, b); break; case ICmpInst::ICMP_ULE: r = mkCmp(O_ULE, w, a, b); break; case ICmpInst::ICMP_UGT: r = mkCmp(O_ULT, w, b, a); break; case ICmpInst::ICMP_UGE: r = mkCmp(O_ULE, w, b, a); break;
        case ICmpInst::ICMP_SLT: r = mkCmp(O_SLT, w, a, b); break; case ICmpInst::ICMP_SLE: r = mkCmp(O_SLE, w, a, b); break; case ICmpInst::ICMP_SGT: r = mkCmp(O_SLT, w, b, a); break; default: r = mkCmp(O_SLE, w, b, a); }
      f->r[in.dst] = r; return; }
    case I_CAST: { Val a = get(in.o[0]); Val r;
      switch (in.op) { case O_ZEXT: r = mkZext(a, in.w2, in.w); break; case O_SEXT: r = mkSext(a, in.w2, in.w); break; case O_EXTRACT: r = mkExtract(a, in.w2, 0, in.w); break; case O_CONST: r = a; break; default: r = mkFconv(in.op, in.w2, in.w, a); }
      f->r[in.dst] = r; return; }
    case I_FREEZE: f->r[in.dst] = get(in.o[0]); return;
    case I_SELECT: { Val c = get(in.o[0]); unsigned n = in.ndst; if (c.e && in.isPtr) { bool t = branchRetry(s, c); c = CV(t); } for (unsigned i = 0; i < n; i++) { Val a = get(in.o[1 + i]), b = get(in.o[1 + n + i]); s.top->r[in.dst + i] = mkIte(c, a, b, n == 1 ? in.w : 64); } return; }
    case I_GEP: { Val r = get(in.o[0]); for (unsigned i = 1; i < in.o.size(); i++) { Val x = mkSext(get(in.o[i]), in.ws[i - 1], 64); r = mkBin(O_ADD, 64, r, mkBin(O_MUL, 64, x, CV(in.k[i - 1]))); } uint64_t off = in.k.back(); if (off) r = mkBin(O_ADD, 64, r, CV(off)); f->r[in.dst] = r; return; }
    case I_PLOAD: { Val &v = f->r[in.o[0].reg]; if (v.e == UNINIT) v = uninitVar(s, in.w); f->r[in.dst] = v; return; }
    case I_PSTORE: { Val v = get(in.o[0]); f->r[in.dst] = v; return; }
    case I_LOAD: { if (in.w > 64 || !in.w) engineError(s, "load of unsupported type"); Val v = loadMem(s, get(in.o[0]), in.w, in.isPtr); s.top->r[in.dst] = v; return; }
    case I_STORE: { if (in.w2 > 64 || !in.w2) engineError(s, "store of unsupported type"); storeMem(s, get(in.o[1]), get(in.o[0]), in.w2); return; }
    case I_AGGLOAD: { uint64_t a = concretize(s, get(in.o[0]), 64); for (unsigned i = 0; i < in.k.size(); i++) s.top->r[in.dst + i] = loadMem(s, CV(a + in.k[i]), in.ws[i], false); return; }
    case I_AGGSTORE: { uint64_t a = concretize(s, get(in.o[0]), 64); for (unsigned i = 0; i < in.k.size(); i++) storeMem(s, CV(a + in.k[i]), get(in.o[1 + i]), in.ws[i]); return; }
    case I_ALLOCA: { uint64_t n = concretize(s, get(in.o[0]), in.w2); s.top->r[in.dst] = CV(stackAlloc(s, n * in.k[0])); return; }
    case I_JMP: enterBlock(s, in.t1); return;
    case I_BR: { Val c = get(in.o[0]); if (!c.e) { enterBlock(s, c.c ? in.t1 : in.t2); return; }
      std::vector<uint64_t> om; bool cur; int d = decide(s, c, om, cur);
      if (d == 2) { if (c.e->uninit && dependsUninit(s, c.e)) memError(s, "uninit", "branch depends on uninitialised memory"); State *n = forkState(s); addC(*n, cur ? mkNot1(c) : c); n->model = om; enterBlock(*n, cur ? in.t2 : in.t1); forkOff(n); addC(s, cur ? c : mkNot1(c)); }
      enterBlock(s, cur ? in.t1 : in.t2); return; }
    case I_SWITCH: { Val v = get(in.o[0]); unsigned w = in.w2;
      if (!v.e) { for (unsigned i = 0; i < in.k.size(); i += 2) if (in.k[i] == v.c) { enterBlock(s, in.k[i + 1]); return; } enterBlock(s, in.t1); return; }
      // group the cases by target, peel one target per decision
      std::vector<std::pair<uint32_t, Val>> groups; for (unsigned i = 0; i < in.k.size(); i += 2) { Val e = mkCmp(O_EQ, w, v, CV(in.k[i])); bool found = false; for (auto &g : groups) if (g.first == in.k[i + 1]) { g.second = mkBin(O_OR, 1, g.second, e); found = true; } if (!found) groups.push_back({(uint32_t)in.k[i + 1], e}); }
      for (auto &g : groups) { Val c = g.second; if (!c.e) { if (c.c) { enterBlock(s, g.first); return; } continue; }
        std::vector<uint64_t> om; bool cur; int d = decide(s, c, om, cur);
        if (d == 2) { if (c.e->uninit && dependsUninit(s, c.e)) memError(s, "uninit", "branch depends on uninitialised memory");
          State *n = forkState(s); addC(*n, c); addC(s, mkNot1(c)); if (cur) { n->model = s.model; s.model = om; } else n->model = om; enterBlock(*n, g.first); forkOff(n); continue; }
        if (cur) { enterBlock(s, g.first); return; } }
      enterBlock(s, in.t1); return; }
    case I_RET: { Val tmp[16]; unsigned n = in.o.size(); for (unsigned i = 0; i < n; i++) tmp[i] = get(in.o[i]); int dst = f->retDst; popFrame(s); if (!s.top) { finishPath(s); throw PathEnd(); } if (dst >= 0) for (unsigned i = 0; i < n; i++) s.top->r[dst + i] = tmp[i]; return; }
    case I_EXTRACTV: for (unsigned i = 0; i < in.ndst; i++) f->r[in.dst + i] = get(in.o[i]); return;
    case I_INSERTV: { std::vector<Val> t; for (unsigned i = 0; i < in.ndst; i++) t.push_back(get(in.o[i])); for (unsigned i = 0; i < in.ndst; i++) f->r[in.dst + i] = t[i]; return; }
    case I_CALL: execCall(s, in); return;
    case I_UNREACH: if (in.op) engineError(s, "unsupported instruction"); memError(s, "unreachable", "unreachable code executed");
    default: engineError(s, "bad opcode");
  }
}

static double lastSplit = 0; static bool isRoot = true; static std::vector<pid_t> kids;
static void resetStats() { S = Stats(); reach.clear(); knownHits.clear(); viols.clear(); engineErrs.clear(); samples.clear(); sampleSeen = 0; for (auto *f : fns) std::fill(f->cov.begin(), f->cov.end(), 0); kids.clear(); }
static void trySplit() {
  if (pending.size() < 1 || SH->active >= (int)maxWorkers || SH->stop) return;
  double t = now(); if (t - lastSplit < 0.15) return; lastSplit = t;
  int a = SH->active; if (a >= (int)maxWorkers || !__sync_bool_compare_and_swap(&SH->active, a, a + 1)) return;
  size_t take = (pending.size() + 1) / 2;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { __sync_sub_and_fetch(&SH->active, 1); return; }
  if (p == 0) { isRoot = false; prctl(PR_SET_PDEATHSIG, SIGKILL); pending.erase(pending.begin() + take, pending.end()); resetStats(); rng ^= (uint64_t)getpid() * 0x9E3779B97F4A7C15ull; throw 1; }
  kids.push_back(p); for (size_t i = 0; i < take; i++) { delete pending.front(); pending.pop_front(); }
}
static double rssMB() { FILE *f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * 4096.0 / 1e6; }
static void runOne(State *s) {
  uint64_t lim = maxSteps; uint64_t n = 0;
  try {
    for (;;) {
      step(*s);
      if ((++n & 0xfff) == 0) {
        if (SH->stop) { S.incomplete++; break; }
        if (now() > deadline) { S.incomplete++; break; }
        if (s->steps > lim) { S.steplim++; memError(*s, "nontermination", "instruction limit reached on one path"); }
        if ((n & 0xffff) == 0 && rssMB() > memLimitMB) { S.incomplete++; engineErrs.insert("worker memory limit"); SH->stop = 1; break; }
        bool child = false; try { trySplit(); } catch (int) { child = true; }
        if (child) { s = nullptr; throw 1; }  // child abandons the parent's running state
      }
    }
  } catch (PathEnd &) { }
  delete s;
}
static void writeResult() {
  char fn[300]; snprintf(fn, 300, "%s/res_%d.json", outDir.c_str(), __sync_add_and_fetch(&SH->seq, 1)); FILE *f = fopen(fn, "w"); if (!f) return;
  fprintf(f, "{\"paths\":%lu,\"assume_killed\":%lu,\"forks\":%lu,\"instrs\":%lu,\"queries\":%lu,\"solver_queries\":%lu,\"cache_hits\":%lu,\"asserts\":%lu,\"asserts_symbolic\":%lu,\"memchecks\":%lu,\"unknown\":%lu,\"incomplete\":%lu,\"engine_errors\":%lu,\"viol\":%lu,\"steplim\":%lu,\"solver_s\":%.3f,\n", S.paths, S.assumeKilled, S.forks, S.instrs, S.queries, S.solverQ, S.cacheHits, S.asserts, S.assertsSolver, S.memchecks, S.unknown, S.incomplete, S.engineErr, S.viol, S.steplim, S.solverT);
  fprintf(f, "\"reach\":{"); bool first = true; for (auto &r : reach) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(r.first).c_str(), r.second); first = false; } fprintf(f, "},\n\"known\":{"); first = true; for (auto &r : knownHits) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(r.first).c_str(), r.second); first = false; }
  fprintf(f, "},\n\"engine_err_msgs\":["); first = true; for (auto &e : engineErrs) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(e).c_str()); first = false; }
  fprintf(f, "],\n\"violations\":["); first = true; for (auto &v : viols) { fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"file\":\"%s\"}", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.file).c_str()); first = false; }
  fprintf(f, "],\n\"cov\":{"); first = true; for (auto *fn2 : fns) if (fn2->decoded && fn2->isRepo) { bool any = false; for (auto c : fn2->cov) any |= c; if (!any) continue; fprintf(f, "%s\"%s\":\"", first ? "" : ",", jesc(fn2->name).c_str()); for (auto c : fn2->cov) fputc(c ? '1' : '0', f); fprintf(f, "\""); first = false; }
  fprintf(f, "},\n\"samples\":["); first = true; for (auto &p : samples) { fprintf(f, "%s{\"in\":\"", first ? "" : ","); std::string t = p.first; for (char c : t) if (c == '\n') fputs("\\n", f); else fputs(jesc(std::string(1, c)).c_str(), f); fprintf(f, "\",\"obs\":\""); for (char c : p.second) if (c == '\n') fputs("\\n", f); else fputs(jesc(std::string(1, c)).c_str(), f); fprintf(f, "\"}"); first = false; }
  fprintf(f, "]}\n"); fclose(f);
}
// breadth first until there is enough to share out, then hand every worker an interleaved share
static void seedWorkers() {
  double t0 = now(); SH->active = maxWorkers; lastSplit = t0 + 1e9;
  while (!pending.empty() && pending.size() < 600 && now() - t0 < 0.6 && !SH->stop) { State *s = pending.front(); pending.pop_front(); runOne(s); }
  lastSplit = now(); SH->active = 1;
  if (pending.size() < 16) return;
  unsigned W = maxWorkers; std::vector<State*> all(pending.begin(), pending.end()); fflush(stdout); fflush(stderr);
  for (unsigned w = 1; w < W; w++) { __sync_add_and_fetch(&SH->active, 1); pid_t p = fork(); if (p < 0) { __sync_sub_and_fetch(&SH->active, 1); W = w; break; }
    if (p == 0) { isRoot = false; prctl(PR_SET_PDEATHSIG, SIGKILL); pending.clear(); for (size_t i = w; i < all.size(); i += maxWorkers) pending.push_back(all[i]); resetStats(); rng ^= (uint64_t)getpid() * 0x9E3779B97F4A7C15ull; lastSplit = now(); return; }
    kids.push_back(p); }
  pending.clear(); for (size_t i = 0; i < all.size(); i++) if (i % maxWorkers == 0 || i % maxWorkers >= W) pending.push_back(all[i]);
}
static void mainLoop() {
  if (maxWorkers > 1) seedWorkers();
  for (;;) {
    bool child = false;
    try { while (!pending.empty()) {
      if (SH->stop || now() > deadline) { S.incomplete += pending.size(); pending.clear(); break; }
      if (pending.size() > 1) trySplit();
      State *s = pending.back(); pending.pop_back(); runOne(s);
    } } catch (int) { child = true; }
    if (child) continue;
    break;
  }
}
int main(int argc, char **argv) {
  T0 = now(); std::string bc;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entryName = nx(); else if (a == "--out") outDir = nx(); else if (a == "--time") deadline = T0 + atof(nx().c_str()); else if (a == "--workers") maxWorkers = atoi(nx().c_str()); else if (a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") nSamples = atoi(nx().c_str()); else if (a == "--max-viol") maxViol = atoi(nx().c_str()); else if (a == "--solver-timeout") solverTimeoutMs = atoi(nx().c_str()); else if (a == "--dump") dumpQ = true; else if (a == "--repo-prefix") repoPrefix = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--max-depth") maxDepth = atoi(nx().c_str()); else if (a == "--mem") memLimitMB = atof(nx().c_str());
    else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = strtoll(p.c_str() + e + 1, 0, 0); }
    else bc = a; }
  rng ^= seed * 0x9E3779B97F4A7C15ull; if (!rng) rng = 1;
  struct rlimit rl = {RLIM_INFINITY, RLIM_INFINITY}; getrlimit(RLIMIT_STACK, &rl); (void)rl;
  mkdir(outDir.c_str(), 0755);
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->active = 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("symx", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config(); char tb[32]; snprintf(tb, 32, "%u", solverTimeoutMs); Z3_set_param_value(cfg, "timeout", tb); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
  ZS = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, ZS);
  initBuiltins(); initGlobals = new ObjTab();
  uint32_t gi = 0; for (auto &g : M->globals()) globIdx[&g] = gi++;
  for (auto &F : *M) getFn(&F);
  for (auto &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; uint64_t sz = DL->getTypeAllocSize(g.getValueType()); uint32_t i = globIdx[&g]; Obj *o = newObj(K_GLOBAL, GLOB0 + i * STRIDE + 4096, sz, false); if (g.hasInitializer()) initGlobal(g.getInitializer(), o, 0); o->ro = g.isConstant(); initGlobals->set(i, o); }
  Function *EF = M->getFunction(entryName); if (!EF) { fprintf(stderr, "no entry %s\n", entryName.c_str()); return 3; }
  State *s = new State(*initGlobals); Fn *ef = getFn(EF); decode(ef); pushFrame(*s, ef, -1);
  for (auto &i : ef->code) { if (i.code == I_NOP && i.op == 1) s->top->r[i.dst] = Val{0, UNINIT}; else if (i.code != I_ALLOCA && i.code != I_NOP) break; }
  pending.push_back(s);
  mainLoop();
  writeResult();
  __sync_sub_and_fetch(&SH->active, 1);
  int bad = 0; for (;;) { int st; pid_t p = wait(&st); if (p < 0) break; if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
  if (!isRoot) _exit(bad ? 4 : 0);
  if (bad) { FILE *f = fopen((outDir + "/crashed").c_str(), "w"); if (f) fclose(f); }
  printf("symx done %.2fs\n", now() - T0); fflush(stdout); _exit(0);
}
