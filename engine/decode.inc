// ---------------------------------------------------------------- decoding LLVM functions
struct Slot { u32 w; u64 off; u32 bytes; };
static void flat(llvm::Type *T, u64 off, std::vector<Slot> &out) {
  if (T->isIntegerTy()) { u32 w = T->getIntegerBitWidth(); out.push_back({w, off, (w + 7) / 8}); }
  else if (T->isPointerTy()) out.push_back({64, off, 8});
  else if (T->isFloatTy()) out.push_back({32, off, 4});
  else if (T->isDoubleTy()) out.push_back({64, off, 8});
  else if (auto *st = dyn_cast<llvm::StructType>(T)) { auto *sl = DL->getStructLayout(st); for (u32 i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out); }
  else if (auto *at = dyn_cast<llvm::ArrayType>(T)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, out); }
  else if (auto *vt = dyn_cast<llvm::FixedVectorType>(T)) { u64 es = DL->getTypeSizeInBits(vt->getElementType()); for (u32 i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), off + i * es / 8, out); }
  else if (T->isVoidTy()) {}
  else { std::string s; llvm::raw_string_ostream os(s); T->print(os); throw Unsupported("type " + os.str()); }
}
static std::unordered_map<llvm::Type *, std::vector<Slot>> flatcache;
static const std::vector<Slot> &slots(llvm::Type *T) { auto it = flatcache.find(T); if (it != flatcache.end()) return it->second; std::vector<Slot> v; flat(T, 0, v); return flatcache[T] = v; }

static u128 apint(const llvm::APInt &a) { if (a.getBitWidth() > 128) { if (a.getActiveBits() > 128) throw Unsupported("wide integer constant"); } u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v; }
static u64 globaladdr(const llvm::GlobalValue *g) {
  if (auto *a = dyn_cast<llvm::GlobalAlias>(g)) return globaladdr(cast<llvm::GlobalValue>(a->getAliasee()->stripPointerCasts()));
  if (auto *f = dyn_cast<llvm::Function>(g)) { if (f->isDeclaration() && f->hasExternalWeakLinkage()) return 0; return fmap.at(f)->addr; }
  auto it = gaddr.find(g); if (it == gaddr.end()) { if (g->hasExternalWeakLinkage()) return 0; throw Unsupported("unknown global " + g->getName().str()); } return it->second;
}
static void constvals(const llvm::Constant *c, std::vector<Val> &out) {
  if (auto *i = dyn_cast<llvm::ConstantInt>(c)) { out.push_back(cst(apint(i->getValue()))); return; }
  if (auto *f = dyn_cast<llvm::ConstantFP>(c)) { out.push_back(cst(apint(f->getValueAPF().bitcastToAPInt()))); return; }
  if (isa<llvm::ConstantPointerNull>(c)) { out.push_back(cst(0)); return; }
  if (isa<llvm::UndefValue>(c) || isa<llvm::ConstantAggregateZero>(c)) { for (size_t i = 0; i < slots(c->getType()).size(); i++) out.push_back(cst(0)); return; }
  if (auto *g = dyn_cast<llvm::GlobalValue>(c)) { out.push_back(cst(globaladdr(g))); return; }
  if (auto *ds = dyn_cast<llvm::ConstantDataSequential>(c)) { for (u32 i = 0; i < ds->getNumElements(); i++) constvals(ds->getElementAsConstant(i), out); return; }
  if (auto *ag = dyn_cast<llvm::ConstantAggregate>(c)) { for (u32 i = 0; i < ag->getNumOperands(); i++) constvals(ag->getOperand(i), out); return; }
  if (auto *ce = dyn_cast<llvm::ConstantExpr>(c)) {
    std::vector<Val> o;
    switch (ce->getOpcode()) {
    case llvm::Instruction::GetElementPtr: { auto *gep = cast<llvm::GEPOperator>(ce); llvm::APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported("constant gep"); constvals(ce->getOperand(0), o); out.push_back(cst((u64)((u64)o[0].v + off.getSExtValue()))); return; }
    case llvm::Instruction::BitCast: case llvm::Instruction::AddrSpaceCast: constvals(ce->getOperand(0), out); return;
    case llvm::Instruction::PtrToInt: case llvm::Instruction::Trunc: constvals(ce->getOperand(0), o); out.push_back(cst(o[0].v & maskw(ce->getType()->getIntegerBitWidth()))); return;
    case llvm::Instruction::IntToPtr: case llvm::Instruction::ZExt: constvals(ce->getOperand(0), out); return;
    case llvm::Instruction::Add: case llvm::Instruction::Sub: case llvm::Instruction::Xor: case llvm::Instruction::And: case llvm::Instruction::Or: {
      constvals(ce->getOperand(0), o); constvals(ce->getOperand(1), o); u32 w = slots(ce->getType())[0].w; Kind k = ce->getOpcode() == llvm::Instruction::Add ? K_ADD : ce->getOpcode() == llvm::Instruction::Sub ? K_SUB : ce->getOpcode() == llvm::Instruction::Xor ? K_XOR : ce->getOpcode() == llvm::Instruction::And ? K_AND : K_OR;
      out.push_back(cst(Ctx::fold(k, w, o[0].v, o[1].v))); return; }
    case llvm::Instruction::ICmp: { constvals(ce->getOperand(0), o); constvals(ce->getOperand(1), o); auto p = ce->getPredicate(); bool r; if (p == llvm::CmpInst::ICMP_EQ) r = o[0].v == o[1].v; else if (p == llvm::CmpInst::ICMP_NE) r = o[0].v != o[1].v; else throw Unsupported("constant icmp"); out.push_back(cst(r)); return; }
    default: break;
    }
  }
  std::string s; llvm::raw_string_ostream os(s); c->print(os); throw Unsupported("constant " + os.str().substr(0, 200));
}
static void initglobal(const llvm::Constant *c, u64 a) {
  if (isa<llvm::UndefValue>(c) || isa<llvm::ConstantAggregateZero>(c)) return;
  if (auto *ds = dyn_cast<llvm::ConstantDataSequential>(c)) { auto r = ds->getRawDataValues(); memcpy(H(a), r.data(), r.size()); return; }
  if (auto *st = dyn_cast<llvm::ConstantStruct>(c)) { auto *sl = DL->getStructLayout(st->getType()); for (u32 i = 0; i < st->getNumOperands(); i++) initglobal(st->getOperand(i), a + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<llvm::ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(at->getType()->getElementType()); for (u32 i = 0; i < at->getNumOperands(); i++) initglobal(at->getOperand(i), a + i * es); return; }
  std::vector<Val> o; constvals(c, o); auto &s = slots(c->getType()); for (size_t i = 0; i < o.size(); i++) memcpy(H(a + s[i].off), &o[i].v, s[i].bytes);
}

// special panicking entry points
static int specialof(const std::string &n) {
  static const char *pats[] = {"4core9panicking", "3std9panicking11begin_panic", "3std9panicking20rust_panic_with_hook", "rust_begin_unwind", "begin_panic_handler", "6option13unwrap_failed", "6option13expect_failed", "6result13unwrap_failed", "4core4cell", nullptr};
  auto has = [&](const char *p) { return n.find(p) != std::string::npos; };
  if (n.find("_ZN4core4cell") == 0 && n.find("panic_already") != std::string::npos) return 1;
  if (n.find("_ZN4core9panicking") == 0 && n.find("assert_failed_inner") == std::string::npos) return 1;
  if (has("_ZN4core6option13expect_failed") || has("_ZN4core6option13unwrap_failed") || has("_ZN4core6result13unwrap_failed")) return 1;
  if (has("_ZN4core9panicking")) return 1;
  if (has("3std9panicking11begin_panic") || has("rust_panic_with_hook") || n == "rust_begin_unwind" || has("std9panicking19begin_panic_handler")) return 1;
  if (has("alloc7raw_vec17capacity_overflow") || has("alloc5alloc18handle_alloc_error") || has("slice_start_index_len_fail") || has("slice_end_index_len_fail") || has("slice_index_order_fail") || has("core3str16slice_error_fail") || has("len_mismatch_fail")) return 1;
  if (has("3std2io5stdio6_print") || has("3std2io5stdio7_eprint")) return 2;   // console output: no-op
  (void)pats; return 0;
}

struct Dec {
  DFunc *f; std::unordered_map<const llvm::Value *, int32_t> slot; std::unordered_map<const llvm::BasicBlock *, u32> bidx; const llvm::DILocation *cur = nullptr; const llvm::Instruction *curI = nullptr; std::unordered_map<const llvm::Constant *, int32_t> ccache;
  int32_t opn(const llvm::Value *v) {
    if (auto *c = dyn_cast<llvm::Constant>(v)) {
      auto it = ccache.find(c); if (it != ccache.end()) return it->second;
      std::vector<Val> o; constvals(c, o); int32_t b = ~(int32_t)f->pool.size(); for (auto &x : o) f->pool.push_back(x); if (o.empty()) f->pool.push_back(cst(0)); return ccache[c] = b;
    }
    if (isa<llvm::MetadataAsValue>(v)) return ~0;
    return slot.at(v);
  }
  static int32_t sl(int32_t b, u32 j) { return b >= 0 ? b + (int32_t)j : b - (int32_t)j; }
  Inst &put(Op op) { f->code.push_back(Inst{(uint16_t)op, 0, 0, 0, 0, 0, 0, 0, 0, nullptr}); f->loc.push_back(cur); f->src.push_back(curI); return f->code.back(); }
  void mov(int32_t d, int32_t s, u32 n) { if (!n) return; auto &i = put(I_MOV); i.d = d; i.a = s; i.imm = n; }
  void unsup(const std::string &s) { auto &i = put(I_UNSUP); i.x = strdup(s.c_str()); }
  int32_t konst(u128 v) { f->pool.push_back(cst(v)); return ~(int32_t)(f->pool.size() - 1); }
  u32 edge(const llvm::BasicBlock *from, const llvm::BasicBlock *to) {
    Edge e; e.blk = bidx.at(to);
    for (auto &phi : to->phis()) { const llvm::Value *v = phi.getIncomingValueForBlock(from); u32 n = slots(phi.getType()).size(); if (!n) continue; e.mv.push_back({slot.at(&phi), opn(v), n}); }
    f->edges.push_back(std::move(e)); return f->edges.size() - 1;
  }
  u32 aggoff(llvm::Type *T, llvm::ArrayRef<unsigned> idx) { u32 o = 0; for (unsigned i : idx) { if (auto *st = dyn_cast<llvm::StructType>(T)) { for (u32 k = 0; k < i; k++) o += slots(st->getElementType(k)).size(); T = st->getElementType(i); } else { auto *at = cast<llvm::ArrayType>(T); o += i * slots(at->getElementType()).size(); T = at->getElementType(); } } return o; }
  void run();
  void inst(const llvm::Instruction &I);
  void call(const llvm::CallBase &C);
  bool intrinsic(const llvm::CallBase &C, const llvm::Function *F, int32_t d);
};

static void decode(DFunc *f) { if (f->decoded) return; f->decoded = true; Dec d; d.f = f; d.run(); }

void Dec::run() {
  llvm::Function *F = f->F; u32 n = 0;
  for (auto &A : F->args()) { slot[&A] = n; f->argslot.push_back(n); n += slots(A.getType()).size(); }
  f->argslots = n; u32 bi = 0;
  for (auto &B : *F) { bidx[&B] = bi++; for (auto &I : B) { try { u32 k = slots(I.getType()).size(); slot[&I] = n; n += k; } catch (Unsupported &) { slot[&I] = n; n += 4; } } }
  f->nregs = n + 1; f->hit.assign(bi, 0);
  for (auto &B : *F) {
    f->blkstart.push_back(f->code.size());
    for (auto &I : B) {
      if (isa<llvm::PHINode>(I) || isa<llvm::DbgInfoIntrinsic>(I)) continue;
      cur = I.getDebugLoc().get(); curI = &I; size_t before = f->code.size();
      try { inst(I); } catch (Unsupported &u) { f->code.resize(before); f->loc.resize(before); f->src.resize(before); unsup(u.what()); }
    }
  }
  f->blkof.resize(f->code.size());
  for (size_t b = 0; b < f->blkstart.size(); b++) { size_t e = b + 1 < f->blkstart.size() ? f->blkstart[b + 1] : f->code.size(); for (size_t i = f->blkstart[b]; i < e; i++) f->blkof[i] = b; }
}
static u32 elw(llvm::Type *T) { T = T->getScalarType(); if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; throw Unsupported("scalar type"); }

void Dec::inst(const llvm::Instruction &I) {
  using namespace llvm; int32_t d = slot.at(&I); llvm::Type *T = I.getType();
  switch (I.getOpcode()) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    static const std::map<unsigned, Kind> km = {{Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}};
    Kind k = km.at(I.getOpcode()); u32 n = slots(T).size(), w = elw(T); if (w > 128) throw Unsupported("wide arithmetic"); int32_t a = opn(I.getOperand(0)), b = opn(I.getOperand(1));
    for (u32 j = 0; j < n; j++) { auto &i = put(I_BIN); i.k = k; i.w = w; i.d = d + j; i.a = sl(a, j); i.b = sl(b, j); } break; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: {
    u32 n = slots(T).size(), w = elw(T); int32_t a = opn(I.getOperand(0)), b = I.getNumOperands() > 1 ? opn(I.getOperand(1)) : a; for (u32 j = 0; j < n; j++) { auto &i = put(I_FBIN); i.imm = I.getOpcode(); i.w = w; i.d = d + j; i.a = sl(a, j); i.b = sl(b, j); } break; }
  case Instruction::ICmp: { auto &C = cast<ICmpInst>(I); u32 n = slots(T).size(), w = elw(C.getOperand(0)->getType()); int32_t a = opn(C.getOperand(0)), b = opn(C.getOperand(1)); for (u32 j = 0; j < n; j++) { auto &i = put(I_CMP); i.k = C.getPredicate(); i.w = w; i.d = d + j; i.a = sl(a, j); i.b = sl(b, j); } break; }
  case Instruction::FCmp: { auto &C = cast<FCmpInst>(I); u32 n = slots(T).size(), w = elw(C.getOperand(0)->getType()); int32_t a = opn(C.getOperand(0)), b = opn(C.getOperand(1)); for (u32 j = 0; j < n; j++) { auto &i = put(I_FCMP); i.k = C.getPredicate(); i.w = w; i.d = d + j; i.a = sl(a, j); i.b = sl(b, j); } break; }
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
    u32 n = slots(T).size(), w = elw(I.getOperand(0)->getType()), w2 = elw(T); if (w > 128 || w2 > 128) throw Unsupported("wide cast"); int32_t a = opn(I.getOperand(0)); Op op = I.getOpcode() == Instruction::SExt ? I_SEXT : w2 < w ? I_TRUNC : I_ZEXT;
    for (u32 j = 0; j < n; j++) { auto &i = put(op); i.w = w; i.w2 = w2; i.d = d + j; i.a = sl(a, j); } break; }
  case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: { if (T->isVectorTy()) throw Unsupported("vector fp cast"); auto &i = put(I_FCVT); i.imm = I.getOpcode(); i.w = elw(I.getOperand(0)->getType()); i.w2 = elw(T); i.d = d; i.a = opn(I.getOperand(0)); break; }
  case Instruction::BitCast: {
    auto &sa = slots(I.getOperand(0)->getType()); auto &sd = slots(T); int32_t a = opn(I.getOperand(0));
    if (sa.size() == sd.size() && sa[0].w == sd[0].w) mov(d, a, sd.size());
    else if (sd.size() == 1) { if (sd[0].w > 128) throw Unsupported("wide bitcast"); auto &i = put(I_PACK); i.d = d; i.a = a; i.imm = sa.size(); i.w = sa[0].w; i.w2 = sd[0].w; }
    else if (sa.size() == 1) { if (sa[0].w > 128) throw Unsupported("wide bitcast"); auto &i = put(I_UNPACK); i.d = d; i.a = a; i.imm = sd.size(); i.w = sd[0].w; }
    else { u32 tot = sa.size() * sa[0].w; if (tot > 128) throw Unsupported("vector bitcast wider than 128"); // via packed temporary in the last register
      auto &i = put(I_PACK); i.d = f->nregs - 1; i.a = a; i.imm = sa.size(); i.w = sa[0].w; i.w2 = tot; auto &q = put(I_UNPACK); q.d = d; q.a = f->nregs - 1; q.imm = sd.size(); q.w = sd[0].w; }
    break; }
  case Instruction::Freeze: mov(d, opn(I.getOperand(0)), slots(T).size()); break;
  case Instruction::Select: {
    u32 n = slots(T).size(); auto &sd = slots(T); int32_t c = opn(I.getOperand(0)), a = opn(I.getOperand(1)), b = opn(I.getOperand(2)); bool vc = I.getOperand(0)->getType()->isVectorTy(); bool isagg = T->isAggregateType();
    bool anyptr = T->isPointerTy(); (void)isagg;
    for (u32 j = 0; j < n; j++) { auto &i = put(I_SELECT); i.k = anyptr; i.w = sd[j].w; i.d = d + j; i.a = sl(a, j); i.b = sl(b, j); i.c = vc ? sl(c, j) : c; } break; }
  case Instruction::Load: { auto &s = slots(T); int32_t a = opn(I.getOperand(0)); if (T->isVectorTy() && elw(T) % 8) throw Unsupported("bit-vector load"); for (size_t j = 0; j < s.size(); j++) { auto &i = put(I_LOAD); i.d = d + j; i.a = a; i.imm = s[j].off; i.w = s[j].w; i.w2 = s[j].bytes; if (s[j].w > 128) throw Unsupported("wide load"); } break; }
  case Instruction::Store: { auto &s = slots(I.getOperand(0)->getType()); int32_t v = opn(I.getOperand(0)), a = opn(I.getOperand(1)); if (isa<UndefValue>(I.getOperand(0))) break; if (I.getOperand(0)->getType()->isVectorTy() && elw(I.getOperand(0)->getType()) % 8) throw Unsupported("bit-vector store"); for (size_t j = 0; j < s.size(); j++) { auto &i = put(I_STORE); i.a = a; i.b = sl(v, j); i.imm = s[j].off; i.w = s[j].w; i.w2 = s[j].bytes; if (s[j].w > 128) throw Unsupported("wide store"); } break; }
  case Instruction::GetElementPtr: {
    auto &G = cast<GetElementPtrInst>(I); if (T->isVectorTy()) throw Unsupported("vector gep"); auto *ts = new std::vector<GepT>(); int64_t off = 0;
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { Value *ix = it.getOperand(); if (auto *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; } u64 es = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * (int64_t)es; continue; } ts->push_back({opn(ix), es, (u32)ix->getType()->getIntegerBitWidth()}); }
    auto &i = put(I_GEP); i.d = d; i.a = opn(G.getPointerOperand()); i.imm = off; i.x = ts; i.b = ts->size(); break; }
  case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); u64 es = DL->getTypeAllocSize(A.getAllocatedType()); auto &i = put(I_ALLOCA); i.d = d; i.a = opn(A.getArraySize()); i.imm = es; i.b = A.getAlign().value(); break; }
  case Instruction::Br: { auto &B = cast<BranchInst>(I); if (B.isUnconditional()) { u32 e = edge(I.getParent(), B.getSuccessor(0)); auto &i = put(I_BR); i.imm = e; } else { u32 e1 = edge(I.getParent(), B.getSuccessor(0)), e2 = edge(I.getParent(), B.getSuccessor(1)); int32_t c = opn(B.getCondition()); auto &i = put(I_CBR); i.a = c; i.imm = e1; i.b = e2; } break; }
  case Instruction::Switch: { auto &Sw = cast<SwitchInst>(I); auto *s = new SwI(); for (auto &cs : Sw.cases()) { s->vals.push_back(apint(cs.getCaseValue()->getValue())); s->edges.push_back(edge(I.getParent(), cs.getCaseSuccessor())); } s->def = edge(I.getParent(), Sw.getDefaultDest()); int32_t c = opn(Sw.getCondition()); auto &i = put(I_SWITCH); i.a = c; i.w = elw(Sw.getCondition()->getType()); i.x = s; break; }
  case Instruction::Ret: { auto &i0 = cast<ReturnInst>(I); u32 n = i0.getReturnValue() ? slots(i0.getReturnValue()->getType()).size() : 0; int32_t a = n ? opn(i0.getReturnValue()) : 0; auto &i = put(I_RET); i.a = a; i.imm = n; break; }
  case Instruction::Unreachable: put(I_UNREACH); break;
  case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); mov(d, sl(opn(E.getAggregateOperand()), aggoff(E.getAggregateOperand()->getType(), E.getIndices())), slots(T).size()); break; }
  case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); mov(d, opn(E.getAggregateOperand()), slots(T).size()); mov(d + aggoff(T, E.getIndices()), opn(E.getInsertedValueOperand()), slots(E.getInsertedValueOperand()->getType()).size()); break; }
  case Instruction::ExtractElement: { auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); u32 es = slots(T).size(); if (ci) mov(d, sl(opn(I.getOperand(0)), ci->getZExtValue() * es), es); else { auto &i = put(I_DYNEXT); i.d = d; i.a = opn(I.getOperand(0)); i.b = opn(I.getOperand(1)); i.imm = slots(I.getOperand(0)->getType()).size(); } break; }
  case Instruction::InsertElement: { auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); mov(d, opn(I.getOperand(0)), slots(T).size()); if (ci) mov(d + ci->getZExtValue(), opn(I.getOperand(1)), 1); else { auto &i = put(I_DYNINS); i.d = d; i.a = opn(I.getOperand(1)); i.b = opn(I.getOperand(2)); i.imm = slots(T).size(); } break; }
  case Instruction::ShuffleVector: { auto &V = cast<ShuffleVectorInst>(I); u32 n0 = slots(V.getOperand(0)->getType()).size(); int32_t a = opn(V.getOperand(0)), b = opn(V.getOperand(1)); u32 j = 0; for (int m : V.getShuffleMask()) { if (m >= 0) mov(d + j, (u32)m < n0 ? sl(a, m) : sl(b, m - n0), 1); j++; } break; }
  case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); auto &i = put(I_RMW); i.k = A.getOperation(); i.w = elw(T); i.d = d; i.a = opn(A.getPointerOperand()); i.b = opn(A.getValOperand()); break; }
  case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); auto &i = put(I_CMPX); i.w = elw(A.getNewValOperand()->getType()); i.d = d; i.a = opn(A.getPointerOperand()); i.b = opn(A.getCompareOperand()); i.c = opn(A.getNewValOperand()); break; }
  case Instruction::Fence: break;
  case Instruction::Call: call(cast<CallBase>(I)); break;
  case Instruction::Invoke: { call(cast<CallBase>(I)); u32 e = edge(I.getParent(), cast<InvokeInst>(I).getNormalDest()); auto &i = put(I_BR); i.imm = e; break; }
  case Instruction::LandingPad: case Instruction::Resume: unsup("unwinding"); break;
  default: throw Unsupported(std::string("instruction ") + I.getOpcodeName());
  }
}
bool Dec::intrinsic(const llvm::CallBase &C, const llvm::Function *F, int32_t d) {
  using namespace llvm; llvm::Type *T = C.getType(); auto A = [&](u32 k) { return opn(C.getArgOperand(k)); };
  switch (F->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::x86_sse2_pause: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { auto &i = put(I_MEMCPY); i.a = A(0); i.b = A(1); i.c = A(2); return true; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { auto &i = put(I_MEMSET); i.a = A(0); i.b = A(1); i.c = A(2); return true; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: { if (C.getArgOperand(0)->getType()->isVectorTy()) throw Unsupported("vector overflow"); auto &i = put(I_OVF); i.imm = F->getIntrinsicID(); i.w = elw(C.getArgOperand(0)->getType()); i.d = d; i.a = A(0); i.b = A(1); return true; }
  case Intrinsic::sadd_sat: case Intrinsic::uadd_sat: case Intrinsic::ssub_sat: case Intrinsic::usub_sat: { u32 n = slots(T).size(); int32_t a = A(0), b = A(1); for (u32 j = 0; j < n; j++) { auto &i = put(I_SAT); i.imm = F->getIntrinsicID(); i.w = elw(T); i.d = d + j; i.a = sl(a, j); i.b = sl(b, j); } return true; }
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { u32 n = slots(T).size(); int32_t a = A(0), b = A(1); for (u32 j = 0; j < n; j++) { auto &i = put(I_MINMAX); i.imm = F->getIntrinsicID(); i.w = elw(T); i.d = d + j; i.a = sl(a, j); i.b = sl(b, j); } return true; }
  case Intrinsic::abs: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: { u32 n = slots(T).size(); int32_t a = A(0); for (u32 j = 0; j < n; j++) { auto &i = put(I_BITOP); i.imm = F->getIntrinsicID(); i.w = elw(T); i.d = d + j; i.a = sl(a, j); } return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: { u32 n = slots(T).size(); int32_t a = A(0), b = A(1), c = A(2); for (u32 j = 0; j < n; j++) { auto &i = put(I_FSH); i.k = F->getIntrinsicID() == Intrinsic::fshr; i.w = elw(T); i.d = d + j; i.a = sl(a, j); i.b = sl(b, j); i.c = sl(c, j); } return true; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: mov(d, A(0), slots(T).size()); return true;
  case Intrinsic::ptrmask: { auto &i = put(I_BIN); i.k = K_AND; i.w = 64; i.d = d; i.a = A(0); i.b = A(1); return true; }
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: { Kind k = F->getIntrinsicID() == Intrinsic::vector_reduce_add ? K_ADD : F->getIntrinsicID() == Intrinsic::vector_reduce_mul ? K_MUL : F->getIntrinsicID() == Intrinsic::vector_reduce_and ? K_AND : F->getIntrinsicID() == Intrinsic::vector_reduce_or ? K_OR : K_XOR; u32 n = slots(C.getArgOperand(0)->getType()).size(); int32_t a = A(0); mov(d, a, 1); for (u32 j = 1; j < n; j++) { auto &i = put(I_BIN); i.k = k; i.w = elw(T); i.d = d; i.a = d; i.b = sl(a, j); } return true; }
  case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: { auto id = F->getIntrinsicID(); u64 mm = id == Intrinsic::vector_reduce_umax ? Intrinsic::umax : id == Intrinsic::vector_reduce_umin ? Intrinsic::umin : id == Intrinsic::vector_reduce_smax ? Intrinsic::smax : Intrinsic::smin; u32 n = slots(C.getArgOperand(0)->getType()).size(); int32_t a = A(0); mov(d, a, 1); for (u32 j = 1; j < n; j++) { auto &i = put(I_MINMAX); i.imm = mm; i.w = elw(T); i.d = d; i.a = d; i.b = sl(a, j); } return true; }
  case Intrinsic::load_relative: { auto &i = put(I_LOADREL); i.d = d; i.a = A(0); i.b = A(1); return true; }
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: put(I_TRAP); return true;
  case Intrinsic::x86_sse2_pmovmskb_128: { u32 n = 16; int32_t a = A(0); for (u32 j = 0; j < n; j++) { auto &i = put(I_CMP); i.k = CmpInst::ICMP_SLT; i.w = 8; i.d = f->nregs - 1; i.a = sl(a, j); i.b = konst(0); (void)j; } f->code.resize(f->code.size() - n); f->loc.resize(f->loc.size() - n); f->src.resize(f->src.size() - n); throw Unsupported("pmovmskb"); }
  case Intrinsic::is_constant: mov(d, konst(0), 1); return true;
  case Intrinsic::objectsize: mov(d, konst(~(u64)0), 1); return true;
  case Intrinsic::stacksave: mov(d, konst(0), 1); return true;
  case Intrinsic::stackrestore: return true;
  case Intrinsic::invariant_start: mov(d, konst(0), 1); return true;
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::fabs: case Intrinsic::trunc: case Intrinsic::sqrt: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::copysign: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::fma: case Intrinsic::powi: case Intrinsic::fptoui_sat: case Intrinsic::fptosi_sat: { auto &i = put(I_FUN); i.imm = F->getIntrinsicID(); i.w = elw(C.getArgOperand(0)->getType()); i.w2 = elw(T); i.d = d; i.a = A(0); i.b = C.arg_size() > 1 ? A(1) : A(0); return true; }
  default: return false;
  }
}
void Dec::call(const llvm::CallBase &C) {
  using namespace llvm; int32_t d = slot.at(&C); const Value *cv0 = C.getCalledOperand(); const Function *F = dyn_cast<Function>(cv0->stripPointerCasts());
  if (F && F->isIntrinsic()) { if (intrinsic(C, F, d)) return; throw Unsupported("intrinsic " + F->getName().str()); }
  auto *ci = new CallI(); for (u32 k = 0; k < C.arg_size(); k++) { if (C.getArgOperand(k)->getType()->isMetadataTy()) continue; auto &s = slots(C.getArgOperand(k)->getType()); int32_t a = opn(C.getArgOperand(k)); ci->args.push_back(a); ci->argn.push_back(s.size()); ci->argw.push_back(s.empty() ? 0 : s[0].w); }
  auto &rs = slots(C.getType()); ci->retn = rs.size(); for (auto &s : rs) ci->retw.push_back(s.w);
  if (isa<InlineAsm>(cv0)) { auto *ia = cast<InlineAsm>(cv0); std::string s = ia->getAsmString(); ci->isasm = true; if (s.empty() || s.find("cpuid") != std::string::npos) { if (s.empty() && ci->retn == 1 && ci->args.size() >= 1) mov(d, ci->args[0], 1); else for (u32 j = 0; j < ci->retn; j++) mov(d + j, konst(0), 1); return; } throw Unsupported("inline asm " + s); }
  if (F) { ci->f = fmap.at(const_cast<Function *>(F)); } else ci->fp = opn(cv0);
  auto &i = put(I_CALL); i.d = d; i.x = ci;
}
