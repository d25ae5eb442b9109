// ---------------------------------------------------------------- interpreter
static void enter(DFunc *f, int32_t rd, u32 rn) {
  decode(f); u32 base = frames.empty() ? 0 : frames.back().base + frames.back().f->nregs;
  if (base + f->nregs >= MAXREGS || frames.size() > 20000) { violation("overflow", "call depth bound exceeded", P.model); throw PathEnd{2}; }
  f->hit[0] = 1; frames.push_back({f, 0, base, sp, rd, rn}); regtop = base + f->nregs; f->calls++;
}
static double tod(u128 v, u32 w) { if (w == 32) { u32 t = (u32)v; float f; memcpy(&f, &t, 4); return f; } u64 t = (u64)v; double d; memcpy(&d, &t, 8); return d; }
static u128 fromd(double d, u32 w) { if (w == 32) { float f = (float)d; u32 t; memcpy(&t, &f, 4); return t; } u64 t; memcpy(&t, &d, 8); return t; }
static bool icmpc(unsigned p, u32 w, u128 a, u128 b) {
  using C = llvm::CmpInst;
  switch (p) { case C::ICMP_EQ: return a == b; case C::ICMP_NE: return a != b; case C::ICMP_UGT: return a > b; case C::ICMP_UGE: return a >= b; case C::ICMP_ULT: return a < b; case C::ICMP_ULE: return a <= b;
  case C::ICMP_SGT: return sxt(a, w) > sxt(b, w); case C::ICMP_SGE: return sxt(a, w) >= sxt(b, w); case C::ICMP_SLT: return sxt(a, w) < sxt(b, w); case C::ICMP_SLE: return sxt(a, w) <= sxt(b, w); default: throw Unsupported("icmp predicate"); } }
static Expr *icmpe(unsigned p, Expr *a, Expr *b) {
  using C = llvm::CmpInst;
  switch (p) { case C::ICMP_EQ: return X.eq(a, b); case C::ICMP_NE: return X.not1(X.eq(a, b)); case C::ICMP_UGT: return X.ult(b, a); case C::ICMP_UGE: return X.not1(X.ult(a, b)); case C::ICMP_ULT: return X.ult(a, b); case C::ICMP_ULE: return X.not1(X.ult(b, a));
  case C::ICMP_SGT: return X.slt(b, a); case C::ICMP_SGE: return X.not1(X.slt(a, b)); case C::ICMP_SLT: return X.slt(a, b); case C::ICMP_SLE: return X.not1(X.slt(b, a)); default: throw Unsupported("icmp predicate"); } }

static void sample_path(const char *outcome) {
  my_paths++; u64 n = S->paths.fetch_add(1);
  bool take = n < 4 || ((n * 0x9E3779B97F4A7C15ull + O.seed * 0xD1B54A32D192ED03ull) >> 40) % 64 == 0 || (n < 400 && ((n * 0x9E3779B97F4A7C15ull + O.seed) >> 33) % 8 == 0);
  if (!take || S->samples.load() > 400) return; S->samples++;
  std::string o = "["; bool first = true; for (auto &b : P.obs) { if (!first) o += ","; first = false; o += "[" + std::to_string(b.tag) + ",\"" + u128s(b.e ? X.eval(b.e, P.model) : b.v) + "\"]"; } o += "]";
  emit(std::string("{\"t\":\"path\",\"n\":") + std::to_string(n) + ",\"outcome\":\"" + outcome + "\",\"model\":" + modeljson(P.model) + ",\"obs\":" + o + ",\"pc\":" + std::to_string(P.pc.size()) + ",\"asserts\":" + std::to_string(P.nassert) + "}");
}
static void gotoedge(Frame &fr, u32 ei) {
  Edge &e = fr.f->edges[ei]; fr.f->hit[e.blk] = 1;
  if (!e.mv.empty()) {
    static Val tmp[4096]; u32 t = 0; Val *R = regs + fr.base; Val *PL = fr.f->pool.data();
    for (auto &m : e.mv) for (u32 j = 0; j < m.n; j++) tmp[t++] = m.s >= 0 ? R[m.s + j] : PL[~m.s + j];
    t = 0; for (auto &m : e.mv) for (u32 j = 0; j < m.n; j++) R[m.d + j] = tmp[t++];
  }
  fr.pc = fr.f->blkstart[e.blk];
}
static void panic_path(const std::string &what) {
  S->panics++;
  if (P.expect_panic) throw PathEnd{0};
  violation("panic", what, P.model); throw PathEnd{2};
}
static void step() {
  for (;;) {
    Frame &fr = frames.back(); Inst &in = fr.f->code[fr.pc]; Val *R = regs + fr.base; Val *PL = fr.f->pool.data();
#define V(i) ((i) >= 0 ? R[i] : PL[~(i)])
#define VJ(i, j) ((i) >= 0 ? R[(i) + (j)] : PL[~(i) + (j)])
    steps++; my_insts++;
#ifdef SYMX_TRACING
    if (O.trace) { static const char *tf = getenv("SYMX_TRACE"); if (strstr(fr.f->name.c_str(), tf)) { std::string b; llvm::raw_string_ostream os(b); fr.f->src[fr.pc]->print(os); fprintf(stderr, "%s   a=%lx b=%lx\n", os.str().c_str(), in.op == I_BR || in.op == I_CALL || in.op == I_GEP ? 0 : (u64)V(in.a).v, in.op == I_BIN || in.op == I_CMP || in.op == I_STORE ? (u64)V(in.b).v : 0); } }
#endif
    if (unlikely((my_insts & 0x3fff) == 0)) {
      S->insts += 0x4000; path_steps += 0x4000; if (path_steps > O.maxsteps) { violation("hang", "no result within the per-path instruction bound", P.model); throw PathEnd{2}; }
      if (S->stop.load()) throw PathEnd{3};
      if ((my_insts & 0xfffff) == 0 && nowf() > O.deadline) { inconclusive("time limit"); S->stop = 1; throw PathEnd{3}; }
      if (!choices.empty() && S->active.load() < O.nproc) maybe_donate();
    }
    switch (in.op) {
    case I_NOP: break;
    case I_MOV: { Val *d = R + in.d; if (in.imm == 1) *d = V(in.a); else for (u64 j = 0; j < in.imm; j++) d[j] = VJ(in.a, j); break; }
    case I_BIN: {
      Val &a = V(in.a), &b = V(in.b); Val &d = R[in.d];
      if (likely(!a.e && !b.e)) {
        u128 r, m = maskw(in.w);
        switch (in.k) {
        case K_ADD: r = (a.v + b.v) & m; break; case K_SUB: r = (a.v - b.v) & m; break; case K_AND: r = a.v & b.v; break; case K_OR: r = a.v | b.v; break; case K_XOR: r = a.v ^ b.v; break;
        case K_MUL: r = in.w <= 64 ? ((u128)((u64)a.v * (u64)b.v)) & m : (a.v * b.v) & m; break;
        case K_UDIV: case K_UREM: case K_SDIV: case K_SREM: if (!b.v) throw Unsupported("division by zero executed"); 
        default: r = Ctx::fold((Kind)in.k, in.w, a.v, b.v);
        }
        d.v = r; d.e = nullptr;
      } else d = mk(X.bin((Kind)in.k, ex(a, in.w), ex(b, in.w)));
      break; }
    case I_CMP: { Val &a = V(in.a), &b = V(in.b); Val &d = R[in.d]; if (likely(!a.e && !b.e)) { d.v = icmpc(in.k, in.w, a.v, b.v); d.e = nullptr; } else d = mk(icmpe(in.k, ex(a, in.w), ex(b, in.w))); break; }
    case I_ZEXT: { Val &a = V(in.a); if (likely(!a.e)) R[in.d] = a; else R[in.d] = mk(X.zext(a.e, in.w2)); break; }
    case I_SEXT: { Val &a = V(in.a); if (likely(!a.e)) { R[in.d] = cst((u128)sxt(a.v, in.w) & maskw(in.w2)); } else R[in.d] = mk(X.sext(a.e, in.w2)); break; }
    case I_TRUNC: { Val &a = V(in.a); if (likely(!a.e)) R[in.d] = cst(a.v & maskw(in.w2)); else R[in.d] = mk(X.extract(a.e, in.w2 - 1, 0)); break; }
    case I_SELECT: {
      Val &c = V(in.c);
      if (likely(!c.e)) { R[in.d] = (c.v & 1) ? V(in.a) : V(in.b); break; }
      Val &a = V(in.a), &b = V(in.b);
      if (!a.e && !b.e && a.v == b.v) { R[in.d] = a; break; }
      if (in.k) { bool v = decide(c.e); R[in.d] = v ? V(in.a) : V(in.b); break; }
      R[in.d] = mk(X.ite(c.e, ex(a, in.w), ex(b, in.w))); break; }
    case I_LOAD: {
      Val &a = V(in.a); u64 p = (a.e ? (u64)concretize(a.e) : (u64)a.v) + in.imm; Val r = mload(p, in.w2);
      if (in.w < in.w2 * 8u) { if (r.e) r = mk(X.extract(r.e, in.w - 1, 0)); else r.v &= maskw(in.w); }
      R[in.d] = r; break; }
    case I_STORE: { Val &a = V(in.a); u64 p = (a.e ? (u64)concretize(a.e) : (u64)a.v) + in.imm; mstore(p, in.w2, V(in.b)); break; }
    case I_GEP: {
      Val &a = V(in.a); auto &ts = *(std::vector<GepT> *)in.x; bool sym = a.e; for (auto &t : ts) if (V(t.op).e) sym = true;
      if (likely(!sym)) { u64 r = (u64)a.v + in.imm; for (auto &t : ts) r += (u64)(int64_t)sxt(V(t.op).v, t.w) * t.scale; R[in.d] = cst(r); }
      else { Expr *e = X.bin(K_ADD, ex(a, 64), X.C(64, in.imm)); for (auto &t : ts) { Expr *i = ex(V(t.op), t.w); if (t.w < 64) i = X.sext(i, 64); else if (t.w > 64) i = X.extract(i, 63, 0); e = X.bin(K_ADD, e, X.bin(K_MUL, i, X.C(64, t.scale))); } R[in.d] = mk(e); }
      break; }
    case I_ALLOCA: { u64 n = cv(V(in.a)) * in.imm; u64 al = in.b < 16 ? 16 : in.b; sp = (sp - n) & ~(al - 1); if (sp < BASE + SIZE - STACKSZ + 4096) { violation("overflow", "stack exhausted", P.model); throw PathEnd{2}; }; R[in.d] = cst(sp); break; }
    case I_BR: gotoedge(fr, in.imm); continue;
    case I_CBR: { Val &c = V(in.a); bool v = likely(!c.e) ? (c.v & 1) : decide(c.e); gotoedge(fr, v ? in.imm : (u32)in.b); continue; }
    case I_SWITCH: {
      Val &c = V(in.a); SwI &s = *(SwI *)in.x;
      if (likely(!c.e)) { u32 e = s.def; for (size_t j = 0; j < s.vals.size(); j++) if (s.vals[j] == c.v) { e = s.edges[j]; break; } gotoedge(fr, e); continue; }
      // symbolic: group cases by target block, fork on "goes to that target"
      auto itc = concm.find(c.e); u32 e = s.def; 
      if (itc != concm.end()) { for (size_t j = 0; j < s.vals.size(); j++) if (s.vals[j] == itc->second) { e = s.edges[j]; break; } gotoedge(fr, e); continue; }
      std::vector<u8> done(s.vals.size(), 0); bool taken = false;
      // try the model's own side first
      u128 mv = X.eval(c.e, P.model); size_t first = s.vals.size(); for (size_t j = 0; j < s.vals.size(); j++) if (s.vals[j] == mv) first = j;
      auto group = [&](size_t j) { Expr *g = X.F(); u32 blk = fr.f->edges[s.edges[j]].blk; for (size_t k = 0; k < s.vals.size(); k++) if (!done[k] && fr.f->edges[s.edges[k]].blk == blk && (k == j || (fr.f->edges[s.edges[k]].mv.empty()))) { if (fr.f->edges[s.edges[j]].mv.empty() || k == j) { g = X.or1(g, X.eq(c.e, X.C(in.w, s.vals[k]))); done[k] = 1; } } return g; };
      if (first < s.vals.size()) { Expr *g = group(first); if (decide(g)) { gotoedge(fr, s.edges[first]); taken = true; } }
      for (size_t j = 0; !taken && j < s.vals.size(); j++) if (!done[j]) { Expr *g = group(j); if (decide(g)) { gotoedge(fr, s.edges[j]); taken = true; } }
      if (!taken) gotoedge(fr, s.def);
      continue; }
    case I_RET: {
      Frame f0 = fr; frames.pop_back();
      if (frames.empty()) throw PathEnd{0};
      Frame &pf = frames.back(); Val *PR = regs + pf.base; for (u64 j = 0; j < in.imm; j++) { Val v = V(in.a >= 0 ? in.a + (int32_t)j : in.a - (int32_t)j); PR[f0.rd + j] = v; }
      sp = f0.sp; regtop = pf.base + pf.f->nregs; pf.pc++; continue; }
    case I_CALL: {
      CallI &ci = *(CallI *)in.x; DFunc *f = ci.f;
      if (!f) { u64 a = cv(V(ci.fp)); if (a < FBASE || (a - FBASE) / 16 >= funcs.size()) badaddr(a, "indirect call"); f = funcs[(a - FBASE) / 16]; }
      if (unlikely(f->special)) { if (f->special == 1) panic_path("panic: " + demangle(f->name)); if (f->special == 2) break; }
      if (unlikely(f->isdecl)) {
        if (f->ext < 0) throw Unsupported("external function " + f->name);
        Call c; c.ci = &ci; c.fr = &fr; for (size_t k = 0; k < ci.args.size(); k++) for (u32 j = 0; j < ci.argn[k]; j++) c.a.push_back(V(ci.args[k] >= 0 ? ci.args[k] + (int32_t)j : ci.args[k] - (int32_t)j));
        for (auto &v : c.r) v = cst(0);
        exts[f->ext].f(c); R = regs + frames.back().base; for (u32 j = 0; j < ci.retn && j < 4; j++) { Val v = c.r[j]; if (!v.e) v.v &= maskw(ci.retw[j]); R[in.d + j] = v; }
        break;
      }
      u32 nb = fr.base + fr.f->nregs; decode(f); if (nb + f->nregs >= MAXREGS) { violation("overflow", "call depth bound exceeded", P.model); throw PathEnd{2}; }
      Val *NR = regs + nb; u32 t = 0; for (size_t k = 0; k < ci.args.size(); k++) for (u32 j = 0; j < ci.argn[k]; j++) NR[t++] = V(ci.args[k] >= 0 ? ci.args[k] + (int32_t)j : ci.args[k] - (int32_t)j);
      enter(f, in.d, ci.retn); continue; }
    case I_UNREACH: violation("unreachable", "unreachable code executed", P.model); throw PathEnd{2};
    case I_TRAP: violation("abort", "trap executed", P.model); throw PathEnd{2};
    case I_PACK: { bool sym = false; for (u64 j = 0; j < in.imm; j++) if (VJ(in.a, j).e) sym = true; if (!sym) { u128 r = 0; for (u64 j = in.imm; j-- > 0;) r = (in.w >= 128 ? 0 : r << in.w) | VJ(in.a, j).v; R[in.d] = cst(r); } else { Expr *e = nullptr; for (u64 j = 0; j < in.imm; j++) { Expr *x = ex(VJ(in.a, j), in.w); e = e ? X.concat(x, e) : x; } R[in.d] = mk(e); } break; }
    case I_UNPACK: { Val a = V(in.a); for (u64 j = 0; j < in.imm; j++) if (!a.e) R[in.d + j] = cst((a.v >> (j * in.w)) & maskw(in.w)); else R[in.d + j] = mk(X.extract(a.e, (j + 1) * in.w - 1, j * in.w)); break; }
    case I_MEMCPY: mcopy(cv(V(in.a)), cv(V(in.b)), cv(V(in.c))); break;
    case I_MEMSET: mset(cv(V(in.a)), V(in.b), cv(V(in.c))); break;
    case I_OVF: {
      using namespace llvm; Val a = V(in.a), b = V(in.b); u32 w = in.w; u128 m = maskw(w);
      if (!a.e && !b.e) { u128 r = 0; bool o = false; i128 x = sxt(a.v, w), y = sxt(b.v, w), t;
        switch (in.imm) { case Intrinsic::uadd_with_overflow: r = (a.v + b.v) & m; o = r < a.v; break; case Intrinsic::usub_with_overflow: r = (a.v - b.v) & m; o = a.v < b.v; break; case Intrinsic::umul_with_overflow: r = (a.v * b.v) & m; o = Ctx::umulo(w, a.v, b.v); break;
        case Intrinsic::sadd_with_overflow: o = __builtin_add_overflow(x, y, &t); r = (u128)t & m; o = o || sxt(r, w) != t; break; case Intrinsic::ssub_with_overflow: o = __builtin_sub_overflow(x, y, &t); r = (u128)t & m; o = o || sxt(r, w) != t; break; case Intrinsic::smul_with_overflow: r = (a.v * b.v) & m; o = Ctx::smulo(w, a.v, b.v); break; }
        R[in.d] = cst(r); R[in.d + 1] = cst(o);
      } else { Expr *x = ex(a, w), *y = ex(b, w), *r, *o; Expr *z = X.C(w, 0);
        switch (in.imm) { case Intrinsic::uadd_with_overflow: r = X.bin(K_ADD, x, y); o = X.ult(r, x); if (Ctx::isc(y) && !Ctx::isc(x)) o = y->v ? X.not1(X.ult(x, X.C(w, m - y->v + 1))) : X.F(); else if (Ctx::isc(x)) o = x->v ? X.not1(X.ult(y, X.C(w, m - x->v + 1))) : X.F(); break; case Intrinsic::usub_with_overflow: r = X.bin(K_SUB, x, y); o = X.ult(x, y); break; case Intrinsic::umul_with_overflow: r = X.bin(K_MUL, x, y); o = X.umulo(x, y); break;
        case Intrinsic::sadd_with_overflow: { r = X.bin(K_ADD, x, y); Expr *nx = X.slt(x, z), *ny = X.slt(y, z), *nr = X.slt(r, z); o = X.and1(X.eq(nx, ny), X.not1(X.eq(nr, nx))); break; }
        case Intrinsic::ssub_with_overflow: { r = X.bin(K_SUB, x, y); Expr *nx = X.slt(x, z), *ny = X.slt(y, z), *nr = X.slt(r, z); o = X.and1(X.not1(X.eq(nx, ny)), X.not1(X.eq(nr, nx))); break; }
        default: r = X.bin(K_MUL, x, y); o = X.smulo(x, y); }
        R[in.d] = mk(r); R[in.d + 1] = mk(o); }
      break; }
    case I_SAT: {
      using namespace llvm; Val a = V(in.a), b = V(in.b); u32 w = in.w; u128 m = maskw(w); Expr *x = ex(a, w), *y = ex(b, w);
      if (in.imm == Intrinsic::usub_sat) R[in.d] = mk(X.ite(X.ult(x, y), X.C(w, 0), X.bin(K_SUB, x, y))); else if (in.imm == Intrinsic::uadd_sat) { Expr *r = X.bin(K_ADD, x, y); R[in.d] = mk(X.ite(X.ult(r, x), X.C(w, m), r)); } else { bool sub = in.imm == Intrinsic::ssub_sat; if (!sub && in.imm != Intrinsic::sadd_sat) throw Unsupported("saturation"); u128 mx = m >> 1; Expr *r = X.bin(sub ? K_SUB : K_ADD, x, y), *o = X.bin(K_AND, sub ? X.bin(K_XOR, x, y) : X.bin(K_XOR, r, y), X.bin(K_XOR, x, r)), *big = X.C(w, mx); R[in.d] = mk(X.ite(X.ult(big, o), X.ite(X.ult(big, x), X.C(w, mx + 1), big), r)); } break; }
    case I_MINMAX: { using namespace llvm; Val a = V(in.a), b = V(in.b); u32 w = in.w; if (!a.e && !b.e) { bool lt = (in.imm == Intrinsic::umin || in.imm == Intrinsic::umax) ? a.v < b.v : sxt(a.v, w) < sxt(b.v, w); bool mn = in.imm == Intrinsic::umin || in.imm == Intrinsic::smin; R[in.d] = (lt == mn) ? a : b; } else { Expr *x = ex(a, w), *y = ex(b, w); bool uns = in.imm == Intrinsic::umin || in.imm == Intrinsic::umax, mn = in.imm == Intrinsic::umin || in.imm == Intrinsic::smin; Expr *lt = uns ? X.ult(x, y) : X.slt(x, y); R[in.d] = mk(mn ? X.ite(lt, x, y) : X.ite(lt, y, x)); } break; }
    case I_BITOP: {
      using namespace llvm; Val a = V(in.a); u32 w = in.w; Expr *x = ex(a, w); Expr *r;
      switch (in.imm) {
      case Intrinsic::abs: r = X.ite(X.slt(x, X.C(w, 0)), X.bin(K_SUB, X.C(w, 0), x), x); break;
      case Intrinsic::ctpop: if (!a.e) { u32 n = 0; for (u32 j = 0; j < w; j++) n += a.v >> j & 1; r = X.C(w, n); } else { r = X.C(w, 0); for (u32 j = 0; j < w; j++) r = X.bin(K_ADD, r, X.zext(X.extract(x, j, j), w)); } break;
      case Intrinsic::ctlz: if (!a.e) { u32 n = 0; while (n < w && !(a.v >> (w - 1 - n) & 1)) n++; r = X.C(w, n); } else { r = X.C(w, w); for (u32 j = 0; j < w; j++) r = X.ite(X.extract(x, j, j), X.C(w, w - 1 - j), r); } break;
      case Intrinsic::cttz: if (!a.e) { u32 n = 0; while (n < w && !(a.v >> n & 1)) n++; r = X.C(w, n); } else { r = X.C(w, w); for (u32 j = w; j-- > 0;) r = X.ite(X.extract(x, j, j), X.C(w, j), r); } break;
      case Intrinsic::bswap: r = nullptr; for (u32 j = 0; j < w / 8; j++) { Expr *b = X.extract(x, j * 8 + 7, j * 8); r = r ? X.concat(r, b) : b; } break;
      default: r = nullptr; for (u32 j = 0; j < w; j++) { Expr *b = X.extract(x, j, j); r = r ? X.concat(r, b) : b; } break;
      }
      R[in.d] = mk(r); break; }
    case I_FSH: { Val a = V(in.a), b = V(in.b); u32 w = in.w; u32 s = (u32)(V(in.c).e ? concretize(X.bin(K_UREM, V(in.c).e, X.C(w, w))) : V(in.c).v % w); Expr *x = ex(a, w), *y = ex(b, w); if (in.k) s = s ? w - s : w; Expr *r = s == 0 ? x : s == w ? y : X.bin(K_OR, X.bin(K_SHL, x, X.C(w, s)), X.bin(K_LSHR, y, X.C(w, w - s))); R[in.d] = mk(r); break; }
    case I_LOADREL: { u64 p = cv(V(in.a)); Val o = mload(p + cv(V(in.b)), 4); R[in.d] = cst((u64)(p + (int64_t)(int32_t)cv(o))); break; }
    case I_UNSUP: throw Unsupported(std::string((const char *)in.x));
    case I_RMW: {
      using A = llvm::AtomicRMWInst; u64 p = cv(V(in.a)); u32 by = (in.w + 7) / 8; Val o = mload(p, by); Val b = V(in.b); Expr *x = ex(o, in.w), *y = ex(b, in.w), *r;
      switch (in.k) { case A::Xchg: r = y; break; case A::Add: r = X.bin(K_ADD, x, y); break; case A::Sub: r = X.bin(K_SUB, x, y); break; case A::And: r = X.bin(K_AND, x, y); break; case A::Or: r = X.bin(K_OR, x, y); break; case A::Xor: r = X.bin(K_XOR, x, y); break; case A::UMax: r = X.ite(X.ult(x, y), y, x); break; case A::UMin: r = X.ite(X.ult(x, y), x, y); break; default: throw Unsupported("atomicrmw"); }
      mstore(p, by, mk(r)); R[in.d] = o; break; }
    case I_CMPX: { u64 p = cv(V(in.a)); u32 by = (in.w + 7) / 8; Val o = mload(p, by); if (in.w < by * 8 && !o.e) o.v &= maskw(in.w); bool same = (!o.e && !V(in.b).e) ? o.v == V(in.b).v : decide(X.eq(ex(o, in.w), ex(V(in.b), in.w))); if (same) mstore(p, by, V(in.c)); R[in.d] = o; R[in.d + 1] = cst(same); break; }
    case I_FBIN: { u32 w = in.w; double x = tod(cv(V(in.a)), w), y = tod(cv(V(in.b)), w), r; switch (in.imm) { case llvm::Instruction::FAdd: r = x + y; break; case llvm::Instruction::FSub: r = x - y; break; case llvm::Instruction::FMul: r = x * y; break; case llvm::Instruction::FDiv: r = x / y; break; case llvm::Instruction::FNeg: r = -x; break; default: throw Unsupported("frem"); } if (w == 32) { float fx = (float)x, fy = (float)y, fr2 = in.imm == llvm::Instruction::FAdd ? fx + fy : in.imm == llvm::Instruction::FSub ? fx - fy : in.imm == llvm::Instruction::FMul ? fx * fy : in.imm == llvm::Instruction::FDiv ? fx / fy : -fx; r = fr2; } R[in.d] = cst(fromd(r, w)); break; }
    case I_FCMP: { using C = llvm::CmpInst; double x = tod(cv(V(in.a)), in.w), y = tod(cv(V(in.b)), in.w); bool un = x != x || y != y, r; switch (in.k) { case C::FCMP_OEQ: r = !un && x == y; break; case C::FCMP_OGT: r = !un && x > y; break; case C::FCMP_OGE: r = !un && x >= y; break; case C::FCMP_OLT: r = !un && x < y; break; case C::FCMP_OLE: r = !un && x <= y; break; case C::FCMP_ONE: r = !un && x != y; break; case C::FCMP_ORD: r = !un; break; case C::FCMP_UNO: r = un; break; case C::FCMP_UEQ: r = un || x == y; break; case C::FCMP_UGT: r = un || x > y; break; case C::FCMP_UGE: r = un || x >= y; break; case C::FCMP_ULT: r = un || x < y; break; case C::FCMP_ULE: r = un || x <= y; break; case C::FCMP_UNE: r = un || x != y; break; case C::FCMP_TRUE: r = true; break; default: r = false; } R[in.d] = cst(r); break; }
    case I_FCVT: { using namespace llvm; u128 a = V(in.a).e ? concretize(V(in.a).e) : V(in.a).v; u128 r; switch (in.imm) { case Instruction::FPExt: case Instruction::FPTrunc: r = fromd(tod(a, in.w), in.w2); break; case Instruction::UIToFP: r = in.w2 == 32 ? fromd((float)(in.w <= 64 ? (float)(u64)a : (float)a), 32) : fromd(in.w <= 64 ? (double)(u64)a : (double)a, 64); break; case Instruction::SIToFP: r = in.w2 == 32 ? fromd((float)sxt(a, in.w), 32) : fromd((double)sxt(a, in.w), 64); break; case Instruction::FPToUI: r = (u128)tod(a, in.w) & maskw(in.w2); break; default: r = (u128)(i128)tod(a, in.w) & maskw(in.w2); } R[in.d] = cst(r); break; }
    case I_FUN: { using namespace llvm; double x = tod(cv(V(in.a)), in.w), y = tod(cv(V(in.b)), in.w), r; switch (in.imm) { case Intrinsic::floor: r = __builtin_floor(x); break; case Intrinsic::ceil: r = __builtin_ceil(x); break; case Intrinsic::fabs: r = __builtin_fabs(x); break; case Intrinsic::trunc: r = __builtin_trunc(x); break; case Intrinsic::sqrt: r = __builtin_sqrt(x); break; case Intrinsic::round: r = __builtin_round(x); break; case Intrinsic::rint: r = __builtin_rint(x); break; case Intrinsic::copysign: r = __builtin_copysign(x, y); break; case Intrinsic::maxnum: r = __builtin_fmax(x, y); break; case Intrinsic::minnum: r = __builtin_fmin(x, y); break;
      case Intrinsic::fptoui_sat: { u128 v = x != x || x <= 0 ? 0 : x >= (double)maskw(in.w2) ? maskw(in.w2) : (u128)x; R[in.d] = cst(v); fr.pc++; continue; } default: throw Unsupported("fp intrinsic"); } R[in.d] = cst(fromd(r, in.w)); break; }
    case I_DYNEXT: { u64 k = cv(V(in.b)); if (k >= in.imm) k = 0; R[in.d] = VJ(in.a, k); break; }
    case I_DYNINS: { u64 k = cv(V(in.b)); if (k < in.imm) R[in.d + k] = V(in.a); break; }
    default: throw Unsupported("opcode");
    }
    frames.back().pc++;
  }
}

static void flush_child() {
  S->insts += my_insts & 0x3fff;
  // functions and source lines executed symbolically in this process
  std::set<std::pair<std::string, u32>> lines; std::set<std::string> fns; u64 nf = 0;
  for (auto *f : funcs) if (f->decoded && f->calls) { nf++;
      for (size_t b = 0; b < f->hit.size(); b++) if (f->hit[b]) { size_t e = b + 1 < f->blkstart.size() ? f->blkstart[b + 1] : f->code.size(); for (size_t i = f->blkstart[b]; i < e; i++) for (auto *l = f->loc[i]; l; l = l->getInlinedAt()) { std::string fn = l->getFilename().str(), dir = l->getDirectory().str(); std::string full = (!fn.empty() && fn[0] == '/') ? fn : dir + "/" + fn; if (full.compare(0, O.srcroot.size(), O.srcroot) == 0) { lines.insert({full.substr(O.srcroot.size() + 1), l->getLine()}); auto *sc = l->getScope()->getSubprogram(); if (sc) { std::string ln = sc->getLinkageName().str(); fns.insert(demangle(ln.empty() ? sc->getName().str() : ln)); } } } } }
  std::string s = "{\"t\":\"cov\",\"nf\":" + std::to_string(nf) + ",\"fns\":["; bool first = true; for (auto &x : fns) { if (!first) s += ","; first = false; s += "\"" + jesc(x) + "\""; } s += "],\"lines\":{"; std::map<std::string, std::vector<u32>> by; for (auto &l : lines) by[l.first].push_back(l.second); first = true; for (auto &k : by) { if (!first) s += ","; first = false; s += "\"" + jesc(k.first) + "\":["; for (size_t i = 0; i < k.second.size(); i++) { if (i) s += ","; s += std::to_string(k.second[i]); } s += "]"; } s += "}}"; emit(s);
}
static void explore() {
  for (;;) {
    try { step(); }
    catch (Retry &) { continue; }
    catch (PathEnd &pe) {
      if (pe.kind == 0) sample_path("ok"); else if (pe.kind == 1) S->infeasible++; else if (pe.kind == 2) { S->paths++; }
      if (S->stop.load()) return;
    } catch (Unsupported &u) { if (getenv("SYMX_DEBUG")) { auto &f = frames.back(); std::string b; llvm::raw_string_ostream os(b); f.f->src[f.pc]->print(os); fprintf(stderr, "in %s\n  %s\n", f.f->name.c_str(), os.str().c_str()); auto &in = f.f->code[f.pc]; fprintf(stderr, "  regs d=%d a=%d b=%d\n", in.d, in.a, in.b); if (getenv("SYMX_DUMP")) { u64 a = strtoull(getenv("SYMX_DUMP"), 0, 16); for (int k = 0; k < 64; k++) fprintf(stderr, "%lx: %016lx\n", a + 8 * k, rd64(a + 8 * k)); } }
      inconclusive(std::string(u.what()) + " at " + backtrace()); S->paths++; if (S->inconclusive.load() > 10) S->stop = 1; }
    catch (std::exception &e) { inconclusive(std::string("engine exception: ") + e.what() + " at " + backtrace()); S->stop = 1; return; }
    if (S->stop.load()) return;
    if (nowf() > O.deadline) { inconclusive("time limit"); S->stop = 1; return; }
    if (!backtrack()) return;
    maybe_donate_safe: try { maybe_donate(); } catch (Retry &) { }
  }
}
static void on_crash(int sig) { const char m[] = "{\"t\":\"inconclusive\",\"why\":\"engine crashed\"}\n"; if (outfd >= 0) { ssize_t r = write(outfd, m, sizeof m - 1); (void)r; } S->inconclusive++; S->stop = 1; _exit(9); }

int main(int argc, char **argv) {
  double tl = 800;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto val = [&](const char *p) { return a.substr(strlen(p)); };
    if (a.rfind("--entry=", 0) == 0) O.entry = val("--entry="); else if (a.rfind("--out=", 0) == 0) O.out = val("--out="); else if (a.rfind("--procs=", 0) == 0) O.nproc = atoi(val("--procs=").c_str()); else if (a.rfind("--time=", 0) == 0) tl = atof(val("--time=").c_str()); else if (a.rfind("--maxsteps=", 0) == 0) O.maxsteps = atoll(val("--maxsteps=").c_str()); else if (a.rfind("--seed=", 0) == 0) O.seed = atoll(val("--seed=").c_str()); else if (a.rfind("--maxviol=", 0) == 0) O.maxviol = atoi(val("--maxviol=").c_str()); else if (a.rfind("--srcroot=", 0) == 0) O.srcroot = val("--srcroot="); else O.bc = a; }
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (!getenv("SYMX_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (1ull << 30) ? (1ull << 30) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("SYMX_STACK", "1", 1); execv("/proc/self/exe", argv); }
  O.trace = getenv("SYMX_TRACE") != nullptr; double t0 = nowf(); O.deadline = t0 + tl;
  outfd = open(O.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (outfd < 0) { perror("out"); return 3; }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (S) Shared(); S->active = 1; S->procs = 1;
  signal(SIGSEGV, on_crash); signal(SIGBUS, on_crash); signal(SIGABRT, on_crash); signal(SIGFPE, on_crash);
  { static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  if (mmap((void *)BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("mmap"); return 3; }
  pg_epoch = (u32 *)mmap(nullptr, SIZE / PS * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pg_sh = (Expr ***)mmap(nullptr, SIZE / PS * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  regs = (Val *)mmap(nullptr, (u64)MAXREGS * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  llvm::LLVMContext C; llvm::SMDiagnostic err; auto mod = llvm::parseIRFile(O.bc, err, C); if (!mod) { err.print("symx", llvm::errs()); return 3; }
  { // rustc 1.70's LLVM aligns i128 to 8 bytes; LLVM 18's auto-upgrade of the data layout does not apply to this module
    std::string dl = mod->getDataLayoutStr(); size_t p = dl.find("-i128:128"); if (p != std::string::npos) dl.erase(p, 9); mod->setDataLayout(dl); }
  M = mod.get(); DL = &M->getDataLayout();
  for (auto &F : *M) { auto *f = new DFunc(); f->F = &F; f->name = F.getName().str(); f->addr = FBASE + 16 * funcs.size(); f->isdecl = F.isDeclaration(); f->special = specialof(f->name); if (f->isdecl) f->ext = extid(f->name); else { int e = extid(f->name); if (e >= 0 && f->name.compare(0, 5, "symx_") == 0) { f->isdecl = true; f->ext = e; } } if (f->name == "memcpy" || f->name == "memmove" || f->name == "memset" || f->name == "memcmp" || f->name == "bcmp" || f->name == "strlen") { f->isdecl = true; f->ext = extid(f->name); } funcs.push_back(f); fmap[&F] = f; }
  u64 a = BASE + GUARD; for (auto &G : M->globals()) { if (G.isDeclaration()) { if (!G.hasExternalWeakLinkage()) { u64 sz = 64; a = (a + 63) & ~63ull; gaddr[&G] = a; a += sz; } continue; } u64 sz = DL->getTypeAllocSize(G.getValueType()), al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16); a = (a + al - 1) & ~(al - 1); gaddr[&G] = a; a += sz ? sz : 1; }
  a = (a + 4095) & ~4095ull; g_heapctl = a; a += 4096; g_errno_addr = a; a += 4096; u64 heap0 = a;
  try { for (auto &G : M->globals()) if (!G.isDeclaration()) initglobal(G.getInitializer(), gaddr[&G]); } catch (Unsupported &u) { fprintf(stderr, "globals: %s\n", u.what()); return 3; }
  memcpy(H(g_heapctl + 8 * NCLS), &heap0, 8); sp = BASE + SIZE - 4096;
  auto *EF = M->getFunction(O.entry); if (!EF || EF->isDeclaration()) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); return 3; }
  zinit();
  double t1 = nowf(); enter(fmap[EF], 0, 0);
  explore(); flush_child();
  S->active--;
  int bad = 0; { int st; pid_t p; if (is_child) { close(outfd); _exit(0); }
    for (;;) { p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; } if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; S->stop = 1; } } }
  if (bad) inconclusive("a worker process ended abnormally");
  std::string r = "["; for (int i = 0; i < 64; i++) { if (i) r += ","; r += std::to_string(S->reach[i].load()); } r += "]";
  auto n = [&](const char *k, u64 v) { return std::string(",\"") + k + "\":" + std::to_string(v); };
  emit("{\"t\":\"end\"" + n("paths", S->paths) + n("infeasible", S->infeasible) + n("insts", S->insts) + n("forks", S->forks) + n("queries", S->queries) + n("qsat", S->qsat) + n("qunsat", S->qunsat) + n("qunknown", S->qunknown) + n("cachehit", S->cachehit) + n("modelhit", S->modelhit) + n("asserts", S->asserts) + n("assertq", S->assertq) + n("assertc", S->assertc) + n("solver_us", S->solver_us) + n("slowest_us", S->slowest_us) + n("panics", S->panics) + n("procs", S->procs) + n("violations", S->nviol) + n("inconclusive", S->inconclusive) + n("vars", S->vars) + n("maxpc", S->maxpc) + ",\"reach\":" + r + ",\"load_s\":" + std::to_string(t1 - t0) + ",\"wall_s\":" + std::to_string(nowf() - t0) + "}");
  return 0;
}
