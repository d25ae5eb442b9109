// ---------------------------------------------------------------- external functions and the symx_* API
struct Call { CallI *ci; std::vector<Val> a; Val r[4]; Frame *fr; };
static u64 g_errno_addr; static std::vector<std::string> zsyms; static std::map<std::string, u64> g_asserts;
static std::string rdstr(u64 p, u64 n) { chk(p, n ? n : 1, "string"); std::string s; for (u64 i = 0; i < n; i++) { Expr *e = shadow(p + i); s += e ? (char)concretize(e) : (char)*H(p + i); } return s; }
static std::string rdcstr(u64 p) { std::string s; for (;; p++) { chk(p, 1, "cstring"); Expr *e = shadow(p); char c = e ? (char)concretize(e) : (char)*H(p); if (!c) break; s += c; } return s; }
static std::vector<std::string> reachnames;

static Val memcmp_expr(u64 a, u64 b, u64 n, bool eqonly) {
  if (n) { chk(a, n, "memcmp"); chk(b, n, "memcmp"); }
  if (!n) return cst(0);
  if (!anyshadow(a, n) && !anyshadow(b, n)) { int r = memcmp(H(a), H(b), n); return cst((u32)(r < 0 ? -1 : r > 0)); }
  auto byte = [&](u64 p) { Expr *e = shadow(p); return e ? e : X.C(8, *H(p)); };
  if (eqonly) { Expr *ne = X.F(); for (u64 i = 0; i < n; i++) { Expr *q = X.eq(byte(a + i), byte(b + i)); if (q->k == K_CONST && !q->v) return cst(1); ne = X.or1(ne, X.not1(q)); } return mk(X.zext(ne, 32)); }
  Expr *r = X.C(32, 0); for (u64 i = n; i-- > 0;) { Expr *x = byte(a + i), *y = byte(b + i); Expr *q = X.eq(x, y); r = X.ite(q, r, X.ite(X.ult(x, y), X.C(32, 0xffffffff), X.C(32, 1))); }
  return mk(r);
}
static FS &fsw() { auto n = std::make_shared<FS>(P.fs ? *P.fs : FS()); P.fs = n; return *n; }
static const FS &fsr() { static FS empty; return P.fs ? *P.fs : empty; }
static void seterrno(int e) { wr64(g_errno_addr, e); }

static const u64 ZA = 0x500000000000ull, ZS = 0x600000000000ull, ZY = 0x700000000000ull;
static Val zret(Expr *e) { P.zasts.push_back(e); return cst(ZA + 16 * (P.zasts.size() - 1)); }
static Expr *zarg(const Val &v) { u64 h = cv(v); if (h < ZA || (h - ZA) / 16 >= P.zasts.size()) throw Unsupported("bad Z3 handle"); return P.zasts[(h - ZA) / 16]; }

static void do_assert(const Val &c, const std::string &msg, bool isassert) {
  S->asserts++; P.nassert++; 
  Expr *e = c.e ? (c.e->w == 1 ? c.e : X.not1(X.eq(c.e, X.C(c.e->w, 0)))) : nullptr; std::vector<u128> nm;
  if (!e || e->k == K_CONST) { S->assertc++; if (!(e ? e->v : (c.v & 1))) { violation("assert", msg, P.model); throw PathEnd{2}; } return; }
  S->assertq++; int r = feasible(X.not1(e), nm);
  if (r == 1) { violation("assert", msg, nm); if (feasible(e, nm) != 1) throw PathEnd{2}; P.model = nm; addpc(e); return; }
  if (r == 0) setknown(e, true);
}
static void do_assume(const Val &c) {
  Expr *e = c.e ? (c.e->w == 1 ? c.e : X.not1(X.eq(c.e, X.C(c.e->w, 0)))) : nullptr;
  if (!e) { if (!(c.v & 1)) throw PathEnd{1}; return; } if (e->k == K_CONST) { if (!e->v) throw PathEnd{1}; return; }
  std::vector<u128> nm; if (X.eval(e, P.model)) { addpc(e); return; }
  int r = feasible(e, nm); if (r != 1) throw PathEnd{1}; P.model = nm; addpc(e);
}
static Val symvar(const std::string &name, u32 bits) {
  auto nmap = std::make_shared<std::map<std::string, u32>>(P.names ? *P.names : std::map<std::string, u32>()); u32 ord = (*nmap)[name]++; P.names = nmap;
  Expr *v = X.var(name, bits, ord); u32 id = (u32)v->v; if (P.model.size() <= id) P.model.resize(id + 1, 0); P.vars.push_back(id); if (X.vars.size() > S->vars.load()) S->vars = X.vars.size(); return mk(v);
}

#define EXT(NAME) static void x_##NAME(Call &c)
#define A(i) cv(c.a[i])
#define RET(v) c.r[0] = cst((u64)(v))
EXT(malloc) { RET(xmalloc(A(0))); }
EXT(calloc) { u64 n = A(0) * A(1); u64 p = xmalloc(n); mset(p, cst(0), n); RET(p); }
EXT(realloc) { RET(xrealloc(A(0), A(1))); }
EXT(free) { xfree(A(0)); }
EXT(posix_memalign) { u64 p = xmalloc(A(2), A(1)); wr64(A(0), p); RET(0); }
EXT(memcmp) { c.r[0] = memcmp_expr(A(0), A(1), A(2), false); }
EXT(bcmp) { c.r[0] = memcmp_expr(A(0), A(1), A(2), true); }
EXT(memcpy) { mcopy(A(0), A(1), A(2)); RET(A(0)); }
EXT(memset) { Val b = c.a[1]; if (b.e) b = mk(X.extract(b.e, 7, 0)); else b.v &= 255; mset(A(0), b, A(2)); RET(A(0)); }
EXT(strlen) { u64 p = A(0), n = 0; for (;; n++) { chk(p + n, 1, "strlen"); Expr *e = shadow(p + n); u8 b = e ? (u8)concretize(e) : *H(p + n); if (!b) break; } RET(n); }
EXT(memchr) { u64 p = A(0), n = A(2); u8 ch = A(1); for (u64 i = 0; i < n; i++) { Expr *e = shadow(p + i); bool hit = e ? decide(X.eq(e, X.C(8, ch))) : *H(p + i) == ch; if (hit) { RET(p + i); return; } } RET(0); }
EXT(memrchr) { u64 p = A(0), n = A(2); u8 ch = A(1); for (u64 i = n; i-- > 0;) { Expr *e = shadow(p + i); bool hit = e ? decide(X.eq(e, X.C(8, ch))) : *H(p + i) == ch; if (hit) { RET(p + i); return; } } RET(0); }
EXT(zero) { for (auto &v : c.r) v = cst(0); }
EXT(minus1) { seterrno(38); c.r[0] = cst(~(u64)0 & maskw(c.ci->retw.empty() ? 64 : c.ci->retw[0])); }
EXT(abort) { violation("abort", "process abort", P.model); throw PathEnd{2}; }
EXT(errno) { RET(g_errno_addr); }
EXT(getenv) { RET(0); }
EXT(syscall) { u64 n = A(0); if (n == 318) { mset(A(1), cst(0), A(2)); RET(A(2)); } else if (n == 202) { RET(0); } else { seterrno(38); RET(~0ull); } }
EXT(getrandom) { mset(A(0), cst(0), A(1)); RET(A(1)); }
EXT(clock_gettime) { P.clock += 1000; u64 t = A(1); wr64(t, 1000 + P.clock / 1000000000ull); wr64(t + 8, P.clock % 1000000000ull); RET(0); }
EXT(pthread_key_create) { P.keyctr++; wr64(A(0) & ~7ull, (rd64(A(0) & ~7ull) & ~(0xffffffffull << (8 * (A(0) & 7)))) | (P.keyctr << (8 * (A(0) & 7)))); RET(0); }
EXT(pthread_getspecific) { u64 k = A(0); RET(k < P.tls.size() ? P.tls[k] : 0); }
EXT(pthread_setspecific) { u64 k = A(0); if (P.tls.size() <= k) P.tls.resize(k + 1, 0); P.tls[k] = A(1); RET(0); }
EXT(sysconf) { RET(4096); }
// ---- in-memory file system
EXT(open64) { std::string p = rdcstr(A(0)); u64 fl = A(1); bool creat = fl & 0100, trunc = fl & 01000, app = fl & 02000; FS &f = fsw(); auto it = f.files.find(p);
  if (it == f.files.end()) { if (!creat) { seterrno(2); RET(~0ull & 0xffffffff); return; } f.files[p] = std::make_shared<File>(); } else if (trunc) it->second = std::make_shared<File>();
  f.fds.push_back({p, 0, app, true}); RET(f.fds.size() - 1 + 10); }
EXT(write) { u64 fd = A(0), b = A(1), n = A(2); if (fd < 10) { RET(n); return; } FS &f = fsw(); auto &d = f.fds.at(fd - 10); auto nf = std::make_shared<File>(*f.files[d.path]); if (d.app) d.pos = nf->b.size(); if (nf->b.size() < d.pos + n) { nf->b.resize(d.pos + n); nf->e.resize(d.pos + n); }
  if (n) chk(b, n, "write"); for (u64 i = 0; i < n; i++) { nf->b[d.pos + i] = *H(b + i); nf->e[d.pos + i] = shadow(b + i); } d.pos += n; f.files[d.path] = nf; RET(n); }
EXT(writev) { u64 fd = A(0), n = A(2), tot = 0; for (u64 i = 0; i < n; i++) tot += rd64(A(1) + 16 * i + 8); if (fd < 10) { RET(tot); return; } throw Unsupported("writev to a file"); }
EXT(read) { u64 fd = A(0), b = A(1), n = A(2); if (fd < 10) { RET(0); return; } FS &f = fsw(); auto &d = f.fds.at(fd - 10); auto fl = f.files[d.path]; u64 av = fl->b.size() > d.pos ? fl->b.size() - d.pos : 0; if (n > av) n = av; if (n) { chk(b, n, "read"); touch(b, n); for (u64 i = 0; i < n; i++) { *H(b + i) = fl->b[d.pos + i]; setshadow(b + i, fl->e[d.pos + i]); } } d.pos += n; RET(n); }
EXT(close) { RET(0); }
EXT(lseek64) { u64 fd = A(0); FS &f = fsw(); auto &d = f.fds.at(fd - 10); int64_t off = (int64_t)A(1); u64 wh = A(2); d.pos = wh == 0 ? off : wh == 1 ? d.pos + off : f.files[d.path]->b.size() + off; RET(d.pos); }
static void fillstat(u64 p, u64 size, bool dir) { mset(p, cst(0), 144); u32 mode = dir ? 040755 : 0100644; touch(p, 144); memcpy(H(p + 24), &mode, 4); memcpy(H(p + 48), &size, 8); }
EXT(fstat64) { u64 fd = A(0); if (fd < 10) { fillstat(A(1), 0, false); RET(0); return; } const FS &f = fsr(); fillstat(A(1), f.files.at(f.fds.at(fd - 10).path)->b.size(), false); RET(0); }
EXT(stat64) { std::string p = rdcstr(A(0)); const FS &f = fsr(); auto it = f.files.find(p); if (it != f.files.end()) { fillstat(A(1), it->second->b.size(), false); RET(0); } else if (f.dirs.count(p)) { fillstat(A(1), 0, true); RET(0); } else { seterrno(2); RET(0xffffffff); } }
EXT(mkdir) { std::string p = rdcstr(A(0)); FS &f = fsw(); size_t k = p.rfind('/'); if (f.dirs.count(p)) { seterrno(17); RET(0xffffffff); return; } if (k != std::string::npos && k > 0 && !f.dirs.count(p.substr(0, k))) { seterrno(2); RET(0xffffffff); return; } f.dirs.insert(p); RET(0); }
EXT(unlink) { std::string p = rdcstr(A(0)); FS &f = fsw(); if (f.files.erase(p)) RET(0); else { seterrno(2); RET(0xffffffff); } }
// ---- harness API
EXT(symx_make) { u64 p = A(0), n = A(1); std::string nm = rdstr(A(2), A(3)); mstore(p, n, symvar(nm, 8 * n)); }
EXT(symx_assume) { do_assume(c.a[0].e ? c.a[0] : cst(c.a[0].v)); }
EXT(symx_assert) { do_assert(c.a[0], rdstr(A(1), A(2)), true); }
EXT(symx_fail) { violation("assert", rdstr(A(0), A(1)), P.model); throw PathEnd{2}; }
EXT(symx_reach) { u64 k = A(0); if (k < 64) S->reach[k]++; }
EXT(symx_observe) { u64 t = A(0); Obs o; o.tag = t; o.e = c.a[1].e; o.v = c.a[1].v; P.obs.push_back(o); }
EXT(symx_concretize) { RET(cv(c.a[0])); }
EXT(symx_expect_panic) { P.expect_panic = A(0); }
EXT(symx_is_symbolic) { RET(c.a[0].e != nullptr); }
EXT(symx_native) { RET(0); }
EXT(symx_end) { throw PathEnd{0}; }
EXT(symx_z3_bind) { auto m = std::make_shared<std::map<std::string, Expr *>>(P.zbind ? *P.zbind : std::map<std::string, Expr *>()); std::string nm = rdstr(A(0), A(1)); u64 bits = A(2); Val lo = c.a[3], hi = c.a[4]; Expr *e = X.concat(ex(hi, 64), ex(lo, 64)); (*m)[nm] = X.extract(e, bits - 1, 0); P.zbind = m; }
EXT(symx_z3_result) { P.zresult = ex(c.a[0], 32); }
EXT(symx_z3_formula) { Expr *e = X.T(); for (Expr *x : P.zasserted) e = X.and1(e, x); c.r[0] = mk(X.zext(e, 8)); }
EXT(symx_z3_checks) { RET(P.zchecks); }
// ---- Z3 C API model (terms are built for real, the check verdict is symbolic or decided by the real solver)
EXT(Z3_handle) { RET(0x480000000000ull); }
EXT(Z3_none) { }
EXT(Z3_true) { RET(1); }
EXT(Z3_mk_bv_sort) { RET(ZS + 16 * A(1)); }
EXT(Z3_mk_bool_sort) { RET(ZS + 8); }
EXT(Z3_mk_string_symbol) { zsyms.push_back(rdcstr(A(1))); RET(ZY + 16 * (zsyms.size() - 1)); }
EXT(Z3_mk_int_symbol) { zsyms.push_back("k!" + std::to_string(A(1))); RET(ZY + 16 * (zsyms.size() - 1)); }
EXT(Z3_mk_const) { u64 s = A(1), so = A(2); std::string nm = zsyms.at((s - ZY) / 16); u32 w = so == ZS + 8 ? 1 : (so - ZS) / 16; if (P.zbind) { auto it = P.zbind->find(nm); if (it != P.zbind->end()) { if (it->second->w != w) throw Unsupported("z3 constant bound at another width"); c.r[0] = zret(it->second); return; } } c.r[0] = zret(X.var("z3!" + nm, w, 0)); u32 id = (u32)P.zasts.back()->v; if (P.model.size() <= id) P.model.resize(id + 1, 0); }
EXT(Z3_mk_unsigned_int64) { u64 so = A(2); u32 w = (so - ZS) / 16; Expr *e = ex(c.a[1], 64); c.r[0] = zret(w <= 64 ? X.extract(e, w - 1, 0) : X.zext(e, w)); }
EXT(Z3_mk_int64) { u64 so = A(2); u32 w = (so - ZS) / 16; Expr *e = ex(c.a[1], 64); c.r[0] = zret(w <= 64 ? X.extract(e, w - 1, 0) : X.sext(e, w)); }
EXT(Z3_mk_numeral) { std::string s = rdcstr(A(1)); u64 so = A(2); u32 w = (so - ZS) / 16; u128 v = 0; bool neg = false; size_t i = 0; if (s[0] == '-') { neg = true; i = 1; } for (; i < s.size(); i++) v = v * 10 + (s[i] - '0'); if (neg) v = -v; c.r[0] = zret(X.C(w, v)); }
#define ZB(n, k) EXT(Z3_mk_##n) { c.r[0] = zret(X.bin(k, zarg(c.a[1]), zarg(c.a[2]))); }
ZB(bvadd, K_ADD) ZB(bvsub, K_SUB) ZB(bvmul, K_MUL) ZB(bvand, K_AND) ZB(bvor, K_OR) ZB(bvxor, K_XOR) ZB(bvshl, K_SHL) ZB(bvlshr, K_LSHR) ZB(bvashr, K_ASHR) ZB(bvudiv, K_UDIV) ZB(bvsdiv, K_SDIV) ZB(bvurem, K_UREM) ZB(bvsrem, K_SREM)
EXT(Z3_mk_bvnot) { c.r[0] = zret(X.not1(zarg(c.a[1]))); }
EXT(Z3_mk_bvneg) { Expr *e = zarg(c.a[1]); c.r[0] = zret(X.bin(K_SUB, X.C(e->w, 0), e)); }
EXT(Z3_mk_eq) { c.r[0] = zret(X.eq(zarg(c.a[1]), zarg(c.a[2]))); }
EXT(Z3_mk_not) { c.r[0] = zret(X.not1(zarg(c.a[1]))); }
EXT(Z3_mk_iff) { c.r[0] = zret(X.eq(zarg(c.a[1]), zarg(c.a[2]))); }
EXT(Z3_mk_ite) { c.r[0] = zret(X.ite(zarg(c.a[1]), zarg(c.a[2]), zarg(c.a[3]))); }
EXT(Z3_mk_and) { u64 n = A(1); Expr *e = X.T(); for (u64 i = 0; i < n; i++) e = X.and1(e, zarg(cst(rd64(A(2) + 8 * i)))); c.r[0] = zret(e); }
EXT(Z3_mk_or) { u64 n = A(1); Expr *e = X.F(); for (u64 i = 0; i < n; i++) e = X.or1(e, zarg(cst(rd64(A(2) + 8 * i)))); c.r[0] = zret(e); }
EXT(Z3_mk_distinct) { u64 n = A(1); if (n != 2) throw Unsupported("Z3_mk_distinct of more than two"); c.r[0] = zret(X.not1(X.eq(zarg(cst(rd64(A(2)))), zarg(cst(rd64(A(2) + 8)))))); }
EXT(Z3_mk_true) { c.r[0] = zret(X.T()); }
EXT(Z3_mk_false) { c.r[0] = zret(X.F()); }
EXT(Z3_mk_bvult) { c.r[0] = zret(X.ult(zarg(c.a[1]), zarg(c.a[2]))); }
EXT(Z3_mk_bvslt) { c.r[0] = zret(X.slt(zarg(c.a[1]), zarg(c.a[2]))); }
EXT(Z3_mk_concat) { c.r[0] = zret(X.concat(zarg(c.a[1]), zarg(c.a[2]))); }
EXT(Z3_mk_extract) { c.r[0] = zret(X.extract(zarg(c.a[3]), A(1), A(2))); }
EXT(Z3_mk_zero_ext) { Expr *e = zarg(c.a[2]); c.r[0] = zret(X.zext(e, e->w + A(1))); }
EXT(Z3_mk_bvule) { c.r[0] = zret(X.not1(X.ult(zarg(c.a[2]), zarg(c.a[1])))); }
EXT(Z3_mk_bvugt) { c.r[0] = zret(X.ult(zarg(c.a[2]), zarg(c.a[1]))); }
EXT(Z3_mk_bvuge) { c.r[0] = zret(X.not1(X.ult(zarg(c.a[1]), zarg(c.a[2])))); }
EXT(Z3_mk_bvsle) { c.r[0] = zret(X.not1(X.slt(zarg(c.a[2]), zarg(c.a[1])))); }
EXT(Z3_mk_bvsgt) { c.r[0] = zret(X.slt(zarg(c.a[2]), zarg(c.a[1]))); }
EXT(Z3_mk_bvsge) { c.r[0] = zret(X.not1(X.slt(zarg(c.a[1]), zarg(c.a[2])))); }
EXT(Z3_mk_bvnand) { c.r[0] = zret(X.not1(X.bin(K_AND, zarg(c.a[1]), zarg(c.a[2])))); }
EXT(Z3_mk_bvnor) { c.r[0] = zret(X.not1(X.bin(K_OR, zarg(c.a[1]), zarg(c.a[2])))); }
EXT(Z3_mk_bvxnor) { c.r[0] = zret(X.not1(X.bin(K_XOR, zarg(c.a[1]), zarg(c.a[2])))); }
EXT(Z3_mk_bvsmod) { throw Unsupported("Z3_mk_bvsmod"); }
EXT(Z3_mk_bvredor) { Expr *e = zarg(c.a[1]); c.r[0] = zret(X.zext(X.not1(X.eq(e, X.C(e->w, 0))), 1)); }
EXT(Z3_mk_sign_ext) { Expr *e = zarg(c.a[2]); c.r[0] = zret(X.sext(e, e->w + A(1))); }
EXT(Z3_mk_implies) { c.r[0] = zret(X.or1(X.not1(zarg(c.a[1])), zarg(c.a[2]))); }
EXT(Z3_mk_xor) { c.r[0] = zret(X.not1(X.eq(zarg(c.a[1]), zarg(c.a[2])))); }
EXT(Z3_simplify) { c.r[0] = c.a[1]; }
EXT(Z3_is_eq_sort) { RET(A(1) == A(2)); }
EXT(Z3_is_eq_ast) { RET(zarg(c.a[1]) == zarg(c.a[2])); }
EXT(Z3_solver_reset) { P.zasserted.clear(); P.zscopes.clear(); }
EXT(Z3_get_sort) { Expr *e = zarg(c.a[1]); RET(e->w == 1 ? ZS + 8 : ZS + 16 * e->w); }
EXT(Z3_get_sort_kind) { u64 so = A(1); RET(so == ZS + 8 ? 1 : 4); }
EXT(Z3_get_bv_sort_size) { RET((A(1) - ZS) / 16); }
EXT(Z3_get_ast_kind) { RET(1); }
EXT(Z3_solver_assert) { Expr *e = zarg(c.a[2]); P.zasserted.push_back(e); }
EXT(Z3_solver_push) { P.zscopes.push_back(P.zasserted.size()); }
EXT(Z3_solver_pop) { u64 n = A(2); while (n-- && !P.zscopes.empty()) { P.zasserted.resize(P.zscopes.back()); P.zscopes.pop_back(); } }
EXT(Z3_mk_solver) { P.zasserted.clear(); P.zscopes.clear(); RET(0x480000000010ull); }
EXT(Z3_solver_check) {
  P.zchecks++;
  if (P.zresult) { c.r[0] = mk(P.zresult); return; }
  Expr *e = X.T(); for (Expr *x : P.zasserted) e = X.and1(e, x);
  if (e->k == K_CONST) { c.r[0] = cst(e->v ? 1 : 0xffffffffu); return; }
  for (u32 i = 0; i < X.vars.size(); i++) if (e->vs->has(i) && X.vars[i].name.compare(0, 3, "z3!")) throw Unsupported("validator query mentions harness inputs and no verdict was supplied");
  std::vector<std::pair<u32, u128>> m; std::vector<u32> key{e->id}; auto it = qcache.find(key); int r; if (it != qcache.end()) { r = it->second.r; S->cachehit++; } else { r = zcheck({e}, *e->vs, m); QRes q; q.r = r; q.m = m; qcache[key] = q; if (r == 1) S->qsat++; else if (r == 0) S->qunsat++; }
  if (r == 2) { inconclusive("validator query unknown"); c.r[0] = cst(0); return; } c.r[0] = cst(r == 1 ? 1 : 0xffffffffu);
}
struct ExtDef { const char *n; ExtFn f; };
static ExtDef exts[] = {
  {"malloc", x_malloc}, {"calloc", x_calloc}, {"realloc", x_realloc}, {"free", x_free}, {"posix_memalign", x_posix_memalign}, {"memcmp", x_memcmp}, {"bcmp", x_bcmp}, {"memcpy", x_memcpy}, {"memmove", x_memcpy}, {"memset", x_memset}, {"strlen", x_strlen}, {"memchr", x_memchr}, {"memrchr", x_memrchr},
  {"abort", x_abort}, {"exit", x_abort}, {"_exit", x_abort}, {"__errno_location", x_errno}, {"getenv", x_getenv}, {"syscall", x_syscall}, {"getrandom", x_getrandom}, {"clock_gettime", x_clock_gettime}, {"gettimeofday", x_zero}, {"sched_yield", x_zero}, {"getpid", x_zero}, {"pthread_self", x_zero}, {"sysconf", x_sysconf},
  {"pthread_key_create", x_pthread_key_create}, {"pthread_key_delete", x_zero}, {"pthread_getspecific", x_pthread_getspecific}, {"pthread_setspecific", x_pthread_setspecific}, {"pthread_mutex_lock", x_zero}, {"pthread_mutex_unlock", x_zero}, {"pthread_mutex_trylock", x_zero}, {"pthread_mutex_init", x_zero}, {"pthread_mutex_destroy", x_zero}, {"pthread_mutexattr_init", x_zero}, {"pthread_mutexattr_settype", x_zero}, {"pthread_mutexattr_destroy", x_zero}, {"pthread_rwlock_rdlock", x_zero}, {"pthread_rwlock_wrlock", x_zero}, {"pthread_rwlock_unlock", x_zero}, {"__cxa_thread_atexit_impl", x_zero}, {"dl_iterate_phdr", x_zero}, {"sigaction", x_zero}, {"signal", x_zero}, {"sigaltstack", x_zero},
  {"open64", x_open64}, {"open", x_open64}, {"write", x_write}, {"writev", x_writev}, {"read", x_read}, {"close", x_close}, {"lseek64", x_lseek64}, {"lseek", x_lseek64}, {"fstat64", x_fstat64}, {"stat64", x_stat64}, {"lstat64", x_stat64}, {"fstat", x_fstat64}, {"stat", x_stat64}, {"mkdir", x_mkdir}, {"unlink", x_unlink}, {"getcwd", x_zero}, {"isatty", x_zero}, {"fcntl", x_zero}, {"fcntl64", x_zero}, {"ioctl", x_minus1}, {"poll", x_zero}, {"readlink", x_minus1}, {"realpath", x_zero}, {"_Unwind_Backtrace", x_zero}, {"_Unwind_GetIP", x_zero},
  {"symx_make", x_symx_make}, {"symx_assume", x_symx_assume}, {"symx_assert", x_symx_assert}, {"symx_fail", x_symx_fail}, {"symx_reach", x_symx_reach}, {"symx_observe", x_symx_observe}, {"symx_concretize", x_symx_concretize}, {"symx_expect_panic", x_symx_expect_panic}, {"symx_is_symbolic", x_symx_is_symbolic}, {"symx_native", x_symx_native}, {"symx_end", x_symx_end}, {"symx_z3_bind", x_symx_z3_bind}, {"symx_z3_result", x_symx_z3_result}, {"symx_z3_formula", x_symx_z3_formula}, {"symx_z3_checks", x_symx_z3_checks},
  {"Z3_mk_config", x_Z3_handle}, {"Z3_set_param_value", x_Z3_none}, {"Z3_global_param_set", x_Z3_none}, {"Z3_mk_context", x_Z3_handle}, {"Z3_mk_context_rc", x_Z3_handle}, {"Z3_del_config", x_Z3_none}, {"Z3_del_context", x_Z3_none}, {"Z3_set_error_handler", x_Z3_none}, {"Z3_inc_ref", x_Z3_none}, {"Z3_dec_ref", x_Z3_none}, {"Z3_solver_inc_ref", x_Z3_none}, {"Z3_solver_dec_ref", x_Z3_none}, {"Z3_solver_set_params", x_Z3_none}, {"Z3_mk_params", x_Z3_handle}, {"Z3_params_inc_ref", x_Z3_none}, {"Z3_params_dec_ref", x_Z3_none}, {"Z3_params_set_uint", x_Z3_none}, {"Z3_params_set_bool", x_Z3_none}, {"Z3_get_error_code", x_zero}, {"Z3_sort_to_ast", x_Z3_handle}, {"Z3_set_ast_print_mode", x_Z3_none},
  {"Z3_mk_bv_sort", x_Z3_mk_bv_sort}, {"Z3_mk_bool_sort", x_Z3_mk_bool_sort}, {"Z3_mk_string_symbol", x_Z3_mk_string_symbol}, {"Z3_mk_int_symbol", x_Z3_mk_int_symbol}, {"Z3_mk_const", x_Z3_mk_const}, {"Z3_mk_unsigned_int64", x_Z3_mk_unsigned_int64}, {"Z3_mk_int64", x_Z3_mk_int64}, {"Z3_mk_numeral", x_Z3_mk_numeral},
#define ZD(n) {"Z3_mk_" #n, x_Z3_mk_##n}
  ZD(bvadd), ZD(bvsub), ZD(bvmul), ZD(bvand), ZD(bvor), ZD(bvxor), ZD(bvshl), ZD(bvlshr), ZD(bvashr), ZD(bvudiv), ZD(bvsdiv), ZD(bvurem), ZD(bvsrem), ZD(bvnot), ZD(bvneg), ZD(eq), ZD(not), ZD(iff), ZD(ite), ZD(and), ZD(or), ZD(distinct), ZD(true), ZD(false), ZD(bvult), ZD(bvslt), ZD(concat), ZD(extract), ZD(zero_ext), ZD(bvule), ZD(bvugt), ZD(bvuge), ZD(bvsle), ZD(bvsgt), ZD(bvsge), ZD(bvnand), ZD(bvnor), ZD(bvxnor), ZD(bvsmod), ZD(bvredor), ZD(sign_ext), ZD(implies), ZD(xor),
  {"Z3_simplify", x_Z3_simplify}, {"Z3_is_eq_sort", x_Z3_is_eq_sort}, {"Z3_is_eq_ast", x_Z3_is_eq_ast}, {"Z3_solver_reset", x_Z3_solver_reset},
  {"Z3_get_sort", x_Z3_get_sort}, {"Z3_get_sort_kind", x_Z3_get_sort_kind}, {"Z3_get_bv_sort_size", x_Z3_get_bv_sort_size}, {"Z3_get_ast_kind", x_Z3_get_ast_kind}, {"Z3_solver_assert", x_Z3_solver_assert}, {"Z3_solver_push", x_Z3_solver_push}, {"Z3_solver_pop", x_Z3_solver_pop}, {"Z3_mk_solver", x_Z3_mk_solver}, {"Z3_mk_simple_solver", x_Z3_mk_solver}, {"Z3_mk_solver_for_logic", x_Z3_mk_solver}, {"Z3_solver_check", x_Z3_solver_check},
};
static int extid(const std::string &n) { static std::unordered_map<std::string, int> m; if (m.empty()) for (size_t i = 0; i < sizeof exts / sizeof *exts; i++) m[exts[i].n] = i; auto it = m.find(n); return it == m.end() ? -1 : it->second; }
#undef A
#undef RET
