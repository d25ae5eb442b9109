// symx: a whole-program symbolic executor for LLVM IR (the merged, optimised
// LLVM module rustc emits for the harness crate + ruler + egg + std).
//
// Inputs declared by the harness become z3 bit-vector variables; every branch
// whose condition depends on them is decided by the solver, every feasible
// side is explored, and each harness assertion is discharged by an unsat
// answer for its negation under the path condition.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <memory>
#include <deque>
#include <map>
#include <set>
#include <algorithm>
#include <atomic>
#include <functional>

using llvm::dyn_cast; using llvm::cast; using llvm::isa;
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

static Ctx X;
static double nowf() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Val { u128 v; Expr *e; };

// ---------------------------------------------------------------- options
struct Opts {
  std::string bc, entry, out; int nproc = 8; double deadline = 800; u64 maxsteps = 400000000ull; u64 seed = 1;
  int maxviol = 12; bool trace = false; int samples = 24; std::string srcroot = "/repo/src";
} O;

struct Shared {
  std::atomic<int> active, stop, nviol, inconclusive;
  std::atomic<u64> paths, infeasible, insts, forks, queries, qsat, qunsat, qunknown, cachehit, modelhit, asserts, assertq, assertc, solver_us, panics, procs, reach[64], slowest_us, vars, maxpc, samples;
};
static Shared *S;

struct PathEnd { int kind; };           // 0 ok, 1 assumption failed, 2 panic/violation
struct Retry {};                         // re-execute the current instruction

// ---------------------------------------------------------------- memory
static const u64 BASE = 0x100000000000ull, SIZE = 1ull << 32, GUARD = 65536;
static const u64 STACKSZ = 256ull << 20;
static const u64 FBASE = 0x300000000000ull;
static const u32 PS = 256;
static u32 *pg_epoch; static Expr ***pg_sh;
static u32 cur_epoch = 1, epoch_ctr = 1;
static bool saving = false;
struct Saved { u32 page, old; Expr **sh; u8 data[PS]; };
static std::deque<Saved *> trail; static u64 trail_base = 0;
static inline u64 trail_top() { return trail_base + trail.size(); }

static inline u8 *H(u64 a) { return (u8 *)a; }
[[noreturn]] static void badaddr(u64 a, const char *what) { char b[128]; snprintf(b, sizeof b, "bad address %#lx in %s", (unsigned long)a, what); throw Unsupported(b); }
static inline void chk(u64 a, u64 n, const char *what) { if (unlikely(a < BASE + GUARD || a + n > BASE + SIZE || a + n < a)) badaddr(a, what); }

static void save_page(u32 p) {
  if (saving) {
    Saved *s = (Saved *)malloc(sizeof(Saved)); s->page = p; s->old = pg_epoch[p]; memcpy(s->data, H(BASE + (u64)p * PS), PS);
    s->sh = nullptr;
    if (pg_sh[p]) { s->sh = pg_sh[p]; Expr **n = (Expr **)malloc(PS * sizeof(Expr *)); memcpy(n, pg_sh[p], PS * sizeof(Expr *)); pg_sh[p] = n; }
    trail.push_back(s);
  }
  pg_epoch[p] = cur_epoch;
}
static inline void touch(u64 a, u64 n) {
  u32 p = (a - BASE) / PS, q = (a + n - 1 - BASE) / PS;
  for (; p <= q; p++) if (unlikely(pg_epoch[p] != cur_epoch)) save_page(p);
}
static void undo_to(u64 mark) {
  while (trail_top() > mark) {
    Saved *s = trail.back(); trail.pop_back();
    memcpy(H(BASE + (u64)s->page * PS), s->data, PS); free(pg_sh[s->page]); pg_sh[s->page] = s->sh; pg_epoch[s->page] = s->old; free(s);
  }
}
static inline Expr *shadow(u64 a) { Expr **s = pg_sh[(a - BASE) / PS]; return s ? s[(a - BASE) % PS] : nullptr; }
static inline bool anyshadow(u64 a, u64 n) { // quick page test
  u32 p = (a - BASE) / PS, q = (a + n - 1 - BASE) / PS; for (; p <= q; p++) if (pg_sh[p]) return true; return false; }
static void setshadow(u64 a, Expr *e) {
  u32 p = (a - BASE) / PS; if (!pg_sh[p]) { if (!e) return; pg_sh[p] = (Expr **)calloc(PS, sizeof(Expr *)); } pg_sh[p][(a - BASE) % PS] = e; }

static Val mload(u64 a, u32 bytes) {
  chk(a, bytes, "load");
  Val r; r.e = nullptr; r.v = 0;
  if (unlikely(anyshadow(a, bytes))) {
    bool any = false; for (u32 i = 0; i < bytes; i++) if (shadow(a + i)) { any = true; break; }
    if (any) {
      Expr *acc = nullptr;
      for (u32 i = 0; i < bytes; i++) { Expr *b = shadow(a + i); if (!b) b = X.C(8, *H(a + i)); acc = acc ? X.concat(b, acc) : b; }
      if (acc->k == K_CONST) r.v = acc->v; else r.e = acc;
      return r;
    }
  }
  switch (bytes) { case 1: r.v = *H(a); break; case 2: { uint16_t t; memcpy(&t, H(a), 2); r.v = t; break; } case 4: { u32 t; memcpy(&t, H(a), 4); r.v = t; break; } case 8: { u64 t; memcpy(&t, H(a), 8); r.v = t; break; } default: if (bytes > 16) throw Unsupported("load wider than 128 bits"); memcpy(&r.v, H(a), bytes); }
  return r;
}
static void mstore(u64 a, u32 bytes, const Val &v) {
  chk(a, bytes, "store"); touch(a, bytes);
  if (likely(!v.e)) { memcpy(H(a), &v.v, bytes); if (unlikely(anyshadow(a, bytes))) for (u32 i = 0; i < bytes; i++) setshadow(a + i, nullptr); return; }
  Expr *e = v.e; if (e->w < bytes * 8) e = X.zext(e, bytes * 8);
  for (u32 i = 0; i < bytes; i++) { Expr *b = X.extract(e, i * 8 + 7, i * 8); if (b->k == K_CONST) { *H(a + i) = (u8)b->v; setshadow(a + i, nullptr); } else { *H(a + i) = 0; setshadow(a + i, b); } }
}
static void mcopy(u64 d, u64 s, u64 n) {
  if (!n) return; chk(d, n, "memcpy dst"); chk(s, n, "memcpy src"); touch(d, n);
  if (anyshadow(s, n) || anyshadow(d, n)) {
    std::vector<Expr *> t(n); for (u64 i = 0; i < n; i++) t[i] = shadow(s + i);
    memmove(H(d), H(s), n); for (u64 i = 0; i < n; i++) setshadow(d + i, t[i]);
  } else memmove(H(d), H(s), n);
}
static void mset(u64 d, Val b, u64 n) {
  if (!n) return; chk(d, n, "memset"); touch(d, n);
  if (!b.e) memset(H(d), (int)(u8)b.v, n); 
  if (b.e || anyshadow(d, n)) for (u64 i = 0; i < n; i++) setshadow(d + i, b.e);
}

[[noreturn]] static void heap_out();
// allocator: metadata lives in simulated memory so that undo covers it
static u64 g_heapctl;     // 64 size-class list heads, then the bump pointer
static const int NCLS = 48;
static u64 rd64(u64 a) { u64 t; memcpy(&t, H(a), 8); return t; }
static void wr64(u64 a, u64 v) { touch(a, 8); memcpy(H(a), &v, 8); if (anyshadow(a, 8)) for (int i = 0; i < 8; i++) setshadow(a + i, nullptr); }
static u32 clsof(u64 n) { u32 c = 0; u64 s = 16; while (s < n) { s <<= 1; c++; } return c; }
static u64 xmalloc(u64 n, u64 align = 16) {
  if (align <= 16) {
    u32 c = clsof(n ? n : 1); u64 h = rd64(g_heapctl + 8 * c);
    if (h) { wr64(g_heapctl + 8 * c, rd64(h)); wr64(h - 16, c); wr64(h - 8, n); return h; }
    u64 b = rd64(g_heapctl + 8 * NCLS); u64 p = b + 16; u64 e = p + (16ull << c); if (e > BASE + SIZE - STACKSZ) heap_out();
    wr64(g_heapctl + 8 * NCLS, e); wr64(p - 16, c); wr64(p - 8, n); return p;
  }
  u64 b = rd64(g_heapctl + 8 * NCLS); u64 p = (b + 16 + align - 1) & ~(align - 1); u64 e = p + n; e = (e + 15) & ~15ull; if (e > BASE + SIZE - STACKSZ) heap_out();
  wr64(g_heapctl + 8 * NCLS, e); wr64(p - 16, 99); wr64(p - 8, n); return p;
}
static void xfree(u64 p) { if (!p) return; chk(p, 1, "free"); u64 c = rd64(p - 16); if (c >= NCLS) return; wr64(p, rd64(g_heapctl + 8 * c)); wr64(g_heapctl + 8 * c, p); wr64(p - 16, 98); }
static u64 xrealloc(u64 p, u64 n) { if (!p) return xmalloc(n); u64 c = rd64(p - 16), old = rd64(p - 8); if (c < NCLS && n <= (16ull << c) && clsof(n ? n : 1) == c) { wr64(p - 8, n); return p; } u64 q = xmalloc(n); mcopy(q, p, old < n ? old : n); xfree(p); return q; }

// ---------------------------------------------------------------- decoded code
enum Op : uint16_t {
  I_NOP, I_MOV, I_BIN, I_CMP, I_ZEXT, I_SEXT, I_TRUNC, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH,
  I_PACK, I_UNPACK, I_MEMCPY, I_MEMSET, I_OVF, I_SAT, I_MINMAX, I_BITOP, I_FSH, I_REDUCE, I_LOADREL, I_TRAP, I_UNSUP, I_RMW, I_CMPX, I_FBIN, I_FCMP, I_FCVT, I_DYNEXT, I_DYNINS, I_FUN
};
struct Move { int32_t d, s; u32 n; };
struct Edge { u32 blk; std::vector<Move> mv; };
struct GepT { int32_t op; u64 scale; u32 w; };
struct DFunc;
typedef void (*ExtFn)(struct Call &);
struct CallI { DFunc *f = nullptr; int32_t fp = 0; std::vector<int32_t> args; std::vector<u32> argn, argw; u32 retn = 0; std::vector<u32> retw; int ext = -1; bool isasm = false; };
struct SwI { std::vector<u128> vals; std::vector<u32> edges; u32 def; };
struct Inst { uint16_t op; uint16_t k; uint16_t w, w2; int32_t d, a, b, c; u64 imm; void *x; };
struct DFunc {
  llvm::Function *F; std::string name; bool decoded = false, isdecl = false; u64 addr;
  std::vector<Inst> code; std::vector<const llvm::DILocation *> loc; std::vector<const llvm::Instruction *> src; std::vector<Val> pool; std::vector<Edge> edges; std::vector<u32> blkstart; std::vector<u8> hit;
  std::vector<u32> blkof; u32 nregs = 0; std::vector<u32> argslot; u32 argslots = 0; int special = 0; int ext = -1; u64 calls = 0;
};
static std::vector<DFunc *> funcs; static std::unordered_map<const llvm::Function *, DFunc *> fmap;
static llvm::Module *M; static const llvm::DataLayout *DL;
static std::unordered_map<const llvm::GlobalValue *, u64> gaddr;
static std::vector<std::pair<u64,std::string>> gnames;

struct Frame { DFunc *f; u32 pc; u32 base; u64 sp; int32_t rd; u32 rn; };
static std::vector<Frame> frames; static Val *regs; static u32 regtop = 0; static const u32 MAXREGS = 8u << 20; static u64 sp;
static u64 steps = 0, path_steps = 0;

// ---------------------------------------------------------------- path state
struct File { std::vector<u8> b; std::vector<Expr *> e; };
struct FS { std::map<std::string, std::shared_ptr<File>> files; struct D { std::string path; u64 pos; bool app; bool open; }; std::vector<D> fds; std::set<std::string> dirs; };
struct Obs { u64 tag; Expr *e; u128 v; };
struct ZAst { Expr *e; };
struct PS_ {
  std::vector<Expr *> pc; std::vector<Obs> obs; std::vector<u32> vars;
  std::vector<u128> model; std::shared_ptr<std::map<std::string, u32>> names; std::shared_ptr<FS> fs;
  u64 clock = 0; bool expect_panic = false; u64 keyctr = 0; std::vector<u64> tls; u64 nassert = 0;
  std::vector<Expr *> zasts; std::vector<Expr *> zasserted; std::shared_ptr<std::map<std::string, Expr *>> zbind; u32 zscope = 0; Expr* zresult = nullptr; std::vector<u32> zscopes; u64 zchecks = 0;
};
static PS_ P;
static std::unordered_map<Expr *, u8> known; static std::unordered_map<Expr *, u128> concm;
struct KLog { Expr *e; int which; }; static std::vector<KLog> klog;
static void setknown(Expr *e, bool v) { auto it = known.find(e); if (it != known.end()) return; known[e] = v; klog.push_back({e, 0}); }
static void setconc(Expr *e, u128 v) { if (concm.count(e)) return; concm[e] = v; klog.push_back({e, 1}); }
static void undo_klog(size_t n) { while (klog.size() > n) { auto k = klog.back(); klog.pop_back(); if (k.which == 0) known.erase(k.e); else concm.erase(k.e); } }

struct Choice {
  std::vector<Frame> frames; std::vector<Val> regs; u64 sp; size_t npc, nobs, nvars, nk, nz, nza; std::vector<u128> model; std::shared_ptr<std::map<std::string, u32>> names; std::shared_ptr<FS> fs;
  u64 clock; bool expect_panic; u64 keyctr; std::vector<u64> tls; u64 nassert; u64 mark; u32 prev_epoch; Expr *alt; u64 path_steps; std::shared_ptr<std::map<std::string, Expr *>> zbind; std::vector<u32> zscopes; Expr *zresult; u64 zchecks;
};
static std::deque<Choice> choices;

// ---------------------------------------------------------------- solver
static Z3_context Z; static Z3_solver zs1, zs2; static Z3_params zp1;
static bool z_err = false;
static void zerr(Z3_context, Z3_error_code) { z_err = true; }
static void zinit() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(Z, zerr);
  zs1 = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, zs1);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), 1500000); Z3_solver_set_params(Z, zs1, p);
}
static Z3_sort zsort(u32 w) { return w == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, w); }
static Z3_ast znum(u32 w, u128 v) {
  if (w == 1) return v ? Z3_mk_true(Z) : Z3_mk_false(Z);
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64)v, zsort(w));
  Z3_ast hi = Z3_mk_unsigned_int64(Z, (u64)(v >> 64), Z3_mk_bv_sort(Z, w - 64)), lo = Z3_mk_unsigned_int64(Z, (u64)v, Z3_mk_bv_sort(Z, 64)); return Z3_mk_concat(Z, hi, lo);
}
static std::vector<Z3_ast> zvars;
static Z3_ast z3of(Expr *e);
static Z3_ast zbv(Expr *e) { Z3_ast a = z3of(e); if (e->w == 1) return Z3_mk_ite(Z, a, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1))); return a; }
static Z3_ast z3of(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r;
  switch (e->k) {
  case K_CONST: r = znum(e->w, e->v); break;
  case K_VAR: { const VarInfo &v = X.vars[(u32)e->v]; r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, (v.name + "!" + std::to_string(v.order) + "!" + std::to_string(v.w)).c_str()), zsort(e->w)); break; }
  case K_ADD: r = Z3_mk_bvadd(Z, z3of(e->a), z3of(e->b)); break;
  case K_SUB: r = Z3_mk_bvsub(Z, z3of(e->a), z3of(e->b)); break;
  case K_MUL: r = Z3_mk_bvmul(Z, z3of(e->a), z3of(e->b)); break;
  case K_UDIV: r = Z3_mk_bvudiv(Z, zbv(e->a), zbv(e->b)); goto fix1;
  case K_SDIV: r = Z3_mk_bvsdiv(Z, zbv(e->a), zbv(e->b)); goto fix1;
  case K_UREM: r = Z3_mk_bvurem(Z, zbv(e->a), zbv(e->b)); goto fix1;
  case K_SREM: r = Z3_mk_bvsrem(Z, zbv(e->a), zbv(e->b)); goto fix1;
  case K_SHL: r = Z3_mk_bvshl(Z, zbv(e->a), zbv(e->b)); goto fix1;
  case K_LSHR: r = Z3_mk_bvlshr(Z, zbv(e->a), zbv(e->b)); goto fix1;
  case K_ASHR: r = Z3_mk_bvashr(Z, zbv(e->a), zbv(e->b)); goto fix1;
  case K_AND: if (e->w == 1) { Z3_ast x[2] = {z3of(e->a), z3of(e->b)}; r = Z3_mk_and(Z, 2, x); } else r = Z3_mk_bvand(Z, z3of(e->a), z3of(e->b)); break;
  case K_OR: if (e->w == 1) { Z3_ast x[2] = {z3of(e->a), z3of(e->b)}; r = Z3_mk_or(Z, 2, x); } else r = Z3_mk_bvor(Z, z3of(e->a), z3of(e->b)); break;
  case K_XOR: if (e->w == 1) { if (e->b->k == K_CONST) r = Z3_mk_not(Z, z3of(e->a)); else r = Z3_mk_xor(Z, z3of(e->a), z3of(e->b)); } else r = Z3_mk_bvxor(Z, z3of(e->a), z3of(e->b)); break;
  case K_CONCAT: r = Z3_mk_concat(Z, zbv(e->a), zbv(e->b)); break;
  case K_EXTRACT: r = Z3_mk_extract(Z, e->lo + e->w - 1, e->lo, zbv(e->a)); goto fix1;
  case K_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, zbv(e->a)); break;
  case K_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, zbv(e->a)); break;
  case K_EQ: r = Z3_mk_eq(Z, z3of(e->a), z3of(e->b)); break;
  case K_ULT: r = Z3_mk_bvult(Z, zbv(e->a), zbv(e->b)); break;
  case K_SLT: r = Z3_mk_bvslt(Z, zbv(e->a), zbv(e->b)); break;
  case K_ITE: r = Z3_mk_ite(Z, z3of(e->a), z3of(e->b), z3of(e->c)); break;
  case K_UMULO: r = Z3_mk_not(Z, Z3_mk_bvmul_no_overflow(Z, zbv(e->a), zbv(e->b), false)); break;
  case K_SMULO: { Z3_ast x[2] = {Z3_mk_bvmul_no_overflow(Z, zbv(e->a), zbv(e->b), true), Z3_mk_bvmul_no_underflow(Z, zbv(e->a), zbv(e->b))}; r = Z3_mk_not(Z, Z3_mk_and(Z, 2, x)); break; }
  default: throw Unsupported("z3of");
  }
  if (0) { fix1: if (e->w == 1) r = Z3_mk_eq(Z, r, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))); }
  if (z_err || !r) throw Unsupported("z3 API error while translating");
  return e->z = r;
}
struct QRes { int r; std::vector<std::pair<u32, u128>> m; };
struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = v.size(); for (u32 x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
static std::unordered_map<std::vector<u32>, QRes, VecHash> qcache;
static std::deque<std::vector<u128>> recent;

static std::string unknown_model();
static int zcheck(const std::vector<Expr *> &cs, const VarSet &vs, std::vector<std::pair<u32, u128>> &m) {
  double t0 = nowf(); S->queries++;
  Z3_lbool r = Z3_L_UNDEF; Z3_solver zs = zs1; Z3_model mod = nullptr;
  Z3_solver_reset(Z, zs1); for (Expr *c : cs) Z3_solver_assert(Z, zs1, z3of(c)); r = Z3_solver_check(Z, zs1);
  if (r == Z3_L_UNDEF) {
    Z3_tactic t = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, t); Z3_solver s2 = Z3_mk_solver_from_tactic(Z, t); Z3_solver_inc_ref(Z, s2);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), 2000000000u); static int qt = getenv("SYMX_QTIMEOUT") ? atoi(getenv("SYMX_QTIMEOUT")) : 150000; Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), qt); Z3_solver_set_params(Z, s2, p);
    for (Expr *c : cs) Z3_solver_assert(Z, s2, z3of(c)); r = Z3_solver_check(Z, s2); zs = s2; Z3_tactic_dec_ref(Z, t); Z3_params_dec_ref(Z, p);
  }
  if (z_err) { z_err = false; r = Z3_L_UNDEF; }
  if (r == Z3_L_TRUE) {
    mod = Z3_solver_get_model(Z, zs); Z3_model_inc_ref(Z, mod);
    for (u32 i = 0; i < X.vars.size(); i++) if (vs.has(i)) {
      u32 w = X.vars[i].w; Expr *ve = X.raw(K_VAR, w, 0, 0, 0, 0, i); Z3_ast out; u128 val = 0;
      if (w == 1) { if (Z3_model_eval(Z, mod, z3of(ve), true, &out)) val = Z3_get_bool_value(Z, out) == Z3_L_TRUE; }
      else for (u32 lo = 0; lo < w; lo += 64) { u32 hi = std::min(w - 1, lo + 63); Z3_ast part = Z3_mk_extract(Z, hi, lo, z3of(ve)); uint64_t n = 0; if (Z3_model_eval(Z, mod, part, true, &out) && Z3_get_numeral_uint64(Z, out, &n)) val |= (u128)n << lo; }
      m.push_back({i, val});
    }
    Z3_model_dec_ref(Z, mod);
  }
  if (zs != zs1) Z3_solver_dec_ref(Z, zs);
  u64 us = (u64)((nowf() - t0) * 1e6); S->solver_us += us; u64 o = S->slowest_us.load(); while (us > o && !S->slowest_us.compare_exchange_weak(o, us)) ;
  if (us > 5000000 && getenv("SYMX_SLOW")) fprintf(stderr, "slow %.1fs r=%d %s\n", us / 1e6, (int)r, unknown_model().c_str());
  if (z_err) { z_err = false; return 2; }
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : 2;
}
static bool evalunder(const std::vector<Expr *> &cs, const std::vector<u128> &m) { X.epoch++; for (Expr *c : cs) if (!X.ev(c, m)) return false; return true; }
static void inconclusive(const std::string &why); static std::string unknown_model();

// is  PC && cond  satisfiable?  On yes, nm is a full model of it.
static int feasible(Expr *cond, std::vector<u128> &nm, bool forassert = false) {
  if (cond->k == K_CONST) { if (cond->v) { nm = P.model; return 1; } return 0; }
  { auto it = known.find(cond); if (it != known.end()) { if (it->second) { nm = P.model; return 1; } return 0; } }
  VarSet vs = *cond->vs; std::vector<Expr *> sl; std::vector<u8> in(P.pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = P.pc.size(); i-- > 0;) if (!in[i] && P.pc[i]->vs->inter(vs)) { in[i] = 1; vs.orin(*P.pc[i]->vs); ch = true; } }
  std::vector<u32> key; for (size_t i = 0; i < P.pc.size(); i++) if (in[i]) { sl.push_back(P.pc[i]); key.push_back(P.pc[i]->id); }
  std::sort(key.begin(), key.end()); key.push_back(cond->id); sl.push_back(cond);
  auto it = qcache.find(key);
  QRes q; bool fresh = false;
  if (it != qcache.end()) { q = it->second; S->cachehit++; }
  else {
    bool done = false;
    for (auto &m : recent) if (evalunder(sl, m)) { q.r = 1; for (u32 i = 0; i < X.vars.size(); i++) if (vs.has(i)) q.m.push_back({i, i < m.size() ? m[i] : 0}); done = true; S->modelhit++; break; }
    if (!done) { q.r = zcheck(sl, vs, q.m); fresh = true; if (q.r == 1) S->qsat++; else if (q.r == 0) S->qunsat++; else S->qunknown++; }
    qcache[key] = q;
  }
  if (q.r == 2) { inconclusive("solver returned unknown " + unknown_model()); return 2; }
  if (q.r == 0) return 0;
  nm = P.model; nm.resize(X.vars.size(), 0); for (auto &p : q.m) { if (p.first >= nm.size()) nm.resize(p.first + 1, 0); nm[p.first] = p.second; }
  if (!evalunder(sl, nm)) { inconclusive("engine bug: model returned by the solver does not satisfy the constraints under the engine's evaluator"); return 2; }
  if (fresh) { recent.push_front(nm); if (recent.size() > 12) recent.pop_back(); }
  return 1;
}
static void addpc(Expr *c) {
  if (c->k == K_CONST) return;
  if (known.count(c)) return;
  if (c->k == K_AND && c->w == 1) { addpc(c->a); addpc(c->b); setknown(c, true); return; }
  if (Ctx::isnot(c)) { if (c->a->k == K_OR && c->a->w == 1) { addpc(X.not1(c->a->a)); addpc(X.not1(c->a->b)); setknown(c, true); setknown(c->a, false); return; } setknown(c->a, false); }
  setknown(c, true);
  if (!Ctx::isnot(c)) setknown(X.not1(c), false);
  if (c->k == K_EQ && Ctx::isc(c->b)) setconc(c->a, c->b->v);
  P.pc.push_back(c); if (P.pc.size() > S->maxpc.load()) S->maxpc = P.pc.size();
}

// ---------------------------------------------------------------- output
static int outfd = -1;
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32 || (u8)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (u8)c); r += b; } else r += c; } return r; }
static void emit(const std::string &s) { std::string t = s + "\n"; ssize_t r = write(outfd, t.data(), t.size()); (void)r; }
static std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s += '0' + (int)(v % 10); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
static std::string demangle(const std::string &s) { std::string d = llvm::demangle(s); size_t p = d.rfind("::h"); if (p != std::string::npos && d.size() - p == 19) d = d.substr(0, p); return d; }
static void inconclusive(const std::string &why) { if (S->inconclusive.fetch_add(1) < 20) emit("{\"t\":\"inconclusive\",\"why\":\"" + jesc(why) + "\"}"); }

static std::string locstr(const llvm::DILocation *l, const std::string &fallback) {
  if (!l) return fallback; std::string s; 
  for (int i = 0; l && i < 12; i++, l = l->getInlinedAt()) { if (i) s += " < "; auto *sc = l->getScope()->getSubprogram(); s += (sc ? demangle(std::string(sc->getLinkageName().empty() ? sc->getName() : sc->getLinkageName())) : std::string("?")) + "@" + l->getFilename().str() + ":" + std::to_string(l->getLine()); }
  return s;
}
static std::string backtrace(int n = 12) { std::string s; for (size_t i = frames.size(); i-- > 0 && n-- > 0;) { auto &f = frames[i]; if (!s.empty()) s += " <- "; s += locstr(f.f->loc.size() > f.pc ? f.f->loc[f.pc] : nullptr, demangle(f.f->name)); } return s; }
static std::string modeljson(const std::vector<u128> &m) { std::string s = "{"; bool first = true; for (u32 v : P.vars) { if (!first) s += ","; first = false; s += "\"" + jesc(X.vars[v].name) + "#" + std::to_string(X.vars[v].order) + "\":\"" + u128s(v < m.size() ? m[v] & maskw(X.vars[v].w) : 0) + "\""; } return s + "}"; }
static std::string unknown_model() { return modeljson(P.model); }
static void violation(const std::string &kind, const std::string &msg, const std::vector<u128> &m) {
  int n = S->nviol.fetch_add(1); if (n < 400) emit("{\"t\":\"viol\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"model\":" + modeljson(m) + ",\"bt\":\"" + jesc(backtrace()) + "\"}");
  if (n + 1 >= O.maxviol) S->stop = 1;
}

[[noreturn]] static void heap_out() { violation("memory", "memory bound exceeded", P.model); throw PathEnd{2}; }
// ---------------------------------------------------------------- forking
static void push_choice(Expr *alt, const std::vector<u128> &model) {
  S->forks++;
  Choice c; c.frames = frames; c.regs.assign(regs, regs + regtop); c.sp = sp; c.npc = P.pc.size(); c.nobs = P.obs.size(); c.nvars = P.vars.size(); c.nk = klog.size(); c.model = model; c.names = P.names; c.fs = P.fs; c.clock = P.clock;
  c.expect_panic = P.expect_panic; c.keyctr = P.keyctr; c.tls = P.tls; c.nassert = P.nassert; c.mark = trail_top(); c.prev_epoch = cur_epoch; c.alt = alt; c.path_steps = path_steps;
  c.nz = P.zasts.size(); c.nza = P.zasserted.size(); c.zbind = P.zbind; c.zscopes = P.zscopes; c.zresult = P.zresult; c.zchecks = P.zchecks;
  choices.push_back(std::move(c)); cur_epoch = ++epoch_ctr; saving = true;
}
static void restore(Choice &c) {
  undo_to(c.mark); frames = std::move(c.frames); memcpy(regs, c.regs.data(), c.regs.size() * sizeof(Val)); regtop = c.regs.size(); sp = c.sp; P.pc.resize(c.npc); P.obs.resize(c.nobs); P.vars.resize(c.nvars); undo_klog(c.nk); P.model = c.model; P.names = c.names; P.fs = c.fs; P.clock = c.clock;
  P.expect_panic = c.expect_panic; P.keyctr = c.keyctr; P.tls = c.tls; P.nassert = c.nassert; cur_epoch = c.prev_epoch; path_steps = c.path_steps; P.zasts.resize(c.nz); P.zasserted.resize(c.nza); P.zbind = c.zbind; P.zscopes = c.zscopes; P.zresult = c.zresult; P.zchecks = c.zchecks;
}
static bool backtrack() {
  if (choices.empty()) return false;
  Choice c = std::move(choices.back()); choices.pop_back(); restore(c); if (choices.empty()) saving = false; addpc(c.alt); return true;
}
static u64 my_insts = 0, my_paths = 0; static void flush_child();
static bool is_child = false;
static void maybe_donate() {
  if (choices.empty() || S->stop.load()) return;
  int a = S->active.load(); if (a >= O.nproc) return;
  if (!S->active.compare_exchange_strong(a, a + 1)) return;
  pid_t p = fork();
  if (p < 0) { S->active--; return; }
  if (p == 0) {
    is_child = true; prctl(PR_SET_PDEATHSIG, 0); S->procs++; my_insts = 0; my_paths = 0; steps = 0;
    Choice c = std::move(choices.front()); choices.clear(); restore(c); saving = false; while (!trail.empty()) { Saved *s = trail.back(); trail.pop_back(); free(s->sh); free(s); } trail_base = 0;
    addpc(c.alt); throw Retry();
  }
  choices.pop_front();
  if (choices.empty()) { saving = false; while (!trail.empty()) { Saved *s = trail.front(); trail.pop_front(); trail_base++; free(s->sh); free(s); } }
  else while (trail_base < choices.front().mark) { Saved *s = trail.front(); trail.pop_front(); trail_base++; free(s->sh); free(s); }
}
static bool decide(Expr *c) {
  if (c->k == K_CONST) return c->v;
  auto it = known.find(c); if (it != known.end()) return it->second;
  if (Ctx::isnot(c)) return !decide(c->a);
  bool v = X.eval(c, P.model); Expr *oth = v ? X.not1(c) : c; std::vector<u128> nm;
  if (feasible(oth, nm) == 1) { push_choice(oth, nm); addpc(v ? c : X.not1(c)); maybe_donate(); }
  else setknown(c, v);
  return v;
}
static u128 concretize(Expr *e) {
  if (e->k == K_CONST) return e->v;
  auto it = concm.find(e); if (it != concm.end()) return it->second;
  u128 v = X.eval(e, P.model); Expr *eqe = X.eq(e, X.C(e->w, v)); Expr *oth = X.not1(eqe); std::vector<u128> nm;
  if (feasible(oth, nm) == 1) { push_choice(oth, nm); addpc(eqe); maybe_donate(); }
  setconc(e, v); return v;
}
static inline u64 cv(const Val &v) { return v.e ? (u64)concretize(v.e) : (u64)v.v; }
static inline bool cb(const Val &v) { return v.e ? decide(v.e) : (v.v & 1); }
static inline Expr *ex(const Val &v, u32 w) { return v.e ? v.e : X.C(w, v.v); }
static inline Val mk(Expr *e) { Val r; if (e->k == K_CONST) { r.v = e->v; r.e = nullptr; } else { r.v = 0; r.e = e; } return r; }
static inline Val cst(u128 v) { Val r; r.v = v; r.e = nullptr; return r; }

static int extid(const std::string &n);
#include "decode.inc"
#include "extern.inc"
#include "interp.inc"
