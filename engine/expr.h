// Hash-consed bit-vector expression DAG with on-the-fly simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <stdexcept>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

enum Kind : u8 {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_EQ, K_ULT, K_SLT, K_ITE, K_UMULO, K_SMULO
};

static const u32 MAXVARS = 512;
struct VarSet {
  u64 w[MAXVARS / 64];
  VarSet() { memset(w, 0, sizeof w); }
  void add(u32 i) { w[i >> 6] |= 1ull << (i & 63); }
  bool has(u32 i) const { return w[i >> 6] >> (i & 63) & 1; }
  bool inter(const VarSet &o) const { for (u32 i = 0; i < MAXVARS / 64; i++) if (w[i] & o.w[i]) return true; return false; }
  void orin(const VarSet &o) { for (u32 i = 0; i < MAXVARS / 64; i++) w[i] |= o.w[i]; }
  int count() const { int c = 0; for (u32 i = 0; i < MAXVARS / 64; i++) c += __builtin_popcountll(w[i]); return c; }
  int first() const { for (u32 i = 0; i < MAXVARS / 64; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
};

struct Expr {
  Kind k; u8 pad; uint16_t w; u32 lo; u32 id; u32 size;
  Expr *a, *b, *c;
  u128 v;            // constant value, or variable id
  const VarSet *vs;  // variables occurring in it
  Z3_ast z;
  u64 ep; u128 ev;   // evaluation memo
};

static inline u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sxt(u128 v, u32 w) { if (w >= 128) return (i128)v; u32 s = 128 - w; return (i128)(v << s) >> s; }

struct VarInfo { std::string name; u32 w; u32 order; };

struct Ctx {
  struct H { size_t operator()(const Expr *e) const {
    u64 h = e->k * 0x9E3779B97F4A7C15ull; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(e->w); mix(e->lo); mix((u64)e->a); mix((u64)e->b); mix((u64)e->c); mix((u64)e->v); mix((u64)(e->v >> 64)); return h; } };
  struct Q { bool operator()(const Expr *x, const Expr *y) const {
    return x->k == y->k && x->w == y->w && x->lo == y->lo && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v; } };
  std::unordered_set<Expr *, H, Q> tab;
  struct VSH { size_t operator()(const VarSet *s) const { u64 h = 0; for (u32 i = 0; i < MAXVARS / 64; i++) { h ^= s->w[i]; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; } return h; } };
  struct VSQ { bool operator()(const VarSet *a, const VarSet *b) const { return !memcmp(a, b, sizeof(VarSet)); } };
  std::unordered_set<const VarSet *, VSH, VSQ> vstab;
  const VarSet *vsempty;
  std::vector<VarInfo> vars;
  std::unordered_map<std::string, u32> varidx;
  u32 nid = 0; u64 epoch = 1;

  Ctx() { vsempty = internvs(VarSet()); }
  const VarSet *internvs(const VarSet &s) { auto it = vstab.find(&s); if (it != vstab.end()) return *it; auto *n = new VarSet(s); vstab.insert(n); return n; }

  Expr *raw(Kind k, u32 w, Expr *a = 0, Expr *b = 0, Expr *c = 0, u32 lo = 0, u128 v = 0) {
    Expr t; t.k = k; t.w = w; t.lo = lo; t.a = a; t.b = b; t.c = c; t.v = v;
    auto it = tab.find(&t); if (it != tab.end()) return *it;
    Expr *e = new Expr(t); e->id = nid++; e->z = nullptr; e->ep = 0;
    u64 sz = 1; if (a) sz += a->size; if (b) sz += b->size; if (c) sz += c->size; if (sz > 0x7fffffff) sz = 0x7fffffff; e->size = sz;
    if (k == K_VAR) { VarSet s; s.add((u32)v); e->vs = internvs(s); }
    else if (k == K_CONST) e->vs = vsempty;
    else {
      const VarSet *r = a->vs;
      for (Expr *x : {b, c}) if (x && x->vs != r && x->vs != vsempty) { if (r == vsempty) r = x->vs; else { VarSet s = *r; s.orin(*x->vs); r = internvs(s); } }
      e->vs = r;
    }
    tab.insert(e); return e;
  }
  Expr *C(u32 w, u128 v) { if (w > 128) throw Unsupported("constant wider than 128 bits"); return raw(K_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
  Expr *T() { return C(1, 1); }
  Expr *F() { return C(1, 0); }
  Expr *var(const std::string &name, u32 w, u32 order) {
    std::string key = name + "#" + std::to_string(w) + "#" + std::to_string(order);
    auto it = varidx.find(key); u32 id;
    if (it != varidx.end()) id = it->second; else { id = vars.size(); if (id >= MAXVARS) throw Unsupported("too many symbolic variables"); vars.push_back({name, w, order}); varidx[key] = id; }
    return raw(K_VAR, w, 0, 0, 0, 0, id);
  }
  static bool isc(Expr *e) { return e->k == K_CONST; }
  static bool isnot(Expr *e) { return e->w == 1 && e->k == K_XOR && isc(e->b); }

  static u128 fold(Kind k, u32 w, u128 a, u128 b) {
    u128 m = maskw(w);
    switch (k) {
    case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m; case K_UREM: return b ? a % b : a;
    case K_SDIV: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (-(u128)x) & m; return (u128)(x / y) & m; }
    case K_SREM: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (u32)b) & m; case K_LSHR: return b >= w ? 0 : a >> (u32)b;
    case K_ASHR: { i128 x = sxt(a, w); u32 s = b >= w ? w - 1 : (u32)b; return (u128)(x >> s) & m; }
    default: abort();
    }
  }
  static bool cmpf(Kind k, u32 w, u128 a, u128 b) { switch (k) { case K_EQ: return a == b; case K_ULT: return a < b; case K_SLT: return sxt(a, w) < sxt(b, w); default: abort(); } }
  static bool umulo(u32 w, u128 a, u128 b) { if (!a || !b) return false; u128 q = maskw(w) / a; return b > q; }
  static bool smulo(u32 w, u128 a, u128 b) {
    i128 x = sxt(a, w), y = sxt(b, w), r; if (__builtin_mul_overflow(x, y, &r)) return true; return sxt((u128)r & maskw(w), w) != r; }

  static bool iteconst(Expr *e) { return e->k == K_ITE && isc(e->b) && isc(e->c); }

  Expr *bin(Kind k, Expr *a, Expr *b) {
    u32 w = a->w;
    if (b->w != w) throw Unsupported("width mismatch in bin");
    if (isc(a) && isc(b)) return C(w, fold(k, w, a->v, b->v));
    bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
    if (comm) { if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b); }
    u128 m = maskw(w);
    if (iteconst(a) && isc(b) && w > 1) return ite(a->a, C(w, fold(k, w, a->b->v, b->v)), C(w, fold(k, w, a->c->v, b->v)));
    switch (k) {
    case K_ADD:
      if (isc(b)) { if (!b->v) return a; if (a->k == K_ADD && isc(a->b)) return bin(K_ADD, a->a, C(w, a->b->v + b->v)); if (b->v == 1 && a->k == K_XOR && isc(a->b) && a->b->v == m) return bin(K_SUB, C(w, 0), a->a); }
      if (a->k == K_SUB && isc(a->a) && !a->a->v) return bin(K_SUB, b, a->b);
      if (b->k == K_SUB && isc(b->a) && !b->a->v) return bin(K_SUB, a, b->b);
      if (w == 1) return bin(K_XOR, a, b);
      break;
    case K_SUB:
      if (a == b) return C(w, 0);
      if (isc(b)) return bin(K_ADD, a, C(w, (~b->v + 1)));
      if (w == 1) return bin(K_XOR, a, b);
      break;
    case K_MUL:
      if (isc(b)) { if (!b->v) return b; if (b->v == 1) return a; if ((b->v & (b->v - 1)) == 0) { u32 s = 0; while ((b->v >> s) != 1) s++; return bin(K_SHL, a, C(w, s)); } }
      if (w == 1) return bin(K_AND, a, b);
      break;
    case K_AND:
      if (a == b) return a;
      if (isc(b)) {
        if (!b->v) return b; if (b->v == m) return a;
        // low mask
        u128 t = b->v + 1;
        if ((t & b->v) == 0) { u32 s = 0; while ((t >> s) != 1) s++; return zext(extract(a, s - 1, 0), w); }
        if (a->k == K_AND && isc(a->b)) return bin(K_AND, a->a, C(w, a->b->v & b->v));
        if (a->k == K_ZEXT) return zext(bin(K_AND, a->a, C(a->a->w, b->v)), w);
      }
      if (isnotof(a, b) || isnotof(b, a)) return C(w, 0);
      // equality of the two halves of a word
      if (w == 1 && a->k == K_EQ && b->k == K_EQ && a->a->w >= 32 && b->a->w >= 32 && a->a->w + b->a->w <= 128) for (int i = 0; i < 4; i++) {
        Expr *p = i & 1 ? b : a, *q = i & 1 ? a : b, *qa = i & 2 ? q->b : q->a, *qb = i & 2 ? q->a : q->b;
        if (Expr *m1 = mergeable(p->a, qa)) if (Expr *m2 = mergeable(p->b, qb)) return eq(m1, m2);
      }
      break;
    case K_OR:
      if (a == b) return a;
      if (isc(b)) { if (!b->v) return a; if (b->v == m) return b; }
      if (isnotof(a, b) || isnotof(b, a)) return C(w, m);
      // assemble byte pieces:  (x << k) | zext(y)  with y narrow enough
      if (Expr *r = orconcat(a, b)) return r;
      break;
    case K_XOR:
      if (a == b) return C(w, 0);
      if (isc(b)) { if (!b->v) return a; if (a->k == K_XOR && isc(a->b)) return bin(K_XOR, a->a, C(w, a->b->v ^ b->v)); }
      else {
        if (a->k == K_XOR && isc(a->b)) return bin(K_XOR, bin(K_XOR, a->a, b), a->b);
        if (b->k == K_XOR && isc(b->b)) return bin(K_XOR, bin(K_XOR, a, b->a), b->b);
        if (w == 1) return bin(K_XOR, eq(a, b), C(1, 1));
      }
      break;
    case K_SHL:
      if (isc(b)) { if (!b->v) return a; if (b->v >= w) return C(w, 0); u32 s = (u32)b->v; return concat(extract(a, w - 1 - s, 0), C(s, 0)); }
      if (isc(a) && !a->v) return a;
      break;
    case K_LSHR:
      if (isc(b)) { if (!b->v) return a; if (b->v >= w) return C(w, 0); u32 s = (u32)b->v; return zext(extract(a, w - 1, s), w); }
      if (isc(a) && !a->v) return a;
      break;
    case K_ASHR:
      if (isc(b)) { if (!b->v) return a; u32 s = b->v >= w ? w - 1 : (u32)b->v; return sext(extract(a, w - 1, s), w); }
      break;
    case K_UDIV: if (isc(b)) { if (b->v == 1) return a; if (b->v && (b->v & (b->v - 1)) == 0) { u32 s = 0; while ((b->v >> s) != 1) s++; return bin(K_LSHR, a, C(w, s)); } } break;
    case K_UREM: if (isc(b)) { if (b->v && (b->v & (b->v - 1)) == 0) return bin(K_AND, a, C(w, b->v - 1)); } break;
    default: break;
    }
    return raw(k, w, a, b);
  }
  bool isnotof(Expr *a, Expr *b) { return a->k == K_XOR && isc(a->b) && a->b->v == maskw(a->w) && a->a == b; }
  // highest possibly-set bit bound
  static u32 topbits(Expr *e) { if (e->k == K_ZEXT) return e->a->w; if (isc(e)) { u32 n = 0; u128 v = e->v; while (v) { n++; v >>= 1; } return n; } return e->w; }
  static u32 lowzeros(Expr *e) { if (e->k == K_CONCAT && isc(e->b) && e->b->v == 0) return e->b->w; if (e->k == K_CONCAT && e->b->k==K_CONCAT) return 0; if (e->k == K_ZEXT) { return lowzeros(e->a); } return 0; }
  Expr *orconcat(Expr *a, Expr *b) {
    for (int i = 0; i < 2; i++, std::swap(a, b)) {
      u32 z = lowzeros(a); if (!z) continue;
      if (topbits(b) <= z && z < a->w) return concat(extract(a, a->w - 1, z), extract(b, z - 1, 0));
    }
    return nullptr;
  }
  Expr *not1(Expr *a) { return bin(K_XOR, a, C(a->w, maskw(a->w))); }
  Expr *and1(Expr *a, Expr *b) { return bin(K_AND, a, b); }
  Expr *or1(Expr *a, Expr *b) { return bin(K_OR, a, b); }

  Expr *extract(Expr *e, u32 hi, u32 lo) {
    u32 w = hi - lo + 1;
    if (lo == 0 && w == e->w) return e;
    switch (e->k) {
    case K_CONST: return C(w, e->v >> lo);
    case K_EXTRACT: return extract(e->a, hi + e->lo, lo + e->lo);
    case K_CONCAT: { u32 lw = e->b->w; if (hi < lw) return extract(e->b, hi, lo); if (lo >= lw) return extract(e->a, hi - lw, lo - lw);
      return concat(extract(e->a, hi - lw, 0), extract(e->b, lw - 1, lo)); }
    case K_ZEXT: { u32 iw = e->a->w; if (lo >= iw) return C(w, 0); if (hi < iw) return extract(e->a, hi, lo); return zext(extract(e->a, iw - 1, lo), w); }
    case K_SEXT: { u32 iw = e->a->w; if (hi < iw) return extract(e->a, hi, lo); if (lo == 0) return sext(e->a, w); if (lo < iw) return sext(extract(e->a, iw-1, lo), w); return sext(extract(e->a, iw-1, iw-1), w); }
    case K_AND: case K_OR: case K_XOR: return bin(e->k, extract(e->a, hi, lo), extract(e->b, hi, lo));
    case K_ADD: case K_SUB: case K_MUL: if (lo == 0) return bin(e->k, extract(e->a, hi, 0), extract(e->b, hi, 0)); break;
    case K_ITE: if (isc(e->b) || isc(e->c) || e->size < 64) return ite(e->a, extract(e->b, hi, lo), extract(e->c, hi, lo)); break;
    default: break;
    }
    return raw(K_EXTRACT, w, e, 0, 0, lo);
  }
  Expr *concat(Expr *a, Expr *b) { // a high
    u32 w = a->w + b->w;
    if (isc(a) && isc(b)) return C(w, (a->v << b->w) | b->v);
    if (isc(a) && a->v == 0) return zext(b, w);
    if (b->k == K_CONCAT) { // keep right-nested; try merging a with b->a
      if (Expr *m = mergeable(a, b->a)) return concat(m, b->b);
    }
    if (Expr *m = mergeable(a, b)) return m;
    if (a->k == K_CONCAT) return concat(a->a, concat(a->b, b));
    if (a->k == K_ZEXT) return zext(concat(a->a, b), w);
    if (iteconst(a) && isc(b)) return ite(a->a, concat(a->b, b), concat(a->c, b));
    if (iteconst(b) && isc(a)) return ite(b->a, concat(a, b->b), concat(a, b->c));
    if (iteconst(a) && iteconst(b) && a->a == b->a) return ite(a->a, concat(a->b, b->b), concat(a->c, b->c));
    return raw(K_CONCAT, w, a, b);
  }
  Expr *mergeable(Expr *a, Expr *b) {
    if (isc(a) && isc(b)) return C(a->w + b->w, (a->v << b->w) | b->v);
    if (a->k == K_EXTRACT && b->k == K_EXTRACT && a->a == b->a && a->lo == b->lo + b->w) return extract(a->a, a->lo + a->w - 1, b->lo);
    if (a->k == K_EXTRACT && a->lo == b->w && a->a->w <= 128) { Expr *e = a->a; if ((e->k == K_ADD || e->k == K_SUB || e->k == K_MUL || e->k == K_ITE || e->k == K_ZEXT || e->k == K_SEXT || e->k == K_SHL) && b->k != K_CONST && extract(e, b->w - 1, 0) == b) return extract(e, a->lo + a->w - 1, 0); }
    if (a->k == K_ITE && b->k == K_ITE && a->a == b->a) return ite(a->a, concat(a->b, b->b), concat(a->c, b->c));
    return nullptr;
  }
  Expr *zext(Expr *e, u32 w) {
    if (e->w == w) return e; if (e->w > w) throw Unsupported("zext narrowing");
    if (isc(e)) return C(w, e->v);
    if (e->k == K_ZEXT) return zext(e->a, w);
    if (iteconst(e)) return ite(e->a, zext(e->b, w), zext(e->c, w));
    return raw(K_ZEXT, w, e);
  }
  Expr *sext(Expr *e, u32 w) {
    if (e->w == w) return e; if (e->w > w) throw Unsupported("sext narrowing");
    if (isc(e)) return C(w, (u128)sxt(e->v, e->w));
    if (e->k == K_SEXT) return sext(e->a, w);
    if (e->k == K_ZEXT) return zext(e->a, w);
    if (iteconst(e)) return ite(e->a, sext(e->b, w), sext(e->c, w));
    return raw(K_SEXT, w, e);
  }
  Expr *eq(Expr *a, Expr *b) {
    u32 w = a->w; if (w != b->w) throw Unsupported("width mismatch in eq");
    if (a == b) return T();
    if (isc(a) && isc(b)) return C(1, a->v == b->v);
    if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b);
    if (isc(b)) {
      if (w == 1) return b->v ? a : bin(K_XOR, a, C(1, 1));
      switch (a->k) {
      case K_ZEXT: if (b->v > maskw(a->a->w)) return F(); return eq(a->a, C(a->a->w, b->v));
      case K_SEXT: { u128 t = b->v & maskw(a->a->w); if (((u128)sxt(t, a->a->w) & maskw(w)) != b->v) return F(); return eq(a->a, C(a->a->w, t)); }
      case K_CONCAT: return and1(eq(a->a, C(a->a->w, b->v >> a->b->w)), eq(a->b, C(a->b->w, b->v)));
      case K_ITE:
        if (isc(a->b) && isc(a->c)) return a->b->v == b->v ? (a->c->v == b->v ? T() : a->a) : (a->c->v == b->v ? not1(a->a) : F());
        if (isc(a->b)) return a->b->v == b->v ? or1(a->a, eq(a->c, b)) : and1(not1(a->a), eq(a->c, b));
        if (isc(a->c)) return a->c->v == b->v ? or1(not1(a->a), eq(a->b, b)) : and1(a->a, eq(a->b, b));
        break;
      case K_ADD: if (isc(a->b)) return eq(a->a, C(w, b->v - a->b->v)); break;
      case K_XOR: if (isc(a->b)) return eq(a->a, C(w, b->v ^ a->b->v)); if (b->v == 0) return eq(a->a, a->b); break;
      case K_SUB: if (b->v == 0) return eq(a->a, a->b); break;
      case K_OR: if (b->v == 0) return and1(eq(a->a, b), eq(a->b, b)); break;
      default: break;
      }
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      if (a->k == K_ITE && b->k == K_ITE && a->a == b->a && w > 1) return ite(a->a, eq(a->b, b->b), eq(a->c, b->c));
      if (w == 1 && isnot(a) ) return not1(eq(a->a, b));
      if (w == 1 && isnot(b) ) return not1(eq(a, b->a));
    }
    return raw(K_EQ, 1, a, b);
  }
  Expr *ult(Expr *a, Expr *b) {
    u32 w = a->w; if (a == b) return F();
    if (isc(a) && isc(b)) return C(1, a->v < b->v);
    if (isc(b)) {
      if (b->v == 0) return F(); if (b->v == 1) return eq(a, C(w, 0)); if (b->v == maskw(w)) return not1(eq(a, b));
      if (a->k == K_ZEXT) { if (b->v > maskw(a->a->w)) return T(); return ult(a->a, C(a->a->w, b->v)); }
      if (iteconst(a)) return ite(a->a, ult(a->b, b), ult(a->c, b));
    }
    if (isc(a)) {
      if (a->v == maskw(w)) return F(); if (a->v == 0) return not1(eq(b, a));
      if (b->k == K_ZEXT) { if (a->v >= maskw(b->a->w)) return F(); return ult(C(b->a->w, a->v), b->a); }
      if (iteconst(b)) return ite(b->a, ult(a, b->b), ult(a, b->c));
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return ult(a->a, b->a);
    if (w == 1) return and1(not1(a), b);
    return raw(K_ULT, 1, a, b);
  }
  Expr *slt(Expr *a, Expr *b) {
    u32 w = a->w; if (a == b) return F();
    if (isc(a) && isc(b)) return C(1, sxt(a->v, w) < sxt(b->v, w));
    bool na = nonneg(a), nb = nonneg(b);
    if (na && nb) return ult(a, b);
    if (iteconst(a) && isc(b)) return ite(a->a, slt(a->b, b), slt(a->c, b));
    if (iteconst(b) && isc(a)) return ite(b->a, slt(a, b->b), slt(a, b->c));
    if (w == 1) return and1(a, not1(b));
    if (isc(b) && b->v == 0) return extract(a, w - 1, w - 1);
    return raw(K_SLT, 1, a, b);
  }
  static bool nonneg(Expr *e) { if (isc(e)) return !(e->v >> (e->w - 1) & 1); return e->k == K_ZEXT; }
  Expr *cmp(Kind k, Expr *a, Expr *b) { return k == K_EQ ? eq(a, b) : k == K_ULT ? ult(a, b) : slt(a, b); }
  Expr *ite(Expr *c, Expr *a, Expr *b) {
    if (isc(c)) return c->v ? a : b;
    if (a == b) return a;
    if (isnot(c)) return ite(c->a, b, a);
    if (a->k == K_ITE && a->a == c) a = a->b;
    if (b->k == K_ITE && b->a == c) b = b->c;
    if (a == b) return a;
    if (a->w == 1) {
      if (isc(a)) return a->v ? or1(c, b) : and1(not1(c), b);
      if (isc(b)) return b->v ? or1(not1(c), a) : and1(c, a);
    }
    return raw(K_ITE, a->w, c, a, b);
  }
  Expr *umulo(Expr *a, Expr *b) { if (isc(a) && isc(b)) return C(1, umulo(a->w, a->v, b->v)); if (isc(a) && a->v <= 1) return F(); if (isc(b) && b->v <= 1) return F(); 
    if (topbits(a) + topbits(b) <= a->w) return F();
    return raw(K_UMULO, 1, a, b); }
  Expr *smulo(Expr *a, Expr *b) { if (isc(a) && isc(b)) return C(1, smulo(a->w, a->v, b->v)); return raw(K_SMULO, 1, a, b); }

  u128 eval(Expr *e, const std::vector<u128> &m) { epoch++; return ev(e, m); }
  u128 ev(Expr *e, const std::vector<u128> &m) {
    if (e->k == K_CONST) return e->v;
    if (e->ep == epoch) return e->ev;
    u128 r;
    switch (e->k) {
    case K_VAR: r = (u32)e->v < m.size() ? m[(u32)e->v] & maskw(e->w) : 0; break;
    case K_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case K_EXTRACT: r = (ev(e->a, m) >> e->lo) & maskw(e->w); break;
    case K_ZEXT: r = ev(e->a, m); break;
    case K_SEXT: r = (u128)sxt(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case K_EQ: case K_ULT: case K_SLT: r = cmpf(e->k, e->a->w, ev(e->a, m), ev(e->b, m)); break;
    case K_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case K_UMULO: r = umulo(e->a->w, ev(e->a, m), ev(e->b, m)); break;
    case K_SMULO: r = smulo(e->a->w, ev(e->a, m), ev(e->b, m)); break;
    default: r = fold(e->k, e->w, ev(e->a, m), ev(e->b, m)); break;
    }
    e->ep = epoch; e->ev = r; return r;
  }
};
