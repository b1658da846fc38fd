#include "expr.h"
#include <deque>
#include <map>
#include <math.h>

std::vector<VarInfo> g_vars;
static std::unordered_set<Expr*, ExprHash, ExprEq> g_table;
static std::deque<Expr> g_arena;
static std::unordered_map<std::string, Expr*> g_varByName;

static std::map<std::vector<uint32_t>, VarSet*> g_vs;
static VarSet g_empty;
static VarSet* internVS(std::vector<uint32_t>&& v) {
  auto it = g_vs.find(v);
  if (it != g_vs.end()) return it->second;
  auto* s = new VarSet{v};
  g_vs[v] = s;
  return s;
}
static std::unordered_map<uint64_t, const VarSet*> g_unionMemo;
static std::unordered_map<const VarSet*, uint32_t> g_vsId;
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  auto idOf = [](const VarSet* s) { auto it = g_vsId.find(s); if (it != g_vsId.end()) return it->second;
    uint32_t n = g_vsId.size(); g_vsId[s] = n; return n; };
  uint64_t x = idOf(a), y = idOf(b);
  if (x > y) std::swap(x, y);
  uint64_t key = x << 32 | y;
  auto it = g_unionMemo.find(key);
  if (it != g_unionMemo.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  auto* s = internVS(std::move(r));
  g_unionMemo[key] = s;
  return s;
}

// Unsigned bounds of an operation's result from those of its operands.
static void rangeOf(Kind k, unsigned w, const Expr* a, const Expr* b, const Expr* c, u128 v, u128& lo, u128& hi) {
  u128 m = maskw(w);
  lo = 0; hi = m;
  if (w > 64) return;
  if (a && a->w > 64) return;
  switch (k) {
    case K_Const: lo = hi = v; break;
    case K_ZExt: lo = a->lo; hi = a->hi; break;
    case K_Add: {
      u128 l = a->lo + b->lo, h = a->hi + b->hi;
      if (h <= m) { lo = l; hi = h; } else if (l > m) { lo = l & m; hi = h & m; }
      break;
    }
    case K_Sub:
      if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; }
      else if (a->hi < b->lo) { lo = (a->lo - b->hi) & m; hi = (a->hi - b->lo) & m; }
      break;
    case K_Mul: if (a->hi * b->hi <= m) { lo = a->lo * b->lo; hi = a->hi * b->hi; } break;
    case K_UDiv: if (b->lo) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
    case K_URem: if (b->lo) { hi = b->hi - 1; if (a->hi < hi) hi = a->hi; if (b->isConst() && a->lo / b->lo == a->hi / b->lo) { lo = a->lo % b->lo; hi = a->hi % b->lo; } } break;
    case K_And: hi = a->hi < b->hi ? a->hi : b->hi; break;
    case K_Or: lo = a->lo > b->lo ? a->lo : b->lo; break;
    case K_Xor: if (b->isConst() && b->v == m) { lo = m - a->hi; hi = m - a->lo; } break;
    case K_LShr: hi = a->hi; break;
    case K_Ite: lo = b->lo < c->lo ? b->lo : c->lo; hi = b->hi > c->hi ? b->hi : c->hi; break;
    case K_Concat: lo = a->lo << b->w | b->lo; hi = a->hi << b->w | b->hi; break;
    case K_Extract: {
      u128 l = a->lo >> (unsigned)v, h = a->hi >> (unsigned)v;
      if (h <= m) { lo = l; hi = h; } else if (l >> w == h >> w) { lo = l & m; hi = h & m; }
      break;
    }
    case K_SExt: {
      u128 s = (u128)1 << (a->w - 1);
      if (a->hi < s) { lo = a->lo; hi = a->hi; } else if (a->lo >= s) { lo = a->lo | (m & ~maskw(a->w)); hi = a->hi | (m & ~maskw(a->w)); }
      break;
    }
    default: break;
  }
}

static Expr* intern(Kind k, unsigned w, Expr* a, Expr* b, Expr* c, u128 v) {
  Expr t; memset((void*)&t, 0, sizeof t);
  t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.v = v;
  uint64_t h = k * 0x9E3779B97F4A7C15ull + w;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
  mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix((uint64_t)v); mix((uint64_t)(v >> 64));
  t.h = h;
  auto it = g_table.find(&t);
  if (it != g_table.end()) return *it;
  t.id = g_arena.size();
  t.size = 1 + (a ? a->size : 0) + (b ? b->size : 0) + (c ? c->size : 0);
  if (t.size > 1000000000u) t.size = 1000000000u;
  const VarSet* vs = &g_empty;
  if (k == K_Var) vs = internVS({(uint32_t)v});
  if (a) vs = a->vars;
  if (b) vs = unionVS(vs, b->vars);
  if (c) vs = unionVS(vs, c->vars);
  t.vars = vs;
  rangeOf(k, w, a, b, c, v, t.lo, t.hi);
  g_arena.push_back(t);
  Expr* r = &g_arena.back();
  g_table.insert(r);
  return r;
}

Expr* mkConst(unsigned w, u128 v) { return intern(K_Const, w, 0, 0, 0, v & maskw(w)); }
Expr* mkVar(const std::string& name, unsigned w) {
  auto it = g_varByName.find(name);
  if (it != g_varByName.end()) return it->second;
  uint32_t id = g_vars.size();
  g_vars.push_back({name, w, nullptr});
  Expr* e = intern(K_Var, w, 0, 0, 0, id);
  g_vars[id].e = e;
  g_varByName[name] = e;
  return e;
}

static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

u128 foldOp(Kind k, unsigned w, unsigned wa, u128 a, u128 b) {
  u128 m = maskw(w);
  switch (k) {
    case K_Add: return (a + b) & m;
    case K_Sub: return (a - b) & m;
    case K_Mul: return (a * b) & m;
    case K_UDiv: return b == 0 ? m : (a / b) & m;
    case K_URem: return b == 0 ? a : (a % b) & m;
    case K_SDiv: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return (x >= 0 ? m : 1) & m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
    case K_SRem: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_And: return a & b;
    case K_Or: return a | b;
    case K_Xor: return a ^ b;
    case K_Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LShr: return b >= w ? 0 : (a >> (unsigned)b) & m;
    case K_AShr: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case K_Eq: return a == b;
    case K_Ult: return a < b;
    case K_Ule: return a <= b;
    case K_Slt: return sextw(a, wa) < sextw(b, wa);
    case K_Sle: return sextw(a, wa) <= sextw(b, wa);
    case K_FAdd: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case K_FSub: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case K_FMul: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case K_FDiv: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case K_FOeq: return wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case K_FOlt: return wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case K_FOle: return wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case K_FUno: return wa == 64 ? (isnan(asD(a)) || isnan(asD(b))) : (isnan(asF(a)) || isnan(asF(b)));
    case K_SIToFP: return w == 64 ? fromD((double)(int64_t)sextw(a, wa)) : fromF((float)(int64_t)sextw(a, wa));
    case K_UIToFP: return w == 64 ? fromD((double)(uint64_t)a) : fromF((float)(uint64_t)a);
    case K_FPToSI: { double d = wa == 64 ? asD(a) : asF(a); if (!(d > -9.3e18 && d < 9.3e18)) return 0; return (u128)(i128)(int64_t)d & m; }
    case K_FPToUI: { double d = wa == 64 ? asD(a) : asF(a); if (!(d > -1 && d < 1.9e19)) return 0; return (u128)(uint64_t)d & m; }
    case K_FPExt: return fromD((double)asF(a));
    case K_FPTrunc: return fromF((float)asD(a));
    default: abort();
  }
}

static bool isCmp(Kind k) { return k >= K_Eq && k <= K_Sle; }
static bool isNotE(Expr* e) { return e->k == K_Xor && e->w == 1 && e->b->isConst() && e->b->v == 1; }

Expr* mkNot(Expr* a) {
  if (a->isConst()) return mkConst(1, !a->v);
  if (isNotE(a)) return a->a;
  if (a->k == K_Ult) return mkBin(K_Ule, a->b, a->a);
  if (a->k == K_Ule) return mkBin(K_Ult, a->b, a->a);
  if (a->k == K_Slt) return mkBin(K_Sle, a->b, a->a);
  if (a->k == K_Sle) return mkBin(K_Slt, a->b, a->a);
  return intern(K_Xor, 1, a, mkConst(1, 1), 0, 0);
}

// unsigned upper bound, used to narrow arithmetic
static u128 ub0(Expr* e, int d);
static u128 ub(Expr* e, int d = 6) { u128 r = ub0(e, d); return r < e->hi ? r : e->hi; }
static u128 ub0(Expr* e, int d) {
  switch (e->k) {
    case K_Const: return e->v;
    case K_ZExt: return d ? ub(e->a, d - 1) : maskw(e->a->w);
    case K_Ite: if (d) { u128 x = ub(e->b, d - 1), y = ub(e->c, d - 1); return x > y ? x : y; } break;
    case K_Add: if (d) { u128 x = ub(e->a, d - 1), y = ub(e->b, d - 1); u128 m = maskw(e->w); if (x <= m - y) return x + y; } break;
    case K_Mul: if (d && e->w <= 64) { u128 x = ub(e->a, d - 1), y = ub(e->b, d - 1); if (x * y <= maskw(e->w)) return x * y; } break;
    case K_Concat: if (d && e->w <= 64) return ub(e->a, d - 1) << e->b->w | maskw(e->b->w); break;
    case K_And: if (e->b->isConst()) return e->b->v; break;
    case K_URem: if (e->b->isConst() && e->b->v) return e->b->v - 1; break;
    default: break;
  }
  return maskw(e->w);
}
static unsigned bitsFor(u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n ? n : 1; }

Expr* mkBin(Kind k, Expr* a, Expr* b) {
  unsigned w = isCmp(k) ? 1 : a->w, wa = a->w;
  if (a->isConst() && b->isConst()) return mkConst(w, foldOp(k, w, wa, a->v, b->v));
  bool comm = k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  bool bc = b->isConst();
  u128 m = maskw(wa);
  if (wa <= 64) {
    switch (k) {
      case K_Ult: if (a->hi < b->lo) return mkTrue(); if (a->lo >= b->hi) return mkFalse(); break;
      case K_Ule: if (a->hi <= b->lo) return mkTrue(); if (a->lo > b->hi) return mkFalse(); break;
      case K_Eq: if (a->hi < b->lo || b->hi < a->lo) return mkFalse(); break;
      case K_Slt: case K_Sle: {
        u128 s = (u128)1 << (wa - 1);
        int sa = a->hi < s ? 0 : a->lo >= s ? 1 : 2, sb = b->hi < s ? 0 : b->lo >= s ? 1 : 2;
        if (sa == 1 && sb == 0) return mkTrue();
        if (sa == 0 && sb == 1) return mkFalse();
        if (sa == sb && sa < 2) return mkBin(k == K_Slt ? K_Ult : K_Ule, a, b);
        break;
      }
      case K_URem: if (bc && b->v && a->lo / b->v == a->hi / b->v) return mkBin(K_Sub, a, mkConst(w, a->lo / b->v * b->v)); break;
      default: break;
    }
    if (!isCmp(k)) { u128 l, h; rangeOf(k, w, a, b, 0, 0, l, h); if (l == h) return mkConst(w, l); }
  }
  switch (k) {
    case K_Add:
      if (bc && b->v == 0) return a;
      if (bc && a->k == K_Add && a->b->isConst()) return mkBin(K_Add, a->a, mkConst(w, a->b->v + b->v));
      if (bc && a->k == K_Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkConst(w, a->b->v + b->v), mkConst(w, a->c->v + b->v));
      if (!bc && a->k == K_Add && a->b->isConst()) return mkBin(K_Add, mkBin(K_Add, a->a, b), a->b);
      if (!bc && b->k == K_Add && b->b->isConst()) return mkBin(K_Add, mkBin(K_Add, a, b->a), b->b);
      if (!bc && w <= 64 && w >= 32) { u128 u = ub(a) + ub(b); unsigned n = bitsFor(u); if (u <= m && n <= w / 2) return mkZExt(intern(K_Add, n, mkExtract(a, 0, n), mkExtract(b, 0, n), 0, 0), w); }
      break;
    case K_Sub:
      if (a == b) return mkConst(w, 0);
      if (bc) return mkBin(K_Add, a, mkConst(w, 0 - b->v));
      if (a->k == K_Add && a->a == b) return a->b;
      if (a->k == K_Add && a->b == b) return a->a;
      if (a->k == K_Add && b->k == K_Add && a->a == b->a) return mkBin(K_Sub, a->b, b->b);
      if (a->k == K_Add && a->b->isConst()) return mkBin(K_Add, mkBin(K_Sub, a->a, b), a->b);
      break;
    case K_Mul:
      if (bc && b->v == 0) return b;
      if (bc && b->v == 1) return a;
      if (bc && a->k == K_Add && a->b->isConst()) return mkBin(K_Add, mkBin(K_Mul, a->a, b), mkConst(w, a->b->v * b->v));
      if (bc && w <= 64 && (b->v & (b->v - 1)) != 0) { u128 u = ub(a) * b->v; unsigned n = bitsFor(u); if (u <= m && n <= w / 2 && n + 4 < w) return mkZExt(intern(K_Mul, n, mkExtract(a, 0, n), mkConst(n, b->v), 0, 0), w); }
      if (bc && (b->v & (b->v - 1)) == 0) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return mkBin(K_Shl, a, mkConst(w, s)); }
      break;
    case K_UDiv:
      if (bc && b->v == 1) return a;
      if (bc && b->v && (b->v & (b->v - 1)) == 0) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return mkBin(K_LShr, a, mkConst(w, s)); }
      if (bc && a->k == K_ZExt && a->a->w >= 8) { if (b->v > maskw(a->a->w)) return mkConst(w, 0); return mkZExt(mkBin(K_UDiv, a->a, mkConst(a->a->w, b->v)), w); }
      break;
    case K_URem:
      if (bc && b->v == 1) return mkConst(w, 0);
      if (bc && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K_And, a, mkConst(w, b->v - 1));
      if (bc && a->k == K_ZExt && a->a->w >= 8) { if (b->v > maskw(a->a->w)) return a; return mkZExt(mkBin(K_URem, a->a, mkConst(a->a->w, b->v)), w); }
      break;
    case K_And:
      if (a == b) return a;
      if (bc && b->v == 0) return b;
      if (bc && b->v == m) return a;
      if (bc && a->k == K_And && a->b->isConst()) return mkBin(K_And, a->a, mkConst(w, a->b->v & b->v));
      if (w == 1) { if (isNotE(a) && a->a == b) return mkFalse(); if (isNotE(b) && b->a == a) return mkFalse(); }
      if (bc && a->k == K_ZExt) return mkZExt(mkBin(K_And, a->a, mkConst(a->a->w, b->v)), w);
      if (bc && w > 1) {  // contiguous low mask -> zext(extract)
        u128 x = b->v; if ((x & (x + 1)) == 0) { unsigned n = 0; while ((x >> n) & 1) n++; return mkZExt(mkExtract(a, 0, n), w); }
      }
      break;
    case K_Or:
      if (a == b) return a;
      if (bc && b->v == 0) return a;
      if (bc && b->v == m) return b;
      if (w == 1) { if (isNotE(a) && a->a == b) return mkTrue(); if (isNotE(b) && b->a == a) return mkTrue(); }
      for (int s = 0; s < 2; s++) {
        Expr *x = s ? b : a, *y = s ? a : b;
        if (x->k == K_Concat && x->b->isConst() && x->b->v == 0) {
          unsigned n = x->b->w;
          if (y->k == K_ZExt && y->a->w <= n) return mkConcat(x->a, mkZExt(y->a, n));
          if (y->isConst() && (y->v >> n) == 0) return mkConcat(x->a, mkConst(n, y->v));
          if (y->k == K_Concat && y->a->isConst() && y->a->v == 0 && y->b->w <= n) return mkConcat(x->a, mkZExt(y->b, n));
        }
      }
      break;
    case K_Xor:
      if (a == b) return mkConst(w, 0);
      if (bc && b->v == 0) return a;
      if (w == 1 && bc && b->v == 1) return mkNot(a);
      if (bc && a->k == K_Xor && a->b->isConst()) return mkBin(K_Xor, a->a, mkConst(w, a->b->v ^ b->v));
      break;
    case K_Shl:
      if (bc) { if (b->v == 0) return a; if (b->v >= w) return mkConst(w, 0); unsigned s = (unsigned)b->v; return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0)); }
      break;
    case K_LShr:
      if (bc) { if (b->v == 0) return a; if (b->v >= w) return mkConst(w, 0); unsigned s = (unsigned)b->v; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case K_AShr:
      if (bc) { if (b->v == 0) return a; unsigned s = b->v >= w ? w - 1 : (unsigned)b->v; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case K_Eq:
      if (a == b) return mkTrue();
      if (wa == 1) { if (bc) return b->v ? a : mkNot(a); }
      if (bc) {
        u128 v = b->v;
        if (a->k == K_ZExt) { if (v >> a->a->w) return mkFalse(); return mkEq(a->a, mkConst(a->a->w, v)); }
        if (a->k == K_SExt) { u128 lo = v & maskw(a->a->w); if (((u128)sextw(lo, a->a->w) & m) != v) return mkFalse(); return mkEq(a->a, mkConst(a->a->w, lo)); }
        if (a->k == K_Concat) return mkAnd(mkEq(a->b, mkConst(a->b->w, v)), mkEq(a->a, mkConst(a->a->w, v >> a->b->w)));
        if (a->k == K_Add && a->b->isConst()) return mkEq(a->a, mkConst(wa, v - a->b->v));
        if (a->k == K_Xor && a->b->isConst()) return mkEq(a->a, mkConst(wa, v ^ a->b->v));
        if (a->k == K_Ite) {
          Expr *t = a->b, *f = a->c;
          if (t->isConst() || f->isConst()) {
            Expr* et = mkEq(t, b); Expr* ef = mkEq(f, b);
            return mkIte(a->a, et, ef);
          }
        }
      } else {
        if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == K_Add && b->k == K_Add && a->b == b->b) return mkEq(a->a, b->a);
        if (a->k == K_Concat && b->k == K_Concat && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
      }
      break;
    case K_Ult:
      if (a == b) return mkFalse();
      if (bc && b->v == 0) return mkFalse();
      if (bc && b->v == 1) return mkEq(a, mkConst(wa, 0));
      if (a->isConst() && a->v == m) return mkFalse();
      if (a->isConst() && a->v == 0) return mkNot(mkEq(b, a));
      if (bc && a->k == K_ZExt) { if (b->v > maskw(a->a->w)) return mkTrue(); return mkBin(K_Ult, a->a, mkConst(a->a->w, b->v)); }
      if (a->isConst() && b->k == K_ZExt) { if (a->v >= maskw(b->a->w)) return mkFalse(); return mkBin(K_Ult, mkConst(b->a->w, a->v), b->a); }
      if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkBin(K_Ult, a->a, b->a);
      if (bc && a->k == K_Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(K_Ult, a->b, b), mkBin(K_Ult, a->c, b));
      break;
    case K_Ule:
      if (a == b) return mkTrue();
      if (bc && b->v == m) return mkTrue();
      if (bc && b->v == 0) return mkEq(a, b);
      if (a->isConst() && a->v == 0) return mkTrue();
      if (bc) return mkBin(K_Ult, a, mkConst(wa, b->v + 1));
      if (a->isConst()) return mkBin(K_Ult, mkConst(wa, a->v - 1), b);
      if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkBin(K_Ule, a->a, b->a);
      break;
    case K_Slt: case K_Sle: {
      if (a == b) return k == K_Sle ? mkTrue() : mkFalse();
      auto nonneg = [&](Expr* e) { return e->k == K_ZExt || (e->isConst() && !(e->v >> (wa - 1))); };
      if (nonneg(a) && nonneg(b)) return mkBin(k == K_Slt ? K_Ult : K_Ule, a, b);
      if (a->k == K_ZExt && bc) return mkFalse();             // b negative
      if (b->k == K_ZExt && a->isConst()) return mkTrue();    // a negative
      if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
      if (bc && a->k == K_SExt) {
        u128 lo = b->v & maskw(a->a->w);
        if (((u128)sextw(lo, a->a->w) & m) == b->v) return mkBin(k, a->a, mkConst(a->a->w, lo));
        return (b->v >> (wa - 1)) ? mkFalse() : mkTrue();
      }
      if (bc && a->k == K_Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      break;
    }
    default: break;
  }
  return intern(k, w, a, b, 0, 0);
}

Expr* mkIte(Expr* c, Expr* t, Expr* f) {
  if (c->isConst()) return c->v ? t : f;
  if (t == f) return t;
  if (isNotE(c)) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (t->isConst() && f->isConst()) return t->v ? c : mkNot(c);
    if (t->isConst()) return t->v ? mkOr(c, f) : mkAnd(mkNot(c), f);
    if (f->isConst()) return f->v ? mkOr(mkNot(c), t) : mkAnd(c, t);
  }
  if (t->k == K_Ite && t->a == c) t = t->b;
  if (f->k == K_Ite && f->a == c) f = f->c;
  if (t == f) return t;
  return intern(K_Ite, t->w, c, t, f, 0);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst(w, hi->v << lo->w | lo->v);
  if (hi->isConst() && hi->v == 0) return mkZExt(lo, w);
  if (hi->k == K_ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && (unsigned)hi->v == (unsigned)lo->v + lo->w)
    return mkExtract(hi->a, (unsigned)lo->v, w);
  if (hi->k == K_Extract && hi->a->k == K_SExt && hi->a->a == lo && (unsigned)hi->v == lo->w) return mkExtract(hi->a, 0, w);
  // (x : (y : z)) where x,y adjacent extracts
  if (lo->k == K_Concat && hi->k == K_Extract && lo->a->k == K_Extract && hi->a == lo->a->a &&
      (unsigned)hi->v == (unsigned)lo->a->v + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->v, hi->w + lo->a->w), lo->b);
  return intern(K_Concat, w, hi, lo, 0, 0);
}

Expr* mkExtract(Expr* a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (a->isConst()) return mkConst(w, a->v >> off);
  if (a->w <= 64) { u128 l, h; rangeOf(K_Extract, w, a, 0, 0, off, l, h); if (l == h) return mkConst(w, l); }
  switch (a->k) {
    case K_Extract: return mkExtract(a->a, (unsigned)a->v + off, w);
    case K_Concat: {
      unsigned lw = a->b->w;
      if (off + w <= lw) return mkExtract(a->b, off, w);
      if (off >= lw) return mkExtract(a->a, off - lw, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    case K_ZExt: {
      unsigned lw = a->a->w;
      if (off >= lw) return mkConst(w, 0);
      if (off + w <= lw) return mkExtract(a->a, off, w);
      return mkZExt(mkExtract(a->a, off, lw - off), w);
    }
    case K_SExt: {
      unsigned lw = a->a->w;
      if (off + w <= lw) return mkExtract(a->a, off, w);
      if (off == 0) return mkSExt(a->a, w);
      break;
    }
    case K_And: case K_Or: case K_Xor:
      return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case K_Add: case K_Sub: case K_Mul:
      if (off == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case K_Ite:
      if (a->b->isConst() || a->c->isConst()) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
      break;
    default: break;
  }
  return intern(K_Extract, w, a, 0, 0, off);
}

Expr* mkZExt(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (a->isConst()) return mkConst(w, a->v);
  if (a->k == K_ZExt) return mkZExt(a->a, w);
  if (a->k == K_Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return intern(K_ZExt, w, a, 0, 0, 0);
}
Expr* mkSExt(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (a->isConst()) return mkConst(w, (u128)sextw(a->v, a->w));
  if (a->k == K_ZExt) return mkZExt(a->a, w);
  if (a->k == K_SExt) return mkSExt(a->a, w);
  if (a->k == K_Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(K_SExt, w, a, 0, 0, 0);
}
Expr* mkFCmp(Kind k, Expr* a, Expr* b) {
  if (a->isConst() && b->isConst()) return mkConst(1, foldOp(k, 1, a->w, a->v, b->v));
  return intern(k, 1, a, b, 0, 0);
}
Expr* mkFOp(Kind k, Expr* a, Expr* b, unsigned w) {
  if (a->isConst() && (!b || b->isConst())) return mkConst(w, foldOp(k, w, a->w, a->v, b ? b->v : 0));
  return intern(k, w, a, b, 0, 0);
}

u128 evalExpr(Expr* e, const Model& m, std::unordered_map<Expr*, u128>& memo) {
  if (e->k == K_Const) return e->v;
  if (e->k == K_Var) return m.get((uint32_t)e->v) & maskw(e->w);
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  u128 r;
  switch (e->k) {
    case K_Ite: r = evalExpr(e->a, m, memo) ? evalExpr(e->b, m, memo) : evalExpr(e->c, m, memo); break;
    case K_Concat: r = evalExpr(e->a, m, memo) << e->b->w | evalExpr(e->b, m, memo); break;
    case K_Extract: r = (evalExpr(e->a, m, memo) >> (unsigned)e->v) & maskw(e->w); break;
    case K_ZExt: r = evalExpr(e->a, m, memo); break;
    case K_SExt: r = (u128)sextw(evalExpr(e->a, m, memo), e->a->w) & maskw(e->w); break;
    default: r = foldOp(e->k, e->w, e->a->w, evalExpr(e->a, m, memo), e->b ? evalExpr(e->b, m, memo) : 0);
  }
  memo[e] = r;
  return r;
}

Expr* substEq(Expr* e, const std::unordered_map<Expr*, Expr*>& eqs, std::unordered_map<Expr*, Expr*>& memo) {
  if (e->k == K_Const) return e;
  auto f = eqs.find(e);
  if (f != eqs.end()) return f->second;
  if (e->k == K_Var) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr* a = e->a ? substEq(e->a, eqs, memo) : 0;
  Expr* b = e->b ? substEq(e->b, eqs, memo) : 0;
  Expr* c = e->c ? substEq(e->c, eqs, memo) : 0;
  Expr* r = e;
  if (a != e->a || b != e->b || c != e->c) {
    switch (e->k) {
      case K_Ite: r = mkIte(a, b, c); break;
      case K_Concat: r = mkConcat(a, b); break;
      case K_Extract: r = mkExtract(a, (unsigned)e->v, e->w); break;
      case K_ZExt: r = mkZExt(a, e->w); break;
      case K_SExt: r = mkSExt(a, e->w); break;
      case K_FOeq: case K_FOlt: case K_FOle: case K_FUno: r = mkFCmp(e->k, a, b); break;
      default:
        if (e->k >= K_FAdd) r = mkFOp(e->k, a, b, e->w);
        else r = mkBin(e->k, a, b);
    }
  }
  memo[e] = r;
  return r;
}

std::string exprStr(Expr* e, int d) {
  static const char* n[] = {"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","cat","ext","zx","sx","f+","f-","f*","f/","f==","f<","f<=","funo","si2f","ui2f","f2si","f2ui","fext","ftr"};
  if (e->k == K_Const) { char b[64]; if (e->v >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(e->v >> 64), (unsigned long long)e->v); else snprintf(b, 64, "%llu", (unsigned long long)e->v); return b; }
  if (e->k == K_Var) return g_vars[(uint32_t)e->v].name;
  if (d == 0) return "...";
  std::string s = "(";
  s += n[e->k];
  if (e->k == K_Extract) s += "@" + std::to_string((unsigned)e->v) + ":" + std::to_string(e->w);
  for (Expr* x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}
