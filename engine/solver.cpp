#include "solver.h"
#include <z3.h>
#include <chrono>
#include <fstream>

SolverStats g_ss;
unsigned g_solverTimeoutMs = 60000;
static Z3_context ctx;
static Z3_solver slv; static Z3_params heavyParams;
static std::vector<Z3_ast> g_ast;   // by expr id
static std::string g_dumpDir; static int g_dumpEvery = 0;
void solverDump(const std::string& d, int e) { g_dumpDir = d; g_dumpEvery = e; }

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  slv = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 60000);
  Z3_solver_set_params(ctx, slv, p);
  heavyParams = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, heavyParams);
  Z3_params_set_uint(ctx, heavyParams, Z3_mk_string_symbol(ctx, "timeout"), g_solverTimeoutMs);
}

static Z3_ast bv1(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int(ctx, 0, Z3_mk_bv_sort(ctx, 1))); }
static Z3_sort fpSort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); }
static Z3_ast toFp(Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, a, fpSort(w)); }

static Z3_ast tr(Expr* e) {
  if (e->id < g_ast.size() && g_ast[e->id]) return g_ast[e->id];
  Z3_ast a = e->a ? tr(e->a) : 0, b = e->b ? tr(e->b) : 0, c = e->c ? tr(e->c) : 0, r = 0;
  auto isNeg1 = [&] { return Z3_mk_eq(ctx, a, Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1))); };
  switch (e->k) {
    case K_Const: {
      char buf[64]; u128 v = e->v; int n = 63; buf[n] = 0;
      if (!v) buf[--n] = '0';
      while (v) { buf[--n] = '0' + (int)(v % 10); v /= 10; }
      r = Z3_mk_numeral(ctx, buf + n, Z3_mk_bv_sort(ctx, e->w));
      break;
    }
    case K_Var: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->v), Z3_mk_bv_sort(ctx, e->w)); break;
    case K_Add: r = Z3_mk_bvadd(ctx, a, b); break;
    case K_Sub: r = Z3_mk_bvsub(ctx, a, b); break;
    case K_Mul: r = Z3_mk_bvmul(ctx, a, b); break;
    case K_UDiv: r = Z3_mk_bvudiv(ctx, a, b); break;
    case K_SDiv: r = Z3_mk_bvsdiv(ctx, a, b); break;
    case K_URem: r = Z3_mk_bvurem(ctx, a, b); break;
    case K_SRem: r = Z3_mk_bvsrem(ctx, a, b); break;
    case K_And: r = Z3_mk_bvand(ctx, a, b); break;
    case K_Or: r = Z3_mk_bvor(ctx, a, b); break;
    case K_Xor: r = Z3_mk_bvxor(ctx, a, b); break;
    case K_Shl: r = Z3_mk_bvshl(ctx, a, b); break;
    case K_LShr: r = Z3_mk_bvlshr(ctx, a, b); break;
    case K_AShr: r = Z3_mk_bvashr(ctx, a, b); break;
    case K_Eq: r = bv1(Z3_mk_eq(ctx, a, b)); break;
    case K_Ult: r = bv1(Z3_mk_bvult(ctx, a, b)); break;
    case K_Ule: r = bv1(Z3_mk_bvule(ctx, a, b)); break;
    case K_Slt: r = bv1(Z3_mk_bvslt(ctx, a, b)); break;
    case K_Sle: r = bv1(Z3_mk_bvsle(ctx, a, b)); break;
    case K_Ite: r = Z3_mk_ite(ctx, isNeg1(), b, c); break;
    case K_Concat: r = Z3_mk_concat(ctx, a, b); break;
    case K_Extract: r = Z3_mk_extract(ctx, (unsigned)e->v + e->w - 1, (unsigned)e->v, a); break;
    case K_ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, a); break;
    case K_SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, a); break;
    default: {
      Z3_ast rm = Z3_mk_fpa_rne(ctx), rz = Z3_mk_fpa_rtz(ctx);
      unsigned wa = e->a->w;
      auto bits = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); };
      switch (e->k) {
        case K_FAdd: r = bits(Z3_mk_fpa_add(ctx, rm, toFp(a, wa), toFp(b, wa))); break;
        case K_FSub: r = bits(Z3_mk_fpa_sub(ctx, rm, toFp(a, wa), toFp(b, wa))); break;
        case K_FMul: r = bits(Z3_mk_fpa_mul(ctx, rm, toFp(a, wa), toFp(b, wa))); break;
        case K_FDiv: r = bits(Z3_mk_fpa_div(ctx, rm, toFp(a, wa), toFp(b, wa))); break;
        case K_FOeq: r = bv1(Z3_mk_fpa_eq(ctx, toFp(a, wa), toFp(b, wa))); break;
        case K_FOlt: r = bv1(Z3_mk_fpa_lt(ctx, toFp(a, wa), toFp(b, wa))); break;
        case K_FOle: r = bv1(Z3_mk_fpa_leq(ctx, toFp(a, wa), toFp(b, wa))); break;
        case K_FUno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, toFp(a, wa)), Z3_mk_fpa_is_nan(ctx, toFp(b, wa))}; r = bv1(Z3_mk_or(ctx, 2, x)); break; }
        case K_SIToFP: r = bits(Z3_mk_fpa_to_fp_signed(ctx, rm, a, fpSort(e->w))); break;
        case K_UIToFP: r = bits(Z3_mk_fpa_to_fp_unsigned(ctx, rm, a, fpSort(e->w))); break;
        case K_FPToSI: r = Z3_mk_fpa_to_sbv(ctx, rz, toFp(a, wa), e->w); break;
        case K_FPToUI: r = Z3_mk_fpa_to_ubv(ctx, rz, toFp(a, wa), e->w); break;
        case K_FPExt: case K_FPTrunc: r = bits(Z3_mk_fpa_to_fp_float(ctx, rm, toFp(a, wa), fpSort(e->w))); break;
        default: abort();
      }
    }
  }
  if (e->id >= g_ast.size()) g_ast.resize(e->id * 3 / 2 + 64);
  g_ast[e->id] = r;   // asts of a non-rc context live until the context dies
  return r;
}

// ---- fast evaluation / substitution with epoch-marked memo tables ----
static std::vector<u128> ev_val; static std::vector<uint32_t> ev_ep; static uint32_t ev_cur = 0;
static u128 ev(Expr* e, const Model& m) {
  if (e->k == K_Const) return e->v;
  if (e->k == K_Var) return m.get((uint32_t)e->v) & maskw(e->w);
  if (e->id < ev_ep.size() && ev_ep[e->id] == ev_cur) return ev_val[e->id];
  u128 r;
  switch (e->k) {
    case K_Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case K_Concat: r = ev(e->a, m) << e->b->w | ev(e->b, m); break;
    case K_Extract: r = (ev(e->a, m) >> (unsigned)e->v) & maskw(e->w); break;
    case K_ZExt: r = ev(e->a, m); break;
    case K_SExt: r = (u128)sextw(ev(e->a, m), e->a->w) & maskw(e->w); break;
    default: r = foldOp(e->k, e->w, e->a->w, ev(e->a, m), e->b ? ev(e->b, m) : 0);
  }
  if (e->id >= ev_ep.size()) { ev_ep.resize(e->id * 3 / 2 + 1024); ev_val.resize(ev_ep.size()); }
  ev_ep[e->id] = ev_cur; ev_val[e->id] = r;
  return r;
}
u128 evalFast(Expr* e, const Model& m) { if (e->k == K_Const) return e->v; ev_cur++; return ev(e, m); }

static std::unordered_map<Expr*, Expr*> sb_memo;
Expr* substFast(Expr* e, const std::unordered_map<Expr*, Expr*>& eqs) {
  if (e->k == K_Const || eqs.empty()) return e;
  sb_memo.clear();
  return substEq(e, eqs, sb_memo);
}

// ---- queries ----
struct CacheEnt { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct Key { uint64_t a, b; bool operator==(const Key& o) const { return a == o.a && b == o.b; } };
struct KeyH { size_t operator()(const Key& k) const { return k.a; } };
static std::unordered_map<Key, CacheEnt, KeyH> g_cache;

static std::vector<Expr*> slice(const std::vector<Expr*>& cs, Expr* cond) {
  static std::vector<uint32_t> mark; static uint32_t ep = 0;
  ep++;
  if (mark.size() < g_vars.size()) mark.resize(g_vars.size() * 2 + 16);
  for (uint32_t v : cond->vars->v) mark[v] = ep;
  std::vector<Expr*> out;
  std::vector<char> in(cs.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cs.size(); i++) {
      if (in[i]) continue;
      auto& vs = cs[i]->vars->v;
      bool hit = false;
      for (uint32_t v : vs) if (mark[v] == ep) { hit = true; break; }
      if (!hit) continue;
      in[i] = 1; out.push_back(cs[i]);
      for (uint32_t v : vs) if (mark[v] != ep) { mark[v] = ep; ch = true; }
    }
  }
  return out;
}

std::string querySmt2(const std::vector<Expr*>& cs0, Expr* cond) {
  init();
  auto cs = slice(cs0, cond);
  cs.push_back(cond);
  Z3_solver s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
  for (auto* c : cs) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(c), Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1))));
  std::string r = Z3_solver_to_string(ctx, s);
  Z3_solver_dec_ref(ctx, s);
  return r + "(check-sat)\n";
}

int solverCheck(const std::vector<Expr*>& cs0, Expr* cond, const ModelP& m, ModelP* out) {
  if (cond->isConst()) { if (cond->v) { if (out) *out = m; return 1; } return 0; }
  if (m && evalFast(cond, *m)) { g_ss.fast++; if (out) *out = m; return 1; }
  auto cs = slice(cs0, cond);
  std::vector<uint32_t> ids; ids.reserve(cs.size());
  for (auto* c : cs) ids.push_back(c->id);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  Key key{1469598103934665603ull, 0x9E3779B97F4A7C15ull};
  auto mix = [&](uint64_t x) { key.a = (key.a ^ x) * 1099511628211ull; key.a ^= key.a >> 31; key.b = (key.b + x) * 0xff51afd7ed558ccdull; key.b ^= key.b >> 33; };
  for (auto i : ids) mix(i + 1);
  mix(0xABCDEF0123ull + cond->id);
  auto it = g_cache.find(key);
  if (it == g_cache.end()) {
    init();
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_push(ctx, slv);
    Z3_ast one = Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1));
    for (auto* c : cs) Z3_solver_assert(ctx, slv, Z3_mk_eq(ctx, tr(c), one));
    Z3_solver_assert(ctx, slv, Z3_mk_eq(ctx, tr(cond), one));
    Z3_lbool r = Z3_solver_check(ctx, slv);
    Z3_solver used = slv;
    if (r == Z3_L_UNDEF) {  // beyond the incremental solver's budget: dedicated bit-vector solver
      g_ss.heavy++;
      Z3_solver h = Z3_mk_solver(ctx);
      Z3_solver_inc_ref(ctx, h);
      Z3_solver_set_params(ctx, h, heavyParams);
      for (auto* c : cs) Z3_solver_assert(ctx, h, Z3_mk_eq(ctx, tr(c), one));
      Z3_solver_assert(ctx, h, Z3_mk_eq(ctx, tr(cond), one));
      r = Z3_solver_check(ctx, h);
      used = h;
    }
    g_ss.queries++;
    CacheEnt ce; ce.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (ce.r == 1) {
      g_ss.sat++;
      Z3_model zm = Z3_solver_get_model(ctx, used);
      Z3_model_inc_ref(ctx, zm);
      std::unordered_set<uint32_t> vs(cond->vars->v.begin(), cond->vars->v.end());
      for (auto* c : cs) vs.insert(c->vars->v.begin(), c->vars->v.end());
      for (uint32_t v : vs) {
        Z3_ast cst = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), Z3_mk_bv_sort(ctx, g_vars[v].w)), val;
        uint64_t x = 0;
        if (Z3_model_eval(ctx, zm, cst, true, &val)) Z3_get_numeral_uint64(ctx, val, &x);
        ce.m.push_back({v, x});
      }
      Z3_model_dec_ref(ctx, zm);
    } else if (ce.r == 0) g_ss.unsat++; else g_ss.unknown++;
    Z3_solver_pop(ctx, slv, 1);
    if (used != slv) Z3_solver_dec_ref(ctx, used);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
    if (g_dumpEvery && g_ss.queries % g_dumpEvery == 0) {
      std::ofstream f(g_dumpDir + "/q" + std::to_string(g_ss.queries) + ".smt2");
      f << "; expected " << (ce.r == 1 ? "sat" : ce.r == 0 ? "unsat" : "unknown") << "\n" << querySmt2(cs0, cond);
    }
    it = g_cache.emplace(key, std::move(ce)).first;
  } else g_ss.cacheHits++;
  if (it->second.r == 1 && out) {
    auto nm = m ? std::make_shared<Model>(*m) : std::make_shared<Model>();
    for (auto& p : it->second.m) nm->val[p.first] = p.second;
    *out = nm;
  }
  return it->second.r;
}

int solverDiffer(const std::vector<Expr*>& cs0, const std::vector<std::pair<Expr*, Expr*>>& p, const ModelP& m, ModelP* out) {
  init();
  // differences the rewriter cannot close go through the ordinary (cached, sliced) path
  Expr* d = mkFalse(); std::vector<std::pair<Expr*, Expr*>> triv;
  for (auto& q : p) { Expr* n = mkNot(mkEq(q.first, q.second)); if (n->isConst() && !n->v) triv.push_back(q); else d = mkOr(d, n); }
  if (!triv.empty()) {
    static std::unordered_map<uint64_t, int> seen;
    uint64_t key = 1469598103934665603ull; for (auto& q : triv) key = (key ^ (((uint64_t)q.first->id << 32) | q.second->id)) * 1099511628211ull;
    auto it = seen.find(key);
    if (it == seen.end()) {
      auto t0 = std::chrono::steady_clock::now();
      Z3_solver_push(ctx, slv);
      std::vector<Z3_ast> ne; for (auto& q : triv) ne.push_back(Z3_mk_not(ctx, Z3_mk_eq(ctx, tr(q.first), tr(q.second))));
      Z3_solver_assert(ctx, slv, Z3_mk_or(ctx, ne.size(), ne.data()));
      Z3_lbool r = Z3_solver_check(ctx, slv);
      Z3_solver_pop(ctx, slv, 1);
      g_ss.queries++; if (r == Z3_L_FALSE) g_ss.unsat++; else g_ss.unknown++;
      g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      seen[key] = r == Z3_L_FALSE ? 0 : -1; it = seen.find(key);
    } else g_ss.cacheHits++;
    if (it->second != 0) return -1;
  }
  return solverCheck(cs0, d, m, out);
}
