// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <stdint.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  K_Const, K_Var,
  K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
  K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
  K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
  K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt,
  // floating point, operands are IEEE bit patterns (32 or 64 bits)
  K_FAdd, K_FSub, K_FMul, K_FDiv,
  K_FOeq, K_FOlt, K_FOle, K_FUno,
  K_SIToFP, K_UIToFP, K_FPToSI, K_FPToUI, K_FPExt, K_FPTrunc,
};

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
  Kind k; uint16_t w; uint32_t id; uint32_t size;
  Expr *a, *b, *c;
  u128 lo, hi;         // unsigned bounds of the value
  u128 v;              // constant value, extract offset or variable id
  const VarSet* vars;
  uint64_t h;
  bool isConst() const { return k == K_Const; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

struct ExprHash { size_t operator()(const Expr* e) const { return e->h; } };
struct ExprEq { bool operator()(const Expr* x, const Expr* y) const {
  return x->k == y->k && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v; } };

struct VarInfo { std::string name; unsigned w; Expr* e; };
extern std::vector<VarInfo> g_vars;

Expr* mkConst(unsigned w, u128 v);
Expr* mkVar(const std::string& name, unsigned w);
Expr* mkBin(Kind k, Expr* a, Expr* b);
Expr* mkNot(Expr* a);                    // width 1
Expr* mkIte(Expr* c, Expr* t, Expr* f);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkFCmp(Kind k, Expr* a, Expr* b);
Expr* mkFOp(Kind k, Expr* a, Expr* b, unsigned w);
static inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(K_Eq, a, b); }
static inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(K_And, a, b); }
static inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(K_Or, a, b); }
static inline Expr* mkTrue() { return mkConst(1, 1); }
static inline Expr* mkFalse() { return mkConst(1, 0); }
u128 foldOp(Kind k, unsigned w, unsigned wa, u128 a, u128 b);

struct Model {
  std::unordered_map<uint32_t, uint64_t> val;
  uint64_t get(uint32_t id) const { auto it = val.find(id); return it == val.end() ? 0 : it->second; }
};
u128 evalExpr(Expr* e, const Model& m, std::unordered_map<Expr*, u128>& memo);
std::string exprStr(Expr* e, int depth = 4);
Expr* substEq(Expr* e, const std::unordered_map<Expr*, Expr*>& eqs, std::unordered_map<Expr*, Expr*>& memo);
