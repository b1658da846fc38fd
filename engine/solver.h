// Solver front end: constraint slicing, caching, z3.
#pragma once
#include <memory>
#include "expr.h"

typedef std::shared_ptr<const Model> ModelP;
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, fast = 0, heavy = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;

// Is cs (assumed satisfiable, with model m) /\ cond satisfiable?  1 sat (out set), 0 unsat, -1 unknown.
int solverCheck(const std::vector<Expr*>& cs, Expr* cond, const ModelP& m, ModelP* out);
// Can any of the pairs differ under cs?  The equalities are handed to the solver as they are.
int solverDiffer(const std::vector<Expr*>& cs, const std::vector<std::pair<Expr*, Expr*>>& p, const ModelP& m, ModelP* out);
u128 evalFast(Expr* e, const Model& m);
Expr* substFast(Expr* e, const std::unordered_map<Expr*, Expr*>& eqs);
std::string querySmt2(const std::vector<Expr*>& cs, Expr* cond);
void solverDump(const std::string& dir, int every);
