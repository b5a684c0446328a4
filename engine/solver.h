#pragma once
#include "expr.h"
#include <unordered_map>
enum Res { R_UNSAT, R_SAT, R_UNK };
typedef std::vector<std::pair<u32, u128>> ModelDelta;   // var id -> value
struct SolverStats { u64 queries, sat, unsat, unk, ns, cache, fp, fast; };
extern SolverStats g_ss;
extern double g_query_timeout;     // seconds
void solver_init();
// decide conjunction cs (all 1-bit expressions); on SAT fills values of every variable occurring
Res solver_check(const std::vector<Expr *> &cs, ModelDelta &out);
// quick decisions before the solver: -1 unsatisfiable, 1 satisfiable (model given), 0 not decided
int fast_check(const std::vector<Expr *> &cs, ModelDelta &out);
// value-set helpers
bool expr_has_fp(Expr *e);
std::string to_smt2(const std::vector<Expr *> &cs);
