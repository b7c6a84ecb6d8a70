#pragma once
#include "expr.h"
#include <map>
enum SR { R_SAT, R_UNSAT, R_UNKNOWN };
struct SolverStats
{
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cache = 0, by_bv = 0, by_fp = 0, by_arith_unsat = 0, by_arith_sat = 0,
           by_search = 0, by_ext = 0, by_box = 0;
  double time = 0, maxtime = 0;
};
extern SolverStats g_ss;
extern unsigned g_timeout_ms;
extern bool g_verbose;
// Is (conjunction of the constraints relevant to `extra`) && extra satisfiable?  On SAT `out` is `base`
// (a model of all the constraints) updated on the variables of the slice.
SR solveQuery(const std::vector<E>& cs, E extra, const Model& base, Model& out);
