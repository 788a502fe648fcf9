#pragma once
#include "expr.h"
struct SolverStats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, external = 0, lia = 0, liaUnsat = 0, liaSat = 0, local = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats g_ss;
enum Res { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
// Decide conjunction `cs`. On SAT, assignments for the variables occurring in cs are written to model.
Res solve(const std::vector<Ex> &cs, std::vector<u64> &model);
void solverInit();
// The same without any fallback when the resource limit is hit.
Res trySolve(const std::vector<Ex> &cs, std::vector<u64> &model);
// Unsatisfiable over the integers with products as unknowns? (R_UNSAT is valid, anything else says nothing)
Res liaUnsat(const std::vector<Ex> &cs);
