// QF_BV decision procedure: bit-blasting onto MiniSat (incremental, per-query cones), with Z3 as an independent cross-check.
#pragma once
#include "expr.h"
#include <map>
#include <unordered_map>
#include <vector>

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cache_hits = 0, cex_hits = 0;
  uint64_t z3_checks = 0, z3_disagree = 0, z3_unknown = 0, z3_fallback = 0;
  double time = 0, z3_time = 0;
};
extern SolverStats g_ss;
extern double g_deadline;     // absolute time (CLOCK_MONOTONIC seconds) at which queries give up, 0 = none
extern double g_query_timeout; // seconds per query
extern unsigned g_z3_every;    // cross-check every n-th query with Z3 (0 = never)

// Decide the conjunction of cs (each of width 1). On SAT, model entries for the variables of cs are written to m.
Res solve(std::vector<Expr *> const &cs, Model &m, bool important = false);
Res z3_solve(std::vector<Expr *> const &cs, Model *m, unsigned timeout_ms);
