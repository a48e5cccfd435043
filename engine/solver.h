#pragma once
#include "expr.h"
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
typedef std::vector<std::pair<uint32_t, uint64_t>> PModel;
struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, badModels = 0, dumped = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats SS;
extern unsigned g_solverTimeoutMs;
extern const char *g_dumpDir;      // dump some queries as SMT-LIB for cross checking
extern unsigned g_dumpMax;
// is (and slice.. q) satisfiable; on SAT fills the values of the variables involved
Res solveQuery(std::vector<Expr *> slice, Expr *q, PModel &out);
