#pragma once
#include "expr.hpp"
#include <string>
#include <vector>
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats {
  long queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, fallback = 0;
  double seconds = 0, maxq = 0;
  std::map<std::string, long> decidedBy;
};
extern SolverStats sstats;
extern std::string dumpDir;
extern int quickMs, slowMs;
// decide conj; on SAT and model != null fill model values (rationals, algebraic numbers approximated)
Res check(const std::vector<E> &conj, std::unordered_map<E, mpq_class> *model, int timeoutMs, bool portfolio);
