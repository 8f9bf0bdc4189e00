// SMT back end: translation of expressions to Z3, model cache, slicing, external portfolio.
#pragma once
#include "expr.h"
#include <map>
#include <string>
#include <vector>

namespace sx {
enum class Sat { SAT, UNSAT, UNKNOWN };
struct SolverStats {
  uint64_t calls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, external = 0, simplified = 0;
  uint64_t asserts = 0, assertsTrivial = 0;
  double time = 0, extTime = 0, maxTime = 0;
};
extern SolverStats stats;
extern double feasTimeout, assertTimeout;  // seconds
extern std::string smtDumpDir;
extern int fpMode;  // see solver.cpp
extern std::string scratchDir;

// Is the conjunction of `cs` satisfiable?  On SAT, `model` (if given) holds an assignment of the
// variables of all of `cs`.
Sat checkSat(const std::vector<E> &cs, double timeout, Model *model, bool portfolio);
// feasibility of pc && q with slicing (pc is assumed satisfiable)
Sat feasible(const std::vector<E> &pc, E q, Model *m = nullptr);
// must q hold under pc? UNSAT of pc && !q
Sat checkSliced(const std::vector<E> &pc, E q, double timeout, Model *model, bool portfolio);
std::vector<E> sliceFor(const std::vector<E> &pc, E q);
bool satisfiesCached(const std::vector<E> &pc, E q, Model *m);
void addModel(const Model &m);
std::string toSmt2(const std::vector<E> &cs);
double nowSec();
}  // namespace sx
