// Z3 back end: satisfiability of path-constraint slices.
#pragma once
#include "expr.h"
#include <unordered_map>

enum class Sat { Unsat, Sat, Unknown };

struct SolverStats { uint64_t queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0; double seconds = 0, maxSeconds = 0; };

// Path condition with a var -> constraints index, so that a query only sees the constraints it depends on.
struct PathCond {
  std::vector<E> cs;
  std::unordered_map<uint32_t, std::vector<uint32_t>> byVar;
  std::unordered_map<E, bool> known; // atoms with a known truth value
  void clear() { cs.clear(); byVar.clear(); known.clear(); }
  void add(E c);
  int lookup(E c) const { // -1 unknown, 0/1
    auto it = known.find(c);
    return it == known.end() ? -1 : it->second;
  }
};

struct Solver {
  SolverStats st;
  unsigned timeoutMs = 20000;
  bool dumpUnknown = false;
  // is pc && cond satisfiable?  On Sat, `out` = `base` overwritten with values for the slice's variables.
  Sat check(const PathCond& pc, E cond, const Model& base, Model& out);
  void init();
};
