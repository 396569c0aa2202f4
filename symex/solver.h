#pragma once
#include "expr.h"
#include <memory>
#include <vector>
#include <cstdint>

struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0;
  double time = 0;
};
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;
extern std::string g_dumpQueries;  // directory: every distinct query as SMT-LIB2 (for a second solver)

// Constraint groups: conjunctions whose variables are disjoint from each other.
struct Group {
  const std::vector<uint32_t> *vars;
  std::vector<Expr *> cs;  // sorted by id
};
// What the path conditions say about single expressions: bounds and truth values.
struct Facts;
struct Path {
  std::shared_ptr<Facts> facts;
  Expr *simp(Expr *e);              // equal to e on this path
  void learn(Expr *c, bool v);      // c has this value on the path (already implied)
  std::vector<std::shared_ptr<const Group>> groups;
  std::shared_ptr<const Model> model;  // satisfies every constraint
  void add(Expr *c);
};
enum SatRes { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
// Is path && cond satisfiable?  On R_SAT, m is a model of both.
SatRes solve(const Path &p, Expr *cond, std::shared_ptr<const Model> &m);
std::string solverVersion();
