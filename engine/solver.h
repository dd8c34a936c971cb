// Feasibility queries: exact byte-domain reasoning first, z3 (QF_BV, incremental) for the rest.
#pragma once
#include "expr.h"
#include <z3.h>
#include <map>
#include <memory>

struct PathConds {            // conjunction of path conditions, in order
  std::vector<E> cs;
};
struct SolverStats {uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, domain = 0, model_hits = 0, syntactic = 0; double time = 0;};

class Solver {
public:
  Solver(unsigned timeout_ms);
  // 1 sat, 0 unsat, -1 unknown. On sat fills model (over nvars variables).
  int check(const std::vector<E> & cs, E extra, size_t nvars, const std::vector<uint8_t> & widths, Model * out, unsigned ms = 0);
  SolverStats st;
  Z3_ast toZ3(E e);
  // are x and y equal whatever the terms outside `in` are?
  bool cutEqual(E x, E y, const std::unordered_set<uint32_t> & in, unsigned ms);
private:
  Z3_context ctx;
  Z3_solver s;
  Z3_params params;
  unsigned timeout;
  std::vector<E> pushed;
  std::vector<Z3_ast> cache;
  Z3_ast conv(E e);
  const std::unordered_set<uint32_t> * cut = nullptr;
  std::unordered_map<uint32_t, Z3_ast> cutCache;
  Z3_ast boolOf(E e);
  Z3_sort bv(unsigned w);
  std::map<unsigned, Z3_sort> sorts;
  std::map<std::pair<uint64_t, unsigned>, Z3_ast> vars;
  int finish(Z3_solver sv, Z3_lbool r, size_t nvars, const std::vector<uint8_t> & widths, Model * out);
};
