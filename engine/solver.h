// Path constraints: byte domains (exact for unary constraints), multi-variable
// constraints, a satisfying model, and Z3 (QF_BV) for everything else.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <string>

struct Dom { uint64_t b[4]; bool has(unsigned v) const { return b[v >> 6] >> (v & 63) & 1; }
  bool full() const { return (b[0] & b[1] & b[2] & b[3]) == ~0ULL; }
  bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); } };

// small copyable set of Expr* (sorted vector)
struct FactSet {
  std::vector<Expr *> v;   // open addressing
  uint32_t n = 0;
  bool has(Expr *e) const { if (v.empty()) return false; size_t m = v.size() - 1, i = (e->id * 2654435761u) & m; while (v[i]) { if (v[i] == e) return true; i = (i + 1) & m; } return false; }
  void add(Expr *e) { if ((n + 1) * 2 > v.size()) { std::vector<Expr *> o(std::move(v)); v.assign(o.empty() ? 32 : o.size() * 2, nullptr); n = 0; for (auto x : o) if (x) add1(x); } add1(e); }
private:
  void add1(Expr *e) { size_t m = v.size() - 1, i = (e->id * 2654435761u) & m; while (v[i]) { if (v[i] == e) return; i = (i + 1) & m; } v[i] = e; n++; }
};

struct PathCond {
  std::vector<Dom> dom;
  std::vector<uint8_t> model;
  std::vector<uint8_t> inMulti;      // var occurs in a multi-var constraint
  std::vector<Expr *> multi;
  std::vector<Expr *> unary;         // for counterexample reporting only
  FactSet facts;
  uint32_t nvars() const { return dom.size(); }
  uint32_t newVar(uint8_t init = 0) { dom.push_back(Dom{{~0ULL, ~0ULL, ~0ULL, ~0ULL}}); model.push_back(init); inMulti.push_back(0); return dom.size() - 1; }
};

struct SolverStats { uint64_t queries = 0, z3calls = 0, z3sat = 0, z3unsat = 0, z3unknown = 0, domdecided = 0, modelhits = 0, cachehits = 0, assertq = 0; double z3time = 0; };

struct Solver {
  Z3_context ctx; Z3_solver sol;
  SolverStats st;
  unsigned timeout_ms = 20000;
  Solver();
  enum R { UNSAT, SAT, UNKNOWN };
  // Is pc /\ c satisfiable?  On SAT, out receives a model.
  R check(PathCond &pc, Expr *c, std::vector<uint8_t> *out, bool forceZ3 = false);
  void add(PathCond &pc, Expr *c);       // c must be satisfied by pc.model after the call (model set by caller)
  Z3_ast tr(Expr *e);
  std::string dumpDir;
  struct CacheE { R r; std::vector<std::pair<uint32_t, uint8_t>> m; };
  std::unordered_map<std::string, CacheE> cache;
  const uint64_t *table(Expr *e);         // satisfying set of unary boolean
};
