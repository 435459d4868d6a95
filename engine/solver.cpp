#include "solver.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
  sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, sol);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms);
  Z3_solver_set_params(ctx, sol, p);
}

Z3_ast Solver::tr(Expr *e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = nullptr;
  auto bv = [&](unsigned w) { return Z3_mk_bv_sort(ctx, w); };
  auto b2bv = [&](Z3_ast b) { return b; };
  (void)b2bv;
  // booleans (w==1) are encoded as 1-bit bit-vectors
  auto one = Z3_mk_unsigned_int64(ctx, 1, bv(1)), zero = Z3_mk_unsigned_int64(ctx, 0, bv(1));
  auto fromB = [&](Z3_ast b) { return Z3_mk_ite(ctx, b, one, zero); };
  switch (e->op) {
    case E_CONST: r = Z3_mk_unsigned_int64(ctx, e->c, bv(e->w)); break;
    case E_VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), bv(8)); break;
    case E_ADD: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
    case E_AND: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
    case E_OR: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
    case E_XOR: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
    case E_EQ: r = fromB(Z3_mk_eq(ctx, tr(e->a), tr(e->b))); break;
    case E_ULT: r = fromB(Z3_mk_bvult(ctx, tr(e->a), tr(e->b))); break;
    case E_ULE: r = fromB(Z3_mk_bvule(ctx, tr(e->a), tr(e->b))); break;
    case E_SLT: r = fromB(Z3_mk_bvslt(ctx, tr(e->a), tr(e->b))); break;
    case E_SLE: r = fromB(Z3_mk_bvsle(ctx, tr(e->a), tr(e->b))); break;
    case E_NOT: r = Z3_mk_bvnot(ctx, tr(e->a)); break;
    case E_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, tr(e->a), one), tr(e->b), tr(e->d)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case E_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)(e->c + e->w - 1), (unsigned)e->c, tr(e->a)); break;
    case E_CONCAT: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
  }
  Z3_inc_ref(ctx, r);
  e->z3 = r;
  return r;
}

const uint64_t *Solver::table(Expr *e) {
  if (e->tab) return e->tab;
  uint64_t *t = (uint64_t *)calloc(4, 8);
  uint32_t v = (*e->vars)[0];
  static std::vector<uint8_t> m;
  if (m.size() <= v) m.resize(v + 64);
  for (unsigned i = 0; i < 256; i++) { m[v] = i; if (evalE(e, m.data(), ++gEpoch)) t[i >> 6] |= 1ULL << (i & 63); }
  e->tab = t;
  return t;
}

Solver::R Solver::check(PathCond &pc, Expr *c, std::vector<uint8_t> *out, bool forceZ3) {
  st.queries++;
  if (isC(c)) { if (c->c) { if (out) *out = pc.model; return SAT; } return UNSAT; }
  if (!forceZ3) {
    if (pc.facts.has(c)) { if (out) *out = pc.model; return SAT; }
    if (pc.facts.has(mkNot(c))) return UNSAT;
    if (evalE(c, pc.model.data(), ++gEpoch)) { st.modelhits++; if (out) *out = pc.model; return SAT; }
    if (c->vars->size() == 1) {
      uint32_t v = (*c->vars)[0];
      const uint64_t *t = table(c);
      Dom d; for (int i = 0; i < 4; i++) d.b[i] = t[i] & pc.dom[v].b[i];
      if (d.empty()) { st.domdecided++; return UNSAT; }
      if (!pc.inMulti[v]) {
        st.domdecided++;
        if (out) { *out = pc.model; for (unsigned i = 0; i < 256; i++) if (d.has(i)) { (*out)[v] = i; break; } }
        return SAT;
      }
      // try to repair the model by changing v only
      std::vector<uint8_t> m(pc.model);
      std::vector<Expr *> rel;
      for (auto e : pc.multi) if (std::binary_search(e->vars->begin(), e->vars->end(), v)) rel.push_back(e);
      if (rel.size() < 64) for (unsigned i = 0; i < 256; i++) if (d.has(i)) {
        m[v] = i; ++gEpoch; bool ok = true;
        for (auto e : rel) if (!evalE(e, m.data(), gEpoch)) { ok = false; break; }
        if (ok) { st.modelhits++; if (out) *out = m; return SAT; }
      }
    }
  }
  // slice
  std::vector<Expr *> sl; std::vector<uint8_t> inV(pc.nvars(), 0); std::vector<uint32_t> vs(c->vars->begin(), c->vars->end());
  for (auto v : vs) inV[v] = 1;
  std::vector<uint8_t> used(pc.multi.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.multi.size(); i++) if (!used[i]) {
      Expr *e = pc.multi[i]; bool hit = false;
      for (auto v : *e->vars) if (inV[v]) { hit = true; break; }
      if (hit) { used[i] = 1; sl.push_back(e); ch = true; for (auto v : *e->vars) if (!inV[v]) { inV[v] = 1; vs.push_back(v); } }
    }
  }
  std::sort(vs.begin(), vs.end());
  std::sort(sl.begin(), sl.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
  std::string key;
  auto put = [&](const void *p, size_t n) { key.append((const char *)p, n); };
  put(&c->id, 4);
  for (auto e : sl) put(&e->id, 4);
  for (auto v : vs) if (!pc.dom[v].full()) { put(&v, 4); put(pc.dom[v].b, 32); }
  auto it = cache.find(key);
  if (it != cache.end()) {
    st.cachehits++;
    if (it->second.r == SAT && out) { *out = pc.model; for (auto &x : it->second.m) (*out)[x.first] = x.second; }
    return it->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  st.z3calls++;
  Z3_solver_push(ctx, sol);
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
  Z3_inc_ref(ctx, one);
  auto as = [&](Expr *e) { Z3_solver_assert(ctx, sol, Z3_mk_eq(ctx, tr(e), one)); };
  for (auto e : sl) as(e);
  as(c);
  for (auto v : vs) if (!pc.dom[v].full()) {
    const Dom &d = pc.dom[v];
    Z3_ast x = tr(mkVar(v));
    std::vector<Z3_ast> ors;
    for (unsigned i = 0; i < 256;) {
      if (!d.has(i)) { i++; continue; }
      unsigned j = i; while (j < 256 && d.has(j)) j++;
      auto k = [&](unsigned q) { return Z3_mk_unsigned_int64(ctx, q, Z3_mk_bv_sort(ctx, 8)); };
      if (j == i + 1) ors.push_back(Z3_mk_eq(ctx, x, k(i)));
      else { Z3_ast pr[2]; unsigned n = 0; if (i > 0) pr[n++] = Z3_mk_bvuge(ctx, x, k(i)); if (j < 256) pr[n++] = Z3_mk_bvule(ctx, x, k(j - 1)); ors.push_back(n == 1 ? pr[0] : Z3_mk_and(ctx, n, pr)); }
      i = j;
    }
    Z3_solver_assert(ctx, sol, ors.size() == 1 ? ors[0] : Z3_mk_or(ctx, ors.size(), ors.data()));
  }
  if (!dumpDir.empty() && st.z3calls % 97 == 1) {   // sample of queries for cross-checking with a second solver
    std::ofstream o(dumpDir + "/q" + std::to_string(st.z3calls) + ".smt2");
    o << "(set-logic QF_BV)\n" << Z3_solver_to_string(ctx, sol) << "\n(check-sat)\n";
  }
  Z3_lbool r = Z3_solver_check(ctx, sol);
  CacheE ce;
  if (r == Z3_L_TRUE) {
    ce.r = SAT; st.z3sat++;
    Z3_model m = Z3_solver_get_model(ctx, sol);
    Z3_model_inc_ref(ctx, m);
    for (auto v : vs) {
      Z3_ast o; uint64_t u = 0;
      if (Z3_model_eval(ctx, m, tr(mkVar(v)), true, &o)) Z3_get_numeral_uint64(ctx, o, (uint64_t *)&u);
      ce.m.push_back({v, (uint8_t)u});
    }
    Z3_model_dec_ref(ctx, m);
    if (out) { *out = pc.model; for (auto &x : ce.m) (*out)[x.first] = x.second; }
  } else if (r == Z3_L_FALSE) { ce.r = UNSAT; st.z3unsat++; }
  else { ce.r = UNKNOWN; st.z3unknown++; }
  Z3_dec_ref(ctx, one);
  Z3_solver_pop(ctx, sol, 1);
  st.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (cache.size() > 400000) cache.clear();
  cache[key] = ce;
  return ce.r;
}

void Solver::add(PathCond &pc, Expr *c) {
  if (isC(c)) return;
  if (pc.facts.has(c)) return;
  pc.facts.add(c);
  if (c->op == E_AND && c->w == 1) { add(pc, c->a); add(pc, c->b); return; }
  if (c->op == E_NOT && c->a->op == E_OR) { add(pc, mkNot(c->a->a)); add(pc, mkNot(c->a->b)); return; }
  if (c->vars->size() == 1) {
    uint32_t v = (*c->vars)[0];
    const uint64_t *t = table(c);
    for (int i = 0; i < 4; i++) pc.dom[v].b[i] &= t[i];
  } else {
    pc.multi.push_back(c);
    for (auto v : *c->vars) pc.inMulti[v] = 1;
  }
}
