// Hash-consed bit-vector expression DAG over byte variables.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <string>
#include <cassert>

enum Op : uint8_t { E_CONST, E_VAR, E_ADD, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_NOT /*w==1*/, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT };

typedef std::vector<uint32_t> VarSet;

struct Expr {
  Op op; uint8_t w; uint32_t id; uint64_t c;      // c: const value / var id / extract lo
  Expr *a, *b, *d;
  const VarSet *vars;
  void *z3 = nullptr;
  uint64_t epoch = 0, val = 0;
  uint64_t *tab = nullptr;                         // cached satisfying set (256 bits) for unary w==1
  uint32_t depth;
};

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= mask(w); return (int64_t)((v ^ m) - m); }

struct ExprPool {
  struct Key { Op op; uint8_t w; uint64_t c; Expr *a, *b, *d; bool operator==(const Key &o) const { return op==o.op&&w==o.w&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
  struct KH { size_t operator()(const Key &k) const { uint64_t h = k.op*0x9E3779B97F4A7C15ULL ^ k.w*0xC2B2AE3D27D4EB4FULL; auto mix=[&](uint64_t x){ h ^= x + 0x9E3779B97F4A7C15ULL + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdULL; h ^= h>>32; }; mix(k.c); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.d); return h; } };
  std::unordered_map<Key, Expr *, KH> tab;
  uint32_t nid = 1;
  struct VH { size_t operator()(const VarSet &v) const { uint64_t h = 1469598103934665603ULL; for (auto x : v) { h ^= x; h *= 1099511628211ULL; } return h; } };
  std::unordered_set<VarSet, VH> vsets;
  struct PH { size_t operator()(const std::pair<const VarSet*,const VarSet*> &p) const { return (uint64_t)p.first * 0x9E3779B97F4A7C15ULL ^ ((uint64_t)p.second * 0xC2B2AE3D27D4EB4FULL >> 7); } };
  std::unordered_map<std::pair<const VarSet*,const VarSet*>, const VarSet *, PH> ucache;
  const VarSet *empty;
  ExprPool() { empty = &*vsets.insert(VarSet()).first; }
  const VarSet *uni(const VarSet *x, const VarSet *y) {
    if (x == y || y->empty()) return x;
    if (x->empty()) return y;
    if (x > y) std::swap(x, y);
    auto k = std::make_pair(x, y);
    auto it = ucache.find(k);
    if (it != ucache.end()) {
      return it->second;
    }
    VarSet r; r.reserve(x->size() + y->size());
    std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
    const VarSet *p = &*vsets.insert(std::move(r)).first;
    ucache[k] = p;
    return p;
  }
  Expr *raw(Op op, uint8_t w, uint64_t c, Expr *a, Expr *b, Expr *d) {
    Key k{op, w, c, a, b, d};
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    Expr *e = new Expr(); e->op = op; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = nid++;
    if (op == E_VAR) { e->vars = &*vsets.insert(VarSet{(uint32_t)c}).first; e->depth = 1; }
    else { const VarSet *v = empty; uint32_t dp = 0; for (Expr *x : {a, b, d}) if (x) { v = uni(v, x->vars); dp = std::max(dp, x->depth); } e->vars = v; e->depth = dp + 1; }
    tab[k] = e;
    return e;
  }
};
extern ExprPool P;

static inline Expr *mkC(uint64_t v, unsigned w) { return P.raw(E_CONST, w, v & mask(w), 0, 0, 0); }
static inline Expr *mkVar(uint32_t id) { return P.raw(E_VAR, 8, id, 0, 0, 0); }
static inline bool isC(Expr *e) { return e->op == E_CONST; }
static inline bool isC(Expr *e, uint64_t v) { return e->op == E_CONST && e->c == v; }

Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
static inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(E_EQ, a, b); }
static inline Expr *mkAdd(Expr *a, Expr *b) { return mkBin(E_ADD, a, b); }
Expr *mkSub(Expr *a, Expr *b);
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w);
uint64_t evalE(Expr *e, const uint8_t *m, uint64_t epoch);
extern uint64_t gEpoch;
std::string show(Expr *e, int depth = 6);
