#include "expr.h"
ExprPool P;
uint64_t gEpoch = 1;

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = mask(w);
  switch (op) {
    case E_ADD: return (a + b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m;
    case E_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case E_UREM: return b ? (a % b) & m : a;
    case E_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> b);
    case E_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sx(a, w) < sx(b, w);
    case E_SLE: return sx(a, w) <= sx(b, w);
    default: assert(0); return 0;
  }
}

Expr *mkNot(Expr *a) {
  if (isC(a)) return mkC(!a->c, 1);
  if (a->op == E_NOT) return a->a;
  if (a->op == E_ULT) return P.raw(E_ULE, 1, 0, a->b, a->a, 0);
  if (a->op == E_ULE) return P.raw(E_ULT, 1, 0, a->b, a->a, 0);
  if (a->op == E_SLT) return P.raw(E_SLE, 1, 0, a->b, a->a, 0);
  if (a->op == E_SLE) return P.raw(E_SLT, 1, 0, a->b, a->a, 0);
  return P.raw(E_NOT, 1, 0, a, 0, 0);
}

Expr *mkSub(Expr *a, Expr *b) {
  if (a == b) return mkC(0, a->w);
  if (isC(b)) return mkAdd(a, mkC(0 - b->c, b->w));
  if (b->op == E_ADD && b->a == a && isC(b->b)) return mkC(0 - b->b->c, a->w);
  if (a->op == E_ADD && isC(a->b)) {
    if (a->a == b) return a->b;
    if (b->op == E_ADD && isC(b->b)) return mkAdd(mkSub(a->a, b->a), mkC(a->b->c - b->b->c, a->w));
    return mkAdd(mkSub(a->a, b), a->b);
  }
  // a + (~b + 1)
  Expr *nb = mkAdd(mkBin(E_XOR, b, mkC(~0ULL, b->w)), mkC(1, b->w));
  return mkAdd(a, nb);
}

static bool constTree(Expr *e, int lim) {   // ITE tree with constant leaves
  if (isC(e)) return true;
  if (e->op != E_ITE || lim == 0) return false;
  return constTree(e->a ? e->b : e->b, lim - 1) && constTree(e->d, lim - 1);
}

Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  assert(a->w == b->w);
  bool cmp = op >= E_EQ && op <= E_SLE;
  if (isC(a) && isC(b)) return mkC(foldBin(op, a->c, b->c, w), cmp ? 1 : w);
  // commutative: constant to the right
  if ((op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  uint64_t m = mask(w);
  switch (op) {
    case E_ADD:
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == E_ADD && isC(a->b)) return mkAdd(a->a, mkC(a->b->c + b->c, w));
      if (a->op == E_ADD && isC(a->b) && !isC(b)) return mkAdd(mkAdd(a->a, b), a->b);
      if (b->op == E_ADD && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
      // x + (~x + 1) handled via constant absorption: x + ~x = -1
      if (b->op == E_XOR && isC(b->b, m) && b->a == a) return mkC(m, w);
      if (a->op == E_XOR && isC(a->b, m) && a->a == b) return mkC(m, w);
      // (x + y) + ~x = y - 1
      if (a->op == E_ADD && b->op == E_XOR && isC(b->b, m)) { if (a->a == b->a) return mkAdd(a->b, mkC(m, w)); if (a->b == b->a) return mkAdd(a->a, mkC(m, w)); }
      break;
    case E_MUL:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      break;
    case E_UDIV: if (isC(b, 1)) return a; break;
    case E_SDIV: if (isC(b, 1)) return a; break;
    case E_AND:
      if (isC(b, 0)) return b;
      if (isC(b, m)) return a;
      if (a == b) return a;
      if (w == 1 && (a == mkNot(b))) return mkC(0, 1);
      if (isC(b) && a->op == E_AND && isC(a->b)) return mkBin(E_AND, a->a, mkC(a->b->c & b->c, w));
      if (isC(b) && a->op == E_ZEXT) return mkZext(mkBin(E_AND, a->a, mkC(b->c, a->a->w)), w);
      if (isC(b) && (b->c & (b->c + 1)) == 0) { unsigned k = __builtin_popcountll(b->c); if (k < w) return mkZext(mkExtract(a, 0, k), w); }
      break;
    case E_OR:
      if (isC(b, 0)) return a;
      if (isC(b, m)) return b;
      if (a == b) return a;
      if (w == 1 && (a == mkNot(b))) return mkC(1, 1);
      if (isC(b) && a->op == E_ZEXT && (b->c & ~mask(a->a->w)) == 0) return mkZext(mkBin(E_OR, a->a, mkC(b->c, a->a->w)), w);
      break;
    case E_XOR:
      if (isC(b, 0)) return a;
      if (a == b) return mkC(0, w);
      if (w == 1 && isC(b, 1)) return mkNot(a);
      if (isC(b) && a->op == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkC(a->b->c ^ b->c, w));
      break;
    case E_SHL: case E_LSHR: case E_ASHR:
      if (isC(b, 0)) return a;
      if (isC(b) && b->c >= w) { if (op != E_ASHR) return mkC(0, w); b = mkC(w - 1, w); }
      if (isC(b) && op == E_LSHR) return mkZext(mkExtract(a, b->c, w - b->c), w);
      if (isC(b) && op == E_ASHR && a->op == E_ZEXT) return mkZext(mkExtract(a, b->c, w - b->c), w);
      if (isC(b) && op == E_SHL) return mkConcat(mkExtract(a, 0, w - b->c), mkC(0, b->c));
      break;
    case E_EQ:
      if (a == b) return mkC(1, 1);
      if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
      if (isC(b)) {
        if (a->op == E_ZEXT) { if (b->c & ~mask(a->a->w)) return mkC(0, 1); return mkEq(a->a, mkC(b->c, a->a->w)); }
        if (a->op == E_SEXT) { if ((uint64_t)(sx(b->c, a->a->w)) != (uint64_t)sx(b->c, w)) return mkC(0, 1); return mkEq(a->a, mkC(b->c, a->a->w)); }
        if (a->op == E_ADD && isC(a->b)) return mkEq(a->a, mkC(b->c - a->b->c, w));
        if (a->op == E_XOR && isC(a->b)) return mkEq(a->a, mkC(b->c ^ a->b->c, w));
        if (a->op == E_CONCAT) { unsigned lw = a->b->w; return mkBin(E_AND, mkEq(a->a, mkC(b->c >> lw, a->a->w)), mkEq(a->b, mkC(b->c, lw))); }
        if (a->op == E_ITE && (isC(a->b) || isC(a->d) || (a->b->op == E_ITE && constTree(a, 400)))) return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b));
      } else {
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->op == E_ADD && b->op == E_ADD && isC(a->b) && a->b == b->b) return mkEq(a->a, b->a);
        if (w == 1 && a == mkNot(b)) return mkC(0, 1);
        if (a->op == E_CONCAT && b->op == E_CONCAT && a->a->w == b->a->w) return mkBin(E_AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
      }
      break;
    case E_ULT:
      if (a == b || isC(b, 0) || isC(a, m)) return mkC(0, 1);
      if (isC(b, 1)) return mkEq(a, mkC(0, w));
      if (isC(a, 0)) return mkNot(mkEq(b, a));
      if (isC(b) && a->op == E_ZEXT) { if (b->c > mask(a->a->w)) return mkC(1, 1); return mkBin(E_ULT, a->a, mkC(b->c, a->a->w)); }
      if (isC(a) && b->op == E_ZEXT) { if (a->c >= mask(b->a->w)) return mkC(0, 1); return mkBin(E_ULT, mkC(a->c, b->a->w), b->a); }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkBin(E_ULT, a->a, b->a);
      break;
    case E_ULE:
      return mkNot(mkBin(E_ULT, b, a));
    case E_SLT: {
      if (a == b) return mkC(0, 1);
      if (isC(b, 1ULL << (w - 1))) return mkC(0, 1);
      if (isC(a, m >> 1)) return mkC(0, 1);
      bool za = a->op == E_ZEXT, zb = b->op == E_ZEXT;
      if (za && zb) return mkBin(E_ULT, a, b);
      if (za && isC(b)) { if (sx(b->c, w) <= 0) return mkC(0, 1); return mkBin(E_ULT, a, b); }
      if (zb && isC(a)) { if (sx(a->c, w) < 0) return mkC(1, 1); return mkBin(E_ULT, a, b); }
      if (a->op == E_SEXT && isC(b)) { int64_t v = sx(b->c, w); unsigned iw = a->a->w; int64_t lo = -(1LL << (iw - 1)), hi = (1LL << (iw - 1)) - 1; if (v > hi) return mkC(1, 1); if (v <= lo) return mkC(0, 1); return mkBin(E_SLT, a->a, mkC((uint64_t)v, iw)); }
      if (b->op == E_SEXT && isC(a)) { int64_t v = sx(a->c, w); unsigned iw = b->a->w; int64_t lo = -(1LL << (iw - 1)), hi = (1LL << (iw - 1)) - 1; if (v >= hi) return mkC(0, 1); if (v < lo) return mkC(1, 1); return mkBin(E_SLT, mkC((uint64_t)v, iw), b->a); }
      break;
    }
    case E_SLE:
      return mkNot(mkBin(E_SLT, b, a));
    default: break;
  }
  // push through ITE with constant leaves
  if (isC(b) && a->op == E_ITE && constTree(a, 10)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
  if (isC(a) && b->op == E_ITE && constTree(b, 10)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
  return P.raw(op, cmp ? 1 : w, 0, a, b, 0);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == E_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a, 1)) return mkBin(E_OR, c, b);
    if (isC(a, 0)) return mkBin(E_AND, mkNot(c), b);
    if (isC(b, 0)) return mkBin(E_AND, c, a);
    if (isC(b, 1)) return mkBin(E_OR, mkNot(c), a);
  }
  if (a->op == E_ITE && a->a == c) a = a->b;
  if (b->op == E_ITE && b->a == c) b = b->d;
  if (a == b) return a;
  return P.raw(E_ITE, a->w, 0, c, a, b);
}

Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  assert(w > a->w);
  if (isC(a)) return mkC(a->c, w);
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  if (a->op == E_ITE && constTree(a, 10)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->d, w));
  return P.raw(E_ZEXT, w, 0, a, 0, 0);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC((uint64_t)sx(a->c, a->w), w);
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  if (a->op == E_SEXT) return mkSext(a->a, w);
  if (a->op == E_ITE && constTree(a, 10)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->d, w));
  return P.raw(E_SEXT, w, 0, a, 0, 0);
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  assert(lo + w <= a->w);
  switch (a->op) {
    case E_CONST: return mkC(a->c >> lo, w);
    case E_EXTRACT: return mkExtract(a->a, a->c + lo, w);
    case E_ZEXT: {
      unsigned iw = a->a->w;
      if (lo >= iw) return mkC(0, w);
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      return mkZext(mkExtract(a->a, lo, iw - lo), w);
    }
    case E_SEXT: {
      unsigned iw = a->a->w;
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      if (lo < iw) return mkSext(mkExtract(a->a, lo, iw - lo), w);
      break;
    }
    case E_CONCAT: {
      unsigned lw = a->b->w;
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case E_AND: case E_OR: case E_XOR: return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case E_ADD: case E_MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case E_ITE: if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
    default: break;
  }
  return P.raw(E_EXTRACT, w, lo, a, 0, 0);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 64);
  if (isC(hi) && isC(lo)) return mkC((hi->c << lo->w) | lo->c, w);
  if (isC(hi, 0)) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(lo->a, lo->c, w);
  if (hi->op == E_EXTRACT && hi->a == lo && hi->c == lo->w) return mkExtract(lo, 0, w);
  if (lo->op == E_CONCAT) { // right-assoc merge: concat(hi, concat(x,y)) with hi,x adjacent extracts
    Expr *x = lo->a;
    if ((hi->op == E_EXTRACT && x->op == E_EXTRACT && hi->a == x->a && hi->c == x->c + x->w) || (isC(hi) && isC(x))) return mkConcat(mkConcat(hi, x), lo->b);
  }
  return P.raw(E_CONCAT, w, 0, hi, lo, 0);
}

uint64_t evalE(Expr *e, const uint8_t *m, uint64_t ep) {
  if (e->op == E_CONST) return e->c;
  if (e->op == E_VAR) return m[e->c];
  if (e->epoch == ep) return e->val;
  uint64_t r;
  switch (e->op) {
    case E_NOT: r = !evalE(e->a, m, ep); break;
    case E_ITE: r = evalE(e->a, m, ep) ? evalE(e->b, m, ep) : evalE(e->d, m, ep); break;
    case E_ZEXT: r = evalE(e->a, m, ep); break;
    case E_SEXT: r = (uint64_t)sx(evalE(e->a, m, ep), e->a->w) & mask(e->w); break;
    case E_EXTRACT: r = (evalE(e->a, m, ep) >> e->c) & mask(e->w); break;
    case E_CONCAT: r = (evalE(e->a, m, ep) << e->b->w) | evalE(e->b, m, ep); break;
    case E_AND: if (e->w == 1) { r = evalE(e->a, m, ep) && evalE(e->b, m, ep); break; }
      r = evalE(e->a, m, ep) & evalE(e->b, m, ep); break;
    default: r = foldBin(e->op, evalE(e->a, m, ep), evalE(e->b, m, ep), e->a->w);
  }
  e->epoch = ep; e->val = r;
  return r;
}

std::string show(Expr *e, int d) {
  static const char *n[] = {"c","v","+","*","u/","s/","u%","s%","&","|","^","<<","l>>","a>>","=","u<","u<=","s<","s<=","!","ite","zx","sx","ex","cc"};
  if (isC(e)) return std::to_string(e->c);
  if (e->op == E_VAR) return "v" + std::to_string(e->c);
  if (d == 0) return "..";
  std::string r = std::string("(") + n[e->op];
  if (e->op == E_EXTRACT) r += "@" + std::to_string(e->c) + ":" + std::to_string(e->w);
  for (Expr *x : {e->a, e->b, e->d}) if (x) r += " " + show(x, d - 1);
  return r + ")";
}
