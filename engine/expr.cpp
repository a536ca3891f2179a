#include "expr.h"
ExprFactory F;
bool g_imprecise = false;

void ExprFactory::interval(Expr* e) {
  unsigned w = e->width; u128 M = maskw(w);
  e->umin = 0; e->umax = M;
  if (w == 0 || w > 128) return;
  E a = e->k[0], b = e->k[1];
  switch (e->op) {
  case E_CONST: e->umin = e->umax = e->c; break;
  case E_VAR: e->umax = varInfo[e->aux].maxv; break;
  case E_ZEXT: e->umin = a->umin; e->umax = a->umax; break;
  case E_SEXT: if (a->umax < ((u128)1 << (a->width - 1))) { e->umin = a->umin; e->umax = a->umax; } break;
  case E_ADD: { u128 hi = a->umax + b->umax; if (hi <= M && hi >= a->umax) { e->umin = a->umin + b->umin; e->umax = hi; }
      else if (b->isConst()) { // adding a negative constant
        u128 neg = ((~b->c) + 1) & M; if (neg && a->umin >= neg) { e->umin = a->umin - neg; e->umax = a->umax - neg; } }
      break; }
  case E_SUB: if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; } break;
  case E_MUL: if (w <= 64) { u128 hi = a->umax * b->umax; if (hi <= M) { e->umin = a->umin * b->umin; e->umax = hi; } } break;
  case E_UDIV: if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; } break;
  case E_UREM: if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); if (a->umax < b->umin) e->umin = a->umin; } break;
  case E_AND: e->umax = std::min(a->umax, b->umax); break;
  case E_OR: { u128 m = a->umax | b->umax; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; m |= m >> 64; e->umax = m & M; e->umin = std::max(a->umin, b->umin); break; }
  case E_XOR: { u128 m = a->umax | b->umax; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; m |= m >> 64; e->umax = m & M; break; }
  case E_SHL: if (b->isConst() && b->c < w && w <= 64) { u128 hi = a->umax << (unsigned)b->c; if (hi <= M) { e->umin = a->umin << (unsigned)b->c; e->umax = hi; } } break;
  case E_LSHR: if (b->isConst() && b->c < w) { e->umin = a->umin >> (unsigned)b->c; e->umax = a->umax >> (unsigned)b->c; } else e->umax = a->umax; break;
  case E_ITE: e->umin = std::min(b->umin, e->k[2]->umin); e->umax = std::max(b->umax, e->k[2]->umax); break;
  case E_EXTRACT: if (e->aux == 0 && a->umax <= M) { e->umin = a->umin; e->umax = a->umax; }
      else if (e->aux < 128) { u128 hi = a->umax >> e->aux; if (hi <= M) { e->umin = a->umin >> e->aux; e->umax = hi; } } break;
  case E_CONCAT: if (w <= 128) { e->umin = (a->umin << b->width) | b->umin; e->umax = (a->umax << b->width) | b->umax; } break;
  default: break;
  }
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 M = maskw(w); a &= M; b &= M;
  switch (op) {
  case E_ADD: return (a + b) & M;
  case E_SUB: return (a - b) & M;
  case E_MUL: return (a * b) & M;
  case E_UDIV: return b ? a / b : M;
  case E_UREM: return b ? a % b : a;
  case E_SDIV: { i128 x = sextc(a, w), y = sextc(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u128)(-x) & M; return (u128)(x / y) & M; }
  case E_SREM: { i128 x = sextc(a, w), y = sextc(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
  case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case E_ASHR: { i128 x = sextc(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & M; }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sextc(a, w) < sextc(b, w);
  case E_SLE: return sextc(a, w) <= sextc(b, w);
  default: abort();
  }
}
static bool isCmp(Op op) { return op >= E_EQ && op <= E_SLE; }
// number of constant leaves of an ITE tree, or 99 if some leaf is not constant
static int constLeaves(E e, int budget = 17) {
  if (e->isConst()) return 1;
  if (e->op != E_ITE || budget <= 0) return 99;
  int l = constLeaves(e->k[1], budget - 1); if (l > 16) return 99;
  int r = constLeaves(e->k[2], budget - l); if (r > 16) return 99;
  return l + r > 16 ? 99 : l + r;
}
static unsigned trailingZeros(E e, int depth = 6) {
  if (e->isConst()) { if (e->c == 0) return e->width; unsigned n = 0; u128 c = e->c; while (!(c & 1)) { c >>= 1; n++; } return n; }
  if (!depth) return 0;
  switch (e->op) {
  case E_SHL: if (e->k[1]->isConst()) return std::min<unsigned>(e->width, trailingZeros(e->k[0], depth - 1) + (unsigned)std::min<u128>(e->k[1]->c, e->width)); return 0;
  case E_MUL: return std::min<unsigned>(e->width, trailingZeros(e->k[0], depth - 1) + trailingZeros(e->k[1], depth - 1));
  case E_ADD: case E_SUB: case E_OR: return std::min(trailingZeros(e->k[0], depth - 1), trailingZeros(e->k[1], depth - 1));
  case E_ZEXT: case E_SEXT: { unsigned t = trailingZeros(e->k[0], depth - 1); return t; }
  case E_ITE: return std::min(trailingZeros(e->k[1], depth - 1), trailingZeros(e->k[2], depth - 1));
  default: return 0;
  }
}
unsigned tz(E e) { return trailingZeros(e); }

E mkNot(E a) {
  if (a->isConst()) return C(~a->c, a->width);
  if (a->op == E_XOR && a->k[1]->isConst() && a->k[1]->c == maskw(a->width)) return a->k[0];
  if (a->width == 1) {
    switch (a->op) {
    case E_ULT: return mkBin(E_ULE, a->k[1], a->k[0]);
    case E_ULE: return mkBin(E_ULT, a->k[1], a->k[0]);
    case E_SLT: return mkBin(E_SLE, a->k[1], a->k[0]);
    case E_SLE: return mkBin(E_SLT, a->k[1], a->k[0]);
    default: break;
    }
  }
  return F.mk(E_XOR, a->width, 0, 0, a, C(maskw(a->width), a->width));
}
static bool isNotOf(E a, E b) { return a->op == E_XOR && a->k[1]->isConst() && a->k[1]->c == maskw(a->width) && a->k[0] == b; }

E mkBin(Op op, E a, E b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->width, b->width); abort(); }
  if (a->isConst() && b->isConst()) return C(foldBin(op, a->c, b->c, w), isCmp(op) ? 1 : w);
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  u128 M = maskw(w);
  // push operations through ITE trees with constant leaves
  if (b->isConst() && a->op == E_ITE) {
    int n = constLeaves(a);
    if (n <= 16 || ((isCmp(op)) && (a->k[1]->isConst() || a->k[2]->isConst() )))
      return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  }
  if (a->isConst() && b->op == E_ITE && !comm) {
    int n = constLeaves(b);
    if (n <= 16) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  }
  // same condition on both sides
  if (a->op == E_ITE && b->op == E_ITE && a->k[0] == b->k[0])
    return mkIte(a->k[0], mkBin(op, a->k[1], b->k[1]), mkBin(op, a->k[2], b->k[2]));
  switch (op) {
  case E_ADD:
    if (b->isConst()) {
      if (!b->c) return a;
      if (a->op == E_ADD && a->k[1]->isConst()) return mkBin(E_ADD, a->k[0], C(a->k[1]->c + b->c, w));
      if (a->op == E_SUB && a->k[0]->isConst()) return mkBin(E_SUB, C(a->k[0]->c + b->c, w), a->k[1]);
    } else {
      if (a->op == E_ADD && a->k[1]->isConst()) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
      if (b->op == E_ADD && b->k[1]->isConst()) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
      if (a->op == E_SUB && a->k[1] == b) return a->k[0];
      if (b->op == E_SUB && b->k[1] == a) return b->k[0];
    }
    break;
  case E_SUB:
    if (a == b) return C(0, w);
    if (b->isConst()) return mkBin(E_ADD, a, C((~b->c) + 1, w));
    if (a->op == E_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0];
      if (a->k[1]->isConst()) return mkBin(E_ADD, mkBin(E_SUB, a->k[0], b), a->k[1]); }
    if (b->op == E_ADD) { if (b->k[0] == a) return mkBin(E_SUB, C(0, w), b->k[1]); if (b->k[1] == a) return mkBin(E_SUB, C(0, w), b->k[0]);
      if (b->k[1]->isConst()) return mkBin(E_ADD, mkBin(E_SUB, a, b->k[0]), C((~b->k[1]->c) + 1, w)); }
    // common addend / common scaled operands
    if (a->op == E_MUL && b->op == E_MUL && a->k[1] == b->k[1] && a->k[1]->isConst()) return mkBin(E_MUL, mkBin(E_SUB, a->k[0], b->k[0]), a->k[1]);
    break;
  case E_MUL:
    if (b->isConst()) { if (!b->c) return b; if (b->c == 1) return a;
      if (a->op == E_MUL && a->k[1]->isConst()) return mkBin(E_MUL, a->k[0], C(a->k[1]->c * b->c, w));
      if (a->op == E_ADD && a->k[1]->isConst()) return mkBin(E_ADD, mkBin(E_MUL, a->k[0], b), C(a->k[1]->c * b->c, w)); }
    break;
  case E_UDIV: if (b->isConst() && b->c == 1) return a;
    if (b->isConst() && b->c && a->umax < b->c) return C(0, w);
    if (b->isConst() && b->c && !(b->c & (b->c - 1))) { unsigned s = 0; while (((u128)1 << s) < b->c) s++; return mkBin(E_LSHR, a, C(s, w)); }
    break;
  case E_UREM: if (b->isConst() && b->c == 1) return C(0, w);
    if (b->isConst() && b->c && a->umax < b->c) return a;
    if (b->isConst() && b->c && !(b->c & (b->c - 1))) return mkBin(E_AND, a, C(b->c - 1, w));
    break;
  case E_SDIV: if (b->isConst() && b->c == 1) return a;
    if (a->umax < ((u128)1 << (w - 1)) && b->umax < ((u128)1 << (w - 1)) && b->umin > 0) return mkBin(E_UDIV, a, b);
    // exact pointer-difference division: (x*k)/k with no signed overflow possible
    if (b->isConst()) { E q = exactDiv(a, (unsigned)b->c); if (q) return q; }
    break;
  case E_SREM: if (a->umax < ((u128)1 << (w - 1)) && b->umax < ((u128)1 << (w - 1)) && b->umin > 0) return mkBin(E_UREM, a, b); break;
  case E_AND:
    if (a == b) return a;
    if (b->isConst()) { if (!b->c) return b; if (b->c == M) return a;
      if (((b->c + 1) & b->c) == 0 && a->umax <= b->c) return a;
      if (a->op == E_AND && a->k[1]->isConst()) return mkBin(E_AND, a->k[0], C(a->k[1]->c & b->c, w));
      if (a->op == E_ZEXT && a->k[0]->width < w) return mkZext(mkBin(E_AND, a->k[0], C(b->c, a->k[0]->width)), w); }
    if (w == 1) { if (isNotOf(a, b) || isNotOf(b, a)) return bFalse();
      if (a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return b;
      if (mkNot(a) == b) return bFalse();
      if (a->op == E_EQ && b->op == E_EQ && a->k[0] == b->k[0] && a->k[1]->isConst() && b->k[1]->isConst() && a->k[1] != b->k[1]) return bFalse(); }
    break;
  case E_OR:
    if (a == b) return a;
    if (b->isConst()) { if (!b->c) return a; if (b->c == M) return b; }
    if (w == 1) { if (isNotOf(a, b) || isNotOf(b, a)) return bTrue(); if (mkNot(a) == b) return bTrue();
      if (a->op == E_OR && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->op == E_OR && (b->k[0] == a || b->k[1] == a)) return b; }
    break;
  case E_XOR:
    if (a == b) return C(0, w);
    if (b->isConst()) { if (!b->c) return a; if (b->c == M) return mkNot(a); 
      if (a->op == E_XOR && a->k[1]->isConst()) return mkBin(E_XOR, a->k[0], C(a->k[1]->c ^ b->c, w)); }
    break;
  case E_SHL: case E_LSHR: case E_ASHR:
    if (b->isConst() && !b->c) return a;
    if (b->isConst() && b->c >= w && op != E_ASHR) return C(0, w);
    if (op == E_SHL && b->isConst()) return mkBin(E_MUL, a, C((u128)1 << (unsigned)b->c, w));
    if (op == E_LSHR && b->isConst()) {
      unsigned s = (unsigned)b->c;
      if (a->umax < ((u128)1 << s)) return C(0, w);
      if (a->op == E_LSHR && a->k[1]->isConst()) return mkBin(E_LSHR, a->k[0], C(a->k[1]->c + s, w));
      if (a->op == E_ZEXT) return s >= a->k[0]->width ? C(0, w) : mkZext(mkBin(E_LSHR, a->k[0], C(s, a->k[0]->width)), w);
      if (a->op == E_CONCAT && s == a->k[1]->width) return mkZext(a->k[0], w);
    }
    if (op == E_ASHR && a->umax < ((u128)1 << (w - 1))) return mkBin(E_LSHR, a, b);
    if (op == E_ASHR && b->isConst()) { // (x*2^s)>>s for small ranges
      unsigned s = (unsigned)b->c; if (s < 32) { E q = exactDiv(a, 1u << s); if (q) return q; } }
    break;
  case E_EQ:
    if (a == b) return bTrue();
    if (a->umax < b->umin || b->umax < a->umin) return bFalse();
    if (a->op == E_TOK || b->op == E_TOK) return bFalse();
    if (w == 1 && b->isConst()) return b->c ? a : mkNot(a);
    if (b->isConst()) {
      if (a->op == E_ADD && a->k[1]->isConst()) return mkBin(E_EQ, a->k[0], C(b->c - a->k[1]->c, w));
      if (a->op == E_SUB && a->k[0]->isConst()) return mkBin(E_EQ, a->k[1], C(a->k[0]->c - b->c, w));
      if (a->op == E_ZEXT) { unsigned kw = a->k[0]->width; if (b->c >> kw) return bFalse(); return mkBin(E_EQ, a->k[0], C(b->c, kw)); }
      if (a->op == E_SEXT) { unsigned kw = a->k[0]->width; if ((u128)sextc(b->c, kw) != (u128)sextc(b->c, w)) { if (((u128)sextc(b->c & maskw(kw), kw) & M) != b->c) return bFalse(); } return mkBin(E_EQ, a->k[0], C(b->c, kw)); }
      if (a->op == E_MUL && a->k[1]->isConst() && w <= 64) {
        u128 k = a->k[1]->c;
        if (a->k[0]->umax * k <= M) { if (b->c % k) return bFalse(); return mkBin(E_EQ, a->k[0], C(b->c / k, w)); }
        // sext-style: odd*2^s factors
        if (a->k[0]->op == E_SEXT || a->k[0]->op == E_ADD || a->k[0]->op == E_SUB) {
          unsigned t = 0; u128 kk = k; while (kk && !(kk & 1)) { kk >>= 1; t++; }
          if (t && (b->c & (((u128)1 << t) - 1))) return bFalse();
        }
      }
      if (a->op == E_CONCAT) { unsigned lw = a->k[1]->width; return mkAnd(mkEq(a->k[0], C(b->c >> lw, a->k[0]->width)), mkEq(a->k[1], C(b->c, lw))); }
    } else {
      if (a->op == E_ZEXT && b->op == E_ZEXT) {
        unsigned mw = std::max(a->k[0]->width, b->k[0]->width);
        return mkBin(E_EQ, mkZext(a->k[0], mw), mkZext(b->k[0], mw)); }
      if (a->op == E_ADD && b->op == E_ADD && a->k[1] == b->k[1]) return mkBin(E_EQ, a->k[0], b->k[0]);
      if (a->op == E_MUL && b->op == E_MUL && a->k[1] == b->k[1] && a->k[1]->isConst() && w <= 64 && a->k[0]->umax * a->k[1]->c <= M && b->k[0]->umax * a->k[1]->c <= M && a->k[1]->c)
        return mkBin(E_EQ, a->k[0], b->k[0]);
      if (a->op == E_FBITS && b->op == E_FBITS) {
        P pa = a->poly, pb = b->poly; (void)pa; (void)pb; }
    }
    break;
  case E_ULT:
    if (a == b) return bFalse();
    if (a->umax < b->umin) return bTrue();
    if (a->umin >= b->umax) return bFalse();
    if (b->isConst() && b->c == 1) return mkBin(E_EQ, a, C(0, w));
    goto ucmp;
  case E_ULE:
    if (a == b) return bTrue();
    if (a->umax <= b->umin) return bTrue();
    if (a->umin > b->umax) return bFalse();
    if (b->isConst() && b->c == 0) return mkBin(E_EQ, a, b);
    if (a->isConst() && a->c == 1) return mkNot(mkBin(E_EQ, b, C(0, w)));
  ucmp:
    {
      auto fits = [&](E x, unsigned kw) { return x->isConst() ? (kw >= 128 || (x->c >> kw) == 0) : (x->op == E_ZEXT && x->k[0]->width <= kw); };
      unsigned kw = 0;
      if (a->op == E_ZEXT) kw = std::max<unsigned>(kw, a->k[0]->width);
      if (b->op == E_ZEXT) kw = std::max<unsigned>(kw, b->k[0]->width);
      if (kw && kw < w && fits(a, kw) && fits(b, kw)) {
        auto dn = [&](E x) { return x->isConst() ? C(x->c, kw) : mkZext(x->k[0], kw); };
        return mkBin(op, dn(a), dn(b)); }
      // common scale / common offset without wrap
      if (a->op == E_ADD && b->isConst() && a->k[1]->isConst() && a->k[0]->umax + a->k[1]->c <= M && b->c >= a->k[1]->c) return mkBin(op, a->k[0], C(b->c - a->k[1]->c, w));
      if (b->op == E_ADD && a->isConst() && b->k[1]->isConst() && b->k[0]->umax + b->k[1]->c <= M && a->c >= b->k[1]->c) return mkBin(op, C(a->c - b->k[1]->c, w), b->k[0]);
      if (a->op == E_ADD && b->op == E_ADD && a->k[1]->isConst() && a->k[1] == b->k[1] && a->k[0]->umax + a->k[1]->c <= M && b->k[0]->umax + b->k[1]->c <= M) return mkBin(op, a->k[0], b->k[0]);
      if (w <= 64 && a->op == E_MUL && b->op == E_MUL && a->k[1]->isConst() && a->k[1] == b->k[1] && a->k[1]->c && a->k[0]->umax * a->k[1]->c <= M && b->k[0]->umax * a->k[1]->c <= M) return mkBin(op, a->k[0], b->k[0]);
    }
    break;
  case E_SLT: case E_SLE: {
    if (a == b) return op == E_SLE ? bTrue() : bFalse();
    u128 H = (u128)1 << (w - 1);
    if (a->umax < H && b->umax < H) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
    if (a->umin >= H && b->umax < H) return bTrue();
    if (a->umax < H && b->umin >= H) return bFalse();
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == E_SEXT && b->isConst()) { unsigned kw = a->k[0]->width; if ((((u128)sextc(b->c, kw)) & M) == b->c) return mkBin(op, a->k[0], C(b->c, kw)); }
    if (b->op == E_SEXT && a->isConst()) { unsigned kw = b->k[0]->width; if ((((u128)sextc(a->c, kw)) & M) == a->c) return mkBin(op, C(a->c, kw), b->k[0]); }
    break; }
  default: break;
  }
  return F.mk(op, isCmp(op) ? 1 : w, 0, 0, a, b);
}

// signed magnitude bound of an expression, or -1
i128 sbound(E e, int d) {
  if (e->isConst()) { i128 v = sextc(e->c, e->width); return v < 0 ? -v : v; }
  if (e->umax < ((u128)1 << (e->width - 1)) && e->umax < ((u128)1 << 100)) return (i128)e->umax;
  if (!d) return -1;
  switch (e->op) {
  case E_SEXT: return (i128)1 << (e->k[0]->width - 1);
  case E_ADD: case E_SUB: { i128 a = sbound(e->k[0], d - 1), b = sbound(e->k[1], d - 1); if (a < 0 || b < 0) return -1; a += b; return a < ((i128)1 << (e->width - 1)) ? a : -1; }
  case E_MUL: { i128 a = sbound(e->k[0], d - 1), b = sbound(e->k[1], d - 1); if (a < 0 || b < 0 || (a >> 60) || (b >> 60)) return -1; a *= b; return a < ((i128)1 << (e->width - 1)) ? a : -1; }
  case E_ITE: { i128 a = sbound(e->k[1], d - 1), b = sbound(e->k[2], d - 1); if (a < 0 || b < 0) return -1; return std::max(a, b); }
  default: return -1;
  }
}
// return e/k if e is syntactically an exact multiple of k (signed, no overflow), else null
E exactDiv(E e, unsigned k) {
  unsigned w = e->width; if (w > 64 || k == 0) return nullptr;
  if (k == 1) return e;
  if (e->isConst()) { i128 v = sextc(e->c, w); if (v % (i128)k) return nullptr; return C((u128)(v / (i128)k), w); }
  if (sbound(e) < 0) return nullptr;
  switch (e->op) {
  case E_MUL: if (e->k[1]->isConst()) { i128 c = sextc(e->k[1]->c, w); if (c % (i128)k == 0 && sbound(e->k[0]) >= 0) return mkBin(E_MUL, e->k[0], C((u128)(c / (i128)k), w)); } return nullptr;
  case E_ADD: { E a = exactDiv(e->k[0], k), b = a ? exactDiv(e->k[1], k) : nullptr; return b ? mkBin(E_ADD, a, b) : nullptr; }
  case E_SUB: { E a = exactDiv(e->k[0], k), b = a ? exactDiv(e->k[1], k) : nullptr; return b ? mkBin(E_SUB, a, b) : nullptr; }
  case E_ITE: { E a = exactDiv(e->k[1], k), b = a ? exactDiv(e->k[2], k) : nullptr; return b ? mkIte(e->k[0], a, b) : nullptr; }
  default: return nullptr;
  }
}

E mkIte(E c, E a, E b) {
  if (a->width != b->width) { fprintf(stderr, "ite width mismatch\n"); abort(); }
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == E_XOR && c->k[1]->isConst()) return mkIte(c->k[0], b, a);
  if (a->op == E_AGG) { std::vector<E> v; for (size_t i = 0; i < a->agg->size(); i++) v.push_back(mkIte(c, (*a->agg)[i], (*b->agg)[i])); return F.agg(v); }
  if (a->width == 1) {
    if (a->isConst() && b->isConst()) return a->c ? c : mkNot(c);
    if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == E_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == E_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (b->op == E_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  if (a->op == E_ITE && a->k[2] == b) return mkIte(mkAnd(c, a->k[0]), a->k[1], b);
  // equality chains over the same variable: conflicting nested test folds away
  if (c->op == E_EQ && c->k[1]->isConst() && a->op == E_ITE && a->k[0]->op == E_EQ && a->k[0]->k[0] == c->k[0] && a->k[0]->k[1]->isConst())
    return mkIte(c, a->k[2], b);
  return F.mk(E_ITE, a->width, 0, 0, c, a, b);
}
E mkZext(E a, unsigned w) {
  if (a->width == w) return a;
  if (a->width > w) abort();
  if (a->isConst()) return C(a->c, w);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  if (a->op == E_ITE && constLeaves(a) <= 16) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return F.mk(E_ZEXT, w, 0, 0, a);
}
E mkSext(E a, unsigned w) {
  if (a->width == w) return a;
  if (a->isConst()) return C((u128)sextc(a->c, a->width), w);
  if (a->umax < ((u128)1 << (a->width - 1))) return mkZext(a, w);
  if (a->op == E_SEXT) return mkSext(a->k[0], w);
  if (a->op == E_ITE && constLeaves(a) <= 16) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return F.mk(E_SEXT, w, 0, 0, a);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (a->isConst()) return C(a->c >> lo, w);
  switch (a->op) {
  case E_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
  case E_CONCAT: { unsigned lw = a->k[1]->width;
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
  case E_ZEXT: { unsigned kw = a->k[0]->width;
      if (lo >= kw) return C(0, w);
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      return mkZext(mkExtract(a->k[0], lo, kw - lo), w); }
  case E_SEXT: { unsigned kw = a->k[0]->width;
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      if (lo == 0) return mkSext(a->k[0], w);
      break; }
  case E_ITE: if (constLeaves(a) <= 16 || a->k[1]->op == E_ZEXT || a->k[2]->op == E_ZEXT || a->k[1]->isConst() || a->k[2]->isConst()) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
  case E_AND: case E_OR: case E_XOR: return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
  default: break;
  }
  return F.mk(E_EXTRACT, w, lo, 0, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst()) return C((hi->c << lo->width) | lo->c, w);
  if (hi->isConst() && hi->c == 0) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width)
    return mkExtract(lo->k[0], lo->aux, w);
  if (lo->op == E_EXTRACT && lo->aux == 0 && hi->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->width) return mkExtract(lo->k[0], 0, w);
  // extracts of an expression whose low part was simplified: handle {extract(x,k,..), concat(extract(x,..),y)}
  if (lo->op == E_CONCAT && hi->op == E_EXTRACT && lo->k[0]->op == E_EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->width)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->width + lo->k[0]->width), lo->k[1]);
  return F.mk(E_CONCAT, w, 0, 0, hi, lo);
}

// ------------------------------------------------------------------ variables
const VarSet* varsOf(E e) {
  if (e->vars) return e->vars;
  VarSet* s = new VarSet();
  auto add = [&](const VarSet* o) { if (o->v.empty()) return; std::vector<u32> r; std::set_union(s->v.begin(), s->v.end(), o->v.begin(), o->v.end(), std::back_inserter(r)); s->v.swap(r); };
  if (e->op == E_VAR) s->v.push_back(e->aux);
  if (e->nk == 1 && e->op != E_FBITS) { e->vars = varsOf(e->k[0]); delete s; return e->vars; }
  for (int i = 0; i < e->nk; i++) add(varsOf(e->k[i]));
  if (e->poly) for (auto& t : e->poly->t) { add(varsOf(t.second)); for (E a : t.first.atoms) add(varsOf(a)); }
  if (e->agg) for (E x : *e->agg) add(varsOf(x));
  e->vars = s; return s;
}

// ------------------------------------------------------------------ polynomials
double bitsToD(u128 c, unsigned w) { if (w == 32) { u32 b = (u32)c; float f; memcpy(&f, &b, 4); return f; } u64 b = (u64)c; double d; memcpy(&d, &b, 8); return d; }
u64 dToBits(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return b; } u64 b; memcpy(&b, &d, 8); return b; }

static std::map<std::pair<int, std::vector<std::pair<std::vector<u32>, u32>>>, P> polyTab;
static E c64(i64 v) { return C((u128)(u64)v, 64); }
P polyIntern(const Poly& p) {
  std::vector<std::pair<std::vector<u32>, u32>> key;
  for (auto& t : p.t) { std::vector<u32> m; for (E a : t.first.atoms) m.push_back(a->id); key.push_back({m, t.second->id}); }
  auto k = std::make_pair(p.scale, key);
  auto it = polyTab.find(k); if (it != polyTab.end()) return it->second;
  P n = new Poly(p); polyTab[k] = n; return n;
}
static P rescale(P a, int s) { // multiply all coefs by 2^(s-a->scale)
  if (a->scale == s) return a;
  Poly r; r.scale = s; for (auto& t : a->t) r.t.push_back({t.first, mulc(t.second, (i128)1 << (s - a->scale))});
  return polyIntern(r);
}
E mulc(E e, i128 k) { // e*k pushing through ite
  if (e->op == E_ITE) return mkIte(e->k[0], mulc(e->k[1], k), mulc(e->k[2], k));
  return mkBin(E_MUL, e, C((u128)k, e->width));
}
static bool z(E e) { return e->isConst() && e->c == 0; }
// sum of two 64-bit coefficient expressions, merging 0/1 selectors
static E coefAdd(E a, E b) {
  if (z(a)) return b; if (z(b)) return a;
  if (a->op == E_ITE && b->op == E_ITE) {
    if (a->k[0] == b->k[0]) return mkIte(a->k[0], coefAdd(a->k[1], b->k[1]), coefAdd(a->k[2], b->k[2]));
    if (mkNot(a->k[0]) == b->k[0]) return mkIte(a->k[0], coefAdd(a->k[1], b->k[2]), coefAdd(a->k[2], b->k[1]));
  }
  return mkBin(E_ADD, a, b);
}
P polyAdd(P a, P b) {
  int s = std::max(a->scale, b->scale); a = rescale(a, s); b = rescale(b, s);
  Poly r; r.scale = s; size_t i = 0, j = 0;
  while (i < a->t.size() || j < b->t.size()) {
    if (j >= b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) r.t.push_back(a->t[i++]);
    else if (i >= a->t.size() || b->t[j].first < a->t[i].first) r.t.push_back(b->t[j++]);
    else { E c = coefAdd(a->t[i].second, b->t[j].second); if (!z(c)) r.t.push_back({a->t[i].first, c}); i++; j++; }
  }
  return polyIntern(r);
}
P polyNeg(P a) { Poly r; r.scale = a->scale; for (auto& t : a->t) r.t.push_back({t.first, mulc(t.second, -1)}); return polyIntern(r); }
static E coefMul(E a, E b) {
  if (z(a) || z(b)) return c64(0);
  if (a->isConst() && a->c == 1) return b; if (b->isConst() && b->c == 1) return a;
  if (a->op == E_ITE && (z(a->k[1]) || z(a->k[2]))) return mkIte(a->k[0], coefMul(a->k[1], b), coefMul(a->k[2], b));
  if (b->op == E_ITE && (z(b->k[1]) || z(b->k[2]))) return mkIte(b->k[0], coefMul(a, b->k[1]), coefMul(a, b->k[2]));
  return mkBin(E_MUL, a, b);
}
P polyMul(P a, P b) {
  P r = polyIntern(Poly{{}, a->scale + b->scale});
  for (auto& x : a->t) {
    std::map<Mono, E> m;
    for (auto& y : b->t) {
      Mono mm; mm.atoms = x.first.atoms; mm.atoms.insert(mm.atoms.end(), y.first.atoms.begin(), y.first.atoms.end());
      std::sort(mm.atoms.begin(), mm.atoms.end(), [](E p, E q) { return p->id < q->id; });
      E c = coefMul(x.second, y.second); if (z(c)) continue;
      auto it = m.find(mm); if (it == m.end()) m[mm] = c; else it->second = coefAdd(it->second, c);
    }
    Poly q; q.scale = a->scale + b->scale; for (auto& e : m) if (!z(e.second)) q.t.push_back({e.first, e.second});
    r = polyAdd(r, polyIntern(q));
  }
  return r;
}
// value of c (1-bit) known to be t: cofactor of e, cheap syntactic version with memo
static std::unordered_map<u64, E> cofMemo;
static std::unordered_map<u64, int> implMemo;
// does assuming (c==t) decide boolean q? returns 0/1 or -1
static int decides(E c, bool t, E q) {
  if (q == c) return t;
  if (q->op == E_XOR && q->k[1]->isConst() && q->width == 1) { int r = decides(c, t, q->k[0]); return r < 0 ? r : !r; }
  if (c->op == E_XOR && c->k[1]->isConst()) return decides(c->k[0], !t, q);
  if (t && c->op == E_EQ && c->k[1]->isConst()) {
    if (q->op == E_EQ && q->k[0] == c->k[0] && q->k[1]->isConst()) return q->k[1] == c->k[1];
    if (q->op == E_ULT || q->op == E_ULE) {
      if (q->k[0] == c->k[0] && q->k[1]->isConst()) return (int)foldBin(q->op, c->k[1]->c, q->k[1]->c, c->k[0]->width);
      if (q->k[1] == c->k[0] && q->k[0]->isConst()) return (int)foldBin(q->op, q->k[0]->c, c->k[1]->c, c->k[0]->width);
    }
  }
  if (t && c->op == E_AND) { int r = decides(c->k[0], true, q); if (r >= 0) return r; return decides(c->k[1], true, q); }
  if (!t && c->op == E_OR) { int r = decides(c->k[0], false, q); if (r >= 0) return r; return decides(c->k[1], false, q); }
  if (q->op == E_AND) { int r = decides(c, t, q->k[0]), s = decides(c, t, q->k[1]); if (r == 0 || s == 0) return 0; if (r == 1 && s == 1) return 1; return -1; }
  if (q->op == E_OR) { int r = decides(c, t, q->k[0]), s = decides(c, t, q->k[1]); if (r == 1 || s == 1) return 1; if (r == 0 && s == 0) return 0; return -1; }
  return -1;
}
E cofac(E e, E c, bool t) {
  if (e->isConst() || e->op != E_ITE) return e;
  u64 key = ((u64)e->id << 33) ^ ((u64)c->id << 1) ^ (u64)t;
  auto it = cofMemo.find(key); if (it != cofMemo.end()) return it->second;
  int d = decides(c, t, e->k[0]); E r;
  if (d == 1) r = cofac(e->k[1], c, t);
  else if (d == 0) r = cofac(e->k[2], c, t);
  else { E a = cofac(e->k[1], c, t), b = cofac(e->k[2], c, t); r = (a == e->k[1] && b == e->k[2]) ? e : mkIte(e->k[0], a, b); }
  if (cofMemo.size() > 4000000) cofMemo.clear();
  cofMemo[key] = r; return r;
}
P polyIte(E c, P a, P b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  int s = std::max(a->scale, b->scale); a = rescale(a, s); b = rescale(b, s);
  Poly r; r.scale = s; size_t i = 0, j = 0; E Z = c64(0);
  auto put = [&](const Mono& m, E x, E y) { E v = mkIte(c, cofac(x, c, true), cofac(y, c, false)); if (!z(v)) r.t.push_back({m, v}); };
  while (i < a->t.size() || j < b->t.size()) {
    if (j >= b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) { put(a->t[i].first, a->t[i].second, Z); i++; }
    else if (i >= a->t.size() || b->t[j].first < a->t[i].first) { put(b->t[j].first, Z, b->t[j].second); j++; }
    else { put(a->t[i].first, a->t[i].second, b->t[j].second); i++; j++; }
  }
  return polyIntern(r);
}
static P atomPoly(E a) { Poly r; r.scale = 0; r.t.push_back({Mono{{a}}, c64(1)}); return polyIntern(r); }
static std::unordered_map<E, P> toPolyMemo;
P toPoly(E e) {
  auto it = toPolyMemo.find(e); if (it != toPolyMemo.end()) return it->second;
  P r;
  if (e->op == E_FBITS) r = e->poly;
  else if (e->isConst()) {
    double d = bitsToD(e->c, e->width); int s = 0; double x = d;
    if (std::isfinite(x)) while (s < 24 && x != std::floor(x)) { x *= 2; s++; }
    if (std::isfinite(x) && x == std::floor(x) && std::fabs(x) < 9.0e15) { Poly q; q.scale = x == 0 ? 0 : s; if (x != 0) q.t.push_back({Mono{}, c64((i64)x)}); r = polyIntern(q); }
    else r = atomPoly(e);
  } else if (e->op == E_ITE) r = polyIte(e->k[0], toPoly(e->k[1]), toPoly(e->k[2]));
  else if (e->op == E_FCVT && e->aux == FC_EXT) r = toPoly(e->k[0]);
  else r = atomPoly(e);
  toPolyMemo[e] = r; return r;
}
E fromPoly(P p, unsigned w) {
  if (p->t.empty()) return C(dToBits(0.0, w), w);
  if (p->t.size() == 1 && p->t[0].second->isConst()) {
    i64 k = (i64)p->t[0].second->cv(); const Mono& m = p->t[0].first;
    if (m.atoms.empty()) { double d = std::ldexp((double)k, -p->scale); if (bitsToD(dToBits(d, w), w) == d) return C(dToBits(d, w), w); }
    if (m.atoms.size() == 1 && k == 1 && p->scale == 0) { E a = m.atoms[0]; if (a->width == w) return a; if (a->width == 32 && w == 64) return F.mk(E_FCVT, 64, FC_EXT, 0, a); }
  }
  return F.mk(E_FBITS, w, 0, 0, nullptr, nullptr, nullptr, p);
}
E mkFcvt(int kind, E a) {
  unsigned w = kind == FC_EXT ? 64 : 32;
  if (a->isConst()) return C(dToBits(bitsToD(a->c, a->width), w), w);
  if (kind == FC_TRUNC && a->op == E_FCVT && a->aux == FC_EXT) return a->k[0];
  if (a->op == E_FBITS) { // exact, except that a result computed from double values loses bits as a float
    if (kind == FC_TRUNC) for (auto& t : a->poly->t) for (E x : t.first.atoms) if (x->width == 64 && !(x->op == E_FCVT && x->aux == FC_EXT)) return F.mk(E_FCVT, w, kind, 0, a);
    return fromPoly(a->poly, w);
  }
  if (a->op == E_ITE) return mkIte(a->k[0], mkFcvt(kind, a->k[1]), mkFcvt(kind, a->k[2]));
  return F.mk(E_FCVT, w, kind, 0, a);
}
E mkFAdd(E a, E b, bool sub) {
  unsigned w = a->width;
  if (a->isConst() && b->isConst()) {
    if (w == 32) { float x = bitsToD(a->c, 32), y = bitsToD(b->c, 32); volatile float r = sub ? x - y : x + y; return C(dToBits(r, 32), 32); }
    double x = bitsToD(a->c, 64), y = bitsToD(b->c, 64); volatile double r = sub ? x - y : x + y; return C(dToBits(r, 64), 64);
  }
  P pb = toPoly(b); return fromPoly(polyAdd(toPoly(a), sub ? polyNeg(pb) : pb), w);
}
E mkFMul(E a, E b, bool&) {
  unsigned w = a->width;
  if (a->isConst() && b->isConst()) {
    if (w == 32) { float x = bitsToD(a->c, 32), y = bitsToD(b->c, 32); volatile float r = x * y; return C(dToBits(r, 32), 32); }
    double x = bitsToD(a->c, 64), y = bitsToD(b->c, 64); volatile double r = x * y; return C(dToBits(r, 64), 64);
  }
  return fromPoly(polyMul(toPoly(a), toPoly(b)), w);
}
E mkFNeg(E a) {
  if (a->isConst()) return C(a->c ^ ((u128)1 << (a->width - 1)), a->width);
  return fromPoly(polyNeg(toPoly(a)), a->width);
}
E havoc(const char* nm, unsigned w) {
  static int n = 0; g_imprecise = true;
  return F.newVar(std::string("havoc_") + nm + std::to_string(n++), w, maskw(w), 2);
}
std::string show(E e, int d) {
  char b[64];
  if (e->isConst()) { snprintf(b, 64, "%llu:%u", (unsigned long long)e->c, e->width); return b; }
  if (e->op == E_VAR) return F.varInfo[e->aux].name;
  static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fbits","fcvt","tok","agg"};
  std::string s = std::string("(") + n[e->op];
  if (e->op == E_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
  if (e->op == E_FBITS) { for (auto& t : e->poly->t) { s += " {" ; for (E a : t.first.atoms) s += show(a, 2) + "*"; s += d ? show(t.second, d - 1) : ".."; s += "}"; } return s + ")"; }
  if (!d) return s + " ..)";
  for (int i = 0; i < e->nk; i++) s += " " + show(e->k[i], d - 1);
  return s + ")";
}

double fcvtEval(int kind, double d, unsigned w, u32) {
  auto f = [&](double x) { return w == 32 ? (double)(float)x : x; };
  if (kind >= FC_FMT) { char f[16], b[512]; snprintf(f, 16, "%%.%d%c", (kind - FC_FMT) % 32, "feg"[(kind - FC_FMT) / 32]); snprintf(b, 512, f, d); return strtod(b, nullptr); }
  switch (kind) {
  case FC_EXT: return d; case FC_TRUNC: return (double)(float)d;
  case FC_SQRT: return w == 32 ? (double)sqrtf((float)d) : sqrt(d);
  case FC_LOG2: return w == 32 ? (double)log2f((float)d) : log2(d);
  case FC_LOG: return w == 32 ? (double)logf((float)d) : log(d);
  case FC_CBRT: return w == 32 ? (double)cbrtf((float)d) : cbrt(d);
  case FC_CEIL: return ceil(d); case FC_FLOOR: return floor(d); case FC_ROUND: return f(round(d)); case FC_FABS: return fabs(d); case FC_TRUNCI: return trunc(d);
  case FC_RND6: { char b[512]; snprintf(b, 512, "%f", d); return strtod(b, nullptr); }
  default: return d; }
}
E mkFun(int kind, E a) {
  if (a->isConst()) return C(dToBits(fcvtEval(kind, bitsToD(a->c, a->width), a->width, 0), a->width), a->width);
  return F.mk(E_FCVT, a->width, kind, 0, a);
}
// The number read back after printing `a` (64 bits) with the given conversion.
E mkFmt(char conv, unsigned prec, E a) {
  if (prec > 31) prec = 31;
  if (conv != 'f') {
    unsigned p = conv == 'e' ? prec + 1 : prec ? prec : 1;
    if (p >= 17 || (p >= 9 && a->op == E_FCVT && a->aux == FC_EXT)) return a;
  } else if (!a->isConst()) { P p = toPoly(a); bool ok = p->scale == 0; for (auto& t : p->t) if (!t.first.atoms.empty()) ok = false; if (ok) return a; }
  return mkFun(FC_FMT + (conv == 'f' ? 0 : conv == 'e' ? 32 : 64) + prec, a);
}
// A floating value that is a (monotone) function of one integer expression `leaf`.
static bool fpLeaf(E e, E& leaf) {
  if (e->isConst()) return true;
  if (e->op == E_FCVT) return fpLeaf(e->k[0], leaf);
  if (e->op == E_FBITS) {
    for (auto& t : e->poly->t) {
      if (!t.second->isConst()) { if (!t.first.atoms.empty() || (leaf && leaf != t.second)) return false; leaf = t.second; }
      for (E a : t.first.atoms) if (!fpLeaf(a, leaf)) return false;
    }
    return true;
  }
  return false;
}
static double fpEval(E e, E leaf, u64 v) {
  if (e->isConst()) return bitsToD(e->c, e->width);
  if (e->op == E_FCVT) { double d = fpEval(e->k[0], leaf, v); return fcvtEval(e->aux, d, e->aux == FC_EXT ? 64 : e->width, 0); }
  long double s = 0;
  for (auto& t : e->poly->t) { long double x = t.second == leaf ? (long double)(i64)v : (long double)(i64)t.second->cv(); for (E a : t.first.atoms) x *= fpEval(a, leaf, v); s += x; }
  double d = (double)std::ldexp(s, -e->poly->scale); return e->width == 32 ? (double)(float)d : d;
}
bool fpSteps(E fp, E& leaf, std::vector<std::pair<u64, i128>>& steps) {
  leaf = nullptr; if (!fpLeaf(fp, leaf) || !leaf) return false;
  if (leaf->umax >> 63) return false;
  u64 lo = (u64)leaf->umin, hi = (u64)leaf->umax;
  auto g = [&](u64 v) -> i128 { double d = fpEval(fp, leaf, v); if (!(d > -9e18)) d = -9e18; if (d > 9e18) d = 9e18; return (i128)d; };
  u64 cur = lo; i128 gv = g(cur);
  for (;;) {
    steps.push_back({cur, gv}); if (steps.size() > 300) return false;
    i128 ge = g(hi); if (ge == gv) return true;
    u64 a = cur, b = hi; // g(a)==gv, g(b)!=gv
    while (b - a > 1) { u64 m = a + (b - a) / 2; if (g(m) == gv) a = m; else b = m; }
    cur = b; gv = g(cur);
  }
}
