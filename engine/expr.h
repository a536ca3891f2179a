// gsbsym: hash-consed bit-vector expressions and exact polynomial values.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <memory>
#include <map>
#include <set>
#include <functional>
#include <cmath>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

enum Op : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT,
  E_CONCAT, E_FBITS, E_FCVT, E_TOK, E_AGG
};

struct Poly;
struct Expr;
typedef const Expr* E;

struct VarInfo { std::string name; unsigned width; u128 maxv; int kind; /*0 int 1 floatbits 2 undef/havoc*/ };

struct VarSet { std::vector<u32> v; };

struct Expr {
  Op op; uint16_t width; u32 id; u32 aux; // aux: var index / extract low / fcvt kind / token kind
  u128 c;                 // constant
  E k[3]; int nk;
  const Poly* poly;
  std::vector<E>* agg;
  u128 umin, umax;        // unsigned interval (width<=128)
  mutable const VarSet* vars;
  bool isConst() const { return op == E_CONST; }
  u64 cv() const { return (u64)c; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextc(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

// ------------------------------------------------------------------ factory
struct ExprKey { Op op; uint16_t width; u32 aux; u128 c; E k[3]; const void* p; };
struct ExprFactory {
  struct H { size_t operator()(const ExprKey& a) const {
    size_t h = a.op * 1000003u + a.width * 7919u + a.aux * 104729u;
    auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); };
    mix((u64)a.c); mix((u64)(a.c >> 64)); for (int i = 0; i < 3; i++) mix((u64)(uintptr_t)a.k[i] >> 4); mix((u64)(uintptr_t)a.p >> 3);
    return h; } };
  struct Q { bool operator()(const ExprKey& a, const ExprKey& b) const {
    return a.op == b.op && a.width == b.width && a.aux == b.aux && a.c == b.c && a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2] && a.p == b.p; } };
  std::unordered_map<ExprKey, E, H, Q> tab;
  std::vector<VarInfo> varInfo;
  std::map<std::vector<E>, E> aggs;
  u32 nextId = 1;

  void interval(Expr* e);
  E mk(Op op, unsigned w, u32 aux, u128 c, E a = nullptr, E b = nullptr, E d = nullptr, const Poly* p = nullptr) {
    ExprKey key{op, (uint16_t)w, aux, c, {a, b, d}, p};
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Expr* e = new Expr();
    e->op = op; e->width = w; e->aux = aux; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->nk = d ? 3 : b ? 2 : a ? 1 : 0;
    e->poly = p; e->agg = nullptr; e->id = nextId++; e->vars = nullptr;
    interval(e);
    tab.emplace(key, e);
    return e;
  }
  E constant(u128 v, unsigned w) { return mk(E_CONST, w, 0, v & maskw(w)); }
  E newVar(const std::string& n, unsigned w, u128 maxv, int kind) {
    u32 idx = varInfo.size(); varInfo.push_back({n, w, maxv & maskw(w), kind});
    return mk(E_VAR, w, idx, 0);
  }
  E agg(const std::vector<E>& v) {
    auto it = aggs.find(v); if (it != aggs.end()) return it->second;
    Expr* e = new Expr(); e->op = E_AGG; e->width = 0; e->aux = 0; e->c = 0; e->nk = 0; e->k[0] = e->k[1] = e->k[2] = nullptr; e->poly = nullptr;
    e->agg = new std::vector<E>(v); e->id = nextId++; e->vars = nullptr; e->umin = e->umax = 0;
    aggs[v] = e; return e;
  }
};
extern ExprFactory F;
static inline E C(u128 v, unsigned w) { return F.constant(v, w); }
static inline E bTrue() { static E t = C(1, 1); return t; }
static inline E bFalse() { static E t = C(0, 1); return t; }

E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkNot(E a);
static inline E mkEq(E a, E b) { return mkBin(E_EQ, a, b); }
static inline E mkAnd(E a, E b) { return mkBin(E_AND, a, b); }
static inline E mkOr(E a, E b) { return mkBin(E_OR, a, b); }
u128 foldBin(Op op, u128 a, u128 b, unsigned w);

// ------------------------------------------------------------------ polynomials
// value = sum coef_i * prod(atoms_i) * 2^-scale ; coefs are 64-bit signed expressions, non-zero
struct Mono { std::vector<E> atoms; bool operator<(const Mono& o) const {
    if (atoms.size() != o.atoms.size()) return atoms.size() < o.atoms.size();
    for (size_t i = 0; i < atoms.size(); i++) if (atoms[i]->id != o.atoms[i]->id) return atoms[i]->id < o.atoms[i]->id;
    return false; }
  bool operator==(const Mono& o) const { return atoms == o.atoms; } };
struct Poly { std::vector<std::pair<Mono, E>> t; int scale; };
typedef const Poly* P;
P polyIntern(const Poly& p);
P polyAdd(P a, P b);
P polyMul(P a, P b);
P polyNeg(P a);
P polyIte(E c, P a, P b);
P toPoly(E bits);           // interpret bits of width 32/64 as float/double
E fromPoly(P p, unsigned w);
double bitsToD(u128 c, unsigned w);
u64 dToBits(double d, unsigned w);
E mkFcvt(int kind, E a); // 0 = fpext 32->64, 1 = fptrunc 64->32
enum { FC_EXT = 0, FC_TRUNC = 1, FC_SQRT = 2, FC_LOG2 = 3, FC_CEIL = 4, FC_FLOOR = 5, FC_ROUND = 6, FC_FABS = 7, FC_LOG = 8, FC_CBRT = 9, FC_TRUNCI = 10, FC_RND6 = 11, FC_FMT = 64 };
double fcvtEval(int kind, double d, unsigned w, u32 aux);
E mkFun(int kind, E a);
E mkFmt(char conv, unsigned prec, E a);
bool fpSteps(E fp, E& leaf, std::vector<std::pair<u64, i128>>& steps);
E mkFAdd(E a, E b, bool sub);
E mkFMul(E a, E b, bool& imprecise);
E mkFNeg(E a);
const VarSet* varsOf(E e);
std::string show(E e, int depth = 6);
E simplifyUnder(E e, E cond, bool truth);
E cofac(E e, E c, bool t);
i128 sbound(E e, int d = 8);
E exactDiv(E e, unsigned k);
E mulc(E e, i128 k);
E havoc(const char* nm, unsigned w);
extern bool g_imprecise;
