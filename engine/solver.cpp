#include "solver.h"
SolverStats SS;
static Z3_context ctx; static Z3_solver slv;
static std::unordered_map<u32, Z3_ast> bmemo; static std::unordered_map<u32, Z3_ast> zmemo; static std::unordered_map<u32, Z3_ast> lits; static std::vector<Z3_ast> varAst;
static unsigned long asserted = 0; static unsigned tmo = 20000;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
static void mkSolver() {
  if (slv) Z3_solver_dec_ref(ctx, slv);
  Z3_symbol qf = Z3_mk_string_symbol(ctx, "QF_BV");
  slv = Z3_mk_solver_for_logic(ctx, qf); Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo);
  Z3_solver_set_params(ctx, slv, p); Z3_params_dec_ref(ctx, p);
  asserted = 0;
}
void solverInit(unsigned t) {
  tmo = t; Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_set_error_handler(ctx, errh); slv = nullptr; mkSolver();
}
static void reset() { zmemo.clear(); bmemo.clear(); lits.clear(); varAst.clear(); Z3_solver_dec_ref(ctx, slv); slv = nullptr; Z3_del_context(ctx); solverInit(tmo); }

static Z3_ast num(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(ctx, w);
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, s);
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64)), lo = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
  return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1)); }
static Z3_ast isT(Z3_ast bv) { return Z3_mk_eq(ctx, bv, num(1, 1)); }
static Z3_ast tr(E e);
static Z3_ast trBool(E e) { // boolean form of a width-1 expression
  if (e->op == E_CONST) return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
  auto it = bmemo.find(e->id); if (it != bmemo.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
  case E_EQ: r = e->k[0]->width == 1 ? Z3_mk_iff(ctx, trBool(e->k[0]), trBool(e->k[1])) : Z3_mk_eq(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_ULT: r = Z3_mk_bvult(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_ULE: r = Z3_mk_bvule(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_SLT: r = Z3_mk_bvslt(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_SLE: r = Z3_mk_bvsle(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_AND: { Z3_ast a[2] = {trBool(e->k[0]), trBool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
  case E_OR: { Z3_ast a[2] = {trBool(e->k[0]), trBool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
  case E_XOR: r = e->k[1]->isConst() ? (e->k[1]->c ? Z3_mk_not(ctx, trBool(e->k[0])) : trBool(e->k[0])) : Z3_mk_xor(ctx, trBool(e->k[0]), trBool(e->k[1])); break;
  case E_ITE: r = Z3_mk_ite(ctx, trBool(e->k[0]), trBool(e->k[1]), trBool(e->k[2])); break;
  default: r = isT(tr(e)); break;
  }
  bmemo[e->id] = r; return r;
}
static Z3_ast tr(E e) {
  auto it = zmemo.find(e->id); if (it != zmemo.end()) return it->second;
  if (e->width == 1 && (e->op == E_AND || e->op == E_OR || e->op == E_XOR || e->op == E_ITE)) { Z3_ast q = b2bv(trBool(e)); zmemo[e->id] = q; return q; }
  Z3_ast r = nullptr; unsigned w = e->width;
  auto K = [&](int i) { return tr(e->k[i]); };
  switch (e->op) {
  case E_CONST: r = num(e->c, w); break;
  case E_VAR: { char n[32]; snprintf(n, 32, "v%u", e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bv_sort(ctx, w));
      const VarInfo& vi = F.varInfo[e->aux];
      if (vi.maxv != maskw(w)) { Z3_solver_assert(ctx, slv, Z3_mk_bvule(ctx, r, num(vi.maxv, w))); }
      break; }
  case E_ADD: r = Z3_mk_bvadd(ctx, K(0), K(1)); break;
  case E_SUB: r = Z3_mk_bvsub(ctx, K(0), K(1)); break;
  case E_MUL: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
  case E_UDIV: r = Z3_mk_bvudiv(ctx, K(0), K(1)); break;
  case E_SDIV: r = Z3_mk_bvsdiv(ctx, K(0), K(1)); break;
  case E_UREM: r = Z3_mk_bvurem(ctx, K(0), K(1)); break;
  case E_SREM: r = Z3_mk_bvsrem(ctx, K(0), K(1)); break;
  case E_AND: r = Z3_mk_bvand(ctx, K(0), K(1)); break;
  case E_OR: r = Z3_mk_bvor(ctx, K(0), K(1)); break;
  case E_XOR: r = Z3_mk_bvxor(ctx, K(0), K(1)); break;
  case E_SHL: r = Z3_mk_bvshl(ctx, K(0), K(1)); break;
  case E_LSHR: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break;
  case E_ASHR: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
  case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = b2bv(trBool(e)); break;
  case E_ITE: r = Z3_mk_ite(ctx, trBool(e->k[0]), K(1), K(2)); break;
  case E_ZEXT: r = Z3_mk_zero_ext(ctx, w - e->k[0]->width, K(0)); break;
  case E_SEXT: r = Z3_mk_sign_ext(ctx, w - e->k[0]->width, K(0)); break;
  case E_EXTRACT: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, K(0)); break;
  case E_CONCAT: r = Z3_mk_concat(ctx, K(0), K(1)); break;
  default: { char n[32]; snprintf(n, 32, "opq%u", e->id); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bv_sort(ctx, w)); g_imprecise = true; break; }
  }
  zmemo[e->id] = r; return r;
}
static Z3_ast litOf(E c) {
  auto it = lits.find(c->id); if (it != lits.end()) return it->second;
  char n[32]; snprintf(n, 32, "L%u", c->id);
  Z3_ast l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bool_sort(ctx));
  Z3_ast b = trBool(c);
  Z3_solver_assert(ctx, slv, Z3_mk_implies(ctx, l, b)); asserted++;
  lits[c->id] = l; return l;
}
struct CacheEnt { int r; std::vector<std::pair<u32, u64>> m; };
struct VH { size_t operator()(const std::vector<u32>& v) const { size_t h = 1469598103934665603ULL; for (u32 x : v) { h ^= x; h *= 1099511628211ULL; } return h; } };
static std::unordered_map<std::vector<u32>, CacheEnt, VH> cache;

int solverCheck(const std::vector<E>& cs, std::vector<std::pair<u32, u64>>* out) {
  std::vector<u32> key; for (E c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) { SS.cached++; if (out) *out = it->second.m; return it->second.r; }
  static long lim = getenv("GSLIM") ? atol(getenv("GSLIM")) : 40;
  if ((long)asserted > lim) { reset(); }
  auto t0 = std::chrono::steady_clock::now();
  std::vector<Z3_ast> as; for (E c : cs) as.push_back(litOf(c));
  Z3_lbool r = Z3_solver_check_assumptions(ctx, slv, as.size(), as.data());
  SS.queries++;
  CacheEnt ce; ce.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (ce.r == 1) {
    SS.sat++;
    Z3_model m = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, m);
    std::set<u32> vs; for (E c : cs) for (u32 v : varsOf(c)->v) vs.insert(v);
    for (u32 v : vs) {
      const VarInfo& vi = F.varInfo[v];
      Z3_ast a = nullptr; E ve = F.mk(E_VAR, vi.width, v, 0);
      u64 val = 0;
      if (Z3_model_eval(ctx, m, tr(ve), true, &a)) Z3_get_numeral_uint64(ctx, a, (uint64_t*)&val);
      ce.m.push_back({v, val});
    }
    Z3_model_dec_ref(ctx, m);
  } else if (ce.r == 0) SS.unsat++; else SS.unknown++;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  SS.time += dt; SS.maxTime = std::max(SS.maxTime, dt);
  if (out) *out = ce.m;
  if (cache.size() < 2000000) cache[key] = ce;
  return ce.r;
}

double evalPoly(P p, const Model& m) {
  long double s = 0;
  for (auto& t : p->t) { long double x = (long double)(i64)(u64)evalE(t.second, m); if (x != 0) for (E a : t.first.atoms) x *= bitsToD(evalE(a, m), a->width); s += x; }
  return (double)std::ldexp(s, -p->scale);
}
u128 evalE(E e, const Model& m) {
  if (e->isConst()) return e->c;
  if (e->op == E_VAR) return m.get(e->aux) & maskw(e->width);
  auto it = m.memo.find(e->id); if (it != m.memo.end()) return it->second;
  u128 r = 0; unsigned w = e->width;
  switch (e->op) {
  case E_ITE: r = evalE(e->k[0], m) ? evalE(e->k[1], m) : evalE(e->k[2], m); break;
  case E_ZEXT: r = evalE(e->k[0], m); break;
  case E_SEXT: r = (u128)sextc(evalE(e->k[0], m), e->k[0]->width) & maskw(w); break;
  case E_EXTRACT: r = (evalE(e->k[0], m) >> e->aux) & maskw(w); break;
  case E_CONCAT: r = (evalE(e->k[0], m) << e->k[1]->width) | evalE(e->k[1], m); break;
  case E_FBITS: r = dToBits(evalPoly(e->poly, m), w); break;
  case E_FCVT: r = dToBits(fcvtEval(e->aux, bitsToD(evalE(e->k[0], m), e->k[0]->width), e->aux == FC_EXT ? 64 : e->width, 0), w); break;
  case E_TOK: r = '#'; break;
  case E_AGG: r = 0; break;
  default: r = foldBin(e->op, evalE(e->k[0], m), evalE(e->k[1], m), e->k[0]->width);
  }
  m.memo[e->id] = r; return r;
}
std::string smtlibOf(const std::vector<E>& cs) {
  std::string s; Z3_solver t = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, t);
  for (E c : cs) { Z3_solver_assert(ctx, t, trBool(c)); for (u32 v : varsOf(c)->v) { const VarInfo& vi = F.varInfo[v]; if (vi.maxv != maskw(vi.width)) Z3_solver_assert(ctx, t, Z3_mk_bvule(ctx, tr(F.mk(E_VAR, vi.width, v, 0)), num(vi.maxv, vi.width))); } }
  s = Z3_solver_to_string(ctx, t); Z3_solver_dec_ref(ctx, t);
  return s;
}
