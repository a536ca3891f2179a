// gsbsym: bounded symbolic execution of LLVM IR with Z3, for /verif harnesses.
#include "solver.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <deque>
#include <csignal>
#include <sys/resource.h>
using namespace llvm;
unsigned tz(E e);

typedef std::chrono::steady_clock Clk;
static Clk::time_point T0;
static double now() { return std::chrono::duration<double>(Clk::now() - T0).count(); }

// ------------------------------------------------------------------ options / results
static std::map<std::string, u64> params;
static double maxTime = 300; static u64 maxPaths = 10000000; static u64 maxInsts = 4000000000ULL; static int maxSamples = 6; static size_t maxErrors = 6;
static std::string caseDir, outFile; static bool forkStores = false; static int verbose = 0; static u64 pathInstLimit = 10000000;

// ------------------------------------------------------------------ program representation
struct KFunc; struct KBlock;
struct Opnd { int reg; E cst; };
struct KInst { Instruction* I; unsigned op; int dst; std::vector<Opnd> ops; u64 a = 0, b = 0; unsigned w = 0, w2 = 0; KFunc* callee = nullptr; int handler = -1;
  std::vector<std::pair<int, u64>> gep; // (operand index, scale)
  KBlock* bb[2] = {nullptr, nullptr}; int id = 0; std::string* iasm = nullptr; bool rt = false; };
struct KPhi { int dst; std::vector<std::pair<KBlock*, Opnd>> in; };
struct KBlock { BasicBlock* B; std::vector<KPhi> phis; std::vector<KInst*> insts; KFunc* fn; };
struct KFunc { Function* Fn; std::string name; std::vector<KBlock*> blocks; int nregs = 0; int nargs = 0; bool rt = false; bool decoded = false; u64 calls = 0; std::string file; };
static std::map<Function*, KFunc*> kfuncs; static std::unordered_map<u64, KFunc*> funcByAddr; static std::map<Function*, u64> funcAddr;
static std::map<const GlobalVariable*, u64> globAddr;
static Module* M; static const DataLayout* DL;

// ------------------------------------------------------------------ memory
enum Kind { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_RT };
static const char* kindName(int k) { static const char* n[] = {"global", "stack", "malloc", "new", "new[]", "runtime"}; return n[k]; }
struct Slot { E e; uint8_t i; };
struct Obj { u64 addr, size; Kind kind; bool alive = true, freed = false, norace = false, ro = false; u32 allocLoc = 0; u64 seq = 0; int owner = -1;
  std::vector<uint8_t> data, tag; std::vector<Slot> sym; };
typedef std::shared_ptr<Obj> ObjP;
struct Acc { int strand; u32 lo, hi; E off; bool w; bool atomic; u32 lock; u32 loc; int uid; };
// Accesses to one object: those at known addresses by 64-byte bucket, the others (symbolic or long) in one list.
struct AccObj { std::vector<Acc> wide; std::unordered_map<u32, std::vector<Acc>> b; };
struct AccTab { std::unordered_map<u64, AccObj> m; };
struct Strands { std::vector<std::shared_ptr<std::vector<u64>>> anc; };

struct Frame { KFunc* f; KBlock* bb; KBlock* prev; size_t ip; std::vector<E> regs; std::vector<u64> allocas; int dst; int marker; /*0 normal,1 task,2 try,3 thread base,4 nested team*/ u64 x = 0, y = 0; };
struct Disp { i64 lo = 0, up = 0, st = 1, ch = 1, k = 0, trip = 0; int base = 0; std::vector<int> ends; };
struct Thread { int pushThr = 0, inTask = 0, uid = 0; bool chunk = false; std::vector<Disp> disps{1}; std::vector<Frame> stk; int strand = 0; int tid = 0; int nthr = 1; int level = 0; int status = 0; /*0 run 1 barrier 2 done 3 waiting join*/ std::vector<std::vector<int>> kids{1}; u32 lock = 0; int parent = -1; int chunkBase = -1; std::vector<int> chunkEnds; std::vector<int> allTasks; };
struct SymEnt { std::string name; E e; int bits; int kind; };
struct State {
  u64 id = 0; std::vector<ObjP> mem; std::vector<Thread> th; int cur = 0; std::vector<E> cons; ModelP model;
  u64 nextAddr = 0x100000000ULL; u64 allocSeq = 0, leakBase = 0; int maxThreads = 4; int par = 0; std::shared_ptr<AccTab> acc; std::shared_ptr<Strands> str;
  std::vector<SymEnt> syms; std::vector<E> obs; u64 steps = 0; bool imprecise = false; u64 depth = 0; std::map<std::string, u64> nameCount; u32 singleCtr = 0;
  bool dead = false; u64 lives = 0; u32 facts = 0;
};
typedef std::shared_ptr<State> StateP;
static std::vector<ObjP> globals; // shared, copied into each state at start
static std::deque<StateP> work;

struct Err { std::string kind, msg, loc, fn, stack, caseFile; bool imprecise; u64 path; };
static std::vector<Err> errors; static std::set<std::string> errKeys;
static std::map<std::string, u64> incompletes; static std::map<std::string, u64> covers;
static u64 nPaths = 0, nForks = 0, nInsts = 0, nAsserts = 0, nSolverAsserts = 0, nErrPaths = 0, nRaceChecks = 0, nRaceQueries = 0, stateSeq = 0, nAbortedPaths = 0, maxDepth = 0, nMemSym = 0, nInfeasible = 0;
static std::vector<std::string> sampleFiles; static std::set<u64> touchedLines; static std::map<std::string, std::string> fnFiles; static u64 prng = 88172645463325252ULL;
static u64 factForks = 0, nReal = 0; static double realTime = 0;
static u64 rnd() { prng ^= prng << 13; prng ^= prng >> 7; prng ^= prng << 17; return prng; }
static std::vector<KInst*> allInsts; 
static std::vector<StateP> forkedNow;

struct PathEnd {}; // thrown to stop a path (compiled with exceptions)
struct Refork {};  // instruction must be re-executed by both sides (already queued)

static State* S; static KInst* CI;
static Thread& T() { return S->th[S->cur]; }
static Frame& FR() { return T().stk.back(); }

static std::string locOf(KInst* k) {
  if (!k || !k->I) return "?";
  if (DILocation* L = k->I->getDebugLoc().get()) {
    std::string f = L->getFilename().str(); 
    return f + ":" + std::to_string(L->getLine());
  }
  return k->I->getFunction()->getName().str();
}
static std::string fnName(KFunc* f) { if (!f || !f->Fn) return "?"; auto* sp = f->Fn->getSubprogram(); return sp ? sp->getName().str() : f->Fn->getName().str(); }
static std::string stackOf() {
  std::string s; auto& st = T().stk;
  for (int i = (int)st.size() - 1; i >= 0 && i > (int)st.size() - 9; i--) { Frame& f = st[i]; KInst* k = f.ip < f.bb->insts.size() ? f.bb->insts[f.ip] : nullptr; s += (s.empty() ? "" : " < ") + locOf(k) + "(" + fnName(f.f) + ")"; }
  return s;
}
static std::string repoLoc() { // innermost frame outside the runtime
  auto& st = T().stk;
  for (int i = (int)st.size() - 1; i >= 0; i--) { Frame& f = st[i]; if (f.f->rt) continue; KInst* k = f.ip < f.bb->insts.size() ? f.bb->insts[f.ip] : nullptr; std::string l = locOf(k); if (l.find("/verif/") == std::string::npos && l.find("/usr/") == std::string::npos) return l; }
  return st.empty() ? "?" : locOf(CI);
}
static std::string repoFn() { // innermost function outside the runtime, the standard library and the harness
  auto& st = T().stk;
  for (int i = (int)st.size() - 1; i >= 0; i--) { Frame& f = st[i]; if (f.f->rt) continue; if (f.f->file.find("/verif/") == std::string::npos && f.f->file.find("/usr/") == std::string::npos && !f.f->file.empty()) return fnName(f.f); }
  return "";
}
static void incomplete(const std::string& why) { incompletes[why]++; if (verbose) fprintf(stderr, "INCOMPLETE %s at %s\n", why.c_str(), stackOf().c_str()); }
[[noreturn]] static void stopIncomplete(const std::string& why) { incomplete(why + " @ " + locOf(CI)); S->dead = true; nAbortedPaths++; throw PathEnd(); }

// ------------------------------------------------------------------ constraints
static std::vector<E> relevant(E c) {
  // constraint independence slicing
  std::vector<E> out; std::set<u32> vs(varsOf(c)->v.begin(), varsOf(c)->v.end()); std::vector<char> used(S->cons.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < S->cons.size(); i++) if (!used[i]) { const auto& v = varsOf(S->cons[i])->v; bool hit = false; for (u32 x : v) if (vs.count(x)) { hit = true; break; }
        if (hit) { used[i] = 1; out.push_back(S->cons[i]); for (u32 x : v) if (vs.insert(x).second) ch = true; } } }
  return out;
}
static int query(E c, ModelP* out) { // is cons && c satisfiable?
  if (c->isConst()) { if (c->c && out) *out = S->model; return (int)c->c; }
  std::vector<E> cs = relevant(c); cs.push_back(c);
  std::vector<std::pair<u32, u64>> mv; int r = solverCheck(cs, &mv);
  if (r == 1 && out) { ModelP m = std::make_shared<Model>(); m->v = S->model->v; for (auto& p : mv) m->set(p.first, p.second); *out = m; }
  if (r < 0) incomplete("solver-unknown @ " + locOf(CI));
  return r;
}
static void addCons(E c) { if (!c->isConst()) { if (std::find(S->cons.begin(), S->cons.end(), c) == S->cons.end()) S->cons.push_back(c); } }
static StateP cloneState() { StateP n = std::make_shared<State>(*S); n->id = ++stateSeq; nForks++; return n; }
static bool hasFact(E e) { for (u32 v : varsOf(e)->v) if (F.varInfo[v].kind == 3) return true; return false; }
// Decide a 1-bit expression: returns the side taken by the current state, queues the other side if feasible.
// Both sides resume at the current instruction (the decision is then implied by constraints + model).
static bool decide(E c) {
  if (c->isConst()) return c->c != 0;
  for (E x : S->cons) { if (x == c) return true; if (mkNot(c) == x) return false; }
  bool v = evalE(c, *S->model) != 0; SS.modelHits++;
  E other = v ? mkNot(c) : c; ModelP m; int r = query(other, &m);
  if (r == 1) {
    StateP n = cloneState(); n->model = m; n->cons.push_back(other); n->depth++; work.push_back(n); if (S->facts && hasFact(c)) factForks++;
  }
  if (r == 1 || r < 0) addCons(v ? c : mkNot(c));
  else if (r == 0 && (g_imprecise)) {}
  S->depth++; if (S->depth > maxDepth) maxDepth = S->depth;
  return v;
}
static u64 concretize(E e) {
  if (e->isConst()) return e->cv();
  for (;;) {
    u64 v = (u64)evalE(e, *S->model);
    E c = mkEq(e, C(v, e->width));
    if (c->isConst()) { if (c->c) return v; stopIncomplete("concretize"); }
    bool d = decide(c); if (d) return v;
  }
}

// ------------------------------------------------------------------ test cases
static u64 floatChoice(u32 var, unsigned w, int attempt) {
  static const int pr[] = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61};
  int idx = attempt == 0 ? (var * 7 + 1) % 17 : rnd() % 17; double d = pr[idx]; if (attempt == 0 ? (var % 5 == 3) : (rnd() % 4 == 0)) d = -d;
  if (attempt >= 10 && attempt < 20 && w == 64) d *= 1048583; // more bits than a float holds; products are still exact
  if (attempt >= 20) { static const double q[] = {1.0 / 3, 1e-7, 123456.789, 3e-12, 1e10 / 7}; d *= q[rnd() % 5]; if (w == 32) d = (float)d; } // only when whole numbers do not show the difference
  return dToBits(d, w);
}
static bool hasConsOn(u32 v) { for (E c : S->cons) for (u32 x : varsOf(c)->v) if (x == v) return true; return false; }
static std::set<u32> constrainedVars() { std::set<u32> s; for (E c : S->cons) for (u32 v : varsOf(c)->v) s.insert(v); return s; }
static void fillFloats(Model& m, int attempt) {
  auto cv = constrainedVars();
  for (auto& s : S->syms) if (s.kind == 1) for (u32 v : varsOf(s.e)->v) if (!cv.count(v)) m.set(v, floatChoice(v, F.varInfo[v].width, attempt));
  m.memo.clear();
}
static std::string writeCase(const Model& m, const std::string& name, const std::string& hdr) {
  if (caseDir.empty()) return "";
  std::string fn = caseDir + "/" + name; std::ofstream o(fn);
  o << "# " << hdr << "\n";
  for (auto& p : params) o << "param " << p.first << " " << p.second << "\n";
  for (auto& s : S->syms) o << "sym " << s.name << " " << s.bits << " " << (unsigned long long)(u64)evalE(s.e, m) << "\n";
  for (E e : S->obs) o << "obs " << (unsigned long long)(u64)evalE(e, m) << " " << (varsOf(e)->v.empty() ? 1 : 1) << "\n";
  return fn;
}
// ---------------------------------------------------------------- comparisons of values
// A comparison of symbolic values is a 1-bit variable that stands for "poly == 0" or "poly <= 0" over the reals. Paths and
// assertions that depend on such variables are decided together with these facts by the solver for real arithmetic.
struct Fact { P d; bool eq; };
static std::unordered_map<u32, Fact> factOf; static std::map<std::pair<P, bool>, E> factVar;
static double defVal(E a) { // the value an expression has with the default choice of the inputs
  if (a->isConst()) return bitsToD(a->c, a->width);
  if (a->op == E_VAR && F.varInfo[a->aux].kind == 1) return bitsToD(floatChoice(a->aux, a->width, 0), a->width);
  if (a->op == E_FCVT) return fcvtEval(a->aux, defVal(a->k[0]), a->aux == FC_EXT ? 64 : a->width, 0);
  if (a->op == E_ITE) return evalE(a->k[0], *S->model) ? defVal(a->k[1]) : defVal(a->k[2]);
  if (a->op == E_FBITS) { long double s = 0; for (auto& t : a->poly->t) { long double x = (long double)(i64)(u64)evalE(t.second, *S->model); for (E b : t.first.atoms) x *= defVal(b); s += x; } return (double)std::ldexp(s, -a->poly->scale); }
  return bitsToD(evalE(a, *S->model), a->width);
}
static bool factHolds(const Fact& f, double v) { return f.eq ? v == 0 : v <= 0; }
static E factE(P d, bool eq) {
  if (eq && !factVar.count({d, true}) && factVar.count({polyNeg(d), true})) d = polyNeg(d);
  bool full = S->facts >= 40 || factForks > 3000 || (factForks > 30 && now() > 20);
  if (full && !factVar.count({d, eq})) { incomplete("comparisons of values"); if (now() > 100) stopIncomplete("comparisons of values"); return C(factHolds({d, eq}, defVal(fromPoly(d, 64))), 1); } // one side only
  E& v = factVar[{d, eq}]; if (!v) { v = F.newVar("cmp", 1, 1, 3); factOf[v->aux] = {d, eq}; }
  for (E c : S->cons) if (c == v || c == mkNot(v)) return v;
  bool t = factHolds({d, eq}, defVal(fromPoly(d, 64)));
  if (full) { incomplete("comparisons of values"); return C(t, 1); }
  S->facts++; if ((S->model->get(v->aux) != 0) != t && !hasConsOn(v->aux)) { auto m = std::make_shared<Model>(*S->model); m->memo.clear(); m->set(v->aux, t); S->model = m; }
  return v;
}
struct RealQ { // one question over the reals: facts with given truth values, and a polynomial that is not zero
  Z3_context c; const Model& m; std::map<u32, Z3_ast> vars; bool bad = false; bool whole;
  RealQ(const Model& mm, bool w) : m(mm), whole(w) { Z3_config g = Z3_mk_config(); c = Z3_mk_context(g); Z3_del_config(g); }
  ~RealQ() { Z3_del_context(c); }
  Z3_sort R() { return Z3_mk_real_sort(c); }
  Z3_ast frac(double x) { int e; double f = std::frexp(x, &e); i64 n = (i64)std::ldexp(f, 53); e -= 53; if (!std::isfinite(x)) { bad = true; return Z3_mk_real(c, 0, 1); } while (n && !(n & 1)) { n >>= 1; e++; }
    if (e > 400 || e < -400) { bad = true; return Z3_mk_real(c, 0, 1); } std::string s = "1"; Z3_ast two = Z3_mk_real(c, 2, 1), r = Z3_mk_numeral(c, std::to_string((long long)n).c_str(), R()); for (int i = 0; i < std::abs(e); i++) { Z3_ast a[2] = {r, two}; r = e > 0 ? Z3_mk_mul(c, 2, a) : Z3_mk_div(c, r, two); } return Z3_simplify(c, r); }
  Z3_ast atom(E a) {
    if (a->isConst()) return frac(bitsToD(a->c, a->width));
    if (a->op == E_VAR && F.varInfo[a->aux].kind == 1) { auto& v = vars[a->aux]; if (!v) { std::string n = "r" + std::to_string(a->aux); if (whole) v = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), Z3_mk_int_sort(c)); else v = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), R()); } if (whole) return Z3_mk_div(c, Z3_mk_int2real(c, v), Z3_mk_real(c, 4, 1)); return v; }
    if (a->op == E_FCVT && (a->aux == FC_EXT || a->aux == FC_TRUNC)) return atom(a->k[0]);
    if (a->op == E_FCVT && a->aux == FC_FABS) { Z3_ast x = atom(a->k[0]); return Z3_mk_ite(c, Z3_mk_lt(c, x, Z3_mk_real(c, 0, 1)), Z3_mk_unary_minus(c, x), x); }
    if (a->op == E_ITE) return evalE(a->k[0], m) ? atom(a->k[1]) : atom(a->k[2]);
    if (a->op == E_FBITS) return poly(a->poly, true);
    bad = true; return Z3_mk_real(c, 0, 1);
  }
  Z3_ast poly(P p, bool scaled) {
    std::vector<Z3_ast> s; for (auto& t : p->t) { i64 k = (i64)(u64)evalE(t.second, m); if (!k) continue; std::vector<Z3_ast> f; f.push_back(Z3_mk_numeral(c, std::to_string((long long)k).c_str(), R())); for (E a : t.first.atoms) f.push_back(atom(a)); s.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(c, f.size(), f.data())); }
    Z3_ast r = s.empty() ? Z3_mk_real(c, 0, 1) : s.size() == 1 ? s[0] : Z3_mk_add(c, s.size(), s.data());
    if (scaled && p->scale) { Z3_ast a[2] = {r, frac(std::ldexp(1.0, -p->scale))}; r = Z3_mk_mul(c, 2, a); } return r;
  }
  int solve(const std::vector<std::pair<Fact, bool>>& fs, P diff, std::map<u32, double>& out, bool visible) {
    auto t0 = Clk::now(); Z3_solver s = whole ? Z3_mk_solver(c) : Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_NRA")); Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), whole ? 2000 : 5000); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
    Z3_ast z = Z3_mk_real(c, 0, 1); for (auto& f : fs) { Z3_ast x = poly(f.first.d, false), b = f.first.eq ? Z3_mk_eq(c, x, z) : Z3_mk_le(c, x, z); Z3_solver_assert(c, s, f.second ? b : Z3_mk_not(c, b)); }
    if (diff && !visible) Z3_solver_assert(c, s, Z3_mk_not(c, Z3_mk_eq(c, poly(diff, false), z)));
    if (diff && visible) { Z3_ast x = poly(diff, true), one = Z3_mk_real(c, 1, 1), a[2] = {Z3_mk_ge(c, x, one), Z3_mk_le(c, x, Z3_mk_unary_minus(c, one))}; Z3_solver_assert(c, s, Z3_mk_or(c, 2, a)); }
    if (whole) for (auto& v : vars) { Z3_solver_assert(c, s, Z3_mk_le(c, v.second, Z3_mk_int(c, 1 << 20, Z3_mk_int_sort(c)))); Z3_solver_assert(c, s, Z3_mk_ge(c, v.second, Z3_mk_int(c, -(1 << 20), Z3_mk_int_sort(c)))); }
    int r = -1; if (!bad) { Z3_lbool l = Z3_solver_check(c, s); r = l == Z3_L_TRUE ? 1 : l == Z3_L_FALSE ? 0 : -1; }
    if (r == 1) { Z3_model mo = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, mo); for (auto& v : vars) { Z3_ast a = nullptr; Z3_model_eval(c, mo, v.second, true, &a); double d = 0; if (a) d = strtod(Z3_get_numeral_decimal_string(c, a, 20), 0); out[v.first] = whole ? d / 4 : d; } Z3_model_dec_ref(c, mo); }
    Z3_solver_dec_ref(c, s); nReal++; double dt = std::chrono::duration<double>(Clk::now() - t0).count(); realTime += dt; SS.queries++; SS.time += dt; SS.maxTime = std::max(SS.maxTime, dt); if (r == 1) SS.sat++; else if (r == 0) SS.unsat++; else SS.unknown++;
    return r;
  }
};
static void factVars(E e, std::set<u32>& s) { for (u32 v : varsOf(e)->v) if (F.varInfo[v].kind == 3) s.insert(v); }
// Are there values of the inputs that make the comparisons come out as in the model m (and diff non-zero)? On 1 they are put into m.
static int realFix(Model& m, E cond, P diff) {
  std::set<u32> vs; for (E c : S->cons) factVars(c, vs); if (cond) factVars(cond, vs); if (diff) for (auto& t : diff->t) factVars(t.second, vs);
  std::vector<std::pair<Fact, bool>> fs; for (u32 v : vs) fs.push_back({factOf[v], m.get(v) != 0}); fillFloats(m, 0);
  for (int level = 0; level < 3; level++) { // any values; values that rounding does not hide; whole numbers
    std::map<u32, double> val; int r; if (level == 1 && !diff) continue; { RealQ q(m, level == 2); r = q.solve(fs, diff, val, level > 0); }
    if (r != 1) { if (!level) return r; continue; }
    Model k = m; for (auto& p : val) k.set(p.first, dToBits(p.second, F.varInfo[p.first].width)); k.memo.clear();
    bool ok = true; for (auto& f : fs) ok = ok && factHolds(f.first, evalPoly(f.first.d, k)) == f.second; double d = diff ? std::fabs(std::ldexp((double)evalPoly(diff, k), -diff->scale)) : 1;
    if (!level || (ok && d >= 1)) m = k; if (ok && d >= 1) return 1; }
  return 1;
}
// Is the state feasible together with cond and diff != 0? 1 with a model, 0 no, -1 not known
static int realCheck(E cond, P diff, ModelP& out) {
  for (int it = 0; it < 30; it++) {
    ModelP q; int r; if (cond->isConst()) { r = cond->c != 0; q = S->model; } else r = query(cond, &q); if (r != 1) return r;
    Model m = *q; m.memo.clear(); r = realFix(m, cond, diff); if (r == 1) { out = std::make_shared<Model>(m); return 1; } if (r < 0) return -1;
    std::set<u32> vs; for (E c : S->cons) factVars(c, vs); factVars(cond, vs); std::vector<E> cf; if (diff) for (auto& t : diff->t) { factVars(t.second, vs); cf.push_back(t.second); } for (u32 v : vs) for (auto& t : factOf[v].d->t) cf.push_back(t.second);
    E other = bFalse(); for (u32 v : vs) { E e = F.mk(E_VAR, 1, v, 0); bool fixed = false; for (E c : S->cons) fixed |= c == e || c == mkNot(e); if (!fixed) other = mkOr(other, m.get(v) ? mkNot(e) : e); }
    for (E e : cf) if (!e->isConst()) other = mkOr(other, mkNot(mkEq(e, C(evalE(e, m), e->width))));
    cond = mkAnd(cond, other);
  }
  return -1;
}
static void report(const std::string& kind, const std::string& msg, ModelP m, bool floatsDone = false) {
  std::string loc = repoLoc(); std::string key = kind + "|" + msg + "|" + locOf(CI) + "|" + loc;
  nErrPaths++;
  if (S->lives) return;
  int n = 0; for (auto& e : errors) if (e.kind == kind && e.loc == loc && e.msg == msg) n++;
  if (n >= 3 || errors.size() >= maxErrors * 4) return;
  errKeys.insert(key);
  Model mm = *m; mm.memo.clear(); bool im = false; if (!floatsDone) { if (S->facts) im = realFix(mm, nullptr, nullptr) != 1; else fillFloats(mm, 0); }
  Err e; e.kind = kind; e.msg = msg; e.loc = loc; e.fn = repoFn(); e.stack = stackOf(); e.imprecise = g_imprecise || S->imprecise || im; e.path = S->id;
  e.caseFile = writeCase(mm, "err" + std::to_string(errors.size()) + ".case", kind + ": " + msg + " @ " + loc);
  errors.push_back(e);
  if (verbose) fprintf(stderr, "ERROR %s %s @ %s [%s]\n", kind.c_str(), msg.c_str(), loc.c_str(), e.stack.c_str());
}
[[noreturn]] static void fatal(const std::string& kind, const std::string& msg) {
  if (S->facts) { ModelP m; int r = realCheck(bTrue(), nullptr, m); if (r == 1) report(kind, msg, m, true); else if (r < 0) { S->imprecise = true; report(kind, msg, S->model); } else nInfeasible++; }
  else report(kind, msg, S->model);
  S->dead = true; throw PathEnd(); }

// ------------------------------------------------------------------ memory operations
static int findObj(u64 a) { // index of the object with addr <= a < addr+max(size,1), or -1
  auto& v = S->mem; size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->addr <= a) lo = m + 1; else hi = m; }
  if (!lo) return -1; Obj* o = v[lo - 1].get(); if (a < o->addr + std::max<u64>(o->size, 1)) return (int)lo - 1; return -1;
}
static int nearestObj(u64 a) { auto& v = S->mem; size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->addr <= a) lo = m + 1; else hi = m; } return (int)lo - 1; }
static Obj* wr(int i) { ObjP& p = S->mem[i]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
static u64 newObj(u64 size, Kind k, u64 align = 16) {
  auto o = std::make_shared<Obj>(); u64 a = S->nextAddr; if (align < 16) align = 16; a = (a + align - 1) / align * align;
  o->addr = a; o->size = size; o->kind = k; o->data.assign(size, 0); o->tag.assign(size, 0); o->allocLoc = CI ? CI->id : 0; o->seq = ++S->allocSeq; o->owner = !S->th.empty() && !T().inTask ? T().uid : -1;
  S->nextAddr = a + ((size + 15) / 16 * 16) + 4096; // redzone
  S->mem.push_back(o); return a;
}
static E readBytes(int oi, u64 off, unsigned n) {
  Obj* o = S->mem[oi].get();
  bool allC = true, anyU = false; for (unsigned i = 0; i < n; i++) { if (o->tag[off + i] != 1) allC = false; if (o->tag[off + i] == 0) anyU = true; }
  if (allC) { u128 v = 0; for (unsigned i = 0; i < n; i++) v |= (u128)o->data[off + i] << (8 * i); return C(v, 8 * n); }
  if (anyU) { // uninitialised: arbitrary contents
    o = wr(oi); if (o->sym.empty()) o->sym.resize(o->size, Slot{nullptr, 0});
    static u64 uc = 0; bool all = true; for (unsigned i = 0; i < n; i++) if (o->tag[off + i]) all = false;
    if (all) { E v = F.newVar("uninit" + std::to_string(uc++), 8 * n, maskw(8 * n), 2); for (unsigned i = 0; i < n; i++) { o->tag[off + i] = 2; o->sym[off + i] = {v, (uint8_t)i}; } return v; }
    for (unsigned i = 0; i < n; i++) if (!o->tag[off + i]) { E v = F.newVar("uninit" + std::to_string(uc++), 8, 255, 2); o->tag[off + i] = 2; o->sym[off + i] = {v, 0}; }
  }
  if (o->tag[off] == 2) { Slot s = o->sym[off]; if (s.i == 0 && s.e->width == 8 * n) { bool ok = true; for (unsigned i = 1; i < n; i++) if (o->tag[off + i] != 2 || o->sym[off + i].e != s.e || o->sym[off + i].i != i) ok = false; if (ok) return s.e; } }
  E r = nullptr;
  for (unsigned i = 0; i < n;) {
    E p; unsigned len = 1;
    if (o->tag[off + i] == 1) { u128 v = o->data[off + i]; while (i + len < n && o->tag[off + i + len] == 1) { v |= (u128)o->data[off + i + len] << (8 * len); len++; } p = C(v, 8 * len); }
    else { Slot s = o->sym[off + i]; while (i + len < n && o->tag[off + i + len] == 2 && o->sym[off + i + len].e == s.e && o->sym[off + i + len].i == s.i + len) len++; p = mkExtract(s.e, 8 * s.i, 8 * len); }
    r = r ? mkConcat(p, r) : p; i += len;
  }
  return r;
}
static void writeBytes(int oi, u64 off, E v, unsigned n) {
  Obj* o = wr(oi);
  if (v->width < 8 * n) v = mkZext(v, 8 * n);
  if (v->isConst()) { for (unsigned i = 0; i < n; i++) { o->tag[off + i] = 1; o->data[off + i] = (uint8_t)(v->c >> (8 * i)); } return; }
  if (o->sym.empty()) o->sym.resize(o->size, Slot{nullptr, 0});
  for (unsigned i = 0; i < n; i++) { o->tag[off + i] = 2; o->sym[off + i] = {v, (uint8_t)i}; }
}
// -------------- races
static bool hb(int a, int b) { // strand a happens before b
  if (a == b) return true; auto& A = *S->str->anc[b]; return (a >> 6) < (int)A.size() && (A[a >> 6] >> (a & 63) & 1);
}
static int newStrand(const std::vector<int>& preds) {
  auto st = std::make_shared<Strands>(*S->str); auto bits = std::make_shared<std::vector<u64>>();
  for (int p : preds) { auto& A = *st->anc[p]; if (bits->size() < A.size()) bits->resize(A.size(), 0); for (size_t i = 0; i < A.size(); i++) (*bits)[i] |= A[i]; if ((int)bits->size() <= (p >> 6)) bits->resize((p >> 6) + 1, 0); (*bits)[p >> 6] |= 1ULL << (p & 63); }
  st->anc.push_back(bits); S->str = st; return (int)st->anc.size() - 1;
}
static void recordAcc(int oi, u64 lo, u64 hi, E off, bool w, bool atomic, const char* what = nullptr) {
  if (!S->par) return; Thread& t = T(); if (t.stk.back().f->rt && !(CI && CI->handler >= 0)) return;
  Obj* o = S->mem[oi].get(); if (o->norace || o->ro || o->kind == K_RT) return;
  if (hi <= lo) return;
  u64 key = o->addr; int st = t.strand;
  AccObj* ob = nullptr; bool wide = off || hi - lo > 65536;
  { auto it = S->acc->m.find(key); if (it != S->acc->m.end()) ob = &it->second; }
  auto check = [&](std::vector<Acc>& v) {
    for (auto& a : v) {
      if (a.strand == st || !(a.w || w) || (a.atomic && atomic) || (a.lock & t.lock)) continue;
      if (!a.off && !off && (a.hi <= lo || hi <= a.lo)) continue;
      if (hb(a.strand, st)) continue;
      if (!t.inTask && o->owner == t.uid && a.uid == t.uid && o->kind == K_STACK) continue; // private to one thread's dynamic loop chunks
      E ov;
      if (!a.off && !off) ov = bTrue();
      else { E ao = a.off ? a.off : C(a.lo, 64), bo = off ? off : C(lo, 64); u64 an = a.hi - a.lo, bn = hi - lo;
        ov = mkAnd(mkBin(E_ULT, ao, mkBin(E_ADD, bo, C(bn, 64))), mkBin(E_ULT, bo, mkBin(E_ADD, ao, C(an, 64)))); }
      ModelP m; if (!ov->isConst()) nRaceQueries++; int r = query(ov, &m);
      if (r == 1) { std::string l1 = a.loc < allInsts.size() ? locOf(allInsts[a.loc]) : "?"; report("race", std::string("unordered ") + (a.w ? "write" : "read") + "/" + (w ? "write" : "read") + (what ? what : "") + " of the same bytes, other access at " + l1, m); S->dead = true; throw PathEnd(); }
    } };
  auto known = [&](std::vector<Acc>& v) { for (auto& a : v) if (a.strand == st && a.off == off && a.lo <= lo && a.hi >= hi && (a.w || !w) && a.atomic == atomic && a.lock == t.lock) return true; return false; };
  u32 b0 = (u32)(lo >> 6), b1 = (u32)((hi - 1) >> 6);
  if (ob) {
    nRaceChecks++; check(ob->wide);
    if (off) { for (auto& q : ob->b) check(q.second); }
    else for (u32 q = b0; q <= b1; q++) { auto it = ob->b.find(q); if (it != ob->b.end()) check(it->second); if (ob->b.size() < b1 - b0) { for (auto& z : ob->b) check(z.second); break; } }
    if (known(ob->wide)) return;
    if (!wide) { auto it = ob->b.find(b0); if (it != ob->b.end() && known(it->second)) return; }
  }
  if (S->acc.use_count() > 1) S->acc = std::make_shared<AccTab>(*S->acc);
  AccObj& n = S->acc->m[key]; Acc rec{st, (u32)lo, (u32)hi, off, w, atomic, t.lock, (u32)(CI ? CI->id : 0), t.inTask ? -2 : t.uid};
  if (wide) { n.wide.push_back(rec); return; }
  for (u32 q = b0; q <= b1; q++) {
    auto& v = n.b[q]; bool joined = false;
    for (auto& z : v) if (z.strand == st && (z.hi == rec.lo || rec.hi == z.lo) && z.w == w && z.atomic == atomic && z.lock == rec.lock && z.uid == rec.uid) { if (z.hi == rec.lo) z.hi = rec.hi; else z.lo = rec.lo; joined = true; break; }
    if (!joined) v.push_back(rec);
  }
}
// Resolve an address of `n` bytes. Returns object index; off is null when concrete (value in coff).
static int resolve(E addr, u64 n, bool isW, u64& coff, E& off, const char* what) {
  auto bad = [&](u64 a, const std::string& w) { int ni = nearestObj(a); std::string d; if (a < 4096) d = "null pointer"; else if (ni >= 0) { Obj* o = S->mem[ni].get(); d = std::string(kindName(o->kind)) + " object of " + std::to_string(o->size) + " bytes"; (void)o; }
    fatal(a < 4096 ? "null" : "oob", std::string(what) + " of " + std::to_string(n) + " bytes outside " + d + w); };
  u64 a0 = addr->isConst() ? addr->cv() : (u64)evalE(addr, *S->model);
  int oi = findObj(a0);
  if (oi < 0) bad(a0, "");
  Obj* o = S->mem[oi].get();
  if (!o->alive) fatal(o->kind == K_STACK ? "uaf" : "uaf", std::string(what) + " of freed " + kindName(o->kind) + " memory");
  if (a0 + n > o->addr + o->size) bad(a0, "");
  if (isW && o->ro) fatal("oob", "write to constant memory");
  if (addr->isConst()) { coff = a0 - o->addr; off = nullptr; return oi; }
  nMemSym++;
  off = mkBin(E_SUB, addr, C(o->addr, 64));
  E inb = mkBin(E_ULE, off, C(o->size - n, 64));
  if (!decide(inb)) stopIncomplete("resolve"); // the model satisfies inb, so decide() returns true
  off = mkBin(E_SUB, addr, C(o->addr, 64));
  return oi;
}
static void candidates(E off, u64 maxOff, std::vector<u64>& out) {
  u64 lo = 0, hi = maxOff; if (off->umax <= hi) hi = (u64)off->umax; if (off->umin > lo && off->umin <= hi) lo = (u64)off->umin;
  unsigned t = std::min(tz(off), 6u); u64 st = 1ULL << t; lo = (lo + st - 1) / st * st;
  for (u64 o = lo; o <= hi; o += st) { E c = mkEq(off, C(o, 64)); if (c->isConst() && !c->c) continue; out.push_back(o); if (out.size() > 1024) return; }
}
static E loadMem(E addr, unsigned n, bool atomic = false) {
  u64 co; E off; int oi = resolve(addr, n, false, co, off, "read");
  if (!off) { recordAcc(oi, co, co + n, nullptr, false, atomic); return readBytes(oi, co, n); }
  std::vector<u64> cand; candidates(off, S->mem[oi]->size - n, cand);
  if (cand.size() > 1024) { u64 v = concretize(off); recordAcc(oi, v, v + n, nullptr, false, atomic); return readBytes(oi, v, n); }
  if (cand.empty()) stopIncomplete("no candidate offset");
  recordAcc(oi, 0, n, off, false, atomic);
  E r = nullptr; for (int i = (int)cand.size() - 1; i >= 0; i--) { E v = readBytes(oi, cand[i], n); r = r ? mkIte(mkEq(off, C(cand[i], 64)), v, r) : v; }
  return r;
}
static void storeMem(E addr, E val, unsigned n, bool atomic = false) {
  u64 co; E off; int oi = resolve(addr, n, true, co, off, "write");
  if (!off) { recordAcc(oi, co, co + n, nullptr, true, atomic); writeBytes(oi, co, val, n); return; }
  std::vector<u64> cand; candidates(off, S->mem[oi]->size - n, cand);
  if (cand.size() > 256 || forkStores) { u64 v = concretize(off); recordAcc(oi, v, v + n, nullptr, true, atomic); writeBytes(oi, v, val, n); return; }
  recordAcc(oi, 0, n, off, true, atomic);
  if (val->width < 8 * n) val = mkZext(val, 8 * n);
  for (u64 o : cand) { E c = mkEq(off, C(o, 64)); E old = readBytes(oi, o, n); writeBytes(oi, o, mkIte(c, val, old), n); }
}
static void freeObj(u64 a, Kind want, const char* how) {
  int oi = findObj(a);
  if (oi < 0) fatal("badfree", std::string(how) + " of a pointer that is not an allocation");
  Obj* o = S->mem[oi].get();
  if (!o->alive) fatal("doublefree", std::string(how) + " of memory already released");
  if (o->addr != a || o->kind == K_STACK || o->kind == K_GLOBAL) fatal("badfree", std::string(how) + " of a pointer not returned by an allocator");
  if (o->kind != want && o->kind != K_RT) fatal("mismatch", std::string(how) + " of memory allocated with " + kindName(o->kind));
  recordAcc(oi, 0, std::max<u64>(o->size, 1), nullptr, true, false, " (release)");
  o = wr(oi); o->alive = false; o->freed = true; o->data.clear(); o->data.shrink_to_fit(); o->tag.clear(); o->sym.clear();
  if (S->par) o->data.clear();
}
static std::string cstr(E p) { // concrete C string
  std::string s; u64 a = concretize(p); 
  for (;;) { int oi = findObj(a); if (oi < 0) fatal("oob", "string read"); Obj* o = S->mem[oi].get(); u64 off = a - o->addr; if (!o->alive) fatal("uaf", "string read of freed memory"); if (off >= o->size) fatal("oob", "unterminated string"); E b = readBytes(oi, off, 1);
    if (!b->isConst()) b = C(concretize(b), 8); if (!b->c) break; s += (char)b->c; a++; if (s.size() > 4096) break; }
  return s;
}

// ------------------------------------------------------------------ decoding
static u64 faddr(Function* f) { auto it = funcAddr.find(f); if (it != funcAddr.end()) return it->second; u64 a = 0x10000000ULL + 64 * funcAddr.size(); funcAddr[f] = a; return a; }
static KFunc* kf(Function* f);
static E constE(const Constant* c);
static unsigned bitsOf(Type* t) { if (t->isPointerTy()) return 64; return (unsigned)DL->getTypeSizeInBits(t); }
static u64 constAddr(const Constant* c) { E e = constE(c); if (!e->isConst()) { fprintf(stderr, "non-constant constant address\n"); exit(3); } return e->cv(); }
static E constE(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w <= 64) return C(ci->getZExtValue(), w); APInt v = ci->getValue(); return C(((u128)v.extractBitsAsZExtValue(w - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0), w); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); if (v.getBitWidth() > 64) { return C(((u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0), v.getBitWidth()); } return C(v.getZExtValue(), v.getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return C(0, 64);
  if (auto* f = dyn_cast<Function>(c)) return C(faddr(const_cast<Function*>(f)), 64);
  if (auto* g = dyn_cast<GlobalVariable>(c)) return C(globAddr[g], 64);
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constE(ga->getAliasee());
  if (t->isStructTy() || t->isArrayTy()) {
    std::vector<E> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) v.push_back(constE(c->getAggregateElement(i)));
    return F.agg(v);
  }
  if (isa<UndefValue>(c)) { return F.newVar("undef", bitsOf(t), maskw(bitsOf(t)), 2); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) break; return C(constAddr(ce->getOperand(0)) + off.getSExtValue(), 64); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { E e = constE(ce->getOperand(0)); unsigned w = bitsOf(t); return w > e->width ? mkZext(e, w) : mkExtract(e, 0, w); }
    case Instruction::Trunc: return mkExtract(constE(ce->getOperand(0)), 0, bitsOf(t));
    case Instruction::Add: return mkBin(E_ADD, constE(ce->getOperand(0)), constE(ce->getOperand(1)));
    case Instruction::Sub: return mkBin(E_SUB, constE(ce->getOperand(0)), constE(ce->getOperand(1)));
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", s.c_str()); return F.newVar("unsupconst", bitsOf(t), maskw(bitsOf(t)), 2);
}
static std::map<std::string, int> handlers; static std::vector<void (*)(std::vector<E>&)> handlerFns; static std::vector<std::string> handlerNames;
static bool isNoop(const std::string& n);
static void decode(KFunc* k) {
  if (k->decoded) return; k->decoded = true; Function* Fn = k->Fn;
  std::map<Value*, int> reg; int n = 0; for (Argument& a : Fn->args()) reg[&a] = n++; k->nargs = n;
  std::map<BasicBlock*, KBlock*> bm;
  for (BasicBlock& B : *Fn) { KBlock* kb = new KBlock(); kb->B = &B; kb->fn = k; bm[&B] = kb; k->blocks.push_back(kb); for (Instruction& I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  k->nregs = n;
  auto opnd = [&](Value* v) -> Opnd { auto it = reg.find(v); if (it != reg.end()) return {it->second, nullptr}; if (auto* c = dyn_cast<Constant>(v)) return {-1, constE(c)}; return {-1, C(0, 64)}; };
  for (BasicBlock& B : *Fn) { KBlock* kb = bm[&B];
    for (Instruction& I : B) {
      if (auto* p = dyn_cast<PHINode>(&I)) { KPhi kp; kp.dst = reg[&I]; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) kp.in.push_back({bm[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))}); kb->phis.push_back(kp); continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      KInst* ki = new KInst(); ki->I = &I; ki->op = I.getOpcode(); ki->dst = I.getType()->isVoidTy() ? -1 : reg[&I]; ki->id = allInsts.size(); ki->rt = k->rt; allInsts.push_back(ki);
      if (!I.getType()->isVoidTy() && I.getType()->isSized() && !I.getType()->isStructTy() && !I.getType()->isArrayTy()) ki->w = bitsOf(I.getType());
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (Use& u : cb->args()) ki->ops.push_back(opnd(u.get()));
        Value* cv = cb->getCalledOperand();
        if (auto* ia = dyn_cast<InlineAsm>(cv)) { ki->iasm = new std::string(ia->getAsmString()); kb->insts.push_back(ki); continue; }
        Function* cf = dyn_cast<Function>(cv); if (!cf) if (auto* ga = dyn_cast<GlobalAlias>(cv)) cf = dyn_cast<Function>(ga->getAliasee());
        if (cf) { ki->callee = kf(cf); } else ki->ops.push_back(opnd(cv)); // indirect: last operand is the target
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) { ki->ops.push_back(opnd(br->getCondition())); ki->bb[0] = bm[br->getSuccessor(0)]; ki->bb[1] = bm[br->getSuccessor(1)]; } else ki->bb[0] = bm[br->getSuccessor(0)];
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        ki->ops.push_back(opnd(sw->getCondition())); ki->a = (u64)(uintptr_t) new std::vector<std::pair<E, KBlock*>>(); ki->bb[0] = bm[sw->getDefaultDest()];
        for (auto c : sw->cases()) ((std::vector<std::pair<E, KBlock*>>*)ki->a)->push_back({constE(c.getCaseValue()), bm[c.getCaseSuccessor()]});
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        ki->ops.push_back(opnd(g->getPointerOperand())); i64 cst = 0; 
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
          Value* idx = gti.getOperand();
          if (StructType* st = gti.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); }
          else { u64 sz = DL->getTypeAllocSize(gti.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) cst += ci->getSExtValue() * (i64)sz; else { ki->gep.push_back({(int)ki->ops.size(), sz}); ki->ops.push_back(opnd(idx)); } }
        }
        ki->a = (u64)cst;
      } else {
        for (Use& u : I.operands()) ki->ops.push_back(opnd(u.get()));
        if (auto* a = dyn_cast<AllocaInst>(&I)) { ki->a = DL->getTypeAllocSize(a->getAllocatedType()); ki->b = a->getAlign().value(); }
        if (auto* l = dyn_cast<LoadInst>(&I)) { ki->a = l->getType()->isSized() ? DL->getTypeStoreSize(l->getType()).getFixedValue() : 0; ki->b = l->isAtomic(); }
        if (auto* s = dyn_cast<StoreInst>(&I)) { ki->a = DL->getTypeStoreSize(s->getValueOperand()->getType()); ki->b = s->isAtomic(); }
        if (auto* c = dyn_cast<CmpInst>(&I)) ki->a = c->getPredicate();
      }
      kb->insts.push_back(ki);
    } }
}
static KFunc* kf(Function* f) {
  auto it = kfuncs.find(f); if (it != kfuncs.end()) return it->second;
  KFunc* k = new KFunc(); k->Fn = f; k->name = f->getName().str(); kfuncs[f] = k; funcByAddr[faddr(f)] = k;
  k->rt = k->name.rfind("__kmpc", 0) == 0 || k->name.rfind("gsrt_", 0) == 0 || k->name.rfind("omp_", 0) == 0;
  if (DISubprogram* sp = f->getSubprogram()) { k->file = sp->getFilename().str(); if (k->file.find("/verif/runtime") != std::string::npos) k->rt = true; }
  return k;
}
static E ev(const Opnd& o) { return o.reg >= 0 ? FR().regs[o.reg] : o.cst; }
static void setDst(KInst* k, E v) { if (k->dst >= 0) FR().regs[k->dst] = v; }
static void enterBlock(KBlock* to) {
  Frame& f = FR(); KBlock* from = f.bb;
  if (!to->phis.empty()) { std::vector<E> vals; vals.reserve(to->phis.size());
    for (auto& p : to->phis) { bool ok = false; for (auto& in : p.in) if (in.first == from) { vals.push_back(in.second.reg >= 0 ? f.regs[in.second.reg] : in.second.cst); ok = true; break; } if (!ok) { fprintf(stderr, "phi\n"); exit(3); } }
    for (size_t i = 0; i < vals.size(); i++) f.regs[to->phis[i].dst] = vals[i]; }
  f.prev = from; f.bb = to; f.ip = 0;
}
static void pushFrame(KFunc* k, const std::vector<E>& args, int dst, int marker) {
  decode(k); k->calls++; if (T().stk.size() > 400) fatal("stack", "call depth exceeds 400 (unbounded recursion)");
  Frame f; f.f = k; f.bb = k->blocks[0]; f.prev = nullptr; f.ip = 0; f.regs.assign(k->nregs, nullptr); f.dst = dst; f.marker = marker;
  for (int i = 0; i < k->nargs && i < (int)args.size(); i++) f.regs[i] = args[i];
  T().stk.push_back(std::move(f));
}
static void dropAllocas(Frame& f) {
  for (u64 a : f.allocas) { int oi = findObj(a); if (oi < 0) continue;
    recordAcc(oi, 0, std::max<u64>(S->mem[oi]->size, 1), nullptr, true, false, " (end of lifetime)");
    Obj* o = wr(oi); o->alive = false; o->data.clear(); o->tag.clear(); o->sym.clear();
    if (oi + 1 == (int)S->mem.size() || true) S->mem.erase(S->mem.begin() + oi); }
}

// ------------------------------------------------------------------ threads
static void endPar() { S->par--; if (!S->par) { S->acc = std::make_shared<AccTab>(); } }
static void schedule();
static void releaseTeam(int parent) {
  // all members at barrier or done?
  std::vector<int> mem; bool anyBar = false, allDone = true;
  for (int i = 0; i < (int)S->th.size(); i++) if (S->th[i].parent == parent) { mem.push_back(i); if (S->th[i].status == 0 || S->th[i].status == 3) return; if (S->th[i].status == 1) anyBar = true; if (S->th[i].status != 2) allDone = false; }
  std::vector<int> pre; for (int i : mem) { pre.push_back(S->th[i].strand); for (int t : S->th[i].allTasks) pre.push_back(t); S->th[i].allTasks.clear(); }
  if (allDone) { int st = newStrand(pre); S->th.resize(mem[0]); S->th[parent].strand = st; S->th[parent].status = 0; S->cur = parent; endPar(); return; }
  if (anyBar) { for (int i : mem) if (S->th[i].status == 1) { S->th[i].strand = newStrand(pre); S->th[i].status = 0; } S->cur = mem[0]; for (int i : mem) if (S->th[i].status == 0) { S->cur = i; break; } }
}
static void schedule() { // pick another runnable thread of the same team
  int p = T().parent; for (int i = 0; i < (int)S->th.size(); i++) if (S->th[i].parent == p && S->th[i].status == 0) { S->cur = i; return; }
  releaseTeam(p);
}

// ------------------------------------------------------------------ path end
static void samplePath() {
  nPaths++; maxDepth = std::max(maxDepth, S->depth);
  if (caseDir.empty() || S->imprecise || S->facts) return;
  size_t slot = sampleFiles.size(); if ((int)slot >= maxSamples) { u64 r = rnd() % nPaths; if (r >= (u64)maxSamples) return; slot = r; } 
  Model m = *S->model; m.memo.clear(); fillFloats(m, 0);
  std::string fn = writeCase(m, "path" + std::to_string(slot) + ".case", "sampled path " + std::to_string(nPaths));
  if (slot >= sampleFiles.size()) sampleFiles.push_back(fn);
}
static void finishPath() { samplePath(); S->dead = true; throw PathEnd(); }
static void doReturn(E v) {
  Frame f = std::move(FR()); 
  dropAllocas(f);
  Thread& t = T(); t.stk.pop_back();
  if (f.marker == 1) { // end of an OpenMP task: x = creator continuation strand index, children folded
    int last = t.strand; auto kids = t.kids.back(); t.kids.pop_back(); t.kids.back().push_back(last); t.allTasks.push_back(last); (void)kids;
    for (int k : kids) t.allTasks.push_back(k);
    t.inTask--;
    t.strand = newStrand({(int)f.x}); 
    if (!t.stk.empty()) { Frame& c = FR(); if (f.dst >= 0) c.regs[f.dst] = C(0, 32); }
    return;
  }
  if (f.marker == 4) { t.disps.pop_back(); t.nthr = (int)f.x; t.level--; t.tid = (int)f.y; }
  if (t.stk.empty()) {
    if (t.parent < 0) finishPath();
    t.status = 2; schedule(); return;
  }
  Frame& c = FR(); 
  if (f.marker == 2) { if (f.dst >= 0) c.regs[f.dst] = v ? v : C(0, 32); return; }
  if (f.dst >= 0 && v) c.regs[f.dst] = v;
}
static void unwindTry(u64 code, const char* kind) {
  Thread& t = T(); int i = (int)t.stk.size() - 1; while (i >= 0 && t.stk[i].marker != 2) i--;
  if (t.parent >= 0 || i < 0) { if (!strcmp(kind, "exit")) finishPath(); return; }
  if (!strcmp(kind, "abort") && !t.stk[i].y) return;
  int dst = t.stk[i].dst;
  while ((int)t.stk.size() > i) { Frame f = std::move(t.stk.back()); t.stk.pop_back(); for (u64 a : f.allocas) { int oi = findObj(a); if (oi >= 0) S->mem.erase(S->mem.begin() + oi); } }
  if (dst >= 0) FR().regs[dst] = C(code, 32);
}
static E fcmpE(u64 p, E a, E b);
#include "handlers.inc"

// ------------------------------------------------------------------ interpreter
static E predE(u64 p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mkBin(E_ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(E_ULE, a, b);
  case CmpInst::ICMP_UGT: return mkBin(E_ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(E_ULE, b, a);
  case CmpInst::ICMP_SLT: return mkBin(E_SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(E_SLE, a, b);
  case CmpInst::ICMP_SGT: return mkBin(E_SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(E_SLE, b, a);
  default: abort(); }
}
static E fcmpE(u64 p, E a, E b) {
  if (p == CmpInst::FCMP_TRUE) return bTrue(); if (p == CmpInst::FCMP_FALSE) return bFalse();
  if (a->isConst() && b->isConst()) {
    double x = bitsToD(a->c, a->width), y = bitsToD(b->c, b->width); bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (p & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y; break; case 7: r = true; break; }
    if (p & 8) r = r || un; else r = r && !un;
    return C(r, 1);
  }
  P d = polyAdd(toPoly(a), polyNeg(toPoly(b)));
  bool ok = true; E v = C(0, 64); for (auto& t : d->t) { if (t.first.atoms.empty()) v = t.second; else ok = false; }
  E Z = C(0, 64);
  if (!ok) { // one-leaf monotone functions compared with each other: use steps of the difference only when simple
    if (d->t.empty()) { v = Z; ok = true; }
  }
  if (!ok) {
    switch (p & 7) { case 1: return factE(d, true); case 6: return mkNot(factE(d, true)); case 2: return mkNot(factE(d, false)); case 5: return factE(d, false); case 3: return factE(polyNeg(d), false); case 4: return mkNot(factE(polyNeg(d), false)); case 7: return bTrue(); default: return bFalse(); }
  }
  switch (p & 7) { case 1: return mkEq(v, Z); case 2: return mkBin(E_SLT, Z, v); case 3: return mkBin(E_SLE, Z, v); case 4: return mkBin(E_SLT, v, Z); case 5: return mkBin(E_SLE, v, Z); case 6: return mkNot(mkEq(v, Z)); case 7: return bTrue(); default: return bFalse(); }
}
// concretise the integer leaves of a floating expression so that native arithmetic applies
static E concF(E e) {
  for (int it = 0; it < 64; it++) {
    if (e->isConst()) return e;
    if (e->op == E_FBITS) {
      E leaf = nullptr; for (auto& t : e->poly->t) if (!t.second->isConst()) { leaf = t.second; break; }
      if (!leaf) return e;
      return e; }
    return e;
  }
  return e;
}
static E intToF(E v, unsigned w, bool sgn) {
  if (v->isConst()) { double d; if (sgn) { i128 x = sextc(v->c, v->width); if (w == 32) return C(dToBits((double)(float)(long double)x, 32), 32); d = (double)x; } else { if (w == 32) return C(dToBits((double)(float)v->c, 32), 32); d = (double)v->c; } return C(dToBits(d, w), w); }
  if (v->op == E_ITE && v->k[1]->isConst() && v->k[2]->isConst()) return mkIte(v->k[0], intToF(v->k[1], w, sgn), intToF(v->k[2], w, sgn));
  E x = v->width > 64 ? mkExtract(v, 0, 64) : sgn ? mkSext(v, 64) : mkZext(v, 64);
  Poly p; p.scale = 0; p.t.push_back({Mono{}, x}); return fromPoly(polyIntern(p), w);
}
static E fToInt(E v, unsigned w, bool sgn) {
  if (v->isConst()) { double d = bitsToD(v->c, v->width); if (std::isnan(d)) return C(0, w); if (sgn) return C((u128)(i128)(long long)d, w); if (d < 0) return C((u128)(i128)(long long)d, w); return C(d >= 18446744073709551616.0 ? 0 : (u128)(u64)d, w); }
  if (v->op == E_ITE) return mkIte(v->k[0], fToInt(v->k[1], w, sgn), fToInt(v->k[2], w, sgn));
  if (v->op == E_FBITS) { bool ok = v->poly->scale == 0; E c = C(0, 64); for (auto& t : v->poly->t) { if (t.first.atoms.empty()) c = t.second; else ok = false; } if (ok) return w <= 64 ? mkExtract(c, 0, w) : mkSext(c, w); }
  E leaf; std::vector<std::pair<u64, i128>> st;
  if (fpSteps(v, leaf, st)) { E r = C((u128)st.back().second, w); for (int i = (int)st.size() - 2; i >= 0; i--) r = mkIte(mkBin(E_ULT, leaf, C(st[i + 1].first, 64)), C((u128)st[i].second, w), r); return r; }
  S->imprecise = true; return havoc("fptoint", w);
}
static E fdivE(E a, E b, bool rem) {
  unsigned w = a->width;
  if (a->isConst() && b->isConst()) { double x = bitsToD(a->c, w), y = bitsToD(b->c, w); double r = rem ? (w == 32 ? (double)fmodf(x, y) : fmod(x, y)) : (w == 32 ? (double)((float)x / (float)y) : x / y); return C(dToBits(r, w), w); }
  auto leafc = [&](E e) { if (e->op == E_FBITS) for (auto& t : e->poly->t) if (!t.second->isConst()) { u64 v = concretize(t.second); (void)v; return true; } return false; };
  if (!rem && b->isConst() && !a->isConst()) { int ex; double y = bitsToD(b->c, w); if (y != 0 && std::isfinite(y) && std::fabs(std::frexp(y, &ex)) == 0.5 && ex > -60 && ex < 60) { bool im = false; E r = mkFMul(a, C(dToBits(1 / y, w), w), im); if (!im) return r; } } // exact
  // concretise integer leaves by forking, then recompute natively
  auto natural = [&](E e) -> E { if (e->isConst()) return e; if (e->op == E_FBITS) { Poly p; p.scale = e->poly->scale; for (auto& t : e->poly->t) { if (!t.first.atoms.empty()) return nullptr; p.t.push_back({t.first, C(concretize(t.second), 64)}); } std::vector<std::pair<Mono, E>> q; for (auto& t : p.t) if (t.second->c) q.push_back(t); p.t = q; return fromPoly(polyIntern(p), e->width); }
    if (e->op == E_ITE) { return decide(e->k[0]) ? e->k[1] : e->k[2]; } return nullptr; };
  (void)leafc; E x = natural(a), y = x ? natural(b) : nullptr;
  if (x && y && (x != a || y != b)) return fdivE(x, y, rem);
  S->imprecise = true; return havoc("fdiv", w);
}
static void step() {
  Frame& f = FR(); KInst* k = f.bb->insts[f.ip]; CI = k; nInsts++; S->steps++;
  auto op = [&](int i) { const Opnd& o = k->ops[i]; E r = o.reg >= 0 ? f.regs[o.reg] : o.cst; if (!r) stopIncomplete("value never computed: " + locOf(k)); return r; };
  switch (k->op) {
  case Instruction::Br:
    if (k->ops.empty()) { enterBlock(k->bb[0]); return; }
    { E c = op(0); bool t = decide(c); enterBlock(k->bb[t ? 0 : 1]); return; }
  case Instruction::Switch: {
    auto& cs = *(std::vector<std::pair<E, KBlock*>>*)k->a; E v = op(0);
    if (v->isConst()) { for (auto& c : cs) if (c.first == v) { enterBlock(c.second); return; } enterBlock(k->bb[0]); return; }
    for (auto& c : cs) if (decide(mkEq(v, c.first))) { enterBlock(c.second); return; }
    enterBlock(k->bb[0]); return; }
  case Instruction::Ret: { E v = k->ops.empty() ? nullptr : op(0); doReturn(v); return; }
  case Instruction::Unreachable: fatal("unreachable", "unreachable code executed");
  case Instruction::Alloca: { u64 n = concretize(op(0)); u64 a = newObj(k->a * n, K_STACK, k->b); f.allocas.push_back(a); f.regs[k->dst] = C(a, 64); break; }
  case Instruction::Load: { Type* t = k->I->getType();
      if (t->isStructTy()) { E base = op(0); std::vector<E> v; auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) { Type* et = t->getStructElementType(i); E x = loadMem(mkBin(E_ADD, base, C(sl->getElementOffset(i), 64)), DL->getTypeStoreSize(et)); v.push_back(mkExtract(x, 0, bitsOf(et))); } f.regs[k->dst] = F.agg(v); break; }
      E v = loadMem(op(0), k->a, k->b); f.regs[k->dst] = v->width == k->w ? v : mkExtract(v, 0, k->w); break; }
  case Instruction::Store: { E v = op(0);
      if (v->op == E_AGG) { Type* t = k->I->getOperand(0)->getType(); if (!t->isStructTy()) stopIncomplete("store of array"); auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < v->agg->size(); i++) storeMem(mkBin(E_ADD, op(1), C(sl->getElementOffset(i), 64)), (*v->agg)[i], DL->getTypeStoreSize(t->getStructElementType(i))); break; }
      storeMem(op(1), v, k->a, k->b); break; }
  case Instruction::GetElementPtr: { E b = op(0); E r = mkBin(E_ADD, b, C(k->a, 64));
      for (auto& g : k->gep) { E i = op(g.first); if (i->width < 64) i = mkSext(i, 64); r = mkBin(E_ADD, r, mkBin(E_MUL, i, C(g.second, 64))); }
      f.regs[k->dst] = r; break; }
  case Instruction::Add: f.regs[k->dst] = mkBin(E_ADD, op(0), op(1)); break;
  case Instruction::Sub: f.regs[k->dst] = mkBin(E_SUB, op(0), op(1)); break;
  case Instruction::Mul: f.regs[k->dst] = mkBin(E_MUL, op(0), op(1)); break;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      E d = op(1); if (!d->isConst() || !d->c) { if (decide(mkEq(d, C(0, d->width)))) fatal("divzero", "division by zero"); }
      Op o = k->op == Instruction::UDiv ? E_UDIV : k->op == Instruction::SDiv ? E_SDIV : k->op == Instruction::URem ? E_UREM : E_SREM;
      f.regs[k->dst] = mkBin(o, op(0), d); break; }
  case Instruction::And: f.regs[k->dst] = mkBin(E_AND, op(0), op(1)); break;
  case Instruction::Or: f.regs[k->dst] = mkBin(E_OR, op(0), op(1)); break;
  case Instruction::Xor: f.regs[k->dst] = mkBin(E_XOR, op(0), op(1)); break;
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Op o = k->op == Instruction::Shl ? E_SHL : k->op == Instruction::LShr ? E_LSHR : E_ASHR; E sh = op(1);
      // hardware semantics (x86) for over-wide shifts of 32/64-bit operands: the count is masked
      if ((k->w == 32 || k->w == 64) && sh->umax >= k->w) sh = mkBin(E_AND, sh, C(k->w - 1, k->w));
      if (!sh->isConst() && k->w <= 64) { E a = op(0); if (a->isConst() || true) { if (o == E_SHL && a->isConst()) { E r = C(0, k->w); u64 hi = std::min<u64>((u64)sh->umax, k->w - 1); for (int i = (int)hi; i >= (int)std::min<u64>((u64)sh->umin, hi); i--) r = mkIte(mkEq(sh, C(i, k->w)), C(a->c << i, k->w), r); f.regs[k->dst] = r; break; } } }
      f.regs[k->dst] = mkBin(o, op(0), sh); break; }
  case Instruction::ICmp: f.regs[k->dst] = predE(k->a, op(0), op(1)); break;
  case Instruction::FCmp: f.regs[k->dst] = fcmpE(k->a, op(0), op(1)); break;
  case Instruction::Select: { E c = op(0); f.regs[k->dst] = mkIte(c, op(1), op(2)); break; }
  case Instruction::ZExt: f.regs[k->dst] = mkZext(op(0), k->w); break;
  case Instruction::SExt: f.regs[k->dst] = mkSext(op(0), k->w); break;
  case Instruction::Trunc: f.regs[k->dst] = mkExtract(op(0), 0, k->w); break;
  case Instruction::PtrToInt: case Instruction::IntToPtr: { E v = op(0); f.regs[k->dst] = v->width < k->w ? mkZext(v, k->w) : mkExtract(v, 0, k->w); break; }
  case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: f.regs[k->dst] = op(0); break;
  case Instruction::FAdd: f.regs[k->dst] = mkFAdd(op(0), op(1), false); break;
  case Instruction::FSub: f.regs[k->dst] = mkFAdd(op(0), op(1), true); break;
  case Instruction::FMul: { bool im = false; f.regs[k->dst] = mkFMul(op(0), op(1), im); break; }
  case Instruction::FDiv: { E r = fdivE(op(0), op(1), false); FR().regs[k->dst] = r; break; }
  case Instruction::FRem: { E r = fdivE(op(0), op(1), true); FR().regs[k->dst] = r; break; }
  case Instruction::FNeg: f.regs[k->dst] = mkFNeg(op(0)); break;
  case Instruction::FPExt: if (k->w > 64) stopIncomplete("long double"); f.regs[k->dst] = mkFcvt(FC_EXT, op(0)); break;
  case Instruction::FPTrunc: f.regs[k->dst] = mkFcvt(FC_TRUNC, op(0)); break;
  case Instruction::UIToFP: f.regs[k->dst] = intToF(op(0), k->w, false); break;
  case Instruction::SIToFP: f.regs[k->dst] = intToF(op(0), k->w, true); break;
  case Instruction::FPToUI: f.regs[k->dst] = fToInt(op(0), k->w, false); break;
  case Instruction::FPToSI: f.regs[k->dst] = fToInt(op(0), k->w, true); break;
  case Instruction::ExtractValue: { E a = op(0); for (unsigned i : cast<ExtractValueInst>(k->I)->indices()) a = (*a->agg)[i]; f.regs[k->dst] = a; break; }
  case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(k->I); E a = op(0); 
      std::function<E(E, unsigned)> ins = [&](E x, unsigned d) -> E { if (d == iv->getNumIndices()) return op(1); std::vector<E> v = *x->agg; v[iv->getIndices()[d]] = ins(v[iv->getIndices()[d]], d + 1); return F.agg(v); };
      f.regs[k->dst] = ins(a, 0); break; }
  case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(k->I); unsigned n = (k->w + 7) / 8; E old = loadMem(op(0), n, true), v = op(1), r; 
      switch (a->getOperation()) { case AtomicRMWInst::Add: r = mkBin(E_ADD, old, v); break; case AtomicRMWInst::Sub: r = mkBin(E_SUB, old, v); break; case AtomicRMWInst::And: r = mkBin(E_AND, old, v); break; case AtomicRMWInst::Or: r = mkBin(E_OR, old, v); break; case AtomicRMWInst::Xor: r = mkBin(E_XOR, old, v); break; case AtomicRMWInst::Xchg: r = v; break;
        case AtomicRMWInst::Max: r = mkIte(mkBin(E_SLT, old, v), v, old); break; case AtomicRMWInst::Min: r = mkIte(mkBin(E_SLT, v, old), v, old); break; case AtomicRMWInst::UMax: r = mkIte(mkBin(E_ULT, old, v), v, old); break; case AtomicRMWInst::UMin: r = mkIte(mkBin(E_ULT, v, old), v, old); break; case AtomicRMWInst::FAdd: r = mkFAdd(old, v, false); break; case AtomicRMWInst::FSub: r = mkFAdd(old, v, true); break; default: stopIncomplete("atomicrmw"); }
      storeMem(op(0), r, n, true); FR().regs[k->dst] = old; break; }
  case Instruction::AtomicCmpXchg: { E exp = op(1), nv = op(2); unsigned n = exp->width / 8; E old = loadMem(op(0), n, true); E eq = mkEq(old, exp); storeMem(op(0), mkIte(eq, nv, old), n, true); f.regs[k->dst] = F.agg({old, eq}); break; }
  case Instruction::Fence: break;
  case Instruction::Call: case Instruction::Invoke: execCall(k); return;
  default: stopIncomplete(std::string("unsupported instruction ") + k->I->getOpcodeName());
  }
  FR().ip++;
}

// ------------------------------------------------------------------ globals
static void initConst(Obj* o, u64 off, const Constant* c) {
  Type* t = c->getType(); u64 sz = DL->getTypeStoreSize(t);
  if (isa<ConstantAggregateZero>(c)) { for (u64 i = 0; i < sz; i++) { o->data[off + i] = 0; o->tag[off + i] = 1; } return; }
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(ca->getElementType()); for (unsigned i = 0; i < ca->getNumElements(); i++) initConst(o, off + i * es, ca->getElementAsConstant(i)); return; }
  if (auto* a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initConst(o, off + i * es, a->getOperand(i)); return; }
  if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), s->getOperand(i)); return; }
  if (isa<UndefValue>(c)) { for (u64 i = 0; i < sz; i++) { o->data[off + i] = 0; o->tag[off + i] = 1; } return; }
  E e = constE(c); if (!e->isConst()) return;
  for (u64 i = 0; i < sz; i++) { o->data[off + i] = (uint8_t)(e->c >> (8 * i)); o->tag[off + i] = 1; }
}
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static u64 maxMB = 3500;
static u64 residentMB() { static int fd = open("/proc/self/statm", O_RDONLY); char b[64]; ssize_t n = pread(fd, b, 63, 0); if (n <= 0) return 0; b[n] = 0; unsigned long a = 0, r = 0; sscanf(b, "%lu %lu", &a, &r); return r * 4096 >> 20; }
static void writeOut(const std::string& status, size_t left) {
  std::ofstream o(outFile.empty() ? "/dev/stdout" : outFile); struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  o << "{\"status\":\"" << status << "\",\n\"errors\":[";
  for (size_t i = 0; i < errors.size(); i++) { auto& e = errors[i]; o << (i ? ",\n" : "\n") << "{\"kind\":\"" << esc(e.kind) << "\",\"msg\":\"" << esc(e.msg) << "\",\"loc\":\"" << esc(e.loc) << "\",\"fn\":\"" << esc(e.fn) << "\",\"stack\":\"" << esc(e.stack) << "\",\"case\":\"" << esc(e.caseFile) << "\",\"imprecise\":" << (e.imprecise ? "true" : "false") << "}"; }
  o << "],\n\"incomplete\":{"; bool first = true; for (auto& p : incompletes) { o << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; first = false; }
  o << "},\n\"covers\":{"; first = true; for (auto& p : covers) { o << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; first = false; }
  o << "},\n\"samples\":["; for (size_t i = 0; i < sampleFiles.size(); i++) o << (i ? "," : "") << "\"" << sampleFiles[i] << "\"";
  o << "],\n\"functions\":["; first = true; for (auto& p : kfuncs) if (p.second->calls && !p.second->rt && !p.second->file.empty() && p.second->file.find("/verif/") == std::string::npos && p.second->file.find("/usr/") == std::string::npos) { auto* sp = p.first->getSubprogram(); o << (first ? "" : ",") << "\"" << esc(p.second->file + ":" + (sp ? sp->getName().str() : p.second->name)) << "\""; first = false; }
  o << "],\n\"stats\":{\"paths\":" << nPaths << ",\"error_paths\":" << nErrPaths << ",\"aborted_paths\":" << nAbortedPaths << ",\"forks\":" << nForks << ",\"instructions\":" << nInsts << ",\"assertions\":" << nAsserts << ",\"assertion_queries\":" << nSolverAsserts << ",\"queries\":" << SS.queries << ",\"sat\":" << SS.sat << ",\"unsat\":" << SS.unsat << ",\"unknown\":" << SS.unknown << ",\"cached\":" << SS.cached << ",\"solver_s\":" << SS.time << ",\"max_query_s\":" << SS.maxTime << ",\"race_checks\":" << nRaceChecks << ",\"race_queries\":" << nRaceQueries << ",\"symbolic_accesses\":" << nMemSym << ",\"max_depth\":" << maxDepth << ",\"states_left\":" << left << ",\"wall_s\":" << now() << ",\"rss_kb\":" << ru.ru_maxrss << "}}\n";
}
int main(int argc, char** argv) {
  T0 = Clk::now(); std::string file, entry = "gs_harness"; unsigned qt = 20000;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "-p") { std::string s = argv[++i]; size_t q = s.find('='); params[s.substr(0, q)] = strtoull(s.c_str() + q + 1, nullptr, 0); }
    else if (a == "-o") outFile = argv[++i]; else if (a == "-c") caseDir = argv[++i]; else if (a == "-t") maxTime = atof(argv[++i]); else if (a == "-e") entry = argv[++i];
    else if (a == "-n") maxPaths = strtoull(argv[++i], nullptr, 0); else if (a == "-v") verbose++; else if (a == "-q") qt = atoi(argv[++i]); else if (a == "-s") maxSamples = atoi(argv[++i]); else if (a == "--max-errors") maxErrors = atoi(argv[++i]); else if (a == "--fork-stores") forkStores = true; else if (a == "--hang") pathInstLimit = strtoull(argv[++i], nullptr, 0); else file = a; }
  solverInit(qt);
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(file, err, ctx); if (!mod) { err.print("gsbsym", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout(); initHandlers();
  S = nullptr; auto init = std::make_shared<State>(); init->model = std::make_shared<Model>(); init->acc = std::make_shared<AccTab>(); init->str = std::make_shared<Strands>(); init->str->anc.push_back(std::make_shared<std::vector<u64>>());
  u64 ga = 0x40000000ULL;
  for (auto& g : M->globals()) { u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64; if (g.isDeclaration()) sz = std::max<u64>(sz, 1024); u64 al = g.getAlign() ? g.getAlign()->value() : 16; if (al < 16) al = 16; ga = (ga + al - 1) / al * al; globAddr[&g] = ga;
    auto o = std::make_shared<Obj>(); o->addr = ga; o->size = sz; o->kind = K_GLOBAL; o->data.assign(sz, 0); o->tag.assign(sz, 1); o->norace = false; init->mem.push_back(o); ga += (sz + 15) / 16 * 16 + 4096; }
  if (ga > 0xf0000000ULL) { fprintf(stderr, "globals too large\n"); return 3; }
  { size_t i = 0; for (auto& g : M->globals()) { Obj* o = init->mem[i++].get(); if (g.hasInitializer()) { initConst(o, 0, g.getInitializer()); o->ro = g.isConstant(); } else { std::string n = g.getName().str(); o->norace = true; 
        if (n == "stdout" || n == "stderr" || n == "stdin") { u64 v = n == "stdin" ? 0xF1000 : n == "stdout" ? 0xF2000 : 0xF3000; for (int b = 0; b < 8; b++) o->data[b] = (uint8_t)(v >> (8 * b)); } } } }
  init->th.resize(1); S = init.get();
  Function* hf = M->getFunction(entry); if (!hf) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  // constructors run first (as if called in order): push harness, then ctors on top in reverse
  pushFrame(kf(hf), {}, -1, 0);
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) for (int i = (int)arr->getNumOperands() - 1; i >= 0; i--) { auto* cs = cast<ConstantStruct>(arr->getOperand(i)); if (auto* cf = dyn_cast<Function>(cs->getOperand(1))) if (!cf->isDeclaration()) pushFrame(kf(cf), {}, -1, 0); }
  work.push_back(init); std::string status = "complete";
  while (!work.empty()) {
    if (now() > maxTime || residentMB() > maxMB) { status = "timeout"; break; }
    if (nPaths >= maxPaths) { status = "pathlimit"; break; }
    if (errors.size() >= maxErrors) { status = "errors"; break; }
    StateP cur = work.back(); work.pop_back(); S = cur.get(); 
    try { u64 n = 0; while (!S->dead) { step(); if ((++n & 0x3ff) == 0 && (now() > maxTime || ((n & 0xfff) == 0 && residentMB() > maxMB))) { work.push_back(cur); status = "timeout"; break; } if (S->steps > pathInstLimit) fatal("hang", "no termination within the instruction limit"); } }
    catch (PathEnd&) {}
    if (status == "timeout") break;
  }
  if (status == "complete" && !incompletes.empty()) status = "incomplete";
  writeOut(status, work.size());
  fflush(stdout); _exit(0);
}
