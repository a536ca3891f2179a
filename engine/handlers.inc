// Call handling: intrinsics, allocation, OpenMP entry points, harness interface. Included by gsbsym.cpp.
static bool g_adv; // handler left the instruction pointer alone: advance it
typedef std::vector<E>& Args;
static KFunc* funcAt(u64 p) { auto it = funcByAddr.find(p); if (it != funcByAddr.end()) return it->second; for (auto& fa : funcAddr) if (fa.second == p) return kf(fa.first); return nullptr; }
static E fdivE(E a, E b, bool rem);
static E intToF(E v, unsigned w, bool sgn);

static bool starts(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
static bool isNoop(const std::string& n) {
  static const char* pre[] = {"_ZNSo", "_ZStls", "_ZNSt8ios_base", "_ZSt4endl", "_ZSt5flush", "_ZNSt9basic_ios", "_ZNSt13basic_ostream", "_ZSt16__ostream_insert", "_ZSt3setw", "_ZNKSt9basic_ios",
    "llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.donothing", "llvm.prefetch", "llvm.stacksave", "llvm.stackrestore", "llvm.var.annotation", "llvm.invariant", "llvm.sideeffect", "__kmpc_flush", "__kmpc_omp_task_begin_if0", "__kmpc_omp_task_complete_if0", "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel", "__kmpc_dispatch_fini", "__kmpc_begin", "__kmpc_end_"};
  static const std::set<std::string> ex = {"puts", "putchar", "perror", "__cxa_atexit", "atexit", "srand", "gettimeofday", "clock_gettime", "time", "clock", "_ZSt14set_new_handlerPFvvE", "setbuf", "setvbuf", "omp_set_dynamic", "omp_set_nested", "omp_set_schedule", "__kmpc_for_static_fini", "omp_init_lock", "omp_destroy_lock", "tic", "__kmpc_omp_wait_deps", "__kmpc_omp_taskyield", "print_timing", "_ZSt17__throw_bad_allocv_x"};
  if (ex.count(n)) return true;
  if (n == "__kmpc_end_critical" || n == "__kmpc_end_reduce" || n == "__kmpc_end_reduce_nowait" || n == "__kmpc_end_taskgroup" || n == "__kmpc_end_single" || n == "__kmpc_end_master" || n == "__kmpc_end_masked") return false;
  for (auto p : pre) if (starts(n, p)) return true;
  return false;
}

// ---------------------------------------------------------------- memory blocks
static void doCopy(E d, E s, E len) {
  u64 n = concretize(len); if (!n) return;
  u64 da = concretize(d), sa = concretize(s); u64 so, dof; E off;
  int si = resolve(C(sa, 64), n, false, so, off, "read"); int di = resolve(C(da, 64), n, true, dof, off, "write");
  recordAcc(si, so, so + n, nullptr, false, false); recordAcc(di, dof, dof + n, nullptr, true, false);
  std::vector<uint8_t> da_(n), ta(n); std::vector<Slot> sl(n, Slot{nullptr, 0});
  Obj* o = S->mem[si].get(); bool any = false;
  for (u64 i = 0; i < n; i++) { da_[i] = o->data[so + i]; ta[i] = o->tag[so + i]; if (ta[i] == 2) { sl[i] = o->sym[so + i]; any = true; } }
  Obj* w = wr(di); if (any && w->sym.empty()) w->sym.resize(w->size, Slot{nullptr, 0});
  for (u64 i = 0; i < n; i++) { w->data[dof + i] = da_[i]; w->tag[dof + i] = ta[i]; if (ta[i] == 2) w->sym[dof + i] = sl[i]; }
}
static void h_memcpy(Args a) { doCopy(a[0], a[1], a[2]); setDst(CI, a[0]); }
static void h_memset(Args a) {
  u64 n = concretize(a[2]); setDst(CI, a[0]); if (!n) return; u64 da = concretize(a[0]), o; E off; int di = resolve(C(da, 64), n, true, o, off, "write");
  recordAcc(di, o, o + n, nullptr, true, false); E v = a[1]->width > 8 ? mkExtract(a[1], 0, 8) : a[1];
  if (v->isConst()) { Obj* w = wr(di); memset(&w->data[o], (int)v->c, n); memset(&w->tag[o], 1, n); } else for (u64 i = 0; i < n; i++) writeBytes(di, o + i, v, 1);
}
static const u64 ALLOC_LIMIT = 1ULL << 22;
static u64 allocN(E size, Kind k, bool mayNull, u64 align = 16) {
  if (!size->isConst() && decide(mkBin(E_ULT, C(ALLOC_LIMIT, 64), size))) { if (mayNull) return 0; fatal("alloc", "allocation of an unreasonable size"); }
  u64 n = concretize(size); if (n > ALLOC_LIMIT) { if (mayNull) return 0; fatal("alloc", "allocation of an unreasonable size"); }
  return newObj(n, k, align);
}
static void h_malloc(Args a) { setDst(CI, C(allocN(a[0], K_MALLOC, true), 64)); }
static void h_calloc(Args a) { u64 n = concretize(a[0]), m = concretize(a[1]); if (m && n > ALLOC_LIMIT / m) { setDst(CI, C(0, 64)); return; } u64 p = allocN(C(n * m, 64), K_MALLOC, true); Obj* o = wr(findObj(p)); std::fill(o->tag.begin(), o->tag.end(), 1); setDst(CI, C(p, 64)); }
static void h_aligned_alloc(Args a) { u64 al = concretize(a[0]); setDst(CI, C(allocN(a[1], K_MALLOC, true, al), 64)); }
static void h_posix_memalign(Args a) { u64 al = concretize(a[1]); u64 p = allocN(a[2], K_MALLOC, true, al); storeMem(a[0], C(p, 64), 8); setDst(CI, C(p ? 0 : 12, 32)); }
static void h_realloc(Args a) {
  u64 p = concretize(a[0]); u64 n = concretize(a[1]);
  if (!p) { setDst(CI, C(allocN(C(n, 64), K_MALLOC, true), 64)); return; }
  u64 q = allocN(C(n, 64), K_MALLOC, true); int oi = findObj(p); if (oi < 0) fatal("badfree", "realloc of a pointer that is not an allocation");
  u64 m = std::min<u64>(n, S->mem[oi]->size); if (S->mem[oi]->alive && m) doCopy(C(q, 64), C(p, 64), C(m, 64)); freeObj(p, K_MALLOC, "realloc()"); setDst(CI, C(q, 64));
}
static void h_free(Args a) { u64 p = concretize(a[0]); if (p) freeObj(p, K_MALLOC, "free()"); }
static void h_new(Args a) { u64 p = allocN(a[0], K_NEW, false); setDst(CI, C(p, 64)); }
static bool zeroNew; // new[] gives zeroed memory
static void h_zeronew(Args a) { zeroNew = a[0]->c != 0; }
static void h_newarr(Args a) { u64 p = allocN(a[0], K_NEWARR, false); if (zeroNew) { Obj* o = wr(findObj(p)); std::fill(o->tag.begin(), o->tag.end(), 1); } setDst(CI, C(p, 64)); }
static void h_newNT(Args a) { setDst(CI, C(allocN(a[0], K_NEW, true), 64)); }
static void h_newarrNT(Args a) { setDst(CI, C(allocN(a[0], K_NEWARR, true), 64)); }
static void h_newAl(Args a) { u64 al = concretize(a[1]); setDst(CI, C(allocN(a[0], K_NEW, false, al), 64)); }
static void h_newarrAl(Args a) { u64 al = concretize(a[1]); setDst(CI, C(allocN(a[0], K_NEWARR, false, al), 64)); }
static void h_delete(Args a) { u64 p = concretize(a[0]); if (p) freeObj(p, K_NEW, "delete"); }
static void h_deletearr(Args a) { u64 p = concretize(a[0]); if (p) freeObj(p, K_NEWARR, "delete[]"); }

// ---------------------------------------------------------------- process exit
static void h_assert_fail(Args a) { std::string m; if (a.size()) m = cstr(a[0]);
  Thread& t = T(); bool tr = false; for (auto& f : t.stk) if (f.marker == 2 && f.y) tr = true;
  if (tr && t.parent < 0) { unwindTry(2000, "abort"); g_adv = false; return; }
  fatal("assert", "assertion failed: " + m); }
static void h_abort(Args) { Thread& t = T(); bool tr = false; for (auto& f : t.stk) if (f.marker == 2 && f.y) tr = true;
  if (tr && t.parent < 0) { unwindTry(2000, "abort"); g_adv = false; return; } fatal("abort", "abort() called"); }
static void h_exit(Args a) { u64 c = a.size() ? concretize(a[0]) : 0; bool tr = false; for (auto& f : T().stk) if (f.marker == 2) tr = true; if (!tr || T().parent >= 0) { if (S->par) fatal("abort", "exit() inside a parallel region"); finishPath(); }
  unwindTry(1000 + (c & 255), "exit"); g_adv = false; }
static void h_throw(Args) { fatal("abort", "C++ exception thrown by " + CI->callee->name); }

// ---------------------------------------------------------------- LLVM intrinsics
static void h_umulo(Args a) { unsigned w = a[0]->width; E r = mkBin(E_MUL, a[0], a[1]), o; 
  if (a[0]->umax * a[1]->umax <= maskw(w) && (!a[0]->umax || a[1]->umax <= maskw(w) / a[0]->umax) && w <= 64) o = bFalse(); else { E x = mkBin(E_MUL, mkZext(a[0], 2 * w > 128 ? 128 : 2 * w), mkZext(a[1], 2 * w > 128 ? 128 : 2 * w)); o = mkNot(mkEq(mkExtract(x, w, w), C(0, w))); }
  setDst(CI, F.agg({r, o})); }
static void h_uaddo(Args a) { E r = mkBin(E_ADD, a[0], a[1]); setDst(CI, F.agg({r, mkBin(E_ULT, r, a[0])})); }
static void h_usubo(Args a) { setDst(CI, F.agg({mkBin(E_SUB, a[0], a[1]), mkBin(E_ULT, a[0], a[1])})); }
static void h_sovf(Args a, Op op) { unsigned w = a[0]->width, W = std::min(128u, 2 * w); E r = mkBin(op, mkSext(a[0], W), mkSext(a[1], W)), t = mkExtract(r, 0, w); setDst(CI, F.agg({t, mkNot(mkEq(mkSext(t, W), r))})); }
static void h_saddo(Args a) { h_sovf(a, E_ADD); } static void h_ssubo(Args a) { h_sovf(a, E_SUB); } static void h_smulo(Args a) { h_sovf(a, E_MUL); }
static void h_umin(Args a) { setDst(CI, mkIte(mkBin(E_ULT, a[0], a[1]), a[0], a[1])); }
static void h_umax(Args a) { setDst(CI, mkIte(mkBin(E_ULT, a[0], a[1]), a[1], a[0])); }
static void h_smin(Args a) { setDst(CI, mkIte(mkBin(E_SLT, a[0], a[1]), a[0], a[1])); }
static void h_smax(Args a) { setDst(CI, mkIte(mkBin(E_SLT, a[0], a[1]), a[1], a[0])); }
static void h_abs(Args a) { E z = C(0, a[0]->width); setDst(CI, mkIte(mkBin(E_SLT, a[0], z), mkBin(E_SUB, z, a[0]), a[0])); }
static void h_usubsat(Args a) { setDst(CI, mkIte(mkBin(E_ULT, a[0], a[1]), C(0, a[0]->width), mkBin(E_SUB, a[0], a[1]))); }
static void h_uaddsat(Args a) { E r = mkBin(E_ADD, a[0], a[1]); setDst(CI, mkIte(mkBin(E_ULT, r, a[0]), C(maskw(a[0]->width), a[0]->width), r)); }
static void h_ctlz(Args a) { unsigned w = a[0]->width; E r = C(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(a[0], i, 1), C(1, 1)), C(w - 1 - i, w), r); setDst(CI, r); }
static void h_cttz(Args a) { unsigned w = a[0]->width; E r = C(w, w); for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(a[0], i, 1), C(1, 1)), C(i, w), r); setDst(CI, r); }
static void h_ctpop(Args a) { unsigned w = a[0]->width; E r = C(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(a[0], i, 1), w)); setDst(CI, r); }
static void h_bswap(Args a) { unsigned w = a[0]->width; E r = mkExtract(a[0], 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(a[0], i, 8)); setDst(CI, r); }
static void h_fsh(Args a, bool left) { unsigned w = a[0]->width; u64 s = concretize(a[2]) % w; E r; if (!s) r = left ? a[0] : a[1]; else { unsigned l = left ? s : w - s; r = mkConcat(mkExtract(a[0], 0, w - l), mkExtract(a[1], w - l, l)); } setDst(CI, r); }
static void h_fshl(Args a) { h_fsh(a, true); } static void h_fshr(Args a) { h_fsh(a, false); }
static void h_ident(Args a) { setDst(CI, a[0]); }
static void h_isconst(Args) { setDst(CI, bFalse()); }
static void h_objsize(Args) { setDst(CI, C(maskw(CI->w), CI->w)); }
static void h_trap(Args) { fatal("trap", "trap executed"); }
static void h_fmuladd(Args a) { bool im = false; setDst(CI, mkFAdd(mkFMul(a[0], a[1], im), a[2], false)); }
template <int K> static void h_fun(Args a) { setDst(CI, mkFun(K, a[0])); }
static void h_fabs(Args a) { if (a[0]->isConst()) { setDst(CI, C(a[0]->c & (maskw(a[0]->width) >> 1), a[0]->width)); return; } setDst(CI, mkFun(FC_FABS, a[0])); }
static void h_pow(Args a) { if (a[0]->isConst() && a[1]->isConst()) { double r = a[0]->width == 32 ? (double)powf(bitsToD(a[0]->c, 32), bitsToD(a[1]->c, 32)) : pow(bitsToD(a[0]->c, 64), bitsToD(a[1]->c, 64)); setDst(CI, C(dToBits(r, a[0]->width), a[0]->width)); return; }
  // 2^k for an integral exponent function: concretise the exponent's integer leaf
  S->imprecise = true; setDst(CI, havoc("pow", a[0]->width)); }
static void h_fmin(Args a) { if (a[0]->isConst() && a[1]->isConst()) { double x = bitsToD(a[0]->c, a[0]->width), y = bitsToD(a[1]->c, a[1]->width); setDst(CI, x < y ? a[0] : a[1]); return; } setDst(CI, mkIte(fcmpE(CmpInst::FCMP_OLT, a[0], a[1]), a[0], a[1])); }
static void h_fmax(Args a) { if (a[0]->isConst() && a[1]->isConst()) { double x = bitsToD(a[0]->c, a[0]->width), y = bitsToD(a[1]->c, a[1]->width); setDst(CI, x > y ? a[0] : a[1]); return; } setDst(CI, mkIte(fcmpE(CmpInst::FCMP_OLT, a[0], a[1]), a[1], a[0])); }

// ---------------------------------------------------------------- harness interface
static E namedVar(const std::string& name, unsigned bits, u128 maxv, int kind) {
  static std::map<std::string, E> memo; u64 k = S->nameCount[name]++; std::string key = name + "#" + std::to_string(k) + "/" + std::to_string(bits) + "/" + std::to_string((u64)maxv) + "/" + std::to_string(kind);
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  E v = F.newVar(name + (k ? "#" + std::to_string(k) : ""), bits, maxv, kind); memo[key] = v; return v;
}
static void h_sym(Args a) { std::string n = cstr(a[0]); unsigned b = (unsigned)concretize(a[1]); E v = namedVar(n, b, maskw(b), 0); E r = mkZext(v, 64); S->syms.push_back({n, r, 64, 0}); setDst(CI, r); }
static void h_range(Args a) { std::string n = cstr(a[0]); u64 lo = concretize(a[1]), hi = concretize(a[2]); E r;
  if (hi < lo) { S->dead = true; nInfeasible++; throw PathEnd(); }
  if (lo == hi) { S->nameCount[n]++; r = C(lo, 64); } else { u64 d = hi - lo; unsigned b = 1; while (b < 64 && (d >> b)) b++; r = mkBin(E_ADD, C(lo, 64), mkZext(namedVar(n, b, d, 0), 64)); }
  S->syms.push_back({n, r, 64, 0}); setDst(CI, r); }
static void h_fsymf(Args a) { std::string n = cstr(a[0]); E v = namedVar(n, 32, maskw(32), 1); S->syms.push_back({n, v, 32, 1}); setDst(CI, v); }
static void h_fsymd(Args a) { std::string n = cstr(a[0]); E v = namedVar(n, 64, maskw(64), 1); S->syms.push_back({n, v, 64, 1}); setDst(CI, v); }
static E truth(E e) { return e->width == 1 ? e : mkNot(mkEq(e, C(0, e->width))); }
static void assumeE(E c) {
  if (c->isConst()) { if (!c->c) { S->dead = true; nInfeasible++; throw PathEnd(); } return; }
  if (evalE(c, *S->model)) { addCons(c); return; }
  ModelP m; int r = query(c, &m); if (r == 1) { S->model = m; addCons(c); return; }
  S->dead = true; if (r == 0) nInfeasible++; else nAbortedPaths++; throw PathEnd();
}
static void h_assume(Args a) { assumeE(truth(a[0])); }
static bool hasUninit(E e) { for (u32 v : varsOf(e)->v) if (F.varInfo[v].kind == 2) return true; return false; }
static void checkE(E c, const std::string& msg) {
  nAsserts++; if (c->isConst() && c->c) return;
  ModelP m; int r; nSolverAsserts++;
  if (c->isConst()) { r = 1; m = S->model; } else r = query(mkNot(c), &m);
  if (r == 1 && S->facts) { ModelP q; r = realCheck(mkNot(c), nullptr, q); if (r == 1) { report("check", msg, q, true); S->dead = true; throw PathEnd(); } if (r == 0) return; S->imprecise = true; r = 1; }
  if (r == 1) { report("check", msg, m); assumeE(c); }
  else if (r == 0) addCons(c);
}
static void h_check(Args a) { checkE(truth(a[0]), cstr(a[1])); }
static double evalPolyD(P p, const Model& m) { m.memo.clear(); return evalPoly(p, m); }
static void checkPoly(E x, E y, const std::string& msg) {
  nAsserts++; if (x == y) return; 
  P d = polyAdd(toPoly(x), polyNeg(toPoly(y))); if (d->t.empty()) return;
  E any = bFalse();
  for (auto& t : d->t) { E v = t.second; i128 sb = sbound(v, 16); if (sb >= 0) { unsigned w = 2; while (w < 63 && ((i128)1 << (w - 1)) <= sb) w++; if (w < v->width) v = mkExtract(v, 0, w); } any = mkOr(any, mkNot(mkEq(v, C(0, v->width)))); }
  if (any->isConst() && !any->c) return;
  nSolverAsserts++; ModelP m; int r = query(any, &m);
  if (r == 1 && S->facts) { ModelP q; r = realCheck(any, d, q); if (r == 0) return; if (r == 1) { report("check", msg, q, true); S->dead = true; throw PathEnd(); } S->imprecise = true; r = 1; }
  if (r == 1) { Model mm = *m; bool ok = false;
    for (int at = 0; at < 40 && !ok; at++) { fillFloats(mm, at); double v = evalPolyD(d, mm); if (v != 0) ok = true; }
    ModelP p = std::make_shared<Model>(mm); report("check", msg, p, true);
    S->dead = true; throw PathEnd(); }
}
static void h_checkf(Args a) { checkPoly(a[0], a[1], cstr(a[2])); }
static void h_sel(Args a) { setDst(CI, mkIte(truth(a[0]), a[1], a[2])); }
static void h_cover(Args a) { covers[cstr(a[0])]++; }
static void h_param(Args a) { std::string n = cstr(a[0]); auto it = params.find(n); u64 v = it != params.end() ? it->second : concretize(a[1]); setDst(CI, C(v, 64)); }
static void h_conc(Args a) { setDst(CI, C(concretize(a[0]), a[0]->width)); }
static void h_observe(Args a) { S->obs.push_back(a[0]); }
static void h_leak_mark(Args) { S->leakBase = S->allocSeq; }
static void h_leak_check(Args a) {
  nAsserts++; std::map<std::string, int> lk; 
  for (auto& o : S->mem) if (o->alive && o->seq > S->leakBase && (o->kind == K_MALLOC || o->kind == K_NEW || o->kind == K_NEWARR)) lk[std::string(kindName(o->kind)) + " at " + (o->allocLoc < allInsts.size() ? locOf(allInsts[o->allocLoc]) : "?")]++;
  if (!lk.empty()) { std::string s = cstr(a[0]) + ": never released: "; bool f = true; for (auto& p : lk) { s += (f ? "" : ", ") + p.first; f = false; } report("leak", s, S->model); }
}
static void h_try(Args a, bool ab) { u64 fp = concretize(a[0]); KFunc* tf = funcAt(fp); if (!tf) fatal("badcall", "gs_try"); FR().ip++; g_adv = false; pushFrame(tf, {a[1]}, CI->dst, 2); FR().y = ab; }
static void h_try1(Args a) { h_try(a, false); } static void h_try2(Args a) { h_try(a, true); }
static void h_mode(Args a) { (void)a; setDst(CI, C(1, 32)); }
static void h_stop(Args a) { (void)a; finishPath(); }
static void h_incomplete(Args a) { stopIncomplete(cstr(a[0])); }
static void h_rt_err(Args a) { fatal("runtime", cstr(a[0])); }
static void h_rtalloc(Args a) { u64 n = concretize(a[0]); u64 p = newObj(n, K_RT); Obj* o = wr(findObj(p)); std::fill(o->tag.begin(), o->tag.end(), 1); setDst(CI, C(p, 64)); }
static void h_rtfree(Args a) { u64 p = concretize(a[0]); if (p) freeObj(p, K_RT, "runtime free"); }
// number tokens in text files
static void h_tok_make(Args a) { u32 kind = (u32)concretize(a[0]); setDst(CI, F.mk(E_TOK, 8, kind, 0, a[1])); }
static void h_tok_is(Args a) { E c = a[0]; if (c->width > 8) c = mkExtract(c, 0, 8); setDst(CI, C(c->op == E_TOK, 32)); }
static E tokOf(E c) { if (c->width > 8) c = mkExtract(c, 0, 8); if (c->op != E_TOK) stopIncomplete("token"); return c; }
static void h_tok_val(Args a) { setDst(CI, tokOf(a[0])->k[0]); }
static void h_tok_kind(Args a) { setDst(CI, C(tokOf(a[0])->aux, 32)); }
static void h_isconst64(Args a) { setDst(CI, C(a[0]->isConst(), 32)); }
static void h_fmtround(Args a) { setDst(CI, mkFmt((char)concretize(a[0]), (unsigned)concretize(a[1]), a[2])); }
static std::string fmtD(const std::string& f, double d) { char b[512]; snprintf(b, 512, f.c_str(), d); return b; }
static void putStr(E buf, const std::string& s) { u64 p = concretize(buf); for (size_t i = 0; i <= s.size(); i++) storeMem(C(p + i, 64), C(i < s.size() ? (uint8_t)s[i] : 0, 8), 1); }
static void h_fmtd(Args a) { // gsrt_fmtd(char* buf, const char* fmt, double const): concrete formatting
  if (!a[2]->isConst()) stopIncomplete("format of symbolic float"); std::string s = fmtD(cstr(a[1]), bitsToD(a[2]->c, 64)); putStr(a[0], s); setDst(CI, C(s.size(), 32)); }
static void h_strtodc(Args a) { std::string s = cstr(a[0]); setDst(CI, C(dToBits(strtod(s.c_str(), nullptr), 64), 64)); }

// ---------------------------------------------------------------- OpenMP
static bool inTeam() { return T().parent >= 0 && T().level == 0; }
static void h_fork_call(Args a) {
  u64 fp = concretize(a[2]); KFunc* tf = funcAt(fp); if (!tf) fatal("badcall", "fork_call"); KFunc* mf = tf;
  Thread& t = T(); FR().ip++; g_adv = false;
  auto mkargs = [&](int tid) { u64 g = newObj(4, K_RT), b = newObj(4, K_RT); writeBytes(findObj(g), 0, C(tid, 32), 4); writeBytes(findObj(b), 0, C(0, 32), 4); std::vector<E> v{C(g, 64), C(b, 64)}; for (size_t i = 3; i < a.size(); i++) v.push_back(a[i]); return v; };
  int n = t.pushThr > 0 ? t.pushThr : S->maxThreads; t.pushThr = 0;
  if (t.parent >= 0 || n <= 1) { // serialised team
    auto v = mkargs(0); pushFrame(mf, v, -1, 4); FR().x = t.nthr; FR().y = t.tid; t.nthr = 1; t.tid = 0; t.level++; t.disps.emplace_back(); return; }
  int parent = S->cur; int st0 = t.strand; S->th[parent].status = 3; S->par++;
  static int uidc = 1;
  for (int i = 0; i < n; i++) { Thread c; c.parent = parent; c.tid = i; c.nthr = n; c.uid = ++uidc; S->th.push_back(c); int idx = (int)S->th.size() - 1; S->cur = idx; S->th[idx].strand = newStrand({st0}); auto v = mkargs(i); pushFrame(mf, v, -1, 3); }
  for (size_t i = 0; i < S->th.size(); i++) if (S->th[i].parent == parent) { S->cur = (int)i; break; }
}
static void h_gtn(Args) { setDst(CI, C(T().tid, 32)); }
static void h_nthr(Args) { setDst(CI, C(T().nthr, 32)); }
static void h_maxthr(Args) { setDst(CI, C(S->maxThreads, 32)); }
static void h_setthr(Args a) { u64 n = concretize(a[0]); if ((i64)(int)n > 0 && n < 64) S->maxThreads = (int)n; }
static void h_pushthr(Args a) { T().pushThr = (int)concretize(a[2]); }
static void h_inpar(Args) { setDst(CI, C(T().parent >= 0, 32)); }
static void h_wtime(Args) { static int n = 0; (void)n; setDst(CI, C(dToBits(0.0, 64), 64)); }
static void h_barrier(Args) { if (!inTeam()) return; FR().ip++; g_adv = false; T().status = 1; schedule(); }
static void h_master(Args) { setDst(CI, C(T().tid == 0, 32)); }
static u32 lockBit(u64 addr) { static std::map<u64, int> m; auto it = m.find(addr); if (it == m.end()) { int i = (int)m.size() % 30; it = m.emplace(addr, i).first; } return 1u << it->second; }
static void h_critical(Args a) { T().lock |= lockBit(concretize(a[2])); }
static void h_endcritical(Args a) { T().lock &= ~lockBit(concretize(a[2])); }
static void h_setlock(Args a) { T().lock |= lockBit(concretize(a[0])); }
static void h_unsetlock(Args a) { T().lock &= ~lockBit(concretize(a[0])); }
static void h_reduce(Args) { T().lock |= 1u << 31; setDst(CI, C(1, 32)); }
static void h_endreduce(Args) { T().lock &= ~(1u << 31); }
static void h_task_alloc(Args a) {
  u64 st = concretize(a[3]), ss = concretize(a[4]); st = (st + 7) / 8 * 8; u64 p = newObj(st + ss + 8, K_RT); int oi = findObj(p);
  writeBytes(oi, 0, C(ss ? p + st : 0, 64), 8); writeBytes(oi, 8, a[5], 8); writeBytes(oi, 16, C(0, 32), 4); setDst(CI, C(p, 64));
}
static void h_task(Args a) {
  u64 p = concretize(a[2]); int oi = findObj(p); u64 fp = concretize(readBytes(oi, 8, 8)); KFunc* tf = funcAt(fp); if (!tf) fatal("badcall", "omp task");
  FR().ip++; g_adv = false; Thread& t = T();
  if (t.parent < 0 || t.nthr == 1) { pushFrame(tf, {C(0, 32), C(p, 64)}, -1, 0); return; } // undeferred in a serial region
  for (int i = (int)t.stk.size() - 1; i >= 0; i--) if (t.stk[i].marker == 1) { if (t.stk[i].y == p) { pushFrame(tf, {C(t.tid, 32), C(p, 64)}, -1, 0); return; } break; } // an untied task enqueues its own next part
  int st = t.strand; pushFrame(tf, {C(t.tid, 32), C(p, 64)}, -1, 1); FR().x = st; FR().y = p; T().strand = newStrand({st}); T().kids.push_back({}); T().inTask++;
}
static void h_taskwait(Args) { Thread& t = T(); auto& k = t.kids.back(); if (k.empty()) return; std::vector<int> p = k; p.push_back(t.strand); k.clear(); int s = newStrand(p); T().strand = s; }
static void h_endtaskgroup(Args) { Thread& t = T(); std::vector<int> p = t.allTasks; for (auto& k : t.kids) for (int x : k) p.push_back(x); p.push_back(t.strand); int s = newStrand(p); T().strand = s; }
static void putI(E ptr, u64 v, unsigned w) { storeMem(ptr, C(v, w), w / 8); }
static E getI(E ptr, unsigned w) { return loadMem(ptr, w / 8); }
template <int W, bool SG> static void h_static_init(Args a) { // loc gtid sched plast plower pupper pstride incr chunk
  u64 sched = concretize(a[2]); E le = getI(a[4], W), ue = getI(a[5], W); auto ex = [&](E e) -> i64 { u64 v = concretize(e); return W == 32 ? (SG ? (i64)(int32_t)v : (i64)(u32)v) : (i64)v; };
  i64 lo = ex(le), up = ex(ue), inc = (i64)sextc(concretize(a[7]), W), ch = (i64)sextc(concretize(a[8]), W); int n = inTeam() ? T().nthr : 1, tid = inTeam() ? T().tid : 0;
  if (ch < 1) ch = 1; i64 trip = inc > 0 ? (up < lo ? 0 : (up - lo) / inc + 1) : (up > lo ? 0 : (lo - up) / -inc + 1); if (!SG && (u64)up < (u64)lo) trip = 0;
  if (trip == 0) { putI(a[3], 0, 32); putI(a[6], (u64)inc, W); return; }
  if (sched == 33 || sched == 91) { i64 span = ch * inc; putI(a[6], (u64)(span * n), W); i64 l = lo + span * tid; putI(a[4], (u64)l, W); putI(a[5], (u64)(l + span - inc), W); putI(a[3], tid == (trip - 1) / ch % n, 32); }
  else { i64 small = trip / n, ext = trip % n; i64 f = tid * small + std::min<i64>(tid, ext), c = small + (tid < ext ? 1 : 0); putI(a[4], (u64)(lo + f * inc), W); putI(a[5], (u64)(lo + (f + c - 1) * inc), W); putI(a[6], (u64)trip, W); putI(a[3], c > 0 && f + c == trip, 32); }
}
template <int W, bool SG> static void h_disp_init(Args a) { // loc gtid sched lb ub st chunk
  auto ex = [&](E e) -> i64 { u64 v = concretize(e); return W == 32 ? (SG ? (i64)(int32_t)v : (i64)(u32)v) : (i64)v; };
  Disp d; d.lo = ex(a[3]); d.up = ex(a[4]); d.st = (i64)sextc(concretize(a[5]), W); d.ch = (i64)sextc(concretize(a[6]), W); if (d.ch < 1) d.ch = 1; d.k = 0;
  d.trip = d.st > 0 ? (d.up < d.lo ? 0 : (d.up - d.lo) / d.st + 1) : (d.up > d.lo ? 0 : (d.lo - d.up) / -d.st + 1); d.base = T().strand; T().disps.back() = d;
}
template <int W, bool SG> static void h_disp_next(Args a) { // loc gtid plast plb pub pst
  Disp& d = T().disps.back(); bool mine = !inTeam() || T().tid == 0 ; i64 i = d.k;
  if (!mine || i >= d.trip) { if (inTeam() && !d.ends.empty()) { d.ends.push_back(T().strand); for (int e : d.ends) T().allTasks.push_back(e); int b = d.base; T().disps.back().ends.clear(); T().strand = newStrand({b}); } setDst(CI, C(0, 32)); return; }
  i64 n = std::min(d.ch, d.trip - i);
  if (inTeam()) { if (i > 0) d.ends.push_back(T().strand); else d.ends.clear(); int b = d.base; if (d.ends.empty() && i == 0) d.ends.push_back(T().strand); int s = newStrand({b}); T().strand = s; T().chunk = true; }
  T().disps.back().k += n; Disp e = T().disps.back();
  putI(a[2], i + n >= e.trip, 32); putI(a[3], (u64)(e.lo + i * e.st), W); putI(a[4], (u64)(e.lo + (i + n - 1) * e.st), W); putI(a[5], (u64)e.st, W); setDst(CI, C(1, 32));
}

// ---------------------------------------------------------------- dispatch
static void vaCall(KInst* k, const std::string& rt, std::vector<E>& a, unsigned fixed) {
  Function* f = M->getFunction(rt); if (!f || f->isDeclaration()) { if (rt.find("printf") != std::string::npos) { setDst(k, C(0, 32)); return; } stopIncomplete("no runtime for " + rt); }
  u64 va = newObj(8 * (a.size() - fixed) + 8, K_RT); int oi = findObj(va); for (size_t i = fixed; i < a.size(); i++) writeBytes(oi, 8 * (i - fixed), mkZext(a[i], 64), 8);
  std::vector<E> v(a.begin(), a.begin() + fixed); v.push_back(C(va, 64)); v.push_back(C(a.size() - fixed, 32)); FR().ip++; g_adv = false; pushFrame(kf(f), v, k->dst, 0);
}
static void addH(const char* n, void (*f)(Args)) { handlers[n] = (int)handlerFns.size(); handlerFns.push_back(f); handlerNames.push_back(n); }
static std::map<std::string, std::pair<std::string, int>> vaFns = {{"fprintf", {"gsrt_va_fprintf", 2}}, {"sprintf", {"gsrt_va_sprintf", 2}}, {"snprintf", {"gsrt_va_snprintf", 3}}, {"fscanf", {"gsrt_va_fscanf", 2}}, {"sscanf", {"gsrt_va_sscanf", 2}}, {"__isoc99_fscanf", {"gsrt_va_fscanf", 2}}, {"__isoc99_sscanf", {"gsrt_va_sscanf", 2}}, {"__isoc23_fscanf", {"gsrt_va_fscanf", 2}}, {"__isoc23_sscanf", {"gsrt_va_sscanf", 2}}, {"__sprintf_chk", {"gsrt_va_sprintf_chk", 4}}};
// printed text is kept only for harnesses that ask for it
static bool capturing() { static int c = -1; if (c < 0) { Function* f = M->getFunction("gs_capture"); c = f && !f->isDeclaration() && f->hasNUsesOrMore(1); } return c == 1; }
static std::map<std::string, void (*)(Args)> prefixH;
static void initHandlers() {
  for (auto n : {"_Znwm"}) addH(n, h_new);
  addH("_Znam", h_newarr); addH("_ZnwmRKSt9nothrow_t", h_newNT); addH("_ZnamRKSt9nothrow_t", h_newarrNT); addH("_ZnwmSt11align_val_t", h_newAl); addH("_ZnamSt11align_val_t", h_newarrAl);
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) addH(n, h_delete);
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) addH(n, h_deletearr);
  addH("malloc", h_malloc); addH("calloc", h_calloc); addH("realloc", h_realloc); addH("free", h_free); addH("aligned_alloc", h_aligned_alloc); addH("memalign", h_aligned_alloc); addH("posix_memalign", h_posix_memalign);
  addH("memcpy", h_memcpy); addH("memmove", h_memcpy); addH("memset", h_memset); 
  addH("__assert_fail", h_assert_fail); addH("__assert_rtn", h_assert_fail); addH("abort", h_abort); addH("_ZSt9terminatev", h_abort); addH("exit", h_exit); addH("_exit", h_exit); addH("__cxa_pure_virtual", h_abort);
  addH("omp_get_thread_num", h_gtn); addH("__kmpc_global_thread_num", h_gtn); addH("__kmpc_bound_thread_num", h_gtn); addH("omp_get_num_threads", h_nthr); addH("omp_get_max_threads", h_maxthr); addH("omp_get_num_procs", h_maxthr); addH("omp_set_num_threads", h_setthr); addH("__kmpc_push_num_threads", h_pushthr); addH("omp_in_parallel", h_inpar); addH("omp_get_wtime", h_wtime);
  addH("__kmpc_fork_call", h_fork_call); addH("__kmpc_barrier", h_barrier); addH("__kmpc_master", h_master); addH("__kmpc_masked", h_master); addH("__kmpc_single", h_master); for (auto n : {"__kmpc_end_master", "__kmpc_end_masked", "__kmpc_end_single", "__kmpc_taskgroup"}) addH(n, h_memcpy);
  for (auto n : {"__kmpc_end_master", "__kmpc_end_masked", "__kmpc_end_single", "__kmpc_taskgroup"}) handlers[n] = -2;
  addH("__kmpc_end_taskgroup", h_endtaskgroup);
  addH("__kmpc_critical", h_critical); addH("__kmpc_critical_with_hint", h_critical); addH("__kmpc_end_critical", h_endcritical); addH("omp_set_lock", h_setlock); addH("omp_unset_lock", h_unsetlock);
  addH("__kmpc_reduce", h_reduce); addH("__kmpc_reduce_nowait", h_reduce); addH("__kmpc_end_reduce", h_endreduce); addH("__kmpc_end_reduce_nowait", h_endreduce);
  addH("__kmpc_omp_task_alloc", h_task_alloc); addH("__kmpc_omp_task", h_task); addH("__kmpc_omp_taskwait", h_taskwait);
  addH("__kmpc_for_static_init_4u", h_static_init<32, false>); addH("__kmpc_for_static_init_4", h_static_init<32, true>); addH("__kmpc_for_static_init_8u", h_static_init<64, false>); addH("__kmpc_for_static_init_8", h_static_init<64, true>);
  addH("__kmpc_dispatch_init_4u", h_disp_init<32, false>); addH("__kmpc_dispatch_init_4", h_disp_init<32, true>); addH("__kmpc_dispatch_init_8u", h_disp_init<64, false>); addH("__kmpc_dispatch_init_8", h_disp_init<64, true>);
  addH("__kmpc_dispatch_next_4u", h_disp_next<32, false>); addH("__kmpc_dispatch_next_4", h_disp_next<32, true>); addH("__kmpc_dispatch_next_8u", h_disp_next<64, false>); addH("__kmpc_dispatch_next_8", h_disp_next<64, true>);
  addH("gs_sym", h_sym); addH("gs_range", h_range); addH("gs_fsym_f", h_fsymf); addH("gs_fsym_d", h_fsymd); addH("gs_assume", h_assume); addH("gs_check", h_check); addH("gs_check_f", h_checkf); addH("gs_check_d", h_checkf); addH("gs_cover", h_cover); addH("gs_sel", h_sel); addH("gs_sel_f", h_sel); addH("gs_sel_d", h_sel); addH("gs_param", h_param); addH("gs_conc", h_conc); addH("gs_threads", h_setthr); addH("gs_observe", h_observe); addH("gs_leak_mark", h_leak_mark); addH("gs_leak_check", h_leak_check); addH("gs_try", h_try1); addH("gs_try_abort", h_try2); addH("gs_symbolic", h_mode); addH("gs_zero_new", h_zeronew); addH("gs_stop", h_stop);
  addH("gsrt_incomplete", h_incomplete); addH("gsrt_error", h_rt_err); addH("gsrt_alloc", h_rtalloc); addH("gsrt_free", h_rtfree); addH("gsrt_tok_make", h_tok_make); addH("gsrt_tok_is", h_tok_is); addH("gsrt_tok_val", h_tok_val); addH("gsrt_tok_kind", h_tok_kind); addH("gsrt_is_const", h_isconst64); addH("gsrt_fmtround", h_fmtround); addH("gsrt_fmtd", h_fmtd); addH("gsrt_strtod_const", h_strtodc);
  addH("sqrt", h_fun<FC_SQRT>); addH("sqrtf", h_fun<FC_SQRT>); addH("log2", h_fun<FC_LOG2>); addH("log2f", h_fun<FC_LOG2>); addH("log", h_fun<FC_LOG>); addH("logf", h_fun<FC_LOG>); addH("cbrt", h_fun<FC_CBRT>); addH("cbrtf", h_fun<FC_CBRT>); addH("ceil", h_fun<FC_CEIL>); addH("ceilf", h_fun<FC_CEIL>); addH("floor", h_fun<FC_FLOOR>); addH("floorf", h_fun<FC_FLOOR>); addH("round", h_fun<FC_ROUND>); addH("roundf", h_fun<FC_ROUND>); addH("trunc", h_fun<FC_TRUNCI>); addH("truncf", h_fun<FC_TRUNCI>); addH("fabs", h_fabs); addH("fabsf", h_fabs); addH("pow", h_pow); addH("powf", h_pow); addH("exp2", h_pow);
  prefixH = {{"llvm.memcpy", h_memcpy}, {"llvm.memmove", h_memcpy}, {"llvm.memset", h_memset}, {"llvm.umul.with.overflow", h_umulo}, {"llvm.uadd.with.overflow", h_uaddo}, {"llvm.usub.with.overflow", h_usubo}, {"llvm.sadd.with.overflow", h_saddo}, {"llvm.ssub.with.overflow", h_ssubo}, {"llvm.smul.with.overflow", h_smulo}, {"llvm.umin", h_umin}, {"llvm.umax", h_umax}, {"llvm.smin", h_smin}, {"llvm.smax", h_smax}, {"llvm.abs", h_abs}, {"llvm.usub.sat", h_usubsat}, {"llvm.uadd.sat", h_uaddsat}, {"llvm.ctlz", h_ctlz}, {"llvm.cttz", h_cttz}, {"llvm.ctpop", h_ctpop}, {"llvm.bswap", h_bswap}, {"llvm.fshl", h_fshl}, {"llvm.fshr", h_fshr}, {"llvm.expect", h_ident}, {"llvm.is.constant", h_isconst}, {"llvm.objectsize", h_objsize}, {"llvm.trap", h_trap}, {"llvm.fmuladd", h_fmuladd}, {"llvm.fma", h_fmuladd}, {"llvm.fabs", h_fabs}, {"llvm.sqrt", h_fun<FC_SQRT>}, {"llvm.ceil", h_fun<FC_CEIL>}, {"llvm.floor", h_fun<FC_FLOOR>}, {"llvm.round", h_fun<FC_ROUND>}, {"llvm.trunc", h_fun<FC_TRUNCI>}, {"llvm.log2", h_fun<FC_LOG2>}, {"llvm.log.", h_fun<FC_LOG>}, {"llvm.pow.", h_pow}, {"llvm.minnum", h_fmin}, {"llvm.maxnum", h_fmax}, {"llvm.launder", h_ident}, {"llvm.strip", h_ident}, {"_ZSt17__throw", h_throw}, {"_ZSt20__throw", h_throw}, {"_ZSt19__throw", h_throw}, {"_ZSt24__throw", h_throw}, {"_ZSt28__throw", h_throw}, {"__cxa_throw", h_throw}};
}
static bool outputFn(KFunc* c) { // std::cout, where the runtime models it
  if (c->Fn->isDeclaration() || !capturing()) return false;
  auto& n = c->name; return n == "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l" || n == "_ZNSo5writeEPKcl" || n == "_ZNSo3putEc" || n == "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_" || starts(n, "_ZNSolsE") || starts(n, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_");
}
static int classify(KFunc* c) { // handler index, -2 none, -3 no-op
  auto it = handlers.find(c->name); if (it != handlers.end() && it->second >= 0) return it->second; 
  if (it != handlers.end() && it->second == -2) return -3;
  for (auto& p : prefixH) if (starts(c->name, p.first.c_str()) && (c->Fn->isDeclaration() || starts(c->name, "llvm."))) { addH(c->name.c_str(), p.second); return handlers[c->name]; }
  if (isNoop(c->name)) return outputFn(c) ? -2 : -3;
  return -2;
}
static void execCall(KInst* k) {
  std::vector<E> a; a.reserve(k->ops.size()); { Frame& f = FR(); for (auto& o : k->ops) a.push_back(o.reg >= 0 ? f.regs[o.reg] : o.cst); }
  if (k->iasm) { if (!k->iasm->empty()) stopIncomplete("inline assembly"); FR().ip++; return; }
  KFunc* c = k->callee;
  if (!c) { E t = a.back(); a.pop_back(); u64 p = concretize(t); c = funcAt(p); if (!c) fatal("badcall", "call through an invalid function pointer"); }
  int h = k->callee ? k->handler : -1;
  if (h == -1) { h = classify(c); if (k->callee) k->handler = h; }
  if (h >= 0) { g_adv = true; handlerFns[h](a); if (g_adv) FR().ip++; return; }
  if (capturing()) {
    if (c->name == "printf") { g_adv = true; vaCall(k, "gsrt_va_printf", a, 1); if (g_adv) FR().ip++; return; }
    const char* to = c->name == "puts" ? "gsrt_puts" : c->name == "putchar" ? "gsrt_putchar" : nullptr;
    if (to) { FR().ip++; pushFrame(kf(M->getFunction(to)), a, k->dst, 0); return; }
  }
  auto va = vaFns.find(c->name);
  if (va != vaFns.end()) { if (c->name == "fprintf" && a[0]->isConst() && ((a[0]->c == 0xF2000 && !capturing()) || a[0]->c == 0xF3000)) { setDst(k, C(0, 32)); FR().ip++; return; } g_adv = true; vaCall(k, va->second.first, a, va->second.second); if (g_adv) FR().ip++; return; }
  if (h == -3 || c->name == "printf" || c->name == "vprintf") { if (k->dst >= 0) { E r = !a.empty() && a[0]->width == k->w ? a[0] : k->w ? C(0, k->w) : nullptr; setDst(k, r); } FR().ip++; return; }
  if (c->Fn->isDeclaration()) stopIncomplete("external function " + c->name);
  FR().ip++; pushFrame(c, a, k->dst, 0);
}
