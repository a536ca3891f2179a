// The conversion tools (src/tools): main() runs on arbitrary input files, its output files are compared with what they must hold.
// TOOL 1 convert, 2 convert_blocked, 3 expanded, 4 permute, 5 ipermute, 6 sort, 7 prepare, 8 one2zero, 9 double2float, 10 pprint
// MODE 0 well-formed input, 1 bad input, 2 long file names, 3 the disk fills up
#if TOOL == 6 || TOOL == 9
#define VT double
#endif
#include "gsio.h"
#define main tool_main
#if TOOL == 1
#include "tools/convert.cpp"
#elif TOOL == 2
#include "tools/convert_blocked.cpp"
#elif TOOL == 3
#include "tools/expanded.cpp"
#elif TOOL == 4
#include "tools/permute.cpp"
#elif TOOL == 5
#define INVPERM
#include "tools/permute.cpp"
#elif TOOL == 6
#include "tools/sort.cpp"
#elif TOOL == 7
#include "tools/prepare.cpp"
#elif TOOL == 8
#include "tools/one2zero.c"
#elif TOOL == 9
#include "tools/double2float.c"
#elif TOOL == 10
#include "tools/pprint.c"
#endif
#undef main
static u64 lcg = 12345;
static IX rnd(u64 n) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; return (IX)((lcg >> 33) % n); } // the fixed positions of large inputs
struct Args { int n; char* v[10]; int ret; };
static void call(void* p) { Args* a = (Args*)p; a->ret = tool_main(a->n, a->v); }
// status of the tool: what main returned or exit() was given
static int run(Args& a) { a.ret = 0; int q = gs_try(call, &a); return q >= 1000 ? q - 1000 : a.ret; }
static void add(Args& a, const char* s) { size_t n = strlen(s) + 1; char* d = (char*)malloc(n); memcpy(d, s, n); a.v[a.n++] = d; a.v[a.n] = 0; }
// one of the output files takes no byte: reported unless it is there all the same
static bool fullFile(Args& a, const char* const* nm, const u64* need, int n) {
  u64 k = gs_conc(gs_range("nospace", 0, (u64)n)); if (!k) return false; gs_nospace(nm[k - 1]); int q = run(a);
  gs_check(need[k - 1] == 0 ? q == 0 : (q != 0 || fileSize(nm[k - 1]) > 0), "one output file without room is reported"); gs_cover("one"); return true;
}
// no file can hold more than a number of bytes while the tool runs; the largest output file needs `need` of them, as text if `text`
static void diskFull(Args& a, u64 need, bool text) {
  u64 cap = gs_sym("cap", 64); if (text) gs_assume((cap == 0) | (cap > 0xffffffff)); gs_disk(cap); int q = run(a); gs_disk(~0ull);
  if (need > cap) { gs_check(q != 0, "output that does not reach the disk is reported"); gs_cover("full"); } else { gs_check(q == 0, "the tool succeeds when the output fits"); closed(); gs_cover("fits"); }
}
static void freeArgs(Args& a) { for (int i = 0; i < a.n; i++) free(a.v[i]); }
static const char* NM[4] = {"r", "c", "v", "s"};
static void putIdx(const char* n, const IX* d, IX k) { Wr w(n); for (IX i = 0; i < k; i++) w(d[i]); w.done(); }
static void putVal(const char* n, const VT* d, IX k) { Wr w(n); for (IX i = 0; i < k; i++) w(d[i]); w.done(); }
// Elements read from an output file: the N given ones in some order (values compared per place), sorted as `order` says
struct Out { IX n; IX *r, *c, *b; VT* v; };
static Out mk(IX n) { Out o; o.n = n; o.r = new IX[n + 1]; o.c = new IX[n + 1]; o.b = new IX[n + 1]; o.v = new VT[n + 1]; return o; }
static void del(Out& o) { delete[] o.r; delete[] o.c; delete[] o.b; delete[] o.v; }
// same elements, as sequences without duplicates merged: counts and sums per place agree
static void sameElems(const Out& o, IX N, const IX* r, const IX* c, const VT* v) {
  gs_check(o.n == N, "number of elements written"); if (o.n != N) return;
  if (gs_param("pat", 0)) { // fixed positions: open-addressing table of places
    u64 cap = 1; while (cap < 4 * (u64)N + 4) cap *= 2; u64* key = new u64[cap](); int* d = new int[cap](); VT *s = new VT[cap](), *t = new VT[cap]();
    for (IX k = 0; k < N; k++) { u64 p = ((u64)r[k] << 32 | c[k]) + 1, h = p * 0x9E3779B97F4A7C15ull % cap; while (key[h] && key[h] != p) h = (h + 1) % cap; key[h] = p; d[h]++; s[h] = VT(s[h] + v[k]); }
    for (IX k = 0; k < N; k++) { u64 p = ((u64)gs_conc(o.r[k]) << 32 | gs_conc(o.c[k])) + 1, h = p * 0x9E3779B97F4A7C15ull % cap; while (key[h] && key[h] != p) h = (h + 1) % cap; gs_check(key[h] != 0, "elements written at this place"); d[h]--; t[h] = VT(t[h] + o.v[k]); }
    for (u64 h = 0; h < cap; h++) if (key[h]) { gs_check(d[h] == 0, "elements written at this place"); g_eq(t[h], s[h], "value written at this place"); }
    delete[] key; delete[] d; delete[] s; delete[] t; return;
  }
  for (IX i = 0; i < N; i++) {
    IX a = 0, b = 0; VT s = 0, t = 0;
    for (IX k = 0; k < N; k++) { int e = (r[k] == r[i]) & (c[k] == c[i]), g = (o.r[k] == r[i]) & (o.c[k] == c[i]); a += (IX)e; b += (IX)g; s = VT(s + g_sel(e, v[k], VT(0))); t = VT(t + g_sel(g, o.v[k], VT(0))); }
    gs_check(a == b, "elements written at this place"); g_eq(t, s, "value written at this place");
  }
}
static Out readBin(const char* n, IX R, IX C, IX N) {
  Rd f(n); f.idx(R, "rows in the header"); f.idx(C, "columns in the header"); f.idx(N, "non-zeros in the header"); Out o = mk(N);
  for (IX i = 0; i < N; i++) o.r[i] = f.get<IX>(); for (IX i = 0; i < N; i++) o.c[i] = f.get<IX>(); for (IX i = 0; i < N; i++) o.v[i] = f.get<VT>(); f.done(); return o;
}
static void colSorted(const Out& o) { for (IX i = 1; i < o.n; i++) gs_check((o.c[i - 1] < o.c[i]) | ((o.c[i - 1] == o.c[i]) & (o.r[i - 1] <= o.r[i])), "sorted by column, then row"); }
static void rowSorted(const Out& o) { for (IX i = 1; i < o.n; i++) gs_check((o.r[i - 1] < o.r[i]) | ((o.r[i - 1] == o.r[i]) & (o.c[i - 1] <= o.c[i])), "sorted by row, then column"); }
static IX blkOf(const IX* off, IX nb, IX i) { if (gs_param("pat", 0)) { IX lo = 0, hi = nb; while (hi - lo > 1) { IX m = (lo + hi) / 2; if (off[m] <= i) lo = m; else hi = m; } return lo; } IX b = 0; for (IX k = 1; k < nb; k++) b = (IX)gs_sel(i >= off[k], k, b); return b; }
static Out readMm(const char* n, IX R, IX C, IX N) {
  FILE* f = fopen(n, "r"); gs_check(f != 0, "the output file exists"); char line[1100], w[5][64]; char* p = fgets(line, 1100, f);
  gs_check(p && sscanf(line, "%63s %63s %63s %63s %63s", w[0], w[1], w[2], w[3], w[4]) == 5 && !strcmp(w[0], "%%MatrixMarket") && !strcmp(w[1], "matrix") && !strcmp(w[2], "coordinate") && !strcmp(w[3], "real") && !strcmp(w[4], "general"), "banner");
  do p = fgets(line, 1100, f); while (p && line[0] == '%');
  unsigned long r, c, k; gs_check(p && sscanf(line, "%lu %lu %lu", &r, &c, &k) == 3, "size line"); gs_check(r == R && c == C && k == N, "sizes written");
  Out o = mk(N); for (IX i = 0; i < N; i++) { double d = 0; gs_check(fscanf(f, "%lu %lu %lg", &r, &c, &d) == 3, "element line"); o.r[i] = (IX)(r - 1); o.c[i] = (IX)(c - 1); o.v[i] = (VT)d; }
  fclose(f); return o;
}
static void cat(char* d, const char* a, const char* b) { strcpy(d, a); strcat(d, b); }
static void num(char* d, const char* pre, IX n) { char t[24]; int k = 0; do { t[k++] = (char)('0' + n % 10); n /= 10; } while (n); strcpy(d, pre); size_t l = strlen(d); while (k) d[l++] = t[--k]; d[l] = 0; }

#ifdef ARGS
extern "C" void gs_harness() { // any number of arguments, none of which names a file
  static const char* W[] = {"program", "nofile", "nofile", "other", "3", "nofile", "x", "y", "z"}; gs_threads(2); u64 n = gs_conc(gs_range("args", 1, 9)); Args a; a.n = 0; for (u64 i = 0; i < n; i++) add(a, W[i]);
  int q = run(a); gs_check(q != 0, "arguments that name no file are reported"); gs_check(!exists("nofile"), "no file appears"); freeArgs(a); gs_cover("end");
}
#elif TOOL == 10
// The file is printed: the numbers it holds, in order, and nothing else. Bad files are reported.
static void intIs(FILE* f, IX e) { unsigned long v = 0; gs_check(fscanf(f, "%lu", &v) == 1, "a number is printed"); gs_check(v == e, "the index printed is the one in the file"); }
static void valIs(FILE* f, double e) { double v = 0; gs_check(fscanf(f, "%lf", &v) == 1, "a value is printed"); double d = v - e; gs_check(d <= 1e-6 * (e + 1) && d >= -1e-6 * (e + 1), "the value printed is the one in the file"); }
extern "C" void gs_harness() {
  u64 mode = gs_conc(gs_range("mode", 0, 3)), bad = gs_conc(gs_range("bad", 0, gs_param("bad", 1))); // bad: 1 missing, 2 cut short
  static const char* M[] = {"triples", "blocks", "vector"}; Args a; a.n = 0; add(a, "pprint"); add(a, "m"); if (mode < 3) add(a, M[mode]);
  IX N = (IX)gs_conc(gs_range("N", 0, gs_param("N1", 2))), h[6], ix[300], R = (IX)gs_sym("R", 32), C = (IX)gs_sym("C", 32); double v[100]; u64 words = mode == 0 ? 3 + 3 * N : mode == 2 ? N : 6 + 4 * N, per = mode == 0 ? 2 : mode == 2 ? 1 : 3, cut = words;
  h[0] = R; h[1] = C; h[2] = N; for (int k = 3; k < 6; k++) h[k] = (IX)gs_sym("h", 32);
  for (IX i = 0; i < per * N; i++) ix[i] = (IX)gs_sym("i", 32); for (IX i = 0; i < N; i++) v[i] = (double)gs_conc(gs_range("v", 0, gs_param("vmax", 3))) / 4;
  if (bad == 2) { gs_assume(mode != 2 && words > 0); cut = gs_conc(gs_range("cut", 0, words - 1)); }
  if (bad != 1) { Wr w("m"); u64 k = 0; auto W = [&](auto x) { if (k++ < cut) w(x); };
    if (mode == 0) { for (int i = 0; i < 3; i++) W(h[i]); for (IX i = 0; i < 2 * N; i++) W(ix[i]); for (IX i = 0; i < N; i++) W((VT)v[i]); }
    else if (mode == 2) for (IX i = 0; i < N; i++) W(ix[i]);
    else { for (int i = 0; i < 6; i++) W(h[i]); for (IX i = 0; i < N; i++) { for (int j = 0; j < 3; j++) W(ix[3 * i + j]); W((VT)v[i]); } }
    if (bad == 2) { u64 part = gs_conc(gs_range("part", 0, 3)); for (u64 i = 0; i < part; i++) w((uint8_t)1); }
    w.done(); }
  gs_capture("stdout.txt"); int q = run(a); gs_capture(0); gs_check((q == 0) == !bad, "status of the tool"); closed();
  if (!bad) {
    FILE* f = fopen("stdout.txt", "r"); gs_check(f != 0, "captured output"); char line[200];
    if (mode == 3) gs_check(fgets(line, 200, f) && strstr(line, "blocked") != 0, "the assumption is announced");
    if (mode == 0) { unsigned long x[3]; gs_check(fscanf(f, "%lu rows x %lu columns, %lu non-zeros", x, x + 1, x + 2) == 3, "the sizes are printed"); gs_check(x[0] == R && x[1] == C && x[2] == N, "the sizes printed are those in the file");
      for (int d = 0; d < 2; d++) { for (IX i = 0; i < N; i++) intIs(f, ix[d * N + i]); char w[80]; gs_check(fscanf(f, "%79s", w) == 1 && w[0] == '-', "a separator follows the indices"); }
      for (IX i = 0; i < N; i++) valIs(f, v[i]); }
    else if (mode == 2) for (IX i = 0; i < N; i++) intIs(f, ix[i]);
    else for (IX i = 0; i < N; i++) { for (int j = 0; j < 3; j++) intIs(f, ix[3 * i + j]); valIs(f, v[i]); }
    char w[80]; gs_check(fscanf(f, "%79s", w) != 1, "nothing else is printed"); fclose(f); gs_cover("printed");
  } else gs_cover(bad == 1 ? "missing" : "short");
  freeArgs(a); gs_cover("end");
}
#elif TOOL == 8 || TOOL == 9
extern "C" void gs_harness() {
  static const char* SUF = TOOL == 8 ? ".zero" : ".float"; int files = (int)gs_conc(gs_range("files", 1, 2)), mode = (int)gs_param("mode", 0);
  IX cnt[2]; u64 zero = 0, miss = 0, tail[2]; char name[2][300]; static u64 v[2][40000]; static double d[2][40000]; Args a; a.n = 0; add(a, "tool");
  for (int i = 0; i < files; i++) {
    strcpy(name[i], i ? "second" : "first"); cnt[i] = (IX)gs_conc(gs_range("n", gs_param("n0", 0), gs_param("n1", 3))); tail[i] = mode == 1 ? gs_conc(gs_range("tail", 0, 3)) : 0;
    if (mode == 2 && i == 0) { u64 len = gs_conc(gs_range("len", gs_param("l0", 112), gs_param("l1", 134))); for (u64 k = 0; k < len; k++) name[0][k] = 'n'; name[0][len] = 0; }
    add(a, name[i]);
    Wr w(name[i]); for (IX k = 0; k < cnt[i]; k++) {
#if TOOL == 8
      v[i][k] = gs_sym("v", 32); if (mode != 1) gs_assume(v[i][k] != 0); else if (gs_conc(v[i][k] == 0)) zero |= 1u << i; w((IX)v[i][k]); (void)d;
#else
      d[i][k] = g_val(double(), "d"); w(d[i][k]); (void)v;
#endif
    }
    for (u64 k = 0; k < tail[i]; k++) w((uint8_t)1); w.done();
  }
  if (mode == 1 && !zero) { miss = gs_conc(gs_range("missing", 0, (u64)files)); if (miss) remove(name[miss - 1]); }
  if (mode == 3) { const char* nm[] = {TOOL == 8 ? "first.zero" : "first.float", TOOL == 8 ? "second.zero" : "second.float"}; u64 nd[] = {cnt[0], files > 1 ? cnt[1] : 0}; if (fullFile(a, nm, nd, files)) { freeArgs(a); gs_cover("end"); return; } }
  if (mode == 3) { u64 need = 0; for (int i = 0; i < files; i++) if (4 * (u64)cnt[i] > need) need = 4 * (u64)cnt[i]; diskFull(a, need, false); freeArgs(a); gs_cover("end"); return; }
  int q = run(a); char o[310];
  bool fits = strlen(name[0]) + strlen(SUF) < 255; (void)fits;
  if (mode == 1 && (zero || miss)) { gs_check(q != 0, "bad input is reported"); gs_cover("bad"); }
  else if (mode == 2 && q != 0) { gs_check(strlen(name[0]) > 100, "ordinary names are accepted"); cat(o, name[0], SUF); gs_check(!exists(o), "no output under another name"); gs_cover("toolong"); }
  else {
    gs_check(q == 0, "the tool succeeds"); closed();
    for (int i = 0; i < files; i++) { cat(o, name[i], SUF); Rd f(o);
      for (IX k = 0; k < cnt[i]; k++)
#if TOOL == 8
        gs_check(f.get<IX>() == (IX)(v[i][k] - 1), "index minus one");
#else
        gs_check_f(f.get<float>(), (float)d[i][k], "value as float");
#endif
      f.done(); }
    gs_cover("converted");
  }
  freeArgs(a); gs_cover("end");
}
#elif TOOL == 4 || TOOL == 5
extern "C" void gs_harness() {
  int mode = (int)gs_param("mode", 0); IX P = (IX)gs_conc(gs_range("P", gs_param("P0", 1), gs_param("P1", 4))), N = (IX)gs_conc(gs_range("N", gs_param("N0", 0), gs_param("N1", 3))); gs_threads(gs_param("threads", 2)); u64 pat = gs_param("pat", 0);
  IX *p = new IX[P + 1], *r = new IX[N + 1], *c = new IX[N + 1];
  if (pat) { lcg = pat; for (IX i = 0; i < P; i++) p[i] = i; for (IX i = P; i > 1; i--) { IX k = rnd(i), t = p[i - 1]; p[i - 1] = p[k]; p[k] = t; } } else for (IX i = 0; i < P; i++) { p[i] = (IX)gs_range("p", 0, P - 1); for (IX k = 0; k < i; k++) gs_assume(p[k] != p[i]); }
  for (IX i = 0; i < N; i++) { r[i] = pat && i + 2 < N ? rnd(P) : (IX)gs_range("r", 0, P - 1); c[i] = pat && i + 2 < N ? rnd(P) : (IX)gs_range("c", 0, P - 1); }
  char rn[300], o[310]; strcpy(rn, "r"); if (mode == 2) { u64 len = gs_conc(gs_range("len", gs_param("l0", 112), gs_param("l1", 134))); for (u64 k = 0; k < len; k++) rn[k] = 'n'; rn[len] = 0; }
  u64 miss = mode == 1 ? gs_conc(gs_range("missing", 0, 3)) : 0;
  if (mode == 1 && !miss) { IX x = (IX)gs_range("big", P, gs_conc(gs_range("huge", 0, 1)) ? 0xffffffff : P + 2); u64 w = gs_conc(gs_range("where", 0, TOOL == 5 ? 2 : 1)); gs_assume(N > 0 || w == 2); if (w == 2) p[P - 1] = x; else if (w) c[N - 1] = x; else r[N - 1] = x; miss = 4; }
  if (miss != 1) putIdx(rn, r, N); if (miss != 2) putIdx("c", c, N); if (miss != 3) putIdx("p", p, P);
  Args a; a.n = 0; add(a, "permute"); add(a, rn); add(a, "c"); add(a, "p");
  if (mode == 3) { const char* nm[] = {"r.permuted", "c.permuted"}; u64 nd[] = {N, N}; if (fullFile(a, nm, nd, 2)) { delete[] p; delete[] r; delete[] c; freeArgs(a); gs_cover("end"); return; } }
  if (mode == 3) { diskFull(a, 4 * (u64)N, false); delete[] p; delete[] r; delete[] c; freeArgs(a); gs_cover("end"); return; }
  int q = run(a);
  if (miss) { gs_check(q != 0, "bad input is reported"); gs_cover(miss == 4 ? "index" : "bad"); }
  else if (mode == 2 && q != 0) { gs_check(strlen(rn) > 100, "ordinary names are accepted"); cat(o, rn, ".permuted"); gs_check(!exists(o), "no output under another name"); gs_cover("toolong"); }
  else {
    gs_check(q == 0, "the tool succeeds"); closed(); cat(o, rn, ".permuted");
    for (int w = 0; w < 2; w++) { Rd f(w ? "c.permuted" : o); IX* s = w ? c : r; for (IX i = 0; i < N; i++) { IX x = f.get<IX>();
#if TOOL == 4
      gs_check(x == p[s[i]], "permuted index");
#else
      gs_check(x < P && p[x] == s[i], "index permuted by the inverse");
#endif
      } f.done(); }
    gs_cover("converted");
  }
  delete[] p; delete[] r; delete[] c; freeArgs(a); gs_cover("end");
}
#else
// matrix tools
extern "C" void gs_harness() {
  gs_threads(gs_param("threads", 2)); int mode = (int)gs_param("mode", 0); bool blocked = TOOL == 2 || TOOL == 3 || TOOL == 7 || (TOOL == 6 && gs_param("blocks", 0)), mtx = TOOL == 6 && gs_param("mtx", 0);
  u64 pat = gs_param("pat", 0); lcg = pat; IX nb = 0, *sz = new IX[gs_param("nb1", 3) + 1], *off = new IX[gs_param("nb1", 3) + 2]; off[0] = 0; if (blocked) { nb = (IX)gs_conc(gs_range("nb", gs_param("nb0", 1), gs_param("nb1", 3))); for (IX i = 0; i < nb; i++) { static const IX WIDE[] = {100000, 1048576, 70000}; sz[i] = gs_param("wide", 0) ? WIDE[i] : pat ? 1 + rnd(gs_param("smax", 3)) : (IX)gs_conc(gs_range("size", 1, gs_param("smax", 3))); off[i + 1] = off[i] + sz[i]; } }
  IX D = blocked ? off[nb] : (IX)gs_param("D", 4), N = (IX)gs_conc(gs_range("N", gs_param("N0", 0), gs_param("N1", 3))); IX *r = new IX[N + 1], *c = new IX[N + 1]; VT* v = new VT[N + 1];
  u64 outside = mode == 1 && blocked ? gs_conc(gs_range("outside", 0, 1)) : 0; gs_assume(!outside || N > 0);
  for (IX i = 0; i < N; i++) { r[i] = pat ? rnd(D) : (IX)gs_range("r", 0, D - 1); c[i] = pat ? rnd(D) : (IX)gs_range("c", 0, D - 1); if (gs_param("conc", 0)) { r[i] = (IX)gs_conc(r[i]); c[i] = (IX)gs_conc(c[i]); } v[i] = g_val(VT(), "v"); }
  if (outside && TOOL != 7) { IX x = (IX)gs_range("big", D, D + 2); if (gs_conc(gs_range("rowbig", 0, 1))) r[N - 1] = x; else c[N - 1] = x; }
  IX R = 1, C = 1; for (IX i = 0; i < N; i++) { R = (IX)gs_sel(r[i] >= R, r[i] + 1, R); C = (IX)gs_sel(c[i] >= C, c[i] + 1, C); }
  u64 nowrite = mode == 1 && !outside && TOOL != 6 ? gs_conc(gs_range("nowrite", 0, 1)) : 0, miss = mode == 1 && !outside && !nowrite ? gs_conc(gs_range("missing", 0, blocked ? 4 : 3)) : 0, cut = mode == 1 && !outside && !miss && !nowrite && N ? gs_conc(gs_range("short", 1, 2)) : 0; gs_assume(mode != 1 || outside || miss || cut || nowrite);
  char on[300], o[330]; strcpy(on, nowrite ? "no/such/dir" : mtx ? "m.mtx" : TOOL == 6 ? "r" : "out"); if (mode == 2) { u64 len = gs_conc(gs_range("len", gs_param("l0", 112), gs_param("l1", 134))); for (u64 k = 0; k < len; k++) on[k] = 'n'; on[len] = 0; if (mtx) memcpy(on + len - 4, ".mtx", 4); }
  const char* rn = TOOL == 6 && !mtx ? on : "r"; IX* perm = new IX[D + 1];
#if TOOL == 7
  IX *ur = new IX[N + 1], *uc = new IX[N + 1]; for (IX i = 0; i < D; i++) { perm[i] = (IX)(gs_param("flip", 1) ? D - 1 - i : i); } // files hold the indices before the permutation
  for (IX i = 0; i < N; i++) { ur[i] = (IX)(gs_param("flip", 1) ? D - 1 - r[i] : r[i]); uc[i] = (IX)(gs_param("flip", 1) ? D - 1 - c[i] : c[i]); }
  if (outside) { IX x = (IX)gs_range("big", D, gs_conc(gs_range("huge", 0, 1)) ? 0xffffffff : D + 2); if (gs_conc(gs_range("rowbig", 0, 1))) ur[N - 1] = x; else uc[N - 1] = x; }
  putIdx("p", perm, D);
#else
  IX *ur = r, *uc = c; (void)perm;
#endif
  if (mtx) { if (miss != 1) { FILE* f = fopen(on, "w"); fprintf(f, "%%%%MatrixMarket matrix coordinate real general\n%d %d %d\n", (int)D, (int)D, (int)N); for (IX i = 0; i < N; i++) fprintf(f, "%lu %lu %.17g\n", (unsigned long)r[i] + 1, (unsigned long)c[i] + 1, (double)v[i]); fclose(f); } R = C = D; gs_assume(!cut && (miss < 2 || miss == 4) && !outside); }
  else { if (miss != 1) putIdx(rn, ur, cut == 1 ? N - 1 : N); if (miss != 2) putIdx("c", uc, cut == 2 ? N - 1 : N); if (miss != 3) putVal("v", v, N); }
  if (blocked && miss != 4) putIdx("s", sz, nb);
  Args a; a.n = 0; add(a, "tool");
  if (mtx) add(a, on); else { add(a, rn); add(a, "c"); add(a, "v"); }
#if TOOL == 7
  add(a, "p");
#endif
  if (blocked) add(a, "s");
  if (TOOL != 6) add(a, on);
#if TOOL == 1
  static const char* W[] = {"bin", "mtx", "all"}; u64 what = gs_conc(gs_range("what", 0, 2)); add(a, W[what]);
#endif
  if (mode == 3) {
#if TOOL == 1
    const char* nm[] = {"out.bin", "out.mtx"}; u64 nd[] = {what != 1, what != 0}; int fs = 2;
#elif TOOL == 6
    const char* nm[] = {mtx ? "m.mtx.sorted" : "r.sorted", "c.sorted", "v.sorted"}; u64 nd[] = {mtx ? 1 : (u64)N, (u64)N, (u64)N}; int fs = mtx ? 1 : 3;
#elif TOOL == 7
    IX ex = 1; for (IX i = 0; i < nb; i++) while (ex < sz[i]) ex *= 2; num(o, "out.col.exp", ex); const char* nm[] = {"out.row", "out.block", "out.col", o, "/tmp/csbr_prepare/rows", "/tmp/csbr_prepare/cols"}; u64 nd[] = {1, 1, 1, 1, N, N}; int fs = 6;
#else
    const char* nm[] = {""}; u64 nd[] = {0}; int fs = 0;
#endif
    if (fullFile(a, nm, nd, fs)) { freeArgs(a); gs_cover("end"); return; }
  }
  if (mode == 3) { bool text = mtx;
#if TOOL == 1
    text = what != 0;
#endif
    diskFull(a, TOOL == 2 || TOOL == 7 ? 24 + 16 * (u64)N : TOOL == 6 ? (text ? 10 : 8 * (u64)N) : 12 + 12 * (u64)N, text); freeArgs(a); gs_cover("end"); return; }
  int q = run(a);
  if (mode == 1) { gs_check(q != 0, "bad input is reported"); gs_cover(outside ? "outside" : nowrite ? "nowrite" : miss ? "missing" : "short"); freeArgs(a); gs_cover("end"); return; }
  if (mode == 2 && q != 0) { gs_check(strlen(on) > 100, "ordinary names are accepted"); gs_cover("toolong"); freeArgs(a); gs_cover("end"); return; }
  gs_check(q == 0, "the tool succeeds"); closed();
  IX E = 1; for (IX i = 0; i < nb; i++) while (E < sz[i]) E *= 2;
  IX *xr = new IX[N + 1], *xc = new IX[N + 1], *bl = new IX[N + 1]; if (blocked) for (IX i = 0; i < N; i++) { IX br = blkOf(off, nb, r[i]), bc = blkOf(off, nb, c[i]); bl[i] = br * nb + bc; IX ro = pat ? off[br] : 0, co = pat ? off[bc] : 0; if (!pat) for (IX k = 0; k < nb; k++) { ro = (IX)gs_sel(br == k, off[k], ro); co = (IX)gs_sel(bc == k, off[k], co); } xr[i] = br * E + r[i] - ro; xc[i] = bc * E + c[i] - co; }
  (void)xr; (void)xc; (void)bl;
#if TOOL == 1
  if (what != 1) { cat(o, on, ".bin"); Out e = readBin(o, R, C, N); sameElems(e, N, r, c, v); colSorted(e); del(e); } else { cat(o, on, ".bin"); gs_check(!exists(o), "only the format asked for"); }
  if (what != 0) { cat(o, on, ".mtx"); Out e = readMm(o, R, C, N); sameElems(e, N, r, c, v); colSorted(e); del(e); } else { cat(o, on, ".mtx"); gs_check(!exists(o), "only the format asked for"); }
#endif
#if TOOL == 7
  cat(o, on, ".row"); { Out e = readBin(o, D, D, N); sameElems(e, N, r, c, v); rowSorted(e); del(e); }
  cat(o, on, ".col"); { Out e = readBin(o, D, D, N); sameElems(e, N, r, c, v); colSorted(e); del(e); }
#endif
#if TOOL == 2 || TOOL == 7
  { IX nnzb = 0; if (pat) { char* hit = new char[(u64)nb * nb](); for (IX i = 0; i < N; i++) { nnzb += !hit[bl[i]]; hit[bl[i]] = 1; } delete[] hit; } else for (IX i = 0; i < N; i++) { int dup = 0; for (IX k = 0; k < i; k++) dup |= bl[k] == bl[i]; nnzb += !dup; }
    if (TOOL == 7) cat(o, on, ".block"); else strcpy(o, on);
    Rd f(o); f.idx(D, "rows in the header"); f.idx(D, "columns in the header"); f.idx(N, "non-zeros in the header"); f.idx(nb, "block-rows in the header"); f.idx(nb, "block-columns in the header"); f.idx(nnzb, "blocks in the header");
    Out e = mk(N); for (IX i = 0; i < N; i++) { e.b[i] = f.get<IX>(); e.r[i] = f.get<IX>(); e.c[i] = f.get<IX>(); e.v[i] = f.get<VT>(); } f.done(); sameElems(e, N, r, c, v);
    for (IX i = 0; i < N; i++) gs_check(e.b[i] == blkOf(off, nb, e.r[i]) * nb + blkOf(off, nb, e.c[i]), "block of the element");
    for (IX i = 1; i < N; i++) gs_check((e.b[i - 1] < e.b[i]) | ((e.b[i - 1] == e.b[i]) & ((e.r[i - 1] < e.r[i]) | ((e.r[i - 1] == e.r[i]) & (e.c[i - 1] <= e.c[i])))), "sorted by block, row and column");
    del(e); }
#endif
#if TOOL == 3 || TOOL == 7
  { char ext[40]; num(ext, TOOL == 7 ? ".col.exp" : ".exp", E); cat(o, on, ext); Out e = readBin(o, E * nb, E * nb, N); sameElems(e, N, xr, xc, v); colSorted(e); del(e); }
#endif
#if TOOL == 6
  if (mtx) { cat(o, on, ".sorted"); Out e = readMm(o, R, C, N); sameElems(e, N, r, c, v); if (!blocked) rowSorted(e); else for (IX i = 1; i < N; i++) { IX p = blkOf(off, nb, e.r[i - 1]) * nb + blkOf(off, nb, e.c[i - 1]), z = blkOf(off, nb, e.r[i]) * nb + blkOf(off, nb, e.c[i]); gs_check((p < z) | ((p == z) & ((e.r[i - 1] < e.r[i]) | ((e.r[i - 1] == e.r[i]) & (e.c[i - 1] <= e.c[i])))), "sorted by block, row and column"); } del(e); }
  else {
    Out e = mk(N); cat(o, on, ".sorted"); { Rd f(o); for (IX i = 0; i < N; i++) e.r[i] = f.get<IX>(); f.done(); } { Rd f("c.sorted"); for (IX i = 0; i < N; i++) e.c[i] = f.get<IX>(); f.done(); } { Rd f("v.sorted"); for (IX i = 0; i < N; i++) e.v[i] = f.get<VT>(); f.done(); }
    sameElems(e, N, r, c, v); if (!blocked) rowSorted(e); else for (IX i = 1; i < N; i++) { IX p = blkOf(off, nb, e.r[i - 1]) * nb + blkOf(off, nb, e.c[i - 1]), z = blkOf(off, nb, e.r[i]) * nb + blkOf(off, nb, e.c[i]); gs_check((p < z) | ((p == z) & ((e.r[i - 1] < e.r[i]) | ((e.r[i - 1] == e.r[i]) & (e.c[i - 1] <= e.c[i])))), "sorted by block, row and column"); } del(e);
  }
#endif
  freeArgs(a); gs_cover("end");
}
#endif
