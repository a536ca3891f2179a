// The programs (src/drivers, src/test): main() runs on a matrix file.
// PRG 1 result, 2 csr, 3 csr2, 4 cswr, 5 csbr, 6 csbr2, 7 cgbr, 8 cgbr2, 9 bcsr, 10 bench, 11 pbench, 12 block, 13 visual, 14 structs, 15 partition
// params: mode 0 well-formed file, 1 damaged or missing, 2 well-formed with block size files / a permutation that does not fit; uncleared: new[] memory keeps what it held
#define ITERATIONS 1
#define VALTYPE float
#if PRG == 1 || PRG == 10 || PRG == 11 || PRG == 12
#if PRG != 12
#define INDEXTYPE uint32_t
#define SINDEXTYPE uint16_t
#define SMALLINDEXTYPE uint16_t
#endif
#else
#define ITYPE uint32_t
#define SITYPE uint16_t
#endif
#include "gsio.h"
#define main tool_main
#if PRG == 1
#include "test/result.cpp"
#elif PRG == 2 || PRG == 3
#if PRG == 2
#define MATRIXTYPE Csr<float, uint32_t>
#else
#define MATRIXTYPE Csr2<float, uint32_t>
#endif
#include "drivers/csr.cpp"
#elif PRG == 4
#define MATRIXTYPE Cswr<float, uint32_t, uint8_t>
#include "drivers/cswr.cpp"
#elif PRG == 10
#include "drivers/bench.cpp"
#elif PRG == 11
#include "drivers/pbench.cpp"
#elif PRG == 12
#include "test/block.cpp"
#elif PRG == 13
#ifdef NORELEASE // as if the process ended before the matrices are released
#include "matrix/csr.1.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "io/input.h"
#define release(A) ((void)0)
#endif
#include "test/visual.cpp"
#elif PRG == 14
#include "test/structs.cpp"
#else
#if PRG == 5
#define MATRIXTYPE Csbr<float, uint32_t>
#elif PRG == 6
#define MATRIXTYPE Csbr2<float, uint32_t>
#elif PRG == 7
#define MATRIXTYPE Cgbr<float, uint32_t, uint16_t>
#elif PRG == 8
#define MATRIXTYPE Cgbr2<float, uint32_t, uint16_t>
#elif PRG == 9
#define MATRIXTYPE Bcsr<float, uint32_t>
#elif PRG == 15
#define MATRIXTYPE Cgbr<float, uint32_t, uint16_t>
#define PARTITION_DEBUG
#endif
#include "drivers/blocked.cpp"
#endif
#undef main
struct Args { int n; char* v[10]; int ret; };
static void call(void* p) { Args* a = (Args*)p;
#if PRG == 14
  (void)tool_main(a->n, a->v); a->ret = 0; // no return value
#else
  a->ret = tool_main(a->n, a->v);
#endif
}
static int run(Args& a) { a.ret = 0; int q = gs_try(call, &a); return q >= 1000 ? q - 1000 : a.ret; }
static void add(Args& a, const char* s) { size_t n = strlen(s) + 1; char* d = (char*)malloc(n); memcpy(d, s, n); a.v[a.n++] = d; a.v[a.n] = 0; }
static void freeArgs(Args& a) { for (int i = 0; i < a.n; i++) free(a.v[i]); }
static int linesWith(const char* word) { FILE* f = fopen("stdout.txt", "r"); gs_check(f != 0, "captured output"); char line[1100]; int k = 0; while (fgets(line, 1100, f)) k += strstr(line, word) != 0; fclose(f); return k; }
static void numbers(const char* word, const char* form, int m, u64* v) { FILE* f = fopen("stdout.txt", "r"); gs_check(f != 0, "captured output"); char line[1100]; int k = 0; unsigned long x[4]; while (fgets(line, 1100, f)) if (strstr(line, word)) { gs_check(sscanf(line, form, x, x + 1, x + 2, x + 3) == m, "the numbers are printed"); k++; break; } fclose(f); gs_check(k == 1, "the numbers are reported"); for (int i = 0; i < m; i++) v[i] = k ? x[i] : 0; }
#ifdef ARGS
extern "C" void gs_harness() { // any number of arguments, none of which names a file
  static const char* W[] = {"program", "nofile", "nofile", "other", "3", "nofile", "x", "y", "z"}; gs_threads(2); u64 n = gs_conc(gs_range("args", 1, 9)); Args a; a.n = 0; for (u64 i = 0; i < n; i++) add(a, W[i]);
  int q = run(a); gs_check(q != 0, "arguments that name no file are reported"); gs_check(!exists("nofile"), "no file appears"); freeArgs(a); gs_cover("end");
}
#elif PRG == 13
extern "C" void gs_harness() { // a fixed matrix: what is printed
  static const IX I[] = {1, 1, 2, 3, 4, 2, 4, 5, 0, 4, 7}, J[] = {1, 3, 2, 0, 4, 9, 0, 5, 6, 9, 2}; static const double V[] = {1.1, 1.2, 1.3, 1.4, 1.5, 1.6, 1.7, 1.8, 1.9, 2.0, 3.1};
  gs_threads(gs_param("threads", 2)); Args a; a.n = 0; add(a, "visual"); gs_capture("stdout.txt"); int q = run(a); gs_capture(0); gs_check(q == 0, "the program succeeds");
  FILE* f = fopen("stdout.txt", "r"); gs_check(f != 0, "captured output"); char line[300]; int part = 0, k = 0, seen[11] = {}, vec = 0; unsigned long r, c, row = 0; double v, y[8] = {}; for (int i = 0; i < 11; i++) y[I[i]] += V[i];
  auto near = [](double a, double b) { double d = a - b; return d < 1e-4 && d > -1e-4; };
  auto end = [&] { if (part == 1 || part == 2 || part == 3) { gs_check(k == 11, "every element is shown"); for (int i = 0; i < 11; i++) { gs_check(seen[i] == 1, "every element is shown once"); seen[i] = 0; } } if (part >= 4) gs_check(k == 8, "every row of the product is shown"); k = 0; };
  while (fgets(line, 300, f)) {
    if (line[0] == '-') { end(); part++; row = 0; continue; }
    if (part == 1 || part == 2) { if (sscanf(line, "(%lu, %lu, %lf)", &r, &c, &v) != 3) continue; for (int i = 0; i < 11; i++) if (I[i] == r && J[i] == c && near(V[i], v)) seen[i]++, k++; if (part == 2) { gs_check(r >= row, "sorted"); row = r; } }
    else if (part == 3) { char* s = strchr(line, ':'); if (!s) continue; gs_check(sscanf(line, "%lu", &r) == 1, "row"); while ((s = strchr(s, '('))) { gs_check(sscanf(s, "(%lu,%lf)", &c, &v) == 2, "element"); for (int i = 0; i < 11; i++) if (I[i] == r && J[i] == c && near(V[i], v)) seen[i]++, k++; s++; } }
    else if (sscanf(line, "%lu: %lf", &r, &v) == 2) { gs_check(r < 8 && r == (unsigned long)k && near(v, y[r & 7]), "the product of every format"); k++; } }
  end(); gs_check(part == 6, "every part is printed"); fclose(f); closed(); freeArgs(a); gs_cover("end");
}
#else
extern "C" void gs_harness() {
  gs_threads(gs_param("threads", 2)); int mode = (int)gs_param("mode", 0); IX R = dim("R", 1, 3), C = dim("C", 1, 3), N = dim("N", 0, 2); IX *r = new IX[N + 1], *c = new IX[N + 1]; VT* v = new VT[N + 1];
  bool bin = PRG == 12 || PRG == 13 || PRG == 14 || gs_conc(gs_range("bin", gs_param("bin0", 0), 1)); const char* fn = PRG == 12 ? "size3ratio0.5.bin" : bin ? "m.bin" : "m.mtx";
  u64 lcg = gs_param("pat", 0), pt = lcg; // pat: fixed positions
  for (IX i = 0; i < N && pt; i++) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; r[i] = (IX)((lcg >> 33) % R); lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; c[i] = (IX)((lcg >> 33) % C); v[i] = g_val(VT(), "v"); }
  for (IX i = 0; i < N && !pt; i++) { r[i] = (IX)gs_range("r", 0, R - 1); c[i] = (IX)gs_range("c", 0, C - 1); if (gs_param("conc", 0)) { r[i] = (IX)gs_conc(r[i]); c[i] = (IX)gs_conc(c[i]); } v[i] = g_val(VT(), "v"); }
  u64 bad = mode == 1 ? gs_conc(gs_range("bad", 0, 2)) : 3; // 0 missing, 1 cut short, 2 index outside
  gs_assume(bad != 2 || N > 0); gs_assume(bin || bad != 1 || N == 0); /* MatrixMarket files may end early (C19) */ if (bad == 2) { if (gs_conc(gs_range("rowbig", 0, 1))) r[N - 1] = R; else c[N - 1] = C; }
  if (bad != 0) {
    if (bin) { Wr w(fn); w(R); w(C); w(N); for (IX i = 0; i < N; i++) w(r[i]); for (IX i = 0; i < N; i++) w(c[i]); if (bad == 1 && N == 0) { w.done(); Wr z(fn); z(R); z.done(); } else { for (IX i = 0; i + (bad == 1) < N; i++) w(v[i]); w.done(); } }
    else { FILE* f = fopen(fn, "w"); if (bad == 1 && N == 0) fprintf(f, "%%%%MatrixMarket matrix coordinate real general\n%d %d\n", (int)R, (int)C); else { fprintf(f, "%%%%MatrixMarket matrix coordinate real general\n%d %d %d\n", (int)R, (int)C, (int)N); for (IX i = 0; i + (bad == 1) < N; i++) fprintf(f, "%lu %lu %.17g\n", (unsigned long)r[i] + 1, (unsigned long)c[i] + 1, (double)v[i]); } fclose(f); }
  }
  u64 nb[2] = {0, 0}; IX at[2][200]; // block boundaries, if given
  Args a; a.n = 0; add(a, "program"); if (PRG < 13 || PRG == 15) add(a, fn);
#if PRG == 11
  IX P = mode == 2 ? dim("P", 0, 3) : R, p[400]; u64 fit = 1; gs_assume(mode == 2 || R == C); if (mode == 2) { fit = gs_conc(gs_range("fit", 0, P == R && R == C)); gs_assume(fit || P != R || R != C || P > 0); }
  for (IX i = 0; i < P; i++) p[i] = P - 1 - i; if (!fit && P == R && R == C) p[gs_conc(gs_range("which", 0, P - 1))] = (IX)gs_range("index", P, 0xffffffffu);
  { Wr w("p"); for (IX i = 0; i < P; i++) w(p[i]); w.done(); } add(a, "p");
#endif
#if PRG == 4
  static const char* WID[] = {"0", "-1", "two", "257", "300", "2000000000", "1", "256", "3"}; u64 wi = mode == 3 ? gs_conc(gs_range("width", 0, 8)) : 9;
  if (wi < 9) add(a, WID[wi]); else if (gs_conc(gs_range("width", 0, 1))) add(a, "2");
#endif
#if (PRG >= 5 && PRG <= 9) || PRG == 15
  if (mode == 2) for (int d = 0; d < 2; d++) { IX left = d ? C : R; at[d][0] = 0; Wr w(d ? "colsizes" : "rowsizes"); while (left) { IX s = pt ? 1 + (IX)((lcg = lcg * 6364136223846793005ull + 1442695040888963407ull) >> 33) % 7 : (IX)gs_conc(gs_range("size", 1, left)); if (s > left) s = left; w(s); left -= s; at[d][nb[d] + 1] = at[d][nb[d]] + s; nb[d]++; } w.done(); add(a, d ? "colsizes" : "rowsizes"); }
#endif
#if PRG == 1
  gs_zero_new(!gs_param("uncleared", 0));
#endif
  gs_capture("stdout.txt"); int q = run(a); gs_capture(0);
  if (bad < 3) { gs_check(q != 0, "bad input is reported"); gs_cover(bad == 0 ? "missing" : bad == 1 ? "short" : "outside"); freeArgs(a); gs_cover("end"); return; }
#if PRG == 4
  if (wi < 6) { gs_check(q != 0, "a width the format cannot hold is reported"); freeArgs(a); delete[] r; delete[] c; delete[] v; gs_cover("width"); gs_cover("end"); return; }
#endif
#if PRG == 11
  if (mode == 2 && !(fit && P == R && R == C)) { gs_check(q != 0, "a permutation that does not fit is reported"); freeArgs(a); gs_cover("misfit"); gs_cover("end"); return; }
#endif
  gs_check(q == 0, "the program succeeds"); closed();
#if PRG == 1
  gs_check(linesWith("differ") == 0, "every format gives the same result"); gs_check(linesWith("same result") == 7, "every format is compared");
#elif PRG != 12 && PRG < 13
  gs_check(linesWith("best") + linesWith(",") > 0, "the times are reported");
#endif
#if PRG >= 5 && PRG <= 9
  u64 n[3]; numbers("rows x", " %lu rows x %lu columns", 2, n); gs_check(n[0] == R && n[1] == C, "the dimensions are reported");
  if (pt && mode != 2) { numbers("non-zeros in", " %lu non-zeros in %lu blocks", 2, n); gs_check(n[0] == N, "the number of elements is reported"); }
  if (mode == 2) { numbers("block-rows x", " %lu block-rows x %lu block-columns", 2, n); gs_check(n[0] == nb[0] && n[1] == nb[1], "the number of block rows and columns is reported");
    u64 full = 0; for (u64 i = 0; i < nb[0]; i++) for (u64 j = 0; j < nb[1]; j++) { u64 any = 0; for (IX k = 0; k < N; k++) any |= (r[k] >= at[0][i]) & (r[k] < at[0][i + 1]) & (c[k] >= at[1][j]) & (c[k] < at[1][j + 1]); full += any; }
    numbers("non-zeros in", " %lu non-zeros in %lu blocks", 2, n); gs_check(n[0] == N, "the number of elements is reported"); gs_check(n[1] == full, "the number of blocks with elements is reported"); }
#elif PRG == 2 || PRG == 3
  u64 n[2]; numbers("CSR matrix", "CSR matrix : %lu rows, %lu non-zeros", 2, n); gs_check(n[0] == R && n[1] == N, "the sizes are reported");
#elif PRG == 4
  u64 n[4], w = wi < 9 ? (wi == 6 ? 1 : wi == 7 ? 256 : 3) : a.n == 3 ? 2 : 32; numbers("rows in", "Cswr matrix : %lu rows in %lu groups of %lu, %lu non-zeros", 4, n); gs_check(n[0] == R && n[1] == (R + w - 1) / w && n[2] == w && n[3] == N, "the groups are reported");
#endif
  freeArgs(a); delete[] r; delete[] c; delete[] v; gs_cover("end");
}
#endif
