// What the benchmark programs report: verdicts, statistics, printed numbers.
// KIND 1 check_results, 2 mean/median/standard_deviation, 3 print_timing*, 4 benchmark_spmv*
#include "gsio.h"
#include "test/utils.h"
#include "test/bench.h"
#include "matrix/csr.1.h"
#ifndef SIT
#define SIT int
#endif
static bool near(double a, double b) { double d = a - b; if (d < 0) d = -d; double m = b < 0 ? -b : b; return d <= 1e-6 + 2e-6 * m; }
static bool nearT(double a, double b) { if (sizeof(VT) < 8) return near(a, b); double d = a - b; if (d < 0) d = -d; double m = b < 0 ? -b : b; return d <= 1e-9 + 1e-12 * m; }
static VT small(const char* n, long long lo, long long hi) { u64 v = gs_range(n, 0, (u64)(hi - lo)); if (gs_param("conc", 0)) v = gs_conc(v); return (VT)((long long)v + lo); }
static VT pat(long long i) { return (VT)((i * 37 + 5) % 101 - 50); } // fixed values of a long series
// numbers printed on the lines that contain a word; at most m
static FILE* out() { FILE* f = fopen("stdout.txt", "r"); gs_check(f != 0, "captured output"); return f; }
static int numbersAfter(const char* word, double* d, int m) { // number after the last ':' of every line that contains the word
  FILE* f = out(); char line[600]; int k = 0;
  while (fgets(line, 600, f)) { if (!strstr(line, word)) continue; const char* c = strrchr(line, ':'); if (!c || k >= m) continue; double v = 0; if (sscanf(c + 1, " %lf", &v) == 1) d[k++] = v; }
  fclose(f); return k;
}
static int linesWith(const char* word) { FILE* f = out(); char line[600]; int k = 0; while (fgets(line, 600, f)) k += strstr(line, word) != 0; fclose(f); return k; }

#if KIND == 1
extern "C" void gs_harness() {
  SIT n = (SIT)gs_conc(gs_range("n", gs_param("n0", 1), gs_param("n1", 3))); VT a[400], b[400]; int wrong = 0; VT sq = 0, norm = 0, mx = 0; int rng = (int)gs_param("rng", 3);
  if (gs_param("fix", 0)) { for (SIT i = 0; i < n; i++) a[i] = b[i] = pat(i); b[gs_conc(gs_range("p", gs_param("p0", 0), n - 1))] = small("b", -rng, rng); }
  else for (SIT i = 0; i < n; i++) { a[i] = small("a", -rng, rng); b[i] = small("b", -rng, rng); }
  gs_capture("stdout.txt"); int ret = check_results(a, b, n); gs_capture(0);
  for (SIT i = 0; i < n; i++) { wrong += a[i] != b[i]; if (!gs_param("conc", 0)) continue; VT d = a[i] - b[i]; if (d < 0) d = -d; if (d > mx) mx = d; sq += d * d; norm += a[i] * a[i]; }
  gs_check(ret == (wrong ? -1 : 0), "verdict: 0 for equal vectors, -1 otherwise");
  gs_check((linesWith("same result") != 0) == !wrong, "message that the results are the same"); gs_check((linesWith("differ") != 0) == (wrong != 0), "message that the results differ");
  if (wrong && gs_param("conc", 0)) {
    FILE* f = out(); char line[600]; int c = -1; while (fgets(line, 600, f)) { const char* p = strstr(line, "differ in "); if (p) sscanf(p + 10, "%d", &c); } fclose(f);
    gs_check(c == wrong, "number of elements that differ");
    double d[4]; gs_check(numbersAfter("Maximum error", d, 4) == 1, "maximum error reported"); gs_check(near(d[0], mx), "maximum error");
    int k = numbersAfter("MSE", d, 4); gs_check(k >= 1 && near(d[0], (double)sq / (double)n), "mean squared error"); if (norm != 0) gs_check(k == 2 && near(d[1], (double)sq / (double)n / (double)norm), "normalised mean squared error");
  }
  gs_cover(wrong ? "differ" : "same");
  gs_cover("end");
}
#elif KIND == 2
extern "C" void gs_harness() {
  SIT n = (SIT)gs_conc(gs_range("n", gs_param("n0", 1), gs_param("n1", 4))); VT a[400], b[400]; VT sum = 0; int rng = (int)gs_param("rng", 3); VT unit = (VT)gs_param("unit", 1);
  for (SIT i = 0; i < n; i++) { a[i] = b[i] = (gs_param("fix", 0) && i ? pat(i) : small("a", -rng, rng)) * unit; sum += a[i]; }
  if (gs_param("what", 0) == 0) {
    VT m = median(b, n); int below = 0, above = 0, eq = 0; for (SIT i = 0; i < n; i++) { below += a[i] < m; above += a[i] > m; eq += a[i] == m; }
    gs_check(below <= n / 2 && above <= n / 2, "the median splits the data");
    if (n % 2) gs_check(eq > 0, "the median of an odd number of values is one of them");
    else {
      // the two middle values of the sorted data
      VT s[400]; for (SIT k = 0; k < n; k++) s[k] = 0;
      for (SIT i = 0; i < n; i++) { int r = 0; for (SIT j = 0; j < n; j++) r += (int)gs_sel((a[j] < a[i]) | ((a[j] == a[i]) & (j < i)), 1, 0); for (SIT k = 0; k < n; k++) s[k] += g_sel(r == k, a[i], VT(0)); }
      gs_check(m * 2 == s[n / 2 - 1] + s[n / 2], "the median of an even number of values is the mean of the middle two"); }
    gs_cover("end"); return;
  }
  VT m = mean(a, n); gs_check(nearT((double)m * n, (double)sum), "mean"); VT s = standard_deviation(a, n); double q = 0; for (SIT i = 0; i < n; i++) q += ((double)a[i] - (double)m) * ((double)a[i] - (double)m);
  gs_check(s >= 0 && nearT((double)s * (double)s * n, q), "standard deviation"); gs_cover("end");
}
#else
// times between a quarter of a second and a second; nnz makes every MFLOP/s figure well above 1
static double S[400]; static int SN; static const unsigned long NZ = 12000000;
static void ranked(const double* t, int n) { SN = n; for (int i = 0; i < n; i++) { int r = 0; for (int j = 0; j < n; j++) r += (t[j] < t[i]) || (t[j] == t[i] && j < i); S[r] = t[i]; } }
static bool inMedian(double v, double eps) { double lo = S[(SN - 1) / 2], hi = S[SN / 2]; return v >= lo - eps && v <= hi + eps; }
static void verbose(const char* method, double nnz) {
  static const char* W[] = {"best", "median", "mean", "worst"}; double sum = 0, d[4]; for (int i = 0; i < SN; i++) sum += S[i];
  for (int w = 0; w < 4; w++) {
    FILE* f = out(); char line[600]; int seen = 0, k = 0; double t = 0, mf = 0; while (fgets(line, 600, f)) { if (!strstr(line, W[w])) continue; gs_check(strstr(line, method) != 0, "the report names the method"); const char* c = strrchr(line, ':'); double v = 0; if (!c || sscanf(c + 1, " %lf", &v) != 1) continue; if (strstr(line, "ime")) t = v, seen++; else mf = v, k++; }
    fclose(f); gs_check(seen == 1 && k == 1, "one time and one rate for each statistic"); d[w] = t;
    gs_check(t > 0 && near(mf * t / 1e6, 2 * nnz / 1e12) | (mf - 2 * nnz / t / 1e6 <= 0.6 + 1e-5 * mf && mf - 2 * nnz / t / 1e6 >= -0.6 - 1e-5 * mf), "the rate is 2 nnz / time");
  }
  gs_check(near(d[0], S[0]), "best time"); gs_check(inMedian(d[1], 1e-5), "median time"); gs_check(near(d[2], sum / SN), "mean time"); gs_check(near(d[3], S[SN - 1]), "worst time");
}
static void csv(const char* method, double nnz) {
  FILE* f = out(); char line[600], name[600]; double v[4], sum = 0; int got = 0; for (int i = 0; i < SN; i++) sum += S[i];
  while (fgets(line, 600, f)) { char* c = strchr(line, ','); if (!c) continue; *c = 0; strcpy(name, line); got += sscanf(c + 1, "%lf,%lf,%lf,%lf", v, v + 1, v + 2, v + 3) == 4; } fclose(f);
  gs_check(got == 1 && !strcmp(name, method), "one line: method and four numbers");
  double r = 2 * nnz / 1e6; auto ok = [&](double x, double t) { double d = x - r / t; return d <= 0.6 + 1e-5 * x && d >= -0.6 - 1e-5 * x; };
  gs_check(ok(v[0], S[0]), "best rate"); gs_check(ok(v[1], S[SN / 2]) || ok(v[1], S[(SN - 1) / 2]) || ok(v[1], (S[SN / 2] + S[(SN - 1) / 2]) / 2), "median rate"); gs_check(ok(v[2], sum / SN), "mean rate"); gs_check(ok(v[3], S[SN - 1]), "worst rate");
}
#if KIND == 3
extern "C" void gs_harness() {
  int n = (int)gs_conc(gs_range("n", gs_param("n0", 1), gs_param("n1", 4))); bool c = gs_conc(gs_range("csv", 0, 1)); double t[400], u[400];
  for (int i = 0; i < n; i++) t[i] = u[i] = (double)(gs_param("fix", 0) && i ? (i * 37) % 17 + 1 : (int)gs_conc(gs_range("t", 1, gs_param("tmax", 4)))) / 4; ranked(u, n);
  gs_capture("stdout.txt"); if (c) print_timing_csv("some method", NZ, (unsigned long)n, t); else print_timing_verbose("some method", NZ, (unsigned long)n, t); gs_capture(0);
  if (c) csv("some method", NZ); else verbose("some method", NZ);
  gs_cover("end");
}
#else
// a matrix whose product takes a given time
static double laps[9]; static u64 seconds[9]; static int calls; static IX wantR, wantC;
template <class T, class I> struct Fake { I rows, columns; unsigned long nonzeros() const { return NZ; }
  void spmv(T* x, T* y) const { gs_check(calls < 9, "number of products"); for (I i = 0; i < columns; i++) { gs_check(x[i] >= -1 && x[i] <= 1, "the vector is initialised"); } for (I i = 0; i < rows; i++) y[i] += T(1); if (calls < 9) gs_tick(seconds[calls] * 250000000); calls++; } };
template <class T, class I, class S> struct Fake3 : Fake<T, I> {};
extern "C" void gs_harness() {
  unsigned n = (unsigned)gs_conc(gs_range("n", 1, gs_param("n1", 3))); int w = (int)gs_conc(gs_range("which", 0, 3)); calls = 0;
  for (unsigned i = 0; i <= n; i++) seconds[i] = gs_conc(gs_range("s", 1, gs_param("tmax", 3)));
  Fake3<VT, IX, SX> A; A.rows = (IX)gs_conc(gs_range("R", 1, 2)); A.columns = (IX)gs_conc(gs_range("C", 1, 2)); Fake<VT, IX> B; B.rows = A.rows; B.columns = A.columns;
  gs_leak_mark(); gs_capture("stdout.txt");
  if (w == 0) benchmark_spmv(A, n, "some method"); else if (w == 1) benchmark_spmv_csv(A, n, "some method"); else if (w == 2) benchmark_spmv(B, n, "some method"); else benchmark_spmv_csv(B, n, "some method");
  gs_capture(0); gs_leak_check("the benchmark");
  gs_check(calls >= (int)n, "every iteration multiplies");
  int first = calls - (int)n; double u[8]; for (unsigned i = 0; i < n; i++) u[i] = (double)seconds[first + i > 8 ? 8 : first + i] / 4 + 1e-6; ranked(u, (int)n);
  if (w & 1) csv("some method", NZ); else verbose("some method", NZ);
  gs_cover("end");
}
#endif
#endif
