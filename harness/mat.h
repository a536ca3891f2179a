// Shared pieces of the matrix harnesses: arbitrary COO input, reference y0 + A x.
#pragma once
#include "gs.h"
#include <cmath>
#include <cstdint>
#include <cstring>
using namespace std;
#include "common.cpp"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#ifndef VT
#define VT float
#endif
#ifndef IX
#define IX uint32_t
#endif
#ifndef SX
#define SX uint16_t
#endif
inline float g_val(float, const char* n) { return gs_fsym_f(n); }
inline double g_val(double, const char* n) { return gs_fsym_d(n); }
inline float g_sel(int c, float a, float b) { return gs_sel_f(c, a, b); }
inline double g_sel(int c, double a, double b) { return gs_sel_d(c, a, b); }
inline void g_eq(float a, float b, const char* m) { gs_check_f(a, b, m); }
inline void g_eq(double a, double b, const char* m) { gs_check_d(a, b, m); }
// integer value types: arithmetic modulo 2^bits
#define GINT(T, B) inline T g_val(T, const char* n) { return (T)gs_sym(n, B); } inline T g_sel(int c, T a, T b) { return (T)gs_sel(c, a, b); } inline void g_eq(T a, T b, const char* m) { gs_check(a == b, m); }
GINT(uint8_t, 8) GINT(uint16_t, 16) GINT(uint32_t, 32) GINT(uint64_t, 64)
#undef GINT

struct Input {
  IX R, C, N; IX *r, *c; VT *v, *x, *y, *y0;
};
// Rows/columns/non-zeros between lo and hi parameters; every index, value and the order of the elements is arbitrary.
inline IX dim(const char* name, u64 dlo, u64 dhi) {
  char lo[16], hi[16]; int k = 0; while (name[k]) { lo[k] = hi[k] = name[k]; k++; } lo[k] = '0'; hi[k] = '1'; lo[k + 1] = hi[k + 1] = 0;
  return (IX)gs_conc(gs_range(name, gs_param(lo, dlo), gs_param(hi, dhi)));
}
// Large inputs: a fixed pattern of positions for each seed pat..pat1; all values, x and y are arbitrary, and so are the rows of the last `free` elements.
// band: columns near the diagonal; heavy, hcol: every heavy-th element is in one row, every hcol-th in one column; vc: only every vc-th value is arbitrary; srt: row-major order
inline void pattern(Input& I, bool distinct) {
  u64 q = gs_conc(gs_range("pat", gs_param("pat", 1), gs_param("pat1", gs_param("pat", 1)))) * 2654435761u + 1;
  u64 band = gs_param("band", 0), heavy = gs_param("heavy", 0), hcol = gs_param("hcol", 0), vc = gs_param("vc", 0), nfree = gs_param("free", 0), srt = gs_param("srt", 0), lin = 0, step = I.N ? 2 * (u64)I.R * I.C / I.N : 1;
  bool* seen = distinct ? new bool[(u64)I.R * I.C]() : 0;
  for (IX i = 0; i < I.N; i++) {
    q = q * 6364136223846793005ull + 1442695040888963407ull; u64 a = (q >> 33) % I.R;
    q = q * 6364136223846793005ull + 1442695040888963407ull; u64 b = band ? (a + (q >> 33) % band) % I.C : (q >> 33) % I.C;
    if (heavy && i % heavy == 0) a = I.R / 2;
    if (hcol && i % hcol == 0) b = I.C / 2;
    if (srt) { lin += (q >> 35) % (step + 1); if (lin >= (u64)I.R * I.C) lin = (u64)I.R * I.C - 1; a = lin / I.C; b = lin % I.C; }
    if (i + nfree >= I.N) a = gs_conc(gs_range("r", gs_param("flo", 0), I.R - 1));
    if (seen) { while (seen[a * I.C + b]) { if (++b == I.C) { b = 0; if (++a == I.R) a = 0; } } seen[a * I.C + b] = true; }
    I.r[i] = (IX)a; I.c[i] = (IX)b; if (vc && i % vc) I.v[i] = VT(i % 5 + 1); else I.v[i] = g_val(VT(), "v");
  }
  delete[] seen;
  for (IX i = 0; i < I.C; i++) I.x[i] = g_val(VT(), "x");
  for (IX i = 0; i < I.R; i++) I.y[i] = I.y0[i] = g_val(VT(), "y");
}
inline void makeInput(Input& I, bool distinct = false) {
  if (gs_param("nox", 0)) { // dimensions and indices of any size; no vectors
    I.R = (IX)gs_range("R", gs_param("R0", 1), gs_param("R1", 3)); I.C = (IX)gs_range("C", gs_param("C0", 1), gs_param("C1", 3)); I.N = dim("N", 0, 2); I.r = new IX[I.N]; I.c = new IX[I.N]; I.v = new VT[I.N]; I.x = I.y = I.y0 = 0;
    for (IX i = 0; i < I.N; i++) { I.r[i] = (IX)gs_sym("r", 8 * sizeof(IX)); I.c[i] = (IX)gs_sym("c", 8 * sizeof(IX)); gs_assume(I.r[i] < I.R); gs_assume(I.c[i] < I.C); I.v[i] = g_val(VT(), "v"); }
    return;
  }
  I.R = dim("R", 1, 3); I.C = dim("C", 1, 3); I.N = dim("N", 0, 2);
  I.r = new IX[I.N]; I.c = new IX[I.N]; I.v = new VT[I.N]; I.x = new VT[I.C]; I.y = new VT[I.R]; I.y0 = new VT[I.R];
  if (gs_param("pat", 0)) { pattern(I, distinct); return; }
  u64 conc = gs_param("conc", 0); // split paths on every index (large dimensions)
  u64 rlo = gs_param("rlo", 0), clo = gs_param("clo", 0); // restrict the indices to 0..1 and [lo, dimension)
  for (IX i = 0; i < I.N; i++) {
    I.r[i] = (IX)gs_range("r", 0, I.R - 1); I.c[i] = (IX)gs_range("c", 0, I.C - 1); I.v[i] = g_val(VT(), "v");
    if (rlo) gs_assume((I.r[i] <= 1) | (I.r[i] >= rlo));
    if (clo) gs_assume((I.c[i] <= 1) | (I.c[i] >= clo));
    if (conc) { I.r[i] = (IX)gs_conc(I.r[i]); I.c[i] = (IX)gs_conc(I.c[i]); }
    if (distinct) for (IX k = 0; k < i; k++) gs_assume((I.r[k] != I.r[i]) | (I.c[k] != I.c[i]));
  }
  for (IX i = 0; i < I.C; i++) I.x[i] = (!clo || i <= 1 || i >= clo) ? (gs_param("xc", 0) ? VT(2 * i + 3) : g_val(VT(), "x")) : VT(0);
  for (IX i = 0; i < I.R; i++) I.y[i] = I.y0[i] = (!rlo || i <= 1 || i >= rlo) ? g_val(VT(), "y") : VT(0);
}
inline void freeInput(Input& I) { delete[] I.r; delete[] I.c; delete[] I.v; delete[] I.x; delete[] I.y; delete[] I.y0; }
// y must equal y0 + times * A x, x must be unchanged
inline void checkResult(Input& I, int times, const char* what) {
  u64 rlo = gs_param("rlo", 0);
  if (gs_param("pat", 0)) {
    VT* e = new VT[I.R]; for (IX i = 0; i < I.R; i++) e[i] = I.y0[i];
    for (int t = 0; t < times; t++) for (IX k = 0; k < I.N; k++) e[I.r[k]] = VT(e[I.r[k]] + I.v[k] * I.x[I.c[k]]);
    for (IX i = 0; i < I.R; i++) g_eq(I.y[i], e[i], what);
    delete[] e; return;
  }
  for (IX i = 0; i < I.R; i++) {
    if (rlo && i > 1 && i < rlo) continue;
    VT e = I.y0[i]; for (int t = 0; t < times; t++) for (IX k = 0; k < I.N; k++) e = VT(e + g_sel(I.r[k] == i, I.v[k], VT(0)) * I.x[I.c[k]]);
    g_eq(I.y[i], e, what);
  }
}
template <class COO> inline void fill(COO* B, Input& I) {
  allocate(B, I.N); B->rows = I.R; B->columns = I.C;
  for (IX i = 0; i < I.N; i++) set_point(B, i, I.r[i], I.c[i], I.v[i]);
}
