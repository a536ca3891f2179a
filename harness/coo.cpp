// Coordinate matrices: conversions between them keep every element; what is shown is what they hold.
// KIND 1 from a matrix, 2 from three arrays, 3 from an array of elements, 4 setters and getters, 5 show(COO), 6 show(Csr) and print_info, 7 show of a vector and of a triplet
#include "gsio.h"
#include "matrix/block_coo.1.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "test/utils.h"
#ifndef DST
#define DST Coo2<VT, IX>
#endif
#ifndef SRC
#define SRC Coo3
#endif
#ifndef ELEM
#define ELEM Triplet<VT, IX>
#endif
template <class A> static IX at(A const& a, IX i, int col) { return (IX)(col ? a.get_column_index(i) : a.get_row_index(i)); }
#if KIND <= 4
template <class A> static void same(A const& a, Input& I) {
  gs_check(a.nonzeros() == I.N, "number of elements");
#if KIND != 4 || !defined BLOCK
  gs_check(a.rows == I.R && a.columns == I.C, "dimensions");
#endif
  for (IX i = 0; i < I.N; i++) { gs_check(at(a, i, 0) == I.r[i], "row of an element"); gs_check(at(a, i, 1) == I.c[i], "column of an element"); g_eq(a.get_value(i), I.v[i], "value of an element"); }
}
extern "C" void gs_harness() {
  gs_threads(gs_param("threads", 2)); Input I; makeInput(I); gs_leak_mark();
  {
    DST A;
#if KIND == 1
    SRC<VT, IX> B; fill(&B, I); gs_check(Coo_to_Coo(&A, &B) == 0, "the conversion succeeds"); same(B, I); release(B);
#elif KIND == 2
    gs_check(Coo_to_Coo(&A, I.v, I.r, I.c, I.R, I.C, I.N) == 0, "the conversion succeeds");
#elif KIND == 3
    ELEM* e = new ELEM[I.N]; for (IX i = 0; i < I.N; i++) { e[i].row = I.r[i]; e[i].col = I.c[i]; e[i].val = I.v[i]; }
    gs_check(Coo_to_Coo(&A, e, I.R, I.C, I.N) == 0, "the conversion succeeds");
    for (IX i = 0; i < I.N; i++) { gs_check((e[i].row == I.r[i]) & (e[i].col == I.c[i]), "the source is not changed"); g_eq(e[i].val, I.v[i], "the source is not changed"); }
    delete[] e;
#else
    allocate(&A, I.N);
#ifndef BLOCK
    A.rows = I.R; A.columns = I.C;
#endif
    for (IX i = 0; i < I.N; i++) { A.set_value(i, VT(0)); A.set_column_index(i, 0); A.set_row_index(i, 0); }
    u64 how = gs_conc(gs_range("how", 0, 1)); // one by one in reverse, or with set_point
    for (IX k = 0; k < I.N; k++) { IX i = I.N - 1 - k; if (how) set_point(&A, i, I.r[i], I.c[i], I.v[i]); else { A.set_row_index(i, I.r[i]); A.set_value(i, I.v[i]); A.set_column_index(i, I.c[i]); } }
#endif
    same(A, I); if (!gs_param("nox", 0)) { A.spmv(I.x, I.y); checkResult(I, 1, "y = y0 + A x"); } release(A);
  }
  gs_leak_check("matrix built and released"); freeInput(I); gs_cover("end");
}
#else
static double part(const char* n) { return (double)gs_conc(gs_range(n, 0, gs_param("vmax", 2))) / 4; }
static void intIs(FILE* f, const char* form, u64 e, const char* m) { unsigned long v = 0; gs_check(fscanf(f, form, &v) == 1 && v == e, m); }
static void valIs(FILE* f, const char* form, double e) { double v = 0; gs_check(fscanf(f, form, &v) == 1, "a value is shown"); double d = v - e; gs_check(d <= 1e-5 * (e + 1) && d >= -1e-5 * (e + 1), "the value of the element"); }
static void chr(FILE* f, char e) { char c = 0; gs_check(fscanf(f, " %c", &c) == 1 && c == e, "punctuation"); }
static FILE* shown() { FILE* f = fopen("stdout.txt", "r"); gs_check(f != 0, "captured output"); return f; }
static void nothing(FILE* f) { char c; gs_check(fscanf(f, " %c", &c) != 1, "nothing else is shown"); fclose(f); }
#if KIND == 5
extern "C" void gs_harness() {
  Input I; I.R = (IX)gs_sym("R", 32); I.C = (IX)gs_sym("C", 32); I.N = dim("N", 0, 2); I.r = new IX[I.N]; I.c = new IX[I.N]; I.v = new VT[I.N];
  for (IX i = 0; i < I.N; i++) { I.r[i] = (IX)gs_sym("r", 32); I.c[i] = (IX)gs_sym("c", 32); I.v[i] = (VT)(I.N > 3 ? i * 0.5 : part("v")); }
  DST A; fill(&A, I); gs_capture("stdout.txt"); show(A); gs_capture(0); FILE* f = shown();
  if (I.N > 20) { char line[200]; gs_check(fgets(line, 200, f) && strstr(line, "more than 20") != 0, "large matrices are not shown"); gs_cover("refused"); }
  else for (IX i = 0; i < I.N; i++) { chr(f, '('); intIs(f, "%lu", I.r[i], "the row of the element"); chr(f, ','); intIs(f, "%lu", I.c[i], "the column of the element"); chr(f, ','); valIs(f, "%lf", I.v[i]); chr(f, ')'); }
  nothing(f); release(A); delete[] I.r; delete[] I.c; delete[] I.v; gs_cover("end");
}
#elif KIND == 6
extern "C" void gs_harness() {
  Input I; I.R = dim("R", 1, 3); I.C = dim("C", 1, 3); I.N = dim("N", 0, 2); I.r = new IX[I.N]; I.c = new IX[I.N]; I.v = new VT[I.N];
  for (IX i = 0; i < I.N; i++) { I.r[i] = (IX)gs_range("r", 0, I.R - 1); I.c[i] = (IX)gs_range("c", 0, I.C - 1); if (I.R <= 20) { I.r[i] = (IX)gs_conc(I.r[i]); I.c[i] = (IX)gs_conc(I.c[i]); } I.v[i] = (VT)part("v"); if (i) gs_assume((I.r[i - 1] < I.r[i]) | ((I.r[i - 1] == I.r[i]) & (I.c[i - 1] <= I.c[i]))); }
  Coo2<VT, IX> B; fill(&B, I); Csr<VT, IX> A; Csr2<VT, IX> D; Coo_to_Csr(&A, &B); Coo_to_Csr(&D, &B);
  gs_capture("stdout.txt"); show(A); gs_capture(0); FILE* f = shown();
  if (I.R > 20) { char line[200]; gs_check(fgets(line, 200, f) && strstr(line, "more than 20") != 0, "large matrices are not shown"); gs_cover("refused"); }
  else for (IX r = 0; r < I.R; r++) { intIs(f, "%lu", r, "the row"); chr(f, ':');
    IX cnt = 0; for (IX q = 0; q < I.N; q++) cnt += I.r[q] == r;
    bool used[8] = {}; for (IX e = 0; e < cnt; e++) { unsigned long c; double v; chr(f, '('); gs_check(fscanf(f, "%lu", &c) == 1, "a column is shown"); chr(f, ','); gs_check(fscanf(f, "%lf", &v) == 1, "a value is shown"); chr(f, ')');
      bool hit = false; for (IX q = 0; q < I.N && !hit; q++) if (!used[q] && I.r[q] == r && I.c[q] == c && (double)I.v[q] == v) used[q] = hit = true; gs_check(hit, "the element shown is in this row"); } }
  nothing(f); gs_capture("stdout.txt"); if (gs_conc(gs_range("which", 0, 1))) print_info(A); else print_info(D); gs_capture(0); f = shown(); unsigned long n[2];
  gs_check(fscanf(f, "CSR matrix : %lu rows, %lu non-zeros", n, n + 1) == 2 && n[0] == I.R && n[1] == I.N, "the sizes are reported"); nothing(f);
  release(A); release(D); release(B); delete[] I.r; delete[] I.c; delete[] I.v; closed(); gs_cover("end");
}
#else
extern "C" void gs_harness() {
  int n = (int)gs_conc(gs_range("n", 0, 3)); VT a[4]; IX b[4]; for (int i = 0; i < n; i++) { a[i] = (VT)part("a"); b[i] = (IX)gs_sym("b", 32); }
  u64 w = gs_conc(gs_range("which", 0, 2)); Triplet<VT, IX> t; t.row = (IX)gs_sym("r", 32); t.col = (IX)gs_sym("c", 32); t.val = (VT)part("v");
  gs_capture("stdout.txt"); if (w == 0) show(a, n); else if (w == 1) show(b, n); else show(t); gs_capture(0); FILE* f = shown();
  if (w < 2) for (int i = 0; i < n; i++) { intIs(f, "%lu", (u64)i, "the position"); chr(f, ':'); if (w) intIs(f, "%lu", b[i], "the element"); else valIs(f, "%lf", a[i]); }
  else { chr(f, '('); intIs(f, "%lu", t.row, "the row"); chr(f, ','); intIs(f, "%lu", t.col, "the column"); chr(f, ','); valIs(f, "%lf", t.val); chr(f, ')'); }
  nothing(f); gs_cover("end");
}
#endif
#endif
