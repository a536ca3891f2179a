// Binary matrix and array files.
// KIND 1 one-file COO, 2 three-file COO, 3 arrays, 4 damaged one-file COO, 5 damaged three-file COO, 6 damaged array, 7 CSR from a one-file COO, 8 file names, 9 damaged CSR
#include "gsio.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "io/input.h"
#include "io/output.h"
#ifndef SRC
#define SRC Coo2
#endif
#ifndef DST
#define DST SRC
#endif
template <class A> static void same(A& B, Input& I, const char* m) {
  gs_check(B.nnz == I.N, "number of non-zeros read");
  for (IX i = 0; i < I.N; i++) { gs_check(B.get_row_index(i) == I.r[i], "row read"); gs_check(B.get_column_index(i) == I.c[i], "column read"); g_eq(B.get_value(i), I.v[i], "value read"); }
}
struct Ret { int r; void* a; const char* n; };
#if KIND == 9
template <class T, class I> I COLOF(Csr<T, I>& A, u64 i) { return A.col_ind[i]; }
template <class T, class I> I COLOF(Csr2<T, I>& A, u64 i) { return A.data[i].index; }
template <class T, class I> T VALOF(Csr<T, I>& A, u64 i) { return A.val[i]; }
template <class T, class I> T VALOF(Csr2<T, I>& A, u64 i) { return A.data[i].val; }
#endif
extern "C" void gs_harness() {
#if KIND <= 2
  Input I; makeInput(I);
  gs_leak_mark();
  {
    SRC<VT, IX> A; fill(&A, I);
#if KIND == 1
    gs_check(write_bin_COO(A, "m.bin") == 0, "the matrix is written");
    closed();
    { Rd f("m.bin"); f.idx(I.R, "file: rows"); f.idx(I.C, "file: columns"); f.idx(I.N, "file: non-zeros"); for (IX i = 0; i < I.N; i++) f.idx(I.r[i], "file: row index"); for (IX i = 0; i < I.N; i++) f.idx(I.c[i], "file: column index"); for (IX i = 0; i < I.N; i++) f.val(I.v[i], "file: value"); f.done(); }
    DST<VT, IX> B; gs_check((gs_param("disp", 1) ? read_COO(&B, "m.bin") : read_bin_COO(&B, "m.bin")) == 0, "the matrix is read");
    gs_check(B.rows == I.R && B.columns == I.C, "dimensions read");
#else
    gs_check(write_bin_COO(&A, "m.row", "m.col", "m.val") == 0, "the matrix is written");
    closed();
    { Rd f("m.row"); for (IX i = 0; i < I.N; i++) f.idx(I.r[i], "file: row index"); f.done(); }
    { Rd f("m.col"); for (IX i = 0; i < I.N; i++) f.idx(I.c[i], "file: column index"); f.done(); }
    { Rd f("m.val"); for (IX i = 0; i < I.N; i++) f.val(I.v[i], "file: value"); f.done(); }
#ifdef COO1
    Coo<VT, IX, IX> B;
#else
    DST<VT, IX> B;
#endif
    gs_check(read_bin_COO(&B, "m.row", "m.col", "m.val") == 0, "the matrix is read");
    for (IX i = 0; i < I.N; i++) gs_check(I.r[i] < B.rows && I.c[i] < B.columns, "every element is inside the matrix");
    if (I.N) { bool lr = false, lc = false; for (IX i = 0; i < I.N; i++) { lr |= I.r[i] + 1 == B.rows; lc |= I.c[i] + 1 == B.columns; } gs_check(lr & lc, "the matrix is as small as its elements allow"); }
#endif
    closed(); same(B, I, "");
#ifndef COO1
    release(B);
#endif
    release(A);
  }
  gs_leak_check("written, read and released");
  freeInput(I); gs_cover("end");
#elif KIND == 3
  IX n = dim("N", 0, 3); IX* a = new IX[n]; for (IX i = 0; i < n; i++) a[i] = (IX)gs_sym("a", 8 * sizeof(IX));
  gs_check(write_bin_array("a.bin", a, n) == 0, "the array is written"); closed();
  { Rd f("a.bin"); for (IX i = 0; i < n; i++) f.idx(a[i], "file: element"); f.done(); }
  IX* b = 0; size_t m = 77; gs_check(read_bin_array("a.bin", &b, &m) == 0, "the array is read"); closed();
  gs_check(m == n, "number of elements"); for (IX i = 0; i < n; i++) gs_check(b[i] == a[i], "element read");
  free(b); delete[] a; gs_cover("end");
#elif KIND == 4
  // A file of any length, any header, any contents: accepted exactly when it holds a whole matrix whose elements are inside it
  u64 max = gs_param("L", 40), len = gs_conc(gs_range("len", gs_param("L0", 0), max)); unsigned char* b = new unsigned char[max]; u64 w = sizeof(IX);
  for (u64 i = 0; i < max; i++) b[i] = 0;
  { IX* p = (IX*)b; u64 k = len / w; for (u64 i = 0; i < k; i++) p[i] = (IX)gs_sym("w", 8 * sizeof(IX)); for (u64 i = k * w; i < len; i++) b[i] = (unsigned char)gs_sym("b", 8); }
  { Wr f("m.bin"); f.bytes(b, len); f.done(); }
  IX h[3] = {0, 0, 0}; if (len >= 3 * w) memcpy(h, b, 3 * w);
  if (gs_param("fit", 0)) gs_assume(len >= 3 * w);
  bool whole = len >= 3 * w && (u64)h[2] <= (len - 3 * w) / (2 * w + sizeof(VT));
  bool in = whole; u64 cnt = whole ? gs_conc(h[2]) : 0; const IX* q = (const IX*)b + 3;
  for (u64 i = 0; i < cnt; i++) in = in & (q[i] < h[0]) & (q[cnt + i] < h[1]);
  SRC<VT, IX> A; A.rows = A.columns = A.nnz = 0; int r = read_COO(&A, "m.bin"); closed();
  if (r < 0) { gs_check(!in, "a complete matrix is accepted"); gs_cover("rejected"); }
  else {
    gs_check(r == 0, "result 0"); gs_check(whole, "an incomplete file is rejected"); gs_check(in, "an element outside the matrix is rejected");
    gs_check(A.rows == h[0] && A.columns == h[1] && A.nnz == cnt, "header read");
    for (u64 i = 0; i < cnt; i++) { gs_check(A.get_row_index((IX)i) == q[i], "row read"); gs_check(A.get_column_index((IX)i) == q[cnt + i], "column read"); VT v = A.get_value((IX)i); gs_check(memcmp(&v, q + 2 * cnt, sizeof(VT)) == 0 || i, "value read"); }
    release(A); gs_cover("accepted");
  }
  delete[] b; gs_cover("end");
#elif KIND == 5
  // three files of 0..2 items each, not necessarily of the same length, possibly missing
  u64 ln[3]; const char* nm[3] = {"m.row", "m.col", "m.val"}; u64 n = gs_param("n", 2); IX r_[3], c_[3]; VT v_[3];
  for (int k = 0; k < 3; k++) {
    ln[k] = gs_conc(gs_range("items", 0, n + 1)); // n + 1: no such file
    for (u64 i = 0; i < n; i++) { if (k == 0) r_[i] = (IX)gs_range("r", 0, 1000); if (k == 1) c_[i] = (IX)gs_range("c", 0, 1000); if (k == 2) v_[i] = g_val(VT(), "v"); }
    if (ln[k] > n) continue; Wr f(nm[k]); for (u64 i = 0; i < ln[k]; i++) if (k == 0) f(r_[i]); else if (k == 1) f(c_[i]); else f(v_[i]); f.done();
  }
#ifdef COO1
  Coo<VT, IX, IX> A; A.I = A.J = 0; A.val = 0;
#else
  SRC<VT, IX> A;
#endif
  struct P { decltype(A)* a; int r; } p = {&A, 0};
  int t = gs_try([](void* x) { P* p = (P*)x; p->r = read_bin_COO(p->a, "m.row", "m.col", "m.val"); }, &p);
  bool good = ln[0] <= n && ln[0] == ln[1] && ln[1] == ln[2];
  bool shrt = ln[2] <= n && ((ln[0] <= n && ln[0] < ln[2]) || (ln[1] <= n && ln[1] < ln[2]));
  if (t == 0 && p.r == 0) {
    gs_check(ln[0] <= n && ln[1] <= n && ln[2] <= n, "a missing file is reported"); gs_check(!shrt, "files with too few indices are rejected");
    for (u64 i = 0; i < ln[2]; i++) { gs_check(A.get_row_index((IX)i) == r_[i] && A.get_column_index((IX)i) == c_[i], "indices read"); g_eq(A.get_value((IX)i), v_[i], "value read"); }
    gs_cover("accepted");
#ifndef COO1
    release(A);
#endif
  } else { gs_check(!good, "complete files are accepted"); gs_check(t == 0 || t == 1001, "missing files end in an error"); gs_cover("rejected"); }
  closed(); gs_cover("end");
#elif KIND == 6
  u64 max = gs_param("L", 9), len = gs_conc(gs_range("len", 0, max + 1)); // max + 1: no such file
  unsigned char b[64]; for (u64 i = 0; i < max; i++) b[i] = (unsigned char)gs_sym("b", 8);
  if (len <= max) { Wr f("a.bin"); f.bytes(b, len); f.done(); }
  struct P { IX* a; size_t n; int r; } p = {0, 0, 0};
  int t = gs_try([](void* x) { P* p = (P*)x; p->r = read_bin_array("a.bin", &p->a, &p->n); }, &p); closed();
  if (len > max) { gs_check(t == 1001 || (t == 0 && p.r < 0), "a missing file is an error"); gs_cover("missing"); }
  else { gs_check(t == 0, "returns"); if (p.r == 0) { gs_check(p.n == len / sizeof(IX), "whole elements only"); gs_check(p.n == 0 || memcmp(p.a, b, p.n * sizeof(IX)) == 0, "elements read"); free(p.a); gs_cover("read"); } else gs_check(len % sizeof(IX) != 0, "a complete array is accepted"); }
  gs_check(write_bin_array("no/such/dir", b, 1) < 0, "failure to write is reported"); closed();
  gs_cover("end");
#elif KIND == 7
  Input I; makeInput(I); for (IX i = 1; i < I.N; i++) gs_assume((I.r[i - 1] < I.r[i]) | ((I.r[i - 1] == I.r[i]) & (I.c[i - 1] <= I.c[i])));
  gs_leak_mark();
  { Coo2<VT, IX> A; fill(&A, I); gs_check(write_bin_COO(A, "m.bin") == 0, "the matrix is written"); release(A);
    CSRT<VT, IX> B; gs_check(read_bin_CSR(&B, "m.bin") == 0, "the matrix is read"); closed();
    gs_check(B.rows == I.R && B.columns == I.C && B.nonzeros() == I.N, "dimensions read");
    B.spmv(I.x, I.y); checkResult(I, 1, "y = y0 + A x"); release(B); }
  gs_leak_check("read, multiplied and released"); freeInput(I); gs_cover("end");
#elif KIND == 8
  // read_COO decides by suffix
  static const char* nm[] = {"m.bin", "m.mtx", "m.txt", "bin", ".bin", "m.bin.x", "m.BIN", "", "x.mtx", "mtx"}; u64 k = gs_conc(gs_range("name", 0, 9));
  if (*nm[k]) { Wr f(nm[k]); f((IX)1); f((IX)1); f((IX)0); f.done(); }
  SRC<VT, IX> A; int r = read_COO(&A, nm[k]); closed();
  gs_check((r == 0) == (k == 0 || k == 4), "binary files are recognised by their suffix"); if (r == 0) { gs_check(A.rows == 1 && A.columns == 1 && A.nnz == 0, "header"); release(A); }
  SRC<VT, IX> B; gs_check(read_COO(&B, "none.bin") < 0 && read_COO(&B, "none.mtx") < 0 && read_COO(&B, "none") < 0, "a missing file is an error"); closed();
  gs_check(write_bin_COO(A, "no/such/dir.bin") < 0, "failure to write is reported"); closed();
  gs_cover("end");
#elif KIND == 9
  // A file of any length with any contents is read as a CSR matrix exactly when it holds a whole matrix with sorted rows and columns inside it
  u64 max = gs_param("L", 36), len = gs_conc(gs_range("len", 0, max)), w = sizeof(IX); unsigned char* b = new unsigned char[max]; for (u64 i = 0; i < max; i++) b[i] = 0;
  { IX* p = (IX*)b; u64 k = len / w; for (u64 i = 0; i < k; i++) p[i] = (IX)gs_sym("w", 8 * sizeof(IX)); for (u64 i = k * w; i < len; i++) b[i] = (unsigned char)gs_sym("b", 8); }
  IX h[3] = {0, 0, 0}; if (len >= 3 * w) memcpy(h, b, 3 * w);
  gs_assume(h[0] <= gs_param("rows", 3)); h[0] = (IX)gs_conc(h[0]);
  { Wr f("m.bin"); f.bytes(b, len); f.done(); }
  bool whole = len >= 3 * w && (u64)h[2] <= (len - 3 * w) / (2 * w + sizeof(VT)); bool in = whole; u64 cnt = whole ? gs_conc(h[2]) : 0; const IX* q = (const IX*)b + 3;
  for (u64 i = 0; i < cnt; i++) { in = in & (q[i] < h[0]) & (q[cnt + i] < h[1]); if (i) in = in & (q[i - 1] <= q[i]); }
  CSRT<VT, IX> A; int r = read_bin_CSR(&A, "m.bin"); closed();
  if (r < 0) { gs_check(!in, "a complete sorted matrix is accepted"); gs_cover("rejected"); }
  else {
    gs_check(whole, "an incomplete file is rejected"); gs_check(in, "elements out of order or outside the matrix are rejected");
    gs_check(A.rows == h[0] && A.columns == h[1] && A.nonzeros() == cnt, "header read"); gs_check(A.row_ptr[0] == 0 && A.row_ptr[h[0]] == cnt, "row pointers cover the elements");
    for (u64 i = 0; i < cnt; i++) { IX ri = (IX)gs_conc(q[i]); gs_check((A.row_ptr[ri] <= i) & (i < A.row_ptr[ri + 1]), "element stored in its row"); gs_check(COLOF(A, i) == q[cnt + i], "column read"); VT v = VALOF(A, i); gs_check(memcmp(&v, q + 2 * cnt + i * sizeof(VT) / w, sizeof(VT)) == 0, "value read"); }
    release(A); gs_cover("accepted");
  }
  gs_check(({ CSRT<VT, IX> E; read_bin_CSR(&E, "none.bin"); }) < 0, "a missing file is an error"); closed();
  delete[] b; gs_cover("end");
#endif
}
