// MatrixMarket files.
// KIND 1 a well-formed file is read, 2 a matrix is written (and read back), 3 malformed files
#include "gsio.h"
#include "io/input.h"
#include "io/output.h"
#ifndef SRC
#define SRC Coo2
#endif
static const char* FIELD[] = {"real", "integer", "pattern", "complex"};
static const char* SYM[] = {"general", "symmetric", "skew-symmetric", "hermitian"};
static const char* FIELDU[] = {"Real", "INTEGER", "Pattern", "Complex"};
static const char* SYMU[] = {"General", "SYMMETRIC", "Skew-Symmetric", "Hermitian"};
// The elements of B, in any order, must be exactly the N given ones
template <class A> static void sameSet(A& B, IX N, IX R, IX C, const IX* r, const IX* c, const VT* v) {
  gs_check(B.rows == R && B.columns == C, "dimensions"); gs_check(B.nnz == N, "number of non-zeros");
  for (IX k = 0; k < N; k++) gs_check((B.get_row_index(k) < R) & (B.get_column_index(k) < C), "element inside the matrix");
  IX* r2 = new IX[N]; IX* c2 = new IX[N]; VT* v2 = new VT[N]; for (IX k = 0; k < N; k++) { r2[k] = B.get_row_index(k); c2[k] = B.get_column_index(k); v2[k] = B.get_value(k); }
  sameElements(N, R, C, r, c, v, r2, c2, v2); delete[] r2; delete[] c2; delete[] v2;
}
extern "C" void gs_harness() {
#if KIND == 1
  u64 fd = gs_conc(gs_range("field", gs_param("f0", 0), gs_param("f1", 2))), sy = gs_conc(gs_range("symmetry", gs_param("s0", 0), gs_param("s1", 2))), com = gs_conc(gs_range("comments", gs_param("com0", 0), gs_param("com", 2))), style = gs_conc(gs_range("style", gs_param("style0", 0), gs_param("style", 3))); // style: 1 capitals, last line not ended, 2 blank lines and tabs, 4 CR LF, 8 blank lines between elements
  gs_assume(!(fd == 2 && sy == 2));
  u64 nox = gs_param("nox", 0); IX R = nox ? (IX)gs_range("R", gs_param("R0", 1), gs_param("R1", 3)) : dim("R", 1, 3), C = sy ? R : nox ? (IX)gs_range("C", gs_param("C0", 1), gs_param("C1", 3)) : dim("C", 1, 3), N = dim("N", 0, 2); IX* r = new IX[2 * N + 1]; IX* c = new IX[2 * N + 1]; VT* v = new VT[2 * N + 1]; int* iv = new int[N + 1];
  if (gs_param("pat", 0)) { // fixed positions, distinct and in the lower triangle when only that is stored
    Input I; I.R = R; I.C = C; I.N = N; I.r = r; I.c = c; I.v = v; I.x = new VT[C]; I.y = new VT[R]; I.y0 = new VT[R]; pattern(I, false); delete[] I.x; delete[] I.y; delete[] I.y0;
    u64 q = 1, lin = 0, tri = (u64)R * (R + 1) / 2, step = sy && N ? tri / N : 1; IX i0 = sy == 2;
    for (IX i = 0; i < N; i++) {
      if (sy) { IX j = sy == 2 ? 0 : 0; while (i0 < R && lin > i0 - (sy == 2)) { lin -= i0 + 1 - (sy == 2); i0++; } j = (IX)lin; gs_assume(i0 < R); r[i] = i0; c[i] = j; q = q * 6364136223846793005ull + 1442695040888963407ull; lin += 1 + (q >> 33) % step; }
      iv[i] = (int)(i % 9) - 4; if (fd) v[i] = fd == 1 ? VT(iv[i]) : VT(1);
    }
  } else
  for (IX i = 0; i < N; i++) {
    if (nox) { r[i] = (IX)gs_sym("r", 8 * sizeof(IX)); c[i] = (IX)gs_sym("c", 8 * sizeof(IX)); gs_assume(r[i] < R); gs_assume(c[i] < C); } else { r[i] = (IX)gs_range("r", 0, R - 1); c[i] = (IX)gs_range("c", 0, C - 1); }
    iv[i] = (int)gs_range("iv", 0, 9) - 4;
    if (sy == 1) gs_assume(r[i] >= c[i]); if (sy == 2) gs_assume(r[i] > c[i]);
    if (sy) for (IX k = 0; k < i; k++) gs_assume((r[k] != r[i]) | (c[k] != c[i]));
    if (fd == 1) iv[i] = (int)gs_conc((u64)(uint32_t)(iv[i] + 4)) - 4;
    v[i] = fd == 0 ? g_val(VT(), "v") : fd == 1 ? VT(iv[i]) : VT(1);
  }
  FILE* f = fopen("m.mtx", "w");
  const char* nl = style & 4 ? "\r\n" : "\n";
  fprintf(f, "%%%%MatrixMarket %s %s %s %s%s", style & 1 ? "MATRIX" : "matrix", style & 1 ? "Coordinate" : "coordinate", style & 1 ? FIELDU[fd] : FIELD[fd], style & 1 ? SYMU[sy] : SYM[sy], nl);
  for (u64 i = 0; i < com; i++) { if (i > 2) { fputc('%', f); for (int k = 0; k < 1020 - 130 * (int)(i - 3); k++) fputc(k % 7 ? '3' : ' ', f); } else fputs(i ? "%" : "% 3 3 3 a comment", f); fputs(nl, f); }
  if (style & 2) fprintf(f, "%s", nl);
  fprintf(f, "%d %d %d%s", (int)R, (int)C, (int)N, nl);
  for (IX i = 0; i < N; i++) {
    if (style & 2) fprintf(f, "  ");
    fprintf(f, style & 2 ? "%lu\t%lu" : "%lu %lu", (unsigned long)r[i] + 1, (unsigned long)c[i] + 1);
    if (fd == 0) fprintf(f, " %.17g", (double)v[i]); if (fd == 1) fprintf(f, "  %d", iv[i]);
    if (i + 1 < N || !(style & 1)) fprintf(f, "%s", nl); if (style & 8) fprintf(f, "%s", nl);
  }
  fclose(f);
  IX M = N;
  if (sy) for (IX i = 0; i < N; i++) if (r[i] != c[i]) { r[M] = c[i]; c[M] = r[i]; v[M] = sy == 2 ? VT(0 - v[i]) : v[i]; M++; }
  gs_leak_mark();
  { SRC<VT, IX> A; A.rows = A.columns = A.nnz = 0; gs_check((style ? read_mm_COO(&A, "m.mtx") : read_COO(&A, "m.mtx")) == 0, "the matrix is read"); closed(); sameSet(A, M, R, C, r, c, v); release(A); }
  gs_leak_check("read and released"); delete[] r; delete[] c; delete[] v; delete[] iv; gs_cover("end");
#elif KIND == 2
  Input I; makeInput(I); gs_leak_mark();
  { SRC<VT, IX> A; fill(&A, I); int w = write_mm_COO(&A, "m.mtx"); closed(); release(A);
    if (gs_param("huge", 0) && (I.R > 0x7fffffff || I.C > 0x7fffffff)) { gs_check(w < 0, "sizes that a MatrixMarket file cannot hold are refused"); gs_check(!exists("m.mtx"), "no file appears"); gs_leak_check("refused"); freeInput(I); gs_cover("refused"); return; }
    gs_check(w == 0, "the matrix is written"); }
  gs_leak_check("written");
  { FILE* f = fopen("m.mtx", "r"); gs_check(f != 0, "the output file exists"); char line[1100], w[5][64]; char* p = fgets(line, 1100, f);
    gs_check(p && sscanf(line, "%63s %63s %63s %63s %63s", w[0], w[1], w[2], w[3], w[4]) == 5, "banner");
    gs_check(!strcmp(w[0], "%%MatrixMarket") && !strcmp(w[1], "matrix") && !strcmp(w[2], "coordinate") && !strcmp(w[3], "real") && !strcmp(w[4], "general"), "banner words");
    do p = fgets(line, 1100, f); while (p && line[0] == '%');
    unsigned long r, c, n, dummy; gs_check(p && sscanf(line, "%lu %lu %lu", &r, &c, &n) == 3, "size line"); gs_check(r == I.R && c == I.C && n == I.N, "sizes written");
    IX* er = new IX[I.N]; IX* ec = new IX[I.N]; double* ev = new double[I.N];
    for (IX i = 0; i < I.N; i++) { double d; gs_check(fscanf(f, "%lu %lu %lg", &r, &c, &d) == 3, "element line"); er[i] = (IX)(r - 1); ec[i] = (IX)(c - 1); ev[i] = d; }
    gs_check(fscanf(f, "%lu", &dummy) == -1, "nothing follows the elements"); fclose(f);
    sameElements(I.N, I.R, I.C, I.r, I.c, I.v, er, ec, ev);
    delete[] er; delete[] ec; delete[] ev; }
  gs_leak_mark();
  { SRC<VT, IX> B; gs_check(read_COO(&B, "m.mtx") == 0, "the matrix is read back"); closed(); sameSet(B, I.N, I.R, I.C, I.r, I.c, I.v); release(B); }
  gs_leak_check("read back"); gs_check(({ SRC<VT, IX> E; E.rows = E.columns = E.nnz = 0; write_mm_COO(&E, "no/such/dir.mtx"); }) < 0, "failure to write is reported"); closed();
  freeInput(I); gs_cover("end");
#elif KIND == 3
  // bad: 0 banner cut short, 1 wrong banner, 2 wrong object, 3 array format, 4 complex, 5 hermitian, 6 unknown field, 7 unknown symmetry, 8 no size line, 9 negative size, 10 file ends early, 11 row out of range, 12 column out of range, 13 text instead of a number, 14 half an entry, 15 empty file, 16 missing file, 17 text instead of sizes, 18 a size is missing, 19 overlong word in the banner
  u64 bad = gs_conc(gs_range("bad", 0, 19)), sy = gs_conc(gs_range("symmetry", 0, 2)), fd = gs_conc(gs_range("field", 0, 2)); gs_assume(!(sy == 2 && fd == 2));
  IX R = 2 + (IX)gs_conc(gs_range("R", 0, 1)), C = sy ? R : 2, N = 2, at = (IX)gs_conc(gs_range("at", 0, 1)); IX r[2], c[2]; VT v[2];
  for (IX i = 0; i < N; i++) {
    r[i] = (IX)gs_range("r", 0, R - 1); c[i] = (IX)gs_range("c", 0, C - 1); v[i] = fd == 0 ? g_val(VT(), "v") : VT(1); if (sy == 1) gs_assume(r[i] >= c[i]); if (sy == 2) gs_assume(r[i] > c[i]); }
  unsigned long wr = gs_sym("wr", 64), wc = gs_sym("wc", 64); gs_assume(wr < 1 || wr > R); gs_assume(wc < 1 || wc > C);
  u64 cut = 0;
  if (bad < 15 || bad > 16) {
    FILE* f = fopen("m.mtx", "w");
    if (bad == 0) fprintf(f, "%%%%MatrixMarket matrix coordinate %s\n", FIELD[fd]);
    else if (bad == 19) { int which = (int)gs_conc(gs_range("which", 0, 4)); char w[80]; for (int i = 0; i < 70; i++) w[i] = 'a'; w[70] = 0; fprintf(f, "%s %s %s %s %s\n", which == 0 ? w : "%%MatrixMarket", which == 1 ? w : "matrix", which == 2 ? w : "coordinate", which == 3 ? w : FIELD[fd], which == 4 ? w : SYM[sy]); }
    else fprintf(f, "%s %s %s %s %s\n", bad == 1 ? "%MatrixMarket" : "%%MatrixMarket", bad == 2 ? "vector" : "matrix", bad == 3 ? "array" : "coordinate", bad == 4 ? "complex" : bad == 6 ? "reals" : bad == 5 ? "real" : FIELD[fd], bad == 5 ? "hermitian" : bad == 7 ? "symmetrical" : SYM[sy]);
    if (bad != 8) {
      if (bad == 9) { int which = (int)gs_conc(gs_range("which", 0, 2)); fprintf(f, which == 0 ? "-2 2 2\n" : which == 1 ? "2 -2 2\n" : "2 2 -2\n"); }
      else if (bad == 17) fprintf(f, "rows columns\nelements\n"); else if (bad == 18) fprintf(f, "%d %d\n", (int)R, (int)C);
      else fprintf(f, "%d %d %d\n", (int)R, (int)C, (int)N);
      for (IX i = 0; i < N; i++) {
        if (bad == 10 && i == at) break;
        if (bad == 14 && i == at) { fprintf(f, fd == 2 ? "1" : "1 1"); break; }
        if (bad == 13 && i == at) { fprintf(f, "one 1 1\n"); continue; }
        fprintf(f, "%lu %lu", bad == 11 && i == at ? wr : (unsigned long)r[i] + 1, bad == 12 && i == at ? wc : (unsigned long)c[i] + 1);
        if (fd == 0) fprintf(f, " %.17g", (double)v[i]); if (fd == 1) fprintf(f, " 1");
        if (bad == 4) fprintf(f, " 0");
        fprintf(f, "\n");
      }
    } else cut = 1;
    fclose(f);
  }
  SRC<VT, IX> A; A.rows = A.columns = A.nnz = 0; int q = read_COO(&A, bad == 16 ? "none.mtx" : "m.mtx"); closed(); (void)cut;
  if (bad != 10) { gs_check(q < 0, "a malformed file is rejected"); gs_cover("rejected"); }
  else if (q == 0) { // a file that ends early: rejected, or only the elements it has
    IX M = 0; for (IX i = 0; i < at; i++) M += 1 + (sy && r[i] != c[i]);
    gs_check(A.nnz == M, "only the elements in the file"); for (IX k = 0; k < A.nnz; k++) gs_check((A.get_row_index(k) < R) & (A.get_column_index(k) < C), "element inside the matrix"); gs_cover("short"); release(A);
  }
  gs_cover("end");
#endif
}
