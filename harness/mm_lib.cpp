// The MatrixMarket library dep/mm_io on its own.
// KIND 1 type codes, 2 whole coordinate files written and read back, 3 sizes and single entries, 4 errors, 5 a file cut anywhere
#include "gsio.h"
static const char OBJ[] = {'M', 'X'}, FMTC[] = {'C', 'A', ' '}, FLD[] = {'R', 'C', 'P', 'I', ' '}, SYMC[] = {'G', 'S', 'H', 'K', 'x'};
static const char *FMTN[] = {"coordinate", "array"}, *FLDN[] = {"real", "complex", "pattern", "integer"}, *SYMN[] = {"general", "symmetric", "hermitian", "skew-symmetric"};
typedef unsigned char u8;
static int tag(double a, double b) { return a == b; }
extern "C" void gs_harness() {
#if KIND == 1
  { MM_typecode t; u8 b[4]; for (int i = 0; i < 4; i++) { b[i] = (u8)gs_range("byte", 0, 255); t[i] = (char)b[i]; }
    int ok = (b[0] == 'M') & !((b[1] == 'A') & (b[2] == 'P')) & !((b[2] == 'R') & (b[3] == 'H')) & !((b[2] == 'P') & ((b[3] == 'H') | (b[3] == 'K')));
    gs_check((mm_is_valid(t) != 0) == (ok != 0), "valid type codes");
    gs_check((mm_is_matrix(t) != 0) == (b[0] == 'M') && (mm_is_sparse(t) != 0) == (b[1] == 'C') && (mm_is_dense(t) != 0) == (b[1] == 'A') && (mm_is_coordinate(t) != 0) == (b[1] == 'C') && (mm_is_array(t) != 0) == (b[1] == 'A'), "object and format of a code");
    gs_check((mm_is_real(t) != 0) == (b[2] == 'R') && (mm_is_complex(t) != 0) == (b[2] == 'C') && (mm_is_pattern(t) != 0) == (b[2] == 'P') && (mm_is_integer(t) != 0) == (b[2] == 'I'), "field of a code");
    gs_check((mm_is_general(t) != 0) == (b[3] == 'G') && (mm_is_symmetric(t) != 0) == (b[3] == 'S') && (mm_is_hermitian(t) != 0) == (b[3] == 'H') && (mm_is_skew(t) != 0) == (b[3] == 'K'), "symmetry of a code"); }
  u64 o = gs_conc(gs_range("object", 0, 1)), f = gs_conc(gs_range("format", 0, 2)), d = gs_conc(gs_range("field", 0, 4)), s = gs_conc(gs_range("symmetry", 0, 4));
  MM_typecode t; mm_initialize_typecode(&t); gs_check(t[0] == ' ' && t[1] == ' ' && t[2] == ' ' && t[3] == 'G', "a new type code is empty and general");
  if (o == 0) mm_set_matrix(&t); else t[0] = 'X';
  if (f == 0) mm_set_coordinate(&t); else if (f == 1) mm_set_array(&t);
  if (d == 0) mm_set_real(&t); else if (d == 1) mm_set_complex(&t); else if (d == 2) mm_set_pattern(&t); else if (d == 3) mm_set_integer(&t);
  if (s == 0) mm_set_general(&t); else if (s == 1) mm_set_symmetric(&t); else if (s == 2) mm_set_hermitian(&t); else if (s == 3) mm_set_skew(&t); else t[3] = 'x';
  gs_check(t[0] == OBJ[o] && t[1] == FMTC[f] && t[2] == FLD[d] && t[3] == SYMC[s], "setting parts of a type code");
  int named = o == 0 && f < 2 && d < 4 && s < 4;
  gs_leak_mark();
  { char* n = mm_typecode_to_str(t); gs_check((n != 0) == named, "only complete codes have a name");
    if (n) { char w[100]; sprintf(w, "matrix %s %s %s", FMTN[f], FLDN[d], SYMN[s]); gs_check(strcmp(n, w) == 0, "name of a type code"); free(n); } }
  { FILE* F = fopen("b.mtx", "w"); int r = mm_write_banner(F, t); gs_check((r == 0) == named, "the banner is written exactly when the code has a name"); fclose(F); }
  if (named) { FILE* F = fopen("b.mtx", "r"); char line[200], w[120]; gs_check(fgets(line, 200, F) != 0, "banner line"); sprintf(w, "%s matrix %s %s %s\n", "%%MatrixMarket", FMTN[f], FLDN[d], SYMN[s]); gs_check(strcmp(line, w) == 0, "the banner is as the format wants it"); fclose(F);
    MM_typecode u; u[0] = u[1] = u[2] = u[3] = 'z'; F = fopen("b.mtx", "r"); gs_check(mm_read_banner(F, &u) == 0, "the banner is read back"); fclose(F);
    gs_check(u[0] == t[0] && u[1] == t[1] && u[2] == t[2] && u[3] == t[3], "the same type code"); gs_cover("named"); }
  gs_leak_check("type codes"); gs_cover("end");
#elif KIND == 2
  u64 d = gs_conc(gs_range("field", gs_param("d0", 0), gs_param("d1", 2))), s = gs_conc(gs_range("symmetry", gs_param("s0", 0), gs_param("s1", 3)));
  MM_typecode t; mm_initialize_typecode(&t); mm_set_matrix(&t); mm_set_sparse(&t); t[2] = FLD[d]; t[3] = SYMC[s]; gs_assume(mm_is_valid(t));
  int n = (int)gs_conc(gs_range("n", gs_param("N0", 0), gs_param("N1", 3))), M = (int)gs_range("M", 1, 2000000000), N = (int)gs_range("N", 1, 2000000000), large = n > 20;
  int *r = new int[n], *c = new int[n]; double* v = new double[2 * n];
  for (int i = 0; i < n; i++) { if (large) { r[i] = 1 + i * 7 % 300; c[i] = 1 + i * 11 % 299; } else { r[i] = (int)gs_range("r", 1, 2000000000); c[i] = (int)gs_range("c", 1, 2000000000); } v[2 * i] = v[2 * i + 1] = 0; for (int k = 0; k < (d == 1 ? 2 : d == 0 ? 1 : 0); k++) v[(d == 1 ? 2 : 1) * i + k] = (double)g_val(float(), "v"); }
  char name[] = "m.mtx"; gs_leak_mark();
  gs_check(mm_write_mtx_crd(name, M, N, n, r, c, v, t) == 0, "the matrix is written"); closed(); gs_leak_check("written");
  { FILE* F = fopen(name, "r"); MM_typecode u; int a, b, e; gs_check(mm_read_banner(F, &u) == 0 && !memcmp(u, t, 4), "banner"); gs_check(mm_read_mtx_crd_size(F, &a, &b, &e) == 0 && a == M && b == N && e == n, "sizes");
    int *r2 = new int[n], *c2 = new int[n]; double* v2 = new double[2 * n];
    gs_check(mm_read_mtx_crd_data(F, a, b, e, r2, c2, v2, u) == 0, "data"); int rest; gs_check(fscanf(F, "%d", &rest) == -1, "nothing follows the elements"); fclose(F);
    for (int i = 0; i < n; i++) { gs_check(r2[i] == r[i] && c2[i] == c[i], "indices of the data"); for (int k = 0; k < (d == 1 ? 2 : d == 0 ? 1 : 0); k++) { int q = (d == 1 ? 2 : 1) * i + k; g_eq(v2[q], v[q], "values of the data"); } }
    delete[] r2; delete[] c2; delete[] v2; }
  gs_leak_mark();
  { int a = 0, b = 0, e = 0, *r2 = 0, *c2 = 0; double* v2 = 0; MM_typecode u; gs_check(mm_read_mtx_crd(name, &a, &b, &e, &r2, &c2, &v2, &u) == 0, "the matrix is read back"); closed();
    gs_check(a == M && b == N && e == n && !memcmp(u, t, 4), "sizes and type read back"); gs_check((v2 != 0) == (d != 2) || !n, "a pattern has no values");
    for (int i = 0; i < n; i++) { gs_check(r2[i] == r[i] && c2[i] == c[i], "indices read back"); for (int k = 0; k < (d == 1 ? 2 : d == 0 ? 1 : 0); k++) { int q = (d == 1 ? 2 : 1) * i + k; g_eq(v2[q], v[q], "values read back"); } }
    free(r2); free(c2); free(v2); }
  gs_leak_check("read back");
  { int a = 0, b = 0, e = 0, *r2 = 0, *c2 = 0; double* v2 = 0; int k = mm_read_unsymmetric_sparse(name, &a, &b, &e, &v2, &r2, &c2); closed();
    gs_check((k == 0) == (d == 0), "only real matrices are read by mm_read_unsymmetric_sparse");
    if (k == 0) { gs_check(a == M && b == N && e == n, "sizes"); for (int i = 0; i < n; i++) { gs_check(r2[i] == r[i] - 1 && c2[i] == c[i] - 1, "indices counted from zero"); g_eq(v2[i], v[i], "values"); } free(r2); free(c2); free(v2); gs_cover("real"); } }
  gs_leak_check("read as unsymmetric"); delete[] r; delete[] c; delete[] v; gs_cover("end");
#elif KIND == 3
  int M = (int)gs_range("M", 0, 0x7fffffff), N = (int)gs_range("N", 0, 0x7fffffff), Z = (int)gs_range("Z", 0, 0x7fffffff), a, b, z; u64 com = gs_conc(gs_range("comments", 0, 2)), blank = gs_conc(gs_range("blank", 0, 1));
  for (int k = 0; k < 2; k++) {
    FILE* F = fopen("s.mtx", "w"); for (u64 i = 0; i < com; i++) fputs(i ? "%\n" : "% 7 7 7\n", F); if (blank) fputs("\n", F);
    gs_check((k ? mm_write_mtx_crd_size(F, M, N, Z) : mm_write_mtx_array_size(F, M, N)) == 0, "sizes are written"); fprintf(F, "%d %d 2.5\n", 4, 9); fclose(F);
    F = fopen("s.mtx", "r"); a = b = z = -1; gs_check((k ? mm_read_mtx_crd_size(F, &a, &b, &z) : mm_read_mtx_array_size(F, &a, &b)) == 0, "sizes are read"); gs_check(a == M && b == N && (!k || z == Z), "the sizes written");
    MM_typecode t; t[0] = 'M'; t[1] = 'C'; t[2] = 'R'; t[3] = 'G'; double re = 0; a = b = 0; gs_check(mm_read_mtx_crd_entry(F, &a, &b, &re, 0, t) == 0 && a == 4 && b == 9 && tag(re, 2.5), "the line after the sizes is next"); fclose(F); }
  u64 d = gs_conc(gs_range("field", 0, 3)); MM_typecode t; t[0] = 'M'; t[1] = 'C'; t[2] = FLD[d]; t[3] = 'G'; double x = (double)g_val(float(), "re"), y = (double)g_val(float(), "im"), re = 1, im = 1; int i = (int)gs_range("i", 1, 0x7fffffff), j = (int)gs_range("j", 1, 0x7fffffff), got = -1;
  { FILE* F = fopen("e.mtx", "w"); fprintf(F, "%d %d", i, j); if (d == 0 || d == 1) fprintf(F, " %.17g", x); if (d == 1) fprintf(F, " %.17g", y); fprintf(F, "\n"); fclose(F); }
  { FILE* F = fopen("e.mtx", "r"); got = mm_read_mtx_crd_entry(F, &a, &b, &re, &im, t); gs_check((got == 0) == (d != 3), "which entries are read");
    if (!got) { gs_check(a == i && b == j, "indices of an entry"); if (d < 2) g_eq(re, x, "value of an entry"); if (d == 1) g_eq(im, y, "imaginary part of an entry"); gs_check(mm_read_mtx_crd_entry(F, &a, &b, &re, &im, t) != 0, "the end of the file is reported"); }
    fclose(F); closed(); }
  if (d < 3) { u64 keep = gs_conc(gs_range("keep", 0, d == 1 ? 3 : d == 0 ? 2 : 1)); FILE* F = fopen("e.mtx", "w"); if (keep > 0) fprintf(F, "%d", i); if (keep > 1) fprintf(F, " %d", j); if (keep > 2) fprintf(F, " %.17g", x); if (gs_conc(gs_range("eol", 0, 1))) fprintf(F, "\n"); fclose(F);
    F = fopen("e.mtx", "r"); gs_check(mm_read_mtx_crd_entry(F, &a, &b, &re, &im, t) != 0, "an entry that ends early is reported"); fclose(F); closed(); }
  gs_cover("end");
#elif KIND == 4
  // 0 missing, 1 empty, 2 wrong banner, 3 unknown word, 4 array, 5 integer, 6 real hermitian, 7 no sizes, 8 a size is missing, 9 no element, 10 half an element, 11 text, 12 cannot be written, 13 no name, 14 array sizes cut, 15 fine
  u64 bad = gs_conc(gs_range("bad", 0, 15)), d = gs_conc(gs_range("field", 0, 2)); MM_typecode t; t[0] = 'M'; t[1] = 'C'; t[2] = FLD[d]; t[3] = 'G'; int n = 2, q = (int)gs_range("q", 1, 5); char name[] = "m.mtx", none[] = "no/such/dir.mtx";
  if (bad == 12 || bad == 13) { int r[2] = {1, 1}, c[2] = {1, 2}; double v[4] = {1, 2, 3, 4}; if (bad == 13) t[2] = ' '; gs_leak_mark(); gs_check(mm_write_mtx_crd(bad == 12 ? none : name, 2, 2, n, r, c, v, t) != 0, "failure to write is reported"); closed(); gs_leak_check("failure to write"); gs_cover("end"); return; }
  const char *e2 = d == 0 ? "1 2 0.5" : d == 1 ? "1 2 0.5 1" : "1 2", *half = d == 0 ? "1 2" : d == 1 ? "1 2 0.5" : "1";
  if (bad) { FILE* F = fopen(name, "w");
    if (bad == 2) fputs("%MatrixMarket matrix coordinate real general\n", F);
    else if (bad == 4) fputs("%%MatrixMarket matrix array real general\n", F);
    else if (bad != 1) fprintf(F, "%s matrix coordinate %s %s\n", "%%MatrixMarket", bad == 5 ? "integer" : bad == 3 ? "reel" : bad == 6 ? "real" : FLDN[d], bad == 6 ? "hermitian" : "general");
    if (bad == 8) fputs("3 3\n", F); else if (bad == 14) fputs("% c\n3 x\n", F); else if (bad != 7 && bad != 1) fprintf(F, "%d %d %d\n", 3, 3, n);
    if (bad >= 2 && bad != 7 && bad != 8 && bad != 14) { fprintf(F, "%d %s\n", q, d == 0 ? "1 7.5" : d == 1 ? "1 7.5 2" : "1"); if (bad != 9) fprintf(F, "%s\n", bad == 10 ? half : bad == 11 ? "1 x 1 1" : e2); }
    fclose(F); }
  gs_leak_mark();
  { int a = 0, b = 0, e = 0, *r2 = 0, *c2 = 0; double* v2 = 0; MM_typecode u; int k = mm_read_mtx_crd(name, &a, &b, &e, &r2, &c2, &v2, &u); gs_check((k == 0) == (bad == 15), "mm_read_mtx_crd accepts exactly complete files of its types"); closed();
    if (k == 0) { gs_check(r2[0] == q && c2[0] == 1 && r2[1] == 1 && c2[1] == 2, "elements"); free(r2); free(c2); free(v2); gs_cover("fine"); } gs_leak_check("mm_read_mtx_crd"); }
  gs_leak_mark();
  { int a = 0, b = 0, e = 0, *r2 = 0, *c2 = 0; double* v2 = 0; int k = mm_read_unsymmetric_sparse(name, &a, &b, &e, &v2, &r2, &c2); if (bad != 6) gs_check((k == 0) == (bad == 15 && d == 0), "mm_read_unsymmetric_sparse accepts exactly complete real files"); closed();
    if (k == 0) { free(r2); free(c2); free(v2); } gs_leak_check("mm_read_unsymmetric_sparse"); }
  if (bad) { FILE* F = fopen(name, "r"); MM_typecode u; int k = mm_read_banner(F, &u); gs_check((k == 0) == (bad > 3), "banners that are accepted");
    if (!k && bad == 14) { int a, b; gs_check(mm_read_mtx_array_size(F, &a, &b) != 0, "a malformed size line is reported"); gs_cover("cut"); }
    fclose(F); }
  gs_cover("end");
#elif KIND == 5
  u64 d = gs_conc(gs_range("field", 0, 2)), s = gs_conc(gs_range("symmetry", 0, 1)); char text[300], name[] = "m.mtx"; int head, per = d == 0 ? 3 : d == 1 ? 4 : 2, n = 2;
  head = sprintf(text, "%s matrix coordinate %s %s", "%%MatrixMarket", FLDN[d], SYMN[s]);
  sprintf(text + head, "\n%% c\n 3 3 2\n1 2%s\n3 1%s\n", d == 0 ? " 0.5" : d == 1 ? " 7 8" : "", d == 0 ? " 4" : d == 1 ? " 2.5 6" : "");
  u64 len = strlen(text), cut = gs_conc(gs_range("cut", 0, len)); int words = 0, in = 0, com = 0;
  for (u64 i = (u64)head; i < cut; i++) { if (text[i] == '%') com = 1; if (text[i] == '\n') com = 0; int w = text[i] != ' ' && text[i] != '\n' && !com; if (w && !in) words++; in = w; }
  { FILE* F = fopen(name, "w"); fwrite(text, 1, cut, F); fclose(F); }
  int whole = cut >= (u64)head && words == 3 + n * per;
  gs_leak_mark();
  { int a = 0, b = 0, e = 0, *r2 = 0, *c2 = 0; double* v2 = 0; MM_typecode u; int k = mm_read_mtx_crd(name, &a, &b, &e, &r2, &c2, &v2, &u); gs_check((k == 0) == whole, "a file cut short is not accepted"); closed();
    if (k == 0) { gs_check(r2[0] == 1 && c2[0] == 2 && r2[1] == 3 && c2[1] == 1, "elements"); free(r2); free(c2); free(v2); gs_cover("whole"); } gs_leak_check("mm_read_mtx_crd"); }
  gs_leak_mark();
  { int a = 0, b = 0, e = 0, *r2 = 0, *c2 = 0; double* v2 = 0; int k = mm_read_unsymmetric_sparse(name, &a, &b, &e, &v2, &r2, &c2); gs_check((k == 0) == (whole && d == 0), "mm_read_unsymmetric_sparse does not accept a file cut short"); closed();
    if (k == 0) { free(r2); free(c2); free(v2); } gs_leak_check("mm_read_unsymmetric_sparse"); }
  gs_cover("end");
#endif
}
