// Blocked matrix files. KIND 1 written from a sorted Coo3 and read back, 2 arbitrary contents
// FMT 2 Csbr, 3 Csbr2, 4 Cgbr, 6 Bcsr
#include "gsio.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
#if FMT == 2
typedef Csbr<VT, IX> MAT;
#elif FMT == 3
typedef Csbr2<VT, IX> MAT;
#elif FMT == 4
typedef Cgbr<VT, IX, SX> MAT;
#else
typedef Bcsr<VT, IX> MAT;
#endif
static IX* offs(const IX* e, IX n) { IX* o = (IX*)malloc((n + 1) * sizeof(IX)); for (IX i = 0; i <= n; i++) o[i] = e[i]; return o; }
// what a matrix read from the file must be: the elements (r,c,v), N of them, in nb blocks
static void compare(MAT& A, Input& I, IX nr, IX nc, const IX* er, const IX* ec) {
  gs_check(A.rows == I.R && A.columns == I.C && A.nonzeros() == I.N, "dimensions and number of non-zeros read");
  gs_check(A.blockrows == nr && A.blockcols == nc, "number of block-rows and block-columns read");
  IX k = 0;
  for (IX i = 0; i < nr; i++) for (IX j = 0; j < nc; j++) {
    IX cnt = 0; for (IX e = 0; e < I.N; e++) cnt += (I.r[e] >= er[i]) & (I.r[e] < er[i + 1]) & (I.c[e] >= ec[j]) & (I.c[e] < ec[j + 1]);
    if (gs_conc(cnt) == 0) continue;
#if FMT != 6
    gs_check(k >= A.blockrow_ptr[i] && k < A.blockrow_ptr[i + 1], "a non-zero block is stored in its block-row");
#if FMT != 3
    gs_check(A.blockcol_ind[k] == j, "block-column of a stored block");
#endif
#endif
#if FMT == 2
    gs_check(A.block_nonzeros(k) == cnt && A.blocks[k].rows == er[i + 1] - er[i] && A.blocks[k].columns == ec[j + 1] - ec[j], "size of a stored block");
#endif
    k++;
  }
  gs_check(k == A.nnzblocks, "as many blocks as the file has");
#if FMT == 4
  IX sb = 0, sn = 0; for (int t = 0; t < MATRIX_TYPE_NUM; t++) { sb += A.type_block_count[t]; sn += A.type_nnz_count[t]; }
  gs_check(sb == A.nnzblocks && sn == I.N, "block type statistics add up");
#endif
  A.spmv(I.x, I.y); checkResult(I, 1, "y = y0 + A x");
}
extern "C" void gs_harness() {
  gs_threads(2);
#if KIND == 1
  Input I; makeInput(I);
  IX nr = dim("BR", 1, 2), nc = dim("BC", 1, 2); gs_assume(nr <= I.R); gs_assume(nc <= I.C);
  IX *er = new IX[nr + 1], *ec = new IX[nc + 1]; er[0] = ec[0] = 0; er[nr] = I.R; ec[nc] = I.C;
  for (IX i = 1; i < nr; i++) { if (gs_param("pat", 0)) { er[i] = (IX)((u64)i * I.R / nr); continue; } er[i] = (IX)gs_range("ro", i, I.R - (nr - i)); gs_assume(er[i] > er[i - 1]); er[i] = (IX)gs_conc(er[i]); }
  for (IX i = 1; i < nc; i++) { if (gs_param("pat", 0)) { ec[i] = (IX)((u64)i * I.C / nc); continue; } ec[i] = (IX)gs_range("co", i, I.C - (nc - i)); gs_assume(ec[i] > ec[i - 1]); ec[i] = (IX)gs_conc(ec[i]); }
  gs_leak_mark();
  { Coo3<VT, IX> B; fill(&B, I); B.blockrows = nr; B.blockcols = nc; IX *a = offs(er, nr), *b = offs(ec, nc);
    calculate_block_id(B.elements, B.nnz, a, nr, b, nc); sort_elements_blocks(B.elements, B.nnz); B.nnzblocks = count_blocks(B.elements, B.nnz);
    gs_check(write_bin_blocked(B, "m.block") == 0, "the matrix is written"); closed();
    { Rd f("m.block"); f.idx(I.R, "file: rows"); f.idx(I.C, "file: columns"); f.idx(I.N, "file: non-zeros"); f.idx(nr, "file: block-rows"); f.idx(nc, "file: block-columns"); f.idx(B.nnzblocks, "file: non-zero blocks");
      for (IX i = 0; i < I.N; i++) { f.idx(B.elements[i].block, "file: block"); f.idx(B.elements[i].row, "file: row"); f.idx(B.elements[i].col, "file: column"); f.val(B.elements[i].val, "file: value"); } f.done(); }
    release(B);
    MAT* A = new MAT; gs_check(read_bin_blocked(A, "m.block", a, nr, b, nc) == 0, "the matrix is read"); closed();
    compare(*A, I, nr, nc, er, ec); release(*A); delete A;
#if FMT == 4
    free(a); free(b);
#endif
  }
  gs_leak_check("written, read, multiplied and released");
  delete[] er; delete[] ec; freeInput(I); gs_cover("end");
#else
  // any header and up to n elements with any indices, the file may be cut anywhere; blocks of 2 + 1 rows and 1 + 2 columns
  const IX er[3] = {0, 2, 3}, ec[3] = {0, 1, 3}; u64 n = gs_param("n", 2), w = sizeof(IX), each = 3 * w + sizeof(VT), full = 6 * w + n * each; unsigned char buf[256];
  u64 what = gs_conc(gs_range("what", gs_param("what0", 0), gs_param("what1", 2))); // 0 header fields, 1 elements, 2 cut short
  IX h[6] = {3, 3, (IX)n, 2, 2, (IX)(n ? 1 : 0)}; IX eb[4], r[4], c[4]; VT v[4]; Input I; I.R = I.C = 3; I.N = (IX)n; I.r = r; I.c = c; I.v = v; I.x = new VT[3]; I.y = new VT[3]; I.y0 = new VT[3];
  for (u64 i = 0; i < n; i++) { r[i] = what == 1 ? (IX)gs_sym("r", 8 * sizeof(IX)) : (IX)gs_range("r", 0, 2); c[i] = what == 1 ? (IX)gs_sym("c", 8 * sizeof(IX)) : (IX)gs_range("c", 0, 2); eb[i] = what == 1 ? (IX)gs_sym("b", 8 * sizeof(IX)) : (IX)((r[i] >= 2) * 2 + (c[i] >= 1)); v[i] = g_val(VT(), "v"); }
  if (what != 1) for (u64 i = 1; i < n; i++) gs_assume((eb[i - 1] < eb[i]) | ((eb[i - 1] == eb[i]) & (r[i - 1] <= r[i])));
  IX nb = n ? 1 : 0; for (u64 i = 1; i < n; i++) nb += eb[i] != eb[i - 1];
  h[5] = nb;
  if (what == 0) { u64 k = gs_conc(gs_range("field", 0, 5)); h[k] = (IX)gs_sym("h", 8 * sizeof(IX)); }
  for (int i = 0; i < 3; i++) { I.x[i] = g_val(VT(), "x"); I.y[i] = I.y0[i] = g_val(VT(), "y"); }
  { unsigned char* p = buf; memcpy(p, h, 6 * w); p += 6 * w; for (u64 i = 0; i < n; i++) { memcpy(p, &eb[i], w); memcpy(p + w, &r[i], w); memcpy(p + 2 * w, &c[i], w); memcpy(p + 3 * w, &v[i], sizeof(VT)); p += each; } }
  u64 len = what == 2 ? gs_conc(gs_range("len", 0, full - 1)) : full;
  { Wr f("m.block"); f.bytes(buf, len); f.done(); }
  int ok = (len == full) & (h[0] == 3) & (h[1] == 3) & (h[2] == n) & (h[3] == 2) & (h[4] == 2) & (h[5] == nb);
  for (u64 i = 0; i < n; i++) {
    ok = ok & (r[i] < 3) & (c[i] < 3) & (eb[i] == (IX)((r[i] >= 2) * 2 + (c[i] >= 1)));
    if (i) ok = ok & ((eb[i - 1] < eb[i]) | ((eb[i - 1] == eb[i]) & (r[i - 1] <= r[i])));
  }
  MAT* A = new MAT; struct P { MAT* A; IX *a, *b; int r; } p = {A, offs(er, 2), offs(ec, 2), 0};
  int t = gs_try_abort([](void* x) { P* p = (P*)x; p->r = read_bin_blocked(p->A, "m.block", p->a, (IX)2, p->b, (IX)2); }, &p);
  if (t != 0 || p.r != 0) { gs_check(!ok, "a well-formed file is accepted"); gs_check(t == 0 || t == 1001 || t == 2000, "ends in an error"); gs_cover("rejected"); }
  else { // fewer non-zeros than the file holds: the rest is ignored
    int less = (what == 0) & (h[2] < n);
    if (less) gs_cover("shorter"); else { gs_check(ok, "a malformed file is rejected"); for (u64 i = 0; i < n; i++) { r[i] = (IX)gs_conc(r[i]); c[i] = (IX)gs_conc(c[i]); } closed(); compare(*A, I, 2, 2, er, ec); gs_cover("accepted"); }
  }
  gs_cover("end");
#endif
}
