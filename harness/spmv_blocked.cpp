// y := y + A x for the blocked formats, and what they record about their blocks.
#include "mat.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "matrix/bcsr.h"
// FMT 1 Csbr from Coo2, 2 Csbr from Coo3, 3 Csbr2, 4 Cgbr, 5 Cgbr2, 6 Bcsr
#if FMT == 1
typedef Coo2<VT, IX> SRC;
#else
typedef Coo3<VT, IX> SRC;
#endif
#if FMT <= 2
typedef Csbr<VT, IX> MAT;
#elif FMT == 3
typedef Csbr2<VT, IX> MAT;
#elif FMT == 4
typedef Cgbr<VT, IX, SX> MAT;
#elif FMT == 6
typedef Bcsr<VT, IX> MAT;
#else
typedef Cgbr2<VT, IX, SX> MAT;
#endif
// arbitrary strictly increasing offsets 0 = o[0] < ... < o[n] = dim
static IX* offsets(const char* nm, IX dim_, IX n) {
  IX* o = (IX*)malloc((n + 1) * sizeof(IX)); o[0] = 0; o[n] = dim_;
  for (IX i = 1; i < n; i++) { o[i] = (IX)gs_range(nm, i, dim_ - (n - i)); gs_assume(o[i] > o[i - 1]); o[i] = (IX)gs_conc(o[i]); }
  return o;
}
extern "C" void gs_harness() {
  gs_threads(gs_param("threads", 2));
  int times = gs_param("times", 1), leak = gs_param("leak", 0), strct = gs_param("struct", 0), same = 0;
  Input I; makeInput(I, gs_param("distinct", 0));
  IX *ro = 0, *co = 0, nr = 0, nc = 0, bs = 0, cs = 0;
  IX* offCopy = 0;
  if (gs_param("mode", 0) == 0) { // constant size, possibly larger than the matrix
    bs = dim("S", 1, 4); cs = gs_param("square", 1) ? bs : dim("Q", 1, 4);
    nr = I.R / bs; nc = I.C / cs; if (!nr) nr = 1; if (!nc) nc = 1;
  } else {
    nr = dim("BR", 1, 3); gs_assume(nr <= I.R); nc = dim("BC", 1, 3); gs_assume(nc <= I.C);
    ro = offsets("ro", I.R, nr);
    same = gs_param("same", 0); if (same) { gs_assume(nr == nc); gs_assume(I.R == I.C); co = ro; } else co = offsets("co", I.C, nc);
  }
  // number of distinct blocks that hold an element
  IX *er = new IX[nr + 1], *ec = new IX[nc + 1];
  for (IX i = 0; i <= nr; i++) er[i] = ro ? ro[i] : i == nr ? I.R : i * bs;
  for (IX i = 0; i <= nc; i++) ec[i] = co ? co[i] : i == nc ? I.C : i * cs;
  gs_leak_mark();
  {
    SRC B; fill(&B, I);
    MAT* A = new MAT;
#if FMT == 5
    if (gs_param("balanced", 0) == 0) { if (ro) Coo_to_Blocked(A, &B, ro, nr, co, nc); else Coo_to_Blocked(A, &B, bs, cs); }
    else { if (ro) Coo_to_Cgbr(A, &B, ro, nr, co, nc); else Coo_to_Cgbr(A, &B, bs, cs); }
#elif FMT == 4
    if (ro) Coo_to_Blocked(A, &B, ro, nr, co, nc); else Coo_to_Cgbr(A, &B, bs, cs);
#elif FMT == 6
    if (ro) Coo_to_Bcsr(A, &B, ro, nr, co, nc); else Coo_to_Blocked(A, &B, bs, cs);
#else
    if (ro) Coo_to_Csbr(A, &B, ro, nr, co, nc); else Coo_to_Csbr(A, &B, bs, cs);
#endif
    u64 force = gs_param("force", 0); (void)force; // 1: balanced algorithm, 2: chunked algorithm
#if FMT != 3 && FMT != 6
    if (force == 1) A->balanced = true;
#if FMT == 4
    if (force == 2 && A->balanced) { A->balanced = false; partition_init(A); }
#else
    if (force == 2) A->balanced = false;
#endif
#endif
    if (!leak && !strct) {
      VT* x0 = new VT[I.C]; for (IX i = 0; i < I.C; i++) x0[i] = I.x[i];
      for (int t = 0; t < times; t++) A->spmv(I.x, I.y);
      checkResult(I, times, "y = y0 + A x");
      for (IX i = 0; i < I.C && I.C <= 8; i++) g_eq(I.x[i], x0[i], "x is unchanged");
      delete[] x0;
    } else if (leak) A->spmv(I.x, I.y);
    if (strct) {
      gs_check(A->rows == I.R && A->columns == I.C && A->nonzeros() == I.N, "dimensions and number of non-zeros are those of the input");
      gs_check(A->blockrows == nr && A->blockcols == nc, "number of block-rows and block-columns");
      for (IX i = 0; i <= nr; i++) gs_check(A->get_block_row_offset(i) == er[i], "block-row offsets");
      for (IX i = 0; i <= nc; i++) gs_check(A->get_block_column_offset(i) == ec[i], "block-column offsets");
#if FMT == 6
      IX hit = 0, sum = 0;
      for (IX i = 0; i < nr; i++) for (IX j = 0; j < nc; j++) {
        IX cnt = 0;
        for (IX e = 0; e < I.N; e++) cnt += (I.r[e] >= er[i]) & (I.r[e] < er[i + 1]) & (I.c[e] >= ec[j]) & (I.c[e] < ec[j + 1]);
        if (gs_conc(cnt) == 0) { gs_check(A->blocks[i * nc + j].rows == 0, "an empty block has no rows"); continue; }
        gs_check(A->blocks[i * nc + j].rows == er[i + 1] - er[i], "rows of a stored block"); gs_check(A->block_nonzeros(i * nc + j) == cnt, "non-zeros of a stored block"); hit++; sum += cnt;
      }
      gs_check(hit == A->nnzblocks, "as many blocks as the input touches"); gs_check(sum == I.N, "every element belongs to one block");
#else
      gs_check(A->blockrow_ptr[0] == 0 && A->blockrow_ptr[nr] == A->nnzblocks, "block-row pointers cover the blocks");
      IX total = 0, k = 0;
      for (IX i = 0; i < nr; i++) for (IX j = 0; j < nc; j++) {
        IX cnt = 0;
        for (IX e = 0; e < I.N; e++) cnt += (I.r[e] >= er[i]) & (I.r[e] < er[i + 1]) & (I.c[e] >= ec[j]) & (I.c[e] < ec[j + 1]);
        if (gs_conc(cnt) == 0) continue;
        gs_check(k < A->nnzblocks && k >= A->blockrow_ptr[i] && k < A->blockrow_ptr[i + 1], "a non-zero block is stored in its block-row");
#if FMT != 3
        gs_check(A->blockcol_ind[k] == j, "block-column of a stored block");
#endif
#if FMT <= 2
        gs_check(A->block_nonzeros(k) == cnt, "non-zeros of a stored block");
#elif FMT == 5
        gs_check(A->block_nonzeros(k) == cnt, "non-zeros of a stored block");
#endif
        k++; total += cnt;
      }
      gs_check(k == A->nnzblocks, "as many blocks as the input touches");
      gs_check(total == I.N, "every element belongs to one block");
#if FMT == 4 || FMT == 5
      IX sb = 0, sn = 0; for (int t = 0; t < MATRIX_TYPE_NUM; t++) { sb += A->type_block_count[t]; sn += A->type_nnz_count[t]; }
      gs_check(sb == A->nnzblocks && sn == I.N, "block type statistics add up");
#endif
#if FMT == 4
      if (!force) { // balanced: no block-row holds more than twice the mean
        int heavy = 0;
        for (IX i = 0; i < nr; i++) { u64 cnt = 0; for (IX e = 0; e < I.N; e++) cnt += (I.r[e] >= er[i]) & (I.r[e] < er[i + 1]); if (gs_conc(cnt) * nr > 2 * (u64)I.N) heavy = 1; }
        gs_check(A->balanced == !heavy, "balanced exactly when no block-row holds more than twice the mean"); if (heavy) gs_cover("heavy"); else gs_cover("even");
      }
#endif
#if FMT != 3
#if FMT == 4
      if (!A->balanced)
#endif
      for (IX i = 0; i < nr; i++) {
        auto& c = A->partition[i].chunks; size_t n = c.size();
        gs_check(n >= 2 && c[0] == A->blockrow_ptr[i] && c[n - 1] == A->blockrow_ptr[i + 1], "chunks cover the block-row");
        for (size_t t = 1; t < n; t++) gs_check(c[t - 1] <= c[t], "chunks are in order");
      }
#endif
#endif
    }
    release(*A); delete A; release(B);
  }
  if (leak) {
#if FMT < 4 || FMT == 6
    if (ro) ro = co = 0; // released with the matrix
#endif
    gs_leak_check("constructing, multiplying and releasing");
  }
  delete[] er; delete[] ec; freeInput(I);
  gs_cover("end");
}
