// The disk fills up while a file is written: no file can hold more than `cap` bytes from then on.
// KIND 1 arrays, 2 one-file COO, 3 three-file COO, 4 blocked, 5 MatrixMarket, 6 mm_write_mtx_crd
#include "gsio.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
#ifndef SRC
#define SRC Coo2
#endif
// any number of bytes; text is longer or shorter than its model, so there it is far from what is needed
static u64 capacity() { u64 c = gs_sym("cap", 64); if (KIND >= 5) gs_assume((c < (gs_param("big", 0) ? 4096 : 1)) | (c > 0xffffffff)); return c; }
extern "C" void gs_harness() {
  Input I; makeInput(I); IX N = I.N; u64 iw = sizeof(IX), vw = sizeof(VT), need, again = 0; char name[] = "m.out"; int *mr = 0, *mc = 0; double* mv = 0;
#if KIND == 1
  need = iw * N;
#elif KIND == 2
  need = 3 * iw + N * (2 * iw + vw);
#elif KIND == 3
  need = N * (iw > vw ? iw : vw);
#elif KIND == 4
  need = 6 * iw + N * (3 * iw + vw);
#else
  need = gs_param("big", 0) ? 8192 : 10;
#endif
#if KIND == 6
  MM_typecode t; mm_initialize_typecode(&t); mm_set_matrix(&t); mm_set_sparse(&t); u64 fld = gs_conc(gs_range("field", 0, 2)); t[2] = "RCP"[fld]; t[3] = 'G'; mr = new int[N + 1]; mc = new int[N + 1]; mv = new double[2 * N + 2](); for (IX i = 0; i < N; i++) { mr[i] = (int)gs_conc(I.r[i]) + 1; mc[i] = (int)gs_conc(I.c[i]) + 1; mv[i] = (double)I.v[i]; }
#elif KIND != 1
  SRC<VT, IX> A; fill(&A, I);
#endif
#if KIND == 4
  A.blockrows = A.blockcols = A.nnzblocks = 1; for (IX i = 0; i < N; i++) A.elements[i].block = 0;
#endif
  u64 cap = capacity(); gs_leak_mark();
  for (bool more = true; more; ) {
    more = !again && need > cap;
    gs_disk(again ? ~0ull : cap); int r;
#if KIND == 1
    r = write_bin_array(name, I.r, N);
#elif KIND == 2
    r = write_bin_COO(A, name);
#elif KIND == 3
    const char* F[] = {"m.row", name, "m.val"};
    if (!again) { u64 k = gs_conc(gs_range("nospace", 0, 3)); if (k) { gs_disk(~0ull); gs_nospace(F[k - 1]); r = write_bin_COO(&A, F[0], F[1], F[2]); closed(); gs_check(r < 0 || fileSize(F[k - 1]) == N * (k == 3 ? vw : iw), "one file without room is reported"); again = 1; remove(F[k - 1]); more = true; gs_cover("one"); continue; } }
    { u64 bad = again ? 0 : gs_conc(gs_range("unwritable", 0, 7)); // which of the three cannot be opened
      r = write_bin_COO(&A, bad & 1 ? "no/such/row" : "m.row", bad & 2 ? "no/such/col" : name, bad & 4 ? "no/such/val" : "m.val");
      if (bad) { gs_disk(~0ull); gs_check(r < 0, "a file that cannot be opened is reported"); closed(); gs_cover("unopened"); again = 1; continue; } }
#elif KIND == 4
    r = write_bin_blocked(A, name);
#elif KIND == 5
    r = write_mm_COO(&A, name);
#else
    r = mm_write_mtx_crd(name, (int)I.R, (int)I.C, (int)N, mr, mc, mv, t);
#endif
    gs_disk(~0ull); closed();
    if (!again && need > cap) { gs_check(KIND == 6 ? r != 0 : r < 0, "a write that does not reach the file is reported"); gs_cover("full"); }
    else { gs_check(r == 0, "a write that reaches the file succeeds"); if (KIND < 5 && KIND != 3) gs_check(fileSize(name) == need, "the file is complete"); if (KIND == 3) gs_check(fileSize("m.row") == N * iw && fileSize(name) == N * iw && fileSize("m.val") == N * vw, "the files are complete"); gs_cover("written"); }
    again = 1; } // with room again the same call succeeds
  gs_leak_check("written");
#if KIND == 6
  delete[] mr; delete[] mc; delete[] mv;
#elif KIND != 1
  release(A);
#endif
  freeInput(I); gs_cover("end");
}
