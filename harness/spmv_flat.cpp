// y := y + A x for the formats that store the whole matrix in one piece.
#include "mat.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#ifndef SRC
#define SRC Coo2
#endif
static void refused(void (*f)(void*), void* a, bool big) { if (gs_try_abort(f, a)) { gs_check(big, "only widths that do not fit are refused"); gs_cover("refused"); gs_cover("end"); gs_stop(); } } // an index the format cannot hold: refusing it is right
extern "C" void gs_harness() {
  gs_threads(gs_param("threads", 2));
  int times = gs_param("times", 1), serial = gs_param("serial", 0); (void)serial;
  Input I; makeInput(I);
  gs_leak_mark();
  {
    SRC<VT, IX> B; 
#if FMT != 0
    fill(&B, I);
#endif
#if FMT == 0   // three arrays
    Coo<VT, IX, IX> A; fill(&A, I);
#define MUL A.spmv(I.x, I.y)
#elif FMT == 1 // triplets / elements
    SRC<VT, IX> A; Coo_to_Coo(&A, &B);
#define MUL A.spmv(I.x, I.y)
#elif FMT == 2
    Csr<VT, IX> A; Coo_to_Csr(&A, &B);
#elif FMT == 3
    Csr2<VT, IX> A; Coo_to_Csr(&A, &B);
#elif FMT == 5
    CompRowCsr<VT, IX> A; Coo_to_CrCsr(&A, &B);
#define MUL do { if (serial) spmv_serial(&A, I.x, I.y); else spmv(&A, I.x, I.y); } while (0)
#elif FMT == 6
    IX width = dim("W", 1, 3);
    Cswr<VT, IX, SX> A; if (gs_param("refuse", 0)) { struct Z { Cswr<VT, IX, SX>* a; SRC<VT, IX>* b; IX w; } z = {&A, &B, width}; refused([](void* p) { Z* z = (Z*)p; Coo_to_Cswr(z->a, z->b, z->w); }, &z, (SX)(width - 1) != width - 1); } else Coo_to_Cswr(&A, &B, width);
#define MUL A.spmv(I.x, I.y)
#elif FMT == 7
    BlockDense<VT, IX> A; Coo_to_Dense(&A, &B);
#endif
#ifndef MUL
#define MUL do { if (serial) A.spmv_serial(I.x, I.y); else A.spmv(I.x, I.y); } while (0)
#endif
    VT* x0 = new VT[I.C]; for (IX i = 0; i < I.C; i++) x0[i] = I.x[i];
    for (int t = 0; t < times; t++) MUL;
    if (gs_param("leak", 0) == 0) {
      checkResult(I, times, "y = y0 + A x");
      for (IX i = 0; i < I.C && I.C <= 8; i++) g_eq(I.x[i], x0[i], "x is unchanged");
#if FMT == 2 || FMT == 3 || FMT == 5 || FMT == 6
      gs_check(A.nonzeros() == I.N, "nonzeros() is the number of stored elements");
#endif
    }
    delete[] x0;
#if FMT != 0
    release(A); release(B);
#endif
  }
  gs_leak_check("constructing, multiplying and releasing");
  freeInput(I);
  gs_cover("end");
}
