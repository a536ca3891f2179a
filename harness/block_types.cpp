// The formats used for single blocks and the factory that picks one.
#include "mat.h"
#include "matrix/csr.1.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "matrix/blocks.h"
#include "matrix/cgbr.h"
// FMT 1 BlockCoo, 2 BlockCoo2, 3 BlockCsr, 4 BlockCsrSerial, 5 BlockCsrParallel, 6 DenseSerial, 7 DenseParallel, 8 Coo(array), 9 BlockFactoryDefault, 10 MatrixBlock, 11 DenseSerial from Coo2
template <class E> static void arr(E* a, Input& I) { for (IX i = 0; i < I.N; i++) { a[i].row = I.r[i]; a[i].col = I.c[i]; a[i].val = I.v[i]; } }
static void rowSorted(Input& I) { for (IX i = 1; i < I.N; i++) gs_assume(I.r[i - 1] <= I.r[i]); } // documented precondition of CSR blocks
// an index the local type cannot hold may be refused, but not cut
static Input* in;
template <class F> static void build(F f) { if (!gs_param("refuse", 0)) { f(); return; } if (gs_try_abort([](void* p) { (*(F*)p)(); }, &f)) { int big = 0; for (IX i = 0; i < in->N; i++) big |= (in->r[i] != (SX)in->r[i]) | (in->c[i] != (SX)in->c[i]); gs_check(big, "only indices that do not fit are refused"); gs_cover("refused"); gs_cover("end"); gs_stop(); } }
extern "C" void gs_harness() {
  gs_threads(gs_param("threads", 2));
  int serial = gs_param("serial", 0), times = gs_param("times", 1); (void)serial;
  Input I; makeInput(I); in = &I;
  if ((FMT == 3 && gs_param("sorted", 0)) || FMT == 4 || FMT == 5 || FMT == 9 || FMT == 10) rowSorted(I);
  gs_leak_mark();
  {
    Element<VT, IX>* a = new Element<VT, IX>[I.N]; arr(a, I);
    VT* x0 = new VT[I.C]; for (IX i = 0; i < I.C; i++) x0[i] = I.x[i];
#if FMT == 1
    BlockCoo<VT, IX, SX> A; build([&] { Coo_to_Coo(&A, a, I.N); });
    gs_check(A.nonzeros() == I.N, "nonzeros()");
#elif FMT == 2
    BlockCoo2<VT, IX, SX> A; build([&] { Coo_to_Coo(&A, a, I.N); });
    gs_check(A.nonzeros() == I.N, "nonzeros()");
#elif FMT == 3
    BlockCsr<VT, IX, SX> A; build([&] { if (gs_param("sorted", 0)) Coo_to_Csr(&A, a, I.R, I.C, I.N); else Coo_to_Csr(&A, a, I.R, I.C, I.N, false); });
    gs_check(A.nonzeros() == I.N, "nonzeros()");
#elif FMT == 4
    BlockBase<VT, IX>* A = 0; build([&] { A = new BlockCsrSerial<VT, IX, SX>(a, I.R, I.C, I.N); });
#elif FMT == 5
    BlockBase<VT, IX>* A = 0; build([&] { A = new BlockCsrParallel<VT, IX, SX>(a, I.R, I.C, I.N); });
#elif FMT == 6
    BlockBase<VT, IX>* A = 0; build([&] { A = new DenseSerial<VT, IX>(a, I.R, I.C, I.N); });
#elif FMT == 7
    BlockBase<VT, IX>* A = 0; build([&] { A = new DenseParallel<VT, IX>(a, I.R, I.C, I.N); });
#elif FMT == 8
    BlockBase<VT, IX>* A = 0; build([&] { A = new Coo<VT, IX, SX>(a, I.N); });
#elif FMT == 9
    BlockBase<VT, IX>* A = 0; BlockFactoryDefault<VT, IX, SX> F; MatrixType t = BLOCK_COO; build([&] { t = F.create(&A, a, I.R, I.C, I.N); });
    gs_check(A && t >= 0 && t < MATRIX_TYPE_NUM, "the factory returns a block and its type");
    { // the type says which class the block is of: compare the virtual tables with those of known blocks
      Element<VT, IX> e; e.row = e.col = e.block = 0; e.val = 0; IX one = 1;
      Coo<VT, IX, SX> k1(&e, one); BlockCsrSerial<VT, IX, SX> k2(&e, one, one, one); BlockCsrParallel<VT, IX, SX> k3(&e, one, one, one); DenseSerial<VT, IX> k4(&e, one, one, one); DenseParallel<VT, IX> k5(&e, one, one, one);
      void *v = *(void**)A;
      gs_check(t == BLOCK_COO ? v == *(void**)&k1 : t == BLOCK_CSR ? v == *(void**)&k2 : t == BLOCK_CSR_PAR ? v == *(void**)&k3 : t == BLOCK_DENSE ? (v == *(void**)&k4 || v == *(void**)&k5) : true, "the reported type is the one built");
    }
    gs_cover(t == BLOCK_COO ? "coo" : t == BLOCK_CSR ? "csr" : t == BLOCK_CSR_PAR ? "csr-par" : "dense");
#elif FMT == 10
    MatrixBlock<VT, IX, SX> A; MatrixType t = BLOCK_COO; build([&] { t = Coo_to_MatrixBlock(&A, I.R, I.C, a, I.N); });
    gs_check(t == A.type && (t == BLOCK_COO || t == BLOCK_CSR || t == BLOCK_DENSE), "type of the block");
    gs_cover(t == BLOCK_COO ? "coo" : t == BLOCK_CSR ? "csr" : "dense");
    gs_check(A.nonzeros() == (t == BLOCK_DENSE ? I.R * I.C : I.N), "nonzeros()");
#elif FMT == 11
    DenseSerial<VT, IX> A; Coo2<VT, IX> B; fill(&B, I); Coo_to_Dense(&A, &B);
#endif
#if (FMT >= 4 && FMT <= 9)
    gs_check(A->nonzeros() == I.N, "nonzeros()");
    for (int t = 0; t < times; t++) A->spmv(I.x, I.y);
#elif FMT == 3 || FMT == 10
    for (int t = 0; t < times; t++) if (serial) A.spmv_serial(I.x, I.y); else A.spmv(I.x, I.y);
#else
    for (int t = 0; t < times; t++) A.spmv(I.x, I.y);
#endif
    checkResult(I, times, "y = y0 + A x");
    for (IX i = 0; i < I.C && I.C <= 8; i++) g_eq(I.x[i], x0[i], "x is unchanged");
#if FMT >= 4 && FMT <= 9
    delete A;
#elif FMT == 10
    release(&A);
#elif FMT == 11
    release(A); release(B);
#else
    release(A);
#endif
    delete[] a; delete[] x0;
  }
  gs_leak_check("block constructed, multiplied and released");
  freeInput(I);
  gs_cover("end");
}
