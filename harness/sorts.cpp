// The sorting routines: the result is ordered, stable and holds exactly the input elements.
#include "mat.h"
// KIND 1 row-major triplets, 2 column-major triplets, 3 row-major elements, 4 Morton (triplets), 5 Morton (elements), 6 block elements, 7 wide rows, 8 block triplets, 9 column-major elements
#if KIND == 3 || KIND == 5 || KIND == 6 || KIND == 9
typedef Element<uint32_t, IX> P;
#else
typedef Triplet<uint32_t, IX> P;
#endif
static u64 il(u64 r, u64 c) { u64 k = 0; for (int b = 0; b < 16; b++) k |= (((r >> b) & 1) << (2 * b)) | (((c >> b) & 1) << (2 * b + 1)); return k; }
extern "C" void gs_harness() {
  gs_threads(gs_param("threads", 2));
  IX n = dim("N", 0, 4), K = (IX)gs_param("K", 4); // indices below K
  bool inPar = gs_param("inpar", 0);
  P* a = new P[n + 1]; IX *r = new IX[n + 1], *c = new IX[n + 1]; IX *b = new IX[n + 1];
  IX width = KIND == 7 ? dim("W", 1, 3) : 1;
  IX nr = 2, nc = 2; IX ro[3], co[3];
  if (KIND == 8) { ro[0] = co[0] = 0; ro[2] = co[2] = K; ro[1] = (IX)gs_range("ro", 1, K - 1); co[1] = (IX)gs_range("co", 1, K - 1); if (!gs_param("symoff", 0)) { ro[1] = (IX)gs_conc(ro[1]); co[1] = (IX)gs_conc(co[1]); } }
  u64 pat = gs_param("pat", 0), lcg = pat, at = pat && n ? gs_conc(gs_range("at", 0, gs_param("at", 3))) * (n - 1) / (gs_param("at", 3) ? gs_param("at", 3) : 1) : 0; // large arrays: fixed keys but for one element
  for (IX i = 0; i < n; i++) {
    if (pat && i != at) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; r[i] = a[i].row = (IX)((lcg >> 33) % K); c[i] = a[i].col = (IX)((lcg >> 45) % K); a[i].val = i; b[i] = 0;
#if KIND == 6
      b[i] = a[i].block = (IX)((lcg >> 50) % K);
#endif
      continue; }
    r[i] = a[i].row = (IX)gs_range("r", 0, gs_param("Kr", K) - 1); c[i] = a[i].col = (IX)gs_range("c", 0, gs_param("Kc", K) - 1); a[i].val = i; b[i] = 0;
#if KIND == 6
    b[i] = a[i].block = (IX)gs_range("b", 0, K - 1);
#endif
  }
  a[n].row = r[n] = 0; a[n].col = 0; a[n].val = 12345; // must stay untouched
  gs_leak_mark();
  if (inPar) {
    #pragma omp parallel
    #pragma omp master
    {
#if KIND == 1 || KIND == 3
    sort_triplets(a, n, true);
#endif
    }
  } else {
#if KIND == 1
  if (gs_param("dflt", 0)) sort_triplets(a, n); else sort_triplets(a, n, true);
#elif KIND == 3
  sort_triplets(a, n);
#elif KIND == 2 || KIND == 9
  sort_triplets(a, n, false);
#elif KIND == 4 || KIND == 5
  sort_triplets_morton(a, n);
#elif KIND == 6
  sort_elements_blocks(a, n);
#elif KIND == 7
  sort_triplets_widerows(a, n, width);
#elif KIND == 8
  sort_triplets_blocks(a, n, ro, nr, co, nc);
#endif
  }
  gs_leak_check("sorting");
  gs_check(a[n].val == 12345 && a[n].row == 0 && a[n].col == 0, "nothing beyond the array is touched");
  // exactly the input elements: the tag in val names the original position
  u64 seen = 0; char* once = new char[n + 1]();
  for (IX i = 0; i < n; i++) {
    u64 t = a[i].val; gs_check(t < n, "an element of the input");
    if (pat) { t = gs_conc(t); gs_check(!once[t], "each element once"); once[t] = 1; } else { gs_check(((seen >> t) & 1) == 0, "each element once"); seen |= (u64)1 << t; }
    gs_check((a[i].row == r[t]) & (a[i].col == c[t]), "row and column stay with their element");
#if KIND == 6
    gs_check(a[i].block == b[t], "block stays with its element");
#endif
  }
  for (IX i = 1; i < n; i++) {
    P &p = a[i - 1], &q = a[i]; int lt = 0, eq = 0;
#if KIND == 1 || KIND == 3
    lt = (p.row < q.row) | ((p.row == q.row) & (p.col < q.col)); eq = (p.row == q.row) & (p.col == q.col);
#elif KIND == 2 || KIND == 9
    lt = (p.col < q.col) | ((p.col == q.col) & (p.row < q.row)); eq = (p.row == q.row) & (p.col == q.col);
#elif KIND == 4 || KIND == 5
    u64 x = il(p.row, p.col), y = il(q.row, q.col); lt = x < y; eq = x == y;
#elif KIND == 6
    lt = (p.block < q.block) | ((p.block == q.block) & ((p.row < q.row) | ((p.row == q.row) & (p.col < q.col)))); eq = (p.block == q.block) & (p.row == q.row) & (p.col == q.col);
#elif KIND == 7
    IX x = p.row / width, y = q.row / width; lt = (x < y) | ((x == y) & ((p.col < q.col) | ((p.col == q.col) & (p.row < q.row)))); eq = (p.row == q.row) & (p.col == q.col);
#elif KIND == 8
    IX pr = p.row >= ro[1], qr = q.row >= ro[1], pc = p.col >= co[1], qc = q.col >= co[1];
    lt = (pr < qr) | ((pr == qr) & ((pc < qc) | ((pc == qc) & ((p.row < q.row) | ((p.row == q.row) & (p.col < q.col))))));
    eq = (p.row == q.row) & (p.col == q.col);
    gs_check(lt | eq, "ordered"); continue; // equal positions: no order is promised
#endif
    gs_check(lt | (eq & (p.val < q.val)), "ordered, equal keys in their original order");
  }
  delete[] once; delete[] a; delete[] r; delete[] c; delete[] b;
  gs_cover("end");
}
