// Index arithmetic the formats are built on.
#if KIND == 9 // log2 of the matrix size is any number the solver wants; the native build uses the real one
#include "gs.h"
#include <cmath>
static double gs_log2(double x) { double l = (double)gs_range("log2", 0, 16); return gs_symbolic() ? l : std::log2(x); }
#endif
#if KIND == 9
#include <bits/stdc++.h>
#include <math.h>
#define log2 gs_log2
#endif
#include "mat.h"
#include "partition.h"
#include "permute.h"
#include "expand.h"
static u64 il(u64 r, u64 c) { u64 k = 0; for (int b = 0; b < 16; b++) k |= (((r >> b) & 1) << (2 * b)) | (((c >> b) & 1) << (2 * b + 1)); return k; }
#if KIND == 1 // next power of two, highest bit
extern "C" void gs_harness() {
  u64 n = gs_sym("n", 64); 
  u64 p = next_power_of_two(n);
  if (n >= 1 && n <= ((u64)1 << 63)) {
    gs_check((p & (p - 1)) == 0 && p != 0, "a power of two"); gs_check(p >= n, "not below n"); gs_check((p >> 1) < n, "the smallest");
    gs_cover("pow");
  }
  if (n) {
    unsigned h = highest_bit_set((uint64_t)n); gs_check(h < 64, "a bit position"); gs_check((n >> h) == 1, "highest bit (64 bits)");
    gs_check((int64_t)n < 0 ? highest_bit_set((int64_t)n) == -1 : highest_bit_set((int64_t)n) == (int64_t)h, "highest bit (signed 64 bits)");
    gs_cover("h64");
  }
  unsigned m = (unsigned)gs_sym("m", 32);
  if (m) {
    unsigned h = highest_bit_set(m); gs_check(h < 32, "a bit position"); gs_check((m >> h) == 1, "highest bit (32 bits)");
    gs_check((int)m < 0 ? highest_bit_set((int)m) == -1 : highest_bit_set((int)m) == (int)h, "highest bit (signed 32 bits)");
    gs_cover("h32");
  }
  gs_cover("end");
}
#elif KIND == 2 // Morton code
extern "C" void gs_harness() {
  uint32_t r = (uint32_t)gs_range("r", 0, 65535), c = (uint32_t)gs_range("c", 0, 65535);
  uint32_t k = bit_interleave(r, c);
  gs_check(k == (uint32_t)il(r, c), "bits of row and column alternate");
  uint32_t r2 = (uint32_t)gs_range("r2", 0, 65535), c2 = (uint32_t)gs_range("c2", 0, 65535);
  gs_check((bit_interleave(r2, c2) != k) | ((r2 == r) & (c2 == c)), "different positions have different codes");
  // quadrant order: whoever has the smaller quadrant comes first at every level
  for (int l = 0; l < 16; l += 5) gs_check(((k >> (2 * l)) & 3) == (((r >> l) & 1) | (((c >> l) & 1) << 1)), "quadrant of each level");
  uint64_t k64 = bit_interleave((uint64_t)r, (uint64_t)c); gs_check(k64 == il(r, c), "64-bit indices");
  gs_cover("end");
}
#elif KIND == 3 // block of an index, offsets from sizes, block identifiers
extern "C" void gs_harness() {
  IX n = dim("B", 1, 4), nc = dim("D", 1, 3); IX lim = (IX)gs_param("lim", 1000);
  IX *sz = new IX[n], *off = new IX[n + 1], *csz = new IX[nc], *coff = new IX[nc + 1];
  gs_leak_mark();
  for (IX i = 0; i < n; i++) sz[i] = gs_param("pat", 0) ? (IX)(i * 2654435761u >> 5) % (lim + 1) : (IX)gs_range("size", gs_param("zero", 1) ? 0 : 1, lim);
  for (IX i = 0; i < nc; i++) csz[i] = (IX)gs_range("csize", 1, lim);
  size_to_offset(off, sz, n); size_to_offset(coff, csz, nc);
  gs_check(off[0] == 0, "offsets start at zero");
  for (IX i = 0; i < n; i++) gs_check(off[i + 1] - off[i] == sz[i], "difference of offsets is the size");
  IX idx = (IX)gs_range("index", 0, (u64)lim * (n + 4)), cidx = (IX)gs_range("cindex", 0, (u64)lim * 8); gs_assume(idx < off[n]); gs_assume(cidx < coff[nc]);
  IX b = index_to_blockindex(off, n, idx);
  gs_check(b < n, "an existing block"); gs_check((off[b] <= idx) & (idx < off[b + 1]), "the block that contains the index");
  Element<float, IX> e[2]; e[0].row = idx; e[0].col = cidx; e[1].row = 0; e[1].col = coff[nc] - 1; e[0].val = e[1].val = 1;
  calculate_block_id(e, (IX)2, off, n, coff, nc);
  gs_check(e[0].block == b * nc + index_to_blockindex(coff, nc, cidx), "block identifier is row-major");
  gs_check(e[0].row == idx && e[0].col == cidx && e[1].row == 0 && e[1].col == coff[nc] - 1, "positions are kept");
  gs_check(e[1].block % nc == nc - 1, "block identifier of the last column");
  gs_leak_check("block lookup");
  delete[] sz; delete[] off; delete[] csz; delete[] coff;
  gs_cover("end");
}
#elif KIND == 4 // constant block size identifiers and counting
extern "C" void gs_harness() {
  IX n = dim("N", 0, 4), K = (IX)gs_param("K", 6);
  IX br = dim("S", 1, 4), bc = dim("Q", 1, 4), cols = dim("C", 1, 6); IX bcs = (cols + bc - 1) / bc;
  Element<float, IX>* e = new Element<float, IX>[n]; IX *r = new IX[n], *c = new IX[n];
  for (IX i = 0; i < n; i++) { r[i] = e[i].row = (IX)gs_range("r", 0, K - 1); c[i] = e[i].col = (IX)gs_range("c", 0, cols - 1); e[i].val = 1; }
  calculate_block_id(e, n, br, bc, bcs);
  for (IX i = 0; i < n; i++) {
    gs_check(e[i].block == (r[i] / br) * bcs + c[i] / bc, "block identifier is row-major"); gs_check(e[i].row == r[i] && e[i].col == c[i], "positions are kept");
    gs_check(e[i].block % bcs == c[i] / bc, "block column can be recovered");
  }
  // counting on a sorted array
  sort_elements_blocks(e, n);
  IX distinct = 0; for (IX i = 0; i < n; i++) distinct += (IX)((i == 0) || (e[i].block != e[i - 1].block));
  gs_check(count_blocks(e, n) == distinct, "number of non-zero blocks");
  sort_triplets(e, n, true);
  IX rows = 0; for (IX i = 0; i < n; i++) rows += (IX)((i == 0) || (e[i].row != e[i - 1].row));
  gs_check(count_nnz_rows(e, n) == rows, "number of non-zero rows");
  delete[] e; delete[] r; delete[] c;
  gs_cover("end");
}
#elif KIND == 5 // partition of a block-row, for any distribution of non-zeros
struct Mock { IX nnz; IX* cnt; IX block_nonzeros(IX i) const { return cnt[i]; } };
extern "C" void gs_harness() {
  int th = (int)gs_conc(gs_range("workers", 1, gs_param("maxw", 4))); gs_threads(th);
  IX nb = dim("N", 0, 5), lim = (IX)gs_param("lim", 1000);
  IX start = (IX)gs_conc(gs_range("start", 0, nb)), end = (IX)gs_conc(gs_range("end", 0, nb)); gs_assume(start <= end);
  Mock M; M.cnt = new IX[nb + 1]; IX sum = 0; for (IX i = 0; i < nb; i++) { M.cnt[i] = (IX)gs_range("nnz", 1, lim); sum += M.cnt[i]; }
  M.nnz = sum;
  gs_leak_mark();
  {
    BlockRowPartition<IX> P; partition_blockrow(&M, &P, start, end);
    if (gs_param("twice", 0)) partition_blockrow(&M, &P, start, end); // a second time gives the same
    size_t n = P.chunks.size();
    gs_check(n >= 2, "at least one chunk"); gs_check(P.nchunks() == n - 1, "nchunks()");
    gs_check(P.chunks[0] == start && P.chunks[n - 1] == end, "chunks cover the block-row");
    IX thr = sum * PARTITION_FACTOR / (PARTITION_FACTOR_INV * (IX)th);
    for (size_t i = 1; i < n; i++) {
      gs_check(P.chunks[i - 1] <= P.chunks[i], "chunks are in order");
      IX s = 0, nblk = P.chunks[i] - P.chunks[i - 1], last = 0, first = 0; for (IX k = P.chunks[i - 1]; k < P.chunks[i]; k++) { s += M.cnt[k]; last = M.cnt[k]; if (k == P.chunks[i - 1]) first = last; }
      // a chunk exceeds the threshold only by the block that crosses it (carried over) and the final block
      if (i + 1 < n) gs_check((nblk <= 1) | (s - first <= thr), "a chunk of several blocks stays within the threshold");
      else gs_check((nblk <= 2) | (s - first - last <= thr), "the last chunk stays within the threshold");
    }
  }
  gs_leak_check("partitioning");
  delete[] M.cnt;
  gs_cover("end");
}
#elif KIND == 6 // permutations
extern "C" void gs_harness() {
  gs_threads(gs_param("threads", 2));
  IX n = dim("N", 1, 4), m = dim("M", 0, 3);
  u64 pat = gs_param("pat", 0), step = gs_param("step", 60), last = gs_param("last", 0); IX lo = last ? n - (IX)last : 0; // a fixed permutation; some of the indices stay arbitrary
  IX* p = new IX[n]; if (pat) { u64 q = pat; for (IX i = 0; i < n; i++) p[i] = i; for (IX i = n; i > 1; i--) { q = q * 6364136223846793005ull + 1442695040888963407ull; IX k = (IX)((q >> 33) % i), t = p[i - 1]; p[i - 1] = p[k]; p[k] = t; } }
  else for (IX i = 0; i < n; i++) { p[i] = (IX)gs_range("p", 0, n - 1); for (IX k = 0; k < i; k++) gs_assume(p[i] != p[k]); if (gs_param("conc", 0)) p[i] = (IX)gs_conc(p[i]); }
  IX* p0 = new IX[n]; for (IX i = 0; i < n; i++) p0[i] = p[i];
  gs_leak_mark();
  IX* q = invert_permutation(p, n);
  for (IX i = 0; i < n; i++) { gs_check((q[i] < n), "the inverse is a permutation"); gs_check(q[p0[i]] == i, "inverse after permutation"); gs_check(p0[q[i]] == i, "permutation after inverse"); gs_check(p[i] == p0[i], "the permutation is kept"); }
  IX* ind = new IX[m + 1]; IX* i0 = new IX[m + 1]; for (IX i = 0; i < m; i++) ind[i] = i0[i] = pat && i % step ? (IX)((u64)i * 31 % n) : (IX)gs_range("i", lo, n - 1); ind[m] = 777;
  permute_indeces(ind, p, m);
  for (IX i = 0; i < m; i++) gs_check(ind[i] == p0[i0[i]], "every index is permuted once");
  permute_indeces(ind, q, m);
  for (IX i = 0; i < m; i++) gs_check(ind[i] == i0[i], "permuting back restores the indices");
  gs_check(ind[m] == 777, "nothing beyond the array is touched");
  Triplet<float, IX>* t = new Triplet<float, IX>[m]; IX* j0 = new IX[m + 1]; for (IX i = 0; i < m; i++) { t[i].row = i0[i]; j0[i] = t[i].col = pat && i % (step + 10) ? (IX)((u64)i * 17 % n) : (IX)gs_range("j", lo, n - 1); t[i].val = (float)i; }
  permute_indeces(t, m, p);
  for (IX i = 0; i < m; i++) gs_check(t[i].row == p0[i0[i]] && t[i].col == p0[j0[i]] && t[i].val == (float)i, "rows and columns are permuted, values kept");
  delete[] q; delete[] ind; delete[] i0; delete[] t; delete[] j0;
  gs_leak_check("permuting");
  delete[] p; delete[] p0;
  gs_cover("end");
}
#elif KIND == 7 // expansion of all blocks to one size
extern "C" void gs_harness() {
  gs_threads(gs_param("threads", 2));
  IX n = dim("B", 1, 3), m = dim("M", 0, 2), lim = (IX)gs_param("lim", 5);
  IX *sz = new IX[n], *off = new IX[n + 1]; IX mx = 0; IX tot = 0;
  for (IX i = 0; i < n; i++) { sz[i] = gs_param("pat", 0) ? 1 + (IX)(i * 2654435761u >> 7) % lim : (IX)gs_range("size", 1, lim); if (gs_param("conc", 0)) sz[i] = (IX)gs_conc(sz[i]); tot += sz[i]; mx = (IX)gs_sel(sz[i] > mx, sz[i], mx); }
  size_to_offset(off, sz, n);
  gs_leak_mark();
  IX bs = expand_block_size(sz, n);
  gs_check((bs & (bs - 1)) == 0 && bs >= mx && (bs >> 1) < mx, "the smallest power of two that holds every block");
  IX *ind = new IX[m + 1], *blk = new IX[m + 1], *in = new IX[m + 1], *jb = new IX[m + 1], *jn = new IX[m + 1]; Element<float, IX>* e = new Element<float, IX>[m];
  for (IX i = 0; i < m; i++) {
    u64 far = gs_param("pat", 0) && i % 32 != 0; blk[i] = far ? (IX)(i * 7 % n) : (IX)gs_conc(gs_range("b", 0, n - 1)); in[i] = (IX)gs_range("in", 0, lim - 1); gs_assume(in[i] < sz[blk[i]]);
    jb[i] = gs_param("pat", 0) ? (IX)(i * 5 % n) : (IX)gs_conc(gs_range("jb", 0, n - 1)); jn[i] = (IX)gs_range("jn", 0, lim - 1); gs_assume(jn[i] < sz[jb[i]]);
    ind[i] = off[blk[i]] + in[i];
    e[i].row = ind[i]; e[i].col = off[jb[i]] + jn[i]; e[i].val = (float)i; e[i].block = blk[i] * n + jb[i];
    gs_check(expand_index(off, n, bs, ind[i]) == blk[i] * bs + in[i], "an index keeps its block and its place in the block");
  }
  gs_check(expand_indeces(ind, m, sz, n) == bs, "size used for the indices");
  gs_check(expand_indeces(e, m, sz, off, n) == bs, "size used for the elements");
  for (IX i = 0; i < m; i++) {
    gs_check(ind[i] == blk[i] * bs + in[i], "index array");
    gs_check(e[i].row == blk[i] * bs + in[i] && e[i].col == jb[i] * bs + jn[i] && e[i].val == (float)i && e[i].block == blk[i] * n + jb[i], "elements move with their block");
  }
  delete[] ind; delete[] blk; delete[] in; delete[] jb; delete[] jn; delete[] e;
  gs_leak_check("expanding");
  delete[] sz; delete[] off;
  gs_cover("end");
}
#elif KIND == 8 // string_ends_with, for every pair of short strings
extern "C" void gs_harness() {
  char a[6], b[5]; int n = (int)gs_conc(gs_range("n", 0, 5)), m = (int)gs_conc(gs_range("m", 0, 4));
  for (int i = 0; i < n; i++) { a[i] = (char)gs_sym("a", 8); gs_assume(a[i] != 0); } a[n] = 0;
  for (int i = 0; i < m; i++) { b[i] = (char)gs_sym("b", 8); gs_assume(b[i] != 0); } b[m] = 0;
  int want = m <= n; if (want) for (int i = 0; i < m; i++) want &= a[n - m + i] == b[i];
  gs_check((string_ends_with(a, b) != 0) == (want != 0), "string_ends_with");
  gs_cover("end");
}
#elif KIND == 9 // block size selection
extern "C" void gs_harness() {
  int w = (int)gs_conc(gs_sel((int)gs_range("par", 0, 1), gs_range("workers", 2, gs_param("maxw", 64)), 1));
  size_t vs = gs_conc(gs_range("valsize", 0, 1)) ? 8 : 4;
  u64 top = (u64)1 << gs_param("bits", 31);
  IX m = (IX)gs_range("m", 1, top), n = (IX)gs_range("n", 1, top);
  IX b = pick_block_size(m, n, vs, w);
  gs_check((b & (b - 1)) == 0 && b != 0, "block size is a power of two");
  u64 lo = m < n ? m : n; 
  gs_check(b / 2 < lo || b == 1, "block is not larger than the padded matrix");
  gs_check((u64)b <= 65536, "positions inside a block fit the 16-bit local index");
  if (b > 1) gs_check((u64)b * vs <= 2 * (u64)L2SIZE, "a block's part of the vectors is about the cache");
  if (w > 1 && lo > (u64)SLACKNESS * w * 2) gs_check((u64)m / b + 1 >= (u64)SLACKNESS * w / 2, "enough block rows for the workers");
  gs_cover("end");
}
#endif
