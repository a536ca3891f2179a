// Files for the I/O harnesses: kept in memory by runtime/rt.cpp under the engine, real files in a scratch directory natively.
#pragma once
#include "mat.h"
#include <cstdio>
#include <cstdlib>
#include "mm_io/mm_io.c"
extern "C" u64 gs_open_streams(); // streams opened and not yet closed
struct Wr { FILE* f; Wr(const char* n) { f = fopen(n, "wb"); gs_check(f != 0, "harness file"); } template <class X> void operator()(X v) { fwrite(&v, sizeof v, 1, f); } void bytes(const void* p, size_t n) { if (n) fwrite(p, 1, n, f); } void done() { fclose(f); } };
struct Rd { FILE* f; const char* n; Rd(const char* n) : n(n) { f = fopen(n, "rb"); gs_check(f != 0, "the output file exists"); }
  template <class X> X get() { X v = 0; if (fread(&v, sizeof v, 1, f) != 1) gs_check(0, "the output file is complete"); return v; }
  void idx(IX e, const char* m) { IX v = get<IX>(); gs_check(v == e, m); }
  void val(VT e, const char* m) { VT v = get<VT>(); g_eq(v, e, m); }
  void done() { char c; gs_check(fread(&c, 1, 1, f) == 0, "nothing follows the data"); fclose(f); } };
inline void closed() { gs_check(gs_open_streams() == 0, "every stream is closed"); }
inline u64 fileSize(const char* n) { FILE* f = fopen(n, "rb"); if (!f) return 0; fseek(f, 0, SEEK_END); u64 k = (u64)ftell(f); fclose(f); return k; }
inline bool exists(const char* n) { FILE* f = fopen(n, "rb"); if (f) fclose(f); return f != 0; }

// the elements (r2,c2,v2), in any order, are exactly the elements (r,c,v): as many at each place, with the same sum
template <class V2> inline void sameElements(IX N, IX R, IX C, const IX* r, const IX* c, const VT* v, const IX* r2, const IX* c2, const V2* v2) {
  if (gs_param("pat", 0)) { // positions are fixed
    u64 n = (u64)R * C; int* d = new int[n](); VT *s = new VT[n](), *t = new VT[n]();
    for (IX k = 0; k < N; k++) { u64 p = (u64)r[k] * C + c[k], q = (u64)gs_conc(r2[k]) * C + gs_conc(c2[k]); d[p]++; s[p] = VT(s[p] + v[k]); gs_check(q < n, "element inside the matrix"); d[q]--; t[q] = VT(t[q] + (VT)v2[k]); }
    for (IX k = 0; k < N; k++) { u64 p = (u64)r[k] * C + c[k]; gs_check(d[p] == 0, "elements at this place"); g_eq(t[p], s[p], "value at this place"); }
    delete[] d; delete[] s; delete[] t; return;
  }
  if (gs_param("nox", 0)) { // as many in both lists (checked by the caller), and at the place of each element
    for (IX l = 0; l < N; l++) {
      u64 a = 0, b = 0; VT s = 0, t = 0;
      for (IX k = 0; k < N; k++) { int e = (r[k] == r[l]) & (c[k] == c[l]), g = (r2[k] == r[l]) & (c2[k] == c[l]); a += (u64)e; b += (u64)g; s = VT(s + g_sel(e, v[k], VT(0))); t = VT(t + g_sel(g, (VT)v2[k], VT(0))); }
      gs_check(a == b, "elements at this place"); g_eq(t, s, "value at this place");
    }
    return;
  }
  for (IX i = 0; i < R; i++) for (IX j = 0; j < C; j++) {
    u64 a = 0, b = 0; VT s = 0, t = 0;
    for (IX k = 0; k < N; k++) { int e = (r[k] == i) & (c[k] == j), g = (r2[k] == i) & (c2[k] == j); a += (u64)e; b += (u64)g; s = VT(s + g_sel(e, v[k], VT(0))); t = VT(t + g_sel(g, (VT)v2[k], VT(0))); }
    gs_check(a == b, "elements at this place"); g_eq(t, s, "value at this place");
  }
}
