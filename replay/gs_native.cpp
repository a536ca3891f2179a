// Native side of harness/gs.h: replays one case file (GS_CASE) produced by the engine against the real code.
#include "../harness/gs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <mutex>
#include <pthread.h>
#include <unistd.h>
#include <malloc.h>
#include <fcntl.h>
#include <csignal>
#include <sys/resource.h>
#include <atomic>
#define printf(...) (gs_capture(nullptr), printf(__VA_ARGS__))
extern "C" void omp_set_num_threads(int);
struct Case { std::map<std::string, u64> params; std::vector<std::pair<std::string, u64>> syms; std::vector<u64> obs; };
static Case* cs; static size_t pos, obsPos; static bool failed, obsBad;
static void load() {
  cs = new Case(); const char* fn = getenv("GS_CASE"); FILE* f = fn ? fopen(fn, "r") : nullptr; char line[4096];
  if (!f) { fprintf(stderr, "no case\n"); _exit(76); }
  while (fgets(line, sizeof line, f)) { char name[512]; unsigned long long v; int bits;
    if (sscanf(line, "param %500s %llu", name, &v) == 2) cs->params[name] = v;
    else if (sscanf(line, "sym %500s %d %llu", name, &bits, &v) == 3) cs->syms.push_back({name, v});
    else if (sscanf(line, "obs %llu", &v) == 1) cs->obs.push_back(v); }
  fclose(f);
}
static u64 next(const char* n) { if (pos >= cs->syms.size()) { if (failed) _exit(42); printf("REPLAY-DIVERGED after the recorded inputs (at %s)\n", n); fflush(stdout); _exit(77); } if (cs->syms[pos].first != n) { printf("REPLAY-DIVERGED %s instead of %s\n", n, cs->syms[pos].first.c_str()); fflush(stdout); _exit(77); } return cs->syms[pos++].second; }
static void failNow(const char* what, const char* msg) { printf("REPLAY-FAIL %s: %s\n", what, msg); fflush(stdout); failed = true; }
extern "C" {
u64 gs_sym(const char* n, int) { return next(n); }
u64 gs_range(const char* n, u64, u64) { return next(n); }
float gs_fsym_f(const char* n) { uint32_t b = (uint32_t)next(n); float f; memcpy(&f, &b, 4); return f; }
double gs_fsym_d(const char* n) { u64 b = next(n); double d; memcpy(&d, &b, 8); return d; }
void gs_assume(int c) { if (!c) { if (failed) _exit(42); printf("REPLAY-INFEASIBLE\n"); fflush(stdout); _exit(78); } }
void gs_check(int c, const char* m) { if (!c) failNow("check", m); }
void gs_check_f(float a, float b, const char* m) { if (!(a == b)) { char t[512]; snprintf(t, sizeof t, "%s (%.9g instead of %.9g)", m, a, b); failNow("check", t); } }
void gs_check_d(double a, double b, const char* m) { if (!(a == b)) { char t[512]; snprintf(t, sizeof t, "%s (%.17g instead of %.17g)", m, a, b); failNow("check", t); } }
void gs_cover(const char*) {}
u64 gs_param(const char* n, u64 d) { auto it = cs->params.find(n); return it == cs->params.end() ? d : it->second; }
u64 gs_conc(u64 v) { return v; }
u64 gs_sel(int c, u64 a, u64 b) { return c ? a : b; }
float gs_sel_f(int c, float a, float b) { return c ? a : b; }
double gs_sel_d(int c, double a, double b) { return c ? a : b; }
void gs_threads(u64 n) { omp_set_num_threads((int)n); }
void gs_observe(u64 v) { if (obsPos < cs->obs.size()) { if (cs->obs[obsPos] != v) { printf("REPLAY-OBS %zu: %llu expected %llu\n", obsPos, (unsigned long long)v, (unsigned long long)cs->obs[obsPos]); obsBad = true; } } obsPos++; }
int gs_symbolic() { return 0; }
}
// ---------------------------------------------------------------- exits
struct Try { jmp_buf jb; bool ab; Try* up; }; static Try* top; static pthread_t mainThr;
static bool onMain() { return pthread_equal(pthread_self(), mainThr); }
static int doTry(void (*fn)(void*), void* a, bool ab) { Try* t = new Try(); t->ab = ab; t->up = top; int r = setjmp(t->jb); if (!r) { top = t; fn(a); } top = t->up; delete t; return r; }
extern "C" {
int gs_try(void (*fn)(void*), void* a) { return doTry(fn, a, false); }
int gs_try_abort(void (*fn)(void*), void* a) { return doTry(fn, a, true); }
static int savedOut = -1;
void gs_capture(const char* n) { if (savedOut >= 0) { fflush(stdout); dup2(savedOut, 1); close(savedOut); savedOut = -1; } if (n) { fflush(stdout); savedOut = dup(1); int f = open(n, O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(f, 1); close(f); } }
static std::atomic<int64_t> clk_{0};
static std::atomic<uint32_t> rnd_{0};
int rand() { uint32_t r = rnd_ * 5 + 3; rnd_ = r; return (int)((r & 7) << 28); }
void gs_disk(u64 cap) { signal(SIGXFSZ, SIG_IGN); struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = cap >> 62 || cap > l.rlim_max ? l.rlim_max : cap; setrlimit(RLIMIT_FSIZE, &l); }
void gs_nospace(const char* n) { char t[64]; if (!strncmp(n, "/tmp/csbr_prepare/", 18)) { snprintf(t, sizeof t, "csbr_prepare_%s", n + 18); n = t; } remove(n); if (symlink("/dev/full", n)) { printf("REPLAY-DIVERGED no /dev/full\n"); _exit(77); } }
void gs_tick(u64 ns) { clk_ += (int64_t)ns; }
int64_t gsn_now() asm("_ZNSt6chrono3_V212system_clock3nowEv"); int64_t gsn_now() { return clk_ += 1000; }
int64_t gsn_now2() asm("_ZNSt6chrono3_V212steady_clock3nowEv"); int64_t gsn_now2() { return clk_ += 1000; }
static void finish(int);
void gs_stop() { finish(failed ? 42 : 0); _exit(0); }
void __real_exit(int) __attribute__((noreturn)); void __real_abort() __attribute__((noreturn));
void __wrap_exit(int c) { if (top && onMain()) longjmp(top->jb, 1000 + (c & 255)); finish(failed ? 42 : 0); _exit(0); }
void __wrap_abort() { if (top && top->ab && onMain()) longjmp(top->jb, 2000); printf("REPLAY-FAIL abort\n"); fflush(stdout); _exit(44); }
void __wrap___assert_fail(const char* m, const char* f, unsigned l, const char*) { if (top && top->ab && onMain()) longjmp(top->jb, 2000); printf("REPLAY-FAIL assertion %s at %s:%u\n", m, f, l); fflush(stdout); _exit(44); }
// streams closed twice
static void* open_[256]; static std::mutex fm; // streams that are open
int __wrap_system(const char* c) { printf("REPLAY system(%s) not executed\n", c ? c : ""); return 0; }
FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*);
FILE* __wrap_fopen(const char* n, const char* m) { char t[64]; if (n && !strncmp(n, "/tmp/csbr_prepare/", 18)) { snprintf(t, sizeof t, "csbr_prepare_%s", n + 18); n = t; } FILE* f = __real_fopen(n, m); if (f) { std::lock_guard<std::mutex> g(fm); for (auto& o : open_) if (!o) { o = f; break; } } return f; }
u64 gs_open_streams() { std::lock_guard<std::mutex> g(fm); u64 n = 0; for (auto& o : open_) n += o != nullptr; return n; }
int __wrap_fclose(FILE* f) { { std::lock_guard<std::mutex> g(fm); bool ok = false; for (auto& o : open_) if (f && o == f) { o = nullptr; ok = true; break; } if (!ok) { printf("REPLAY-FAIL runtime: fclose of a stream that is not open\n"); fflush(stdout); _exit(45); } } return fflush(f); } // kept allocated, so that no later stream gets the same address
}
static void finish(int c) { printf("REPLAY-END failed=%d obs=%zu/%zu%s\n", failed, obsPos, cs->obs.size(), obsBad ? " mismatch" : ""); fflush(stdout); _exit(c ? c : obsBad ? 79 : 0); }
#ifdef GSN_TRACK
// ---------------------------------------------------------------- tracked allocations
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real_aligned_alloc(size_t, size_t); }
struct Blk { size_t n; int kind; u64 seq; bool live; void* base; }; // kind 1 malloc 2 new 3 new[]
static std::map<void*, Blk>* blks; static std::recursive_mutex bm; static u64 seq_, mark_; static bool inside; static int fillb = -1;
static bool zeroNew;
static const char* kn(int k) { return k == 1 ? "malloc" : k == 2 ? "new" : "new[]"; }
static void* talloc(size_t n, int kind, size_t al) {
  std::lock_guard<std::recursive_mutex> g(bm); if (inside) return __real_malloc(n);
  if (n > (1u << 26)) { if (kind == 1) return nullptr; printf("REPLAY-FAIL allocation of %zu bytes\n", n); fflush(stdout); _exit(46); }
  inside = true; if (fillb < 0) { const char* e = getenv("GS_FILL"); fillb = e ? (int)strtoul(e, 0, 0) : 0x47; } if (!blks) blks = new std::map<void*, Blk>();
  if (al < 64) al = 64; char* b = (char*)memalign(al, al + n + 64); char* p = b + al; memset(p, zeroNew && kind == 3 ? 0 : fillb, n); memset(p + n, 0xEE, 64); memset(p - 64, 0xEE, 64); (*blks)[p] = {n, kind, ++seq_, true, b}; inside = false; return p;
}
static void chk(void* p, Blk& b) { for (int i = 0; i < 64; i++) if (((unsigned char*)p)[b.n + i] != 0xEE || ((unsigned char*)p)[-1 - i] != 0xEE) { failNow("oob", "write outside an allocation"); memset((char*)p + b.n, 0xEE, 64); memset((char*)p - 64, 0xEE, 64); } }
static void tfree(void* p, int kind) {
  if (!p) return; std::lock_guard<std::recursive_mutex> g(bm); if (inside || !blks) { __real_free(p); return; }
  auto it = blks->find(p); if (it == blks->end()) { if (kind == 1) { __real_free(p); return; } failNow("badfree", "release of a pointer that is not an allocation"); return; }
  if (!it->second.live) { failNow("doublefree", "memory released twice"); return; } if (it->second.kind != kind) { char t[128]; snprintf(t, 128, "%s memory released as %s", kn(it->second.kind), kn(kind)); failNow("mismatch", t); }
  chk(p, it->second); it->second.live = false; memset(p, 0xDD, it->second.n);
}
extern "C" {
void* __wrap_malloc(size_t n) { return talloc(n, 1, 16); } void __wrap_free(void* p) { tfree(p, 1); }
void* __wrap_calloc(size_t a, size_t b) { if (b && a > (1u << 26) / b) return nullptr; void* p = talloc(a * b, 1, 16); if (p) memset(p, 0, a * b); return p; }
void* __wrap_aligned_alloc(size_t a, size_t n) { return talloc(n, 1, a); }
void* __wrap_realloc(void* p, size_t n) { if (!p) return talloc(n, 1, 16); std::lock_guard<std::recursive_mutex> g(bm); auto it = blks ? blks->find(p) : decltype(blks->find(p))(); if (!blks || it == blks->end()) return __real_realloc(p, n); void* q = talloc(n, 1, 16); if (q) { memcpy(q, p, it->second.n < n ? it->second.n : n); tfree(p, 1); } return q; }
void gs_zero_new(int on) { zeroNew = on != 0; }
void gs_leak_mark() { mark_ = seq_; }
void gs_leak_check(const char* w) { size_t n = 0, by = 0; if (blks) for (auto& b : *blks) if (b.second.live) { chk(b.first, b.second); if (b.second.seq > mark_) { n++; by += b.second.n; } } if (n) { char t[256]; snprintf(t, 256, "%s: %zu blocks (%zu bytes) never released", w, n, by); failNow("leak", t); } }
}
void* operator new(size_t n) { return talloc(n, 2, 16); } void* operator new[](size_t n) { return talloc(n, 3, 16); }
#include <new>
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n > (1u << 26) ? nullptr : talloc(n, 2, 16); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return n > (1u << 26) ? nullptr : talloc(n, 3, 16); }
void operator delete(void* p) noexcept { tfree(p, 2); } void operator delete(void* p, size_t) noexcept { tfree(p, 2); } void operator delete[](void* p) noexcept { tfree(p, 3); } void operator delete[](void* p, size_t) noexcept { tfree(p, 3); }
void operator delete(void* p, const std::nothrow_t&) noexcept { tfree(p, 2); } void operator delete[](void* p, const std::nothrow_t&) noexcept { tfree(p, 3); }
#else
extern "C" { void gs_zero_new(int) {} void gs_leak_mark() {} void gs_leak_check(const char*) {} }
#endif
int main() { mainThr = pthread_self(); load(); gs_harness(); 
#ifdef GSN_TRACK
  if (blks) for (auto& b : *blks) if (b.second.live) chk(b.first, b.second);
#endif
  finish(failed ? 42 : 0); }
