// Harness interface: interpreted by the symbolic engine, implemented natively for replay (replay/gs_native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
typedef uint64_t u64;
extern "C" {
u64 gs_sym(const char* name, int bits);                 // arbitrary value of `bits` bits
u64 gs_range(const char* name, u64 lo, u64 hi);          // arbitrary value in [lo,hi]
float gs_fsym_f(const char* name);                       // arbitrary (exact-arithmetic) value
double gs_fsym_d(const char* name);
void gs_assume(int c);
void gs_check(int c, const char* msg);
void gs_check_f(float a, float b, const char* msg);      // equal as exact values
void gs_check_d(double a, double b, const char* msg);
void gs_cover(const char* name);
u64 gs_param(const char* name, u64 dflt);
u64 gs_conc(u64 v);                                      // split paths on the value
u64 gs_sel(int c, u64 a, u64 b);                         // branch-free selection
float gs_sel_f(int c, float a, float b);
double gs_sel_d(int c, double a, double b);
void gs_threads(u64 n);
void gs_observe(u64 v);
void gs_leak_mark(); void gs_leak_check(const char* what);
int gs_try(void (*fn)(void*), void* arg);                // 0 normal, 1000+code on exit()
int gs_try_abort(void (*fn)(void*), void* arg);          // additionally 2000 on abort/assert
int gs_symbolic();
void gs_stop();                                          // ends this path here
void gs_capture(const char* name);                       // from now on printed text goes to this file (null: stop)
void gs_disk(uint64_t cap);                              // from now on no file can grow beyond cap bytes (~0: no limit)
void gs_nospace(const char* name);                       // a file of this name that takes no byte (/dev/full)
void gs_tick(uint64_t ns);                               // advance the clock
void gs_zero_new(int on);                                // from now on new[] gives zeroed memory, as a fresh process mostly does
void gs_harness();
}
