// A small OpenMP run-time on pthreads whose only synchronisation is what the directives promise; linked instead of
// libomp so that the thread sanitizer (and memcheck) see the real happens-before order. Chunks of dynamic loops go
// round robin, every task runs in a thread of its own until the next taskwait.
#include <pthread.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
typedef void (*micro_t)(int*, int*, ...);
struct Team { int n; pthread_barrier_t bar; pthread_mutex_t mu; std::vector<pthread_t> tasks; };
struct TaskCtx { std::vector<pthread_t> kids; };
static __thread void* curTask;
static __thread int tid, nthr = 1, level; static __thread Team* team; static __thread TaskCtx* tctx; static int maxthr = 4; static __thread int push_n;
struct Disp { int64_t lo, up, st, ch, k, trip; int n, t; }; static __thread Disp dsp[8]; static __thread int dtop;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static TaskCtx* ctx() { if (!tctx) tctx = new TaskCtx(); return tctx; }
static void waitKids() { TaskCtx* c = ctx(); while (!c->kids.empty()) { pthread_t t = c->kids.back(); c->kids.pop_back(); pthread_join(t, nullptr); } }
// Children a task leaves behind only have to end by the next barrier.
static void leave() { if (!tctx || tctx->kids.empty()) return; if (!team) { waitKids(); return; } pthread_mutex_lock(&team->mu); for (auto k : tctx->kids) team->tasks.push_back(k); pthread_mutex_unlock(&team->mu); tctx->kids.clear(); }
static void drain() { waitKids(); while (team) { pthread_mutex_lock(&team->mu); std::vector<pthread_t> v; v.swap(team->tasks); pthread_mutex_unlock(&team->mu); if (v.empty()) break; for (auto k : v) pthread_join(k, nullptr); } }
struct Arg { micro_t f; int tid, n; void* a[24]; Team* team; };
static void call(micro_t f, int* g, int* b, void** a) { f(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19]); }
static void* thr(void* p) { Arg* a = (Arg*)p; tid = a->tid; nthr = a->n; team = a->team; level = 1; int g = tid, b = 0; call(a->f, &g, &b, a->a); drain(); return nullptr; }
struct TArg { int (*f)(int, void*); void* t; int tid, n; Team* team; int level; };
static void* tthr(void* p) { TArg* a = (TArg*)p; tid = a->tid; nthr = a->n; team = a->team; level = a->level; curTask = a->t; a->f(tid, a->t); leave(); return nullptr; }
#include <cstdarg>
extern "C" {
void omp_set_num_threads(int n) { maxthr = n; } int omp_get_max_threads() { return maxthr; } int omp_get_num_threads() { return nthr; } int omp_get_thread_num() { return tid; } int omp_in_parallel() { return level > 0; } double omp_get_wtime() { return 0; } int omp_get_num_procs() { return maxthr; } void omp_set_dynamic(int) {} void omp_set_nested(int) {}
int __kmpc_global_thread_num(void*) { return tid; }
void __kmpc_push_num_threads(void*, int, int n) { push_n = n; }
void __kmpc_fork_call(void*, int argc, micro_t f, ...) {
  void* a[24] = {0}; va_list ap; va_start(ap, f); for (int i = 0; i < argc && i < 20; i++) a[i] = va_arg(ap, void*); va_end(ap);
  int n = push_n > 0 ? push_n : maxthr; push_n = 0;
  if (level > 0 || n <= 1) { int st = tid, sn = nthr, sl = level; tid = 0; nthr = 1; level = sl + 1; dtop++; int g = 0, b = 0; Team* t = team; team = nullptr; call(f, &g, &b, a); team = t; dtop--; tid = st; nthr = sn; level = sl; return; }
  Team* t = new Team(); t->n = n; pthread_barrier_init(&t->bar, nullptr, n); pthread_mutex_init(&t->mu, nullptr); std::vector<pthread_t> th(n); std::vector<Arg> ar(n);
  for (int i = 0; i < n; i++) { ar[i].f = f; ar[i].tid = i; ar[i].n = n; ar[i].team = t; memcpy(ar[i].a, a, sizeof a); pthread_create(&th[i], nullptr, thr, &ar[i]); }
  for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
}
void __kmpc_barrier(void*, int) { drain(); if (team) pthread_barrier_wait(&team->bar); }
int __kmpc_master(void*, int) { return tid == 0; } void __kmpc_end_master(void*, int) {} int __kmpc_masked(void*, int, int) { return tid == 0; } void __kmpc_end_masked(void*, int) {} int __kmpc_single(void*, int) { return tid == 0; } void __kmpc_end_single(void*, int) {}
void __kmpc_critical(void*, int, void*) { pthread_mutex_lock(&crit); } void __kmpc_end_critical(void*, int, void*) { pthread_mutex_unlock(&crit); } void __kmpc_flush(void*) {}
int __kmpc_reduce(void*, int, int, size_t, void*, void*, void*) { pthread_mutex_lock(&crit); return 1; } int __kmpc_reduce_nowait(void*, int, int, size_t, void*, void*, void*) { pthread_mutex_lock(&crit); return 1; } void __kmpc_end_reduce(void*, int, void*) { pthread_mutex_unlock(&crit); } void __kmpc_end_reduce_nowait(void*, int, void*) { pthread_mutex_unlock(&crit); }
struct kt { void* shareds; int (*routine)(int, void*); int part; void* d1; void* d2; };
void* __kmpc_omp_task_alloc(void*, int, int, size_t st, size_t ss, int (*f)(int, void*)) { st = (st + 15) / 16 * 16; char* p = (char*)calloc(1, st + ss + 16); kt* t = (kt*)p; t->shareds = ss ? p + st : nullptr; t->routine = f; return t; }
int __kmpc_omp_task(void*, int, void* t) { kt* k = (kt*)t; if (!team || nthr <= 1 || t == curTask) { k->routine(tid, k); return 0; } TArg* a = new TArg{k->routine, k, tid, nthr, team, level}; pthread_t th; pthread_create(&th, nullptr, tthr, a); ctx()->kids.push_back(th); return 0; }
int __kmpc_omp_taskwait(void*, int) { waitKids(); return 0; } void __kmpc_taskgroup(void*, int) {} void __kmpc_end_taskgroup(void*, int) { waitKids(); } void __kmpc_omp_task_begin_if0(void*, int, void*) {} void __kmpc_omp_task_complete_if0(void*, int, void*) {}
void __kmpc_serialized_parallel(void*, int) { level++; } void __kmpc_end_serialized_parallel(void*, int) { level--; }
void __kmpc_for_static_fini(void*, int) {} 
}
template <class T, class S> static void sinit(int sched, int* last, T* lo_, T* up_, S* st_, S inc, S ch) {
  int64_t lo = *lo_, up = *up_; int n = team ? nthr : 1, t = team ? tid : 0; if (ch < 1) ch = 1; int64_t trip = inc > 0 ? (up < lo ? 0 : (up - lo) / inc + 1) : (up > lo ? 0 : (lo - up) / -(int64_t)inc + 1);
  if (!trip) { *last = 0; *st_ = inc; return; }
  if (sched == 33 || sched == 91) { int64_t span = (int64_t)ch * inc; *st_ = (S)(span * n); *lo_ = (T)(lo + span * t); *up_ = (T)(lo + span * t + span - inc); *last = t == (trip - 1) / ch % n; }
  else { int64_t sm = trip / n, ex = trip % n, f = t * sm + (t < ex ? t : ex), c = sm + (t < ex); *lo_ = (T)(lo + f * inc); *up_ = (T)(lo + (f + c - 1) * inc); *st_ = (S)trip; *last = c > 0 && f + c == trip; }
}
static void dinit(int64_t lo, int64_t up, int64_t st, int64_t ch) { Disp& d = dsp[dtop]; d = {lo, up, st, ch < 1 ? 1 : ch, 0, 0, team ? nthr : 1, team ? tid : 0}; d.trip = st > 0 ? (up < lo ? 0 : (up - lo) / st + 1) : (up > lo ? 0 : (lo - up) / -st + 1); d.k = d.t * d.ch; }
template <class T, class S> static int dnext(int* last, T* lo, T* up, S* st) { Disp& d = dsp[dtop]; if (d.k >= d.trip) return 0; int64_t c = d.trip - d.k < d.ch ? d.trip - d.k : d.ch; *lo = (T)(d.lo + d.k * d.st); *up = (T)(d.lo + (d.k + c - 1) * d.st); *st = (S)d.st; *last = d.k + c >= d.trip; d.k += d.ch * d.n; return 1; }
extern "C" {
#define FAM(SUF, T, S) \
void __kmpc_for_static_init_##SUF(void*, int, int sched, int* l, T* lo, T* up, S* st, S inc, S ch) { sinit<T, S>(sched, l, lo, up, st, inc, ch); } \
void __kmpc_dispatch_init_##SUF(void*, int, int, T lo, T up, S st, S ch) { dinit((int64_t)lo, (int64_t)up, st, ch); } \
int __kmpc_dispatch_next_##SUF(void*, int, int* l, T* lo, T* up, S* st) { return dnext<T, S>(l, lo, up, st); } \
void __kmpc_dispatch_fini_##SUF(void*, int) {}
FAM(4, int32_t, int32_t) FAM(4u, uint32_t, int32_t) FAM(8, int64_t, int64_t) FAM(8u, uint64_t, int64_t)
}
