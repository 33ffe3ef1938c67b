// OpenMP runtime for the race-detection build: the entry points clang's front end
// emits, on top of pthreads, so that ThreadSanitizer knows every ordering OpenMP
// gives (fork, join, barrier, critical, reduction) and none that it does not.
// Also: small random delays at every runtime call to vary the interleaving.
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <vector>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#define NOTSAN __attribute__((no_sanitize("thread"), noinline))
typedef void (*kmpc_micro)(int32_t *, int32_t *, ...);
typedef int32_t kmp_critical_name[8];
extern "C" { void __tsan_acquire(void *); void __tsan_release(void *); }

extern "C" NOTSAN void hv_acq(void *p, int32_t size) {
  uintptr_t a = (uintptr_t)p, w = a & ~(uintptr_t)7;
  if (size == 4) { __tsan_acquire(p); return; }
  __tsan_acquire((void *)w); __tsan_acquire((void *)(w + 4));
}
extern "C" NOTSAN void hv_rel(void *p, int32_t size) {
  uintptr_t a = (uintptr_t)p, w = a & ~(uintptr_t)7;
  if (size == 4) { __tsan_release(p); return; }
  __tsan_release((void *)w); __tsan_release((void *)(w + 4));
}

namespace {
struct Dispatch { long lb, ub, st, chunk, next; unsigned id; bool init; };
// state the detector must not see: claims of single regions and loop chunks give no ordering
struct Hidden { volatile int lock; unsigned singlesDone; Dispatch ring[8]; };
struct Team {
  int n; kmpc_micro fn; void *args[64]; int argc; int icv;
  pthread_mutex_t bm; pthread_cond_t bc; int arrived; unsigned phase;
  pthread_mutex_t dm;          // worksharing bookkeeping (see Dispatch), not visible to the detector
  pthread_mutex_t rm;          // reductions
  pthread_mutex_t jm; pthread_cond_t jc; int left;
  void *copypriv;
  Hidden h;
};
struct Self { int tid = 0; Team *team = NULL; int icv = 0; int level = 0, active = 0; unsigned singles = 0, loops = 0; uint64_t rng = 0; Dispatch own; };
thread_local Self me;
int defaultThreads = 4;
NOTSAN Hidden *hidden() { return &me.team->h; }
NOTSAN void hlock(Hidden *h) { while (__atomic_exchange_n(&h->lock, 1, __ATOMIC_RELAXED)) sched_yield(); __asm__ __volatile__("" ::: "memory"); }
NOTSAN void hunlock(Hidden *h) { __asm__ __volatile__("" ::: "memory"); __atomic_store_n(&h->lock, 0, __ATOMIC_RELAXED); }

NOTSAN void jitter() {
  uint64_t x = me.rng; if (!x) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); x = (uint64_t)t.tv_nsec * 0x9E3779B97F4A7C15ull ^ (uint64_t)(uintptr_t)&me; x |= 1; }
  x ^= x << 13; x ^= x >> 7; x ^= x << 17; me.rng = x;
  unsigned k = (x >> 30) & 31;
  if (k < 4) sched_yield(); else if (k < 8) for (volatile int i = 0; i < (int)((x >> 10) & 2047); i = i + 1) {} else if (k == 8) usleep((x >> 40) & 63);
}
struct Worker { pthread_t th; pthread_mutex_t m; pthread_cond_t c; Team *team; int tid; int icv; bool quit; };
// every user thread has workers of its own, ended with it
struct Mine { std::vector<Worker *> v; ~Mine() { for (auto w : v) { pthread_mutex_lock(&w->m); w->quit = true; pthread_cond_signal(&w->c); pthread_mutex_unlock(&w->m); pthread_join(w->th, NULL); delete w; } } };
thread_local Mine mine;
#define pool mine.v

void call(kmpc_micro f, int tid, int argc, void **a) {
  int32_t g = tid, b = tid;
  switch (argc) {
#define A(i) a[i]
  case 0: f(&g, &b); break;
  case 1: f(&g, &b, A(0)); break;
  case 2: f(&g, &b, A(0), A(1)); break;
  case 3: f(&g, &b, A(0), A(1), A(2)); break;
  case 4: f(&g, &b, A(0), A(1), A(2), A(3)); break;
  default: {
    // the x86-64 calling convention passes surplus pointers on the stack: the
    // callee ignores those it does not declare
    if (argc > 48) { fprintf(stderr, "vomp: too many shared variables\n"); abort(); }
#define A8(k) a[k], a[k+1], a[k+2], a[k+3], a[k+4], a[k+5], a[k+6], a[k+7]
    f(&g, &b, A8(0), A8(8), A8(16), A8(24), A8(32), A8(40)); }
  }
}
void run(Team *t, int tid, int icv, int level, int active) {
  Self s = me; uint64_t q = me.rng;
  me.tid = tid; me.team = t; me.icv = icv; me.level = level; me.active = active; me.singles = me.loops = 0;
  jitter();
  call(t->fn, tid, t->argc, t->args);
  q = me.rng; me = s; me.rng = q;
}
void *worker(void *p) {
  Worker *w = (Worker *)p;
  for (;;) {
    pthread_mutex_lock(&w->m); while (!w->team && !w->quit) pthread_cond_wait(&w->c, &w->m); if (w->quit) { pthread_mutex_unlock(&w->m); return NULL; } Team *t = w->team; int tid = w->tid, icv = w->icv; w->team = NULL; pthread_mutex_unlock(&w->m);
    run(t, tid, icv, 1, 1);
    pthread_mutex_lock(&t->jm); if (--t->left == 0) pthread_cond_signal(&t->jc); pthread_mutex_unlock(&t->jm);
  }
  return NULL;
}
void teamInit(Team &t, int n) { memset(&t, 0, sizeof t); t.n = n; pthread_mutex_init(&t.bm, 0); pthread_cond_init(&t.bc, 0); pthread_mutex_init(&t.dm, 0); pthread_mutex_init(&t.rm, 0); pthread_mutex_init(&t.jm, 0); pthread_cond_init(&t.jc, 0); }
void teamFini(Team &t) { pthread_mutex_destroy(&t.bm); pthread_cond_destroy(&t.bc); pthread_mutex_destroy(&t.dm); pthread_mutex_destroy(&t.rm); pthread_mutex_destroy(&t.jm); pthread_cond_destroy(&t.jc); }
thread_local int pushed = 0;
int icvOf() { if (!me.icv) me.icv = defaultThreads; return me.icv; }
long regionCount = 0, regionThreads = 0;
void fork(int n, int argc, kmpc_micro f, void **args) {
  int icv = icvOf(); Team t; teamInit(t, n); t.fn = f; t.argc = argc; memset(t.args, 0, sizeof t.args); for (int i = 0; i < argc && i < 64; ++i) t.args[i] = args[i];
  if (n == 1 || me.active) { t.n = 1; Self s = me; run(&t, 0, icv, me.level + 1, me.active); teamFini(t); return; }
  while ((int)pool.size() < n - 1) { Worker *w = new Worker; memset(w, 0, sizeof *w); pthread_mutex_init(&w->m, 0); pthread_cond_init(&w->c, 0); pool.push_back(w); if (pthread_create(&w->th, NULL, worker, w)) { perror("pthread_create"); abort(); } }
  __atomic_fetch_add(&regionCount, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&regionThreads, n, __ATOMIC_RELAXED);
  t.left = n - 1;
  for (int i = 1; i < n; ++i) { Worker *w = pool[i - 1]; pthread_mutex_lock(&w->m); w->tid = i; w->icv = icv; w->team = &t; pthread_cond_signal(&w->c); pthread_mutex_unlock(&w->m); }
  run(&t, 0, icv, 1, 1);
  pthread_mutex_lock(&t.jm); while (t.left) pthread_cond_wait(&t.jc, &t.jm); pthread_mutex_unlock(&t.jm);
  teamFini(t);
}
void barrier() {
  Team *t = me.team; if (!t || t->n == 1) return;
  jitter();
  pthread_mutex_lock(&t->bm); unsigned ph = t->phase;
  if (++t->arrived == t->n) { t->arrived = 0; ++t->phase; pthread_cond_broadcast(&t->bc); } else while (t->phase == ph) pthread_cond_wait(&t->bc, &t->bm);
  pthread_mutex_unlock(&t->bm);
  jitter();
}
pthread_mutex_t critTable = PTHREAD_MUTEX_INITIALIZER;
struct Crit { void *name; pthread_mutex_t m; };
std::vector<Crit *> crits;
pthread_mutex_t *critOf(void *name) {
  pthread_mutex_lock(&critTable); Crit *r = NULL; for (auto c : crits) if (c->name == name) r = c;
  if (!r) { r = new Crit; r->name = name; pthread_mutex_init(&r->m, 0); crits.push_back(r); }
  pthread_mutex_unlock(&critTable); return &r->m;
}
template <class I> void staticInit(int32_t sched, int32_t *last, I *lb, I *ub, I *st, I incr, I chunk) {
  Team *t = me.team; long n = t ? t->n : 1, tid = me.tid; jitter();
  long L = *lb, U = *ub, S = incr; if (n == 1) { if (last) *last = 1; *st = S > 0 ? U - L + 1 : L - U + 1; return; }
  long trip = S > 0 ? (U - L) / S + 1 : (L - U) / (-S) + 1;
  if ((S > 0 && U < L) || (S < 0 && L < U)) { if (last) *last = 0; *st = incr; return; }
  sched &= ~(3 << 29);
  if (sched == 33 || sched == 42 || sched == 45) {   // chunked
    if (chunk < 1) chunk = 1; long span = chunk * S; *st = span * n; *lb = L + span * tid; *ub = *lb + span - S;
    if (last) *last = tid == ((trip - 1) / chunk) % n;
    return;
  }
  if (tid >= trip) { *lb = U + S; *ub = U; *st = trip; if (last) *last = 0; return; }   // no iterations: lower above upper
  long per = trip / n, ex = trip % n, b = tid * per + (tid < ex ? tid : ex), c = per + (tid < ex ? 1 : 0);
  *lb = L + b * S; *ub = L + (b + c) * S - S; *st = trip;
  if (last) *last = c > 0 && b + c == trip;
}
NOTSAN void dispatchInit(long lb, long ub, long st, long chunk) { me.own.lb = lb; me.own.ub = ub; me.own.st = st; me.own.chunk = chunk < 1 ? 1 : chunk; me.own.id = ++me.loops; me.own.init = true; me.own.next = 0; }
NOTSAN bool dispatchNext(long *lb, long *ub, long *st, int32_t *last) {
  Team *t = me.team; long trip = me.own.st > 0 ? (me.own.ub - me.own.lb) / me.own.st + 1 : (me.own.lb - me.own.ub) / (-me.own.st) + 1;
  if ((me.own.st > 0 && me.own.ub < me.own.lb) || (me.own.st < 0 && me.own.lb < me.own.ub)) trip = 0;
  long k;
  if (!t || t->n == 1) { k = me.own.next; me.own.next += me.own.chunk; }
  else { Hidden *h = hidden(); hlock(h); Dispatch &d = h->ring[me.own.id & 7]; if (!d.init || d.id != me.own.id) { d.init = true; d.id = me.own.id; d.next = 0; } k = d.next; if (k < trip) d.next += me.own.chunk; hunlock(h); }
  if (k >= trip) return false;
  long e = k + me.own.chunk; if (e > trip) e = trip;
  *lb = me.own.lb + k * me.own.st; *ub = me.own.lb + (e - 1) * me.own.st; if (st) *st = me.own.st; if (last) *last = e == trip;
  return true;
}
NOTSAN bool claimSingle() {
  Team *t = me.team; if (!t || t->n == 1) return true;
  unsigned k = ++me.singles; Hidden *h = hidden(); hlock(h); bool mine = h->singlesDone < k; if (mine) h->singlesDone = k; hunlock(h); return mine;
}
}
extern "C" {
int omp_get_num_threads(void) { return me.team ? me.team->n : 1; }
int omp_get_thread_num(void) { return me.tid; }
int omp_get_max_threads(void) { return icvOf(); }
void omp_set_num_threads(int n) { me.icv = n < 1 ? 1 : n; }
int omp_in_parallel(void) { return me.active; }
int omp_get_num_procs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; } void omp_set_nested(int) {} int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return me.level; } int omp_get_active_level(void) { return me.active; } int omp_get_thread_limit(void) { return 1024; }
struct VLock { void *p; };
void omp_init_lock(VLock *l) { pthread_mutex_t *m = new pthread_mutex_t; pthread_mutex_init(m, 0); l->p = m; }
void omp_destroy_lock(VLock *l) { pthread_mutex_destroy((pthread_mutex_t *)l->p); delete (pthread_mutex_t *)l->p; }
void omp_set_lock(VLock *l) { jitter(); pthread_mutex_lock((pthread_mutex_t *)l->p); }
void omp_unset_lock(VLock *l) { pthread_mutex_unlock((pthread_mutex_t *)l->p); }
int omp_test_lock(VLock *l) { return pthread_mutex_trylock((pthread_mutex_t *)l->p) == 0; }

long hv_regions(void) { return regionCount; }
long hv_region_threads(void) { return regionThreads; }
int32_t __kmpc_global_thread_num(void *) { return me.tid; }
void __kmpc_push_num_threads(void *, int32_t, int32_t n) { pushed = n; }
void __kmpc_fork_call(void *, int32_t argc, kmpc_micro f, ...) {
  void *a[64]; va_list ap; va_start(ap, f); for (int i = 0; i < argc && i < 64; ++i) a[i] = va_arg(ap, void *); va_end(ap);
  int n = pushed > 0 ? pushed : icvOf(); pushed = 0; fork(n, argc, f, a);
}
void __kmpc_serialized_parallel(void *, int32_t) {
  pushed = 0; Team *t = new Team; teamInit(*t, 1); Self *s = new Self(me); t->args[0] = s; me.team = t; me.tid = 0; me.level++; me.singles = me.loops = 0;
}
void __kmpc_end_serialized_parallel(void *, int32_t) { Team *t = me.team; Self *s = (Self *)t->args[0]; uint64_t q = me.rng; me = *s; me.rng = q; delete s; teamFini(*t); delete t; }
void __kmpc_fork_call_if(void *, int32_t argc, kmpc_micro f, int32_t cond, void *args) {
  void *a[1] = {args}; int n = cond ? (pushed > 0 ? pushed : icvOf()) : 1; pushed = 0; fork(n, argc > 0 ? 1 : 0, f, a);
}
void __kmpc_push_proc_bind(void *, int32_t, int) {}
void __kmpc_barrier(void *, int32_t) { barrier(); }
void __kmpc_flush(void *) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
int32_t __kmpc_master(void *, int32_t) { return me.tid == 0; }
void __kmpc_end_master(void *, int32_t) {}
int32_t __kmpc_masked(void *, int32_t, int32_t f) { return me.tid == f; }
void __kmpc_end_masked(void *, int32_t) {}
int32_t __kmpc_single(void *, int32_t) { jitter(); return claimSingle(); }
void __kmpc_end_single(void *, int32_t) {}
void __kmpc_copyprivate(void *, int32_t, size_t, void *data, void (*cpy)(void *, void *), int32_t did) {
  Team *t = me.team; if (!t || t->n == 1) return; if (did) t->copypriv = data; barrier(); if (!did) cpy(data, t->copypriv); barrier();
}
void __kmpc_critical(void *, int32_t, kmp_critical_name *c) { jitter(); pthread_mutex_lock(critOf(c)); }
void __kmpc_critical_with_hint(void *, int32_t, kmp_critical_name *c, uint32_t) { jitter(); pthread_mutex_lock(critOf(c)); }
void __kmpc_end_critical(void *, int32_t, kmp_critical_name *c) { pthread_mutex_unlock(critOf(c)); }
static void redLock() { if (me.team && me.team->n > 1) pthread_mutex_lock(&me.team->rm); }
static void redUnlock() { if (me.team && me.team->n > 1) pthread_mutex_unlock(&me.team->rm); }
int32_t __kmpc_reduce_nowait(void *, int32_t, int32_t, size_t, void *, void (*)(void *, void *), kmp_critical_name *) { jitter(); redLock(); return 1; }
void __kmpc_end_reduce_nowait(void *, int32_t, kmp_critical_name *) { redUnlock(); }
int32_t __kmpc_reduce(void *, int32_t, int32_t, size_t, void *, void (*)(void *, void *), kmp_critical_name *) { jitter(); redLock(); return 1; }
void __kmpc_end_reduce(void *, int32_t, kmp_critical_name *) { redUnlock(); barrier(); }
void __kmpc_for_static_init_4(void *, int32_t, int32_t s, int32_t *l, int32_t *lb, int32_t *ub, int32_t *st, int32_t i, int32_t c) { staticInit<int32_t>(s, l, lb, ub, st, i, c); }
void __kmpc_for_static_init_4u(void *, int32_t, int32_t s, int32_t *l, uint32_t *lb, uint32_t *ub, int32_t *st, int32_t i, int32_t c) { long a = *lb, b = *ub, t = *st; staticInit<long>(s, l, &a, &b, &t, i, c); *lb = (uint32_t)a; *ub = (uint32_t)b; *st = (int32_t)t; }
void __kmpc_for_static_init_8(void *, int32_t, int32_t s, int32_t *l, int64_t *lb, int64_t *ub, int64_t *st, int64_t i, int64_t c) { staticInit<int64_t>(s, l, lb, ub, st, i, c); }
void __kmpc_for_static_init_8u(void *, int32_t, int32_t s, int32_t *l, uint64_t *lb, uint64_t *ub, int64_t *st, int64_t i, int64_t c) { staticInit<int64_t>(s, l, (int64_t *)lb, (int64_t *)ub, st, i, c); }
void __kmpc_for_static_fini(void *, int32_t) {}
#define DISP(sfx, T, ST) \
void __kmpc_dispatch_init_##sfx(void *, int32_t, int32_t, T lb, T ub, ST st, ST ch) { jitter(); dispatchInit((long)lb, (long)ub, (long)st, (long)ch); } \
int32_t __kmpc_dispatch_next_##sfx(void *, int32_t, int32_t *last, T *lb, T *ub, ST *st) { jitter(); long a, b, c; if (!dispatchNext(&a, &b, &c, last)) return 0; *lb = (T)a; *ub = (T)b; if (st) *st = (ST)c; return 1; } \
void __kmpc_dispatch_fini_##sfx(void *, int32_t) {}
DISP(4, int32_t, int32_t) DISP(4u, uint32_t, int32_t) DISP(8, int64_t, int64_t) DISP(8u, uint64_t, int64_t)
void __kmpc_dispatch_deinit(void *, int32_t) {}
// tasks run at once on the thread that creates them
struct VTask { void *shareds; int32_t (*routine)(int32_t, void *); int32_t part; void *d1, *d2; };
void *__kmpc_omp_task_alloc(void *, int32_t, int32_t, size_t sz, size_t shsz, int32_t (*r)(int32_t, void *)) { char *p = (char *)calloc(1, sz + shsz + 64); VTask *t = (VTask *)p; t->shareds = shsz ? p + (sz + 15) / 16 * 16 : NULL; t->routine = r; return t; }
int32_t __kmpc_omp_task(void *, int32_t g, void *t) { ((VTask *)t)->routine(g, t); free(t); return 0; }
int32_t __kmpc_omp_taskwait(void *, int32_t) { return 0; }
void __kmpc_taskgroup(void *, int32_t) {}
void __kmpc_end_taskgroup(void *, int32_t) {}
}
