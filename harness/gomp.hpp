// A small replacement of the GNU OpenMP runtime on plain pthreads: every parallel region starts and joins its own threads, so ThreadSanitizer
// sees exactly the ordering the OpenMP constructs promise (the real libgomp is not instrumented and would give false reports).
#pragma once
#include <pthread.h>
#include <sched.h>
#include <cstdlib>
#include <map>
#include <vector>
namespace gomp {
struct WorkShare { bool init = false; unsigned long long next = 0, end = 0, incr = 1, chunk = 1; bool up = true; int single = 0; unsigned sections = 0, taken = 0; void* copy = nullptr; unsigned long long ordered = 0; };
struct Team {
    unsigned n; pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; unsigned waiting = 0; unsigned long gen = 0; std::map<unsigned, WorkShare> ws;
    explicit Team(unsigned k) : n(k) {}
    void barrier() { pthread_mutex_lock(&mu); unsigned long g = gen; if (++waiting == n) { waiting = 0; gen++; pthread_cond_broadcast(&cv); } else while (gen == g) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); }
};
struct Ctx { Team* team = nullptr; unsigned tid = 0, seq = 0; WorkShare* cur = nullptr; };
inline Ctx& ctx() { static thread_local Ctx c; return c; }
inline unsigned& width() { static unsigned w = 4; return w; }
inline unsigned long& regions() { static unsigned long r = 0; return r; }
struct Lock { pthread_mutex_t& m; explicit Lock(pthread_mutex_t& x) : m(x) { pthread_mutex_lock(&m); } ~Lock() { pthread_mutex_unlock(&m); } };
inline pthread_mutex_t& global() { static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; return m; }
inline Team*& solo() { static thread_local Team* t = nullptr; return t; }
inline Team& team() { Ctx& c = ctx(); if (c.team) return *c.team; if (!solo()) solo() = new Team(1); return *solo(); }
struct Start { void (*fn)(void*); void* data; Team* t; unsigned tid; };
inline void* enter(void* p) { Start* s = (Start*)p; Ctx& c = ctx(); c = Ctx{s->t, s->tid, 0, nullptr}; s->fn(s->data); return nullptr; }
inline void parallel(void (*fn)(void*), void* data, unsigned n, WorkShare* first) {
    Ctx saved = ctx(); bool nested = saved.team != nullptr; if (nested) n = 1; else { if (!n) n = width(); regions()++; }
    Team t(n); if (first) t.ws[0] = *first; std::vector<Start> st(n); std::vector<pthread_t> th(n); for (unsigned k = 0; k < n; k++) st[k] = Start{fn, data, &t, k};
    for (unsigned k = 1; k < n; k++) if (pthread_create(&th[k], nullptr, enter, &st[k])) { perror("pthread_create"); _exit(2); }
    enter(&st[0]); ctx() = saved; for (unsigned k = 1; k < n; k++) pthread_join(th[k], nullptr);
}
inline WorkShare& share() { Ctx& c = ctx(); Team& t = team(); Lock l(t.mu); c.cur = &t.ws[c.seq++]; return *c.cur; }
inline bool take(unsigned long long& a, unsigned long long& b) {
    Ctx& c = ctx(); WorkShare& w = *c.cur; { Lock l(team().mu);
        if (w.up) { if ((long long)(w.end - w.next) <= 0 && !(w.end > w.next)) return false; unsigned long long left = (w.end - w.next + w.incr - 1) / w.incr, k = std::min(left, w.chunk ? w.chunk : 1); a = w.next; b = a + k * w.incr; if (b > w.end) b = w.end; w.next = a + k * w.incr; if (k == left) w.next = w.end; }
        else { long long lo = (long long)w.end, cur = (long long)w.next, inc = -(long long)w.incr; if (cur <= lo) return false; unsigned long long left = (cur - lo + inc - 1) / inc, k = std::min(left, w.chunk ? w.chunk : 1); a = cur; long long e = cur - (long long)k * inc; if (e < lo) e = lo; b = e; w.next = k == left ? lo : e; } }
    sched_yield(); return true;
}
inline void fill(WorkShare& w, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, bool up) { w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c; w.up = up; if (up && (long long)(e - s) < 0 && e < s) w.next = w.end; }
inline bool loopStart(long s, long e, long i, long c, long* a, long* b) { WorkShare& w = share(); { Lock l(team().mu); if (!w.init) { fill(w, s, e, i, c, i > 0); if (i > 0 && s > e) w.next = w.end; } } unsigned long long x, y; if (!take(x, y)) return false; *a = (long)x; *b = (long)y; return true; }
inline bool loopNext(long* a, long* b) { unsigned long long x, y; if (!take(x, y)) return false; *a = (long)x; *b = (long)y; return true; }
inline bool ullStart(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { WorkShare& w = share(); { Lock l(team().mu); if (!w.init) fill(w, s, e, i, c, up); } return take(*a, *b); }
// a signed loop over [s,e): bias so that the unsigned bookkeeping is monotone is not needed, differences are used
struct WrapLoop { void (*fn)(void*); void* data; };
inline void parallelLoop(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c) { WorkShare w; fill(w, s, e, i, c, i > 0); if (i > 0 && s > e) w.next = w.end; struct P { void (*fn)(void*); void* d; } p{fn, data}; parallel([](void* q) { P* x = (P*)q; Ctx& cx = ctx(); { Lock l(cx.team->mu); cx.cur = &cx.team->ws[0]; cx.seq = 1; } x->fn(x->d); }, &p, n, &w); }
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { gomp::parallel(fn, d, n, nullptr); }
void GOMP_barrier() { gomp::team().barrier(); }
bool GOMP_barrier_cancel() { gomp::team().barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { pthread_mutex_lock(&gomp::global()); }
void GOMP_critical_end() { pthread_mutex_unlock(&gomp::global()); }
static pthread_mutex_t* gomp_named(void** p) { gomp::Lock l(gomp::global()); if (!*p) *p = new pthread_mutex_t(PTHREAD_MUTEX_INITIALIZER); return (pthread_mutex_t*)*p; }
void GOMP_critical_name_start(void** p) { pthread_mutex_lock(gomp_named(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(gomp_named(p)); }
static pthread_mutex_t gomp_atomic = PTHREAD_MUTEX_INITIALIZER;
void GOMP_atomic_start() { pthread_mutex_lock(&gomp_atomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&gomp_atomic); }
bool GOMP_single_start() { gomp::WorkShare& w = gomp::share(); gomp::Lock l(gomp::team().mu); return w.single++ == 0; }
void* GOMP_single_copy_start() { gomp::WorkShare& w = gomp::share(); bool me; { gomp::Lock l(gomp::team().mu); me = w.single++ == 0; } if (me) return nullptr; gomp::team().barrier(); gomp::Lock l(gomp::team().mu); return w.copy; }
void GOMP_single_copy_end(void* p) { gomp::Ctx& c = gomp::ctx(); { gomp::Lock l(gomp::team().mu); c.cur->copy = p; } gomp::team().barrier(); }
#define GOMP_LOOP(NAME) bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return gomp::loopStart(s, e, i, c, a, b); } bool GOMP_loop_##NAME##_next(long* a, long* b) { return gomp::loopNext(a, b); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { gomp::parallelLoop(fn, d, n, s, e, i, c); } \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return gomp::ullStart(up, s, e, i, c, a, b); } bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return gomp::take(*a, *b); }
#define GOMP_LOOPRT(NAME) bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return gomp::loopStart(s, e, i, 1, a, b); } bool GOMP_loop_##NAME##_next(long* a, long* b) { return gomp::loopNext(a, b); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { gomp::parallelLoop(fn, d, n, s, e, i, 1); } \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return gomp::ullStart(up, s, e, i, 1, a, b); } bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return gomp::take(*a, *b); }
GOMP_LOOP(dynamic) GOMP_LOOP(guided) GOMP_LOOP(nonmonotonic_dynamic) GOMP_LOOP(nonmonotonic_guided) GOMP_LOOP(static) GOMP_LOOPRT(runtime) GOMP_LOOPRT(nonmonotonic_runtime) GOMP_LOOPRT(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { gomp::team().barrier(); }
bool GOMP_loop_end_cancel() { gomp::team().barrier(); return false; }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_next() { gomp::WorkShare& w = *gomp::ctx().cur; gomp::Lock l(gomp::team().mu); return w.taken < w.sections ? ++w.taken : 0; }
unsigned GOMP_sections_start(unsigned n) { gomp::WorkShare& w = gomp::share(); { gomp::Lock l(gomp::team().mu); if (!w.init) { w.init = true; w.sections = n; } } return GOMP_sections_next(); }
void GOMP_sections_end() { gomp::team().barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { gomp::WorkShare w; w.init = true; w.sections = count; struct P { void (*fn)(void*); void* d; } p{fn, d}; gomp::parallel([](void* q) { P* x = (P*)q; gomp::Ctx& cx = gomp::ctx(); { gomp::Lock l(cx.team->mu); cx.cur = &cx.team->ws[0]; cx.seq = 1; } x->fn(x->d); }, &p, n, &w); }
void GOMP_task(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) { if (cpy) { std::vector<char> b(size + align); char* p = b.data(); p += (align - (uintptr_t)p % align) % align; cpy(p, d); fn(p); } else fn(d); }
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { return gomp::ctx().team ? (int)gomp::ctx().tid : 0; }
int omp_get_num_threads() { return gomp::ctx().team ? (int)gomp::ctx().team->n : 1; }
int omp_get_max_threads() { return (int)gomp::width(); }
int omp_get_num_procs() { return 8; }
void omp_set_num_threads(int n) { if (n > 0) gomp::width() = (unsigned)n; }
int omp_in_parallel() { return gomp::ctx().team && gomp::ctx().team->n > 1; }
int omp_get_level() { return gomp::ctx().team ? 1 : 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return 64; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
}
