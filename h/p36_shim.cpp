// Stand-in for the OpenMP runtime: the entry points gcc's compiled loops call, written with plain threads so that the race detector sees
// all synchronisation there is (and none that there is not: chunks are handed out with relaxed atomics), and with team size, start delays
// and yields under the harness' control.
#include <atomic>
#include <climits>
#include <cstdlib>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <thread>
#include <vector>
#include <time.h>
#include "p36_shim.hpp"

namespace {
int g_threads = 1; uint64_t g_seed = 1; shim::Stats g_stats;
typedef unsigned long long ull;
struct Share { std::atomic<ull> next; std::atomic<int> single; };
const int NSHARE = 256;
struct Team {
    int n; Share share[NSHARE]; pthread_barrier_t bar; bool combined; int kind; ull c_lo, c_n, c_chunk; long c_incr, c_start;
    explicit Team(int k) : n(k), combined(false), kind(0) { pthread_barrier_init(&bar, 0, k); for (auto& s : share) { s.next.store(0, std::memory_order_relaxed); s.single.store(0, std::memory_order_relaxed); } }
    ~Team() { pthread_barrier_destroy(&bar); }
};
struct Ctx { Team* team; int id; int seq; ull rng; bool active; ull start, step, cnt, chunk; int kind; ull pos; };
thread_local Ctx ctx = {0, 0, 0, 1, false, 0, 0, 0, 0, 0, 0};
ull rnd() { ull& x = ctx.rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
void jitter() { switch (rnd() % 8) { case 0: sched_yield(); break; case 1: { int k = rnd() % 2000; for (volatile int i = 0; i < k; i = i + 1) {} break; } case 2: if (rnd() % 16 == 0) { timespec t = {0, long(rnd() % 200000)}; nanosleep(&t, 0); } break; default: break; } }
std::atomic<long> st_chunks(0), st_teams(0), st_maxid(0), st_sw(0); std::atomic<int> st_last(-1);

enum { STATIC = 1, DYNAMIC = 2, GUIDED = 3 };
// a loop of cnt iterations numbered 0..cnt-1, value of iteration i = start + i*step
void begin(int kind, ull start, ull step, ull cnt, ull chunk) { ctx.start = start; ctx.step = step; ctx.cnt = cnt; ctx.chunk = chunk; ctx.kind = kind; ctx.pos = 0; ctx.active = true; }
bool next(ull* lo, ull* hi)
{
    Team* t = ctx.team; ull i, k; jitter(); const ull nthr = t ? t->n : 1;
    if (ctx.kind == STATIC) {
        if (ctx.chunk == 0) { if (ctx.pos) return false; ctx.pos = 1; ull q = ctx.cnt / nthr, r = ctx.cnt % nthr; i = q * ctx.id + ((ull)ctx.id < r ? ctx.id : r); k = q + ((ull)ctx.id < r); if (!k) return false; }
        else { i = (ctx.pos * nthr + ctx.id) * ctx.chunk; if (i >= ctx.cnt) return false; ctx.pos++; k = ctx.cnt - i < ctx.chunk ? ctx.cnt - i : ctx.chunk; }
    } else if (!t) { if (ctx.pos) return false; ctx.pos = 1; i = 0; k = ctx.cnt; if (!k) return false; }
    else {
        Share& s = t->share[ctx.seq % NSHARE]; ull c = ctx.chunk ? ctx.chunk : 1;
        if (ctx.kind == GUIDED) { ull cur = s.next.load(std::memory_order_relaxed); for (;;) { if (cur >= ctx.cnt) return false; k = (ctx.cnt - cur + nthr - 1) / nthr; if (k < c) k = c; if (k > ctx.cnt - cur) k = ctx.cnt - cur; if (s.next.compare_exchange_weak(cur, cur + k, std::memory_order_relaxed)) { i = cur; break; } } }
        else { i = s.next.fetch_add(c, std::memory_order_relaxed); if (i >= ctx.cnt) return false; k = ctx.cnt - i < c ? ctx.cnt - i : c; }
    }
    st_chunks.fetch_add(1, std::memory_order_relaxed); if (st_last.exchange(ctx.id, std::memory_order_relaxed) != ctx.id) st_sw.fetch_add(1, std::memory_order_relaxed);
    *lo = ctx.start + i * ctx.step; *hi = ctx.start + (i + k) * ctx.step; return true;
}
ull count_iter(long s, long e, long incr) { if (incr > 0) return e > s ? ((ull)e - (ull)s + incr - 1) / incr : 0; return s > e ? ((ull)s - (ull)e + (-incr) - 1) / (ull)(-incr) : 0; }
void end_loop() { ctx.active = false; ctx.seq++; }
void barrier() { if (ctx.team && ctx.team->n > 1) pthread_barrier_wait(&ctx.team->bar); }
struct Start { void (*fn)(void*); void* data; Team* team; int id; ull seed; int kind; ull start, step, cnt, chunk; };
void member(const Start& s)
{
    Ctx old = ctx; ctx.team = s.team; ctx.id = s.id; ctx.seq = 0; ctx.rng = s.seed * 0x9E3779B97F4A7C15ull + 1 + s.id * 7919; ctx.active = false;
    if (s.kind) begin(s.kind, s.start, s.step, s.cnt, s.chunk);
    jitter(); s.fn(s.data); ctx = old;
}
void* entry(void* p) { member(*(Start*)p); return 0; }
void parallel(void (*fn)(void*), void* data, unsigned nt, int kind, ull start, ull step, ull cnt, ull chunk)
{
    int n = nt ? nt : g_threads; if (ctx.team) n = 1; // nested regions are serial
    st_teams.fetch_add(1, std::memory_order_relaxed); g_seed = g_seed * 6364136223846793005ull + 1442695040888963407ull;
    Team* t = new Team(n); std::vector<Start> st(n); std::vector<pthread_t> th(n);
    for (int i = 0; i < n; ++i) { Start s = {fn, data, t, i, g_seed, kind, start, step, cnt, chunk}; st[i] = s; }
    if (n > st_maxid.load()) st_maxid = n;
    for (int i = 1; i < n; ++i) if (pthread_create(&th[i], 0, entry, &st[i]) != 0) abort();
    member(st[0]);
    for (int i = 1; i < n; ++i) pthread_join(th[i], 0);
    delete t;
}
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
}

namespace shim {
void config(int threads, uint64_t seed) { g_threads = threads; g_seed = seed | 1; }
Stats stats() { Stats s; s.teams = st_teams; s.chunks = st_chunks; s.switches = st_sw; s.max_team = st_maxid; return s; }
bool active() { return true; }
}

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned nt, unsigned) { parallel(fn, d, nt, 0, 0, 0, 0, 0); }
void GOMP_parallel_start(void (*fn)(void*), void* d, unsigned nt) { (void)fn; (void)d; (void)nt; abort(); }
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { parallel(fn, d, nt, kind, (ull)s, (ull)i, count_iter(s, e, i), (ull)c); }
#define RLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { parallel(fn, d, nt, kind, (ull)s, (ull)i, count_iter(s, e, i), 1); }
PLOOP(static, STATIC) PLOOP(dynamic, DYNAMIC) PLOOP(guided, GUIDED) PLOOP(nonmonotonic_dynamic, DYNAMIC) PLOOP(nonmonotonic_guided, GUIDED)
RLOOP(runtime, DYNAMIC) RLOOP(nonmonotonic_runtime, DYNAMIC) RLOOP(maybe_nonmonotonic_runtime, DYNAMIC)
#define NEXT(name) bool GOMP_loop_##name##_next(long* a, long* b) { ull x, y; if (!next(&x, &y)) return false; *a = (long)x; *b = (long)y; return true; }
#define LOOP(name, kind) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { begin(kind, (ull)s, (ull)i, count_iter(s, e, i), (ull)c); ull x, y; if (!next(&x, &y)) return false; *a = (long)x; *b = (long)y; return true; } NEXT(name)
#define LOOPR(name, kind) bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { begin(kind, (ull)s, (ull)i, count_iter(s, e, i), 1); ull x, y; if (!next(&x, &y)) return false; *a = (long)x; *b = (long)y; return true; } NEXT(name)
LOOP(static, STATIC) LOOP(dynamic, DYNAMIC) LOOP(guided, GUIDED) LOOP(nonmonotonic_dynamic, DYNAMIC) LOOP(nonmonotonic_guided, GUIDED)
LOOPR(runtime, DYNAMIC) LOOPR(nonmonotonic_runtime, DYNAMIC) LOOPR(maybe_nonmonotonic_runtime, DYNAMIC)
#define UNEXT(name) bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return next(a, b); }
#define ULOOP(name, kind) bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { ull n = up ? (e > s ? (e - s + i - 1) / i : 0) : (s > e ? (s - e + (0 - i) - 1) / (0 - i) : 0); begin(kind, s, i, n, c); return next(a, b); } UNEXT(name)
#define ULOOPR(name, kind) bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { ull n = up ? (e > s ? (e - s + i - 1) / i : 0) : (s > e ? (s - e + (0 - i) - 1) / (0 - i) : 0); begin(kind, s, i, n, 1); return next(a, b); } UNEXT(name)
ULOOP(static, STATIC) ULOOP(dynamic, DYNAMIC) ULOOP(guided, GUIDED) ULOOP(nonmonotonic_dynamic, DYNAMIC) ULOOP(nonmonotonic_guided, GUIDED)
ULOOPR(runtime, DYNAMIC) ULOOPR(nonmonotonic_runtime, DYNAMIC) ULOOPR(maybe_nonmonotonic_runtime, DYNAMIC)
void GOMP_loop_end(void) { end_loop(); barrier(); }
void GOMP_loop_end_nowait(void) { end_loop(); }
bool GOMP_loop_end_cancel(void) { end_loop(); barrier(); return false; }
void GOMP_barrier(void) { barrier(); }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
static pthread_mutex_t name_guard = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t* named(void** p) { pthread_mutex_lock(&name_guard); if (!*p) { pthread_mutex_t* m = new pthread_mutex_t; pthread_mutex_init(m, 0); *p = m; } pthread_mutex_t* m = (pthread_mutex_t*)*p; pthread_mutex_unlock(&name_guard); return m; }
void GOMP_critical_name_start(void** p) { pthread_mutex_lock(named(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(named(p)); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
bool GOMP_single_start(void) { if (!ctx.team) return true; int z = 0; bool first = ctx.team->share[ctx.seq % NSHARE].single.compare_exchange_strong(z, 1, std::memory_order_relaxed); ctx.seq++; return first; }
unsigned GOMP_sections_start(unsigned n) { begin(DYNAMIC, 1, 1, n, 1); ull a, b; return next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { ull a, b; return next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { end_loop(); barrier(); }
void GOMP_sections_end_nowait(void) { end_loop(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned count, unsigned) { parallel(fn, d, nt, DYNAMIC, 1, 1, count, 1); }
int omp_get_thread_num(void) { return ctx.team ? ctx.id : 0; }
int omp_get_num_threads(void) { return ctx.team ? ctx.team->n : 1; }
int omp_get_max_threads(void) { return g_threads; }
int omp_get_num_procs(void) { return g_threads; }
int omp_in_parallel(void) { return ctx.team && ctx.team->n > 1; }
void omp_set_num_threads(int n) { if (n > 0) g_threads = n; }
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
}
