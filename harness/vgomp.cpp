// Own implementation of the part of GCC's OpenMP runtime that parallel loops
// need.  Two uses:
//  - with ThreadSanitizer (VGOMP_FIBERS undefined): teams are real threads made
//    by pthread_create/join, and loop chunks are dealt out without any shared
//    state, so that the only happens-before edges between iterations are those
//    the program asks for;
//  - VGOMP_FIBERS: the members of a team run one after another on one thread,
//    in an order drawn from a seed, and switch only at barriers.
#include "vgomp.h"

#include <omp.h>
#include <pthread.h>
#include <ucontext.h>

#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace {
int g_threads = 1;
uint64_t g_seed = 1;
uint64_t g_regions = 0;

uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Loop {
    long long start = 0, end = 0, incr = 1, chunk = 1, k = 0;
};
struct Team {
    int n = 1;
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
    Loop loop;
    bool hasLoop = false;
    unsigned sections = 0;
    pthread_barrier_t barrier;
};
struct Member {
    Team *team = nullptr;
    int id = 0;
    Loop loop;
    unsigned section = 0, sections = 0;
#if defined(VGOMP_FIBERS)
    ucontext_t ctx;
    std::unique_ptr<char[]> stack;
    bool waiting = false, done = false;
#endif
};
#if defined(VGOMP_FIBERS)
Member *t_cur = nullptr;
ucontext_t g_main;
#else
__thread Member *t_cur = nullptr;
#endif

void enter(Member *m) {
    m->loop = m->team->loop;
    m->loop.k = m->id;
    m->section = 0;
    m->sections = m->team->sections;
}

#if defined(VGOMP_FIBERS)
void fiber(unsigned lo, unsigned hi) {
    Member *m = (Member *)(((uintptr_t)hi << 32) | (uintptr_t)lo);
    m->team->fn(m->team->data);
    m->done = true;
    swapcontext(&m->ctx, &g_main);
}
void barrier() {
    Member *m = t_cur;
    if (!m || m->team->n == 1) return;
    m->waiting = true;
    swapcontext(&m->ctx, &g_main);
}
void runTeam(Team &t) {
    std::vector<Member> ms((size_t)t.n);
    for (int i = 0; i < t.n; i++) {
        Member &m = ms[(size_t)i];
        m.team = &t;
        m.id = i;
        enter(&m);
        const size_t sz = 256 * 1024;
        m.stack.reset(new char[sz]);
        getcontext(&m.ctx);
        m.ctx.uc_stack.ss_sp = m.stack.get();
        m.ctx.uc_stack.ss_size = sz;
        m.ctx.uc_link = &g_main;
        const uintptr_t p = (uintptr_t)&m;
        makecontext(&m.ctx, (void (*)())fiber, 2, (unsigned)(p & 0xffffffffu), (unsigned)(p >> 32));
    }
    for (;;) {
        // one round up to the next barrier, in a new order
        std::vector<int> order;
        for (int i = 0; i < t.n; i++)
            if (!ms[(size_t)i].done) order.push_back(i);
        if (order.empty()) break;
        g_seed = mix(g_seed);
        if (g_seed % 4 == 0)
            for (size_t i = 0, j = order.size(); i + 1 < j; i++) std::swap(order[i], order[--j]);
        else
            for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[(g_seed = mix(g_seed)) % i]);
        for (int i : order) {
            Member &m = ms[(size_t)i];
            m.waiting = false;
            t_cur = &m;
            swapcontext(&g_main, &m.ctx);
        }
        t_cur = nullptr;
    }
}
#else
void *threadMain(void *p) {
    t_cur = (Member *)p;
    t_cur->team->fn(t_cur->team->data);
    return nullptr;
}
void barrier() {
    if (t_cur && t_cur->team->n > 1) pthread_barrier_wait(&t_cur->team->barrier);
}
void runTeam(Team &t) {
    pthread_barrier_init(&t.barrier, nullptr, (unsigned)t.n);
    std::vector<Member> ms((size_t)t.n);
    std::vector<pthread_t> th((size_t)t.n);
    for (int i = 0; i < t.n; i++) {
        ms[(size_t)i].team = &t;
        ms[(size_t)i].id = i;
        enter(&ms[(size_t)i]);
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    int made = 1;
    for (; made < t.n; made++)
        if (pthread_create(&th[(size_t)made], &at, threadMain, &ms[(size_t)made]) != 0) {
            fprintf(stderr, "vgomp: cannot create thread\n");
            _Exit(3);
        }
    pthread_attr_destroy(&at);
    t_cur = &ms[0];
    t.fn(t.data);
    t_cur = nullptr;
    for (int i = 1; i < t.n; i++) pthread_join(th[(size_t)i], nullptr);
    pthread_barrier_destroy(&t.barrier);
}
#endif

void parallel(Team &t, unsigned num) {
    t.n = num ? (int)num : g_threads;
    if (t.n < 1) t.n = 1;
    if (t_cur || t.n == 1) {  // nested or alone
        Member m, *old = t_cur;
        t.n = 1;
        m.team = &t;
        enter(&m);
        t_cur = &m;
        t.fn(t.data);
        t_cur = old;
        return;
    }
    g_regions++;
    runTeam(t);
}

Member *self() {
    static Team alone;
    static Member m;
    if (t_cur) return t_cur;
    m.team = &alone;
    return &m;
}
bool startLoop(long long s, long long e, long long i, long long c) {
    Member *m = self();
    m->loop.start = s;
    m->loop.end = e;
    m->loop.incr = i;
    m->loop.chunk = c > 0 ? c : 1;
    m->loop.k = m->id;
    return true;
}
// chunks go to the members in turn
bool nextChunk(long long &s, long long &e) {
    Member *m = self();
    Loop &l = m->loop;
    const long long step = l.incr * l.chunk, b = l.start + l.k * step;
    if (l.incr > 0 ? b >= l.end : b <= l.end) return false;
    s = b;
    e = b + step;
    if (l.incr > 0 ? e > l.end : e < l.end) e = l.end;
    l.k += m->team->n;
    return true;
}
pthread_mutex_t g_critical = PTHREAD_MUTEX_INITIALIZER, g_atomic = PTHREAD_MUTEX_INITIALIZER, g_names = PTHREAD_MUTEX_INITIALIZER;
}  // namespace

namespace vgomp {
void configure(int threads, uint64_t seed) {
    g_threads = threads;
    g_seed = seed;
}
uint64_t regions() { return g_regions; }
}  // namespace vgomp

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned) {
    Team t;
    t.fn = fn;
    t.data = data;
    parallel(t, num);
}
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { pthread_mutex_lock(&g_critical); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_critical); }
void GOMP_critical_name_start(void **p) {
    pthread_mutex_lock(&g_names);
    if (!*p) *p = new pthread_mutex_t(PTHREAD_MUTEX_INITIALIZER);
    pthread_mutex_t *m = (pthread_mutex_t *)*p;
    pthread_mutex_unlock(&g_names);
    pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)*p); }
void GOMP_atomic_start() { pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&g_atomic); }
bool GOMP_single_start() { return self()->id == 0; }
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
unsigned GOMP_sections_next() {
    Member *m = self();
    const unsigned k = m->section * (unsigned)m->team->n + (unsigned)m->id;
    m->section++;
    return k < m->sections ? k + 1 : 0;
}
unsigned GOMP_sections_start(unsigned n) {
    self()->section = 0;
    self()->sections = n;
    return GOMP_sections_next();
}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned num, unsigned count, unsigned) {
    Team t;
    t.fn = fn;
    t.data = data;
    t.sections = count;
    parallel(t, num);
}

#define VG_LOOP(kind)                                                                                                    \
    bool GOMP_loop_##kind##_next(long *s, long *e) {                                                                     \
        long long a, b;                                                                                                  \
        if (!nextChunk(a, b)) return false;                                                                              \
        *s = (long)a;                                                                                                    \
        *e = (long)b;                                                                                                    \
        return true;                                                                                                     \
    }                                                                                                                    \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) {                                    \
        startLoop(s, e, i, c);                                                                                           \
        return GOMP_loop_##kind##_next(a, b);                                                                            \
    }                                                                                                                    \
    bool GOMP_loop_ull_##kind##_next(unsigned long long *s, unsigned long long *e) {                                     \
        long long a, b;                                                                                                  \
        if (!nextChunk(a, b)) return false;                                                                              \
        *s = (unsigned long long)a;                                                                                      \
        *e = (unsigned long long)b;                                                                                      \
        return true;                                                                                                     \
    }                                                                                                                    \
    bool GOMP_loop_ull_##kind##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i,            \
                                      unsigned long long c, unsigned long long *a, unsigned long long *b) {              \
        startLoop((long long)s, (long long)e, (long long)i, (long long)c);                                               \
        return GOMP_loop_ull_##kind##_next(a, b);                                                                        \
    }                                                                                                                    \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned num, long s, long e, long i, long c, unsigned) { \
        Team t;                                                                                                          \
        t.fn = fn;                                                                                                       \
        t.data = data;                                                                                                   \
        t.loop.start = s;                                                                                                \
        t.loop.end = e;                                                                                                  \
        t.loop.incr = i;                                                                                                 \
        t.loop.chunk = c > 0 ? c : 1;                                                                                    \
        parallel(t, num);                                                                                                \
    }
VG_LOOP(static)
VG_LOOP(dynamic)
VG_LOOP(guided)
VG_LOOP(nonmonotonic_dynamic)
VG_LOOP(nonmonotonic_guided)
// schedule(runtime): no chunk argument
#define VG_RUNTIME(kind)                                                                                              \
    bool GOMP_loop_##kind##_next(long *s, long *e) { return GOMP_loop_dynamic_next(s, e); }                           \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned num, long s, long e, long i, unsigned f) { \
        GOMP_parallel_loop_dynamic(fn, data, num, s, e, i, 1, f);                                                     \
    }
VG_RUNTIME(runtime)
VG_RUNTIME(nonmonotonic_runtime)
VG_RUNTIME(maybe_nonmonotonic_runtime)

int omp_get_thread_num() { return t_cur ? t_cur->id : 0; }
int omp_get_num_threads() { return t_cur ? t_cur->team->n : 1; }
int omp_get_max_threads() { return g_threads; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return 1 << 16; }
int omp_in_parallel() { return t_cur && t_cur->team->n > 1; }
int omp_get_level() { return t_cur ? 1 : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
void omp_set_num_threads(int n) {
    if (n > 0) g_threads = n;
}
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_schedule(omp_sched_t, int) {}
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
double omp_get_wtick() { return 1e-9; }

// GCC's omp_lock_t has room for four bytes only: the lock's place in a pool.
// No table to look up, hence no ordering between users of different locks.
static pthread_mutex_t g_pool[1 << 16];
static unsigned g_pooled = 0;
static void makeLock(void *l, int type) {
    pthread_mutex_lock(&g_names);
    const unsigned k = g_pooled++ & 0xffff;
    pthread_mutex_unlock(&g_names);
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    pthread_mutexattr_settype(&a, type);
    pthread_mutex_init(&g_pool[k], &a);
    pthread_mutexattr_destroy(&a);
    *(unsigned *)l = k;
}
static pthread_mutex_t *lockOf(void *l) { return &g_pool[*(unsigned *)l & 0xffff]; }
static void dropLock(void *l) { pthread_mutex_destroy(lockOf(l)); }
void omp_init_lock(omp_lock_t *l) { makeLock(l, PTHREAD_MUTEX_NORMAL); }
void omp_destroy_lock(omp_lock_t *l) { dropLock(l); }
void omp_set_lock(omp_lock_t *l) { pthread_mutex_lock(lockOf(l)); }
void omp_unset_lock(omp_lock_t *l) { pthread_mutex_unlock(lockOf(l)); }
int omp_test_lock(omp_lock_t *l) { return pthread_mutex_trylock(lockOf(l)) == 0; }
void omp_init_nest_lock(omp_nest_lock_t *l) { makeLock(l, PTHREAD_MUTEX_RECURSIVE); }
void omp_destroy_nest_lock(omp_nest_lock_t *l) { dropLock(l); }
void omp_set_nest_lock(omp_nest_lock_t *l) { pthread_mutex_lock(lockOf(l)); }
void omp_unset_nest_lock(omp_nest_lock_t *l) { pthread_mutex_unlock(lockOf(l)); }
}
