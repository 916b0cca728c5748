/* See mc_rt.hpp.  This file is compiled WITHOUT instrumentation. */
#include "common/mc_rt.hpp"
#include "common/mc.hpp"

#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unordered_map>
#include <cerrno>

extern "C" char * __cxa_demangle(const char*, char*, size_t*, int*);
#define HIDDEN static
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

/*======================================================================================================================
 * memory: a bump allocator; in controlled executions memory is never reused, so freed memory can be recognised
 *====================================================================================================================*/
HIDDEN bool g_ctl = false;              // inside a controlled execution
HIDDEN char *g_heap = nullptr, *g_heap_ptr = nullptr, *g_heap_end = nullptr, *g_heap_mark = nullptr;
HIDDEN void *g_free[64];
struct Hdr { u64 size; u64 state; };    // state: 0xA110C alive, 0xF4EED freed
HIDDEN constexpr u64 ALIVE = 0xA110CA110Cull, FREED = 0xF4EEDF4EEDull;
HIDDEN void heap_init() {
    size_t n = u64(32) << 30;
    void *p = (void*) syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { const char m[] = "mc_rt: no heap\n"; (void) !write(2, m, sizeof m - 1); _exit(2); }
    g_heap = g_heap_ptr = (char*) p; g_heap_end = g_heap + n;
}
HIDDEN unsigned size_class(u64 n) { unsigned c = 0; u64 s = 16; while (s < n and c < 40) { s <<= 1; ++c; } return c; }
HIDDEN void * raw_alloc(u64 n, u64 align) {
    if (not g_heap) heap_init();
    if (n == 0) n = 1;
    if (not g_ctl and align <= 16) {
        unsigned c = size_class(n);
        if (g_free[c]) { void *p = g_free[c]; g_free[c] = *(void**) p; ((Hdr*) p - 1)->size = n; ((Hdr*) p - 1)->state = ALIVE; return p; }
    }
    u64 cap = n;
    if (not g_ctl) cap = u64(16) << size_class(n);
    if (align < 16) align = 16;
    char *p = __atomic_load_n(&g_heap_ptr, __ATOMIC_RELAXED), *q;
    do {
        q = (char*) (((u64) p + sizeof(Hdr) + align - 1) / align * align);
    } while (not __atomic_compare_exchange_n(&g_heap_ptr, &p, (char*) (((u64) q + cap + 23) / 16 * 16), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
    if (q + cap > g_heap_end) return nullptr;
    Hdr *h = (Hdr*) q - 1; h->size = n; h->state = ALIVE;
    return q;
}
namespace { void report_free(void*, bool); void on_free(void *p, u64 n); }
extern "C" {
void * malloc(size_t n) noexcept { return raw_alloc(n, 16); }
void free(void *p) noexcept {
    if (not p) return;
    Hdr *h = (Hdr*) p - 1;
    if (h->state == FREED) { report_free(p, true); return; }
    if (h->state != ALIVE) { report_free(p, false); return; }
    h->state = FREED;
    if (g_ctl) { on_free(p, h->size); return; }
    unsigned c = size_class(h->size);
    *(void**) p = g_free[c]; g_free[c] = p;
}
void * calloc(size_t a, size_t b) noexcept { void *p = raw_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void * realloc(void *p, size_t n) noexcept {
    if (not p) return malloc(n);
    void *q = malloc(n); u64 o = ((Hdr*) p - 1)->size; memcpy(q, p, o < n ? o : n); free(p); return q;
}
void * memalign(size_t a, size_t n) noexcept { return raw_alloc(n, a); }
void * aligned_alloc(size_t a, size_t n) noexcept { return raw_alloc(n, a); }
int posix_memalign(void **r, size_t a, size_t n) noexcept { *r = raw_alloc(n, a); return *r ? 0 : ENOMEM; }
void * valloc(size_t n) noexcept { return raw_alloc(n, 4096); }
size_t malloc_usable_size(void *p) noexcept { return p ? ((Hdr*) p - 1)->size : 0; }
}

/*======================================================================================================================
 * shared state of an execution
 *====================================================================================================================*/
namespace {

constexpr int MAXT = 8;
constexpr u32 MAXPOINTS = 40000;

struct Point { u8 n; u8 chosen; u8 cost[MAXT * 2]; };

/** Memory shared between the explorer and the forked execution. */
struct Shared {
    u32 nprefix; u8 prefix[MAXPOINTS];
    u32 npoints; Point points[MAXPOINTS];
    u64 steps;
    int status; // 0 running, 1 completed, 2 failed
    char what[4000];
    char obs[4000]; u32 nobs;
    bool tracing;
    char trace[60000]; u32 ntrace;
};
Shared *S = nullptr;
rt::Options OPT;

enum Kind { RUN, MUTEX, COND, COND_TIMED, JOIN, FUTEX, FUTEX_TIMED, RDLOCK, WRLOCK, ONCE, DONE, UNUSED };
const char *kind_name[] = { "runnable", "waiting for a mutex", "waiting on a condition variable", "in a timed wait", "joining a thread", "waiting on a futex", "in a timed futex wait", "waiting for a read lock", "waiting for a write lock", "waiting for a once/guard", "finished", "unused" };

struct VC { u32 c[MAXT] = {}; void join(const VC &o) { for (int i = 0; i != MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct Mutex { int owner = -1; int depth = 0; bool recursive = false; VC vc; };
struct RWLock { int writer = -1; int readers = 0; VC vc, rvc; };
struct Once { int state = 0; VC vc; };

struct Thread {
    Kind kind = UNUSED;
    void *obj = nullptr;   // what it waits for
    void *mtx = nullptr;   // mutex to re-acquire after a condition wait
    bool woken = false, timed_out = false, joined = false, detached = false, yielded = false;
    u32 futex_val = 0;
    int futex = 0;         // baton
    pthread_t real; void *(*fn)(void*) = nullptr; void *arg = nullptr; void *ret = nullptr;
    VC vc;
};
Thread T[MAXT]; int NT = 0;
int CUR = 0;               // the thread holding the baton
__thread int TID = -1;

/* small fixed hash tables keyed by address; never deallocated within an execution */
template<typename V, unsigned N> struct Map {
    void *key[N]; V val[N];
    V & get(const void *k) {
        u64 h = ((u64) k * 0x9e3779b97f4a7c15ull) >> 40;
        for (unsigned i = 0; i != N; ++i) { unsigned j = (h + i) % N; if (key[j] == k) return val[j]; if (not key[j]) { key[j] = (void*) k; new (&val[j]) V(); return val[j]; } }
        abort();
    }
    bool has(const void *k) { u64 h = ((u64) k * 0x9e3779b97f4a7c15ull) >> 40; for (unsigned i = 0; i != N; ++i) { unsigned j = (h + i) % N; if (key[j] == k) return true; if (not key[j]) return false; } return false; }
};
Map<Mutex, 4096> *mutexes; Map<RWLock, 256> *rwlocks; Map<Once, 1024> *onces; Map<VC, 16384> *atomics;

void trace(const char *fmt, ...) {
    if (not S or not S->tracing or S->ntrace + 300 > sizeof S->trace) return;
    va_list ap; va_start(ap, fmt);
    S->ntrace += snprintf(S->trace + S->ntrace, 40, "T%d: ", TID);
    int n = vsnprintf(S->trace + S->ntrace, 240, fmt, ap); S->ntrace += n < 240 ? n : 239;
    S->trace[S->ntrace++] = '\n'; S->trace[S->ntrace] = 0;
    va_end(ap);
}

[[noreturn]] void end_execution(int status) { S->status = status; _exit(0); }
[[noreturn]] void fail_now(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(S->what, sizeof S->what, fmt, ap); va_end(ap);
    trace("FAILED: %s", S->what);
    end_execution(2);
}

void futex_wait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }

bool enabled(int t) {
    auto &x = T[t];
    switch (x.kind) {
        case RUN: return true;
        case MUTEX: return mutexes->get(x.obj).owner == -1;
        case COND: case COND_TIMED: case FUTEX: case FUTEX_TIMED: return false;
        case JOIN: return T[(int) (u64) x.obj].kind == DONE;
        case RDLOCK: return rwlocks->get(x.obj).writer == -1;
        case WRLOCK: return rwlocks->get(x.obj).writer == -1 and rwlocks->get(x.obj).readers == 0;
        case ONCE: return onces->get(x.obj).state != 1;
        default: return false;
    }
}

/** A choice among n alternatives with given costs; consults the prefix, then takes alternative 0. */
unsigned choose(unsigned n, const u8 *cost) {
    if (n <= 1) return 0;
    u32 i = S->npoints;
    if (i >= MAXPOINTS or S->steps > OPT.horizon) fail_now("execution does not terminate within %u scheduling steps", OPT.horizon);
    unsigned c = 0;
    if (i < S->nprefix) { c = S->prefix[i]; if (c >= n) { snprintf(S->what, sizeof S->what, "replay diverged"); end_execution(3); } }
    auto &p = S->points[i]; p.n = n; p.chosen = c; memcpy(p.cost, cost, n);
    S->npoints = i + 1;
    return c;
}

void hand_over(int t) {
    if (t == TID) return;
    int me = TID;
    CUR = t;
    __atomic_store_n(&T[t].futex, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, &T[t].futex, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    if (T[me].kind == DONE) return; // never scheduled again
    while (not __atomic_load_n(&T[me].futex, __ATOMIC_ACQUIRE)) futex_wait(&T[me].futex, 0);
    T[me].futex = 0;
}


/** Decides who runs next.  The current thread has already set its kind.  Returns when the current thread was picked. */
void schedule() {
    ++S->steps;
    if (S->steps > OPT.horizon) fail_now("execution does not terminate within %u scheduling steps", OPT.horizon);
    int alt[MAXT * 2]; u8 cost[MAXT * 2]; unsigned n = 0;
    const bool me_enabled = enabled(TID), yields = T[TID].yielded, stays = me_enabled and not yields;
    T[TID].yielded = false;
    if (stays) { alt[n] = TID; cost[n++] = 0; }
    for (int k = 1; k < NT + 1; ++k) { int t = (TID + k) % NT; if (t != TID and enabled(t)) { alt[n] = t; cost[n++] = stays ? 1 : 0; } }
    if (me_enabled and yields) { alt[n] = TID; cost[n] = n ? 1 : 0; ++n; }
    const unsigned n_enabled = n;
    for (int t = 0; t != NT; ++t) { // time-outs and spurious wake-ups
        auto k = T[t].kind;
        if ((k == COND_TIMED and mutexes->get(T[t].mtx).owner == -1) or k == FUTEX_TIMED) { alt[n] = t | 64; cost[n++] = n_enabled ? 1 : 0; }
        else if (OPT.spurious and n_enabled and k == COND and mutexes->get(T[t].mtx).owner == -1) { alt[n] = t | 64; cost[n++] = 1; }
    }
    if (n == 0) {
        bool all_done = true; for (int t = 0; t != NT; ++t) if (T[t].kind != DONE) all_done = false;
        if (all_done) end_execution(1);
        char d[800]; int o = snprintf(d, sizeof d, "deadlock:");
        for (int t = 0; t != NT; ++t) o += snprintf(d + o, sizeof d - o, " T%d %s;", t, kind_name[T[t].kind]);
        fail_now("%s", d);
    }
    int pick = alt[choose(n, cost)];
    if (pick & 64) {
        pick &= 63; auto &x = T[pick];
        x.timed_out = x.kind == COND_TIMED or x.kind == FUTEX_TIMED;
        if (S->tracing) trace("  (T%d %s)", pick, x.timed_out ? "times out" : "wakes up spuriously");
    }
    T[pick].kind = RUN;
    if (S->tracing and pick != TID) trace("  -> T%d%s", pick, stays ? "   (preemption)" : "");
    hand_over(pick);
}
bool ctl() { return g_ctl and TID >= 0; }
void block(Kind k, void *obj) { T[TID].kind = k; T[TID].obj = obj; schedule(); }
void pre_point() { if (ctl()) block(RUN, nullptr); }
void release_to(VC &v) { v.join(T[TID].vc); ++T[TID].vc.c[TID]; }
void acquire_from(const VC &v) { T[TID].vc.join(v); }
/** Mutexes on the heap that existed before the scenario began belong to parts that are not explored here. */
bool ignored(const void *p) { return (char*) p >= g_heap and (char*) p < g_heap_mark; }

/*----- data races -----------------------------------------------------------------------------------------------*/
struct Cell { u64 key; u32 w[8]; u64 wpc; u32 r[MAXT][8]; u64 rpc[MAXT]; };
constexpr u32 NCELL = 1u << 17;
Cell *cells;
const char *sym(u64 pc) {
    static char b[2][300]; static int k = 0; k ^= 1;
    Dl_info i;
    if (pc and dladdr((void*) pc, &i) and i.dli_sname) {
        int st; char *d = __cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        snprintf(b[k], sizeof b[k], "%.250s", d ? d : i.dli_sname);
    } else snprintf(b[k], sizeof b[k], "?");
    return b[k];
}
/* Neighbouring words have neighbouring entries, and cells are used in the order of first access: an execution touches few pages. */
constexpr u32 NINDEX = 1u << 19;
struct Slot { u64 key; u32 cell; }; Slot *slots; u32 ncells = 0;
Cell & cell(u64 g) {
    const u64 h = (((g >> 9) * 0x9e3779b97f4a7c15ull) >> 30) * 512 + (g & 511);
    for (u32 i = 0;; ++i) {
        auto &x = slots[(h + i) % NINDEX];
        if (x.key == g) return cells[x.cell];
        if (x.key == 0) { if (ncells == NCELL) abort(); x.key = g; x.cell = ncells++; cells[x.cell].key = g; return cells[x.cell]; }
    }
}
void access(u64 a, unsigned n, bool write, u64 pc) {
    const int me = TID; const VC &vc = T[me].vc;
    if ((char*) a >= g_heap_mark and (char*) a < g_heap_ptr) { /* heap object of this execution */ }
    while (n) {
        u64 g = a >> 3; unsigned off = a & 7, m = 8 - off < n ? 8 - off : n;
        Cell &c = cell(g + 1);
        for (unsigned b = off; b != off + m; ++b) {
            u32 w = c.w[b];
            if (w) { int t = w >> 24; if (t == 0xff) fail_now("use of freed memory in %s (freed in %s)", sym(pc), sym(c.wpc)); if (t != me and (w & 0xffffff) > vc.c[t]) fail_now("data race: %s in T%d (%s) against a write in T%d (%s)", write ? "write" : "read", me, sym(pc), t, sym(c.wpc)); }
            if (write) {
                for (int t = 0; t != NT; ++t) if (t != me and c.r[t][b] > vc.c[t]) fail_now("data race: write in T%d (%s) against a read in T%d (%s)", me, sym(pc), t, sym(c.rpc[t]));
                c.w[b] = u32(me) << 24 | vc.c[me];
            } else c.r[me][b] = vc.c[me];
        }
        if (write) c.wpc = pc; else c.rpc[me] = pc;
        a += m; n -= m;
    }
}
inline void acc(void *p, unsigned n, bool w, void *pc) { if (ctl() and not ignored(p)) access((u64) p, n, w, (u64) pc); }
void report_free(void *p, bool dbl) { if (g_ctl and S) fail_now(dbl ? "memory freed twice" : "free of an invalid pointer"); abort(); }
void on_free(void *p, u64 n) {
    if (TID < 0 or n > 65536) return;
    if (not ignored(p)) access((u64) p, n, true, (u64) __builtin_return_address(0));
    for (u64 i = 0; i != n; ++i) cell((((u64) p + i) >> 3) + 1).w[((u64) p + i) & 7] = 0xff000000u;
}
template<typename V> V * mapped(size_t n = 1) {
    void *p = mmap(nullptr, sizeof(V) * n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return (V*) p;
}

/*----- mutex ----------------------------------------------------------------------------------------------------*/
void lock_mutex(void *m) {
    if (T[TID].kind == RUN and mutexes->get(m).owner == TID and not mutexes->get(m).recursive) fail_now("deadlock: thread locks a mutex it already holds");
    block(MUTEX, m);
    auto &x = mutexes->get(m);
    x.owner = TID; acquire_from(x.vc);
}
void unlock_mutex(void *m) {
    auto &x = mutexes->get(m);
    if (x.owner != TID) fail_now("unlock of a mutex that is not held by the thread");
    x.owner = -1; release_to(x.vc);
}
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if (not ctl() or ignored(m)) return 0;
    auto &x = mutexes->get(m);
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (rec and x.owner == TID) { ++x.depth; return 0; }
    lock_mutex(m); trace("lock %p", (void*) m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if (not ctl() or ignored(m)) return 0;
    pre_point();
    auto &x = mutexes->get(m);
    if (x.owner == TID and (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++x.depth; return 0; }
    if (x.owner != -1) { trace("trylock %p fails", (void*) m); return EBUSY; }
    x.owner = TID; acquire_from(x.vc); trace("trylock %p", (void*) m); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    if (not ctl() or ignored(m)) return 0;
    auto &x = mutexes->get(m);
    if (x.owner == TID and x.depth) { --x.depth; return 0; }
    unlock_mutex(m); trace("unlock %p", (void*) m); return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept { memset((void*) m, 0, sizeof *m); if (a) m->__data.__kind = *(const int*) a & 3; if (g_ctl) mutexes->get(m) = Mutex(); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept { if (ctl() and not ignored(m) and mutexes->get(m).owner != -1) fail_now("mutex destroyed while held"); return 0; }

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    if (not ctl()) return 0;
    pre_point();
    trace("wait %p", (void*) c);
    T[TID].mtx = m; T[TID].timed_out = false;
    unlock_mutex(m);
    block(timed ? COND_TIMED : COND, c);
    /* picked, hence the mutex is free */
    auto &x = mutexes->get(m); x.owner = TID; acquire_from(x.vc);
    trace("woken %p", (void*) c);
    return T[TID].timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t*) noexcept { memset((void*) c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec*) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec*) { return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) noexcept {
    if (not ctl()) return 0;
    pre_point();
    int w[MAXT]; u8 cost[MAXT] = {}; unsigned n = 0;
    for (int t = 0; t != NT; ++t) if ((T[t].kind == COND or T[t].kind == COND_TIMED) and T[t].obj == c) w[n++] = t;
    if (n) { int t = w[choose(n, cost)]; T[t].kind = MUTEX; T[t].obj = T[t].mtx; trace("notify_one %p wakes T%d", (void*) c, t); }
    else trace("notify_one %p (nobody waits)", (void*) c);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    if (not ctl()) return 0;
    pre_point();
    for (int t = 0; t != NT; ++t) if ((T[t].kind == COND or T[t].kind == COND_TIMED) and T[t].obj == c) { T[t].kind = MUTEX; T[t].obj = T[t].mtx; }
    trace("notify_all %p", (void*) c);
    return 0;
}

int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t*) noexcept { memset((void*) m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *m) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept { if (not ctl() or ignored(m)) return 0; block(RDLOCK, m); auto &x = rwlocks->get(m); ++x.readers; acquire_from(x.vc); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { if (not ctl() or ignored(m)) return 0; block(WRLOCK, m); auto &x = rwlocks->get(m); x.writer = TID; acquire_from(x.vc); acquire_from(x.rvc); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept { if (not ctl() or ignored(m)) return 0; pre_point(); auto &x = rwlocks->get(m); if (x.writer != -1) return EBUSY; ++x.readers; acquire_from(x.vc); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept { if (not ctl() or ignored(m)) return 0; pre_point(); auto &x = rwlocks->get(m); if (x.writer != -1 or x.readers) return EBUSY; x.writer = TID; acquire_from(x.vc); acquire_from(x.rvc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
    if (not ctl() or ignored(m)) return 0;
    auto &x = rwlocks->get(m);
    if (x.writer == TID) { x.writer = -1; release_to(x.vc); }
    else { if (x.readers == 0) fail_now("unlock of a read-write lock that is not held"); --x.readers; release_to(x.rvc); }
    return 0;
}

int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (not ctl()) { if (*o == 0) { f(); *o = 2; } return 0; }
    block(ONCE, o);
    auto &x = onces->get(o);
    if (*o == 2) { acquire_from(x.vc); return 0; }
    x.state = 1;
    try { f(); } catch (...) { onces->get(o).state = 0; throw; }
    onces->get(o).state = 2; *o = 2; release_to(onces->get(o).vc);
    return 0;
}
int __cxa_guard_acquire(u64 *g) {
    if (*(volatile char*) g) { if (ctl()) acquire_from(atomics->get(g)); return 0; }
    if (not ctl()) return 1;
    block(ONCE, g);
    if (*(volatile char*) g) { acquire_from(atomics->get(g)); return 0; }
    onces->get(g).state = 1; return 1;
}
void __cxa_guard_release(u64 *g) { *(volatile char*) g = 1; if (ctl()) { onces->get(g).state = 2; release_to(atomics->get(g)); } }
void __cxa_guard_abort(u64 *g) { if (ctl()) onces->get(g).state = 0; }

typedef int (*create_fn)(pthread_t*, const pthread_attr_t*, void *(*)(void*), void*);
static void * thread_main(void *p) {
    int me = (int) (u64) p; TID = me;
    while (not __atomic_load_n(&T[me].futex, __ATOMIC_ACQUIRE)) futex_wait(&T[me].futex, 0);
    T[me].futex = 0;
    T[me].ret = T[me].fn(T[me].arg);
    trace("thread ends");
    T[me].kind = DONE; schedule();
    for (;;) pause();
}
int pthread_create(pthread_t *r, const pthread_attr_t *a, void *(*fn)(void*), void *arg) noexcept {
    static create_fn real = (create_fn) dlsym(RTLD_NEXT, "pthread_create");
    if (not ctl()) { return real(r, a, fn, arg); }
    if (NT == MAXT) { snprintf(S->what, sizeof S->what, "too many threads"); end_execution(3); }
    int t = NT++;
    auto &x = T[t]; x = Thread(); x.kind = RUN; x.fn = fn; x.arg = arg; x.vc = T[TID].vc; x.vc.c[t] = 1; ++T[TID].vc.c[TID];
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    if (real(&x.real, &at, thread_main, (void*) (u64) t)) { snprintf(S->what, sizeof S->what, "pthread_create failed"); end_execution(3); }
    *r = (pthread_t) (0x1000 + t);
    trace("create T%d", t);
    pre_point();
    return 0;
}
int pthread_join(pthread_t h, void **ret) {
    if (not ctl()) { static auto real = (int (*)(pthread_t, void**)) dlsym(RTLD_NEXT, "pthread_join"); return real(h, ret); }
    int t = (int) (h - 0x1000);
    if (t < 0 or t >= NT) return ESRCH;
    block(JOIN, (void*) (u64) t);
    acquire_from(T[t].vc); if (ret) *ret = T[t].ret; T[t].joined = true;
    trace("joined T%d", t);
    return 0;
}
int pthread_detach(pthread_t) noexcept { return 0; }
pthread_t pthread_self(void) noexcept {
    if (TID > 0) return (pthread_t) (0x1000 + TID);
    static auto real = (pthread_t (*)()) dlsym(RTLD_NEXT, "pthread_self"); return real();
}
int sched_yield(void) noexcept { if (ctl()) { T[TID].yielded = true; pre_point(); } return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (ctl()) { sched_yield(); return 0; } return clock_nanosleep(CLOCK_MONOTONIC, 0, a, b) ? -1 : 0; }

/** libstdc++ (futures, atomic waiting) reaches the futex through this function. */
long syscall(long nr, ...) noexcept {
    va_list ap; va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex and ctl()) {
        int *addr = (int*) a; int op = b & 127; op &= ~FUTEX_CLOCK_REALTIME;
        const bool mine = (char*) addr >= (char*) T and (char*) addr < (char*) (T + MAXT);
        if (not mine and (op == FUTEX_WAIT or op == FUTEX_WAIT_BITSET)) {
            pre_point();
            if (*addr != (int) c) { errno = EAGAIN; return -1; }
            T[TID].timed_out = false; trace("futex wait %p", (void*) addr);
            block(d ? FUTEX_TIMED : FUTEX, addr);
            if (T[TID].timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (not mine and (op == FUTEX_WAKE or op == FUTEX_WAKE_BITSET)) {
            pre_point();
            long n = 0;
            while (n < c) {
                int w[MAXT]; u8 cost[MAXT] = {}; unsigned k = 0;
                for (int t = 0; t != NT; ++t) if ((T[t].kind == FUTEX or T[t].kind == FUTEX_TIMED) and T[t].obj == addr) w[k++] = t;
                if (not k) break;
                int t = w[choose(k, cost)]; T[t].kind = RUN; ++n;
            }
            trace("futex wake %p (%ld)", (void*) addr, n);
            return n;
        }
    }
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f; long r;
    asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 and r > -4096) { errno = (int) -r; return -1; }
    return r;
}

/*----- instrumentation ------------------------------------------------------------------------------------------*/
#define PC __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void *p) { acc(p, N, false, PC); } void __tsan_write##N(void *p) { acc(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void *p) { acc(p, N, false, PC); } void __tsan_unaligned_write##N(void *p) { acc(p, N, true, PC); } \
    void __tsan_volatile_read##N(void *p) { acc(p, N, false, PC); } void __tsan_volatile_write##N(void *p) { acc(p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void *p) { acc(p, N, false, PC); } void __tsan_unaligned_volatile_write##N(void *p) { acc(p, N, true, PC); } \
    void __tsan_read_write##N(void *p) { acc(p, N, false, PC); acc(p, N, true, PC); } void __tsan_unaligned_read_write##N(void *p) { acc(p, N, false, PC); acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, u64 n) { acc(p, n, false, PC); } void __tsan_write_range(void *p, u64 n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) acc(p, 8, true, PC); } void __tsan_vptr_read(void **p) { acc(p, 8, false, PC); }
void * __tsan_memcpy(void *d, const void *s, u64 n) { acc((void*) s, n, false, PC); acc(d, n, true, PC); return memcpy(d, s, n); }
void * __tsan_memmove(void *d, const void *s, u64 n) { acc((void*) s, n, false, PC); acc(d, n, true, PC); return memmove(d, s, n); }
void * __tsan_memset(void *d, int v, u64 n) { acc(d, n, true, PC); return memset(d, v, n); }

static void at_acq(void *a, int mo) { if (ctl() and mo != 0) acquire_from(atomics->get(a)); }
static void at_rel(void *a, int mo, bool rmw) {
    if (not ctl()) return;
    if (mo == 3 or mo == 4 or mo == 5) { auto &v = atomics->get(a); if (not rmw) v = VC(); release_to(v); }
    else if (not rmw) atomics->get(a) = VC(); // a relaxed store breaks the release sequence
}
static void freed_check(void *a, void *pc) {
    if (ctl() and (char*) a >= g_heap_mark and (char*) a < g_heap_ptr) { auto w = cell(((u64) a >> 3) + 1).w[(u64) a & 7]; if (w >> 24 == 0xff) fail_now("use of freed memory (atomic) in %s", sym((u64) pc)); }
}
#define AT(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { pre_point(); freed_check((void*) a, PC); TY v = *a; at_acq((void*) a, mo); return v; } \
    void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { pre_point(); freed_check((void*) a, PC); at_rel((void*) a, mo, false); *a = v; } \
    TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { pre_point(); freed_check((void*) a, PC); TY o = *a; at_acq((void*) a, mo == 3 ? 0 : mo); at_rel((void*) a, mo, true); *a = v; return o; } \
    TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int mo) { pre_point(); freed_check((void*) a, PC); TY o = *a; at_acq((void*) a, mo == 3 ? 0 : mo); at_rel((void*) a, mo, true); *a = o + v; return o; } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int mo) { pre_point(); freed_check((void*) a, PC); TY o = *a; at_acq((void*) a, mo == 3 ? 0 : mo); at_rel((void*) a, mo, true); *a = o - v; return o; } \
    TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int mo) { pre_point(); freed_check((void*) a, PC); TY o = *a; at_acq((void*) a, mo == 3 ? 0 : mo); at_rel((void*) a, mo, true); *a = o & v; return o; } \
    TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int mo) { pre_point(); freed_check((void*) a, PC); TY o = *a; at_acq((void*) a, mo == 3 ? 0 : mo); at_rel((void*) a, mo, true); *a = o | v; return o; } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int mo) { pre_point(); freed_check((void*) a, PC); TY o = *a; at_acq((void*) a, mo == 3 ? 0 : mo); at_rel((void*) a, mo, true); *a = o ^ v; return o; } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int mo) { pre_point(); freed_check((void*) a, PC); TY o = *a; at_acq((void*) a, mo == 3 ? 0 : mo); at_rel((void*) a, mo, true); *a = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { \
        pre_point(); freed_check((void*) a, PC); if (*a == *c) { at_acq((void*) a, mo == 3 ? 0 : mo); at_rel((void*) a, mo, true); *a = v; return 1; } at_acq((void*) a, fmo); *c = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { pre_point(); }
void __tsan_atomic_signal_fence(int) { }
}

/*======================================================================================================================
 * explorer
 *====================================================================================================================*/
namespace rt {
void fail(const std::string &what) { fail_now("%s", what.c_str()); }
void observe(const std::string &w) { if (S->nobs + w.size() + 2 < sizeof S->obs) { memcpy(S->obs + S->nobs, w.data(), w.size()); S->nobs += w.size(); S->obs[S->nobs++] = ';'; S->obs[S->nobs] = 0; } }
void log(const std::string &w) { trace("%s", w.c_str()); }
uint64_t clock() { static uint64_t c = 0; return ++c; }
int self() { return TID; }
void point() { pre_point(); }

Stats explore(mc::Worker &W, const std::string &name, const std::function<void()> &body, const Options &opt)
{
    OPT = opt;
    if (not S) {
        S = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mutexes = mapped<Map<Mutex, 4096>>(); rwlocks = mapped<Map<RWLock, 256>>(); onces = mapped<Map<Once, 1024>>(); atomics = mapped<Map<VC, 16384>>();
        cells = mapped<Cell>(NCELL); slots = mapped<Slot>(NINDEX);
    }
    int errfd = memfd_create("err", 0);
    Stats st;
    std::unordered_set<u64> outcomes;
    std::string errtext;
    auto run = [&](const std::vector<u8> &prefix, bool tracing) -> int { // 1 ok, 2 failed, 3 internal
        S->nprefix = prefix.size(); if (prefix.size()) memcpy(S->prefix, prefix.data(), prefix.size());
        S->npoints = 0; S->steps = 0; S->status = 0; S->what[0] = 0; S->nobs = 0; S->obs[0] = 0; S->tracing = tracing; S->ntrace = 0; S->trace[0] = 0;
        if (ftruncate(errfd, 0)) {}
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(3); }
        if (pid == 0) {
            lseek(errfd, 0, SEEK_SET); dup2(errfd, 2);
            alarm(60);
            { cpu_set_t cs; CPU_ZERO(&cs); int cpu = sched_getcpu(); if (cpu >= 0) { CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); } } // only one thread runs at any time: hand over on one core
            NT = 1; T[0] = Thread(); T[0].kind = RUN; T[0].vc.c[0] = 1; TID = 0; CUR = 0;
            g_heap_mark = g_heap_ptr; g_ctl = true;
            body();
            bool done = true; for (int t = 1; t < NT; ++t) if (T[t].kind != DONE) done = false;
            if (done) end_execution(1);
            T[0].kind = DONE; schedule(); for (;;) pause();
        }
        int ws; while (waitpid(pid, &ws, 0) < 0 and errno == EINTR) {}
        st.steps += S->steps;
        if (WIFEXITED(ws) and WEXITSTATUS(ws) == 0 and S->status) return S->status;
        char b[600]; ssize_t n = pread(errfd, b, sizeof b - 1, 0); b[n > 0 ? n : 0] = 0;
        errtext = b; for (auto &c : errtext) if (c == '\n') c = ' ';
        if (auto p = errtext.find("/src/"); p != std::string::npos and p < 60) errtext = errtext.substr(p + 1);
        if (WIFSIGNALED(ws)) snprintf(S->what, sizeof S->what, "crash: signal %d (%s) %s", WTERMSIG(ws), strsignal(WTERMSIG(ws)), errtext.c_str());
        else snprintf(S->what, sizeof S->what, "process exited with status %d %s", WEXITSTATUS(ws), errtext.c_str());
        return 2;
    };
    bool failed = false;
    for (unsigned b = 0; b <= opt.bound and not failed and not st.capped; ++b) {
        std::vector<u8> prefix;
        u64 execs = 0, nodes = 0;
        for (;;) {
            int r = run(prefix, false);
            ++execs; ++st.execs; W.tick(); W.traces();
            if (r == 3) { W.fail(name + ": internal", std::string("internal error of the explorer: ") + S->what); failed = true; break; }
            if (r == 2) {
                /* replay the same schedule twice: the failure has to be the same */
                std::string what = S->what; std::vector<u8> sched(S->npoints); for (u32 i = 0; i != S->npoints; ++i) sched[i] = S->points[i].chosen;
                int r2 = run(sched, false); std::string what2 = S->what;
                int r3 = run(sched, true); std::string tr(S->trace, S->ntrace);
                if (r2 != 2 or r3 != 2 or what2.substr(0, 40) != what.substr(0, 40)) { fprintf(stderr, "unstable failure %s: %s / %s\n", name.c_str(), what.c_str(), what2.c_str()); }
                std::string key = what; if (auto p = key.find(" in T"); key.rfind("data race", 0) == 0 and p != std::string::npos) key = "data race";
                std::string sc; for (auto c : sched) { sc += std::to_string(c); sc += ','; }
                W.fail(name + ": " + mc::one_line(key, 120), "scenario " + name + ", " + std::to_string(b) + " deviations: " + what + "\nschedule: " + sc + "\n" + tr);
                failed = true; break;
            }
            u64 h = mc::hash_str(std::string(S->obs, S->nobs), mc::hash_str(name)); outcomes.insert(h); W.outcome(h);
            nodes += S->npoints - std::min<u32>(S->npoints, prefix.size());
            /* backtrack */
            std::vector<unsigned> cum(S->npoints + 1, 0);
            for (u32 i = 0; i != S->npoints; ++i) cum[i + 1] = cum[i] + S->points[i].cost[S->points[i].chosen];
            bool found = false;
            for (u32 i = S->npoints; i-- > 0;) {
                auto &p = S->points[i];
                for (unsigned a = p.chosen + 1; a < p.n; ++a) {
                    if (cum[i] + p.cost[a] > b) continue;
                    std::vector<u8> np(i + 1); for (u32 k = 0; k != i; ++k) np[k] = S->points[k].chosen; np[i] = a;
                    prefix = std::move(np); found = true; break;
                }
                if (found) break;
            }
            if (not found) { st.completed_bound = b; break; }
            if (st.execs >= opt.max_exec) { st.capped = true; break; }
        }
        if (b == opt.bound or failed or st.capped) st.nodes = nodes;
    }
    close(errfd);
    st.outcomes = outcomes.size();
    W.states(st.nodes); W.transitions(st.steps);
    return st;
}
}
