// see vsched.h; this file must not be instrumented
#pragma GCC optimize("O2", "no-tree-loop-distribute-patterns", "no-builtin", "tree-vectorize")
#include "vsched.h"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

#include <algorithm>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
}

namespace {
const int MAXT = 4;
typedef uint32_t clk;

struct Thread
{
    pthread_t th;
    sem_t sem;
    bool done;
    const void* blockedOn; ///< lock waited for
    bool atBarrier;
    clk vc[MAXT];
};

// team of the running region
int nThreads = 1; ///< requested
bool armed = false;
volatile bool active = false; ///< in a region with several threads
int team = 1;
Thread T[MAXT];
thread_local int tid = -1;
thread_local int nested = 0;
thread_local int hooks = 0; ///< > 0: in the runtime
thread_local int quiet = 0; ///< > 0: holding a lock which is not explored
void (*regionFn)(void*);
void* regionData;
sem_t joinSem;
int current = 0;
unsigned regionNo = 0;

sched::Trace* trace = nullptr;
const std::vector<unsigned char>* plan = nullptr;

// ---------- locks and other synchronisation objects
struct Sync
{
    const void* addr;
    int owner; ///< -1: free
    clk vc[MAXT];
    unsigned region;
};
const size_t NSYNC = 1 << 14;
Sync* syncs = nullptr;
const int NIGN = 16;
const void* ignoredLocks[NIGN];
int nIgnored = 0;
bool learning = false;

Sync* findSync(const void* a)
{
    if (!syncs)
        syncs = static_cast<Sync*>(__libc_calloc(NSYNC, sizeof(Sync)));
    size_t h = (reinterpret_cast<uintptr_t>(a) >> 2) * 0x9E3779B97F4A7C15ull >> 50;
    for (size_t n = 0; n < NSYNC; ++n, h = (h + 1) & (NSYNC - 1)) {
        Sync& s = syncs[h];
        if (s.addr == a && s.region == regionNo)
            return &s;
        if (!s.addr || (s.region != regionNo && s.owner < 0)) {
            s.addr = a;
            s.owner = -1;
            s.region = regionNo;
            memset(s.vc, 0, sizeof(s.vc));
            return &s;
        }
    }
    fprintf(stderr, "sched: too many synchronisation objects\n");
    _exit(99);
}
bool ignored(const void* a)
{
    for (int i = 0; i < nIgnored; ++i)
        if (ignoredLocks[i] == a)
            return true;
    return false;
}
void acquire(const clk* from)
{
    clk* v = T[tid].vc;
    for (int i = 0; i < MAXT; ++i)
        if (from[i] > v[i])
            v[i] = from[i];
}
void release(clk* to)
{
    clk* v = T[tid].vc;
    for (int i = 0; i < MAXT; ++i)
        if (v[i] > to[i])
            to[i] = v[i];
    v[tid]++;
}

// ---------- scheduling
void fatal(const char* msg)
{
    fprintf(stderr, "sched: %s\n", msg);
    abort();
}
bool isEnabled(int t)
{
    if (T[t].done || T[t].atBarrier)
        return false;
    if (T[t].blockedOn)
        return findSync(T[t].blockedOn)->owner < 0;
    return true;
}
/// choose the next thread; called by the running thread
int choose(int cur)
{
    unsigned mask = 0;
    for (int t = 0; t < team; ++t)
        if (isEnabled(t))
            mask |= 1u << t;
    if (!mask)
        return -1;
    int c = -1;
    const size_t pos = trace->steps.size();
    if (plan && pos < plan->size()) {
        c = (*plan)[pos];
        if (!(mask & (1u << c)))
            c = -1; // not reproducible: go on by default
    }
    if (c < 0) {
        if (cur >= 0 && (mask & (1u << cur)))
            c = cur;
        else
            for (c = 0; !(mask & (1u << c)); ++c)
                ;
    }
    sched::Step s;
    s.enabled = mask;
    s.chosen = c;
    s.current = cur < 0 ? 255 : cur;
    trace->steps.push_back(s);
    return c;
}
void switchTo(int c)
{
    if (c == tid)
        return;
    const int me = tid;
    current = c;
    sem_post(&T[c].sem);
    while (sem_wait(&T[me].sem) != 0)
        ;
}
/// scheduling point of the running thread
void point()
{
    const int c = choose(tid);
    if (c < 0)
        fatal("deadlock");
    switchTo(c);
}

void lockSync(const void* a)
{
    if (learning && !ignored(a) && nIgnored < NIGN)
        ignoredLocks[nIgnored++] = a;
    if (!active || tid < 0)
        return;
    if (ignored(a)) {
        quiet++;
        return;
    }
    hooks++;
    T[tid].blockedOn = a;
    if (findSync(a)->owner == tid)
        fatal("deadlock: a thread waits for a lock it holds");
    point();
    T[tid].blockedOn = nullptr;
    Sync* s = findSync(a);
    if (s->owner >= 0)
        fatal("internal: lock taken");
    s->owner = tid;
    acquire(s->vc);
    hooks--;
}
void unlockSync(const void* a)
{
    if (!active || tid < 0)
        return;
    if (ignored(a)) {
        quiet--;
        return;
    }
    hooks++;
    Sync* s = findSync(a);
    if (s->owner != tid)
        fatal("a lock is released by a thread not holding it");
    release(s->vc);
    s->owner = -1;
    hooks--;
}

void barrier()
{
    if (!active || tid < 0 || nested)
        return;
    hooks++;
    T[tid].atBarrier = true;
    int waiting = 0, alive = 0;
    for (int t = 0; t < team; ++t) {
        alive++;
        if (T[t].atBarrier)
            waiting++;
    }
    if (waiting == alive) { // last one
        clk m[MAXT] = {0};
        for (int t = 0; t < team; ++t)
            for (int i = 0; i < MAXT; ++i)
                if (T[t].vc[i] > m[i])
                    m[i] = T[t].vc[i];
        for (int t = 0; t < team; ++t) {
            for (int i = 0; i < MAXT; ++i)
                T[t].vc[i] = m[i];
            T[t].vc[t]++;
            T[t].atBarrier = false;
        }
    } else {
        const int c = choose(-1);
        if (c < 0)
            fatal("deadlock: threads miss a barrier");
        switchTo(c);
    }
    hooks--;
}

// ---------- shadow memory
struct Cell
{
    uintptr_t key;
    unsigned gen;
    clk w[MAXT][8], r[MAXT][8];
    const void* pcw[MAXT];
    const void* pcr[MAXT];
};
const size_t NCELL = 1 << 17;
Cell* cells = nullptr;
unsigned gen = 0;
size_t used = 0;

Cell* findCell(uintptr_t key, bool create)
{
    size_t h = key * 0x9E3779B97F4A7C15ull >> 47;
    for (;;) {
        Cell& c = cells[h];
        if (c.gen == gen && c.key == key)
            return &c;
        if (c.gen != gen) {
            if (!create)
                return nullptr;
            if (++used > NCELL * 3 / 4) {
                fprintf(stderr, "sched: shadow memory full\n");
                _exit(99);
            }
            c.gen = gen;
            c.key = key;
            memset(c.w, 0, sizeof(c.w));
            memset(c.r, 0, sizeof(c.r));
            return &c;
        }
        h = (h + 1) & (NCELL - 1);
    }
}

std::string where(const void* pc)
{
    Dl_info i;
    char b[400];
    if (pc && dladdr(pc, &i) && i.dli_fname) {
        const char* f = strrchr(i.dli_fname, '/');
        snprintf(b, sizeof(b), "%s (%s+0x%lx)", i.dli_sname ? i.dli_sname : "?", f ? f + 1 : i.dli_fname, (unsigned long)((const char*)pc - (const char*)i.dli_fbase));
    } else {
        snprintf(b, sizeof(b), "%p", pc);
    }
    return b;
}
void raceFound(const void* addr, bool w1, const void* pc1, bool w2, const void* pc2)
{
    (void)addr;
    if (!trace || !trace->race.empty())
        return;
    const std::string r = std::string(w1 ? "write" : "read") + " in " + where(pc1) + " is not ordered with " + (w2 ? "write" : "read") + " in " + where(pc2);
    if (r.find("6Logger") != std::string::npos || r.find("Log2Stderr") != std::string::npos)
        return; // the lock of the logging facility is not explored
    trace->race = r;
}

void access(const void* p, size_t size, bool write, const void* pc)
{
    if (!active || hooks || quiet || tid < 0 || size == 0)
        return;
    hooks++;
    trace->accesses++;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    const uintptr_t end = a + size;
    const clk* v = T[tid].vc;
    while (a < end) {
        Cell* c = findCell(a >> 3, true);
        unsigned b = a & 7;
        const unsigned e = (end >> 3) == (a >> 3) ? (end & 7) : 8;
        if (b == 0 && e == 8) {
            a += 8;
            for (int u = 0; u < team; ++u) {
                if (u == tid)
                    continue;
                unsigned w = 0, r = 0;
                for (int i = 0; i < 8; ++i) {
                    w |= c->w[u][i] > v[u];
                    r |= c->r[u][i] > v[u];
                }
                if (w)
                    raceFound(p, write, pc, true, c->pcw[u]);
                if (write && r)
                    raceFound(p, write, pc, false, c->pcr[u]);
            }
            clk* mine = write ? c->w[tid] : c->r[tid];
            for (int i = 0; i < 8; ++i)
                mine[i] = v[tid];
        } else for (; b < e; ++b, ++a) {
            for (int u = 0; u < team; ++u) {
                if (u == tid)
                    continue;
                if (c->w[u][b] > v[u])
                    raceFound(p, write, pc, true, c->pcw[u]);
                if (write && c->r[u][b] > v[u])
                    raceFound(p, write, pc, false, c->pcr[u]);
            }
            if (write)
                c->w[tid][b] = v[tid];
            else
                c->r[tid][b] = v[tid];
        }
        if (write)
            c->pcw[tid] = pc;
        else
            c->pcr[tid] = pc;
    }
    hooks--;
}

/// memory is returned: it must not be in use elsewhere, and later use is unrelated
void freed(void* p, const void* pc)
{
    if (!p || !active || tid < 0 || hooks)
        return;
    hooks++;
    const size_t size = malloc_usable_size(p);
    const uintptr_t a = reinterpret_cast<uintptr_t>(p);
    const clk* v = T[tid].vc;
    for (uintptr_t k = a >> 3; k <= (a + size - 1) >> 3; ++k) {
        Cell* c = findCell(k, false);
        if (!c)
            continue;
        for (int u = 0; u < team; ++u) {
            for (int b = 0; b < 8; ++b) {
                if (!quiet && u != tid && c->w[u][b] > v[u])
                    raceFound(p, true, pc, true, c->pcw[u]);
                if (!quiet && u != tid && c->r[u][b] > v[u])
                    raceFound(p, true, pc, false, c->pcr[u]);
            }
        }
        memset(c->w, 0, sizeof(c->w));
        memset(c->r, 0, sizeof(c->r));
    }
    hooks--;
}

// ---------- regions
void* workerMain(void* arg)
{
    tid = static_cast<int>(reinterpret_cast<intptr_t>(arg));
    while (sem_wait(&T[tid].sem) != 0)
        ;
    regionFn(regionData);
    hooks++;
    T[tid].done = true;
    const int me = tid;
    const int c = choose(-1);
    if (c >= 0) {
        current = c;
        sem_post(&T[c].sem);
    } else {
        for (int t = 0; t < team; ++t)
            if (!T[t].done)
                fatal("deadlock at the end of a thread");
        sem_post(&joinSem);
    }
    (void)me;
    return nullptr;
}

void runRegion(void (*fn)(void*), void* data, unsigned n, void (*prepare)())
{
    const int want = n ? std::min<int>(n, nThreads) : nThreads;
    if (!armed || active || tid >= 0 || want <= 1) {
        nested++;
        if (prepare)
            prepare();
        fn(data);
        nested--;
        return;
    }
    team = want;
    regionFn = fn;
    regionData = data;
    regionNo++;
    gen++;
    used = 0;
    if (!cells)
        cells = static_cast<Cell*>(__libc_calloc(NCELL, sizeof(Cell)));
    sem_init(&joinSem, 0, 0);
    for (int t = 0; t < team; ++t) {
        sem_init(&T[t].sem, 0, 0);
        T[t].done = false;
        T[t].blockedOn = nullptr;
        T[t].atBarrier = false;
        memset(T[t].vc, 0, sizeof(T[t].vc));
        T[t].vc[t] = 1;
    }
    trace->regions++;
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 1 << 20);
    for (int t = 1; t < team; ++t)
        if (pthread_create(&T[t].th, &attr, workerMain, reinterpret_cast<void*>(intptr_t(t))) != 0)
            fatal("cannot create thread");
    pthread_attr_destroy(&attr);
    // the master is thread 0
    tid = 0;
    if (prepare)
        prepare();
    active = true;
    const int first = choose(0);
    switchTo(first);
    fn(data);
    hooks++;
    T[0].done = true;
    const int c = choose(-1);
    if (c >= 0) {
        current = c;
        sem_post(&T[c].sem);
        while (sem_wait(&joinSem) != 0)
            ;
    } else {
        for (int t = 0; t < team; ++t)
            if (!T[t].done)
                fatal("deadlock at the end of the region");
    }
    active = false;
    for (int t = 1; t < team; ++t)
        pthread_join(T[t].th, nullptr);
    tid = -1;
    hooks--;
    team = 1;
}

// ---------- loops with dynamic schedules
struct Loop
{
    long next, end, incr, chunk;
    bool started;
    int finished;
};
Loop dyn;
long lpStart, lpEnd, lpIncr, lpChunk;
bool loopNext(long* istart, long* iend)
{
    if (active && tid >= 0 && !nested) {
        hooks++;
        point();
        hooks--;
    }
    if (dyn.incr > 0 ? dyn.next >= dyn.end : dyn.next <= dyn.end)
        return false;
    *istart = dyn.next;
    long n = dyn.next + dyn.chunk * dyn.incr;
    if (dyn.incr > 0 ? n > dyn.end : n < dyn.end)
        n = dyn.end;
    *iend = n;
    dyn.next = n;
    return true;
}
void loopInit(long start, long end, long incr, long chunk)
{
    dyn.next = start;
    dyn.end = end;
    dyn.incr = incr;
    dyn.chunk = chunk > 0 ? chunk : 1;
    dyn.started = true;
    dyn.finished = 0;
}
void loopFinish()
{
    if (++dyn.finished >= ((active && !nested) ? team : 1))
        dyn.started = false;
}
void prepareLoop()
{
    loopInit(lpStart, lpEnd, lpIncr, lpChunk);
}
} // namespace

namespace sched {
void learnIgnoredLocks(const std::function<void()>& f)
{
    learning = true;
    f();
    learning = false;
}

Trace run(int threads, const std::vector<unsigned char>& decisions, const std::function<void()>& f)
{
    Trace t;
    trace = &t;
    plan = &decisions;
    nThreads = threads;
    armed = true;
    try {
        f();
    } catch (...) {
        armed = false;
        throw;
    }
    armed = false;
    plan = nullptr;
    trace = nullptr;
    return t;
}

int preemptions(const std::vector<Step>& steps, size_t n)
{
    int p = 0;
    for (size_t i = 0; i < n; ++i)
        if (steps[i].current != 255 && (steps[i].enabled & (1u << steps[i].current)) && steps[i].chosen != steps[i].current)
            p++;
    return p;
}

Totals exploreAll(int threads, int bound, size_t cap, int shard, int shards, const std::function<void()>& f, const std::function<bool(const Trace&)>& visit)
{
    Totals tot;
    std::vector<std::vector<unsigned char>> work;
    work.push_back(std::vector<unsigned char>());
    bool root = true;
    while (!work.empty()) {
        const std::vector<unsigned char> prefix = work.back();
        work.pop_back();
        const Trace t = run(threads, prefix, f);
        if (!root || shard == 0) {
            tot.executions++;
            tot.steps += t.steps.size();
            tot.accesses += t.accesses;
            tot.regions += t.regions;
            if (!visit(t))
                return tot;
        }
        if (root && getenv("VSCHED_STAT")) {
            fprintf(stderr, "root: %zu steps %zu regions %zu accesses\n", t.steps.size(), t.regions, t.accesses);
            _exit(0);
        }
        if (root) {
            // fewer preemptions for long executions
            auto estimate = [&](int b) {
                double e = 1, f = 1;
                for (int k = 1; k <= b; ++k) {
                    f *= (double(t.steps.size()) - k + 1) / k * (threads - 1);
                    e += std::max(f, 0.);
                }
                return e;
            };
            while (bound > 1 && estimate(bound) > cap)
                bound--;
            tot.bound = bound;
        }
        size_t alternatives = 0;
        std::vector<unsigned char> head;
        for (size_t i = 0; i < t.steps.size(); ++i) {
            const Step& s = t.steps[i];
            if (i >= prefix.size()) {
                for (int c = 0; c < threads; ++c) {
                    if (!(s.enabled & (1u << c)) || c == s.chosen)
                        continue;
                    const bool preempt = s.current != 255 && (s.enabled & (1u << s.current)) && c != s.current;
                    if (preemptions(t.steps, i) + (preempt ? 1 : 0) > bound)
                        continue;
                    if (root && int(alternatives++ % shards) != shard)
                        continue;
                    std::vector<unsigned char> p = head;
                    p.push_back(c);
                    work.push_back(p);
                }
            }
            head.push_back(s.chosen);
        }
        root = false;
    }
    return tot;
}

static char libraryState[16][8] __attribute__((aligned(8)));
void libraryAccess(int lib)
{
    access(libraryState[lib], 8, true, __builtin_return_address(0));
}
} // namespace sched

// ---------- OpenMP runtime
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { runRegion(fn, data, n, nullptr); }
void GOMP_barrier() { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
int omp_get_thread_num() { return (tid >= 0 && !nested) ? tid : 0; }
int omp_get_num_threads() { return (tid >= 0 && !nested) ? team : 1; }
int omp_get_max_threads() { return nThreads; }
int omp_in_parallel() { return active && tid >= 0; }
void omp_set_num_threads(int) {}
int omp_get_num_procs() { return 1; }

struct omp_lock_any;
void omp_init_lock(omp_lock_any*) {}
void omp_destroy_lock(omp_lock_any*) {}
void omp_set_lock(omp_lock_any* l)
{
    lockSync(l);
}
void omp_unset_lock(omp_lock_any* l) { unlockSync(l); }
int omp_test_lock(omp_lock_any* l)
{
    if (active && tid >= 0) {
        hooks++;
        point();
        const bool free = findSync(l)->owner < 0;
        hooks--;
        if (!free)
            return 0;
        T[tid].blockedOn = nullptr;
        Sync* s = findSync(l);
        s->owner = tid;
        acquire(s->vc);
    }
    return 1;
}
static char anonymousCritical, atomicSection;
void GOMP_critical_name_start(void** p) { lockSync(p); }
void GOMP_critical_name_end(void** p) { unlockSync(p); }
void GOMP_critical_start() { lockSync(&anonymousCritical); }
void GOMP_critical_end() { unlockSync(&anonymousCritical); }
void GOMP_atomic_start() { lockSync(&atomicSection); }
void GOMP_atomic_end() { unlockSync(&atomicSection); }
bool GOMP_single_start() { return omp_get_thread_num() == 0; }

#define PARLOOP(NAME) \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, long chunk, unsigned) \
    { \
        lpStart = start; \
        lpEnd = end; \
        lpIncr = incr; \
        lpChunk = chunk; \
        runRegion(fn, data, n, prepareLoop); \
    }
PARLOOP(static)
PARLOOP(dynamic)
PARLOOP(guided)
PARLOOP(nonmonotonic_dynamic)
PARLOOP(nonmonotonic_guided)
#define PARLOOP2(NAME) \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, unsigned) \
    { \
        lpStart = start; \
        lpEnd = end; \
        lpIncr = incr; \
        lpChunk = 1; \
        runRegion(fn, data, n, prepareLoop); \
    }
PARLOOP2(runtime)
PARLOOP2(nonmonotonic_runtime)
PARLOOP2(maybe_nonmonotonic_runtime)
#define LOOP(NAME) \
    bool GOMP_loop_##NAME##_start(long start, long end, long incr, long chunk, long* is, long* ie) \
    { \
        if (!dyn.started) \
            loopInit(start, end, incr, chunk); \
        return loopNext(is, ie); \
    } \
    bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loopNext(is, ie); }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
void GOMP_loop_end()
{
    loopFinish();
    barrier();
}
void GOMP_loop_end_nowait() { loopFinish(); }

// ---------- initialisation of local statics
int __cxa_guard_acquire(uint64_t* g)
{
    char* b = reinterpret_cast<char*>(g);
    if (active && tid >= 0) {
        hooks++;
        for (;;) {
            if (b[0]) {
                acquire(findSync(g)->vc);
                hooks--;
                return 0;
            }
            if (!b[1])
                break;
            // another thread is initialising: wait for it
            T[tid].blockedOn = b + 1;
            point();
            T[tid].blockedOn = nullptr;
        }
        b[1] = 1;
        findSync(b + 1)->owner = tid;
        hooks--;
        return 1;
    }
    return b[0] ? 0 : 1;
}
static void guardDone(uint64_t* g, bool ok)
{
    char* b = reinterpret_cast<char*>(g);
    b[0] = ok;
    b[1] = 0;
    if (active && tid >= 0) {
        hooks++;
        release(findSync(g)->vc);
        findSync(b + 1)->owner = -1;
        hooks--;
    }
}
void __cxa_guard_release(uint64_t* g) { guardDone(g, true); }
void __cxa_guard_abort(uint64_t* g) { guardDone(g, false); }

// ---------- memory
void* malloc(size_t n) { return __libc_malloc(n); }
void free(void* p)
{
    if (active)
        freed(p, __builtin_return_address(0));
    __libc_free(p);
}
void* calloc(size_t n, size_t m) { return __libc_calloc(n, m); }
void* realloc(void* p, size_t n)
{
    if (!active || !p)
        return __libc_realloc(p, n);
    void* q = __libc_malloc(n);
    if (!q)
        return nullptr;
    const size_t old = malloc_usable_size(p);
    hooks++;
    memcpy(q, p, old < n ? old : n);
    hooks--;
    free(p);
    return q;
}

static inline void rawcopy(void* d, const void* s, size_t n)
{
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
void* memcpy(void* d, const void* s, size_t n)
{
    if (active) {
        access(s, n, false, __builtin_return_address(0));
        access(d, n, true, __builtin_return_address(0));
    }
    rawcopy(d, s, n);
    return d;
}
void* memmove(void* d, const void* s, size_t n)
{
    if (active) {
        access(s, n, false, __builtin_return_address(0));
        access(d, n, true, __builtin_return_address(0));
    }
    char* dc = static_cast<char*>(d);
    const char* sc = static_cast<const char*>(s);
    if (dc <= sc || dc >= sc + n) {
        rawcopy(d, s, n);
    } else {
        for (size_t i = n; i-- > 0;) {
            dc[i] = sc[i];
            asm volatile("" : : : "memory");
        }
    }
    return d;
}
void* memset(void* d, int c, size_t n)
{
    if (active)
        access(d, n, true, __builtin_return_address(0));
    void* p = d;
    asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory");
    return d;
}

void* vf_library_call(const char* name, int lib, void** cache)
{
    sched::libraryAccess(lib);
    if (!*cache) {
        hooks++;
        *cache = dlsym(RTLD_NEXT, name);
        hooks--;
        if (!*cache)
            fatal(name);
    }
    return *cache;
}

// ---------- instrumentation
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* a) \
    { \
        if (active) \
            access(a, N, false, PC); \
    } \
    void __tsan_write##N(void* a) \
    { \
        if (active) \
            access(a, N, true, PC); \
    } \
    void __tsan_unaligned_read##N(void* a) \
    { \
        if (active) \
            access(a, N, false, PC); \
    } \
    void __tsan_unaligned_write##N(void* a) \
    { \
        if (active) \
            access(a, N, true, PC); \
    } \
    void __tsan_volatile_read##N(void* a) { (void)a; } \
    void __tsan_volatile_write##N(void* a) { (void)a; }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, size_t n)
{
    if (active)
        access(a, n, false, PC);
}
void __tsan_write_range(void* a, size_t n)
{
    if (active)
        access(a, n, true, PC);
}
void __tsan_vptr_read(void** a)
{
    if (active)
        access(a, 8, false, PC);
}
void __tsan_vptr_update(void** a, void* v)
{
    if (active && *a != v)
        access(a, 8, true, PC);
}

// atomics: reference counts order only what is needed to destroy the object
static void atomicAcquire(const volatile void* a)
{
    if (active && tid >= 0) {
        hooks++;
        acquire(findSync(const_cast<const void*>(a))->vc);
        hooks--;
    }
}
static void atomicRelease(const volatile void* a)
{
    if (active && tid >= 0) {
        hooks++;
        release(findSync(const_cast<const void*>(a))->vc);
        hooks--;
    }
}
#define ATOMIC(BITS, TYPE) \
    TYPE __tsan_atomic##BITS##_load(const volatile TYPE* a, int mo) \
    { \
        if (mo != __ATOMIC_RELAXED) \
            atomicAcquire(a); \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    } \
    void __tsan_atomic##BITS##_store(volatile TYPE* a, TYPE v, int mo) \
    { \
        if (mo != __ATOMIC_RELAXED) \
            atomicRelease(a); \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    TYPE __tsan_atomic##BITS##_exchange(volatile TYPE* a, TYPE v, int) \
    { \
        atomicAcquire(a); \
        atomicRelease(a); \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    TYPE __tsan_atomic##BITS##_fetch_add(volatile TYPE* a, TYPE v, int) \
    { \
        const TYPE old = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); \
        if (static_cast<TYPE>(v + 1) == 0) { \
            atomicRelease(a); \
            if (old == 1) \
                atomicAcquire(a); \
        } \
        return old; \
    } \
    TYPE __tsan_atomic##BITS##_fetch_sub(volatile TYPE* a, TYPE v, int) \
    { \
        const TYPE old = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); \
        atomicRelease(a); \
        if (old == v) \
            atomicAcquire(a); \
        return old; \
    } \
    TYPE __tsan_atomic##BITS##_fetch_or(volatile TYPE* a, TYPE v, int) \
    { \
        atomicAcquire(a); \
        atomicRelease(a); \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); \
    } \
    TYPE __tsan_atomic##BITS##_fetch_and(volatile TYPE* a, TYPE v, int) \
    { \
        atomicAcquire(a); \
        atomicRelease(a); \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); \
    } \
    TYPE __tsan_atomic##BITS##_fetch_xor(volatile TYPE* a, TYPE v, int) \
    { \
        atomicAcquire(a); \
        atomicRelease(a); \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); \
    } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile TYPE* a, TYPE* c, TYPE v, int, int) \
    { \
        atomicAcquire(a); \
        atomicRelease(a); \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile TYPE* a, TYPE* c, TYPE v, int m, int n) { return __tsan_atomic##BITS##_compare_exchange_strong(a, c, v, m, n); }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
