// libsimrt.so: the scheduler of the simulator. Takes the place of libgomp and of the ThreadSanitizer runtime.
//
// The code under test is compiled by gcc with -fopenmp (work is handed to GOMP_*) and -fsanitize=thread (each memory
// access calls __tsan_*). Both interfaces are implemented here:
//
//  * GOMP_parallel etc. run the team on real threads which are parked and released one at a time. Which thread runs is
//    decided by a seeded pseudo random scheduler, at work-sharing and synchronisation operations and at memory accesses.
//  * each access is checked against a vector clock shadow: two accesses to the same byte by different threads of a team,
//    at least one of them a write, not ordered by synchronisation, are reported as a race.
//
// Every decision is recorded as (step, thread) and can be replayed. Nothing in here depends on addresses, real time or
// real thread scheduling.
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

static const int MAXT = 16;

static inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
                      x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

// ------------------------------------------------------------------------------------------------------------- config

enum Strategy { ST_SERIAL = 0, ST_CHUNK = 1, ST_RANDOM = 2, ST_PCT = 3, ST_SHARED = 4, ST_ROUND = 5 };

struct Config {
    int active;
    uint64_t seed;
    int strategy;
    int64_t gap;          // mean number of accesses between preemptions (ST_RANDOM / ST_ROUND)
    int depth;            // number of change points per region (ST_PCT)
    int fewerThreads;     // percentage of regions that are given fewer threads than requested
    int stall;            // percentage of regions with one stalled thread
    int detect;           // race detection enabled
    int64_t regionBudget; // maximum number of steps per region
    int scribble;         // fill the stacks of the workers with this pattern (0 = off)
    int cores;            // simulated number of cores
    int replay;           // follow the recorded trace instead of the strategy
};

static Config cfg;
static Rng rng;

struct Stats {
    uint64_t regions, parallelRegions, steps, switches, preemptions, chunks, fewer, stalled, blocked, races, scheduleHash,
      maxTeam, atomics, locks, barriers, budgetHits, sharedHits;
};
static Stats stats;

struct Decision { uint64_t step; uint32_t thread; uint32_t region; };
static Decision* trace = nullptr;
static size_t traceLen = 0, traceCap = 0;
static Decision* replayTrace = nullptr;
static size_t replayLen = 0, replayPos = 0;

struct RaceReport {
    uint64_t pc1, pc2;   // current, previous
    uint32_t kind1, kind2;  // 0 read, 1 write, 2 atomic read, 3 atomic write
    uint32_t tid1, tid2;
    uint32_t region;
    uint32_t size;
    uint64_t step;
};
static RaceReport races[64];
static int numRaces = 0;

// -------------------------------------------------------------------------------------------------------------- threads

struct WorkShare {
    int init;
    long next, end, incr, chunk;
    unsigned long long unext, uend, uincr, uchunk;
    int kind;      // 0 dynamic, 1 static, 2 guided
    int isUll, up;
    long staticPos[MAXT];
    int arrived;   // single
    int sectionNext, sectionCount;
    void* copy;
    int copyReady;
};

struct Lock {
    const void* addr;
    int owner;     // -1 = free
    int depth;
    uint64_t vc[MAXT];
};

struct ThreadState {
    int futexWord;
    int id;
    int done;
    int blockedKind;          // 0 runnable, 1 lock, 2 barrier, 3 guard/other
    const void* blockedOn;
    int stalled;
    int wsIdx;
    WorkShare* ws;
    int sections;
    uint64_t vc[MAXT];
    int64_t priority;
    pthread_t handle;
    int started;
};

struct Team {
    int active;
    int n;
    int current;
    int finished;
    void (*fn)(void*);
    void* data;
    uint64_t steps;
    uint64_t nextPreempt;     // team step of the next preemption
    uint32_t region;
    int barrierCount;
    WorkShare* ws;
    int wsCap;
    ThreadState t[MAXT];
    int64_t pctPoints[16];
    int pctCount, pctPos;
    int64_t lowest;
    int fair;
    uint64_t lastLen;
};

static Team team;
static __thread int selfId = -1;  // index within the team or -1
static __thread int inSim = 0;    // re-entrance guard

static Lock locks[4096];
static int numLocks = 0;

static void futexWait(int* w, int v) { syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futexWake(int* w) { syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void park(ThreadState& t) {
    while (__atomic_load_n(&t.futexWord, __ATOMIC_ACQUIRE) == 0) futexWait(&t.futexWord, 0);
    __atomic_store_n(&t.futexWord, 0, __ATOMIC_RELAXED);
}

static void unpark(ThreadState& t) {
    __atomic_store_n(&t.futexWord, 1, __ATOMIC_RELEASE);
    futexWake(&t.futexWord);
}

static void fatal(int code, const char* what) {
    char buf[512];
    int n = snprintf(buf, sizeof(buf), "SIMRT-FATAL %s region=%u step=%llu team=%d\n", what, team.region,
                     (unsigned long long) team.steps, team.n);
    ssize_t ignored = syscall(SYS_write, 2, buf, (size_t) n);
    (void) ignored;
    syscall(SYS_exit_group, code);
}

static void record(uint32_t thread) {
    if (traceLen == traceCap) {
        size_t cap = traceCap ? traceCap * 2 : 65536;
        Decision* q = (Decision*) mmap(nullptr, cap * sizeof(Decision), PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (traceLen) memcpy(q, trace, traceLen * sizeof(Decision));
        if (trace) munmap(trace, traceCap * sizeof(Decision));
        trace = q;
        traceCap = cap;
    }
    trace[traceLen].step = stats.steps;
    trace[traceLen].thread = thread;
    trace[traceLen].region = team.region;
    traceLen++;
    stats.scheduleHash = mix(stats.scheduleHash ^ (stats.steps * 31 + thread));
}

static bool runnable(int i) { return !team.t[i].done && team.t[i].blockedKind == 0; }

static void scheduleNextPreempt() {
    switch (cfg.strategy) {
        case ST_RANDOM: team.nextPreempt = team.steps + 1 + rng.below((uint64_t) cfg.gap * 2); break;
        case ST_ROUND: team.nextPreempt = team.steps + (uint64_t) cfg.gap; break;
        case ST_PCT:
            team.nextPreempt = team.pctPos < team.pctCount ? (uint64_t) team.pctPoints[team.pctPos] : UINT64_MAX;
            break;
        default: team.nextPreempt = UINT64_MAX; break;
    }
    uint64_t fairAt = (uint64_t) cfg.regionBudget / 2;
    if (team.fair) team.nextPreempt = team.steps + 50;
    else if (team.nextPreempt > fairAt) team.nextPreempt = fairAt;
}

// Picks the thread to run next. `self` may or may not be runnable. Returns -1 if nobody can run.
static int pick(int self, bool voluntary) {
    int cand[MAXT], n = 0;
    for (int i = 0; i < team.n; i++)
        if (runnable(i) && !team.t[i].stalled) cand[n++] = i;
    if (n == 0) {
        for (int i = 0; i < team.n; i++)
            if (runnable(i)) {
                team.t[i].stalled = 0;
                cand[n++] = i;
            }
        if (n == 0) return -1;
    }
    bool selfOk = false;
    for (int i = 0; i < n; i++) selfOk |= cand[i] == self;
    if (cfg.replay) {
        // Decisions of the recorded trace are followed; otherwise the current thread goes on or the lowest one is taken.
        return selfOk ? self : cand[0];
    }
    if (team.fair) {
        for (int k = 1; k <= team.n; k++) {
            int c = (self + k) % team.n;
            for (int i = 0; i < n; i++)
                if (cand[i] == c) return c;
        }
    }
    switch (cfg.strategy) {
        case ST_SERIAL: return selfOk ? self : cand[0];
        case ST_PCT: {
            int best = cand[0];
            for (int i = 1; i < n; i++)
                if (team.t[cand[i]].priority > team.t[best].priority) best = cand[i];
            return best;
        }
        case ST_ROUND: {
            for (int k = 1; k <= team.n; k++) {
                int c = (self + k) % team.n;
                for (int i = 0; i < n; i++)
                    if (cand[i] == c) return c;
            }
            return cand[0];
        }
        default: return cand[rng.below((uint64_t) n)];
    }
    (void) voluntary;
}

static void switchTo(int self, int next) {
    if (next == self) return;
    stats.switches++;
    record((uint32_t) next);
    team.current = next;
    unpark(team.t[next]);
    park(team.t[self]);
}

static int replayDecision(int self) {
    // returns the thread demanded by the trace at this step or -1
    int result = -1;
    while (replayPos < replayLen && replayTrace[replayPos].step <= stats.steps) {
        if (replayTrace[replayPos].step == stats.steps) result = (int) replayTrace[replayPos].thread;
        replayPos++;
    }
    if (result >= 0 && result < team.n && runnable(result)) return result;
    (void) self;
    return -1;
}

// A point at which the thread may lose the processor.
static void schedulePoint(bool voluntary) {
    int self = selfId;
    stats.steps++;
    team.steps++;
    if (team.steps > (uint64_t) cfg.regionBudget) {
        stats.budgetHits++;
        fatal(79, "no-progress");
    }
    int next;
    if (cfg.replay) {
        next = replayDecision(self);
        if (next < 0) next = pick(self, voluntary);
    } else {
        next = pick(self, voluntary);
    }
    if (next != self) {
        if (!voluntary) stats.preemptions++;
        switchTo(self, next);
    }
}

static void blockedSwitch() {
    // The current thread cannot continue: hand over or report a deadlock.
    int self = selfId;
    stats.blocked++;
    stats.steps++;
    team.steps++;
    int next = -1;
    if (cfg.replay) next = replayDecision(self);
    if (next < 0 || next == self) next = pick(self, true);
    if (next < 0) fatal(78, "deadlock");
    switchTo(self, next);
}

static inline void accessPoint() {
    // Cheap version of schedulePoint for memory accesses.
    uint64_t s = ++team.steps;
    stats.steps++;
    if (cfg.replay) {
        if (replayPos < replayLen && replayTrace[replayPos].step <= stats.steps) {
            int next = replayDecision(selfId);
            if (next >= 0 && next != selfId) {
                stats.preemptions++;
                switchTo(selfId, next);
            }
        }
        if (s > (uint64_t) cfg.regionBudget) {
            stats.budgetHits++;
            fatal(79, "no-progress");
        }
        return;
    }
    if (s >= team.nextPreempt) {
        if (s > (uint64_t) cfg.regionBudget) {
            stats.budgetHits++;
            fatal(79, "no-progress");
        }
        if (!team.fair && s >= (uint64_t) cfg.regionBudget / 2) {
            team.fair = 1;
            for (int i = 0; i < team.n; i++) team.t[i].stalled = 0;
        }
        if (cfg.strategy == ST_PCT && !team.fair) {
            team.pctPos++;
            team.t[selfId].priority = --team.lowest;
        }
        scheduleNextPreempt();
        int next = pick(selfId, false);
        if (next != selfId) {
            stats.preemptions++;
            switchTo(selfId, next);
        }
    }
}

// ------------------------------------------------------------------------------------------------- shadow / race detector

struct Cell {
    uint64_t clock;    // 0 = empty
    uint64_t pc;
    uint8_t tid, mask, write, atomic;
};

static const int CELLS = 4;

struct Granule {
    uint64_t key;      // address / 8
    uint32_t gen;      // region generation
    uint32_t evict;
    Cell c[CELLS];
};

static Granule* shadow = nullptr;
static size_t shadowCap = 0, shadowUsed = 0;
static uint32_t shadowGen = 1;

static void shadowInit(size_t cap) {
    shadow = (Granule*) mmap(nullptr, cap * sizeof(Granule), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    shadowCap = cap;
    shadowUsed = 0;
}

static Granule* shadowFind(uint64_t key, bool create);

static void shadowGrow() {
    Granule* old = shadow;
    size_t cap = shadowCap;
    shadowInit(cap * 2);
    for (size_t i = 0; i < cap; i++)
        if (old[i].gen == shadowGen) {
            Granule* g = shadowFind(old[i].key, true);
            *g = old[i];
        }
    munmap(old, cap * sizeof(Granule));
}

static Granule* shadowFind(uint64_t key, bool create) {
    size_t m = shadowCap - 1;
    size_t i = (size_t) mix(key) & m;
    while (true) {
        Granule& g = shadow[i];
        if (g.gen != shadowGen) {
            if (!create) return nullptr;
            if (shadowUsed * 2 > shadowCap) {
                shadowGrow();
                return shadowFind(key, create);
            }
            shadowUsed++;
            memset(&g, 0, sizeof(g));
            g.key = key;
            g.gen = shadowGen;
            return &g;
        }
        if (g.key == key) return &g;
        i = (i + 1) & m;
    }
}

static void reportRace(uint64_t pc, bool write, bool atomic, const Cell& c, uint32_t size) {
    stats.races++;
    uint64_t a = pc, b = c.pc;
    for (int i = 0; i < numRaces; i++)
        if ((races[i].pc1 == a && races[i].pc2 == b) || (races[i].pc1 == b && races[i].pc2 == a)) return;
    if (numRaces >= 64) return;
    RaceReport& r = races[numRaces++];
    r.pc1 = a;
    r.pc2 = b;
    r.kind1 = (write ? 1u : 0u) + (atomic ? 2u : 0u);
    r.kind2 = (c.write ? 1u : 0u) + (c.atomic ? 2u : 0u);
    r.tid1 = (uint32_t) selfId;
    r.tid2 = c.tid;
    r.region = team.region;
    r.size = size;
    r.step = stats.steps;
}

// Returns true if the granule has been used by another thread in a conflicting manner.
static bool checkGranule(uint64_t key, uint8_t mask, bool write, bool atomic, uint64_t pc, uint32_t size) {
    Granule* g = shadowFind(key, true);
    ThreadState& t = team.t[selfId];
    bool shared = false;
    int slot = -1;
    int empty = -1;
    for (int i = 0; i < CELLS; i++) {
        Cell& c = g->c[i];
        if (!c.clock) {
            if (empty < 0) empty = i;
            continue;
        }
        if (c.tid == selfId) {
            if (c.mask == mask && c.atomic == (uint8_t) atomic && (write || !c.write)) slot = i;
            continue;
        }
        if (!(c.mask & mask)) continue;
        if (c.write || write) {
            shared = true;
            if (!(c.atomic && atomic) && c.clock > t.vc[c.tid]) reportRace(pc, write, atomic, c, size);
        }
    }
    if (slot < 0) slot = empty;
    if (slot < 0) {
        slot = (int) (g->evict++ % CELLS);
    }
    Cell& c = g->c[slot];
    c.clock = t.vc[selfId];
    c.pc = pc;
    c.tid = (uint8_t) selfId;
    c.mask = mask;
    c.write = write;
    c.atomic = atomic;
    return shared;
}

static bool checkRange(uint64_t addr, uint64_t size, bool write, bool atomic, uint64_t pc) {
    bool shared = false;
    uint64_t end = addr + size;
    while (addr < end) {
        uint64_t key = addr >> 3;
        uint64_t off = addr & 7;
        uint64_t n = 8 - off;
        if (n > end - addr) n = end - addr;
        uint8_t mask = (uint8_t) (((1u << n) - 1u) << off);
        shared |= checkGranule(key, mask, write, atomic, pc, (uint32_t) size);
        addr += n;
    }
    return shared;
}

static void onAlloc(void* p, size_t size, int kind) {
    // Fresh memory has no history. The shadow of freed memory is dropped upon its next allocation.
    if (kind != 1 || selfId < 0 || !team.active || !cfg.detect || inSim) return;
    uint64_t lo = (uint64_t) p >> 3, hi = ((uint64_t) p + size + 7) >> 3;
    for (uint64_t k = lo; k < hi; k++) {
        Granule* g = shadowFind(k, false);
        if (g)
            for (int i = 0; i < CELLS; i++) g->c[i].clock = 0;
    }
}

static inline void onAccess(const void* addr, uint64_t size, bool write, bool atomic, void* pc) {
    if (selfId < 0 || !team.active || team.n < 2) return;
    accessPoint();
    if (cfg.detect) {
        bool shared = checkRange((uint64_t) addr, size, write, atomic, (uint64_t) pc);
        if (shared) {
            stats.sharedHits++;
            if (cfg.strategy == ST_SHARED && !cfg.replay && !team.fair && rng.below(4) == 0) {
                int next = pick(selfId, false);
                if (next != selfId) {
                    stats.preemptions++;
                    switchTo(selfId, next);
                }
            }
        }
    }
}

#define PC __builtin_return_address(0)
#define ACC(n) \
    EXPORT void __tsan_read##n(void* a) { onAccess(a, n, false, false, PC); } \
    EXPORT void __tsan_write##n(void* a) { onAccess(a, n, true, false, PC); } \
    EXPORT void __tsan_unaligned_read##n(void* a) { onAccess(a, n, false, false, PC); } \
    EXPORT void __tsan_unaligned_write##n(void* a) { onAccess(a, n, true, false, PC); } \
    EXPORT void __tsan_volatile_read##n(void* a) { onAccess(a, n, false, false, PC); } \
    EXPORT void __tsan_volatile_write##n(void* a) { onAccess(a, n, true, false, PC); } \
    EXPORT void __tsan_unaligned_volatile_read##n(void* a) { onAccess(a, n, false, false, PC); } \
    EXPORT void __tsan_unaligned_volatile_write##n(void* a) { onAccess(a, n, true, false, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EXPORT void __tsan_read_range(void* a, size_t n) { onAccess(a, n, false, false, PC); }
EXPORT void __tsan_write_range(void* a, size_t n) { onAccess(a, n, true, false, PC); }
EXPORT void __tsan_vptr_read(void** a) { onAccess(a, 8, false, false, PC); }
EXPORT void __tsan_vptr_update(void** a, void*) { onAccess(a, 8, true, false, PC); }
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}

// -------------------------------------------------------------------------------------------------------------- atomics

static Lock* lockFor(const void* addr) {
    for (int i = 0; i < numLocks; i++)
        if (locks[i].addr == addr) return &locks[i];
    if (numLocks >= 4096) fatal(80, "too-many-locks");
    Lock& l = locks[numLocks++];
    memset(&l, 0, sizeof(l));
    l.addr = addr;
    l.owner = -1;
    return &l;
}

static void acquireFrom(Lock* l) {
    ThreadState& t = team.t[selfId];
    for (int i = 0; i < team.n; i++)
        if (l->vc[i] > t.vc[i]) t.vc[i] = l->vc[i];
}

static void releaseTo(Lock* l) {
    ThreadState& t = team.t[selfId];
    for (int i = 0; i < team.n; i++)
        if (t.vc[i] > l->vc[i]) l->vc[i] = t.vc[i];
    t.vc[selfId]++;
}

// Synchronisation through an atomic object. Every atomic operation is treated as acquire + release unless relaxed.
static void atomicPoint(const volatile void* addr, uint64_t size, bool write, int order, void* pc) {
    if (selfId < 0 || !team.active || team.n < 2) return;
    stats.atomics++;
    if (cfg.strategy == ST_SERIAL || cfg.strategy == ST_PCT || cfg.replay) accessPoint();
    else schedulePoint(true);
    if (cfg.detect) checkRange((uint64_t) addr, size, write, true, (uint64_t) pc);
    if (order != __ATOMIC_RELAXED) {
        Lock* l = lockFor((const void*) addr);
        acquireFrom(l);
        if (write) releaseTo(l);
    }
}

#define ATOMICS(bits, T) \
    EXPORT T __tsan_atomic##bits##_load(const volatile T* a, int mo) { \
        atomicPoint(a, sizeof(T), false, mo, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    EXPORT void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { \
        atomicPoint(a, sizeof(T), true, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { \
        atomicPoint(a, sizeof(T), true, mo, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { \
        atomicPoint(a, sizeof(T), true, mo, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { \
        atomicPoint(a, sizeof(T), true, mo, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { \
        atomicPoint(a, sizeof(T), true, mo, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { \
        atomicPoint(a, sizeof(T), true, mo, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { \
        atomicPoint(a, sizeof(T), true, mo, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { \
        atomicPoint(a, sizeof(T), true, mo, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { \
        atomicPoint(a, sizeof(T), true, mo, PC); \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { \
        atomicPoint(a, sizeof(T), true, mo, PC); \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { \
        atomicPoint(a, sizeof(T), true, mo, PC); \
        __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------------------------------------------------------- locks

static inline bool inTeam() { return selfId >= 0 && team.active && team.n > 1; }

static void wakeBlocked(const void* addr) {
    for (int i = 0; i < team.n; i++)
        if (team.t[i].blockedKind == 1 && team.t[i].blockedOn == addr) team.t[i].blockedKind = 0;
}

static void lockAcquire(const void* addr, bool recursive) {
    stats.locks++;
    schedulePoint(true);
    Lock* l = lockFor(addr);
    while (l->owner >= 0 && !(recursive && l->owner == selfId)) {
        team.t[selfId].blockedKind = 1;
        team.t[selfId].blockedOn = addr;
        blockedSwitch();
        l = lockFor(addr);
    }
    l->owner = selfId;
    l->depth++;
    acquireFrom(l);
}

static bool lockTry(const void* addr, bool recursive) {
    stats.locks++;
    schedulePoint(true);
    Lock* l = lockFor(addr);
    if (l->owner >= 0 && !(recursive && l->owner == selfId)) return false;
    l->owner = selfId;
    l->depth++;
    acquireFrom(l);
    return true;
}

static void lockRelease(const void* addr) {
    Lock* l = lockFor(addr);
    if (--l->depth <= 0) {
        l->depth = 0;
        l->owner = -1;
        releaseTo(l);
        wakeBlocked(addr);
    }
    schedulePoint(true);
}

static const char criticalKey = 0, atomicKey = 0;
static const char* namedKey(void** p) { return (const char*) p; }

EXPORT void GOMP_critical_start() { if (inTeam()) lockAcquire(&criticalKey, false); }
EXPORT void GOMP_critical_end() { if (inTeam()) lockRelease(&criticalKey); }
EXPORT void GOMP_critical_name_start(void** p) { if (inTeam()) lockAcquire(namedKey(p), false); }
EXPORT void GOMP_critical_name_end(void** p) { if (inTeam()) lockRelease(namedKey(p)); }
EXPORT void GOMP_atomic_start() { if (inTeam()) lockAcquire(&atomicKey, false); }
EXPORT void GOMP_atomic_end() { if (inTeam()) lockRelease(&atomicKey); }

EXPORT void omp_init_lock(void* l) { *(int*) l = 0; }
EXPORT void omp_destroy_lock(void*) {}
EXPORT void omp_set_lock(void* l) { if (inTeam()) lockAcquire(l, false); }
EXPORT void omp_unset_lock(void* l) { if (inTeam()) lockRelease(l); }
EXPORT int omp_test_lock(void* l) { return inTeam() ? lockTry(l, false) : 1; }
EXPORT void omp_init_nest_lock(void*) {}
EXPORT void omp_destroy_nest_lock(void*) {}
EXPORT void omp_set_nest_lock(void* l) { if (inTeam()) lockAcquire(l, true); }
EXPORT void omp_unset_nest_lock(void* l) { if (inTeam()) lockRelease(l); }
EXPORT int omp_test_nest_lock(void* l) { return inTeam() ? lockTry(l, true) : 1; }

extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m);
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m);
int __cxa_guard_acquire(uint64_t*) __attribute__((weak));
void __cxa_guard_release(uint64_t*) __attribute__((weak));
void __cxa_guard_abort(uint64_t*) __attribute__((weak));
}

EXPORT int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!inTeam()) return pthread_mutex_lock(m);
    lockAcquire(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE);
    return 0;
}
EXPORT int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!inTeam()) return pthread_mutex_trylock(m);
    return lockTry(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) ? 0 : EBUSY;
}
EXPORT int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!inTeam()) return pthread_mutex_unlock(m);
    lockRelease(m);
    return 0;
}

// Initialisation of function-local statics: first byte of the guard = done.
EXPORT int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (!inTeam()) return *(volatile char*) g ? 0 : 1;
    lockAcquire(g, false);
    if (*(volatile char*) g) {
        lockRelease(g);
        return 0;
    }
    return 1;
}
EXPORT void __wrap___cxa_guard_release(uint64_t* g) {
    *(volatile char*) g = 1;
    if (inTeam()) lockRelease(g);
}
EXPORT void __wrap___cxa_guard_abort(uint64_t* g) {
    if (inTeam()) lockRelease(g);
}
EXPORT int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (!inTeam()) return pthread_once(o, f);
    lockAcquire(o, false);
    if (*(volatile int*) o != 2) {
        f();
        *(volatile int*) o = 2;
    }
    lockRelease(o);
    return 0;
}

EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (inTeam() && n) {
        onAccess(s, n, false, false, PC);
        onAccess(d, n, true, false, PC);
    }
    return memcpy(d, s, n);
}
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (inTeam() && n) {
        onAccess(s, n, false, false, PC);
        onAccess(d, n, true, false, PC);
    }
    return memmove(d, s, n);
}
EXPORT void* __wrap_memset(void* d, int c, size_t n) {
    if (inTeam() && n) onAccess(d, n, true, false, PC);
    return memset(d, c, n);
}

// --------------------------------------------------------------------------------------------------------------- teams

static int icvThreads = 0;  // omp_set_num_threads

static int simCores() { return cfg.cores > 0 ? cfg.cores : 4; }

static void scribbleStack(int mode, uint64_t salt) {
    volatile unsigned char buf[32768];
    for (size_t i = 0; i < sizeof(buf); i++) {
        if (i % 8 == 0) salt = mix(salt);
        buf[i] = mode == 1 ? 0 : mode == 2 ? 0xFF : (unsigned char) (salt >> ((i % 8) * 8));
    }
}

static void runMember(int id) {
    selfId = id;
    team.t[id].ws = team.ws;  // for combined parallel loops
    team.fn(team.data);
    // done
    ThreadState& t = team.t[id];
    t.done = 1;
    team.finished++;
}

static __attribute__((noinline)) void finishMember(int id) {
    // Hands over to another member; if all are done, to the initial thread (which waits at the implicit barrier).
    selfId = id;
    stats.steps++;
    team.steps++;
    // A barrier that only waits for threads that have terminated would be an error of the program: reported as deadlock.
    int next = -1;
    if (cfg.replay) next = replayDecision(id);
    if (next < 0 || next == id) next = pick(id, true);
    if (next < 0) {
        if (team.finished == team.n) next = 0;
        else fatal(78, "deadlock");
    }
    selfId = -1;
    if (id == 0) {
        if (team.finished < team.n) {
            stats.switches++;
            record((uint32_t) next);
            team.current = next;
            unpark(team.t[next]);
            park(team.t[0]);
        }
    } else {
        stats.switches++;
        record((uint32_t) next);
        team.current = next;
        unpark(team.t[next]);
    }
}

static void* workerMain(void* arg) {
    int id = (int) (intptr_t) arg;
    while (true) {
        park(team.t[id]);
        if (cfg.scribble) scribbleStack(cfg.scribble, mix(cfg.seed ^ team.region ^ ((uint64_t) id << 40)));
        runMember(id);
        finishMember(id);
    }
    return nullptr;
}

static void atforkChild() {
    for (int i = 0; i < MAXT; i++) {
        team.t[i].started = 0;
        team.t[i].futexWord = 0;
    }
    team.active = 0;
}

static void ensureWorkers(int n) {
    static int registered = 0;
    if (!registered) {
        registered = 1;
        pthread_atfork(nullptr, nullptr, atforkChild);
    }
    for (int i = 1; i < n; i++)
        if (!team.t[i].started) {
            pthread_attr_t attr;
            pthread_attr_init(&attr);
            pthread_attr_setstacksize(&attr, 4 << 20);
            team.t[i].futexWord = 0;
            if (pthread_create(&team.t[i].handle, &attr, workerMain, (void*) (intptr_t) i) != 0) fatal(80, "pthread_create");
            team.t[i].started = 1;
            pthread_attr_destroy(&attr);
        }
}

static int teamSize(unsigned requested) {
    int n = requested ? (int) requested : (icvThreads > 0 ? icvThreads : simCores());
    if (!cfg.active || selfId >= 0 || team.active) return 1;
    if (n > MAXT) n = MAXT;
    if (n < 1) n = 1;
    if (n > 1 && cfg.fewerThreads > 0) {
        // Drawn from a separate stream: the decision is the same when a trace is replayed.
        uint64_t r = mix(cfg.seed ^ mix(0xFE3E ^ stats.regions));
        if ((int) (r % 100) < cfg.fewerThreads) {
            n = 1 + (int) ((r >> 8) % (uint64_t) (n - 1 > 0 ? n - 1 : 1));
            stats.fewer++;
        }
    }
    return n;
}

static void initWorkShare(WorkShare& w, int kind, long start, long end, long incr, long chunk) {
    memset(&w, 0, sizeof(w));
    w.init = 1;
    w.kind = kind;
    w.next = start;
    w.end = end;
    w.incr = incr;
    w.chunk = chunk > 0 ? chunk : (kind == 1 ? 0 : 1);
}

static void runSerial(void (*fn)(void*), void* data, int wsKind, long start, long end, long incr, long chunk);

static void runTeam(void (*fn)(void*), void* data, unsigned requested, int wsKind, long start, long end, long incr,
                    long chunk) {
    int n = teamSize(requested);
    stats.regions++;
    if (n == 1 || selfId >= 0 || team.active) {
        // Serial execution (also of nested regions), with a private set of work shares.
        runSerial(fn, data, wsKind, start, end, incr, chunk);
        return;
    }
    stats.parallelRegions++;
    if ((uint64_t) n > stats.maxTeam) stats.maxTeam = (uint64_t) n;
    ensureWorkers(n);
    team.n = n;
    team.region = (uint32_t) stats.regions;
    team.fn = fn;
    team.data = data;
    team.finished = 0;
    team.steps = 0;
    team.fair = 0;
    team.barrierCount = 0;
    if (!team.ws) {
        team.wsCap = 1024;
        team.ws = (WorkShare*) mmap(nullptr, sizeof(WorkShare) * 1024, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    for (int i = 0; i < team.wsCap; i++) {
        if (!team.ws[i].init) break;
        memset(&team.ws[i], 0, sizeof(WorkShare));
    }
    if (wsKind >= 0) initWorkShare(team.ws[0], wsKind, start, end, incr, chunk);
    if (!shadow) shadowInit(1 << 16);
    shadowGen++;
    shadowUsed = 0;
    numLocks = 0;
    for (int i = 0; i < n; i++) {
        ThreadState& t = team.t[i];
        t.id = i;
        t.done = 0;
        t.blockedKind = 0;
        t.stalled = 0;
        t.wsIdx = wsKind >= 0 ? 1 : 0;
        memset(t.vc, 0, sizeof(t.vc));
        t.vc[i] = 1;
        t.priority = (int64_t) (rng.next() >> 2);
    }
    team.lowest = 0;
    uint64_t r = mix(cfg.seed ^ mix(0x57A11 ^ stats.regions));
    if (cfg.stall > 0 && (int) (r % 100) < cfg.stall && !cfg.replay) {
        team.t[(r >> 8) % (uint64_t) n].stalled = 1;
        stats.stalled++;
    }
    if (cfg.strategy == ST_PCT) {
        int d = cfg.depth < 16 ? cfg.depth : 16;
        uint64_t len = team.lastLen > 100 ? team.lastLen : 2000;
        for (int i = 0; i < d; i++) team.pctPoints[i] = (int64_t) rng.below(len) + 1;
        for (int i = 1; i < d; i++)
            for (int j = i; j > 0 && team.pctPoints[j - 1] > team.pctPoints[j]; j--) {
                int64_t x = team.pctPoints[j];
                team.pctPoints[j] = team.pctPoints[j - 1];
                team.pctPoints[j - 1] = x;
            }
        team.pctCount = d;
        team.pctPos = 0;
    }
    stats.scheduleHash = mix(stats.scheduleHash ^ (uint64_t) n);
    team.active = 1;
    team.current = 0;
    scheduleNextPreempt();
    // The initial choice.
    selfId = 0;
    schedulePoint(true);
    runMember(0);
    finishMember(0);
    selfId = -1;
    team.active = 0;
    team.lastLen = team.steps;
}

// ------------------------------------------------------------------------------------------------------- work sharing

static __thread WorkShare* serialWs = nullptr;
static __thread int serialIdx = 0;

static void ensureSerialWs() {
    if (!serialWs)
        serialWs = (WorkShare*) mmap(nullptr, sizeof(WorkShare) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1,
                                     0);
}

static void runSerial(void (*fn)(void*), void* data, int wsKind, long start, long end, long incr, long chunk) {
    WorkShare saved[8];
    ensureSerialWs();
    memcpy(saved, serialWs, sizeof(saved));
    int savedIdx = serialIdx;
    memset(serialWs, 0, sizeof(saved));
    serialIdx = 0;
    if (wsKind >= 0) {
        initWorkShare(serialWs[0], wsKind, start, end, incr, chunk);
        serialIdx = 1;
    }
    int savedSelf = selfId;
    selfId = -1;
    fn(data);
    selfId = savedSelf;
    memcpy(serialWs, saved, sizeof(saved));
    serialIdx = savedIdx;
}

static WorkShare* nextWs() {
    if (!inTeam()) {
        ensureSerialWs();
        WorkShare* w = &serialWs[serialIdx++ & 7];
        w->init = 0;
        return w;
    }
    ThreadState& t = team.t[selfId];
    if (t.wsIdx >= team.wsCap) {
        // Constructs are completed by all threads before they are left with a barrier; reuse is safe only then.
        fatal(80, "too-many-work-shares");
    }
    t.ws = &team.ws[t.wsIdx++];
    return t.ws;
}

static WorkShare* currentWs() {
    if (!inTeam()) return &serialWs[(serialIdx - 1) & 7];
    return team.t[selfId].ws;
}

static bool wsNext(WorkShare* w, long* istart, long* iend) {
    int n = inTeam() ? team.n : 1;
    int id = inTeam() ? selfId : 0;
    if (inTeam()) schedulePoint(true);
    stats.chunks++;
    long remaining = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->end - w->next + w->incr + 1) / w->incr;
    if (w->kind == 1) {
        long total = remaining;  // w->next stays at the start
        if (total <= 0) return false;
        if (w->chunk <= 0) {
            if (w->staticPos[id]) return false;
            w->staticPos[id] = 1;
            long per = total / n, extra = total % n;
            long lo = id * per + (id < extra ? id : extra);
            long hi = lo + per + (id < extra ? 1 : 0);
            if (lo >= hi) return false;
            *istart = w->next + lo * w->incr;
            *iend = w->next + hi * w->incr;
            return true;
        }
        long k = w->staticPos[id]++;
        long lo = (k * n + id) * w->chunk;
        if (lo >= total) return false;
        long hi = lo + w->chunk < total ? lo + w->chunk : total;
        *istart = w->next + lo * w->incr;
        *iend = w->next + hi * w->incr;
        return true;
    }
    if (remaining <= 0) return false;
    long c = w->chunk;
    if (w->kind == 2) {
        long q = (remaining + n - 1) / n;
        if (q > c) c = q;
    }
    if (c > remaining) c = remaining;
    *istart = w->next;
    *iend = w->next + c * w->incr;
    w->next = *iend;
    return true;
}

static bool loopStart(int kind, long start, long end, long incr, long chunk, long* istart, long* iend) {
    WorkShare* w = nextWs();
    if (!w->init) initWorkShare(*w, kind, start, end, incr, chunk);
    return wsNext(w, istart, iend);
}

static bool ullNext(WorkShare* w, unsigned long long* istart, unsigned long long* iend) {
    if (inTeam()) schedulePoint(true);
    stats.chunks++;
    unsigned long long remaining;
    if (w->up) {
        if (w->unext >= w->uend) return false;
        remaining = (w->uend - w->unext + w->uincr - 1) / w->uincr;
    } else {
        if (w->unext <= w->uend) return false;
        remaining = (w->unext - w->uend + (0 - w->uincr) - 1) / (0 - w->uincr);
    }
    unsigned long long c = w->uchunk ? w->uchunk : 1;
    if (w->kind == 2) {
        unsigned long long n = (unsigned long long) (inTeam() ? team.n : 1);
        unsigned long long q = (remaining + n - 1) / n;
        if (q > c) c = q;
    }
    if (c > remaining) c = remaining;
    *istart = w->unext;
    *iend = w->unext + c * w->uincr;
    w->unext = *iend;
    return true;
}

static bool ullStart(int kind, bool up, unsigned long long start, unsigned long long end, unsigned long long incr,
                     unsigned long long chunk, unsigned long long* istart, unsigned long long* iend) {
    WorkShare* w = nextWs();
    if (!w->init) {
        memset(w, 0, sizeof(*w));
        w->init = 1;
        w->kind = kind;
        w->isUll = 1;
        w->up = up;
        w->unext = start;
        w->uend = end;
        w->uincr = incr;
        w->uchunk = chunk ? chunk : 1;
        // An empty range in either direction.
        if ((up && start >= end) || (!up && start <= end)) w->unext = w->uend;
    }
    return ullNext(w, istart, iend);
}

static void barrier() {
    if (!inTeam()) return;
    stats.barriers++;
    ThreadState& t = team.t[selfId];
    team.barrierCount++;
    if (team.barrierCount == team.n) {
        team.barrierCount = 0;
        uint64_t join[MAXT];
        memset(join, 0, sizeof(join));
        for (int i = 0; i < team.n; i++)
            for (int j = 0; j < team.n; j++)
                if (team.t[i].vc[j] > join[j]) join[j] = team.t[i].vc[j];
        for (int i = 0; i < team.n; i++) {
            memcpy(team.t[i].vc, join, sizeof(join));
            team.t[i].vc[i]++;
            if (team.t[i].blockedKind == 2) team.t[i].blockedKind = 0;
        }
        schedulePoint(true);
    } else {
        t.blockedKind = 2;
        t.blockedOn = nullptr;
        blockedSwitch();
    }
}

#define LOOPS(name, kind) \
    EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { \
        return loopStart(kind, s, e, i, c, a, b); } \
    EXPORT bool GOMP_loop_##name##_next(long* a, long* b) { return wsNext(currentWs(), a, b); } \
    EXPORT bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, \
        unsigned long long c, unsigned long long* a, unsigned long long* b) { return ullStart(kind, up, s, e, i, c, a, b); } \
    EXPORT bool GOMP_loop_ull_##name##_next(unsigned long long* a, unsigned long long* b) { \
        return ullNext(currentWs(), a, b); } \
    EXPORT void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, \
        unsigned) { runTeam(fn, data, n, kind, s, e, i, c); }
LOOPS(dynamic, 0) LOOPS(nonmonotonic_dynamic, 0) LOOPS(static, 1) LOOPS(guided, 2) LOOPS(nonmonotonic_guided, 2)

#define LOOPS_NOCHUNK(name) \
    EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { \
        return loopStart(0, s, e, i, 1, a, b); } \
    EXPORT bool GOMP_loop_##name##_next(long* a, long* b) { return wsNext(currentWs(), a, b); } \
    EXPORT bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, \
        unsigned long long* a, unsigned long long* b) { return ullStart(0, up, s, e, i, 1, a, b); } \
    EXPORT bool GOMP_loop_ull_##name##_next(unsigned long long* a, unsigned long long* b) { \
        return ullNext(currentWs(), a, b); } \
    EXPORT void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) { \
        runTeam(fn, data, n, 0, s, e, i, 1); }
LOOPS_NOCHUNK(runtime) LOOPS_NOCHUNK(nonmonotonic_runtime) LOOPS_NOCHUNK(maybe_nonmonotonic_runtime)

EXPORT void GOMP_loop_end() { barrier(); }
EXPORT void GOMP_loop_end_nowait() { if (inTeam()) schedulePoint(true); }
EXPORT bool GOMP_loop_end_cancel() { barrier(); return false; }
EXPORT void GOMP_barrier() { barrier(); }
EXPORT bool GOMP_barrier_cancel() { barrier(); return false; }
EXPORT bool GOMP_cancel(int, bool) { return false; }
EXPORT bool GOMP_cancellation_point(int) { return false; }
EXPORT void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { runTeam(fn, data, n, -1, 0, 0, 1, 1); }
EXPORT unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) {
    runTeam(fn, data, n, -1, 0, 0, 1, 1);
    return (unsigned) team.n;
}

EXPORT bool GOMP_single_start() {
    WorkShare* w = nextWs();
    if (!inTeam()) return true;
    schedulePoint(true);
    w->init = 1;
    return w->arrived++ == 0;
}
EXPORT void* GOMP_single_copy_start() {
    WorkShare* w = nextWs();
    if (!inTeam()) return nullptr;
    schedulePoint(true);
    w->init = 1;
    if (w->arrived++ == 0) return nullptr;
    barrier();
    return w->copy;
}
EXPORT void GOMP_single_copy_end(void* data) {
    if (!inTeam()) return;
    currentWs()->copy = data;
    barrier();
}
static unsigned sectionsNext(WorkShare* w) {
    if (inTeam()) schedulePoint(true);
    return w->sectionNext <= w->sectionCount ? (unsigned) w->sectionNext++ : 0u;
}
EXPORT unsigned GOMP_sections_start(unsigned count) {
    WorkShare* w = nextWs();
    if (!w->init) {
        memset(w, 0, sizeof(*w));
        w->init = 1;
        w->sectionCount = (int) count;
        w->sectionNext = 1;
    }
    return sectionsNext(w);
}
EXPORT unsigned GOMP_sections_next() { return sectionsNext(currentWs()); }
EXPORT void GOMP_sections_end() { barrier(); }
EXPORT void GOMP_sections_end_nowait() {}
// Tasks are executed immediately by the encountering thread.
EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool ifClause,
                      unsigned, void**, int, void*) {
    if (inTeam()) schedulePoint(true);
    (void) ifClause;
    if (cpy) {
        char* raw = (char*) malloc((size_t) (size + align));
        char* arg = (char*) (((uintptr_t) raw + (uintptr_t) align - 1) & ~((uintptr_t) align - 1));
        cpy(arg, data);
        fn(arg);
        free(raw);
    } else {
        fn(data);
    }
}
EXPORT void GOMP_taskwait() {}
EXPORT void GOMP_taskyield() { if (inTeam()) schedulePoint(true); }
EXPORT void GOMP_taskgroup_start() {}
EXPORT void GOMP_taskgroup_end() {}

EXPORT int omp_get_thread_num() { return inTeam() ? selfId : 0; }
EXPORT int omp_get_num_threads() { return inTeam() ? team.n : 1; }
EXPORT int omp_get_max_threads() { return icvThreads > 0 ? icvThreads : simCores(); }
EXPORT int omp_get_num_procs() { return simCores(); }
EXPORT void omp_set_num_threads(int n) { icvThreads = n; }
EXPORT int omp_in_parallel() { return inTeam() ? 1 : 0; }
EXPORT void omp_set_dynamic(int) {}
EXPORT int omp_get_dynamic() { return 0; }
EXPORT void omp_set_nested(int) {}
EXPORT int omp_get_nested() { return 0; }
EXPORT int omp_get_thread_limit() { return MAXT; }
EXPORT int omp_get_level() { return inTeam() ? 1 : 0; }
EXPORT int omp_get_active_level() { return inTeam() ? 1 : 0; }
EXPORT int omp_get_max_active_levels() { return 1; }
EXPORT void omp_set_max_active_levels(int) {}
EXPORT double omp_get_wtime() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double) ts.tv_sec + (double) ts.tv_nsec * 1e-9;
}
EXPORT double omp_get_wtick() { return 1e-9; }

// ------------------------------------------------------------------------------------------------------- harness interface

typedef void (*AllocHook)(void*, size_t, int);
typedef void (*SetAllocHook)(AllocHook);

EXPORT void simrt_begin(uint64_t seed, int strategy, int64_t gap, int depth, int fewer, int stall, int detect,
                        int64_t budget, int scribble, int cores) {
    memset(&stats, 0, sizeof(stats));
    memset(&cfg, 0, sizeof(cfg));
    cfg.active = 1;
    cfg.seed = seed;
    cfg.strategy = strategy;
    cfg.gap = gap > 0 ? gap : 1;
    cfg.depth = depth;
    cfg.fewerThreads = fewer;
    cfg.stall = stall;
    cfg.detect = detect;
    cfg.regionBudget = budget > 0 ? budget : 50000000;
    cfg.scribble = scribble;
    cfg.cores = cores;
    cfg.replay = replayTrace != nullptr;
    rng.s = mix(seed);
    traceLen = 0;
    replayPos = 0;
    numRaces = 0;
    team.lastLen = 0;
    SetAllocHook setHook = (SetAllocHook) dlsym(RTLD_DEFAULT, "simpre_set_alloc_hook");
    if (setHook) setHook(detect ? onAlloc : nullptr);
}

EXPORT void simrt_end() {
    int cores = cfg.cores;
    memset(&cfg, 0, sizeof(cfg));
    cfg.cores = cores;
    SetAllocHook setHook = (SetAllocHook) dlsym(RTLD_DEFAULT, "simpre_set_alloc_hook");
    if (setHook) setHook(nullptr);
}

EXPORT void simrt_cores(int n) { cfg.cores = n; }

EXPORT void simrt_stats(uint64_t* out) { memcpy(out, &stats, sizeof(stats)); }
EXPORT int simrt_num_stats() { return (int) (sizeof(stats) / 8); }

EXPORT uint64_t simrt_trace_len() { return traceLen; }
EXPORT void simrt_trace_get(uint64_t* out) {  // step, thread | region << 32
    for (size_t i = 0; i < traceLen; i++) {
        out[2 * i] = trace[i].step;
        out[2 * i + 1] = (uint64_t) trace[i].thread | ((uint64_t) trace[i].region << 32);
    }
}
EXPORT void simrt_trace_set(const uint64_t* in, uint64_t n, int enable) {
    if (replayTrace) munmap(replayTrace, replayLen * sizeof(Decision) + 4096);
    replayTrace = nullptr;
    replayLen = 0;
    if (!enable) return;
    replayTrace = (Decision*) mmap(nullptr, n * sizeof(Decision) + 4096, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (uint64_t i = 0; i < n; i++) {
        replayTrace[i].step = in[2 * i];
        replayTrace[i].thread = (uint32_t) in[2 * i + 1];
    }
    replayLen = n;
}

EXPORT int simrt_num_races() { return numRaces; }
EXPORT void simrt_race(int i, uint64_t* out) {
    const RaceReport& r = races[i];
    Dl_info info;
    out[0] = r.pc1;
    out[1] = r.pc2;
    out[2] = dladdr((void*) r.pc1, &info) ? (uint64_t) info.dli_fbase : 0;
    out[3] = dladdr((void*) r.pc2, &info) ? (uint64_t) info.dli_fbase : 0;
    out[4] = r.kind1;
    out[5] = r.kind2;
    out[6] = r.tid1;
    out[7] = r.tid2;
    out[8] = r.region;
    out[9] = r.size;
    out[10] = r.step;
}
EXPORT const char* simrt_module(uint64_t pc) {
    Dl_info info;
    return dladdr((void*) pc, &info) ? info.dli_fname : "?";
}
EXPORT const char* simrt_symbol(uint64_t pc) {
    Dl_info info;
    return dladdr((void*) pc, &info) && info.dli_sname ? info.dli_sname : "?";
}
