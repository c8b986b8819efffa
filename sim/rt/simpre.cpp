// libsimpre.so: the process-wide seams of the simulator (loaded with LD_PRELOAD).
//
//  * heap:   every allocation is filled with a seed-derived pattern, freed memory is poisoned and quarantined, canaries
//            follow each block; allocations made by the code under test can be made to fail.
//  * clock:  CLOCK_MONOTONIC / CLOCK_REALTIME / time() / gettimeofday() / sleeping are simulated.
//  * cores:  the number of available CPU cores is simulated.
//  * disk:   file operations below one scratch directory are counted, logged and subject to faults and crashes.
//
// All seams are off until the harness enables them through the simpre_* functions; until then every function forwards to
// libc. Nothing in here reads a real clock or a real random source.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

// ---------------------------------------------------------------------------------------------------------------- util

static inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

static void fillBytes(unsigned char* p, size_t n, uint64_t mode, uint64_t salt) {
    // mode: 0 none, 1 zeros, 2 ones (0xFF), 3 constant byte 1, 4 pseudo random, 5 quiet NaN doubles, 6 big doubles
    switch (mode) {
        case 1: for (size_t i = 0; i < n; i++) p[i] = 0; break;
        case 2: for (size_t i = 0; i < n; i++) p[i] = 0xFF; break;
        case 3: for (size_t i = 0; i < n; i++) p[i] = 1; break;
        case 4: {
            uint64_t s = salt;
            for (size_t i = 0; i < n; i++) {
                if (i % 8 == 0) s = mix(s);
                p[i] = (unsigned char)(s >> ((i % 8) * 8));
            }
            break;
        }
        case 5: case 6: {
            uint64_t v = mode == 5 ? 0x7FF8000000000000ull : 0x4341C37937E08000ull;
            for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(v >> ((i % 8) * 8));
            break;
        }
        default: break;
    }
}

// ---------------------------------------------------------------------------------------------------------------- heap

struct HeapState {
    int fillMode;        // pattern for fresh memory
    uint64_t salt;
    int poison;          // poison freed memory and check canaries
    uint64_t allocs;     // allocations by the code under test since the last reset
    int64_t failAt;      // fail the k-th (1-based) such allocation, 0 = never
    int64_t failCount;   // how many consecutive allocations fail
    uint64_t failed;
    uint64_t corrupted;  // blocks whose canary was overwritten
    int armed;           // allocation counting / failing enabled
};

static HeapState heap;
static uint64_t lapackCalls = 0, lapackFailed = 0;
static int tagging = 1;

typedef void (*AllocHook)(void*, size_t, int);  // kind: 1 = alloc, 0 = free
static AllocHook allocHook = nullptr;

static const uint64_t MAGIC = 0x5A17C0DEB10C4B1Dull;

struct Range { uintptr_t lo, hi; };
static Range codeRanges[64];
static int numCodeRanges = 0;

static int phdrCallback(struct dl_phdr_info* info, size_t, void*) {
    if (info->dlpi_name && strstr(info->dlpi_name, "libmlrl")) {
        for (int i = 0; i < info->dlpi_phnum; i++) {
            const ElfW(Phdr)& ph = info->dlpi_phdr[i];
            if (ph.p_type == PT_LOAD && (ph.p_flags & PF_X) && numCodeRanges < 64) {
                codeRanges[numCodeRanges].lo = info->dlpi_addr + ph.p_vaddr;
                codeRanges[numCodeRanges].hi = codeRanges[numCodeRanges].lo + ph.p_memsz;
                numCodeRanges++;
            }
        }
    }
    return 0;
}

static inline bool isCodeUnderTest(void* pc) {
    uintptr_t a = (uintptr_t) pc;
    for (int i = 0; i < numCodeRanges; i++)
        if (a >= codeRanges[i].lo && a < codeRanges[i].hi) return true;
    return false;
}

static void clockWork(uint64_t k);

static inline bool shouldFail(void* pc) {
    if (!heap.armed || !isCodeUnderTest(pc)) return false;
    uint64_t k = ++heap.allocs;
    clockWork(k);
    if (heap.failAt > 0 && (int64_t) k >= heap.failAt && (int64_t) k < heap.failAt + heap.failCount) {
        heap.failed++;
        return true;
    }
    return false;
}

// Layout: [user size][canary bytes ...][size ^ MAGIC (8 bytes at the end of the usable area)]
static const size_t EXTRA = 24;

// Additional bytes at the end of a block: makes the addresses of all subsequent blocks depend on the seed.
static inline size_t extra() {
    if (heap.fillMode < 2) return EXTRA;
    return EXTRA + 16 * (size_t) ((heap.salt >> 17) & 3);
}

// The byte that follows each block (varied by the harness, so that reading past the end of a block has visible effects).
static unsigned char canaryByte = 0xCB;

static inline void tag(void* p, size_t size) {
    size_t usable = malloc_usable_size(p);
    unsigned char* c = (unsigned char*) p;
    for (size_t i = size; i < usable - 8; i++) c[i] = canaryByte;
    uint64_t t = ((uint64_t) size | ((uint64_t) canaryByte << 56)) ^ MAGIC ^ (uint64_t) p;
    memcpy(c + usable - 8, &t, 8);
}

static inline bool untag(void* p, size_t* size) {
    size_t usable = malloc_usable_size(p);
    if (usable < 8) return false;
    unsigned char* c = (unsigned char*) p;
    uint64_t t;
    memcpy(&t, c + usable - 8, 8);
    uint64_t s = t ^ MAGIC ^ (uint64_t) p;
    unsigned char canary = (unsigned char) (s >> 56);
    s &= 0x00FFFFFFFFFFFFFFull;
    if (s > usable - 8) {
        heap.corrupted++;
        return false;
    }
    *size = (size_t) s;
    for (size_t i = *size; i < usable - 8; i++)
        if (c[i] != canary) {
            heap.corrupted++;
            break;
        }
    return true;
}

static inline void* finish(void* p, size_t size, bool zeroed) {
    if (!p) return nullptr;
    tag(p, size);
    if (!zeroed && heap.fillMode) {
        heap.salt = mix(heap.salt);
        fillBytes((unsigned char*) p, size, heap.fillMode, heap.salt);
    }
    if (allocHook) allocHook(p, size, 1);
    return p;
}

// Quarantine of freed blocks (single baton holder at a time in the code under test, but Python may have other threads).
static const int QCAP = 4096;
static void* qbuf[QCAP];
static size_t qsize[QCAP];
static int qhead = 0, qlen = 0;
static size_t qbytes = 0;
static int qlock = 0;

static void quarantine(void* p, size_t size) {
    while (__atomic_exchange_n(&qlock, 1, __ATOMIC_ACQUIRE)) {}
    void* out[64];
    int n = 0;
    while ((qlen >= QCAP || qbytes + size > (8u << 20)) && qlen > 0 && n < 64) {
        out[n++] = qbuf[qhead];
        qbytes -= qsize[qhead];
        qhead = (qhead + 1) % QCAP;
        qlen--;
    }
    bool stored = false;
    if (qlen < QCAP) {
        int i = (qhead + qlen) % QCAP;
        qbuf[i] = p;
        qsize[i] = size;
        qlen++;
        qbytes += size;
        stored = true;
    }
    __atomic_store_n(&qlock, 0, __ATOMIC_RELEASE);
    for (int i = 0; i < n; i++) __libc_free(out[i]);
    if (!stored) __libc_free(p);
}

EXPORT void* malloc(size_t size) {
    if (shouldFail(__builtin_return_address(0))) {
        errno = ENOMEM;
        return nullptr;
    }
    if (size > PTRDIFF_MAX - 256) {
        errno = ENOMEM;
        return nullptr;
    }
    return finish(__libc_malloc(size + extra()), size, false);
}

EXPORT void* calloc(size_t n, size_t m) {
    if (shouldFail(__builtin_return_address(0))) {
        errno = ENOMEM;
        return nullptr;
    }
    size_t size;
    if (__builtin_mul_overflow(n, m, &size) || size > PTRDIFF_MAX - 256) {
        errno = ENOMEM;
        return nullptr;
    }
    return finish(__libc_calloc(1, size + extra()), size, true);
}

EXPORT void free(void* p) {
    if (!p) return;
    size_t size = 0;
    bool ok = untag(p, &size);
    if (allocHook) allocHook(p, ok ? size : 0, 0);
    if (heap.poison && ok) {
        if (size <= (1u << 20)) {
            fillBytes((unsigned char*) p, size, 4, mix(heap.salt ^ size));
            quarantine(p, size);
            return;
        }
    }
    __libc_free(p);
}

EXPORT void* realloc(void* p, size_t size) {
    if (shouldFail(__builtin_return_address(0))) {
        errno = ENOMEM;
        return nullptr;
    }
    if (!p) return finish(__libc_malloc(size + extra()), size, false);
    if (size == 0) {
        free(p);
        return nullptr;
    }
    if (size > PTRDIFF_MAX - 256) {
        errno = ENOMEM;
        return nullptr;
    }
    size_t old = 0;
    if (!untag(p, &old)) old = malloc_usable_size(p);
    // Always move: stale pointers into the old block are never valid afterwards.
    void* q = __libc_malloc(size + extra());
    if (!q) return nullptr;
    q = finish(q, size, false);
    memcpy(q, p, old < size ? old : size);
    free(p);
    return q;
}

EXPORT void* reallocarray(void* p, size_t n, size_t m) {
    size_t size;
    if (__builtin_mul_overflow(n, m, &size)) {
        errno = ENOMEM;
        return nullptr;
    }
    return realloc(p, size);
}
EXPORT void* memalign(size_t a, size_t size) { return finish(__libc_memalign(a, size + extra()), size, false); }
EXPORT void* aligned_alloc(size_t a, size_t size) { return finish(__libc_memalign(a, size + extra()), size, false); }
EXPORT int posix_memalign(void** out, size_t a, size_t size) {
    void* p = finish(__libc_memalign(a, size + extra()), size, false);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
EXPORT void* valloc(size_t size) { return finish(__libc_memalign(4096, size + extra()), size, false); }

// operator new of libstdc++ calls malloc from within libstdc++: resolve the real caller for fault injection.
typedef void* (*NewFn)(size_t);
static void* newCommon(size_t size, void* pc, const char* name) {
    static NewFn realNew[2] = {nullptr, nullptr};
    int which = name[3] == 'a';
    if (shouldFail(pc)) {
        // Throwing is left to libstdc++: an impossible request makes the real operator throw std::bad_alloc.
        size = (size_t) PTRDIFF_MAX;
    }
    if (!realNew[which]) {
        realNew[which] = (NewFn) dlsym(RTLD_NEXT, name);
        if (!realNew[which]) {
            void* h = dlopen("libstdc++.so.6", RTLD_LAZY | RTLD_GLOBAL);
            realNew[which] = (NewFn) dlsym(h, name);
        }
    }
    return realNew[which](size);
}
EXPORT void* _Znwm(size_t size) { return newCommon(size, __builtin_return_address(0), "_Znwm"); }
EXPORT void* _Znam(size_t size) { return newCommon(size, __builtin_return_address(0), "_Znam"); }

EXPORT void simpre_heap(int fillMode, uint64_t salt, int poison) {
    heap.fillMode = fillMode;
    heap.salt = mix(salt);
    heap.poison = poison;
    canaryByte = fillMode ? (unsigned char) (mix(salt ^ 77) | 1) : 0xCB;
}

EXPORT void simpre_alloc_faults(int armed, int64_t failAt, int64_t failCount) {
    if (!numCodeRanges) dl_iterate_phdr(phdrCallback, nullptr);
    heap.allocs = 0;
    heap.failed = 0;
    heap.failAt = failAt;
    heap.failCount = failCount;
    heap.armed = armed;
}

EXPORT void simpre_refresh_ranges() {
    numCodeRanges = 0;
    dl_iterate_phdr(phdrCallback, nullptr);
}

EXPORT uint64_t simpre_stat(int which) {
    switch (which) {
        case 0: return heap.allocs;
        case 1: return heap.failed;
        case 2: return heap.corrupted;
        case 3: return lapackCalls;
        case 4: return lapackFailed;
        default: return 0;
    }
}

EXPORT void simpre_set_alloc_hook(AllocHook hook) { allocHook = hook; }

// Overwrites the unused part of the stack below the caller.
EXPORT __attribute__((noinline)) void simpre_scribble(int mode, uint64_t salt, uint64_t bytes) {
    volatile unsigned char* p = (volatile unsigned char*) __builtin_alloca(bytes);
    fillBytes((unsigned char*) p, bytes, mode, salt);
    asm volatile("" : : "r"(p) : "memory");
}

// -------------------------------------------------------------------------------------------------------------- LAPACK

// Solver for systems of linear equations that is used by the library (via SciPy): may be told to report a failure.
static int64_t lapackFailAt = 0, lapackFailCount = 0;
static int lapackInfo = 0;

typedef void (*Dsysv)(char*, int*, int*, double*, int*, int*, double*, int*, double*, int*, int*);

static int openblasCallback(struct dl_phdr_info* info, size_t, void* out) {
    if (info->dlpi_name && strstr(info->dlpi_name, "libscipy_openblas-")) {
        *(const char**) out = info->dlpi_name;
        return 1;
    }
    return 0;
}

EXPORT void scipy_dsysv_(char* uplo, int* n, int* nrhs, double* a, int* lda, int* ipiv, double* b, int* ldb, double* work,
                         int* lwork, int* info) {
    static Dsysv real = nullptr;
    if (!real) {
        const char* name = nullptr;
        dl_iterate_phdr(openblasCallback, &name);
        void* h = name ? dlopen(name, RTLD_LAZY | RTLD_NOLOAD) : nullptr;
        real = h ? (Dsysv) dlsym(h, "scipy_dsysv_") : nullptr;
        if (!real) abort();
    }
    int64_t k = (int64_t) ++lapackCalls;
    if (lapackFailAt > 0 && k >= lapackFailAt && k < lapackFailAt + lapackFailCount) {
        lapackFailed++;
        *info = lapackInfo ? lapackInfo : 1;
        return;
    }
    real(uplo, n, nrhs, a, lda, ipiv, b, ldb, work, lwork, info);
}

EXPORT void simpre_lapack_faults(int64_t failAt, int64_t failCount, int info) {
    lapackCalls = lapackFailed = 0;
    lapackFailAt = failAt;
    lapackFailCount = failCount;
    lapackInfo = info;
}

// --------------------------------------------------------------------------------------------------------------- clock

struct ClockState {
    int enabled;
    int64_t mono;      // ns
    int64_t real;      // offset of the wall clock relative to mono, ns
    uint64_t rng;
    int64_t tickMax;   // each reading advances the clock by 0..tickMax ns
    int64_t reads;
    int64_t sleeps;
    // planned events: at reading number at[i], advance mono by adv[i] (stall), real by jump[i]
    int n;
    int64_t at[64], adv[64], jump[64];
    int fired[64];
    uint64_t firedStall, firedJump;
};
static ClockState clk;

static void clockRead() {
    clk.reads++;
    for (int i = 0; i < clk.n; i++)
        if (!clk.fired[i] && clk.reads >= clk.at[i]) {
            clk.fired[i] = 1;
            if (clk.adv[i]) clk.firedStall++;
            if (clk.jump[i]) clk.firedJump++;
            clk.mono += clk.adv[i];
            clk.real += clk.jump[i];
        }
    if (clk.tickMax > 0) {
        clk.rng = mix(clk.rng);
        clk.mono += (int64_t) (clk.rng % (uint64_t) (clk.tickMax + 1));
    }
}

EXPORT void simpre_clock(int enabled, int64_t mono, int64_t real, uint64_t seed, int64_t tickMax) {
    clk.enabled = enabled;
    clk.mono = mono;
    clk.real = real;
    clk.rng = mix(seed);
    clk.tickMax = tickMax;
    clk.reads = 0;
    clk.sleeps = 0;
    clk.n = 0;
    clk.firedStall = clk.firedJump = 0;
}
EXPORT void simpre_clock_event(int64_t at, int64_t advance, int64_t jump) {
    if (clk.n < 64) {
        clk.at[clk.n] = at;
        clk.adv[clk.n] = advance;
        clk.jump[clk.n] = jump;
        clk.fired[clk.n] = 0;
        clk.n++;
    }
}

// Time that passes while the code under test works, which is measured by means of its allocations: each of them takes
// `perAlloc` ns, planned events are the same as above, but take place at a certain allocation.
static int64_t workPerAlloc = 0;
static int workN = 0;
static int64_t workAt[64], workAdv[64], workJump[64];

static void clockWork(uint64_t k) {
    if (!clk.enabled) return;
    clk.mono += workPerAlloc;
    for (int i = 0; i < workN; i++)
        if (workAt[i] == (int64_t) k) {
            if (workAdv[i]) clk.firedStall++;
            if (workJump[i]) clk.firedJump++;
            clk.mono += workAdv[i];
            clk.real += workJump[i];
        }
}
EXPORT void simpre_clock_work(int64_t perAlloc) {
    workPerAlloc = perAlloc;
    workN = 0;
}
EXPORT void simpre_clock_work_event(int64_t at, int64_t advance, int64_t jump) {
    if (workN < 64) {
        workAt[workN] = at;
        workAdv[workN] = advance;
        workJump[workN] = jump;
        workN++;
    }
}
EXPORT int64_t simpre_clock_get(int which) {
    switch (which) {
        case 0: return clk.mono;
        case 1: return clk.mono + clk.real;
        case 2: return clk.reads;
        case 3: return (int64_t) clk.firedStall;
        case 4: return (int64_t) clk.firedJump;
        default: return 0;
    }
}
EXPORT void simpre_clock_advance(int64_t ns, int64_t jump) {
    clk.mono += ns;
    clk.real += jump;
}
typedef void (*ClockHook)(int64_t reads, int64_t mono);
static ClockHook clockHook = nullptr;
EXPORT void simpre_set_clock_hook(ClockHook h) { clockHook = h; }

EXPORT int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!clk.enabled || (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME && id != CLOCK_MONOTONIC_RAW
                         && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_REALTIME_COARSE && id != CLOCK_BOOTTIME
                         && id != CLOCK_PROCESS_CPUTIME_ID && id != CLOCK_THREAD_CPUTIME_ID))
        return (int) syscall(SYS_clock_gettime, id, ts);
    clockRead();
    int64_t t = clk.mono;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += clk.real;
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    if (clockHook) clockHook(clk.reads, clk.mono);
    return 0;
}

EXPORT int gettimeofday(struct timeval* tv, void* tz) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return 0;
}

EXPORT time_t time(time_t* out) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}

EXPORT int nanosleep(const struct timespec* req, struct timespec* rem) {
    if (!clk.enabled) return (int) syscall(SYS_nanosleep, req, rem);
    clk.sleeps++;
    clk.mono += (int64_t) req->tv_sec * 1000000000 + req->tv_nsec;
    return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec* req, struct timespec* rem) {
    if (!clk.enabled) {
        long r = syscall(SYS_clock_nanosleep, id, flags, req, rem);
        return r < 0 ? errno : 0;
    }
    clk.sleeps++;
    int64_t t = (int64_t) req->tv_sec * 1000000000 + req->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        int64_t now = clk.mono + (id == CLOCK_REALTIME ? clk.real : 0);
        if (t > now) clk.mono += t - now;
    } else {
        clk.mono += t;
    }
    return 0;
}
EXPORT int usleep(useconds_t us) {
    struct timespec ts = {(time_t) (us / 1000000), (long) (us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}

// --------------------------------------------------------------------------------------------------------------- cores

static int simCores = 0;
EXPORT void simpre_cores(int n) { simCores = n; }
EXPORT int get_nprocs() {
    if (simCores > 0) return simCores;
    static int (*real)() = nullptr;
    if (!real) real = (int (*)()) dlsym(RTLD_NEXT, "get_nprocs");
    return real();
}
EXPORT long sysconf(int name) {
    static long (*real)(int) = nullptr;
    if (simCores > 0 && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return simCores;
    if (!real) real = (long (*)(int)) dlsym(RTLD_NEXT, "sysconf");
    return real(name);
}

// ---------------------------------------------------------------------------------------------------------------- disk
//
// Operations on paths below `prefix` are numbered in program order. A plan lists faults by operation number. Each
// operation and its outcome is appended to a log (a file descriptor outside of the prefix), so that the harness, which
// lives in another process, knows the history even if this process "crashes" (exits) in the middle of an operation.

enum FaultKind {
    F_NONE = 0,
    F_CRASH_BEFORE = 1,  // process dies, operation not performed
    F_CRASH_AFTER = 2,   // process dies, operation performed, result not delivered
    F_CRASH_TORN = 3,    // process dies in the middle of a write: only `arg` bytes reach the file
    F_ENOSPC = 4,        // disk full: `arg` bytes are written, then ENOSPC (sticky until space is freed, see plan)
    F_EIO = 5,           // I/O error, operation not performed
    F_SHORT = 6,         // short write / read of `arg` bytes (legal, must be retried)
    F_EINTR = 7,         // interrupted, must be retried
    F_EACCES = 8,
    F_EMFILE = 9,
};

struct Fault { int64_t at; int kind; int64_t arg; int fired; };
static char prefix[512];
static size_t prefixLen = 0;
static Fault faults[64];
static int numFaults = 0;
static int64_t opCounter = 0;
static int64_t writeOps = 0;
static int logFd = -1;
static int diskFull = 0;
static int diskFullSticky = 0;
static int ioEnabled = 0;
static int countReads = 0;
static uint64_t firedByKind[16];
#define MAXFD 1024
static unsigned char tracked[MAXFD];
static char fdPath[MAXFD][256];

static void rawWrite(int fd, const void* p, size_t n) {
    const char* c = (const char*) p;
    while (n > 0) {
        long r = syscall(SYS_write, fd, c, n);
        if (r <= 0) return;
        c += r;
        n -= (size_t) r;
    }
}

static void ioLog(const char* op, const char* path, const char* path2, int64_t a, int64_t b, const char* outcome) {
    if (logFd < 0) return;
    char buf[1400];
    const char* p = path && prefixLen && !strncmp(path, prefix, prefixLen) ? path + prefixLen : (path ? path : "-");
    const char* q = path2 && prefixLen && !strncmp(path2, prefix, prefixLen) ? path2 + prefixLen : (path2 ? path2 : "-");
    int n = snprintf(buf, sizeof buf, "%lld\t%s\t%s\t%s\t%lld\t%lld\t%s\n", (long long) opCounter, op, p, q, (long long) a,
                     (long long) b, outcome);
    rawWrite(logFd, buf, (size_t) (n < (int) sizeof buf ? n : (int) sizeof buf - 1));
}

static bool resolve(int dirfd, const char* path, char* out) {
    if (!path) return false;
    if (path[0] == '/') {
        snprintf(out, 512, "%s", path);
    } else {
        char base[512];
        if (dirfd == AT_FDCWD) {
            long n = syscall(SYS_getcwd, base, sizeof base);
            if (n <= 0) return false;
        } else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            long n = syscall(SYS_readlink, link, base, sizeof base - 1);
            if (n <= 0) return false;
            base[n] = 0;
        }
        snprintf(out, 512, "%s/%s", base, path);
    }
    return prefixLen && !strncmp(out, prefix, prefixLen);
}

static void die(const char* op, const char* path, const char* why) {
    ioLog(op, path, nullptr, 0, 0, why);
    syscall(SYS_exit_group, 77);
}

// Several simulated processes that share a disk are executed one at a time: a process waits in front of each operation
// until the harness lets it continue.
static int gateOut = -1, gateIn = -1;
static int guardWrites = 0;
static uint64_t escapes = 0;

EXPORT void simpre_disk_gate(int out, int in) {
    gateOut = out;
    gateIn = in;
}
// Operations that modify anything outside of the prefix are refused.
EXPORT void simpre_disk_guard(int on) {
    guardWrites = on;
    escapes = 0;
}
EXPORT uint64_t simpre_disk_escapes() { return escapes; }

static bool escape(const char* op, const char* path) {
    if (!guardWrites || !ioEnabled || !strncmp(path, "/dev/", 5) || !strncmp(path, "/proc/", 6)) return false;
    escapes++;
    ioLog(op, path, nullptr, 0, 0, "refused");
    errno = EROFS;
    return true;
}

static Fault* nextFault() {
    opCounter++;
    if (gateOut >= 0) {
        int64_t n = opCounter;
        rawWrite(gateOut, &n, sizeof n);
        char c;
        long r;
        do r = syscall(SYS_read, gateIn, &c, 1);
        while (r < 0 && errno == EINTR);
        if (r <= 0) syscall(SYS_exit_group, 76);
    }
    for (int i = 0; i < numFaults; i++)
        if (!faults[i].fired && faults[i].at == opCounter) {
            faults[i].fired = 1;
            firedByKind[faults[i].kind & 15]++;
            return &faults[i];
        }
    return nullptr;
}

static int errnoOf(int kind) {
    switch (kind) {
        case F_ENOSPC: return ENOSPC;
        case F_EINTR: return EINTR;
        case F_EACCES: return EACCES;
        case F_EMFILE: return EMFILE;
        default: return EIO;
    }
}

EXPORT void simpre_disk(const char* pfx, int log, int sticky, int reads) {
    snprintf(prefix, sizeof prefix, "%s", pfx ? pfx : "");
    prefixLen = strlen(prefix);
    logFd = log;
    numFaults = 0;
    opCounter = 0;
    writeOps = 0;
    diskFull = 0;
    diskFullSticky = sticky;
    countReads = reads;
    ioEnabled = prefixLen > 0;
    memset(tracked, 0, sizeof tracked);
    memset(firedByKind, 0, sizeof firedByKind);
}
EXPORT void simpre_disk_fault(int64_t at, int kind, int64_t arg) {
    if (numFaults < 64) faults[numFaults++] = {at, kind, arg, 0};
}
EXPORT int64_t simpre_disk_ops() { return opCounter; }
EXPORT uint64_t simpre_disk_fired(int kind) { return firedByKind[kind & 15]; }

// Runs one metadata operation under the fault plan. Returns true if `*result` is final and the call must not be made.
#define META(op, path, path2, call)                                                                                    \
    do {                                                                                                               \
        Fault* f = nextFault();                                                                                        \
        if (f) {                                                                                                       \
            if (f->kind == F_CRASH_BEFORE || f->kind == F_CRASH_TORN) die(op, path, "crash-before");                   \
            if (f->kind == F_CRASH_AFTER) {                                                                            \
                long r = (call);                                                                                       \
                (void) r;                                                                                              \
                ioLog(op, path, path2, 0, 0, "ok");                                                                    \
                die(op, path, "crash-after");                                                                          \
            }                                                                                                          \
            /* Operations on metadata cannot be interrupted by signals */                                              \
            if (f->kind != F_SHORT && !(f->kind == F_EINTR && strncmp(op, "fsync", 5))) {                              \
                ioLog(op, path, path2, f->kind, 0, "fault");                                                           \
                errno = errnoOf(f->kind);                                                                              \
                return -1;                                                                                             \
            }                                                                                                          \
        }                                                                                                              \
        long r = (call);                                                                                               \
        int e = errno;                                                                                                 \
        ioLog(op, path, path2, r < 0 ? e : 0, 0, r < 0 ? "err" : "ok");                                                \
        errno = e;                                                                                                     \
        return (int) r;                                                                                                \
    } while (0)

static int doOpen(int dirfd, const char* path, int flags, mode_t mode) {
    char full[512];
    bool writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!ioEnabled || !resolve(dirfd, path, full)) {
        if (ioEnabled && writing && path && escape("open", path)) return -1;
        return (int) syscall(SYS_openat, dirfd, path, flags, mode);
    }
    if (!writing && !countReads) {
        int fd = (int) syscall(SYS_openat, dirfd, path, flags, mode);
        return fd;
    }
    Fault* f = nextFault();
    const char* op = writing ? ((flags & O_TRUNC) ? "open-trunc" : (flags & O_APPEND) ? "open-append" : "open-write") : "open-read";
    if (f) {
        if (f->kind == F_CRASH_BEFORE || f->kind == F_CRASH_TORN) die(op, full, "crash-before");
        if (f->kind == F_CRASH_AFTER) {
            syscall(SYS_openat, dirfd, path, flags, mode);
            ioLog(op, full, nullptr, flags, 0, "ok");
            die(op, full, "crash-after");
        }
        if (f->kind != F_SHORT) {
            ioLog(op, full, nullptr, f->kind, 0, "fault");
            errno = errnoOf(f->kind);
            return -1;
        }
    }
    int fd = (int) syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    ioLog(op, full, nullptr, fd < 0 ? e : 0, flags, fd < 0 ? "err" : "ok");
    if (fd >= 0 && fd < MAXFD) {
        tracked[fd] = writing ? 2 : 1;
        snprintf(fdPath[fd], sizeof fdPath[fd], "%s", full);
    }
    errno = e;
    return fd;
}

EXPORT int open(const char* path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return doOpen(AT_FDCWD, path, flags, mode);
}
EXPORT int open64(const char* path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return doOpen(AT_FDCWD, path, flags, mode);
}
EXPORT int openat(int dirfd, const char* path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return doOpen(dirfd, path, flags, mode);
}
EXPORT int openat64(int dirfd, const char* path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return doOpen(dirfd, path, flags, mode);
}
EXPORT int creat(const char* path, mode_t mode) { return doOpen(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static ssize_t doWrite(int fd, const void* buf, size_t n) {
    if (!ioEnabled || fd < 0 || fd >= MAXFD || tracked[fd] != 2) return syscall(SYS_write, fd, buf, n);
    Fault* f = nextFault();
    const char* path = fdPath[fd];
    int64_t pos = (int64_t) lseek(fd, 0, SEEK_CUR);
    if (diskFull) {
        if (diskFull == 2) diskFull = 0;
        ioLog("write", path, nullptr, pos, 0, "enospc");
        errno = ENOSPC;
        return -1;
    }
    if (f) {
        size_t k = f->arg < 0 ? 0 : (size_t) f->arg % (n + 1);
        switch (f->kind) {
            case F_CRASH_BEFORE: die("write", path, "crash-before");
            case F_CRASH_AFTER:
                rawWrite(fd, buf, n);
                ioLog("write", path, nullptr, pos, (int64_t) n, "ok");
                die("write", path, "crash-after");
            case F_CRASH_TORN:
                rawWrite(fd, buf, k);
                ioLog("write", path, nullptr, pos, (int64_t) k, "torn");
                die("write", path, "crash-torn");
            case F_ENOSPC:
                if (diskFullSticky) diskFull = 1;
                if (k > 0 && k < n) {
                    // Disk runs full in the middle of the write: short write first, then the error.
                    rawWrite(fd, buf, k);
                    if (!diskFull) diskFull = 2;
                    ioLog("write", path, nullptr, pos, (int64_t) k, "short");
                    return (ssize_t) k;
                }
                ioLog("write", path, nullptr, pos, 0, "enospc");
                errno = ENOSPC;
                return -1;
            case F_SHORT:
                if (k == 0) k = n > 0 ? 1 : 0;
                rawWrite(fd, buf, k);
                ioLog("write", path, nullptr, pos, (int64_t) k, "short");
                return (ssize_t) k;
            default:
                ioLog("write", path, nullptr, f->kind, 0, "fault");
                errno = errnoOf(f->kind);
                return -1;
        }
    }
    long r = syscall(SYS_write, fd, buf, n);
    int e = errno;
    ioLog("write", path, nullptr, pos, r, r < 0 ? "err" : "ok");
    errno = e;
    return r;
}

EXPORT ssize_t write(int fd, const void* buf, size_t n) { return doWrite(fd, buf, n); }
EXPORT ssize_t writev(int fd, const struct iovec* iov, int cnt) {
    if (!ioEnabled || fd < 0 || fd >= MAXFD || tracked[fd] != 2) return syscall(SYS_writev, fd, iov, cnt);
    for (int i = 0; i < cnt; i++)
        if (iov[i].iov_len > 0) return doWrite(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}

EXPORT ssize_t read(int fd, void* buf, size_t n) {
    if (ioEnabled && countReads && fd >= 0 && fd < MAXFD && tracked[fd] == 1) {
        Fault* f = nextFault();
        if (f) {
            if (f->kind == F_CRASH_BEFORE || f->kind == F_CRASH_AFTER || f->kind == F_CRASH_TORN)
                die("read", fdPath[fd], "crash-before");
            if (f->kind == F_SHORT) {
                size_t k = n > 1 ? 1 + (size_t) f->arg % (n - 1) : n;
                long r = syscall(SYS_read, fd, buf, k);
                ioLog("read", fdPath[fd], nullptr, (int64_t) k, r, "short");
                return r;
            }
            ioLog("read", fdPath[fd], nullptr, f->kind, 0, "fault");
            errno = errnoOf(f->kind == F_ENOSPC ? F_EIO : f->kind);
            return -1;
        }
        long r = syscall(SYS_read, fd, buf, n);
        int e = errno;
        ioLog("read", fdPath[fd], nullptr, (int64_t) n, r, "ok");
        errno = e;
        return r;
    }
    return syscall(SYS_read, fd, buf, n);
}

EXPORT int close(int fd) {
    if (ioEnabled && fd >= 0 && fd < MAXFD && tracked[fd]) {
        int t = tracked[fd];
        tracked[fd] = 0;
        if (t == 2) {
            Fault* f = nextFault();
            if (f) {
                if (f->kind == F_CRASH_BEFORE || f->kind == F_CRASH_AFTER || f->kind == F_CRASH_TORN)
                    die("close", fdPath[fd], "crash-before");
                if (f->kind == F_EIO || f->kind == F_ENOSPC) {
                    syscall(SYS_close, fd);
                    ioLog("close", fdPath[fd], nullptr, f->kind, 0, "fault");
                    errno = errnoOf(f->kind);
                    return -1;
                }
            }
            ioLog("close", fdPath[fd], nullptr, 0, 0, "ok");
        }
    }
    return (int) syscall(SYS_close, fd);
}

static int doSync(int fd, const char* op, long nr) {
    if (ioEnabled && fd >= 0 && fd < MAXFD && tracked[fd]) {
        META(op, fdPath[fd], nullptr, syscall(nr, fd));
    }
    if (ioEnabled && prefixLen) {
        // Directory descriptors are opened read-only and not tracked: find out where they point to.
        char link[64], base[512];
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        long n = syscall(SYS_readlink, link, base, sizeof base - 1);
        if (n > 0) {
            base[n] = 0;
            if (!strncmp(base, prefix, prefixLen)) META("fsync-dir", base, nullptr, 0L);
        }
    }
    return (int) syscall(nr, fd);
}
EXPORT int fsync(int fd) { return doSync(fd, "fsync", SYS_fsync); }
EXPORT int fdatasync(int fd) { return doSync(fd, "fsync", SYS_fdatasync); }

static int doRename(int d1, const char* a, int d2, const char* b, unsigned flags) {
    char fa[512], fb[512];
    bool x = ioEnabled && resolve(d1, a, fa), y = ioEnabled && resolve(d2, b, fb);
    if (ioEnabled && !(x && y) && (escape("rename", a) || escape("rename", b))) return -1;
    if (!x && !y) return (int) syscall(SYS_renameat2, d1, a, d2, b, flags);
    META("rename", fa, fb, syscall(SYS_renameat2, d1, a, d2, b, flags));
}
EXPORT int rename(const char* a, const char* b) { return doRename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d1, const char* a, int d2, const char* b) { return doRename(d1, a, d2, b, 0); }
EXPORT int renameat2(int d1, const char* a, int d2, const char* b, unsigned f) { return doRename(d1, a, d2, b, f); }

EXPORT int unlink(const char* path) {
    char full[512];
    if (!ioEnabled || !resolve(AT_FDCWD, path, full))
        return escape("unlink", path) ? -1 : (int) syscall(SYS_unlink, path);
    META("unlink", full, nullptr, syscall(SYS_unlink, path));
}
EXPORT int unlinkat(int d, const char* path, int flags) {
    char full[512];
    if (!ioEnabled || !resolve(d, path, full))
        return escape("unlink", path) ? -1 : (int) syscall(SYS_unlinkat, d, path, flags);
    META("unlink", full, nullptr, syscall(SYS_unlinkat, d, path, flags));
}
EXPORT int remove(const char* path) {
    struct stat st;
    if (lstat(path, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(path);
    return unlink(path);
}
EXPORT int rmdir(const char* path) {
    char full[512];
    if (!ioEnabled || !resolve(AT_FDCWD, path, full))
        return escape("rmdir", path) ? -1 : (int) syscall(SYS_rmdir, path);
    META("rmdir", full, nullptr, syscall(SYS_rmdir, path));
}
EXPORT int truncate(const char* path, off_t len) {
    char full[512];
    if (!ioEnabled || !resolve(AT_FDCWD, path, full))
        return escape("truncate", path) ? -1 : (int) syscall(SYS_truncate, path, len);
    META("truncate", full, nullptr, syscall(SYS_truncate, path, len));
}
EXPORT int mkdir(const char* path, mode_t mode) {
    char full[512];
    if (!ioEnabled || !resolve(AT_FDCWD, path, full))
        return escape("mkdir", path) ? -1 : (int) syscall(SYS_mkdir, path, mode);
    META("mkdir", full, nullptr, syscall(SYS_mkdir, path, mode));
}
EXPORT int ftruncate(int fd, off_t len) {
    if (!ioEnabled || fd < 0 || fd >= MAXFD || tracked[fd] != 2) return (int) syscall(SYS_ftruncate, fd, len);
    META("ftruncate", fdPath[fd], nullptr, syscall(SYS_ftruncate, fd, len));
}
EXPORT int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }
EXPORT int link(const char* a, const char* b) {
    char fa[512], fb[512];
    bool x = ioEnabled && resolve(AT_FDCWD, a, fa), y = ioEnabled && resolve(AT_FDCWD, b, fb);
    if (ioEnabled && !(x && y) && escape("link", b)) return -1;
    if (!x && !y) return (int) syscall(SYS_link, a, b);
    META("link", fa, fb, syscall(SYS_link, a, b));
}

__attribute__((constructor)) static void init() { mallopt(M_ARENA_MAX, 1); }
