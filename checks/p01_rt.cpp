// A parallel runtime for schedule exploration: parallel regions run as cooperative threads in a chosen order, every
// memory access of the instrumented library is recorded, and two accesses of different threads to one byte without a
// barrier or a common lock between them, one of them a write, are reported.
#include "par_rt.hpp"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <link.h>
#include <new>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <time.h>
#include <ucontext.h>

extern "C" char __executable_start;
namespace {
typedef unsigned long ulong_;
const int MAXT = 256;
#ifndef PAR_SLOTS
#define PAR_SLOTS 20
#endif
#ifndef PAR_STACK
#define PAR_STACK 256
#endif
const size_t STACK = PAR_STACK * 1024;
const size_t ARENA = (size_t)1 << 30;
const size_t SLOTS = (size_t)1 << PAR_SLOTS;

struct Cell {
    uintptr_t addr;
    uint32_t epoch;
    int16_t writer, reader[2];
    uint32_t wlocks, rlocks[2];
    void *wpc, *rpc;
};
struct Loop {
    long next, end, incr, chunk;
    bool up;
};
struct Thread {
    ucontext_t ctx;
    char *stack, *tls;
    bool done, waiting;
    uint32_t locks;
    int loop;  // loops entered
    int nest;  // parallel regions inside this thread, run by it alone
    int init;  // guarded initialisations under way
    uint64_t syncs;
    Loop own;
};

par::Plan plan;
par::Report rep;
bool recording, on;
Thread th[MAXT];
int nth, cur = -1;
ucontext_t back;
void (*body)(void *);
void *arg;
uint32_t epoch;
Cell *cells;
size_t used;
char *arena, *top, *taskTop[2];  // each of two tasks has half of the arena
uintptr_t lockName[32];
int lockOwner[32], lockDepth[32];
int nlocks;
bool tasking;

// thread-local variables of the program: every thread of a region has its own copy
char *tlsBlock, *tlsMain;
const char *tlsImage;
size_t tlsSize, tlsFile;
int findTls(dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            tlsBlock = (char *)i->dlpi_tls_data;
            tlsImage = (const char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
            tlsSize = i->dlpi_phdr[k].p_memsz;
            tlsFile = i->dlpi_phdr[k].p_filesz;
        }
    return 1;  // the program comes first
}
Loop loops[64];
int nloops, singles, singleAt[MAXT];
int forcedThreads;

void access(const void *p, size_t n, bool write, void *pc, bool atomic = false) {
    if (!on || cur < 0 || atomic) return;
    uintptr_t a = (uintptr_t)p;
    Thread &t = th[cur];
    if (t.init) return;
    if (a >= (uintptr_t)t.stack && a < (uintptr_t)t.stack + STACK) return;
    if (a - (uintptr_t)tlsBlock < tlsSize) return;
    rep.accesses++;
    if (tasking && !plan.full && a - (uintptr_t)arena < ARENA) {
        // memory of its own; that of the other task decides together with everything else
        if ((int)((a - (uintptr_t)arena) / (ARENA / 2)) != cur) rep.crossed = true;
        return;
    }
    for (size_t k = 0; k < n; k++, a++) {
        size_t h = (a * 0x9e3779b97f4a7c15ull) >> (64 - PAR_SLOTS);
        Cell *c;
        for (;; h = (h + 1) & (SLOTS - 1)) {
            c = &cells[h];
            if (c->epoch != epoch) {
                if (++used > SLOTS / 2) {
                    rep.overflow = true;
                    on = false;
                    return;
                }
                c->addr = a;
                c->epoch = epoch;
                c->writer = c->reader[0] = c->reader[1] = -1;
                break;
            }
            if (c->addr == a) break;
        }
        int other = -1;
        void *opc = nullptr;
        if (c->writer >= 0 && c->writer != cur && !(c->wlocks & t.locks)) other = c->writer, opc = c->wpc;
        if (write)
            for (int i = 0; i < 2; i++)
                if (c->reader[i] >= 0 && c->reader[i] != cur && !(c->rlocks[i] & t.locks)) other = c->reader[i], opc = c->rpc;
        if (other >= 0 && !rep.race) {
            rep.race = true;
            snprintf(rep.text, sizeof rep.text, "threads %d and %d of a parallel region with %d threads both use the byte at %p (%s at program address %#lx, other at %#lx)", other, cur, nth, (void *)a, write ? "write" : "read", (unsigned long)((char *)pc - &__executable_start), (unsigned long)((char *)opc - &__executable_start));
        }
        if (write) {
            if (c->writer == cur) c->wlocks &= t.locks;
            else c->writer = (int16_t)cur, c->wlocks = t.locks, c->wpc = pc;
        } else {
            int i = c->reader[0] == cur || c->reader[0] < 0 ? 0 : c->reader[1] == cur || c->reader[1] < 0 ? 1 : -1;
            if (i >= 0) {
                if (c->reader[i] == cur) c->rlocks[i] &= t.locks;
                else c->reader[i] = (int16_t)cur, c->rlocks[i] = t.locks, c->rpc = pc;
            }
        }
    }
}

void newEpoch() {
    if (++epoch == 0) epoch = 1;
    used = 0;
}

void trampoline() {
    try {
        body(arg);
    } catch (...) {
        rep.escaped = true;
    }
    th[cur].done = true;
    swapcontext(&th[cur].ctx, &back);
}

void yield() {
    int me = cur;
    swapcontext(&th[me].ctx, &back);
}

void copy(char *d, const char *s, size_t n) {
    for (size_t i = 0; i < n; i++) d[i] = s[i];
}
void enter(int i) {
    copy(tlsMain, tlsBlock, tlsSize);
    copy(tlsBlock, th[i].tls, tlsSize);
    cur = i;
    swapcontext(&back, &th[i].ctx);
    cur = -1;
    copy(th[i].tls, tlsBlock, tlsSize);
    copy(tlsBlock, tlsMain, tlsSize);
}

void region(void (*fn)(void *), void *data, unsigned want) {
    if (cur >= 0) {  // nested: one thread
        Loop l = th[cur].own;
        th[cur].nest++;
        fn(data);
        th[cur].nest--;
        th[cur].own = l;
        return;
    }
    int T = plan.threads > 0 ? plan.threads : plan.many;
    if (want) T = (int)want < T ? (int)want : T;
    if (forcedThreads) T = forcedThreads < T ? forcedThreads : T;
    if (T > MAXT) T = MAXT;
    rep.regions++;
    rep.threads += T;
    rep.pairs += (uint64_t)T * (T - 1) / 2;
    nth = T;
    body = fn;
    arg = data;
    nloops = 0;
    singles = 0;
    on = recording && !rep.overflow;
    for (int i = 0; i < T; i++) {
        Thread &t = th[i];
        if (!t.stack) t.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (!t.tls && tlsSize) t.tls = (char *)mmap(nullptr, tlsSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (size_t k = 0; k < tlsSize; k++) t.tls[k] = k < tlsFile ? tlsImage[k] : 0;
        t.done = t.waiting = false;
        t.locks = 0;
        t.loop = t.nest = t.init = 0;
        t.syncs = 0;
        singleAt[i] = 0;
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp = t.stack;
        t.ctx.uc_stack.ss_size = STACK;
        t.ctx.uc_link = nullptr;
        makecontext(&t.ctx, (void (*)())trampoline, 0);
    }
    newEpoch();
    for (;;) {
        int left = 0, stuck = 0;
        for (int k = 0; k < T; k++) {
            int i = plan.order && plan.threads > 0 && T == plan.threads ? plan.order[k] : plan.order && plan.threads == 0 && T == plan.many ? plan.order[k] : k;
            if (th[i].done) continue;
            left++;
            if (th[i].waiting) {
                stuck++;
                continue;
            }
            enter(i);
        }
        if (!left) break;
        if (stuck == left) {  // everybody is at the barrier
            for (int i = 0; i < T; i++) th[i].waiting = false;
            newEpoch();
        }
    }
    on = false;
    nth = 0;
}

uint32_t lockBit(uintptr_t name) {
    for (int i = 0; i < nlocks; i++)
        if (lockName[i] == name) return 1u << i;
    if (nlocks == 32) return 1u << 31;
    lockName[nlocks] = name;
    return 1u << nlocks++;
}
// a place where another thread may go on
void point() {
    if (!tasking || cur < 0 || th[cur].init) return;
    if (cur == plan.order[0] && (long)th[cur].syncs == plan.preempt) th[cur].syncs++, yield();
    else th[cur].syncs++;
    rep.syncs[cur == plan.order[0] ? 0 : 1] = th[cur].syncs;
}
void take(uintptr_t n) {
    if (cur < 0) return;
    uint32_t b = lockBit(n);
    if (tasking && !th[cur].init) {
        point();
        int i = __builtin_ctz(b);
        while (lockDepth[i] && lockOwner[i] != cur) yield();
        lockOwner[i] = cur, lockDepth[i]++;
    }
    th[cur].locks |= b;
}
void drop(uintptr_t n) {
    if (cur < 0) return;
    uint32_t b = lockBit(n);
    if (tasking && !th[cur].init) {
        int i = __builtin_ctz(b);
        if (lockDepth[i] && --lockDepth[i]) return;
    }
    th[cur].locks &= ~b;
}

bool chunk(Loop &l, long *a, long *b) {
    if (l.up ? l.next >= l.end : l.next <= l.end) return false;
    *a = l.next;
    long step = l.incr * (l.chunk > 0 ? l.chunk : 1);
    *b = l.next + step;
    if (l.up ? *b > l.end : *b < l.end) *b = l.end;
    l.next = *b;
    return true;
}
bool loopStart(long start, long end, long incr, long ch, long *a, long *b) {
    if (cur < 0) {
        nloops = 0;
        loops[0] = { start, end, incr, ch, incr > 0 };
        return chunk(loops[0], a, b);
    }
    if (th[cur].nest) {
        th[cur].own = { start, end, incr, ch, incr > 0 };
        return chunk(th[cur].own, a, b);
    }
    int id = th[cur].loop++;
    if (id >= 64) abort();
    if (id >= nloops) {
        loops[id] = { start, end, incr, ch, incr > 0 };
        nloops = id + 1;
    }
    return chunk(loops[id], a, b);
}
bool loopNext(long *a, long *b) {
    if (cur < 0) return chunk(loops[0], a, b);
    if (th[cur].nest) return chunk(th[cur].own, a, b);
    yield();  // the other threads get their share
    return chunk(loops[th[cur].loop - 1], a, b);
}
}  // namespace

namespace par {
void begin(const Plan &p, bool record) {
    if (!cells) {
        cells = (Cell *)mmap(nullptr, SLOTS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        arena = top = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (cells == MAP_FAILED || arena == MAP_FAILED) abort();
        dl_iterate_phdr(findTls, nullptr);
        if (tlsSize) tlsMain = (char *)mmap(nullptr, tlsSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    __libc_single_threaded = 0;  // reference counts are atomic in a program with threads
    top = arena;
    plan = p;
    memset(&rep, 0, sizeof rep);
    recording = record;
    nlocks = 0;
    forcedThreads = 0;
}
const Report &end() {
    return rep;
}
void tasks(const std::function<void()> *f) {
    for (int &d : lockDepth) d = 0;
    taskTop[0] = arena, taskTop[1] = arena + ARENA / 2;
    tasking = true;
    region([](void *p) { ((const std::function<void()> *)p)[cur](); }, (void *)f, 0);
    tasking = false;
}
}  // namespace par

// ---- memory: inside a parallel region nothing is reused ----
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_realloc(void *, size_t);
void *__real_calloc(size_t, size_t);

static void *bump(size_t n) {
    char *&at = tasking ? taskTop[cur] : top;
    size_t *p = (size_t *)(((uintptr_t)at + 31) & ~(uintptr_t)15);
    p = (size_t *)((((uintptr_t)p + 16 + 31) & ~(uintptr_t)31));
    if ((char *)p + n > arena + (tasking && !cur ? ARENA / 2 : ARENA)) abort();
    p[-1] = n;
    at = (char *)p + n;
    return p;
}
static bool bumped(const void *p) {
    return arena && (const char *)p >= arena && (const char *)p < arena + ARENA;
}
void *__wrap_malloc(size_t n) {
    return cur >= 0 ? bump(n) : __real_malloc(n);
}
void *__wrap_calloc(size_t a, size_t b) {
    if (cur < 0) return __real_calloc(a, b);
    void *p = bump(a * b);
    memset(p, 0, a * b);
    return p;
}
void __wrap_free(void *p) {
    if (!bumped(p)) __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
    if (!bumped(p) && cur < 0) return __real_realloc(p, n);
    void *q = cur >= 0 ? bump(n) : __real_malloc(n);
    if (p) {
        size_t old = bumped(p) ? ((size_t *)p)[-1] : n;
        memcpy(q, p, old < n ? old : n);
        if (!bumped(p)) __real_free(p);
    }
    return q;
}
// aligned allocation is only passed through outside of regions
}

void *operator new(size_t n) {
    void *p = __wrap_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) {
    return operator new(n);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept {
    return __wrap_malloc(n ? n : 1);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
    return __wrap_malloc(n ? n : 1);
}
void operator delete(void *p) noexcept {
    __wrap_free(p);
}
void operator delete[](void *p) noexcept {
    __wrap_free(p);
}
void operator delete(void *p, size_t) noexcept {
    __wrap_free(p);
}
void operator delete[](void *p, size_t) noexcept {
    __wrap_free(p);
}

extern "C" {
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
#define PC __builtin_return_address(0)
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    access(d, n, true, PC);
    return __real_memset(d, c, n);
}

void *vp_memcpy(void *d, const void *s, size_t n) noexcept {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return __real_memcpy(d, s, n);
}
void *vp_memmove(void *d, const void *s, size_t n) noexcept {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return __real_memmove(d, s, n);
}
void *vp_memset(void *d, int c, size_t n) noexcept {
    access(d, n, true, PC);
    return __real_memset(d, c, n);
}

// ---- synchronisation other than that of the parallel runtime ----
int __real_pthread_mutex_lock(void *);
int __real_pthread_mutex_trylock(void *);
int __real_pthread_mutex_unlock(void *);
int __real_pthread_rwlock_rdlock(void *);
int __real_pthread_rwlock_wrlock(void *);
int __real_pthread_rwlock_unlock(void *);
int __real_pthread_once(int *, void (*)(void));
int __real___cxa_guard_acquire(void *);
void __real___cxa_guard_release(void *);
void __real___cxa_guard_abort(void *);
int __real___cxa_thread_atexit(void (*)(void *), void *, void *);
#define LOCKING(N, WHAT)                          \
    int __wrap_pthread_##N(void *m) {             \
        if (cur < 0) return __real_pthread_##N(m); \
        WHAT((uintptr_t)m);                       \
        return 0;                                 \
    }
LOCKING(mutex_lock, take) LOCKING(mutex_trylock, take) LOCKING(mutex_unlock, drop)
LOCKING(rwlock_rdlock, take) LOCKING(rwlock_wrlock, take) LOCKING(rwlock_unlock, drop)
// what is initialised under a guard is ready before anybody else uses it
int __wrap_pthread_once(int *o, void (*f)(void)) {
    int c = cur;
    if (c >= 0) th[c].init++;
    int r = __real_pthread_once(o, f);
    if (c >= 0) th[c].init--;
    return r;
}
int __wrap___cxa_guard_acquire(void *g) {
    int r = __real___cxa_guard_acquire(g);
    if (r && cur >= 0) th[cur].init++;
    return r;
}
void __wrap___cxa_guard_release(void *g) {
    if (cur >= 0) th[cur].init--;
    __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(void *g) {
    if (cur >= 0) th[cur].init--;
    __real___cxa_guard_abort(g);
}
int __wrap___cxa_thread_atexit(void (*f)(void *), void *o, void *d) {
    return cur >= 0 ? 0 : __real___cxa_thread_atexit(f, o, d);
}

// ---- access callbacks ----
#define RW(N)                                                                        \
    void __tsan_read##N(void *p) { access(p, N, false, PC); }                        \
    void __tsan_write##N(void *p) { access(p, N, true, PC); }                        \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false, PC); }              \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC); }              \
    void __tsan_volatile_read##N(void *p) { access(p, N, false, PC); }               \
    void __tsan_volatile_write##N(void *p) { access(p, N, true, PC); }               \
    void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false, PC); }     \
    void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
extern char __data_start, _end;
// (bytes are guards of initialisations)
#define AP(p) if ((char *)(p) >= &__data_start && (char *)(p) < &_end) point();
#define AT(N, T)                                                                                                                        \
    T __tsan_atomic##N##_load(const volatile T *p, int) { if (N > 8) AP(p) return *p; } \
    void __tsan_atomic##N##_store(volatile T *p, T v, int) { AP(p) *p = v; } \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { AP(p) T o = *p; *p = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { AP(p) T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { AP(p) T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { AP(p) T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { AP(p) T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { AP(p) T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { AP(p) if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { AP(p) if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) { AP(p) T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---- parallel runtime ----
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { region(fn, data, n); }
bool GOMP_loop_static_start(long s, long e, long i, long c, long *a, long *b) { return loopStart(s, e, i, c, a, b); }
#define LOOP(K)                                                                                                              \
    bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return loopStart(s, e, i, c, a, b); }     \
    bool GOMP_loop_##K##_next(long *a, long *b) { return loopNext(a, b); }                                                  \
    void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned);
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loopStart(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return loopNext(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loopStart(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return loopNext(a, b); }
void GOMP_barrier() {
    if (cur < 0 || th[cur].nest) return;
    th[cur].waiting = true;
    yield();
}
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
static struct Pre { void (*fn)(void *); void *d; } pre_;
static long ps, pe, pi, pc_;
static void withLoop(void *p) {
    // the combined construct starts with the loop already set up
    Pre x = *(Pre *)p;
    if (nloops == 0) {
        loops[0] = { ps, pe, pi, pc_, pi > 0 };
        nloops = 1;
    }
    th[cur].loop = 1;
    x.fn(x.d);
}
#define PLOOP(K)                                                                                                               \
    void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) {           \
        if (cur >= 0) {                                                                                                        \
            Loop l = th[cur].own;                                                                                              \
            th[cur].own = { s, e, i, c, i > 0 };                                                                               \
            th[cur].nest++;                                                                                                    \
            fn(d);                                                                                                             \
            th[cur].nest--;                                                                                                    \
            th[cur].own = l;                                                                                                   \
            return;                                                                                                            \
        }                                                                                                                      \
        pre_ = { fn, d }; ps = s; pe = e; pi = i; pc_ = c;                                                                     \
        region(withLoop, &pre_, n);                                                                                           \
    }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
bool GOMP_single_start() {
    if (cur < 0 || th[cur].nest) return true;
    int id = singleAt[cur]++;
    if (id < singles) return false;
    singles = id + 1;
    return true;
}
static char atomicLock;
void GOMP_atomic_start() { take((uintptr_t)&atomicLock); }
void GOMP_atomic_end() { drop((uintptr_t)&atomicLock); }
static char criticalLock;
void GOMP_critical_start() { take((uintptr_t)&criticalLock); }
void GOMP_critical_end() { drop((uintptr_t)&criticalLock); }
void GOMP_critical_name_start(void **p) { take((uintptr_t)p); }
void GOMP_critical_name_end(void **p) { drop((uintptr_t)p); }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { take((uintptr_t)p); }
void omp_unset_lock(void *p) { drop((uintptr_t)p); }
int omp_test_lock(void *p) { take((uintptr_t)p); return 1; }
int omp_get_num_threads() { return cur >= 0 && !th[cur].nest ? nth : 1; }
int omp_get_thread_num() { return cur >= 0 && !th[cur].nest ? cur : 0; }
int omp_get_max_threads() { return plan.threads > 0 ? plan.threads : plan.many; }
int omp_get_num_procs() { return omp_get_max_threads(); }
int omp_in_parallel() { return cur >= 0; }
void omp_set_num_threads(int n) { forcedThreads = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_thread_limit() { return MAXT; }
double omp_get_wtime() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
}
