// Replaces operator new: small blocks come from arenas whose order of addresses and whose contents are chosen by the check.
#ifndef VP_HEAP_HPP
#define VP_HEAP_HPP
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <atomic>
#include <new>

namespace heap {
enum { CLASSES = 64, STEP = 16, BLOCK = 64, BLOCKS = 1024, SLOTS = BLOCK * BLOCKS };

// addresses: order of the slots inside blocks of 64 and of the blocks; which freed slot is taken again
struct Layout {
    bool on = false;
    int mul = 1, add = 0;   // slot of the i-th request in its block is mul * i + add (mod 64)
    bool down = false;      // blocks from the top
    int reuse = 0;          // 0 never, 1 the last freed first, 2 the first freed first
    int fill = -1;          // contents of fresh memory, -1: as it comes
};

inline size_t offset(int c) {  // of the arena of one size in a region
    return (size_t)SLOTS * STEP * ((size_t)c * (c + 1) / 2);
}
struct Region {
    char *base = nullptr;
    uint32_t *ring = nullptr;  // freed slots
    uint32_t next[CLASSES] = {}, head[CLASSES] = {}, tail[CLASSES] = {};
    uint64_t alive = 0;
};
// a layout works in a region of its own; a region is given back when nothing in it is alive
struct State {
    std::atomic_flag lock = ATOMIC_FLAG_INIT;
    Region region[256];
    int count = 0, cur = -1;
    uint64_t given = 0;
    Layout now;
};
inline State &state() {
    static State s;
    return s;
}
struct Hold {
    Hold() {
        while (state().lock.test_and_set(std::memory_order_acquire)) {}
    }
    ~Hold() {
        state().lock.clear(std::memory_order_release);
    }
};
inline void *pages(size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) abort();
    return p;
}
inline size_t ringSize() {
    return sizeof(uint32_t) * SLOTS * 4 * CLASSES;
}

inline void *take(size_t n) {
    State &s = state();
    if (!s.now.on || n == 0 || n > CLASSES * STEP) return nullptr;
    Hold h;
    Region &r = s.region[s.cur];
    const int c = (int)((n - 1) / STEP);
    uint32_t *ring = r.ring + (size_t)c * SLOTS * 4, slot;
    if (s.now.reuse && r.head[c] != r.tail[c]) {
        slot = s.now.reuse == 1 ? ring[--r.tail[c]] : ring[r.head[c]++];
        if (r.head[c] == r.tail[c]) r.head[c] = r.tail[c] = 0;
    } else {
        if (r.next[c] >= SLOTS) return nullptr;
        uint32_t i = r.next[c]++, b = i / BLOCK;
        if (s.now.down) b = BLOCKS - 1 - b;
        slot = b * BLOCK + (uint32_t)(s.now.mul * (int)(i % BLOCK) + s.now.add) % BLOCK;
    }
    s.given++;
    r.alive++;
    char *p = r.base + offset(c) + (size_t)slot * (c + 1) * STEP;
    if (s.now.fill >= 0) memset(p, s.now.fill, (c + 1) * STEP);
    return p;
}

inline bool give(void *p) {
    State &s = state();
    for (int k = s.count - 1; k >= 0; k--) {
        Region &r = s.region[k];
        if (!r.base || (char *)p < r.base || (char *)p >= r.base + offset(CLASSES)) continue;
        Hold h;
        const size_t at = (size_t)((char *)p - r.base);
        int c = 0;
        while (at >= offset(c + 1)) c++;
        const uint32_t slot = (uint32_t)((at - offset(c)) / ((size_t)(c + 1) * STEP));
        if (s.now.on && k == s.cur && s.now.reuse && r.tail[c] < SLOTS * 4) r.ring[(size_t)c * SLOTS * 4 + r.tail[c]++] = slot;
        if (s.now.fill >= 0) memset(p, s.now.fill ^ 0x5a, (c + 1) * STEP);
        r.alive--;
        return true;
    }
    return false;
}

inline void use(const Layout &l) {
    State &s = state();
    Hold h;
    s.now = l;
    s.cur = -1;
    for (int k = 0; k < s.count; k++)
        if (s.region[k].base && !s.region[k].alive) {
            munmap(s.region[k].base, offset(CLASSES));
            munmap(s.region[k].ring, ringSize());
            s.region[k] = Region();
        }
    if (l.on) {
        int k = 0;
        while (k < s.count && s.region[k].base) k++;
        if (k == 256) abort();
        if (k == s.count) s.count++;
        s.region[k].base = (char *)pages(offset(CLASSES));
        s.region[k].ring = (uint32_t *)pages(ringSize());
        s.cur = k;
    }
    mallopt(M_PERTURB, l.fill < 0 ? 0 : ~l.fill & 0xff);
}

// leave a pattern on the stack below
__attribute__((noinline)) inline void soil(int fill) {
    if (fill < 0) return;
    volatile char room[200000];
    memset((void *)room, fill, sizeof room);
    asm volatile("" ::"r"(room) : "memory");
}
}  // namespace heap

static void *heapGet(size_t n) {
    if (void *p = heap::take(n)) return p;
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void heapPut(void *p) {
    if (p && !heap::give(p)) free(p);
}
void *operator new(size_t n) {
    return heapGet(n);
}
void *operator new[](size_t n) {
    return heapGet(n);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept {
    void *p = heap::take(n);
    return p ? p : malloc(n ? n : 1);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
    void *p = heap::take(n);
    return p ? p : malloc(n ? n : 1);
}
void operator delete(void *p) noexcept {
    heapPut(p);
}
void operator delete[](void *p) noexcept {
    heapPut(p);
}
void operator delete(void *p, size_t) noexcept {
    heapPut(p);
}
void operator delete[](void *p, size_t) noexcept {
    heapPut(p);
}
void operator delete(void *p, const std::nothrow_t &) noexcept {
    heapPut(p);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept {
    heapPut(p);
}
#endif
