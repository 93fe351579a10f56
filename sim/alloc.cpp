// Instrumented heap: counts, fails on command, detects overruns / double frees / leaks,
// fills fresh memory with a chosen pattern (uninitialised memory is part of the environment).
#include "sim.h"
#include "internal.h"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cxxabi.h>
#include <dlfcn.h>
#include <new>
#include <sys/mman.h>
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif

namespace sim {
void rt_on_alloc(void*, size_t); void rt_on_free(void*, size_t);
static const uint64_t MAGIC = 0xA110C8EDF00DBEEFull, DEAD = 0xDEADDEADDEADDEADull;
struct alignas(16) Hdr { uint64_t magic; uint64_t size; uint64_t seq; Hdr* next; Hdr* prev; uint64_t pad; };
static Hdr head; static bool head_init;
static uint64_t seq; static AllocStats st;
static bool tracking = true; static uint64_t fail_at_k, fail_cnt; static size_t limit_single = (size_t)1 << 30;
static int fill = -1;
// Arena: in a simulated run every block comes from one region at a fixed address, so addresses and stale contents are the same in every execution.
static char* const ABASE = (char*)0x10000000000ull; static const size_t ASIZE = (size_t)16 << 30;
static bool arena_on, arena_ok; static char* abump = ABASE; static void* aflist[64 + 48];
static inline int acls(size_t n, size_t& r) { if (n <= 1024) { r = (n + 15) & ~(size_t)15; return (int)(r >> 4) - 1; } int b = 64 - __builtin_clzll(n - 1); r = (size_t)1 << b; return 64 + b - 10; }
void alloc_arena_map() { void* p = mmap(ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); arena_ok = p == ABASE; }
void alloc_arena_start() { arena_on = arena_ok; if (fill < 0) fill = 0x7F; }
static char* aget(size_t n, size_t align) {
    size_t r; int c = acls(n, r);
    if (align <= 16 && aflist[c]) { void* p = aflist[c]; aflist[c] = *(void**)p; return (char*)p; }
    char* p = (char*)(((uintptr_t)abump + align - 1) / align * align);
    if (p + r > ABASE + ASIZE) return nullptr;
    abump = p + r; return p;
}
static inline void hinit() { if (!head_init) { head.next = head.prev = &head; head_init = true; } }

AllocStats alloc_stats() { return st; }
void alloc_peak_reset() { st.peak_bytes = st.live_bytes; st.max_request = 0; }
void alloc_fail_at(uint64_t k, uint64_t count) { fail_at_k = k; fail_cnt = count; }
void alloc_fail_off() { fail_at_k = 0; fail_cnt = 0; }
void alloc_limit(size_t m) { limit_single = m; }
void alloc_fill(uint8_t p) { fill = p; }
void alloc_track(bool on) { tracking = on; }
uint64_t alloc_mark() { return seq; }
uint64_t alloc_live_since(uint64_t m) { hinit(); uint64_t n = 0; for (Hdr* h = head.next; h != &head; h = h->next) if (h->seq > m) n++; return n; }
uint64_t alloc_leak_bytes_since(uint64_t m) { hinit(); uint64_t n = 0; for (Hdr* h = head.next; h != &head; h = h->next) if (h->seq > m) n += h->size; return n; }

static void* do_new(size_t n, size_t align, bool nothrow) {
    hinit();
    if (tracking) {
        if (n > st.max_request) st.max_request = n;
        if (n > limit_single) { st.huge++; st.failed++; count("fault:memory_budget"); if (nothrow) return nullptr; throw std::bad_alloc(); }
        if (fail_at_k) {
            if (fail_at_k == 1) {
                st.failed++; count("fault:alloc_failure");
                if (fail_cnt && --fail_cnt == 0) fail_at_k = 0;
                if (nothrow) return nullptr; throw std::bad_alloc();
            }
            --fail_at_k;
        }
    }
    size_t pre = sizeof(Hdr); if (align > 16) pre = (sizeof(Hdr) + align - 1) / align * align;
    char* base;
    if (arena_on) base = aget(pre + n + 16, align);
    else if (align > 16) { if (posix_memalign((void**)&base, align, pre + n + 16)) { if (nothrow) return nullptr; throw std::bad_alloc(); } }
    else base = (char*)malloc(pre + n + 16);
    if (!base) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    char* p = base + pre; Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->magic = MAGIC; h->size = n; h->seq = ++seq; h->pad = pre;
    h->next = head.next; h->prev = &head; head.next->prev = h; head.next = h;
    memset(p + n, 0xC7, 16);
    if (fill >= 0) memset(p, fill, n);
    st.allocs++; st.live_blocks++; st.live_bytes += n; if (st.live_bytes > st.peak_bytes) st.peak_bytes = st.live_bytes;
    rt_on_alloc(p, n);
    return p;
}
static void do_delete(void* p) {
    if (!p) return;
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    if (h->magic != MAGIC) fail_at(h->magic == DEAD ? "double-free" : "bad-free", current_site(), "operator delete of a block that is not live");
    for (int i = 0; i < 16; ++i) if ((unsigned char)((char*)p)[h->size + i] != 0xC7) fail_at("heap-overrun", current_site(), "write past the end of a heap block");
    rt_on_free(p, h->size);
    h->prev->next = h->next; h->next->prev = h->prev; h->magic = DEAD;
    st.frees++; st.live_blocks--; st.live_bytes -= h->size;
    size_t pre = h->pad; if (fill >= 0) memset(p, 0xDB, h->size);
    char* b = (char*)p - pre;
    if (b >= ABASE && b < ABASE + ASIZE) { size_t r; int c = acls(pre + h->size + 16, r); if (pre == sizeof(Hdr)) { *(void**)b = aflist[c]; aflist[c] = b; } }
    else free(b);
}
void __attribute__((noinline)) paint_stack(uint8_t v) { volatile char b[48 * 1024]; memset((void*)b, v, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
} // namespace sim
using namespace sim;
void* operator new(size_t n) { return do_new(n, 16, false); }
void* operator new[](size_t n) { return do_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return do_new(n, 16, true); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return do_new(n, 16, true); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
