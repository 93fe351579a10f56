// Cooperative deterministic thread runtime: real threads, one runs at a time (baton),
// every pthread operation / atomic / plain memory access is a potential scheduling point.
// Compiled WITHOUT -fsanitize=thread; the code under test is compiled with it and linked
// against the __tsan_* functions below instead of the ThreadSanitizer runtime.
#include "sim.h"
#include "internal.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <random>
#include <stdexcept>

extern "C" char __executable_start, etext;

namespace sim {

static const int MAXT = 48;
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; };

enum TState { T_FREE = 0, T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_ONCE, T_RW, T_DONE, T_READY_EXIT };
struct Th {
    int id; TState st; void* obj; uint64_t wake; bool timed, timed_out, signaled; uint64_t seq;
    int go; VC vc, relf, acqp; pthread_t real; bool detached, joined;
    void* (*fn)(void*); void* arg; void* ret; uint32_t prio;
    uint32_t stk[192]; int sp;
};
static Th th[MAXT];
static int nth, cur;
static bool active;
static int quiet;
static ThreadCfg cfg;
static uint64_t nsteps, seqno;
static uint32_t mem_left, spur_left, pct_left, unfair;
static int strategy; static uint32_t sw_num, mem_max;
static thread_local int me = -1;
static pthread_key_t exit_key; static bool have_key;
int g_fail_thread_create_at = 0; uint64_t g_threads_created = 0;

// ---- clock ----
static uint64_t clk_ns; static int64_t wall_off; static uint64_t read_tick = 40;
uint64_t g_clock_reads_wall, g_clock_reads_mono;
static bool sim_clock = false;

static int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*r_join)(pthread_t, void**);
static int (*r_detach)(pthread_t);
static int (*r_clock)(clockid_t, struct timespec*);
static bool inited;

uint64_t real_mono_ns() {
    struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec;
}
void clock_reset() { clk_ns = 1000000000ull * 5000; wall_off = 1700000000ll * 1000000000ll; sim_clock = true; g_clock_reads_wall = g_clock_reads_mono = 0; }
void wall_jump(int64_t ns) { wall_off += ns; count("fault:wall_clock_jump"); }
void set_read_tick(uint64_t ns) { read_tick = ns; }
uint64_t now_ns() { return clk_ns; }
void advance_ns(uint64_t ns) { clk_ns += ns; }
uint64_t steps() { return nsteps; }
bool threads_active() { return active; }
int self() { return active ? cur : 0; }
int live_threads() { int n = 0; for (int i = 1; i < nth; ++i) if (th[i].st != T_DONE && th[i].st != T_FREE) n++; return n; }
void rt_quiet(int d) { quiet += d; }
void race_ignore_begin() { quiet++; }
void race_ignore_end() { quiet--; }
void progress_mark() { nsteps = 0; }
void rt_flush() { core_set_steps(nsteps, sim_clock ? clk_ns - 1000000000ull * 5000 : 0); }

static void fwait(int* w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(w, 0, __ATOMIC_RELEASE); }
static void fwake(int* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

// ------------------------------------------------------------------ tiny hash table (address -> object)
template <class V, int LOG> struct AMap {
    struct E { uintptr_t k; V v; }; E* e; uint32_t n;
    void init() { e = (E*)mmap(0, sizeof(E) << LOG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    V* get(uintptr_t k, bool create) {
        if (!e) init();
        uint32_t m = (1u << LOG) - 1, i = (uint32_t)((k * 0x9E3779B97F4A7C15ull) >> (64 - LOG));
        for (;; i = (i + 1) & m) { if (e[i].k == k) return &e[i].v; if (!e[i].k) { if (!create) return nullptr; if (n > m * 3 / 4) fail_at("harness-limit", "AMap", "table full"); n++; e[i].k = k; return &e[i].v; } }
    }
};
struct Mtx { int owner; int rec; VC vc; bool used; };       // owner: 0 none, else tid+1
struct Rw { int writer; int readers; VC vc; VC rvc; };
struct Onc { int st; VC vc; };                              // 0 new, 1 running, 2 done
static AMap<Mtx, 12> mtx; static AMap<Rw, 8> rws; static AMap<Onc, 12> onces;
struct Sync { VC vc; };
static AMap<Sync, 13> syncs;

static void vjoin(VC& a, const VC& b) { for (int i = 0; i < nth; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void tick(int t) { th[t].vc.c[t]++; }

// ------------------------------------------------------------------ scheduling
static const char* stname(TState s) { static const char* n[] = {"free", "runnable", "blocked on mutex", "blocked on condition", "joining", "sleeping", "once", "rwlock", "done", "exit"}; return n[s]; }
static void dump_threads(char* b, size_t n) {
    size_t k = 0; b[0] = 0;
    for (int i = 0; i < nth && k + 60 < n; ++i) k += snprintf(b + k, n - k, "%st%d %s", i ? ", " : "", i, stname(th[i].st));
}
static void wake_sleepers() {
    for (int i = 0; i < nth; ++i) {
        Th& t = th[i];
        if (t.st == T_SLEEP && t.wake <= clk_ns) { t.st = T_RUN; }
        else if (t.st == T_COND && t.timed && t.wake <= clk_ns) { t.st = T_RUN; t.timed_out = true; }
    }
}
static int last_kind;
static const char* opname(int k) {
    switch (k) { case 1: return "memory access"; case 10: return "mutex lock"; case 11: return "mutex unlock"; case 12: return "condition wait"; case 13: return "woken"; case 14: return "signal"; case 15: return "broadcast"; case 16: return "thread create";
    case 17: case 18: return "thread created"; case 19: return "join"; case 20: return "thread start"; case 21: return "thread end"; case 22: return "try lock"; case 23: return "once"; case 24: case 25: case 26: return "rwlock"; case 27: return "yield"; case 28: return "sleep"; case 29: case 30: return "static guard";
    case 40: return "atomic load"; case 41: return "atomic store"; case 42: return "atomic rmw"; case 43: return "atomic cas"; case 44: return "fence"; case 90: return "yield point"; } return "?";
}
static void switch_to(int n) {
    int o = cur; if (n == o) return;
    if (verbose()) vtrace("  [%llu] switch t%d (%s at %s) -> t%d", (unsigned long long)nsteps, o, stname(th[o].st), opname(last_kind), n);
    cur = n; unfair = 0;
    fwake(&th[n].go);
    if (th[o].st != T_READY_EXIT) fwait(&th[o].go);
}
static void mem_reload() {
    if (!cfg.mem_preempt || mem_max == 0) { mem_left = 0xffffffff; return; }
    uint32_t v = drawv(S, mem_max + 1, 1 + (uint32_t)(rnd(S) % mem_max));
    mem_left = v == 0 ? 0xffffffff : v;
}
static void spur_reload() {
    if (!cfg.spurious) { spur_left = 0xffffffff; return; }
    uint32_t v = drawv(F, 4096, rnd(F) % 3 == 0 ? 1 + (uint32_t)(rnd(F) % 60) : 1 + (uint32_t)(rnd(F) % 1500));
    spur_left = v == 0 ? 0xffffffff : v;
}
static void step_tick() {
    nsteps++; clk_ns += 100;
    if (nsteps > cfg.max_steps) {
        char b[900]; dump_threads(b, sizeof b); char m[1024]; snprintf(m, sizeof m, "no progress: step budget of %llu scheduling steps exhausted; %s", (unsigned long long)cfg.max_steps, b);
        rt_quiet(1); if (known("no-progress", current_site())) finish();
        fail_at("no-progress", current_site(), m);
    }
    wake_sleepers();
    if (spur_left != 0xffffffff && --spur_left == 0) {
        int c[MAXT], n = 0; for (int i = 0; i < nth; ++i) if (th[i].st == T_COND) c[n++] = i;
        if (n) { int k = c[draw(F, n)]; th[k].st = T_RUN; th[k].signaled = false; count("fault:spurious_wakeup"); }
        spur_reload();
    }
}
// pick the next thread; cur may or may not be runnable
static int pick(bool cur_runs) {
    int c[MAXT], n = 0;
    if (cur_runs) c[n++] = cur;
    for (int i = 0; i < nth; ++i) if (i != cur && th[i].st == T_RUN) c[n++] = i;
    if (n == 0) return -1;
    if (n == 1) return c[0];
    uint32_t g = 0;
    if (!replaying()) {
        if (strategy == 0) g = cur_runs ? ((rnd(S) >> 9) % 100 < sw_num ? 1 + (uint32_t)((rnd(S) >> 9) % (n - 1)) : 0) : (uint32_t)((rnd(S) >> 9) % n);
        else {  // PCT: highest priority runs; priorities change at a few random points
            if (pct_left != 0xffffffff && --pct_left == 0) { th[cur].prio = (uint32_t)(rnd(S) >> 40) >> 8; pct_left = 1 + (uint32_t)((rnd(S) >> 9) % 400); }
            if (unfair > cfg.unfair_cap / 4) th[cur].prio = 0;
            for (int i = 1; i < n; ++i) if (th[c[i]].prio > th[c[g]].prio) g = i;
        }
    }
    if (cur_runs && ++unfair > cfg.unfair_cap) { unfair = 0; g = 1 + (uint32_t)((rnd(S) >> 9) % (n - 1)); }
    uint32_t v = drawv(S, n, g);
    if (cur_runs && unfair > cfg.unfair_cap + 500 && v == 0) v = 1;
    return c[v];
}
static inline void note(int kind, uintptr_t) { last_kind = kind; ihash(((uint64_t)cur << 8) | kind); hash(((uint64_t)cur << 8) | kind); }

static void sched_point(int kind) {
    step_tick();
    note(kind, 0);
    int n = pick(true);
    if (n != cur) switch_to(n);
}
static void block(TState st, void* obj) {   // returns when runnable and scheduled again
    Th& t = th[cur]; t.st = st; t.obj = obj;
    for (;;) {
        nsteps++; wake_sleepers();
        int n = -1;
        if (th[cur].st == T_RUN) n = pick(true); else n = pick(false);
        if (n >= 0) {
            int mine = cur;
            if (n != cur) { switch_to(n); (void)mine; }
            return;
        }
        uint64_t best = ~0ull; for (int i = 0; i < nth; ++i) if ((th[i].st == T_SLEEP || (th[i].st == T_COND && th[i].timed)) && th[i].wake < best) best = th[i].wake;
        if (best == ~0ull) {
            char b[900]; dump_threads(b, sizeof b); char m[1024]; snprintf(m, sizeof m, "deadlock: no thread can run; %s", b);
            rt_quiet(1); if (known("deadlock", current_site())) finish();
            fail_at("deadlock", current_site(), m);
        }
        if (best > clk_ns) clk_ns = best;
    }
}
void yield_point(const char* what) { if (!active) return; (void)what; sched_point(90); }

void threads_begin(const ThreadCfg& c) {
    cfg = c; memset(th, 0, sizeof th); nth = 1; cur = 0; me = 0;
    th[0].st = T_RUN; th[0].vc.c[0] = 1; th[0].prio = 1u << 20; th[0].real = pthread_self();
    nsteps = 0; g_threads_created = 0; unfair = 0;
    strategy = (int)drawv(S, 2, rnd(S) % 3 == 0);
    static const uint32_t sws[] = {5, 15, 30, 50, 75, 95};
    sw_num = sws[drawv(S, 6, (uint32_t)(rnd(S) >> 8))];
    static const uint32_t mm[] = {0, 8, 40, 200, 1000, 5000};
    mem_max = mm[drawv(S, 6, (uint32_t)(rnd(S) >> 8))];
    pct_left = 1 + (uint32_t)((rnd(S) >> 9) % 60);
    mem_reload(); spur_reload();
    if (!have_key) { extern void exit_hook(void*); pthread_key_create(&exit_key, exit_hook); have_key = true; }
    active = true;
}
void threads_end() {
    if (!active) return;
    active = false;
}

// ------------------------------------------------------------------ race detector
struct Slot { Clk ep; uint8_t tid, mask, flags, pad; uint32_t pc; };      // flags: 1 write, 2 atomic, 4 valid
struct Cell { Slot s[4]; };
struct Page { uintptr_t no; Cell* cells; };
static Page* pages; static const int PLOG = 15; static uint32_t npages;
static uintptr_t last_no = ~0ull; static Cell* last_cells;
static uint8_t* pool; static size_t pool_off; static const size_t POOL = 3ull << 30;

static Page* page_slot(uintptr_t no) {
    uint32_t m = (1u << PLOG) - 1, i = (uint32_t)((no * 0x9E3779B97F4A7C15ull) >> (64 - PLOG));
    for (;; i = (i + 1) & m) { if (pages[i].no == no + 1 || !pages[i].no) return &pages[i]; }
}
static Cell* cells_of(uintptr_t no, bool create) {
    if (no == last_no) return last_cells;
    Page* p = page_slot(no);
    if (!p->no) {
        if (!create) return nullptr;
        if (npages > (3u << PLOG) / 4 || pool_off + sizeof(Cell) * 512 > POOL) fail_at("harness-limit", "shadow", "shadow memory exhausted");
        npages++; p->no = no + 1; p->cells = (Cell*)(pool + pool_off); pool_off += sizeof(Cell) * 512;
    }
    last_no = no; last_cells = p->cells; return p->cells;
}
static void sym(uint32_t off, char* b, size_t n) {
    snprintf(b, n, "@{0x%x}", off);
}
static void report_race(uintptr_t addr, const Slot& o, uint32_t pc, bool wr, bool at) {
    rt_quiet(1);
    char a[64], c[64]; sym(pc, a, sizeof a); sym(o.pc, c, sizeof c);
    char cs[700]; size_t k = 0; Th& t = th[cur];
    for (int i = t.sp - 1; i >= 0 && i >= t.sp - 12 && k + 40 < sizeof cs; --i) k += snprintf(cs + k, sizeof cs - k, " @{0x%x}", i < 192 ? t.stk[i] : 0);
    char m[1500];
    snprintf(m, sizeof m, "data race: t%d %s%s at %s conflicts with earlier unordered %s%s by t%d at %s; stack of the later access:%s", cur, at ? "atomic " : "", wr ? "write" : "read", a,
             (o.flags & 2) ? "atomic " : "", (o.flags & 1) ? "write" : "read", o.tid, c, k ? cs : " -");
    (void)addr;
    if (known("race", current_site())) { quiet--; return; }
    fail_at("race", current_site(), m);
}
static inline void access1(uintptr_t g, uint8_t mask, bool wr, bool at, uint32_t pc) {
    Cell* cs = cells_of(g >> 9, true); Cell& c = cs[g & 511];
    Th& t = th[cur]; Clk ep = t.vc.c[cur]; uint8_t fl = 4 | (wr ? 1 : 0) | (at ? 2 : 0);
    int put = -1;
    for (int i = 0; i < 4; ++i) {
        Slot& s = c.s[i];
        if (!s.flags) { if (put < 0) put = i; continue; }
        if (s.tid == cur) {
            if (s.ep == ep && s.flags == fl && (s.mask & mask) == mask) return;
            if (s.mask == mask && ((s.flags & 1) <= (wr ? 1 : 0)) && ((s.flags & 2) >= (at ? 2 : 0))) put = i;   // replaced by an equal or stronger access
            continue;
        }
        if (!(s.mask & mask)) continue;
        if (!((s.flags & 1) || wr)) continue;
        if ((s.flags & 2) && at) continue;
        if (s.ep > t.vc.c[s.tid]) { report_race(g << 3, s, pc, wr, at); }
    }
    if (put < 0) { // evict an ordered-before slot, else round robin
        for (int i = 0; i < 4 && put < 0; ++i) if (c.s[i].ep <= t.vc.c[c.s[i].tid]) put = i;
        if (put < 0) put = (int)(nsteps & 3);
    }
    Slot& d = c.s[put]; d.ep = ep; d.tid = (uint8_t)cur; d.mask = mask; d.flags = fl; d.pc = pc;
}
static inline void access(uintptr_t a, size_t n, bool wr, bool at, uint32_t pc) {
    if (quiet || !cfg.races) return;
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t g = a >> 3; unsigned o = a & 7; unsigned k = 8 - o; if (k > e - a) k = (unsigned)(e - a);
        access1(g, (uint8_t)(((1u << k) - 1) << o), wr, at, pc);
        a += k;
    }
}
static void shadow_clear(uintptr_t a, size_t n) {
    if (!pages) return;
    uintptr_t e = a + n; uintptr_t g0 = a >> 3, g1 = (e + 7) >> 3;
    for (uintptr_t g = g0; g < g1;) {
        uintptr_t no = g >> 9; uintptr_t ge = (no + 1) << 9; if (ge > g1) ge = g1;
        Page* p = page_slot(no);
        if (p->no) memset(&p->cells[g & 511], 0, (ge - g) * sizeof(Cell));
        g = ge;
    }
}
static inline uint32_t pcoff(void* p) { return (uint32_t)((uintptr_t)p - (uintptr_t)&__executable_start); }

static inline void mem(void* a, size_t n, bool wr, void* pc) {
    if (!active || quiet) return;
    if (nth < 2) return;
    if (__builtin_expect(mem_left != 0xffffffff, 0)) { if (--mem_left == 0) { mem_reload(); count("preempt_at_memory_access"); sched_point(1); } }
    access((uintptr_t)a, n, wr, false, pcoff(pc));
}
// called by the allocator
void rt_on_alloc(void* p, size_t n) { if (active) shadow_clear((uintptr_t)p, n); }
void rt_on_free(void* p, size_t n) {
    if (!active) return;
    if (nth > 1 && !quiet) access((uintptr_t)p, n > 4096 ? 4096 : n, true, false, pcoff(__builtin_return_address(0)));
    shadow_clear((uintptr_t)p, n);
}

// ------------------------------------------------------------------ sync objects
static void hb_acquire(VC& o) { vjoin(th[cur].vc, o); }
static void hb_release(VC& o) { o = th[cur].vc; tick(cur); }
static void hb_release_join(VC& o) { vjoin(o, th[cur].vc); tick(cur); }

static int do_lock(pthread_mutex_t* m) {
    sched_point(10);
    Mtx* x = mtx.get((uintptr_t)m, true);
    int kind = m->__data.__kind & 3;
    while (x->owner && x->owner != cur + 1) { block(T_MUTEX, m); x = mtx.get((uintptr_t)m, true); }
    if (x->owner == cur + 1) {
        if (kind == PTHREAD_MUTEX_RECURSIVE) { x->rec++; return 0; }
        if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        fail("deadlock", "t%d locks a mutex it already holds", cur);
    }
    x->owner = cur + 1; x->rec = 1; x->used = true; hb_acquire(x->vc);
    return 0;
}
static void raw_unlock(pthread_mutex_t* m, Mtx* x) {
    x->owner = 0; x->rec = 0; hb_release(x->vc);
    for (int i = 0; i < nth; ++i) if (th[i].st == T_MUTEX && th[i].obj == m) th[i].st = T_RUN;
}
static int do_unlock(pthread_mutex_t* m) {
    Mtx* x = mtx.get((uintptr_t)m, true);
    if (x->owner != cur + 1) {
        if (!x->used) return 0;
        fail("mutex-misuse", "t%d unlocks a mutex it does not hold", cur);
    }
    if (--x->rec > 0) return 0;
    raw_unlock(m, x);
    sched_point(11);
    return 0;
}
static int do_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t wake) {
    sched_point(12);
    Mtx* x = mtx.get((uintptr_t)m, true);
    if (x->owner != cur + 1) fail("mutex-misuse", "t%d waits on a condition without holding its mutex", cur);
    int rec = x->rec; raw_unlock(m, x);
    Th& t = th[cur]; t.timed = timed; t.wake = wake; t.timed_out = false; t.signaled = false; t.seq = ++seqno;
    block(T_COND, c);
    Th& t2 = th[cur]; bool to = t2.timed_out; t2.timed = false;
    x = mtx.get((uintptr_t)m, true);
    while (x->owner) { block(T_MUTEX, m); x = mtx.get((uintptr_t)m, true); }
    x->owner = cur + 1; x->rec = rec; hb_acquire(x->vc);
    note(13, 0);
    return to ? ETIMEDOUT : 0;
}
static void do_signal(pthread_cond_t* c, bool all) {
    sched_point(all ? 15 : 14);
    int w[MAXT], n = 0; for (int i = 0; i < nth; ++i) if (th[i].st == T_COND && th[i].obj == c) w[n++] = i;
    if (!n) return;
    if (all) { for (int i = 0; i < n; ++i) { th[w[i]].st = T_RUN; th[w[i]].signaled = true; } return; }
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (th[w[j]].seq < th[w[i]].seq) { int k = w[i]; w[i] = w[j]; w[j] = k; }
    int k = w[n > 1 ? draw(S, n) : 0]; th[k].st = T_RUN; th[k].signaled = true;
}
static uint64_t abs_to_mono(clockid_t id, const struct timespec* ts) {
    int64_t t = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (id == CLOCK_REALTIME) t -= wall_off;
    return t < 0 ? 0 : (uint64_t)t;
}

void exit_hook(void*) {
    if (!active || me < 0) return;
    Th& t = th[me];
    // TLS destructors have run; this is the last simulated step of the thread
    for (int i = 0; i < nth; ++i) if (th[i].st == T_JOIN && th[i].obj == (void*)(uintptr_t)(me + 1)) th[i].st = T_RUN;
    tick(me);
    t.st = T_DONE; note(21, 0);
    // hand over the baton without waiting
    for (;;) {
        nsteps++; wake_sleepers(); int n = pick(false);
        if (n >= 0) { cur = n; unfair = 0; fwake(&th[n].go); return; }
        uint64_t best = ~0ull; for (int i = 0; i < nth; ++i) if ((th[i].st == T_SLEEP || (th[i].st == T_COND && th[i].timed)) && th[i].wake < best) best = th[i].wake;
        if (best == ~0ull) { char b[900]; dump_threads(b, sizeof b); fail("deadlock", "deadlock: no thread can run; %s", b); }
        if (best > clk_ns) clk_ns = best;
    }
}
static void* trampoline(void* p) {
    Th* t = (Th*)p; me = t->id;
    fwait(&t->go);
    pthread_attr_t at; void* sa; size_t ss;
    if (!pthread_getattr_np(pthread_self(), &at)) { if (!pthread_attr_getstack(&at, &sa, &ss)) { // forget shadow of a recycled stack
            for (uintptr_t no = (uintptr_t)sa >> 12; no <= ((uintptr_t)sa + ss + 8192) >> 12; ++no) { Page* pg = page_slot(no); if (pg->no) memset(pg->cells, 0, sizeof(Cell) * 512); } }
        pthread_attr_destroy(&at); }
    pthread_setspecific(exit_key, t);
    note(20, 0);
    void* r = t->fn(t->arg);
    th[me].ret = r;
    return r;
}

void rt_init() {
    if (inited) return; inited = true;
    r_create = (decltype(r_create))dlsym(RTLD_NEXT, "pthread_create");
    r_join = (decltype(r_join))dlsym(RTLD_NEXT, "pthread_join");
    r_detach = (decltype(r_detach))dlsym(RTLD_NEXT, "pthread_detach");
    r_clock = (decltype(r_clock))dlsym(RTLD_NEXT, "clock_gettime");
    pages = (Page*)mmap(0, sizeof(Page) << PLOG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pool = (uint8_t*)mmap(0, POOL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mtx.init(); rws.init(); onces.init(); syncs.init();
}
static uint64_t ent = 42;
uint64_t g_entropy_draws;
void entropy_seed(uint64_t s) { ent = s * 2 + 1; }
__thread bool g_entropy_broken;
void entropy_broken(bool on) { g_entropy_broken = on; }
static uint32_t entropy32() { ent = ent * 6364136223846793005ull + 1442695040888963407ull; g_entropy_draws++; return (uint32_t)(ent >> 32); }
} // namespace sim

using namespace sim;

// ====================================================================== pthread interposition
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!inited) rt_init();
    if (!active) return r_create(t, a, fn, arg);
    sched_point(16);
    if (g_fail_thread_create_at > 0 && --g_fail_thread_create_at == 0) { count("fault:thread_create_EAGAIN"); return EAGAIN; }
    int id = -1;
    if (nth < MAXT) id = nth; else fail("harness-limit", "too many threads");
    Th& n = th[id]; memset(&n, 0, sizeof n); n.id = id; n.fn = fn; n.arg = arg; n.st = T_RUN; n.vc = th[cur].vc; n.vc.c[id] = 1; n.prio = replaying() ? 0 : (uint32_t)(rnd(S) >> 40);
    tick(cur);
    pthread_t real; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 * 1024);
    int e = r_create(&real, &at, trampoline, &n); pthread_attr_destroy(&at);
    if (e) fail("harness-limit", "real pthread_create failed: %d", e);
    nth++; n.real = real; *t = real; g_threads_created++;
    note(17, 0);
    sched_point(18);
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    if (!inited) rt_init();
    if (!active) return r_join(t, ret);
    sched_point(19);
    int id = -1; for (int i = 1; i < nth; ++i) if (!th[i].joined && !th[i].detached && pthread_equal(th[i].real, t)) id = i;
    if (id < 0) return r_join(t, ret);
    if (id == cur) return EDEADLK;
    while (th[id].st != T_DONE) block(T_JOIN, (void*)(uintptr_t)(id + 1));
    th[id].joined = true; vjoin(th[cur].vc, th[id].vc);
    int e = r_join(t, nullptr); if (ret) *ret = th[id].ret;
    return e;
}
int pthread_detach(pthread_t t) {
    if (!inited) rt_init();
    if (active) for (int i = 1; i < nth; ++i) if (!th[i].joined && pthread_equal(th[i].real, t)) th[i].detached = true;
    return r_detach(t);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); int k = 0; if (a) pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; if (active) { Mtx* x = mtx.get((uintptr_t)m, true); memset(x, 0, sizeof *x); } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (active) { Mtx* x = mtx.get((uintptr_t)m, false); if (x && x->owner) fail("mutex-misuse", "a locked mutex is destroyed"); if (x) memset(x, 0, sizeof *x); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { return active ? do_lock(m) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { return active ? do_unlock(m) : 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active) return 0;
    sched_point(22);
    Mtx* x = mtx.get((uintptr_t)m, true);
    if (x->owner) { if (x->owner == cur + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x->rec++; return 0; } return EBUSY; }
    x->owner = cur + 1; x->rec = 1; x->used = true; hb_acquire(x->vc); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return active ? do_lock(m) : 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return active ? do_lock(m) : 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    if (active) for (int i = 0; i < nth; ++i) if (th[i].st == T_COND && th[i].obj == c) fail("cond-misuse", "condition variable destroyed while t%d waits on it", i);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active) fail_at("deadlock", current_site(), "condition wait with a single thread"); return do_cond_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return active ? do_cond_wait(c, m, true, abs_to_mono(CLOCK_REALTIME, ts)) : ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) { return active ? do_cond_wait(c, m, true, abs_to_mono(id, ts)) : ETIMEDOUT; }
int pthread_cond_signal(pthread_cond_t* c) { if (active) do_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (active) do_signal(c, true); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!active) { if (*(volatile int*)o != 2) { *(volatile int*)o = 2; fn(); } return 0; }
    sched_point(23);
    Onc* x = onces.get((uintptr_t)o, true);
    if (*(volatile int*)o == 2 && x->st == 0) x->st = 2;
    while (x->st == 1) { block(T_ONCE, o); x = onces.get((uintptr_t)o, true); }
    if (x->st == 2) { hb_acquire(x->vc); return 0; }
    x->st = 1;
    struct Guard { pthread_once_t* o; bool ok = false; ~Guard() { Onc* y = onces.get((uintptr_t)o, true); y->st = ok ? 2 : 0; if (ok) *(volatile int*)o = 2; hb_release(y->vc); for (int i = 0; i < nth; ++i) if (th[i].st == T_ONCE && th[i].obj == o) th[i].st = T_RUN; } } g{o};
    fn(); g.ok = true;
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!active) return 0; sched_point(24); Rw* x = rws.get((uintptr_t)l, true);
    while (x->writer) { block(T_RW, l); x = rws.get((uintptr_t)l, true); }
    x->readers++; hb_acquire(x->vc); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!active) return 0; sched_point(25); Rw* x = rws.get((uintptr_t)l, true);
    while (x->writer || x->readers) { block(T_RW, l); x = rws.get((uintptr_t)l, true); }
    x->writer = cur + 1; hb_acquire(x->vc); hb_acquire(x->rvc); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!active) return 0; sched_point(24); Rw* x = rws.get((uintptr_t)l, true); if (x->writer) return EBUSY; x->readers++; hb_acquire(x->vc); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!active) return 0; sched_point(25); Rw* x = rws.get((uintptr_t)l, true); if (x->writer || x->readers) return EBUSY; x->writer = cur + 1; hb_acquire(x->vc); hb_acquire(x->rvc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!active) return 0; Rw* x = rws.get((uintptr_t)l, true);
    if (x->writer == cur + 1) { x->writer = 0; hb_release(x->vc); } else { x->readers--; hb_release_join(x->rvc); }
    for (int i = 0; i < nth; ++i) if (th[i].st == T_RW && th[i].obj == l) th[i].st = T_RUN;
    sched_point(26); return 0;
}
int sched_yield() { if (active) sched_point(27); return 0; }
static int do_sleep(uint64_t ns) { if (active) { sched_point(28); th[cur].wake = clk_ns + ns; if (ns) block(T_SLEEP, nullptr); } else clk_ns += ns; return 0; }
int nanosleep(const struct timespec* r, struct timespec*) { return do_sleep((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec); }
int clock_nanosleep(clockid_t id, int fl, const struct timespec* r, struct timespec*) {
    uint64_t t = (uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec;
    if (fl & TIMER_ABSTIME) { uint64_t a = abs_to_mono(id, r); return do_sleep(a > clk_ns ? a - clk_ns : 0); }
    return do_sleep(t);
}
int usleep(useconds_t us) { count("usleep"); return do_sleep((uint64_t)us * 1000); }
unsigned sleep(unsigned s) { do_sleep((uint64_t)s * 1000000000ull); return 0; }
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!sim_clock) return (int)syscall(SYS_clock_gettime, id, ts);
    clk_ns += read_tick;
    int64_t t = (int64_t)clk_ns;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) { t += wall_off; g_clock_reads_wall++; } else g_clock_reads_mono++;
    ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000ll; ts->tv_sec--; }
    return 0;
}
int gettimeofday(struct timeval* tv, void*) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t* p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int timespec_get(struct timespec* ts, int base) { clock_gettime(CLOCK_REALTIME, ts); return base; }
clock_t clock() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (clock_t)(t.tv_sec * 1000000ll + t.tv_nsec / 1000); }
uint32_t arc4random(void) { return entropy32(); }
ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((uint8_t*)b)[i] = (uint8_t)(entropy32() >> 24); return (ssize_t)n; }

// exception objects are reference counted inside libstdc++ (invisible here): forget their shadow on reuse
void* __cxa_allocate_exception(size_t n) noexcept {
    static void* (*real)(size_t); if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    void* p = real(n); if (active) shadow_clear((uintptr_t)p - 128, n + 160); return p;
}
// static-local guards
int __cxa_guard_acquire(uint64_t* g) {
    uint8_t* b = (uint8_t*)g;
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { if (active) { Onc* x = onces.get((uintptr_t)g, false); if (x) hb_acquire(x->vc); } return 0; }
    if (!active) { b[1] = 1; return 1; }
    sched_point(29);
    Onc* x = onces.get((uintptr_t)g, true);
    while (x->st == 1) { block(T_ONCE, g); x = onces.get((uintptr_t)g, true); }
    if (b[0]) { hb_acquire(x->vc); return 0; }
    x->st = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) {
    uint8_t* b = (uint8_t*)g; b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    if (!active) return;
    Onc* x = onces.get((uintptr_t)g, true); x->st = 2; hb_release(x->vc);
    hb_release(syncs.get((uintptr_t)g, true)->vc);   // fast path is an acquire load of the guard byte
    for (int i = 0; i < nth; ++i) if (th[i].st == T_ONCE && th[i].obj == g) th[i].st = T_RUN;
    sched_point(30);
}
void __cxa_guard_abort(uint64_t* g) {
    uint8_t* b = (uint8_t*)g; b[1] = 0;
    if (!active) return;
    Onc* x = onces.get((uintptr_t)g, true); x->st = 0;
    for (int i = 0; i < nth; ++i) if (th[i].st == T_ONCE && th[i].obj == g) th[i].st = T_RUN;
}

// ====================================================================== tsan interface
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (active && !quiet) { Th& t = th[cur]; if (t.sp < 192) t.stk[t.sp] = pcoff(pc); t.sp++; } }
void __tsan_func_exit() { if (active && !quiet) { Th& t = th[cur]; if (t.sp > 0) t.sp--; } }
#define RW(n) void __tsan_read##n(void* a) { mem(a, n, false, RA); } void __tsan_write##n(void* a) { mem(a, n, true, RA); } \
  void __tsan_unaligned_read##n(void* a) { mem(a, n, false, RA); } void __tsan_unaligned_write##n(void* a) { mem(a, n, true, RA); } \
  void __tsan_volatile_read##n(void* a) { mem(a, n, false, RA); } void __tsan_volatile_write##n(void* a) { mem(a, n, true, RA); } \
  void __tsan_unaligned_volatile_read##n(void* a) { mem(a, n, false, RA); } void __tsan_unaligned_volatile_write##n(void* a) { mem(a, n, true, RA); } \
  void __tsan_read_write##n(void* a) { mem(a, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { mem(a, n, false, RA); }
void __tsan_write_range(void* a, unsigned long n) { mem(a, n, true, RA); }
void __tsan_vptr_read(void** a) { mem(a, 8, false, RA); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) mem(a, 8, true, RA); else mem(a, 8, false, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { mem((void*)s, n, false, RA); mem(d, n, true, RA); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { mem((void*)s, n, false, RA); mem(d, n, true, RA); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) mem(d, n, true, RA); return memset(d, c, n); }
} // extern C

enum { MO_RELAXED = 0, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ };
static inline bool is_acq(int m) { m &= 0x7fff; return m == MO_CONSUME || m == MO_ACQUIRE || m == MO_ACQ_REL || m == MO_SEQ; }
static inline bool is_rel(int m) { m &= 0x7fff; return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ; }
static void at_load(volatile void* a, size_t n, int mo, void* pc) {
    if (!active || quiet) return;
    sched_point(40);
    access((uintptr_t)a, n, false, true, pcoff(pc));
    Sync* s = syncs.get((uintptr_t)a, false);
    if (s) { if (is_acq(mo)) hb_acquire(s->vc); else vjoin(th[cur].acqp, s->vc); }
}
static void at_store_pre(volatile void* a, size_t n, int mo, void* pc) {
    if (!active || quiet) return;
    sched_point(41);
    access((uintptr_t)a, n, true, true, pcoff(pc));
    Sync* s = syncs.get((uintptr_t)a, true);
    if (is_rel(mo)) hb_release(s->vc); else s->vc = th[cur].relf;
}
static void at_rmw(volatile void* a, size_t n, int mo, void* pc) {
    if (!active || quiet) return;
    sched_point(42);
    access((uintptr_t)a, n, true, true, pcoff(pc));
    Sync* s = syncs.get((uintptr_t)a, true);
    if (is_acq(mo)) hb_acquire(s->vc); else vjoin(th[cur].acqp, s->vc);
    if (is_rel(mo)) hb_release_join(s->vc); else vjoin(s->vc, th[cur].relf);
}
static void at_cas_fail(volatile void* a, size_t n, int mo, void* pc) {
    if (!active || quiet) return;
    access((uintptr_t)a, n, false, true, pcoff(pc));
    Sync* s = syncs.get((uintptr_t)a, false);
    if (s) { if (is_acq(mo)) hb_acquire(s->vc); else vjoin(th[cur].acqp, s->vc); }
}
static void at_cas_ok(volatile void* a, size_t n, int mo, void* pc) {
    if (!active || quiet) return;
    access((uintptr_t)a, n, true, true, pcoff(pc));
    Sync* s = syncs.get((uintptr_t)a, true);
    if (is_acq(mo)) hb_acquire(s->vc); else vjoin(th[cur].acqp, s->vc);
    if (is_rel(mo)) hb_release_join(s->vc); else vjoin(s->vc, th[cur].relf);
}
static void at_point() { if (active && !quiet) sched_point(43); }
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long long a64; typedef unsigned __int128 a128;
#define RAA __builtin_return_address(0)
#define ATOM(N, T) extern "C" { \
 T __tsan_atomic##N##_load(const volatile T* a, int mo) { at_load((volatile void*)a, sizeof(T), mo, RAA); return *a; } \
 void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { at_store_pre(a, sizeof(T), mo, RAA); *a = v; } \
 T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { at_rmw(a, sizeof(T), mo, RAA); T o = *a; *a = v; return o; } \
 T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { at_rmw(a, sizeof(T), mo, RAA); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { at_rmw(a, sizeof(T), mo, RAA); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { at_rmw(a, sizeof(T), mo, RAA); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { at_rmw(a, sizeof(T), mo, RAA); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { at_rmw(a, sizeof(T), mo, RAA); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { at_rmw(a, sizeof(T), mo, RAA); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { at_point(); if (*a == *c) { at_cas_ok(a, sizeof(T), mo, RAA); *a = v; return 1; } at_cas_fail(a, sizeof(T), fmo, RAA); *c = *a; return 0; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { at_point(); if (*a == *c) { at_cas_ok(a, sizeof(T), mo, RAA); *a = v; return 1; } at_cas_fail(a, sizeof(T), fmo, RAA); *c = *a; return 0; } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { at_point(); T o = *a; if (o == c) { at_cas_ok(a, sizeof(T), mo, RAA); *a = v; } else at_cas_fail(a, sizeof(T), fmo, RAA); return o; } }
ATOM(8, a8) ATOM(16, a16) ATOM(32, a32) ATOM(64, a64) ATOM(128, a128)
extern "C" void __tsan_atomic_thread_fence(int mo) {
    if (!active || quiet) return;
    sched_point(44);
    if (is_acq(mo)) vjoin(th[cur].vc, th[cur].acqp);
    if (is_rel(mo)) { vjoin(th[cur].relf, th[cur].vc); tick(cur); }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ====================================================================== entropy
namespace std {
void random_device::_M_init(const std::string&) { g_entropy_draws += 0; }
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { if (g_entropy_broken) throw std::runtime_error("random_device could not be read"); return entropy32(); }
random_device::result_type random_device::_M_getval_pretr1() { return entropy32(); }
}

// ====================================================================== uninstrumented event log for scenarios
namespace sim {
static Ev* evs; static uint32_t nev; static const uint32_t EVCAP = 1u << 18;
uint32_t ev(int kind, int64_t a, int64_t b) {
    if (!evs) evs = (Ev*)mmap(0, sizeof(Ev) * EVCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (nev >= EVCAP) fail_at("harness-limit", "events", "event log full");
    Ev& e = evs[nev]; e.kind = kind; e.tid = active ? cur : 0; e.a = a; e.b = b; e.t = clk_ns;
    hash(((uint64_t)kind << 32) ^ ((uint64_t)e.tid << 56) ^ (uint64_t)a ^ ((uint64_t)b << 17));
    if (verbose()) vtrace("t%d event %d (%lld, %lld)", e.tid, kind, (long long)a, (long long)b);
    return nev++;
}
uint32_t ev_count() { return nev; }
const Ev& ev_get(uint32_t i) { return evs[i]; }
}
