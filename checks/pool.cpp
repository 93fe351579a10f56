// Thread pool scenarios (C01..C05). CHECK is 1..5.
#include <cstring>
#include "../sim/sim.h"
#include "tools/ThreadPool.h"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <vector>
#include <new>
#include <thread>
#include <chrono>
#include <system_error>
#ifndef CHECK
#error CHECK
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
const char* const SIM_CHECK_ID = "C0" STR(CHECK);
using sim::w;

enum { SUB_BEGIN = 1, SUB_END, SUB_FAIL, T_START, T_THROW, T_END, WAIT_BEGIN, WAIT_END, CB, GOT, CLEAR_B, CLEAR_E, CB_SET_B, CB_SET_E, Q_BEGIN, Q_HAS, Q_PEND, Q_QUEUED, DTOR_B, DTOR_E, COUNT_R, HASX_R };

static const int MAXTASK = 480;
struct TaskPlan { uint8_t yields, throws, nchild, query, sleep, meet; int child[4]; };
static TaskPlan plan[MAXTASK];
static int ntask;
static long slots[MAXTASK];              // plain memory written by tasks, read after barriers
struct Ex { int id; };
static const int SHARED = 990;               // id of the one exception object that several tasks rethrow
static std::exception_ptr* shared_ex;
struct ExErr : std::runtime_error { int id; ExErr(int i) : std::runtime_error("task failed"), id(i) {} };
static int runs[MAXTASK];                // plain: written by the task itself only

static int new_task(int depth, bool allow_throw) {
    int id = ntask++; TaskPlan& t = plan[id];
    t.yields = (uint8_t)w(4); t.throws = allow_throw && sim::chance(sim::W, 1, 3) ? 1 + (uint8_t)w(5) : 0;
    t.query = (uint8_t)sim::chance(sim::W, 1, 5); t.sleep = (uint8_t)(sim::chance(sim::W, 1, 8) ? 1 + w(3) : 0);
    t.nchild = 0;
    if (depth < 3 && ntask < 130) { int n = sim::chance(sim::W, 1, 3) ? 1 + (int)w(3) : 0; for (int i = 0; i < n; ++i) { int c = new_task(depth + 1, allow_throw); plan[id].child[plan[id].nchild++] = c; } }
    return id;
}
static MML::ThreadPool* P;
// a group of tasks that wait for each other: as many as there are workers at most, so every one of them must get a worker
static std::mutex* meet_m; static std::condition_variable* meet_c; static int meet_size, meet_here;
static void meet() { std::unique_lock<std::mutex> l(*meet_m); if (++meet_here == meet_size) meet_c->notify_all(); else meet_c->wait(l, [] { return meet_here >= meet_size; }); }
static int simple_task(uint8_t throws) { int id = ntask++; plan[id] = TaskPlan(); plan[id].throws = throws; return id; }
static void submit(int id);
static int id_of(std::exception_ptr e) {
    int r = -1;
    try { std::rethrow_exception(e); }
    catch (const Ex& x) { r = x.id; } catch (long) { r = SHARED; } catch (const ExErr& x) { r = x.id; }
    catch (int v) { r = v; } catch (const char* s) { r = s[0] * 1000 + s[1] * 10 + s[2]; r = (s[0] - '0') * 100 + (s[1] - '0') * 10 + (s[2] - '0'); }
    catch (...) { r = -2; }
    return r;
}
static char names[MAXTASK][4];
static void body(int id) {
    sim::ev(T_START, id);
    runs[id]++;
    TaskPlan& t = plan[id];
    for (int i = 0; i < t.yields; ++i) std::this_thread::yield();
    if (t.sleep) std::this_thread::sleep_for(std::chrono::microseconds(t.sleep * 37));
    if (t.query) { (void)P->has_tasks(); (void)P->queued_tasks(); size_t p = P->pending_tasks();
#if CHECK == 4
        if (p < 1 || p > P->thread_count()) sim::fail("counter", "pending_tasks()=%zu inside a running task of a pool with %zu workers", p, P->thread_count());
        if (!P->has_tasks()) sim::fail("counter", "has_tasks() is false inside a running task");
#endif
        (void)p; }
    for (int i = 0; i < t.nchild; ++i) submit(t.child[i]);
    if (t.meet) meet();
    slots[id] = 1000 + id;
    if (t.throws) {
        sim::ev(T_THROW, id);
        switch (t.throws) { case 1: throw Ex{id}; case 2: throw ExErr(id); case 3: throw id; case 5: std::rethrow_exception(*shared_ex); default: throw (const char*)names[id]; }
    }
    sim::ev(T_END, id);
}
static void submit(int id) {
    sim::ev(SUB_BEGIN, id);
    try {
        auto keep = std::shared_ptr<int>();   // small captured state
        P->enqueue([id, keep] { body(id); });
        sim::ev(SUB_END, id);
    } catch (const std::bad_alloc&) { sim::ev(SUB_FAIL, id);
        if (CHECK != 5) sim::fail("spurious-exception", "enqueue threw bad_alloc without a fault"); }
}
struct Op { uint8_t kind; int task; };
enum { O_SUBMIT, O_WAIT, O_QUERY, O_GET, O_COUNT, O_CLEAR, O_SETCB, O_YIELD, O_RETHROW, O_HASX };
static std::vector<Op>* prog;
static int ncb;
static void set_cb(int cb) {
    sim::ev(CB_SET_B, cb);
    bool bad = cb % 3 == 2, ask = cb % 2 == 0;
    struct Pad { long a[5]; } pad{{cb, 1, 2, 3, 4}};   // too big for the small buffer: copying this callback allocates
    P->set_error_callback([cb, bad, ask, pad](std::exception_ptr e) { if (pad.a[0] != cb || pad.a[4] != 4) sim::fail("callback", "the callback's state was damaged"); int id = id_of(e); sim::ev(CB, cb, id);
        if (ask) { (void)P->exception_count(); (void)P->has_exceptions(); (void)P->queued_tasks(); if (P->pending_tasks() < 1) sim::fail("counter", "pending_tasks() is 0 while an error callback runs"); }   // a callback may use the pool
        if (bad) throw 77; });
    sim::ev(CB_SET_E, cb);
}
static void run_prog(int who) {
    for (auto& o : prog[who]) {
        switch (o.kind) {
        case O_SUBMIT: submit(o.task); break;
        case O_WAIT: { uint32_t b = sim::ev(WAIT_BEGIN, who); P->wait_for_tasks(); sim::ev(WAIT_END, who, b);
            // everything submitted by this thread earlier must be finished and visible
            for (auto& q : prog[who]) { if (&q == &o) break; if (q.kind == O_SUBMIT && CHECK != 5) { if (runs[q.task] != 1 || slots[q.task] != 1000 + q.task) sim::fail("barrier", "wait_for_tasks returned before task %d had finished", q.task); } }
            break; }
        case O_QUERY: { uint32_t b = sim::ev(Q_BEGIN, who); bool h = P->has_tasks(); sim::ev(Q_HAS, h, b);
            b = sim::ev(Q_BEGIN, who); size_t p = P->pending_tasks(); sim::ev(Q_PEND, (int64_t)p, b);
            b = sim::ev(Q_BEGIN, who); size_t q = P->queued_tasks(); sim::ev(Q_QUEUED, (int64_t)q, b); break; }
        case O_GET: { uint32_t b = sim::ev(Q_BEGIN, who); std::exception_ptr e = P->get_exception(); sim::ev(GOT, e ? id_of(e) : -1, b); break; }
        case O_RETHROW: { uint32_t b = sim::ev(Q_BEGIN, who); std::exception_ptr e; try { P->rethrow_if_exception(); } catch (...) { e = std::current_exception(); } sim::ev(GOT, e ? id_of(e) : -1, b); break; }
        case O_COUNT: { uint32_t b = sim::ev(Q_BEGIN, who); size_t n = P->exception_count(); sim::ev(COUNT_R, (int64_t)n, b); break; }
        case O_HASX: { uint32_t b = sim::ev(Q_BEGIN, who); bool n = P->has_exceptions(); sim::ev(HASX_R, n, b); break; }
        case O_CLEAR: { uint32_t b = sim::ev(CLEAR_B, who); P->clear_exceptions(); sim::ev(CLEAR_E, who, b); break; }
        case O_SETCB: set_cb(o.task); break;
        case O_YIELD: std::this_thread::yield(); break;
        }
    }
}

static void check_history(int nthreads, bool destroyed) {
    uint32_t n = sim::ev_count();
    static int64_t sb[MAXTASK], se[MAXTASK], ts[MAXTASK], te[MAXTASK], tt[MAXTASK]; static bool failed[MAXTASK];
    for (int i = 0; i < MAXTASK; ++i) { sb[i] = se[i] = ts[i] = te[i] = tt[i] = -1; failed[i] = false; }
    static int cnt[MAXTASK], cbs[MAXTASK], got[MAXTASK]; memset(cnt, 0, sizeof cnt); memset(cbs, 0, sizeof cbs); memset(got, 0, sizeof got);
    for (uint32_t i = 0; i < n; ++i) { auto& e = sim::ev_get(i); int a = (int)e.a;
        switch (e.kind) { case SUB_BEGIN: sb[a] = i; break; case SUB_END: se[a] = i; break; case SUB_FAIL: failed[a] = true; break;
            case T_START: cnt[a]++; if (ts[a] < 0) ts[a] = i; break; case T_THROW: tt[a] = i; te[a] = i; break; case T_END: te[a] = i; break; } }
    // accepted tasks: exactly once; rejected: never
    if (destroyed) for (int i = 0; i < ntask; ++i) {
        if (sb[i] < 0) { if (cnt[i]) sim::fail("exactly-once", "task %d ran though it was never submitted", i); continue; }
        if (failed[i]) { if (cnt[i]) sim::fail("exactly-once", "task %d ran although its submission failed", i); continue; }
        if (cnt[i] != 1) sim::fail("exactly-once", "task %d was executed %d times", i, cnt[i]);
        if (te[i] < 0) sim::fail("exactly-once", "task %d never finished", i);
        if (runs[i] != 1 || slots[i] != 1000 + i) sim::fail("exactly-once", "effects of task %d are missing after shutdown", i);
    }
#if CHECK == 2
    for (uint32_t i = 0; i < n; ++i) { auto& e = sim::ev_get(i); if (e.kind != WAIT_END) continue; int64_t b = e.b;
        for (int k = 0; k < ntask; ++k) {
            bool due = se[k] >= 0 && se[k] < b;
            if (due && (te[k] < 0 || te[k] > (int64_t)i)) sim::fail("barrier", "wait_for_tasks returned while task %d (submitted before the call) was unfinished", k);
            if (due) for (int c = 0; c < plan[k].nchild; ++c) { int ch = plan[k].child[c]; if (se[ch] >= 0 && (te[ch] < 0 || te[ch] > (int64_t)i)) sim::fail("barrier", "wait_for_tasks returned while task %d (submitted by task %d before it finished) was unfinished", ch, k); }
        } }
#endif
#if CHECK == 4
    for (int a = 0; a < ntask; ++a) if (ts[a] >= 0) { int late = 0;
        for (int b = 0; b < ntask; ++b) if (a != b && se[b] >= 0 && se[b] < sb[a] && (ts[b] < 0 || ts[b] > ts[a])) late++;
        if (late > nthreads - 1) sim::fail("fifo", "task %d started while %d tasks submitted before it had not started (%d workers)", a, late, nthreads); }
    if (nthreads == 1) { int64_t prev = -1; int pid = -1; // execution never overlaps on one worker
        for (uint32_t i = 0; i < n; ++i) { auto& e = sim::ev_get(i); if (e.kind == T_START) { if (pid >= 0) sim::fail("fifo", "one-worker pool ran tasks %d and %d at once", pid, (int)e.a); pid = (int)e.a; prev = i; } if (e.kind == T_END || e.kind == T_THROW) pid = -1; } (void)prev; }
    { int run = 0; for (uint32_t i = 0; i < n; ++i) { auto& e = sim::ev_get(i); if (e.kind == T_START) { if (++run > nthreads) sim::fail("counter", "%d tasks execute at once on %d workers", run, nthreads); } if (e.kind == T_END || e.kind == T_THROW) run--; } }
    for (uint32_t i = 0; i < n; ++i) { auto& e = sim::ev_get(i); int64_t b = e.b, r = i;
        if (e.kind == Q_HAS && e.a == 0) { for (int k = 0; k < ntask; ++k) if (se[k] >= 0 && se[k] < b && (te[k] < 0 || te[k] > r)) sim::fail("counter", "has_tasks() said idle while task %d was accepted and unfinished", k); }
        if (e.kind == Q_HAS && e.a == 0) {    // also when one task took over from another: idle needs an instant without any
            bool gap = false; for (int64_t t = b; t < r && !gap; ++t) { bool busy = false; for (int k = 0; k < ntask && !busy; ++k) busy = se[k] >= 0 && se[k] <= t && (te[k] < 0 || te[k] > t); gap = !busy; }
            if (!gap) sim::fail("counter", "has_tasks() said idle although at every instant of the call some accepted task was unfinished"); }
        if (e.kind == Q_PEND) { int sure = 0; for (int k = 0; k < ntask; ++k) if (ts[k] >= 0 && ts[k] < b && (te[k] < 0 || te[k] > r)) sure++;
            int begun = 0, sub = 0; for (int k = 0; k < ntask; ++k) { if (sb[k] >= 0 && sb[k] < r) sub++; } (void)begun;
            if (e.a > nthreads) sim::fail("counter", "pending_tasks()=%d exceeds %d workers", (int)e.a, nthreads);
            if (e.a < sure) sim::fail("counter", "pending_tasks()=%d while %d tasks were executing throughout the call", (int)e.a, sure);
            if (e.a > sub) sim::fail("counter", "pending_tasks()=%d exceeds %d submissions", (int)e.a, sub); }
        if (e.kind == Q_QUEUED) { int acc_b = 0, beg_r = 0, st_b = 0, st_r = 0; for (int k = 0; k < ntask; ++k) { if (se[k] >= 0 && se[k] < b) acc_b++; if (sb[k] >= 0 && sb[k] < r) beg_r++; if (ts[k] >= 0 && ts[k] < b) st_b++; if (ts[k] >= 0 && ts[k] < r) st_r++; }
            if (e.a > beg_r - st_b) sim::fail("counter", "queued_tasks()=%d but only %d submitted tasks were not started", (int)e.a, beg_r - st_b);
            if (e.a < acc_b - st_r - nthreads) sim::fail("counter", "queued_tasks()=%d though %d accepted tasks had not started on %d workers", (int)e.a, acc_b - st_r, nthreads); }
    }
#endif
#if CHECK == 3
    // conservation of exceptions
    int64_t firstclear = -1; for (uint32_t i = 0; i < n; ++i) if (sim::ev_get(i).kind == CLEAR_B && firstclear < 0) firstclear = i;
    std::vector<std::pair<int64_t, int>> gots; int sgot = 0, scb = 0;
    auto sthrown = [&](uint32_t upto) { int c = 0; for (int k = 0; k < ntask; ++k) if (plan[k].throws == 5 && tt[k] >= 0 && tt[k] < (int64_t)upto) c++; return c; };
    for (uint32_t i = 0; i < n; ++i) { auto& e = sim::ev_get(i);
        if (e.kind == GOT && e.a == SHARED) { if (++sgot > sthrown(i)) sim::fail("exceptions", "a shared exception was retrieved more often than it was thrown"); gots.push_back({i, SHARED}); continue; }
        if (e.kind == CB && e.b == SHARED) { if (++scb > sthrown(i)) sim::fail("callback", "the callback was invoked more often than tasks failed"); continue; }
        if (e.kind == GOT && e.a >= 0) { int k = (int)e.a; if (k >= ntask || tt[k] < 0) sim::fail("exceptions", "retrieved an exception that no task threw (id %d)", k); if (++got[k] > 1) sim::fail("exceptions", "exception of task %d retrieved twice", k); if (tt[k] > (int64_t)i) sim::fail("exceptions", "exception of task %d retrieved before it was thrown", k); gots.push_back({i, k}); }
        if (e.kind == GOT && e.a == -2) sim::fail("exceptions", "retrieved a foreign exception");
        if (e.kind == CB) { int k = (int)e.b; if (k < 0 || k >= ntask || tt[k] < 0 || tt[k] > (int64_t)i) sim::fail("callback", "callback invoked with an exception no task threw (id %d)", k); cbs[k]++; if (cbs[k] > 1) sim::fail("callback", "callback invoked twice for task %d", k); }
    }
    // oldest first: if B's failing task started after a later barrier/finish of A ... use sequential-retriever partial order
    for (size_t i = 0; i < gots.size(); ++i) for (size_t j = i + 1; j < gots.size() && (gots.size() <= 40 || j == i + 1); ++j) {
        int first = gots[i].second, second = gots[j].second; if (first == SHARED || second == SHARED) continue;
        // 'second' was certainly captured before 'first': its callback/next task event precedes first's throw
        int64_t cap = -1; for (uint32_t k = (uint32_t)tt[second] + 1; k < n; ++k) { auto& e = sim::ev_get(k); if (e.tid == sim::ev_get((uint32_t)tt[second]).tid && (e.kind == T_START || (e.kind == CB && e.b == second))) { cap = k; break; } }
        if (cap >= 0 && cap < tt[first]) {
            // retrieval calls must not overlap for the order to be meaningful
            int64_t b2 = sim::ev_get((uint32_t)gots[j].first).b;
            if (b2 > gots[i].first) sim::fail("exceptions", "exception of task %d (captured later) was returned before that of task %d", first, second);
        } }
    // callback delivery: at least one non-null callback installed before the task was submitted and never removed => exactly one call
    if (ncb) { int64_t cb0 = -1; for (uint32_t i = 0; i < n && cb0 < 0; ++i) if (sim::ev_get(i).kind == CB_SET_E) cb0 = i;
        for (int k = 0; k < ntask; ++k) if (plan[k].throws != 5 && tt[k] >= 0 && sb[k] > cb0 && cb0 >= 0 && destroyed && cbs[k] != 1) sim::fail("callback", "failure of task %d was delivered to the callback %d times", k, cbs[k]);
        { int due = 0, late = 0; for (int k = 0; k < ntask; ++k) if (plan[k].throws == 5 && tt[k] >= 0) { if (sb[k] > cb0) due++; else late++; } if (destroyed && (scb < due || scb > due + late)) sim::fail("callback", "%d failures with a shared exception were delivered to the callback %d times", due, scb); }
        // the callback that received it must have been current at some moment after the throw
        for (uint32_t i = 0; i < n; ++i) { auto& e = sim::ev_get(i); if (e.kind != CB || e.b == SHARED) continue; int64_t replaced = -1, setb = -1;
            for (uint32_t q = 0; q < n; ++q) { auto& f = sim::ev_get(q); if (f.kind == CB_SET_B && f.a == e.a) setb = q; if (f.kind == CB_SET_E && setb >= 0 && f.a != e.a && q > (uint32_t)setb && replaced < 0) { // another install completed after ours completed
                    bool after = false; for (uint32_t z = 0; z < q; ++z) { auto& g = sim::ev_get(z); if (g.kind == CB_SET_B && g.a == f.a) { for (uint32_t y = (uint32_t)setb; y < z; ++y) if (sim::ev_get(y).kind == CB_SET_E && sim::ev_get(y).a == e.a) after = true; } } if (after) replaced = q; } }
            if (setb > (int64_t)i) sim::fail("callback", "callback %d invoked before it was installed", (int)e.a);
            if (replaced >= 0 && replaced < tt[(int)e.b]) sim::fail("callback", "failure of task %d went to callback %d which had been replaced before the task threw", (int)e.b, (int)e.a); }
    }
    for (uint32_t i = 0; i < n; ++i) { auto& e = sim::ev_get(i); if (e.kind != COUNT_R && e.kind != HASX_R) continue; // count bounded by throws and retrievals
        int thrown = 0, taken = 0; for (int k = 0; k < ntask; ++k) if (tt[k] >= 0 && tt[k] < (int64_t)i) thrown++; for (auto& g : gots) if (g.first < e.b) taken++;
        if (e.a > thrown - taken) sim::fail("exceptions", "exception count %d exceeds %d thrown minus %d retrieved", (int)e.a, thrown, taken); }
#endif
}

void scenario() {
    prog = new std::vector<Op>[4];
    for (int i = 0; i < MAXTASK; ++i) { names[i][0] = '0' + i / 100; names[i][1] = '0' + i / 10 % 10; names[i][2] = '0' + i % 10; names[i][3] = 0; }
    static std::exception_ptr se; try { throw 5L; } catch (...) { se = std::current_exception(); } shared_ex = &se;
    int workers = 1 + (int)w(sim::chance(sim::W, 1, 8) ? 8 : 4);
    int nsub = (int)w(3);
    bool throws = CHECK == 3 || sim::chance(sim::W, 1, 2);
    bool final_wait = sim::chance(sim::W, 1, 3);
    ncb = (CHECK == 3 || CHECK == 5) && sim::chance(sim::W, 3, 4) ? 1 : 0;
    int cbn = 0;
    for (int p = 0; p <= nsub; ++p) {
        int n = (int)w(CHECK == 1 ? 9 : 12);
        for (int i = 0; i < n && ntask < 130; ++i) {
            uint32_t k = w(12); Op o{O_SUBMIT, 0};
            if (k < 7) { o.kind = O_SUBMIT; o.task = new_task(0, throws); }
            else if (k == 7) o.kind = O_WAIT;
            else if (k == 8) o.kind = CHECK == 4 ? O_QUERY : O_YIELD;
            else if (k == 9) o.kind = CHECK == 4 ? O_QUERY : CHECK == 3 ? (w(2) ? O_GET : O_RETHROW) : CHECK == 2 ? O_WAIT : O_YIELD;
            else if (k == 10) o.kind = CHECK == 3 ? (w(2) ? O_COUNT : O_HASX) : CHECK == 4 ? O_QUERY : O_YIELD;
            else { o.kind = CHECK == 3 ? (w(3) == 0 ? O_CLEAR : O_SETCB) : O_YIELD; if (o.kind == O_SETCB) { if (ncb) o.task = 1 + ++cbn; else o.kind = O_YIELD; } }
            prog[p].push_back(o);
        }
    }
    bool burst = sim::chance(sim::W, 1, CHECK == 5 ? 3 : 24);    // many tasks at once: queues larger than any internal block
    int nburst = burst ? 58 + (int)w(CHECK == 5 ? 10 : 260) : 0;
    std::vector<int> bt; for (int i = 0; i < nburst; ++i) bt.push_back(simple_task(CHECK == 3 || CHECK == 5 ? 1 + (uint8_t)w(3) : sim::chance(sim::W, 1, 8) ? 1 : 0));
    if (CHECK != 5) { int q = (int)w(nsub + 1); size_t at = w((uint32_t)prog[q].size() + 1); for (int i = 0; i < nburst; ++i) prog[q].insert(prog[q].begin() + at++, Op{O_SUBMIT, bt[i]}); }
    bool group = CHECK != 5 && workers >= 2 && sim::chance(sim::W, 1, 3);
    if (group) {
        meet_m = new std::mutex; meet_c = new std::condition_variable; meet_size = 2 + (int)w((uint32_t)std::min(workers, 4) - 1);
        int q = (int)w(nsub + 1); size_t at = w((uint32_t)prog[q].size() + 1); int parent = sim::chance(sim::W, 1, 3) ? simple_task(0) : -1;
        if (parent >= 0) final_wait = true;   // during shutdown an idle worker may already be gone when the parent submits
        if (parent >= 0) prog[q].insert(prog[q].begin() + at, Op{O_SUBMIT, parent});
        for (int i = 0; i < meet_size; ++i) { int id = simple_task(0); plan[id].meet = 1; if (parent >= 0) plan[parent].child[plan[parent].nchild++] = id; else prog[q].insert(prog[q].begin() + at++, Op{O_SUBMIT, id}); }
    }
    sim::ThreadCfg tc; tc.max_steps = 300000;
    int fault = 0; uint32_t fk = 0;
#if CHECK == 5
    fault = (int)sim::draw(sim::F, 5);   // 0 none 1 thread creation 2 alloc in ctor 3 alloc during submissions 4 alloc in workers too
    fk = 1 + sim::draw(sim::F, fault == 1 ? 4 : fault == 2 ? 14 : 30);
#endif
    sim::site("ThreadPool");
    sim::threads_begin(tc);
    bool ctor_failed = false;
    alignas(MML::ThreadPool) static char mem[sizeof(MML::ThreadPool)];
    if (fault == 1) sim::g_fail_thread_create_at = (int)fk;
    if (fault == 2) sim::alloc_fail_at(fk);
    uint64_t mark = sim::alloc_mark();
    if (fault) sim::site("ThreadPool construction under resource failure"); 
    try { P = new (mem) MML::ThreadPool((size_t)workers); }
    catch (const std::system_error&) { ctor_failed = true; if (fault != 1) sim::fail("spurious-exception", "constructor threw system_error without a fault"); }
    catch (const std::bad_alloc&) { ctor_failed = true; if (fault != 2) sim::fail("spurious-exception", "constructor threw bad_alloc without a fault"); }
    bool fired = (fault == 1 && sim::g_fail_thread_create_at == 0 && (int)fk <= workers) ;
    sim::g_fail_thread_create_at = 0; sim::alloc_fail_off();
    if (fired && !ctor_failed) sim::fail("resource", "thread creation %u of %d failed but the constructor reported success", fk, workers);
    if (ctor_failed) {
        sim::nontrivial(); sim::count("ctor_failed"); sim::state(1000 + fault * 100 + fk);
        if (sim::live_threads()) sim::fail("resource", "%d worker threads survive a failed construction", sim::live_threads());
        if (sim::alloc_live_since(mark) > 0) sim::fail("leak", "failed construction leaked %llu heap blocks", (unsigned long long)sim::alloc_live_since(mark));
        sim::site("ThreadPool after failed construction");
        P = new (mem) MML::ThreadPool((size_t)workers);     // resources are back
    }
    sim::site("ThreadPool");
    if (P->thread_count() != (size_t)workers) sim::fail("counter", "thread_count() is %zu for a pool of %d", P->thread_count(), workers);
    if (ncb) set_cb(1);
    if (CHECK == 5) { for (int id : bt) submit(id); if (burst) { P->wait_for_tasks(); if (P->exception_count() != (size_t)nburst) sim::fail("exceptions", "%zu exceptions recorded for %d failures", P->exception_count(), nburst); } }
    if (fault == 3) { sim::alloc_fail_at(fk, 1 + sim::draw(sim::F, 3)); sim::site("ThreadPool::enqueue under memory exhaustion"); }
    if (fault == 4) { sim::alloc_fail_at(fk, 1 + sim::draw(sim::F, 40)); sim::site("ThreadPool use under memory exhaustion"); }
    {
        std::thread th[3];
        uint64_t before = sim::g_threads_created; (void)before;
        int started = 0;
        if (fault >= 3) { // driver threads must not be hit by the fault: no extra submitters
            try { run_prog(0); } catch (const std::bad_alloc&) { if (!ncb) throw; }
        } else {
            for (int i = 1; i <= nsub; ++i) { th[i] = std::thread(run_prog, i); started++; }
            run_prog(0);
            for (int i = 1; i <= started; ++i) th[i].join();
        }
    }
    sim::alloc_fail_off();
    sim::site("ThreadPool");
    if (final_wait || CHECK == 5) {
        uint32_t b = sim::ev(WAIT_BEGIN, 9); P->wait_for_tasks(); sim::ev(WAIT_END, 9, b);
        if (P->has_tasks() || P->pending_tasks() || P->queued_tasks()) sim::fail("counter", "pool not idle after the final barrier: has=%d pending=%zu queued=%zu", (int)P->has_tasks(), P->pending_tasks(), P->queued_tasks());
#if CHECK == 3
        // quiescent: count == failures - retrieved (if nothing was cleared)
        int thrown = 0, taken = 0; bool clr = false; for (uint32_t i = 0; i < sim::ev_count(); ++i) { auto& e = sim::ev_get(i); if (e.kind == T_THROW) thrown++; if (e.kind == GOT && e.a >= 0) taken++; if (e.kind == CLEAR_B) clr = true; }
        if (!clr && (int)P->exception_count() != thrown - taken) sim::fail("exceptions", "exception_count()=%zu after the barrier; %d tasks failed, %d exceptions retrieved", P->exception_count(), thrown, taken);
        if (P->has_exceptions() != (P->exception_count() > 0)) sim::fail("exceptions", "has_exceptions disagrees with exception_count");
        if (w(2)) { P->clear_exceptions(); sim::ev(CLEAR_B); if (P->exception_count() || P->get_exception()) sim::fail("exceptions", "exceptions remain after clear_exceptions"); }
        else while (auto e = P->get_exception()) { uint32_t bb = sim::ev_count(); sim::ev(GOT, id_of(e), bb); }
#endif
    }
    sim::ev(DTOR_B); P->~ThreadPool(); sim::ev(DTOR_E);
    if (sim::live_threads()) sim::fail("shutdown", "%d threads still running after the pool was destroyed", sim::live_threads());
    if (CHECK == 5 && sim::alloc_live_since(mark) > 0 && !throws) sim::fail("leak", "pool leaked %llu heap blocks", (unsigned long long)sim::alloc_live_since(mark));
    sim::threads_end();
    check_history(workers, true);
    int nthrow = 0, nsubm = 0; for (uint32_t i = 0; i < sim::ev_count(); ++i) { if (sim::ev_get(i).kind == T_THROW) nthrow++; if (sim::ev_get(i).kind == SUB_END) nsubm++; }
    sim::count("tasks", nsubm); sim::count("fault:task_exception", nthrow);
    if (nsubm >= 2) sim::nontrivial();
    sim::state(((uint64_t)workers << 32) ^ ((uint64_t)nsub << 24) ^ (nsubm << 8) ^ nthrow ^ ((uint64_t)fault << 40) ^ ((uint64_t)fk << 44));
}
