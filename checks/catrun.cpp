// Scenarios over the operation catalogue (checks/cat): C06 C07 C09 C15 C16 C17 C18 C19, selected by -DCHECK.
#include "cat/cat.h"
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <thread>
#include <cxxabi.h>
#ifndef CHECK
#error CHECK
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
#if CHECK < 10
const char* const SIM_CHECK_ID = "C0" STR(CHECK);
#else
const char* const SIM_CHECK_ID = "C" STR(CHECK);
#endif
using sim::w; using sim::W; using sim::F;
namespace cat {
static thread_local Ctx* g_cur;
Ctx*& cur() { return g_cur; }
std::vector<Op>& ops() { static std::vector<Op> v; return v; }
}
using namespace cat;
struct Boom { int k; };
struct BoomStd : std::runtime_error { int k; BoomStd(int q) : std::runtime_error("user callback failed"), k(q) {} };

static std::vector<Op*> table; static const char* only;
static void pick_table(unsigned need, unsigned avoid) {
    for (auto& o : ops()) if ((o.flags & need) == need && !(o.flags & avoid)) table.push_back(&o);
    std::sort(table.begin(), table.end(), [](Op* a, Op* b) { return strcmp(a->name, b->name) < 0; });
    only = getenv("CAT_ONLY");
    if (only) { std::vector<Op*> t; for (auto o : table) if (strstr(o->name, only)) t.push_back(o); if (!t.empty()) table = t; }
}
static Op* pick() { return table[w((uint32_t)table.size())]; }
[[maybe_unused]] static Op* pick_light(uint32_t k = 3) { Op* o = pick(); for (int i = 0; i < 3 && (o->flags & SLOW) && w(k); ++i) o = pick(); return o; }       // expensive operations less often

// outcome of one question
struct Out {
    int how = 0;                 // 0 value, 1 status failure, 2 bad_alloc, 3 Boom, 4 BoomStd, 5 library/std exception, 6 anything else
    uint64_t h = 0; long calls = 0; bool claimed = false, nonfinite = false; long over = 0, lim = 0; int k = 0; char text[200] = {0};
    bool same(const Out& o) const { return how == o.how && h == o.h; }
};
static const char* hown[] = {"value", "failure status", "bad_alloc", "user exception (not derived from std::exception)", "user exception (runtime_error)", "exception", "unknown exception"};
static void settext(Out& o, const char* s) { snprintf(o.text, sizeof o.text, "%s", s); for (char* p = o.text; *p; ++p) if (*p == '\n') *p = ' '; }
template <class F> static void guarded(Out& o, Ctx& c, F f) {
    auto name = [] { const std::type_info* t = abi::__cxa_current_exception_type(); return t ? t->name() : "?"; };
    try { Use u(c); f(); o.how = c.claimed && !c.ok ? 1 : 0; o.h = c.h; }
    catch (const std::bad_alloc&) { o.how = 2; o.h = 2; }
    catch (const Boom& b) { o.how = 3; o.h = 3; o.k = b.k; }
    catch (const BoomStd& b) { o.how = 4; o.h = 4; o.k = b.k; }
    catch (const std::exception& e) { o.how = 5; Ctx t{{0}}; const char* a = name(); const char* b = e.what(); t.bytes(a, strlen(a)); t.bytes(b, strlen(b)); o.h = t.h; settext(o, e.what()); }
    catch (...) { o.how = 6; o.h = 6; }
    o.calls = c.calls; o.claimed = c.claimed; o.nonfinite = c.nonfinite; o.over = c.over; o.lim = c.lim;
    if (o.how < 2 && c.keep) settext(o, c.rep.c_str());
}
static Out ask(Inst& i, uint64_t q, Hook* hk = nullptr, bool keep = false, std::vector<double>* ms = nullptr, int via = 0) {
    Out o; Ctx c{{q * 0x9E3779B97F4A7C15ull + 7}}; c.hook = hk; c.keep = keep; c.via = via; c.notext = CHECK == 16;   // text built through std streams reports a failed allocation in the stream state
    guarded(o, c, [&] { i.run(c); });
    if (ms) *ms = c.times;
    return o;
}
struct Made { std::unique_ptr<Inst> p; Out err; };
static Made build(Op* op, uint64_t seed, Hook* hk = nullptr) {
    Made m; Ctx c{{seed * 0xD1B54A32D192ED03ull + 1}}; c.hook = hk;
    guarded(m.err, c, [&] { m.p.reset(op->make(c)); });
    return m;
}
// one fresh object, one question
static Out fresh(Op* op, uint64_t seed, uint64_t q, Hook* mh = nullptr, Hook* rh = nullptr, bool keep = false) {
    Made m = build(op, seed, mh);
    if (!m.p) return m.err;
    return ask(*m.p, q, rh, keep);
}
static std::string show(Op* op, uint64_t seed, uint64_t q) { sim::alloc_fail_off(); Out o = fresh(op, seed, q, nullptr, nullptr, true); return std::string(hown[o.how]) + " [" + o.text + "]"; }
static uint64_t opid(Op* op) { uint64_t h = 1469598103934665603ull; for (const char* p = op->name; *p; ++p) { h ^= (unsigned char)*p; h *= 1099511628211ull; } return h; }
static void cover(Op* op, uint64_t extra) { sim::state(opid(op) * 31 + extra); }
static void fam(Op* op) { char b[48] = "case:op_family_"; int n = (int)strlen(b); for (const char* p = op->name; *p && *p != '.' && n < 46; ++p) b[n++] = *p; b[n] = 0; sim::count(b); }

// ------------------------------------------------------------------------------------------------ C06, C09: own objects on several threads
#if CHECK == 6 || CHECK == 9
void scenario() {
#if CHECK == 6
    pick_table(0, NOTH);
#else
    pick_table(RN, NOTH);
#endif
    int n = 2 + (int)sim::chance(W, 1, 3);
    Op* op[3]; uint64_t seed[3], q[3]; int rounds = 1 + (int)w(2);
    bool same = sim::chance(W, 2, 3), slow = false;
    for (int i = 0; i < n; ++i) { op[i] = same && i ? op[0] : pick_light(); slow |= op[i]->flags & SLOW; seed[i] = w(64); q[i] = w(64); if (i && same && w(2)) q[i] = q[0]; fam(op[i]); }       // the same question put to another object reaches the same code
    static Out got[3][2], ref[3];
    sim::clock_reset(); sim::entropy_seed(w(1000));
    bool before = sim::chance(W, 1, 3);
    if (before) for (int i = 0; i < n; ++i) { sim::site("%s", op[i]->name); ref[i] = fresh(op[i], seed[i], q[i]); }
    sim::ThreadCfg cfg; cfg.max_steps = 2000000; cfg.mem_preempt = sim::chance(sim::S, 1, 2) && !slow;
    sim::site("%s", op[0]->name);
    sim::threads_begin(cfg);
    {
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i) th.emplace_back([&, i] { for (int r = 0; r < rounds; ++r) { got[i][r] = fresh(op[i], seed[i], q[i]); sim::yield_point("round"); } });
        for (auto& t : th) t.join();
    }
    sim::threads_end();
    sim::entropy_seed(w(1000) + 5000);
    for (int i = 0; i < n; ++i) {
        sim::site("%s", op[i]->name);
        if (!before) ref[i] = fresh(op[i], seed[i], q[i]);
        sim::hash(ref[i].h);
        if (ref[i].how == 0) sim::nontrivial();
        cover(op[i], (uint64_t)ref[i].how + (same ? 8 : 0) + (before ? 16 : 0));
        for (int r = 0; r < rounds; ++r) {
            sim::hash(got[i][r].h);
            if (!got[i][r].same(ref[i])) sim::fail("result_differs", "%s: thread %d got %s %016llx (%s), alone it is %s; object seed %llu question %llu", op[i]->name, i, hown[got[i][r].how], (unsigned long long)got[i][r].h, got[i][r].text, show(op[i], seed[i], q[i]).c_str(), (unsigned long long)seed[i], (unsigned long long)q[i]);
        }
    }
}
#endif

// ------------------------------------------------------------------------------------------------ C07: const use of one shared object
#if CHECK == 7
void scenario() {
    pick_table(SH, NOTH);
    Op* op = pick_light(); uint64_t seed = w(64), q[3][2]; fam(op);
    int n = 2 + (int)sim::chance(W, 1, 3), rounds = 1 + (int)w(2);
    for (int i = 0; i < n; ++i) for (int r = 0; r < rounds; ++r) { q[i][r] = w(64); if (i && w(2)) q[i][r] = q[0][r]; }
    static Out got[3][2], ref[3][2];
    sim::clock_reset(); sim::site("%s", op->name);
    Made m = build(op, seed);
    if (!m.p) return;
    bool before = sim::chance(W, 1, 3);
    if (before) for (int i = 0; i < n; ++i) for (int r = 0; r < rounds; ++r) ref[i][r] = ask(*m.p, q[i][r]);
    sim::ThreadCfg cfg; cfg.max_steps = 2000000; cfg.mem_preempt = sim::chance(sim::S, 1, 2) && !(op->flags & SLOW);
    sim::threads_begin(cfg);
    {
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i) th.emplace_back([&, i] { for (int r = 0; r < rounds; ++r) { got[i][r] = ask(*m.p, q[i][r]); sim::yield_point("round"); } });
        for (auto& t : th) t.join();
    }
    sim::threads_end();
    for (int i = 0; i < n; ++i) for (int r = 0; r < rounds; ++r) {
        if (!before) ref[i][r] = fresh(op, seed, q[i][r]);
        sim::hash(ref[i][r].h); sim::hash(got[i][r].h);
        if (ref[i][r].how == 0) sim::nontrivial();
        cover(op, ref[i][r].how);
        if (!got[i][r].same(ref[i][r])) sim::fail("result_differs", "%s: thread %d got %s %016llx (%s) from a shared object, one thread alone gets %s; object seed %llu question %llu", op->name, i, hown[got[i][r].how], (unsigned long long)got[i][r].h, got[i][r].text, show(op, seed, q[i][r]).c_str(), (unsigned long long)seed, (unsigned long long)q[i][r]);
    }
}
#endif

// ------------------------------------------------------------------------------------------------ C16 allocation failure, C17 throwing callback
#if CHECK == 16 || CHECK == 17
// where among `n` events the fault goes: uniformly, close to either end, or close to the first event of the question itself (after `mid`)
static uint64_t point(uint64_t n, uint64_t mid) {
    uint64_t r = sim::rnd(F), m = r % 5; r /= 5; uint64_t lg = (r >> 8) % (2ull << (r & 255) % (64 - (uint64_t)__builtin_clzll(n | 1))); if (m == 0 || m == 1) return (r >> 8) % n;
    return m == 2 ? lg % n : m == 3 ? n - 1 - lg % n : (mid + lg) % n;
}
struct Thrower : Hook { long at = 0; int kind = 0; long seen = 0; bool fired = false;
    void call(Ctx&) override { if (++seen == at) { fired = true; sim::count(kind ? "fault:callback_throws_runtime_error" : "fault:callback_throws_plain_object"); if (kind) throw BoomStd((int)at); throw Boom{(int)at}; } } };
void scenario() {
#if CHECK == 16
    pick_table(0, 0);
#else
    pick_table(CB, 0);
#endif
    Op* op = pick_light(CHECK == 15 ? 2 : 6); uint64_t seed = w(96), q = w(96); fam(op);
    sim::clock_reset(); sim::entropy_seed(1); sim::site("%s", op->name);
    // warm-up: same objects and question without faults, so that one-time library caches exist
    Out warm = fresh(op, seed, q); (void)warm;
    uint64_t live0 = sim::alloc_stats().live_blocks;
    Out ref; uint64_t n_make, n_run; long calls;
    { uint64_t a0 = sim::alloc_stats().allocs; Made m = build(op, seed); n_make = sim::alloc_stats().allocs - a0; if (!m.p) { ref = m.err; n_run = 0; } else { a0 = sim::alloc_stats().allocs; Thrower t; ref = ask(*m.p, q, &t); n_run = sim::alloc_stats().allocs - a0; calls = t.seen; } (void)calls; }
    if (sim::alloc_stats().live_blocks != live0) sim::violation("leak", op->name, "%s leaves %lld blocks behind without any fault", op->name, (long long)(sim::alloc_stats().live_blocks - live0));
    sim::hash(ref.h);
    if (ref.how >= 2 && ref.how != 5) sim::fail("unexpected_exception", "%s ends with %s without any fault", op->name, hown[ref.how]);
#if CHECK == 16
    uint64_t total = n_make + n_run; if (!total) return;
    int tries = 1 + (int)sim::draw(F, 24);
    for (int t = 0; t < tries; ++t) {
        uint64_t k = 1 + sim::drawv(F, (uint32_t)total, (uint32_t)point(total, n_make)); uint64_t cnt = sim::chance(F, 1, 4) ? 1u << 30 : 1;
        live0 = sim::alloc_stats().live_blocks; uint64_t failed0 = sim::alloc_stats().failed;
        Out bad, again; bool in_make = false;
        {
            sim::alloc_fail_at(k, cnt);
            Made m = build(op, seed);
            if (sim::alloc_stats().failed != failed0) { in_make = true; }
            if (m.p && !in_make) { bad = ask(*m.p, q); } else if (!m.p) bad = m.err; else bad.how = -1;
            sim::alloc_fail_off();
            if (sim::alloc_stats().failed == failed0) { continue; }
            sim::nontrivial(); cover(op, (uint64_t)(bad.how + 2) * 4 + in_make * 2 + (cnt > 1));
            if (bad.how == -1) again = ask(*m.p, q);          // construction absorbed the failure: the object must still answer correctly
            else if (m.p) again = ask(*m.p, q);
            else again = fresh(op, seed, q);
        }
        sim::hash(bad.h + (uint64_t)bad.how);
        if (bad.how == 0 && !bad.same(ref)) sim::fail("wrong_after_failed_allocation", "%s: allocation %llu of %llu fails%s, the operation still returns a normal value different from the real one (expected %s); object seed %llu question %llu", op->name, (unsigned long long)k, (unsigned long long)total, cnt > 1 ? " (and all later ones)" : "", show(op, seed, q).c_str(), (unsigned long long)seed, (unsigned long long)q);
        if (bad.how == 6) sim::fail("unknown_exception", "%s: allocation %llu of %llu fails and an exception of an undocumented kind arrives", op->name, (unsigned long long)k, (unsigned long long)total);
        if (!again.same(ref)) sim::fail("damaged_by_failed_allocation", "%s: after allocation %llu of %llu failed (%s%s), repeating the operation with memory available gives %s %016llx instead of %s; object seed %llu question %llu", op->name, (unsigned long long)k, (unsigned long long)total, in_make ? "in construction, " : "", bad.how < 0 ? "absorbed" : hown[bad.how], hown[again.how], (unsigned long long)again.h, show(op, seed, q).c_str(), (unsigned long long)seed, (unsigned long long)q);
        if (sim::alloc_stats().live_blocks != live0) sim::violation("leak", op->name, "%s: allocation %llu of %llu fails (%s) and %lld blocks are never freed; object seed %llu question %llu", op->name, (unsigned long long)k, (unsigned long long)total, bad.how < 0 ? "absorbed" : hown[bad.how], (long long)(sim::alloc_stats().live_blocks - live0), (unsigned long long)seed, (unsigned long long)q);
    }
#else
    Thrower cnt; Out o; { Made m = build(op, seed, &cnt); long inmake = cnt.seen; (void)inmake; if (m.p) o = ask(*m.p, q, &cnt); }
    long total = cnt.seen; if (!total) return;
    int tries = 1 + (int)sim::draw(F, 12);
    for (int t = 0; t < tries; ++t) {
        Thrower th; th.at = 1 + (long)sim::drawv(F, (uint32_t)std::min<long>(total, 1 << 20), (uint32_t)point((uint64_t)std::min<long>(total, 1 << 20), 0)); th.kind = (int)sim::draw(F, 2);
        live0 = sim::alloc_stats().live_blocks; Out bad, again; 
        {
            Made m = build(op, seed, &th);
            if (m.p && !th.fired) bad = ask(*m.p, q, &th); else if (!m.p) bad = m.err; else bad.how = -1;
            if (!th.fired) continue;
            sim::nontrivial(); cover(op, (uint64_t)(bad.how + 2) * 2 + th.kind);
            if (m.p) again = ask(*m.p, q); else again = fresh(op, seed, q);
        }
        sim::hash(bad.h + (uint64_t)bad.how);
        const char* ty = th.kind ? "std::runtime_error" : "plain object";
        if (bad.how == -1) sim::fail("swallowed", "%s: the user callback throws (%s) at evaluation %ld of %ld during construction and the constructor returns normally; object seed %llu question %llu", op->name, ty, th.at, total, (unsigned long long)seed, (unsigned long long)q);
        if (bad.how == 0) sim::violation("swallowed", op->name, "%s: the user callback throws (%s) at evaluation %ld of %ld and the operation returns %s as if nothing happened; object seed %llu question %llu", op->name, ty, th.at, total, bad.claimed ? "success" : "a normal value", (unsigned long long)seed, (unsigned long long)q);
        if (bad.how == 2 || bad.how == 6 || bad.how == 5 || (bad.how == 3 && (th.kind || bad.k != th.at)) || (bad.how == 4 && (!th.kind || bad.k != th.at))) sim::violation("exception_replaced", op->name, "%s: the user callback throws (%s) at evaluation %ld of %ld and the caller sees %s [%s] instead; object seed %llu question %llu", op->name, ty, th.at, total, hown[bad.how], bad.text, (unsigned long long)seed, (unsigned long long)q);
        if (!again.same(ref)) sim::violation("damaged_by_exception", op->name, "%s: after the user callback threw at evaluation %ld of %ld, asking the same object again gives %s %016llx instead of %s; object seed %llu question %llu", op->name, th.at, total, hown[again.how], (unsigned long long)again.h, show(op, seed, q).c_str(), (unsigned long long)seed, (unsigned long long)q);
        if (sim::alloc_stats().live_blocks != live0) sim::violation("leak", op->name, "%s: the user callback throws at evaluation %ld of %ld and %lld blocks are never freed; object seed %llu question %llu", op->name, th.at, total, (long long)(sim::alloc_stats().live_blocks - live0), (unsigned long long)seed, (unsigned long long)q);
    }
#endif
}
#endif

// ------------------------------------------------------------------------------------------------ C18 hostile values
#if CHECK == 18
struct Hostile : Hook {
    int kind = 0; long from = 0; bool on = true; uint64_t z = 88172645463325252ull; long cap = 0; const char* op = ""; bool inputs = false; long nin = 0;
    double bad(double v) {
        switch (kind) {
            case 0: return std::nan("");
            case 1: return HUGE_VAL;
            case 2: return -HUGE_VAL;
            case 3: return v < 0 ? -1e300 : 1e300;
            case 4: return 0.0;
            case 5: return 3.25;
            case 6: z ^= z << 13; z ^= z >> 7; z ^= z << 17; return ((double)(z >> 11) * 0x1p-53 - 0.5) * 4;
            case 7: return v * 1e160;
            case 8: z ^= z << 13; z ^= z >> 7; z ^= z << 17; return z & 4 ? std::nan("") : v;
            case 9: return v + (z++ & 1 ? 1.0 : -1.0);
            case 10: return v * 1e-310;
            default: z ^= z << 13; z ^= z >> 7; z ^= z << 17; return (z & 12) == 4 ? HUGE_VAL : (z & 12) == 8 ? -HUGE_VAL : v;
        }
    }
    void call(Ctx& c) override { if ((c.calls & 0x3fff) == 0) sim::progress_mark(); long lim = c.cap ? c.cap : cap; if (lim && c.calls > lim) sim::fail("budget_exceeded", "%s: %ld evaluations of the user function, the configured limits allow %ld (callback kind %d from evaluation %ld on)", op, c.calls, lim, kind, from); }
    double value(Ctx& c, double v) override { return on && !inputs && c.calls >= from ? bad(v) : v; }
    double input(Ctx&, double v) override { return on && inputs && ++nin >= from ? bad(v) : v; }
};
static const char* hk[] = {"NaN", "+inf", "-inf", "huge", "zero", "constant", "noise", "overflowing", "sometimes_NaN", "alternating", "denormal", "sometimes_inf"};
void scenario() {
    pick_table(IT, 0);
    Op* op = pick_light(8); uint64_t seed = w(96), q = w(96); fam(op);
    sim::clock_reset(); sim::entropy_seed(1); sim::site("%s", op->name);
    bool cbk = op->flags & CB, in = op->flags & HI;
    int tries = 1 + (int)sim::draw(F, 6);
    for (int t = 0; t < tries; ++t) {
        Hostile h; h.kind = (int)sim::draw(F, 12); h.inputs = in && (!cbk || sim::draw(F, 2)); h.from = 1 + (long)(sim::draw(F, 3) ? sim::draw(F, 8) : sim::draw(F, 400)); h.cap = op->budget; h.op = op->name;
        if (sim::draw(F, 5) == 0) h.from = 1;
        char b[64]; snprintf(b, sizeof b, "fault:%s_%s", h.inputs ? "input" : "callback", hk[h.kind]); sim::count(b);
        Made m = build(op, seed, &h);
        if (!m.p) { sim::hash(m.err.h); cover(op, 900 + h.kind); continue; }
        if (h.inputs) h.on = false;
        Out o = ask(*m.p, q, &h, true);
        sim::nontrivial(); sim::hash(o.h); cover(op, (uint64_t)o.how * 16 + h.kind);
        sim::site("%s", op->name);
        if (o.how == 0 && o.nonfinite) { h.on = true; sim::violation("success_without_a_number", op->name, "%s reports success but the reported value is not finite [%s] (%s %s from %s %ld on); object seed %llu question %llu", op->name, o.text, h.inputs ? "inputs" : "callback returns", hk[h.kind], h.inputs ? "input" : "evaluation", h.from, (unsigned long long)seed, (unsigned long long)q); }
        if (o.over) sim::violation("iterations_exceeded", op->name, "%s reports %ld iterations, the configured limit is %ld (%s %s from %ld on); object seed %llu question %llu", op->name, o.over, o.lim, h.inputs ? "inputs" : "callback", hk[h.kind], h.from, (unsigned long long)seed, (unsigned long long)q);
        if (o.how == 2 || o.how == 6) sim::violation("unexpected_exception", op->name, "%s ends with %s (%s %s from %ld on); object seed %llu question %llu", op->name, hown[o.how], h.inputs ? "inputs" : "callback", hk[h.kind], h.from, (unsigned long long)seed, (unsigned long long)q);
    }
}
#endif

// ------------------------------------------------------------------------------------------------ C19 history independence
#if CHECK == 19
static const char* viat[] = {"the object", "a copy", "a moved-to copy", "an assigned object", "a move-assigned object", "a moved-from object, assigned again"};
struct Mess : Hook { long at = 0; int mode = 0; long seen = 0; bool on = false;
    void call(Ctx&) override { if (!on) return; ++seen; if (seen == at && mode == 1) { sim::count("fault:callback_throws"); throw Boom{1}; } if (mode == 2 && seen > at + 20000) throw Boom{2}; }
    double value(Ctx&, double v) override { if (on && mode == 2 && seen >= at) { if (seen == at) sim::count("fault:callback_nan"); return std::nan(""); } return v; } };
void scenario() {
    pick_table(0, RN);
    Op* op = pick_light(CHECK == 15 ? 2 : 6); uint64_t seed = w(96); fam(op); int n = 1 + (int)w(5);
    sim::clock_reset(); sim::entropy_seed(1); sim::site("%s", op->name);
    static const uint8_t fills[] = {0x7F, 0x00, 0xFF, 0x41, 0xBF, 0x3C};
    sim::alloc_fill(fills[w(6)]); sim::paint_stack(fills[w(6)]);
    uint64_t qs[6]; Out got[6]; int pert[6], via[6];
    Made m = build(op, seed);
    if (!m.p) { Out e2 = fresh(op, seed, 0); if (!m.err.same(e2)) sim::fail("construction_differs", "%s: constructing twice from the same inputs ends differently (%s / %s)", op->name, hown[m.err.how], hown[e2.how]); return; }
    for (int i = 0; i < n; ++i) {
        qs[i] = sim::chance(W, 1, 4) && i ? qs[i - 1] : w(96); pert[i] = (int)sim::draw(F, 5); if (pert[i] == 3 && sim::draw(F, 2)) pert[i] = 0;
        Mess ms; ms.at = 1 + (long)sim::draw(F, 40);
        if (pert[i] == 1) { ms.on = true; ms.mode = 1; (void)ask(*m.p, w(96), &ms); }
        else if (pert[i] == 2) { ms.on = true; ms.mode = 2; (void)ask(*m.p, w(96), &ms); }
        else if (pert[i] == 3) { sim::alloc_fail_at(1 + sim::draw(F, 60), 1); (void)ask(*m.p, w(96)); sim::alloc_fail_off(); }
        else if (pert[i] == 4) (void)ask(*m.p, w(96));
        via[i] = w(2) ? (int)w(6) : 0;
        got[i] = ask(*m.p, qs[i], nullptr, false, nullptr, via[i]);
        sim::hash(got[i].h);
    }
    for (int i = 0; i < n; ++i) {
        sim::alloc_fill(fills[w(6)]); sim::paint_stack(fills[w(6)]);
        Out ref = fresh(op, seed, qs[i]);
        if (ref.how == 0) sim::nontrivial();
        cover(op, (uint64_t)ref.how * 40 + pert[i] * 6 + via[i]);
        if (!got[i].same(ref)) {
            Out k = fresh(op, seed, qs[i], nullptr, nullptr, true); Made m2 = build(op, seed); 
            sim::violation("history_dependent", op->name, "%s: question %d of %d (after %s) %s gets %s %016llx %s, a fresh object gets %s %016llx %s; object seed %llu question %llu", op->name, i + 1, n, pert[i] == 1 ? "a throwing callback" : pert[i] == 2 ? "NaN from the callback" : pert[i] == 3 ? "a failed allocation" : pert[i] == 4 ? "another question" : "nothing else", viat[via[i]], hown[got[i].how], (unsigned long long)got[i].h, got[i].text, hown[ref.how], (unsigned long long)ref.h, k.text, (unsigned long long)seed, (unsigned long long)qs[i]);
        }
    }
}
#endif

// ------------------------------------------------------------------------------------------------ C15 elapsed times
#if CHECK == 15
#include "timers.h"
struct Slow : Hook { uint64_t spent = 0; uint64_t unit = 1; int mode = 0; Rng r{1};
    void call(Ctx&) override { uint64_t d = (r.next() % 7 == 0 ? r.next() % 5 : 1) * unit; sim::advance_ns(d); spent += d; if (mode && r.next() % 3 == 0) { int64_t j = (int64_t)(r.next() % 4000000000000ull) - 2000000000000ll; sim::wall_jump(j); } }
    double value(Ctx&, double v) override { return v; } };
static void algorithms() {
    pick_table(TM, 0);
    Op* op = pick_light(CHECK == 15 ? 2 : 6); uint64_t seed = w(96), q = w(96); fam(op); sim::site("%s", op->name);
    Made m = build(op, seed); if (!m.p) return;
    std::vector<double> ms;
    Slow s; s.unit = 1 + sim::draw(F, 5000000); if (sim::chance(F, 1, 4)) s.unit *= 60000;   /* minutes per call: long computations */ s.mode = (int)sim::draw(F, 2); s.r.s = sim::draw(F, 1000); 
    uint64_t tick = sim::draw(F, 3) == 0 ? 0 : sim::draw(F, 1000000); if (sim::chance(F, 1, 4)) tick *= 10000000; bool cbk = op->flags & CB;
    sim::set_read_tick(cbk ? 0 : tick);
    if (s.mode) sim::wall_jump((int64_t)sim::draw(F, 2000000000) - 1000000000);
    uint64_t m0 = sim::g_clock_reads_mono, w0 = sim::g_clock_reads_wall;
    Out o = ask(*m.p, q, &s, false, &ms);
    uint64_t reads = sim::g_clock_reads_mono - m0 + sim::g_clock_reads_wall - w0;
    sim::set_read_tick(40);
    sim::hash(o.h); cover(op, (uint64_t)o.how + 8 * (uint64_t)s.mode);
    sim::count("case:algorithm_elapsed", ms.size());
    if (ms.empty()) return; sim::nontrivial();
    double total = 0; for (double t : ms) { total += t; if (!(t >= 0)) sim::fail("negative_elapsed", "%s reports %g ms", op->name, t); }
    double want = s.spent * 1e-6;
    if (cbk) { if (ms.size() == 1 && std::fabs(total - want) > 1e-9 * want + 1.001e-3) sim::violation("elapsed_time", op->name, "%s reports %.9g ms, its callbacks alone took %.9g ms of simulated time and nothing else takes any%s; object seed %llu question %llu", op->name, total, want, s.mode ? " (the wall clock jumped meanwhile)" : "", (unsigned long long)seed, (unsigned long long)q); }
    else if (tick && total > reads * tick * 1e-6 * (1 + 1e-12) + 1e-9) sim::violation("elapsed_time", op->name, "%s reports %.9g ms but only %.9g ms passed (every clock read takes %llu ns)", op->name, total, reads * tick * 1e-6, (unsigned long long)tick);
    else if (tick > 1000 && total <= 0 && reads > 1 && ms.size() == 1) sim::violation("elapsed_time", op->name, "%s reports 0 ms although the clock advanced", op->name);
}
void scenario() { sim::clock_reset(); sim::entropy_seed(1); if (w(3) == 0) algorithms(); else timers::scenario(); }
#endif
