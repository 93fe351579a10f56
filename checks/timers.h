// C15: histories of Timer and ScopedTimer operations on the simulated clocks, judged against an arithmetic model.
#pragma once
#include "mml/tools/Timer.h"
#include <iostream>
#include <sstream>
namespace timers {
static uint64_t expo(uint32_t n) { uint32_t e = sim::w(n); return e == 0 ? 0 : ((uint64_t)1 << (e * 2)) + sim::w(1000); }
static void pass(bool jumps) {
    sim::advance_ns(expo(24));
    if (jumps && sim::chance(sim::F, 1, 2)) sim::wall_jump(((int64_t)sim::draw(sim::F, 2000001) - 1000000) * (sim::draw(sim::F, 2) ? 1000000ll : 7919ll * 1000000ll));
}
static bool near(double got, uint64_t ns) { double w = ns * 1e-9; return std::fabs(got - w) <= 1e-12 * w + 1e-15; }
struct Cap { std::ostringstream s; std::streambuf* o; Cap() : o(std::cout.rdbuf(s.rdbuf())) {} ~Cap() { std::cout.rdbuf(o); } };
static std::string lit(double v) { std::ostringstream s; s << v; return s.str(); }
static void scenario() {
    bool jumps = sim::w(2); sim::set_read_tick(0); sim::site("Timer");
    if (sim::w(3) == 0) {                                     // scoped timers
        sim::site("ScopedTimer"); int depth = 1 + (int)sim::w(3); sim::nontrivial();
        std::function<void(int)> go = [&](int d) {
            double res = -1; std::string cbname; double cbval = -1; int ncb = 0; std::string name = std::string(1 + sim::w(20), 'a' + (char)d); uint64_t t0; int kind = (int)sim::w(5); uint64_t dt;
            bool silent = sim::w(2), throws = sim::chance(sim::F, 1, 4); std::string out; if (throws) sim::count("fault:callback_throws");
            {
                Cap cap; t0 = sim::now_ns();
                auto body = [&](MML::ScopedTimer& t) {
                    int k = (int)sim::w(4);
                    for (int i = 0; i < k; ++i) { pass(jumps); if (sim::w(2)) { double e = t.elapsed(); if (!near(e, sim::now_ns() - t0)) sim::fail("elapsed", "ScopedTimer::elapsed() = %.12g s, %.12g s passed", e, (sim::now_ns() - t0) * 1e-9); } if (t.name() != name) sim::fail("name", "ScopedTimer::name()"); if (d < depth && sim::w(2)) go(d + 1); }
                };
                bool thrown = false;
                try {
                    switch (kind) {
                        case 0: { MML::ScopedTimer t(name); body(t); if (sim::w(3) == 0) { thrown = true; throw 5; } break; }
                        case 1: case 2: { MML::ScopedTimer t(name, res, silent); body(t); break; }
                        default: { MML::ScopedTimer t(name, [&](const std::string& n, double s) { ++ncb; cbname = n; cbval = s; if (throws) throw std::runtime_error("x"); }, silent); body(t); break; }
                    }
                } catch (int) {}
                (void)thrown; dt = sim::now_ns() - t0; out = cap.s.str();
            }
            if (kind == 1 || kind == 2) { if (!near(res, dt)) sim::fail("scoped_result", "ScopedTimer stored %.12g s, %.12g s passed%s", res, dt * 1e-9, jumps ? " (wall clock jumped)" : ""); }
            if (kind >= 3 && (ncb != 1 || cbname != name || !near(cbval, dt))) sim::fail("scoped_callback", "ScopedTimer callback ran %d times with (%s, %.12g s), %.12g s passed", ncb, cbname.c_str(), cbval, dt * 1e-9);
            bool prints = kind == 0 || !silent;
            std::string want = name + ": " + lit(std::chrono::duration<double>(std::chrono::nanoseconds(dt)).count()) + " seconds\n";
            bool has = out.size() >= want.size() && out.compare(out.size() - want.size(), want.size(), want) == 0;
            if (prints != has) sim::fail("scoped_print", "ScopedTimer printed '%s', expected %s'%s'", out.substr(0, 60).c_str(), prints ? "" : "nothing like ", want.c_str());
            sim::hash(dt); sim::state(7000 + kind * 8 + silent * 2 + throws);
            if (prints) std::cout << want;                     // let the outer capture see what the real program would
        };
        Cap quiet; go(0);
        return;
    }
    MML::Timer t; t.Start(); uint64_t start = sim::now_ns(); std::vector<std::pair<std::string, uint64_t>> m; int n = 2 + (int)sim::w(20); bool any = false;
    auto chk = [&](const char* what, double got, uint64_t want) { if (!near(got, want)) sim::fail("timer_value", "%s = %.12g s, %.12g s passed on the monotonic clock (%zu marks%s)", what, got, want * 1e-9, m.size(), jumps ? ", wall clock jumped" : ""); any = true; };
    auto expect = [&](const char* what, int wanted, std::function<double()> f) {
        int got = 0; try { f(); } catch (const std::out_of_range&) { got = 1; } catch (const std::runtime_error&) { got = 2; } catch (...) { got = 3; }
        if (got != wanted) sim::fail("timer_error", "%s with %zu marks: %s instead of %s", what, m.size(), got == 0 ? "a value" : got == 1 ? "out_of_range" : got == 2 ? "runtime_error" : "another exception", wanted == 1 ? "out_of_range" : "runtime_error");
    };
    for (int i = 0; i < n; ++i) {
        pass(jumps);
        switch (sim::w(10)) {
            case 0: if (sim::w(3)) t.Start(); else t.Reset(); start = sim::now_ns(); m.clear(); break;
            case 1: case 2: case 3: {
                std::string nm(sim::w(40), 'n'); nm += std::to_string(i); bool un = sim::w(3) == 0;
                if (sim::chance(sim::F, 1, 6)) { uint64_t f0 = sim::alloc_stats().failed; sim::alloc_fail_at(1 + sim::draw(sim::F, 3)); bool ok = true; try { if (un) t.MarkTime(); else t.MarkTime(nm); } catch (const std::bad_alloc&) { ok = false; } sim::alloc_fail_off(); if (!ok || sim::alloc_stats().failed != f0) sim::state(77); if (ok) m.push_back({un ? "Unnamed Mark" : nm, sim::now_ns()}); }
                else { if (un) t.MarkTime(); else t.MarkTime(nm); m.push_back({un ? "Unnamed Mark" : nm, sim::now_ns()}); }
                break; }
            case 4: { size_t k = sim::w((uint32_t)m.size() + 2); if (m.empty()) expect("GetIntervalTime", 2, [&] { return t.GetIntervalTime(k); }); else if (k >= m.size()) expect("GetIntervalTime", 1, [&] { return t.GetIntervalTime(k); }); else chk("GetIntervalTime", t.GetIntervalTime(k), m[k].second - (k ? m[k - 1].second : start)); break; }
            case 5: { size_t k = sim::w((uint32_t)m.size() + 2); if (m.empty()) expect("GetMarkTimeFromStart", 2, [&] { return t.GetMarkTimeFromStart(k); }); else if (k >= m.size()) expect("GetMarkTimeFromStart", 1, [&] { return t.GetMarkTimeFromStart(k); }); else chk("GetMarkTimeFromStart", t.GetMarkTimeFromStart(k), m[k].second - start); break; }
            case 6: if (m.empty()) expect("GetTotalTime", 2, [&] { return t.GetTotalTime(); }); else chk("GetTotalTime", t.GetTotalTime(), m.back().second - start); break;
            case 7: {
                std::string out; { Cap c; t.Print(); out = c.s.str(); }
                std::ostringstream e; if (m.empty()) e << "No marked times available.\n"; else { e << "Timer Results:\n"; for (size_t k = 0; k < m.size(); ++k) { std::ostringstream nn; nn << "Mark " << k << " (" << std::setw(25) << m[k].first << "): "; e << nn.str() << lit(std::chrono::duration<double>(std::chrono::nanoseconds(m[k].second - (k ? m[k - 1].second : start))).count()) << " seconds\n"; } e << "Total Time: " << lit(std::chrono::duration<double>(std::chrono::nanoseconds(m.back().second - start)).count()) << " seconds\n"; }
                // names and values in order; exact layout is not judged
                std::istringstream a(out), b(e.str()); std::string x, y; bool same = true; for (;;) { bool ga = (bool)(a >> x), gb = (bool)(b >> y); if (ga != gb || (ga && x != y)) { same = false; break; } if (!ga) break; }
                if (!same) sim::fail("timer_print", "Print() wrote\n%s\nexpected\n%s", out.c_str(), e.str().c_str());
                any = true; break; }
            default: if (t.GetMarkCount() != m.size()) sim::fail("mark_count", "GetMarkCount() = %zu, %zu marks were set since the last start", t.GetMarkCount(), m.size()); break;
        }
        sim::state(7100 + m.size() * 3 + jumps);
    }
    if (any) sim::nontrivial();
    for (size_t k = 0; k < m.size(); ++k) sim::hash(m[k].second);
}
} // namespace timers
