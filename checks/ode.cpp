// C21: trajectories, event logs and interrupted integrations against analytic reference trajectories.
#include "../sim/sim.h"
#include "mml/base/ODESystem.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/base/DAESystem.h"
#include "mml/algorithms/ODESolvers.h"
#include "mml/algorithms/ODESolvers/ODESolverEventDetection.h"
#include "mml/algorithms/DAESolvers.h"
#include <memory>
#include <cstring>
#include <functional>
const char* const SIM_CHECK_ID = "C21";
using namespace MML;
using sim::w;
static double ru(double a, double b) { return sim::real(a, b); }
static uint64_t bits(double v) { uint64_t b; memcpy(&b, &v, 8); return b; }
static std::string g_case;                                     // names the integrator, for reports
#define BAD(kind, ...) sim::violation(kind, g_case.c_str(), __VA_ARGS__)

// ---------------------------------------------------------------- user callbacks: they may fail
struct Boom {};
static uint64_t g_calls, g_boom_at; static int g_boom_kind;    // 1 exception, 2 NaN once, 3 NaN from then on, 4 infinity once
static double g_bad;                                           // what the current evaluation adds
static void user_call() {
    g_bad = 0; ++g_calls;
    if (!g_boom_at || g_calls < g_boom_at) return;
    if (g_calls > g_boom_at && g_boom_kind != 3) return;
    if (g_calls == g_boom_at) sim::count(g_boom_kind == 1 ? "fault:callback-throws" : g_boom_kind == 4 ? "fault:callback-infinity" : "fault:callback-nan");
    if (g_boom_kind == 1) throw Boom{};
    g_bad = g_boom_kind == 4 ? INFINITY : NAN;
}

// ---------------------------------------------------------------- the reference motion
// x0 uniform motion; (x1,x2) rotation about (c,c); x3 decay towards d; x4 uniform motion parallel to x0
struct Motion {
    double v, om, c, k, d;
    void f(const double* x, double* q) const { q[0] = v; q[1] = -om * (x[2] - c); q[2] = om * (x[1] - c); q[3] = -k * (x[3] - d); q[4] = v; }
    void at(const double* x, double s, double* r) const { double co = std::cos(om * s), si = std::sin(om * s); r[0] = x[0] + v * s; r[1] = c + (x[1] - c) * co - (x[2] - c) * si; r[2] = c + (x[1] - c) * si + (x[2] - c) * co; r[3] = d + (x[3] - d) * std::exp(-k * s); r[4] = x[4] + v * s; }
};
static const int D = 5;
enum GK { G_POS, G_SIN, G_ROT, G_TIME, G_DEC, G_POS4, NGK };
struct Event { int kind; double a, w; EventDirection dir; EventAction act; int rcomp; double rdelta; bool rset; };
struct Call { int idx; double t; double x[D]; };
struct Sys : IODESystemWithEvents {
    Motion m; std::vector<Event> ev; mutable std::vector<Call> calls;
    int getDim() const override { return D; }
    void derivs(const Real, const Vector<Real>& x, Vector<Real>& q) const override { user_call(); double xx[D], qq[D]; for (int i = 0; i < D; ++i) xx[i] = x[i]; m.f(xx, qq); for (int i = 0; i < D; ++i) q[i] = qq[i] + g_bad; }
    int getNumEvents() const override { return (int)ev.size(); }
    double g(int i, double t, const double* x) const { const Event& e = ev[i]; switch (e.kind) { case G_POS: return x[0] - e.a; case G_SIN: return std::sin(e.w * t + e.a); case G_ROT: return x[1] - e.a; case G_TIME: return t - e.a; case G_DEC: return x[3] - e.a; default: return x[4] - e.a; } }
    Real eventFunction(int i, Real t, const Vector<Real>& x) const override { double xx[D]; for (int k = 0; k < D; ++k) xx[k] = x[k]; return g(i, t, xx); }
    EventDirection getEventDirection(int i) const override { return ev[i].dir; }
    EventAction getEventAction(int i) const override { return ev[i].act; }
    void reset(int i, double* x) const { const Event& e = ev[i]; if (e.rcomp >= 0) { if (e.rset) x[e.rcomp] = e.rdelta; else x[e.rcomp] += e.rdelta; } }
    void handleEvent(int i, Real t, Vector<Real>& x) const override { user_call(); if (calls.size() > 400) { sim::count("skip:restarts-without-end"); sim::finish(); } Call c; c.idx = i; c.t = t; for (int k = 0; k < D; ++k) c.x[k] = x[k]; calls.push_back(c); double xx[D]; for (int k = 0; k < D; ++k) xx[k] = x[k]; reset(i, xx); for (int k = 0; k < D; ++k) x[k] = xx[k]; }
};
static Motion motion(bool away) { Motion m; m.v = ru(-2, 2); m.om = ru(.2, 4); m.c = away || w(2) ? 5 : 0; m.k = ru(0, 3); m.d = ru(1, 2); if (w(8) == 0) m.v = 0; return m; }
static void start(double* x) { x[0] = ru(3, 8); x[1] = 5 + ru(-2, 2); x[2] = 5 + ru(-2, 2); x[3] = ru(2.5, 4); x[4] = w(2) ? x[0] : ru(3, 8); }
static Vector<Real> vec(const double* x) { Vector<Real> v(D); for (int i = 0; i < D; ++i) v[i] = x[i]; return v; }
static double interval(double T) { switch (w(5)) { case 0: return T / (1 + w(12)); case 1: return T * 2; case 2: return .1; case 3: return .25; default: return ru(.02, .5); } }
// tolerated deviation from the reference: error control per step plus the dense output of the stepper
static double tolerance(double eps, double hmax, double om, int dense) { double e = 1e-9 + 2000 * eps; if (dense == 4) e += 20 * std::pow(om * hmax, 4) / 384; return e; }

static void eat(const ODESystemSolution& s) { sim::hash(s.size()); for (int k = 0; k < s.size(); ++k) { sim::hash(bits(s.getTValue(k))); for (int i = 0; i < s.getSysDim(); ++i) sim::hash(bits(s.getXValue(k, i))); } }
static bool same(const ODESystemSolution& a, const ODESystemSolution& b) {
    if (a.size() != b.size() || a.getSysDim() != b.getSysDim() || a.getNumStepsOK() != b.getNumStepsOK() || a.getNumStepsBad() != b.getNumStepsBad()) return false;
    for (int k = 0; k < a.size(); ++k) { if (bits(a.getTValue(k)) != bits(b.getTValue(k))) return false; for (int i = 0; i < a.getSysDim(); ++i) if (bits(a.getXValue(k, i)) != bits(b.getXValue(k, i))) return false; }
    return true;
}
// requested times: t0, t0 + k*interval, ..., tEnd
static void rows_regular(const ODESystemSolution& s, double t0, double tEnd, double iv, double stop) {
    bool full = stop >= tEnd; int n = s.size();
    if (n < 1) { BAD("rows", "no rows"); return; }
    if (bits(s.getTValue(0)) != bits(t0)) BAD("rows", "first row at %.17g instead of %.17g", s.getTValue(0), t0);
    for (int k = 1; k < n; ++k) {
        double t = s.getTValue(k), want = t0 + k * iv; bool last = k == n - 1;
        if (!(t > s.getTValue(k - 1))) BAD("rows", "row %d at %.17g does not follow %.17g", k, t, s.getTValue(k - 1));
        if (last && full) { if (bits(t) != bits(tEnd)) BAD("rows", "last row at %.17g instead of the final time %.17g", t, tEnd); if (t > want + 1e-6 * iv) BAD("rows", "gap before the final row: row %d at %.17g", k, t); }
        else if (std::fabs(t - want) > 1e-9 * (1 + std::fabs(want))) BAD("rows", "row %d at %.17g instead of %.17g", k, t, want);
        if (t > stop + 1e-9) BAD("rows", "row %d at %.17g lies after the stop at %.17g", k, t, stop);
    }
    if (full) { if (n == 1 && tEnd > t0) BAD("rows", "only the start row"); if (n >= 2 && s.getTValue(n - 2) >= tEnd) BAD("rows", "rows beyond the end"); }
    else if (t0 + n * iv < stop - 1e-6) BAD("rows", "row at %.17g before the stop at %.17g is missing", t0 + n * iv, stop);
}

// ---------------------------------------------------------------- interruption: the integrator object is used again afterwards
static void plan_boom(uint64_t calls) { g_calls = 0; g_boom_kind = 1 + w(4); g_boom_at = 1 + sim::draw(sim::F, (uint32_t)std::min<uint64_t>(calls ? calls : 1, 4000)); }
template <class F> static int interrupted(uint64_t calls, F f) {      // 0 completed, 1 user exception, 2 library exception, 3 out of memory
    int r = 0;
    if (w(5) == 0) { g_boom_at = 0; sim::alloc_fail_at(1 + sim::draw(sim::F, 2000)); uint64_t before = sim::alloc_stats().failed; try { f(); } catch (const std::bad_alloc&) { r = 3; } catch (...) { r = 2; } sim::alloc_fail_off(); if (sim::alloc_stats().failed > before) sim::count("fault:allocation"); sim::count(r == 3 ? "interrupt:bad-alloc" : "interrupt:none"); return r; }
    plan_boom(calls);
    try { f(); } catch (const Boom&) { r = 1; } catch (const std::bad_alloc&) { r = 3; } catch (...) { r = 2; }
    g_boom_at = 0; sim::count(r == 1 ? "interrupt:exception" : r == 2 ? "interrupt:library-error" : "interrupt:survived");
    return r;
}

// ---------------------------------------------------------------- events
struct Cross { double t; int idx; int sgn; };
static void crossings(const Sys& s, int i, double ta, const double* xa, double tb, std::vector<Cross>& out) {
    const int N = 3000; double r[D]; auto G = [&](double t) { s.m.at(xa, t - ta, r); return s.g(i, t, r); };
    double t1 = ta, g1 = G(ta);
    for (int k = 1; k <= N; ++k) { double t2 = ta + (tb - ta) * k / N, g2 = G(t2);
        if ((g1 < 0 && g2 >= 0) || (g1 > 0 && g2 <= 0)) { double a = t1, b = t2; for (int q = 0; q < 60; ++q) { double m = (a + b) / 2, gm = G(m); if ((gm > 0) == (g1 > 0) && gm != 0) a = m; else b = m; } out.push_back({b, i, g1 < 0 ? 1 : -1}); }
        t1 = t2; g1 = g2; }
}
template <class Integ> static void events(const char* name, int dense) {
    g_case = std::string("events/") + name;
    auto s = std::make_shared<Sys>(); s->m = motion(dense != 1 && std::string(name) == "BS");
    double x0[D]; start(x0); double t0 = w(4) ? 0 : ru(-5, 5), T = ru(.5, 5), tEnd = t0 + T, iv = interval(T), eps = std::pow(10., -sim::wi(5, 10)), h0 = w(3) ? 0 : w(3) ? ru(.01, 1) : std::pow(10., ru(-6, -2));
    int ne = 1 + w(4); double tau = t0 + T * (1 + w(15)) / 17;
    for (int i = 0; i < ne; ++i) {
        Event e; e.kind = w(NGK); e.dir = (EventDirection)w(3); e.act = (EventAction)(w(5) == 0 ? 1 : w(2) * 2); e.w = ru(1, 6); e.rcomp = (int)w(D + 1) - 1; e.rset = w(3) == 0; e.rdelta = e.rset ? ru(3, 7) : ru(-1, 1);
        switch (e.kind) { case G_POS: case G_POS4: e.a = x0[0] + s->m.v * (tau - t0); if (w(2)) e.a = x0[0] + s->m.v * ru(0, 1) * T; if (w(10) == 0) e.a = x0[0]; break;   // some events share the instant tau
            case G_SIN: e.a = ru(0, 3); break; case G_ROT: e.a = 5 + ru(-1.5, 1.5); break; case G_TIME: e.a = w(2) ? tau : w(3) ? t0 + ru(0, 1.1) * T : t0 + (1 + w(5)) * iv; break; default: e.a = ru(1.2, 3.5); }
        s->ev.push_back(e);
    }
    sim::trace("%s t0=%g T=%g iv=%g eps=%g h0=%g v=%g om=%g c=%g k=%g d=%g", g_case.c_str(), t0, T, iv, eps, h0, s->m.v, s->m.om, s->m.c, s->m.k, s->m.d);
    for (auto& e : s->ev) sim::trace("event kind %d a=%.17g w=%g dir %d act %d reset x[%d] %s %g", e.kind, e.a, e.w, (int)e.dir, (int)e.act, e.rcomp, e.rset ? "=" : "+=", e.rdelta);
    Integ it(*s); auto run = [&](Integ& q) { s->calls.clear(); return q.integrateWithEvents(*s, vec(x0), t0, tEnd, iv, eps, 1e-12, h0); };
    g_boom_at = 0; g_calls = 0; EventResult r = run(it); uint64_t calls = g_calls; double hmax = it.getStatistics().maxStepSize; auto log = s->calls;
    eat(r.solution); for (auto& e : r.events) { sim::hash(e.eventIndex); sim::hash(bits(e.time)); sim::trace("reported event %d at %.15g g=%g dir %d", e.eventIndex, e.time, e.eventValue, (int)e.direction); }
    double tol = tolerance(eps, hmax, std::max(s->m.om, s->m.k), dense);
    // log
    double prev = t0; size_t li = 0; int stops = 0, restarts = 0;
    for (size_t k = 0; k < r.events.size(); ++k) {
        auto& e = r.events[k];
        if (e.eventIndex < 0 || e.eventIndex >= ne) { BAD("event-index", "event %zu has index %d", k, e.eventIndex); return; }
        if (!(e.time >= prev)) BAD("event-order", "event %zu at %.17g after one at %.17g", k, e.time, prev);
        if (!(e.time >= t0 && e.time <= tEnd)) BAD("event-time", "event %zu at %.17g outside [%.17g, %.17g]", k, e.time, t0, tEnd);
        double x[D]; for (int i = 0; i < D; ++i) x[i] = e.state[i];
        double g = s->g(e.eventIndex, e.time, x); if (!(std::fabs(g) <= 1e-9)) BAD("event-root", "event %zu (function %d) reported at %.17g where it is %g", k, e.eventIndex, e.time, g);
        if (bits(g) != bits(e.eventValue) && !(std::fabs(g - e.eventValue) < 1e-12)) BAD("event-root", "event %zu reports value %g, the function is %g there", k, e.eventValue, g);
        if (e.direction == EventDirection::Both) BAD("event-direction", "event %zu has no direction", k);
        EventDirection want = s->ev[e.eventIndex].dir; if (want != EventDirection::Both && e.direction != want) BAD("event-direction", "event %zu (function %d) reported in direction %d, asked for %d", k, e.eventIndex, (int)e.direction, (int)want);
        prev = e.time;
        if (stops) BAD("event-after-stop", "event %zu at %.17g follows the stopping event", k, e.time);
        if (s->ev[e.eventIndex].act == EventAction::Stop) ++stops;
        if (s->ev[e.eventIndex].act == EventAction::Restart) {
            ++restarts;
            if (li >= log.size() || log[li].idx != e.eventIndex || bits(log[li].t) != bits(e.time) || memcmp(log[li].x, x, sizeof x)) { BAD("handler", "the state change of event %zu (function %d, t=%.17g) was not applied exactly once: handler call %zu of %zu%s", k, e.eventIndex, e.time, li, log.size(), li < log.size() ? " is another one" : " is missing"); return; }
            ++li;
        }
    }
    if (li != log.size()) BAD("handler", "%zu state changes for %zu restarting events (next: function %d at %.17g)", log.size(), li, log[li].idx, log[li].t);
    if (r.terminatedByEvent != (stops > 0)) BAD("stop", "terminatedByEvent is %d with %d stopping events", r.terminatedByEvent, stops);
    if (stops) { auto& e = r.events.back(); if (bits(r.finalTime) != bits(e.time)) BAD("stop", "final time %.17g is not the stopping event's %.17g", r.finalTime, e.time); for (int i = 0; i < D; ++i) if (bits(r.finalState[i]) != bits(e.state[i])) BAD("stop", "final state is not the stopping event's"); }
    else { if (bits(r.finalTime) != bits(tEnd)) BAD("final-time", "integration ended at %.17g instead of %.17g", r.finalTime, tEnd); int n = r.solution.size() - 1; for (int i = 0; i < D; ++i) if (n >= 0 && bits(r.finalState[i]) != bits(r.solution.getXValue(n, i))) BAD("final-state", "final state differs from the last row"); }
    rows_regular(r.solution, t0, tEnd, iv, r.finalTime >= tEnd && !stops ? tEnd : r.finalTime);
    for (int i = 0; i < D; ++i) if (r.solution.size() && bits(r.solution.getXValue(0, i)) != bits(x0[i])) BAD("rows", "first row is not the start state");
    // trajectory and completeness, piece by piece between restarts
    double ta = t0, xa[D]; memcpy(xa, x0, sizeof xa); int row = 0; double drift = tol; size_t k = 0, seg0 = 0; double endT = r.finalTime;
    for (;;) {
        size_t q = k; while (q < r.events.size() && s->ev[r.events[q].eventIndex].act != EventAction::Restart) ++q;
        double tb = q < r.events.size() ? r.events[q].time : endT;
        double ref[D];
        for (; row < r.solution.size() && r.solution.getTValue(row) <= tb; ++row) { double t = r.solution.getTValue(row); if (t < ta - 1e-9) continue; s->m.at(xa, t - ta, ref); for (int i = 0; i < D; ++i) if (!(std::fabs(r.solution.getXValue(row, i) - ref[i]) <= tol * (1 + std::fabs(ref[i])))) { if (tb - t > 1e-9 || q >= r.events.size()) BAD("trajectory", "row %d (t=%.9g) component %d is %.12g, the motion from (%.9g) gives %.12g (allowed %g)", row, t, i, r.solution.getXValue(row, i), ta, ref[i], tol); } }
        for (size_t z = k; z < r.events.size() && z <= q; ++z) { auto& e = r.events[z]; s->m.at(xa, e.time - ta, ref); for (int i = 0; i < D; ++i) if (!(std::fabs(e.state[i] - ref[i]) <= tol * (1 + std::fabs(ref[i])))) BAD("trajectory", "event %zu (t=%.9g) component %d is %.12g, the motion gives %.12g", z, e.time, i, e.state[i], ref[i]);
            double g1, g2, dt = 1e-6; s->m.at(xa, e.time - ta - dt, ref); g1 = s->g(e.eventIndex, e.time - dt, ref); s->m.at(xa, e.time - ta + dt, ref); g2 = s->g(e.eventIndex, e.time + dt, ref); double slope = (g2 - g1) / 2 / dt; if (std::fabs(slope) > .1 && e.time - ta > 1e-5 && e.direction != (slope > 0 ? EventDirection::Increasing : EventDirection::Decreasing)) BAD("event-direction", "event %zu (function %d, t=%.9g) reported in direction %d, the function's slope is %g", z, e.eventIndex, e.time, (int)e.direction, slope); }
        // every isolated crossing of this piece must be in the log, and every logged event must be a crossing
        std::vector<Cross> cs; double look = tb + hmax * 1.01 + 1e-6;
        for (int i = 0; i < ne; ++i) crossings(*s, i, ta, xa, look, cs);
        for (auto& c : cs) {
            if (c.t >= tb - 1e-5 || c.t <= ta + 2e-3 * hmax + 1e-5) continue;
            EventDirection want = s->ev[c.idx].dir; if (want != EventDirection::Both && (want == EventDirection::Increasing) != (c.sgn > 0)) continue;
            double rr[D]; double g1, g2; s->m.at(xa, c.t - ta - 1e-6, rr); g1 = s->g(c.idx, c.t - 1e-6, rr); s->m.at(xa, c.t - ta + 1e-6, rr); g2 = s->g(c.idx, c.t + 1e-6, rr); double slope = std::fabs(g2 - g1) / 2e-6; if (slope < .05) continue;
            double dt = 1e-8 + 10 * tol / slope; if (dt > 5e-3) continue;
            bool alone = true; for (auto& o : cs) if (&o != &c && o.idx == c.idx && std::fabs(o.t - c.t) <= hmax * 1.01) alone = false;
            if (!alone || c.t + dt >= tb || c.t - dt <= ta + 2e-3 * hmax) continue;
            bool found = false; for (size_t z = k; z < r.events.size(); ++z) if (r.events[z].eventIndex == c.idx && std::fabs(r.events[z].time - c.t) <= dt) found = true;
            if (!found) BAD("event-missed", "function %d crosses zero at %.9g in direction %d (slope %.3g, steps up to %.3g) but no event was reported", c.idx, c.t, c.sgn, slope, hmax);
        }
        if (q >= r.events.size()) break;
        // events of the same instant follow with the changed state
        double xe[D]; for (int i = 0; i < D; ++i) xe[i] = r.events[q].state[i]; s->reset(r.events[q].eventIndex, xe); ta = tb; memcpy(xa, xe, sizeof xa); k = q + 1; ++seg0;
        // simultaneous crossings: events whose function does not see the change must be reported at this instant, too
        double pre[D], t = r.events[q].time; for (int i = 0; i < D; ++i) pre[i] = r.events[q].state[i];
        for (int i = 0; i < ne; ++i) { if (i == r.events[q].eventIndex || s->ev[i].dir != EventDirection::Both) continue; double g1 = s->g(i, t, pre), g2 = s->g(i, t, xe); if (std::fabs(g1) > 1e-13 || std::fabs(g2) > 1e-13) continue;
            double lim = 1e-7; s->m.at(xe, lim, ref); double after = s->g(i, t + lim, ref); double tp = t - lim; s->m.at(pre, -lim, ref); double before = s->g(i, tp, ref); if (before * after >= 0 || std::fabs(before) < 1e-9 || t - t0 < 1e-3) continue;
            bool seen = false; for (auto& e : r.events) if (e.eventIndex == i && std::fabs(e.time - t) < 1e-7) seen = true; if (r.terminatedByEvent && r.finalTime - t < 1e-7) seen = true; if (tEnd - t < 1e-5) seen = true;
            for (auto& e : r.events) if (s->ev[e.eventIndex].act == EventAction::Restart && std::fabs(e.time - t) < 1e-7) { double y[D]; for (int z = 0; z < D; ++z) y[z] = e.state[z]; s->reset(e.eventIndex, y); if (std::fabs(s->g(i, t, y)) > 1e-13) seen = true; }   // another state change of this instant moved it away
            // a restart just before may have started on this surface
            for (size_t z = 0; z < q; ++z) if (s->ev[r.events[z].eventIndex].act == EventAction::Restart && t - r.events[z].time < 1e-3) seen = true;
            if (!seen) BAD("event-missed", "function %d crosses zero at the instant %.15g of the restart by function %d but was not reported", i, t, r.events[q].eventIndex); sim::count("simultaneous"); }
    }
    (void)drift;
    for (size_t a = 0; a + 1 < r.events.size(); ++a) for (size_t b = a + 1; b < r.events.size() && r.events[b].time - r.events[a].time < 1e-9; ++b) if (r.events[a].eventIndex == r.events[b].eventIndex) {
        // the same crossing again? only a state change that moves the function back may make it cross twice
        int i = r.events[a].eventIndex; double g = 0; double xe[D]; bool moved = false; for (size_t z = a; z < b; ++z) if (s->ev[r.events[z].eventIndex].act == EventAction::Restart) { for (int q = 0; q < D; ++q) xe[q] = r.events[z].state[q]; s->reset(r.events[z].eventIndex, xe); g = s->g(i, r.events[z].time, xe); if (std::fabs(g) > 1e-11) moved = true; }
        if (!moved) BAD("event-twice", "function %d: the crossing at %.15g was reported twice (again at %.15g)", i, r.events[a].time, r.events[b].time);
    }
    // interrupted object
    if (w(2)) {
        int why = interrupted(calls, [&] { EventResult z = run(it); (void)z; });
        Integ fresh(*s); EventResult a = run(it), b = run(fresh); bool eq = same(a.solution, b.solution) && a.events.size() == b.events.size() && bits(a.finalTime) == bits(b.finalTime) && a.terminatedByEvent == b.terminatedByEvent;
        for (size_t z = 0; eq && z < a.events.size(); ++z) eq = a.events[z].eventIndex == b.events[z].eventIndex && bits(a.events[z].time) == bits(b.events[z].time);
        if (!eq) BAD("reuse", "an integrator used again after an interrupted call (%d) returns something else than a fresh one", why);
        if (!same(b.solution, r.solution)) BAD("repeat", "the same integration gives two results");
    }
    sim::nontrivial(); sim::count("events", r.events.size()); sim::count("restarts", restarts); if (stops) sim::count("stopped");
    sim::state(((uint64_t)name[0] << 32) ^ ((uint64_t)name[1] << 40) ^ (std::min<size_t>(r.events.size(), 15) << 8) ^ (std::min(restarts, 7) << 4) ^ (stops << 12) ^ ne ^ (std::min(r.solution.size(), 63) << 16) ^ ((h0 > 0) << 24));
}

// ---------------------------------------------------------------- adaptive integration
template <class Integ> static void adaptive(const char* name, int dense) {
    g_case = std::string("adaptive/") + name;
    auto s = std::make_shared<Sys>(); s->m = motion(dense != 1 && name[0] == 'B');
    double x0[D]; start(x0); double t0 = w(4) ? 0 : ru(-5, 5), T = w(5) ? ru(.2, 6) : std::pow(10., ru(-5, -.5)), tEnd = t0 + T, iv = interval(T), eps = std::pow(10., -sim::wi(4, 10)), h0 = w(3) ? 0 : w(3) ? ru(.01, 3) : std::pow(10., ru(-6, -2));
    bool cfg = w(3) == 0, at = !cfg && w(2); Vector<Real> times; if (at) { std::vector<double> ts{t0}; double t = t0; while (ts.size() < 20 && t < tEnd) { t += w(6) ? w(3) ? ru(.01, .8) : std::pow(10., ru(-6, -1)) : 0; ts.push_back(t); } if (ts.back() == t0) ts.push_back(t0 + .5); tEnd = ts.back(); times = Vector<Real>(ts); }
    ODEIntegratorConfig c; c.tolerance = eps; c.initial_step_size = h0; c.output_interval = w(2) ? iv : 0; c.max_steps = w(3) ? 100000 : 1 + (int)w(12); double civ = c.output_interval > 0 ? c.output_interval : (tEnd - t0) / 100.0;
    sim::trace("%s %s t0=%g tEnd=%.17g iv=%g eps=%g h0=%g max_steps=%d v=%g om=%g c=%g k=%g d=%g", g_case.c_str(), cfg ? "config" : at ? "at" : "plain", t0, tEnd, cfg ? civ : iv, eps, h0, c.max_steps, s->m.v, s->m.om, s->m.c, s->m.k, s->m.d);
    Integ it(*s); auto run = [&](Integ& q) { return cfg ? q.integrate(vec(x0), t0, tEnd, c) : at ? q.integrateAt(vec(x0), times, eps, h0) : q.integrate(vec(x0), t0, tEnd, iv, eps, h0); };
    g_boom_at = 0; g_calls = 0; ODESystemSolution r = run(it); uint64_t calls = g_calls; auto st = it.getStatistics(); eat(r);
    double tol = tolerance(eps, st.maxStepSize, std::max(s->m.om, s->m.k), dense);
    bool cut = st.status != AlgorithmStatus::Success;
    if (cut) { if (!cfg || st.status != AlgorithmStatus::MaxIterationsExceeded) BAD("status", "status %d (%s)", (int)st.status, st.error_message.c_str()); if (st.acceptedSteps != c.max_steps) BAD("status", "stopped after %d accepted steps with max_steps %d", st.acceptedSteps, c.max_steps);
        auto full = it.integrate(vec(x0), t0, tEnd, civ, eps, h0); if (r.size() >= full.size()) BAD("partial", "the partial result has %d rows, the complete one %d", r.size(), full.size()); for (int k = 0; k < r.size() && k < full.size(); ++k) { if (bits(r.getTValue(k)) != bits(full.getTValue(k))) BAD("partial", "row %d of the partial result at %.17g, of the complete one at %.17g", k, r.getTValue(k), full.getTValue(k)); for (int i = 0; i < D; ++i) if (bits(r.getXValue(k, i)) != bits(full.getXValue(k, i))) BAD("partial", "row %d of the partial result differs from the complete one", k); } sim::count("partial"); }
    else if (at) { if (r.size() != times.size()) BAD("rows", "%d rows for %d requested times", r.size(), (int)times.size()); else for (int k = 0; k < r.size(); ++k) if (bits(r.getTValue(k)) != bits(times[k])) BAD("rows", "row %d at %.17g instead of %.17g", k, r.getTValue(k), times[k]); }
    else rows_regular(r, t0, tEnd, cfg ? civ : iv, tEnd);
    if (cfg && st.acceptedSteps > c.max_steps) BAD("status", "%d accepted steps with max_steps %d", st.acceptedSteps, c.max_steps);
    if (st.acceptedSteps > 0 && !(st.minStepSize > 0 && st.minStepSize <= st.maxStepSize && st.maxStepSize <= tEnd - t0 + 1e-12)) BAD("statistics", "step sizes %g..%g over an interval of %g", st.minStepSize, st.maxStepSize, tEnd - t0);
    double ref[D];
    for (int k = 0; k < r.size(); ++k) { s->m.at(x0, r.getTValue(k) - t0, ref); for (int i = 0; i < D; ++i) if (!(std::fabs(r.getXValue(k, i) - ref[i]) <= tol * (1 + std::fabs(ref[i])))) { BAD("trajectory", "row %d (t=%.9g) component %d is %.12g instead of %.12g (allowed %g, steps up to %g)", k, r.getTValue(k), i, r.getXValue(k, i), ref[i], tol, st.maxStepSize); } }
    if (r.size() && bits(r.getXValue(0, 0)) != bits(x0[0])) BAD("rows", "first row is not the start state");
    // accessors agree with each other
    if (r.size()) { auto tv = r.getTValues(); auto xe = r.getXValuesAtEnd(); auto xm = r.getXValues(); int n = r.size() - 1; if (tv.size() != r.size() || xm.cols() != r.size() || bits(tv[n]) != bits(r.getTValue(n))) BAD("accessors", "time vector of %d entries for %d rows", (int)tv.size(), r.size()); for (int i = 0; i < D; ++i) { auto xi = r.getXValues(i); if (xi.size() != r.size() || bits(xi[n]) != bits(r.getXValue(n, i)) || bits(xe[i]) != bits(r.getXValue(n, i)) || bits(xm(i, n)) != bits(r.getXValue(n, i))) BAD("accessors", "component %d of the last row differs between accessors", i); } }
    if (w(2)) { int why = interrupted(calls, [&] { auto z = run(it); (void)z; }); Integ fresh(*s); auto a = run(it), b = run(fresh); if (!same(a, b)) BAD("reuse", "an integrator used again after an interrupted call (%d) returns something else than a fresh one", why); if (!same(b, r)) BAD("repeat", "the same integration gives two results"); }
    if (!cut && !at && w(3) == 0) { // two legs
        double tm = t0 + T * (1 + w(9)) / 11; auto l1 = it.integrate(vec(x0), t0, tm, iv, eps, h0); auto l2 = it.integrate(l1.getXValuesAtEnd(), tm, tEnd, iv, eps, h0); auto e1 = r.getXValuesAtEnd(), e2 = l2.getXValuesAtEnd(); for (int i = 0; i < D; ++i) if (!(std::fabs(e1[i] - e2[i]) <= 2 * tolerance(eps, 0, 0, 1) * (1 + std::fabs(e1[i])))) BAD("two-legs", "component %d ends at %.12g in one leg, %.12g in two", i, e1[i], e2[i]); sim::count("two-legs"); }
    sim::nontrivial(); sim::state(((uint64_t)name[0] << 32) ^ ((uint64_t)name[1] << 40) ^ 1ull << 50 ^ (uint64_t)cfg << 51 ^ (uint64_t)at << 52 ^ (uint64_t)cut << 53 ^ (std::min(r.size(), 127) << 8) ^ std::min(st.rejectedSteps, 7) ^ ((h0 > 0) << 24));
}

// ---------------------------------------------------------------- fixed steps
static void fixed() {
    static const IODESystemStepCalculator* k[] = {&StepCalculators::EulerStepCalc, &StepCalculators::MidpointStepCalc, &StepCalculators::RK4_Basic, &StepCalculators::RK5_CashKarp, &StepCalculators::DormandPrince5StepCalc, &StepCalculators::DormandPrince8StepCalc};
    int w0 = w(6); g_case = "fixed/" + std::to_string(w0); auto s = std::make_shared<Sys>(); s->m = motion(false); double x0[D]; start(x0); double t0 = w(3) ? 0 : ru(-5, 5), T = ru(.1, 4), tEnd = t0 + T; int n = 1 + w(80);
    sim::trace("%s t0=%g T=%g n=%d", g_case.c_str(), t0, T, n);
    ODESystemFixedStepSolver v(*s, *k[w0]); g_boom_at = 0; g_calls = 0; auto r = v.integrate(vec(x0), t0, tEnd, n); uint64_t calls = g_calls; eat(r);
    if (r.size() != n + 1) BAD("rows", "%d rows for %d steps", r.size(), n);
    Vector<Real> x = vec(x0), q(D), xo(D), xr(D); double t = t0, h = T / n, worst = 0;
    h = (tEnd - t0) / n;
    for (int i = 0; i < r.size(); ++i) {
        if (i && !(r.getTValue(i) > r.getTValue(i - 1))) BAD("rows", "row %d at %.17g does not follow %.17g", i, r.getTValue(i), r.getTValue(i - 1));
        if (std::fabs(r.getTValue(i) - (t0 + i * h)) > 1e-11 * (1 + std::fabs(tEnd))) BAD("rows", "row %d at %.17g instead of %.17g", i, r.getTValue(i), t0 + i * h);
        for (int c = 0; c < D; ++c) if (!(std::fabs(r.getXValue(i, c) - x[c]) <= 1e-10 * (1 + std::fabs(x[c])))) BAD("trajectory", "row %d component %d is %.15g, one step from the row before gives %.15g", i, c, r.getXValue(i, c), x[c]);
        double ref[D]; s->m.at(x0, t - t0, ref); for (int c = 0; c < D; ++c) worst = std::max(worst, std::fabs(ref[c] - r.getXValue(i, c)));
        s->derivs(t, x, q); k[w0]->calcStep(*s, t, x, q, h, xo, xr); t += h; x = xo;
    }
    double oh = std::max(s->m.om, s->m.k) * h; if (w0 >= 2 && oh < .3 && !(worst < 20 * T * (1 + s->m.om) * std::pow(oh, 4) + 1e-9)) BAD("trajectory", "deviation %g with h*omega=%g", worst, oh);
    if (w(2)) { int why = interrupted(calls, [&] { auto z = v.integrate(vec(x0), t0, tEnd, n); (void)z; }); if (!same(v.integrate(vec(x0), t0, tEnd, n), r)) BAD("reuse", "a solver used again after an interrupted call (%d) returns something else", why); }
    sim::nontrivial(); sim::state(2ull << 50 ^ w0 << 8 ^ n);
}

// ---------------------------------------------------------------- implicit methods: fixed output at every step
struct Stiff : IODESystemWithJacobian { double k, b; int getDim() const override { return 2; }
    void derivs(const Real t, const Vector<Real>& x, Vector<Real>& q) const override { user_call(); q[0] = -k * (x[0] - std::cos(t)) - std::sin(t) + g_bad; q[1] = -b * x[1] + g_bad; }
    void jacobian(const Real t, const Vector<Real>& x, Vector<Real>& q, Matrix<Real>& J) const override { derivs(t, x, q); J(0, 0) = -k; J(0, 1) = 0; J(1, 0) = 0; J(1, 1) = -b; } };
struct Dae : IODESystemDAEWithJacobian { double k, a; int getDiffDim() const override { return 1; } int getAlgDim() const override { return 1; }   // x' = -k(x-cos t) - sin t + (y - a x), 0 = y - a x
    void diffEqs(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& q) const override { user_call(); q[0] = -k * (x[0] - std::cos(t)) - std::sin(t) + (y[0] - a * x[0]) + g_bad; }
    void algConstraints(Real, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& g) const override { user_call(); g[0] = y[0] - a * x[0] + g_bad; }
    void jacobian_fx(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& m) const override { m(0, 0) = -k - a; }
    void jacobian_fy(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& m) const override { m(0, 0) = 1; }
    void jacobian_gx(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& m) const override { m(0, 0) = -a; }
    void jacobian_gy(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& m) const override { m(0, 0) = 1; } };
struct Rows { std::vector<double> t; std::vector<std::vector<double>> x; int ok, bad; bool good, cut; std::string msg; bool operator==(const Rows& o) const { if (t.size() != o.t.size() || ok != o.ok || bad != o.bad || good != o.good) return false; for (size_t i = 0; i < t.size(); ++i) { if (bits(t[i]) != bits(o.t[i])) return false; for (size_t c = 0; c < x[i].size(); ++c) if (bits(x[i][c]) != bits(o.x[i][c])) return false; } return true; } };
static Rows rows(const ODESystemSolution& s) { Rows r; for (int i = 0; i < s.size(); ++i) { r.t.push_back(s.getTValue(i)); r.x.push_back({}); for (int c = 0; c < s.getSysDim(); ++c) r.x.back().push_back(s.getXValue(i, c)); } r.ok = s.getNumStepsOK(); r.bad = s.getNumStepsBad(); r.good = true; r.cut = false; return r; }
static Rows rows(const DAESolution& s) { Rows r; for (int i = 0; i < s.size(); ++i) { r.t.push_back(s.getTValue(i)); r.x.push_back({s.getXValue(i, 0), s.getYValue(i, 0)}); } r.ok = s.getNumStepsOK(); r.bad = 0; r.good = true; r.cut = false; return r; }
static void implicit_rows(const Rows& r, double t0, double tEnd, const std::vector<double>& x0, double h, bool fixedh, std::function<double(double, int)> ref, double tol) {
    if (r.t.empty()) { BAD("rows", "no rows"); return; }
    if (bits(r.t[0]) != bits(t0) || bits(r.x[0][0]) != bits(x0[0]) || bits(r.x[0][1]) != bits(x0[1])) BAD("rows", "first row is not the start (%.17g, %.17g, %.17g)", r.t[0], r.x[0][0], r.x[0][1]);
    for (size_t i = 1; i < r.t.size(); ++i) { bool last = i + 1 == r.t.size();
        if (!(r.t[i] > r.t[i - 1])) BAD("rows", "row %zu at %.17g does not follow %.17g", i, r.t[i], r.t[i - 1]);
        if (r.t[i] > tEnd) BAD("rows", "row %zu at %.17g after the final time %.17g", i, r.t[i], tEnd);
        if (fixedh && !(last && !r.cut) && std::fabs(r.t[i] - (t0 + i * h)) > 1e-9) BAD("rows", "row %zu at %.17g instead of %.17g", i, r.t[i], t0 + i * h);
        if (fixedh && r.t[i] - r.t[i - 1] > h * (1 + 1e-6)) BAD("rows", "gap before row %zu (t=%.17g)", i, r.t[i]); }
    if (!r.cut && bits(r.t.back()) != bits(tEnd)) BAD("rows", "last row at %.17g instead of the final time %.17g", r.t.back(), tEnd);
    if (r.cut && r.t.back() >= tEnd) BAD("status", "the final time was reached but the status says it was not");
    for (size_t i = 0; i < r.t.size(); ++i) for (int c = 0; c < 2; ++c) { double e = ref(r.t[i], c); if (!(std::fabs(r.x[i][c] - e) <= tol)) BAD("trajectory", "row %zu (t=%.9g) component %d is %.12g instead of %.12g (allowed %g)", i, r.t[i], c, r.x[i][c], e, tol); }
}
static void implicit() {
    int m = w(8); bool dae = m >= 3; static const char* nm[] = {"BackwardEuler", "BDF2", "Rosenbrock23", "DAE-BackwardEuler", "DAE-BDF2", "DAE-BDF4", "DAE-RODAS", "DAE-RadauIIA"};
    g_case = std::string("implicit/") + nm[m]; double k = ru(.5, dae ? 20 : 60), b = ru(.2, 5), t0 = w(3) ? 0 : ru(-3, 3), T = ru(.1, 2), tEnd = t0 + T, h = w(3) == 0 ? T / (1 + w(20)) : ru(.01, .08); int ms = w(3) ? 100000 : 1 + w(25);
    double c0 = std::cos(t0), y0 = ru(.5, 2), a = ru(-2, 2); int api = w(3); double rtol = std::pow(10., -sim::wi(4, 7));
    auto st = std::make_shared<Stiff>(); st->k = k; st->b = b; auto da = std::make_shared<Dae>(); da->k = k; da->a = a;
    sim::trace("%s api %d k=%g b=%g a=%g t0=%g T=%g h=%g max_steps=%d tol=%g", g_case.c_str(), api, k, b, a, t0, T, h, ms, rtol);
    auto run = [&](int ms) -> Rows {
        if (!dae) {
            Vector<Real> x{c0, y0};
            if (api == 0) { if (m == 0) return rows(SolveBackwardEuler(*st, t0, x, tEnd, h, 20)); if (m == 1) return rows(SolveBDF2(*st, t0, x, tEnd, h, 20)); Rosenbrock23Solver v(*st, rtol, rtol); if (rtol > 5e-6) return rows(v.Solve(t0, x, tEnd, h)); try { return rows(v.Solve(t0, x, tEnd, h)); } catch (const std::bad_alloc&) { throw; } catch (const std::runtime_error& e) { Rows z; z.ok = z.bad = 0; z.good = z.cut = false; z.msg = e.what(); return z; } }
            if (api == 1 && m < 2) { StiffSolverConfig q; q.step_size = h; q.max_steps = ms; auto r = m ? SolveBDF2(*st, t0, x, tEnd, q) : SolveBackwardEuler(*st, t0, x, tEnd, q); Rows z = rows(r.solution); z.good = r.status == AlgorithmStatus::Success; z.cut = r.status == AlgorithmStatus::MaxIterationsExceeded; z.msg = r.error_message; return z; }
            ODEStiffConfig q; q.solver.step_size = h; q.solver.max_steps = ms; q.solver.tolerance = m == 2 ? rtol : q.solver.tolerance; auto r = m == 0 ? SolveBackwardEulerDetailed(*st, t0, x, tEnd, q) : m == 1 ? SolveBDF2Detailed(*st, t0, x, tEnd, q) : SolveRosenbrock23Detailed(*st, x, t0, tEnd, q);
            Rows z; z.ok = z.bad = 0; if (r.solution) z = rows(*r.solution); z.good = r.IsSuccess(); z.cut = r.status == AlgorithmStatus::MaxIterationsExceeded; z.msg = r.error_message; return z;
        }
        DAESolverConfig q; q.step_size = h; q.max_steps = ms; Vector<Real> x{c0}, y{a * c0};
        auto r = m == 3 ? SolveDAEBackwardEuler(*da, t0, x, y, tEnd, q) : m == 4 ? SolveDAEBDF2(*da, t0, x, y, tEnd, q) : m == 5 ? SolveDAEBDF4(*da, t0, x, y, tEnd, q) : m == 6 ? SolveDAERODAS(*da, t0, x, y, tEnd, q) : SolveDAERadauIIA(*da, t0, x, y, tEnd, q);
        Rows z = rows(r.solution); z.good = r.status == AlgorithmStatus::Success; z.cut = r.status == AlgorithmStatus::MaxIterationsExceeded; z.msg = r.error_message; return z;
    };
    g_boom_at = 0; g_calls = 0; Rows r = run(ms); uint64_t calls = g_calls;
    sim::hash(r.t.size()); for (size_t i = 0; i < r.t.size(); ++i) { sim::hash(bits(r.t[i])); for (double v : r.x[i]) sim::hash(bits(v)); }
    if (m == 2 && !r.good && (ms < 100000 || rtol < 5e-6)) { sim::count("limit-reported"); return; }   // the limit was reported as a failure, without rows
    if (!r.good && !r.cut) { BAD("status", "a well-behaved system ended with \"%s\"", r.msg.c_str()); return; }
    double hh = m == 2 ? 0 : h, lam = std::max(k, b); double tol = m == 2 ? 2e-2 * (lam * rtol * 100 + .02) + 2000 * rtol : 2.5 * std::max(b, 1.) * std::max(b, 1.) * hh + 1e-6;
    auto ref = [&](double t, int c) { return c == 0 ? std::cos(t) : dae ? a * std::cos(t) : y0 * std::exp(-b * (t - t0)); };
    std::vector<double> x0{c0, dae ? a * c0 : y0}; implicit_rows(r, t0, tEnd, x0, h, m != 2, ref, tol);
    if (dae) for (size_t i = 0; i < r.t.size(); ++i) if (!(std::fabs(r.x[i][1] - a * r.x[i][0]) <= 1e-6)) BAD("constraint", "row %zu (t=%.9g) violates the constraint by %g", i, r.t[i], r.x[i][1] - a * r.x[i][0]);
    if (r.ok != (int)r.t.size() - 1 + (m == 7)) BAD("statistics", "%d successful steps reported for %zu rows", r.ok, r.t.size());
    if (ms < 100000 && (dae || api) && (int)r.t.size() - 1 > ms) BAD("max-steps", "%zu steps with max_steps %d", r.t.size() - 1, ms);
    if (r.cut) { Rows full = run(100000); if (full.t.size() <= r.t.size()) BAD("partial", "the partial result has %zu rows, the complete one %zu", r.t.size(), full.t.size()); for (size_t i = 0; i < r.t.size() && i < full.t.size(); ++i) if (bits(r.t[i]) != bits(full.t[i]) || bits(r.x[i][0]) != bits(full.x[i][0]) || bits(r.x[i][1]) != bits(full.x[i][1])) BAD("partial", "row %zu of the partial result differs from the complete one", i); sim::count("partial"); }
    if (w(2)) { int why = interrupted(calls, [&] { Rows z = run(ms); if (z.good && g_boom_kind != 1) for (auto& v : z.x) for (double q : v) (void)q; }); if (!(run(ms) == r)) BAD("reuse", "a solver run again after an interrupted call (%d) returns something else", why); }
    sim::nontrivial(); sim::state(3ull << 50 ^ m << 16 ^ api << 12 ^ (std::min<size_t>(r.t.size(), 255)) ^ (uint64_t)r.cut << 24);
}

void scenario() {
    switch (w(12)) {
    case 0: implicit(); break; case 1: implicit(); break; case 2: fixed(); break;
    case 3: adaptive<DormandPrince5Integrator>("DP5", 1); break; case 4: adaptive<CashKarpIntegrator>("CK", 4); break; case 5: adaptive<DormandPrince8Integrator>("DP8", 4); break;
    case 6: w(2) ? adaptive<BulirschStoerIntegrator>("BS", 4) : adaptive<BulirschStoerRationalIntegrator>("BSR", 4); break;
    case 7: case 8: events<DormandPrince5EventIntegrator>("DP5", 1); break; case 9: events<CashKarpEventIntegrator>("CK", 4); break; case 10: events<DormandPrince8EventIntegrator>("DP8", 4); break; default: events<BulirschStoerEventIntegrator>("BS", 4);
    }
}
