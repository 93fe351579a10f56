// C08: default settings are private to each thread. Several threads, started at different moments, read and change settings by both documented
// routes and run computations and prints that depend on them; each thread is judged against its own model of the settings.
#include "../sim/sim.h"
#include "mml/base/Vector/Vector.h"
#include "mml/base/Vector/VectorN.h"
#include "mml/base/Function.h"
#include "mml/core/Integration.h"
#include "mml/core/Integration/PathIntegration.h"
#include "mml/core/Integration/IntegrationImproper.h"
#include "mml/algorithms/RootFinding.h"
#include <sstream>
#include <thread>
#include <cstring>
const char* const SIM_CHECK_ID = "C08";
using sim::w; using namespace MML;
static const int NI = 12, NR = 5;
struct Model { int i[NI] = {15, 10, 15, 10, 50, 20, 100, 20, 20, 20, 5, 100000}; double r[NR] = {1e-4, 1e-5, 0, 1e-5, 1e-5}; Model() { r[2] = PrecisionValues<Real>::DefaultTolerance; } };
static const char* iname[NI] = {"VectorPrintWidth", "VectorPrintPrecision", "VectorNPrintWidth", "VectorNPrintPrecision", "BisectionMaxSteps", "NewtonRaphsonMaxSteps", "BrentMaxSteps", "TrapezoidIntegrationMaxSteps", "SimpsonIntegrationMaxSteps", "RombergIntegrationMaxSteps", "RombergIntegrationUsedPnts", "ODESolverMaxSteps"};
static const char* rname[NR] = {"TrapezoidIntegrationEPS", "SimpsonIntegrationEPS", "RombergIntegrationEPS", "WorkIntegralPrecision", "LineIntegralPrecision"};
static int& di(int k) { switch (k) { case 0: return Defaults::VectorPrintWidth; case 1: return Defaults::VectorPrintPrecision; case 2: return Defaults::VectorNPrintWidth; case 3: return Defaults::VectorNPrintPrecision; case 4: return Defaults::BisectionMaxSteps; case 5: return Defaults::NewtonRaphsonMaxSteps; case 6: return Defaults::BrentMaxSteps; case 7: return Defaults::TrapezoidIntegrationMaxSteps; case 8: return Defaults::SimpsonIntegrationMaxSteps; case 9: return Defaults::RombergIntegrationMaxSteps; case 10: return Defaults::RombergIntegrationUsedPnts; default: return Defaults::ODESolverMaxSteps; } }
static int& ci(int k) { auto& p = PrintContext::Get(); auto& a = AlgorithmContext::Get(); switch (k) { case 0: return p.vectorWidth; case 1: return p.vectorPrecision; case 2: return p.vectorNWidth; case 3: return p.vectorNPrecision; case 4: return a.bisectionMaxSteps; case 5: return a.newtonRaphsonMaxSteps; case 6: return a.brentMaxSteps; case 7: return a.trapezoidIntegrationMaxSteps; case 8: return a.simpsonIntegrationMaxSteps; case 9: return a.rombergIntegrationMaxSteps; case 10: return a.rombergIntegrationUsedPnts; default: return a.odeSolverMaxSteps; } }
static Real& dr(int k) { switch (k) { case 0: return Defaults::TrapezoidIntegrationEPS; case 1: return Defaults::SimpsonIntegrationEPS; case 2: return Defaults::RombergIntegrationEPS; case 3: return Defaults::WorkIntegralPrecision; default: return Defaults::LineIntegralPrecision; } }
static Real& cr(int k) { auto& a = AlgorithmContext::Get(); switch (k) { case 0: return a.trapezoidIntegrationEPS; case 1: return a.simpsonIntegrationEPS; case 2: return a.rombergIntegrationEPS; case 3: return a.workIntegralPrecision; default: return a.lineIntegralPrecision; } }

static const int MAXOPS = 14, MAXT = 5;
struct Step { uint8_t kind, k, route; int v; double x; };
struct Plan { int n; Step s[MAXOPS]; int child_at, child; };
static Plan plans[MAXT]; static int nplans;
static void bad(const char* kind, const char* fmt, ...) { va_list ap; va_start(ap, fmt); char b[280]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); sim::fail(kind, "%s", b); }
static void plan_thread(int depth) {
    int me = nplans++; Plan& p = plans[me]; p.n = 2 + (int)w(MAXOPS - 2); p.child = -1;
    for (int i = 0; i < p.n; ++i) {
        Step& s = p.s[i]; s.kind = (uint8_t)w(16); s.route = (uint8_t)w(2); s.x = w(1000) / 1000.0; s.v = 0;
        if (s.kind < 3) { s.k = (uint8_t)w(NI); static const int lo[NI] = {1, 1, 1, 1, 1, 1, 1, 7, 7, 6, 2, 10}, hi[NI] = {30, 15, 30, 15, 40, 30, 60, 11, 11, 11, 6, 1000}; s.v = lo[s.k] + (int)w((uint32_t)(hi[s.k] - lo[s.k] + 1)); }
        else if (s.kind < 5) { s.k = (uint8_t)w(NR); s.v = 2 + (int)w(7); }
        else s.k = (uint8_t)w(36);
    }
    if (depth < 2 && nplans < MAXT && w(2)) { p.child_at = (int)w((uint32_t)p.n); p.child = nplans; plan_thread(depth + 1); }
}
static std::string fmt_vec(const std::vector<double>& v, int wd, int pr) { std::ostringstream s; s << "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s << ", "; s << std::setw(wd) << std::setprecision(pr) << v[i]; } s << "]"; return s.str(); }
static void run_plan(int me) {
    Model m; Plan& p = plans[me]; std::thread child;
    auto reads = [&](int k) {
        for (int r = 0; r < 2; ++r) { int g = r ? ci(k) : di(k); if (g != m.i[k]) bad("setting_value", "thread %d reads %s = %d %s, its own value is %d", me, iname[k], g, r ? "from the context" : "from Defaults", m.i[k]); }
    };
    auto readr = [&](int k) { for (int r = 0; r < 2; ++r) { double g = r ? cr(k) : dr(k); if (g != m.r[k]) bad("setting_value", "thread %d reads %s = %g %s, its own value is %g", me, rname[k], g, r ? "from the context" : "from Defaults", m.r[k]); } };
    for (int i = 0; i < p.n; ++i) {
        if (p.child >= 0 && i == p.child_at) child = std::thread([c = p.child] { run_plan(c); });
        Step& s = p.s[i]; double x = s.x; int evals = 0;
        RealFunctionFromStdFunc f([x, &evals](Real t) { ++evals; return std::exp(x * t) + t * t - 1.7; });
        RealFunctionFromStdFunc never([x, &evals](Real t) { ++evals; return (double)((evals * 2654435761u) % 1000u) + 1; });       // no refinement converges
        switch (s.kind) {
            case 0: case 1: case 2: (s.route ? ci(s.k) : di(s.k)) = s.v; m.i[s.k] = s.v; reads(s.k); break;
            case 3: case 4: { double v = std::pow(10.0, -s.v) * (1 + (s.v == 3)); (s.route ? cr(s.k) : dr(s.k)) = v; m.r[s.k] = v; readr(s.k); break; }
            case 5: reads(s.k % NI); break;
            case 6: readr(s.k % NR); break;
            case 7: {   // printing
                Vector<Real> v(std::vector<double>{x, -1.0 / 3, 1e5 / 7}); VectorN<Real, 2> n{x, 2.0 / 3}; std::ostringstream a, b; a << v; b << n;
                if (a.str() != fmt_vec({x, -1.0 / 3, 1e5 / 7}, m.i[0], m.i[1])) bad("printed_text", "thread %d prints %s with width %d precision %d set", me, a.str().c_str(), m.i[0], m.i[1]);
                if (v.to_string() != a.str()) bad("printed_text", "thread %d: to_string() differs from <<", me);
                if (b.str() != fmt_vec({x, 2.0 / 3}, m.i[2], m.i[3])) bad("printed_text", "thread %d prints %s with VectorN width %d precision %d set", me, b.str().c_str(), m.i[2], m.i[3]);
                break; }
            case 8: {   // default tolerance of the quadratures
                IntegrationResult d, e; const char* nm;
                switch (s.k % 5) {
                    case 0: nm = rname[0]; d = IntegrateTrap(f, 0, 1); e = IntegrateTrap(f, 0, 1, m.r[0]); break;
                    case 1: nm = rname[1]; d = IntegrateSimpson(f, 0, 1); e = IntegrateSimpson(f, 0, 1, m.r[1]); break;
                    case 2: nm = rname[2]; d = IntegrateRomberg(f, 0, 1); e = IntegrateRomberg(f, 0, 1, m.r[2]); break;
                    case 3: { nm = rname[2]; d = IntegrateOpen(f, 0, 1); e = IntegrateOpen(f, 0, 1, m.r[2]); break; }
                    default: { nm = rname[3]; ScalarFunctionFromStdFunc<3> sf([x](const VectorN<Real, 3>& q) { return 1 + q[0] * q[1] + x * q[2]; }); ParametricCurveFromStdFunc<3> cv(0, 1, [](Real t) { return VectorN<Real, 3>{t, t * t, std::sin(t)}; });
                        d = PathIntegration::LineIntegral(sf, cv, 0, 1); e = PathIntegration::LineIntegral(sf, cv, 0, 1, m.r[3]); break; }
                }
                if (d.value != e.value || d.iterations != e.iterations || d.converged != e.converged) bad("default_not_used", "thread %d: integration with the default tolerance differs from the one with its own %s", me, nm);
                break; }
            case 9: {   // iteration limits of the quadratures
                IntegrationResult r; int want = m.i[7 + s.k % 3]; if (want > 12) break;
                switch (s.k % 3) { case 0: r = IntegrateTrap(never, 0, 1, 1e-13); want = m.i[7]; break; case 1: r = IntegrateSimpson(never, 0, 1, 1e-13); want = m.i[8]; break; default: r = IntegrateRomberg(never, 0, 1, 1e-13); want = m.i[9]; break; }
                if (r.converged || r.iterations != want || evals > (1 << want) + 2) bad("limit_not_used", "thread %d: a quadrature limited to %d steps ends after %d steps and %d evaluations", me, want, r.iterations, evals);
                break; }
            case 12: {  // points used by the extrapolations: of a constant the first extrapolation is already exact
                int K = m.i[10]; RealFunctionFromStdFunc one([&evals](Real) { ++evals; return 1.0; }); if (K > m.i[9]) break;
                long open = 1; for (int j = 1; j < K; ++j) open *= 3;
                if (s.k % 2) { auto r = IntegrateRomberg(one, 0, 1, 1e-8); if (!r.converged || evals != (1 << (K - 1)) + 1) bad("setting_not_used", "thread %d: Romberg integration of a constant with %d points takes %d evaluations", me, K, evals); }
                else { auto r = IntegrateOpen(one, 0, 1, 1e-8); if (!r.converged || evals != open) bad("setting_not_used", "thread %d: open integration of a constant with %d points takes %d evaluations, %ld expected", me, K, evals, open); }
                break; }
            case 13: {  // default tolerance of the other quadratures; midpoint refinement triples, so only under a lowered limit
                if (m.i[9] > 9 || m.i[10] > m.i[9]) break;
                RealFunctionFromStdFunc g([x, &evals](Real t) { ++evals; return std::exp(-t * t) * (1.3 + std::sin(t + x)); });
                RealFunctionFromStdFunc a([x, &evals](Real t) { ++evals; return std::exp(x * t) / std::sqrt(t); }), b([x, &evals](Real t) { ++evals; return std::exp(x * t) / std::sqrt(1 - t); }), ab([x, &evals](Real t) { ++evals; return std::exp(x * t) / std::sqrt(t * (1 - t)); }), mid([x, &evals](Real t) { ++evals; return std::exp(x * t) / std::sqrt(std::abs(t - 0.4)); });
                IntegrationResult d, e; int n1 = 0; Real q = m.r[2]; const char* nm = "";
                auto pair = [&](const char* what, auto dflt, auto expl) { nm = what; evals = 0; d = dflt(); n1 = evals; evals = 0; e = expl(); };
                switch (s.k % 9) {
                    case 0: pair("IntegrateUpperInf", [&] { return IntegrateUpperInf(g, 0.2); }, [&] { return IntegrateUpperInf(g, 0.2, q); }); break;
                    case 1: pair("IntegrateLowerInf", [&] { return IntegrateLowerInf(g, 0.2); }, [&] { return IntegrateLowerInf(g, 0.2, q); }); break;
                    case 2: pair("IntegrateInf", [&] { return IntegrateInf(g); }, [&] { return IntegrateInf(g, q); }); break;
                    case 3: pair("IntegrateInfSplit", [&] { return IntegrateInfSplit(g, 0.1); }, [&] { return IntegrateInfSplit(g, 0.1, q); }); break;
                    case 4: pair("IntegrateLowerSingular", [&] { return IntegrateLowerSingular(a, 0, 1); }, [&] { return IntegrateLowerSingular(a, 0, 1, q); }); break;
                    case 5: pair("IntegrateUpperSingular", [&] { return IntegrateUpperSingular(b, 0, 1); }, [&] { return IntegrateUpperSingular(b, 0, 1, q); }); break;
                    case 6: pair("IntegrateBothSingular", [&] { return IntegrateBothSingular(ab, 0, 1); }, [&] { return IntegrateBothSingular(ab, 0, 1, q); }); break;
                    case 7: pair("IntegrateInteriorSingular", [&] { return IntegrateInteriorSingular(mid, 0, 1, 0.4); }, [&] { return IntegrateInteriorSingular(mid, 0, 1, 0.4, q); }); break;
                    default: { evals = 0; auto r = IntegrateOpen(never, 0, 1, 1e-13); if (r.converged || r.iterations != m.i[9]) bad("limit_not_used", "thread %d: open integration limited to %d steps ends after %d", me, m.i[9], r.iterations); break; }
                }
                if (s.k % 9 != 8 && (d.value != e.value || d.iterations != e.iterations || d.converged != e.converged || n1 != evals)) bad("default_not_used", "thread %d: %s with the default tolerance differs from the one with its own %s", me, nm, rname[2]);
                break; }
            case 14: {  // default tolerance behind the diagnostic variants and the method selector
                double dv = 0, ev = 0; int di_ = 0, ei = 0, n1 = 0; const char* nm = "";
                auto pair = [&](const char* what, auto dflt, auto expl) { nm = what; evals = 0; auto d = dflt(); n1 = evals; evals = 0; auto e = expl(); dv = d.value; ev = e.value; di_ = (int)d.iterations * 2 + d.converged; ei = (int)e.iterations * 2 + e.converged; };
                switch (s.k % 5) {
                    case 0: pair(rname[0], [&] { return IntegrateTrapDetailed(f, 0, 1); }, [&] { return IntegrateTrap(f, 0, 1, m.r[0]); }); break;
                    case 1: pair(rname[1], [&] { return IntegrateSimpsonDetailed(f, 0, 1); }, [&] { return IntegrateSimpson(f, 0, 1, m.r[1]); }); break;
                    case 2: pair(rname[2], [&] { return IntegrateRombergDetailed(f, 0, 1); }, [&] { return IntegrateRomberg(f, 0, 1, m.r[2]); }); break;
                    case 3: pair(rname[0], [&] { return Integrate(f, 0, 1, TRAP); }, [&] { return IntegrateTrap(f, 0, 1, m.r[0]); }); break;
                    default: { VectorFunctionFromStdFunc<3> vf([x, &evals](const VectorN<Real, 3>& q) { ++evals; return VectorN<Real, 3>{q[1], x * q[0], 1.0 + q[2]}; }); ParametricCurveFromStdFunc<3> cv(0, 1, [](Real t) { return VectorN<Real, 3>{t, t * t, std::sin(t)}; });
                        pair(rname[4], [&] { return PathIntegration::LineIntegral(vf, cv, 0, 1); }, [&] { return PathIntegration::LineIntegral(vf, cv, 0, 1, m.r[4]); }); break; }
                }
                if (memcmp(&dv, &ev, 8) || di_ != ei || n1 != evals) bad("default_not_used", "thread %d: an integration with the default tolerance differs from the one with its own %s", me, nm);
                break; }
            case 15: {  // a root finder given no limit behaves as the one given the thread's own limit
                RootFinding::RootFindingConfig k, kk; k.tolerance = kk.tolerance = 1e-300; k.max_iterations = 0; RootFinding::RootFindingResult r, e; int n1, which; const char* nm;
                RealFunctionFromStdFunc g([x, &evals](Real t) { ++evals; return t * t * t + t - 0.7 - x; }), st([&evals](Real t) { ++evals; return t < 0.123456789 ? -1.0 - t * t : 1.0 + t; }); const IRealFunction& h = s.k / 6 % 2 ? (const IRealFunction&)st : g;
                auto go = [&](const RootFinding::RootFindingConfig& c) { switch (s.k % 6) { case 0: return RootFinding::FindRootRidders(h, -1, 3.1, c); case 1: return RootFinding::FindRootFalsePosition(h, -1, 3.1, c); case 2: return RootFinding::FindRootSecant(h, -1, 3.1, c); case 3: return RootFinding::FindRootBisection(h, -1, 3.1, c); case 4: return RootFinding::FindRootBrent(h, -1, 3.1, c); default: return RootFinding::FindRootNewton(h, -1, 3.1, c); } };
                switch (s.k % 6) { case 0: nm = "Ridders"; which = 4; break; case 1: nm = "FalsePosition"; which = 4; break; case 2: nm = "Secant"; which = 5; break; case 3: nm = "Bisection"; which = 4; break; case 4: nm = "Brent"; which = 6; break; default: nm = "Newton"; which = 5; }
                kk.max_iterations = m.i[which]; evals = 0; r = go(k); n1 = evals; evals = 0; e = go(kk);
                if (r.iterations_used != e.iterations_used || r.converged != e.converged || n1 != evals) bad("default_not_used", "thread %d: FindRoot%s without a limit takes %d iterations, with its own %s = %d it takes %d", me, nm, r.iterations_used, iname[which], m.i[which], e.iterations_used);
                break; }
            default: {  // iteration limits of the root finders
                RootFinding::RootFindingConfig k; k.max_iterations = 0; k.tolerance = 1e-300; int want; RootFinding::RootFindingResult r;
                RealFunctionFromStdFunc g([x](Real t) { return t * t * t + t - 0.7 - x; }); const char* nm;
                if (s.k % 3 == 0) { nm = iname[4]; want = m.i[4]; if (want > 40) break; r = RootFinding::FindRootBisection(g, -1, 3.1, k); }
                else if (s.k % 3 == 1) { nm = iname[6]; want = m.i[6]; RealFunctionFromStdFunc st([](Real t) { return t < 0.123456789 ? -1.0 : 1.0; }); r = RootFinding::FindRootBrent(st, -1, 3.1, k); if (want > 25) break; }
                else { nm = iname[5]; want = m.i[5]; RealFunctionFromStdFunc cu([](Real t) { double u = t - 0.3; return u * u * u + 1e-3 * u; }); k.tolerance = 1e-300; r = RootFinding::FindRootNewton(cu, -1, 3.1, k); if (want > 4) break; }
                if (r.iterations_used != want) bad("limit_not_used", "thread %d: a root finder limited by %s = %d reports %d iterations (%s)", me, nm, want, r.iterations_used, r.error_message.c_str());
                break; }
        }
        sim::yield_point("step");
    }
    for (int k = 0; k < NI; ++k) reads(k);
    for (int k = 0; k < NR; ++k) readr(k);
    if (child.joinable()) child.join();
}
void scenario() {
    sim::clock_reset(); sim::entropy_seed(1); sim::site("settings");
    nplans = 0; int roots = 0, root[MAXT];
    int n = 1 + (int)w(3); for (int i = 0; i < n && nplans < MAXT; ++i) { root[roots++] = nplans; plan_thread(0); }
    bool in_main = w(2);
    sim::ThreadCfg cfg; cfg.max_steps = 3000000; cfg.mem_preempt = sim::chance(sim::S, 1, 2);
    sim::threads_begin(cfg);
    {
        std::vector<std::thread> th;
        for (int i = in_main ? 1 : 0; i < roots; ++i) th.emplace_back([r = root[i]] { run_plan(r); });
        if (in_main) run_plan(root[0]);
        for (auto& t : th) t.join();
    }
    sim::threads_end();
    if (nplans > 1) sim::nontrivial();
    uint64_t h = nplans; for (int i = 0; i < nplans; ++i) for (int j = 0; j < plans[i].n; ++j) { h = h * 131 + plans[i].s[j].kind * 16 + (plans[i].s[j].kind < 5 ? plans[i].s[j].k : plans[i].s[j].k % 3); sim::count(plans[i].s[j].kind < 5 ? "case:setting_changed" : plans[i].s[j].kind < 7 ? "case:setting_read" : plans[i].s[j].kind == 7 ? "case:printed" : "case:default_used"); }
    sim::state(h); sim::hash(h);
   
}
