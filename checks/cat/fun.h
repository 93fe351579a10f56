// random smooth user functions whose every evaluation goes through the callback seam
#pragma once
#include "gen.h"
#include "mml/base/Function.h"
namespace cat {
struct F1 { double a, b, c, d; double raw(double x) const { return a * std::sin(b * x) + c * x + d * x * x; } };
inline F1 f1(Ctx& c) { return {c.u(), c.u(0.3, 2), c.u(), c.u(-0.5, 0.5)}; }
inline std::shared_ptr<MML::RealFunctionFromStdFunc> rf(Ctx& c) { F1 k = f1(c); return std::make_shared<MML::RealFunctionFromStdFunc>([k](Real x) { return cb(k.raw(x)); }); }
template <int N> std::shared_ptr<MML::ScalarFunctionFromStdFunc<N>> sf(Ctx& c) { F1 k[N]; for (auto& q : k) q = f1(c); std::vector<F1> v(k, k + N);
    return std::make_shared<MML::ScalarFunctionFromStdFunc<N>>([v](const MML::VectorN<Real, N>& x) { double s = 0; for (int i = 0; i < N; ++i) s += v[i].raw(x[i]) * (1 + 0.25 * x[(i + 1) % N]); return cb(s); }); }
template <int N> std::shared_ptr<MML::VectorFunctionFromStdFunc<N>> vf(Ctx& c) { std::vector<F1> v(N); for (auto& q : v) q = f1(c);
    return std::make_shared<MML::VectorFunctionFromStdFunc<N>>([v](const MML::VectorN<Real, N>& x) { tick(); MML::VectorN<Real, N> r; for (int i = 0; i < N; ++i) r[i] = hv(v[i].raw(x[i]) + 0.5 * x[(i + 1) % N]); return r; }); }
template <int N> std::shared_ptr<MML::ParametricCurveFromStdFunc<N>> cf(Ctx& c, double t0, double t1) { std::vector<F1> v(N); for (auto& q : v) q = f1(c);
    return std::make_shared<MML::ParametricCurveFromStdFunc<N>>(t0, t1, [v](Real t) { tick(); MML::VectorN<Real, N> r; for (int i = 0; i < N; ++i) r[i] = hv(v[i].raw(t) + (i + 1) * t); return r; }); }
inline std::shared_ptr<MML::ParametricSurfaceFromStdFunc<3>> suf(Ctx& c) { F1 k = f1(c), l = f1(c); std::function<MML::VectorN<Real, 3>(Real, Real)> f = [k, l](Real u, Real w) { tick(); return MML::VectorN<Real, 3>{hv(u), hv(w), hv(k.raw(u) * 0.3 + l.raw(w) * 0.3)}; };
    return std::make_shared<MML::ParametricSurfaceFromStdFunc<3>>(f, -1.0, 1.0, -1.0, 1.0); }
// lowers the refinement limits of this thread's default settings for one call
struct Steps { MML::AlgorithmContext& a; int t, s, r; Steps(Ctx& c) : a(MML::AlgorithmContext::Get()), t(a.trapezoidIntegrationMaxSteps), s(a.simpsonIntegrationMaxSteps), r(a.rombergIntegrationMaxSteps) { a.trapezoidIntegrationMaxSteps = c.i(6, 12); a.simpsonIntegrationMaxSteps = c.i(6, 12); a.rombergIntegrationMaxSteps = c.i(6, 8); }
    ~Steps() { a.trapezoidIntegrationMaxSteps = t; a.simpsonIntegrationMaxSteps = s; a.rombergIntegrationMaxSteps = r; } };
// result helpers
template <class R> void ev(Ctx& c, const R& r) { c.claim(r.IsSuccess()); if (r.IsSuccess()) c.ms(r.elapsed_time_ms); c.o((int)r.status); c.o(r.function_evaluations); c.o(r.algorithm_name); c.o(r.error_message); }
} // namespace cat
