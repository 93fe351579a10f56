// root finding, polynomial roots, one- and multi-dimensional minimisation, function analysis
#include "fun.h"
#include "mml/base/Polynom.h"
#include "mml/algorithms/RootFinding.h"
#include "mml/algorithms/Optimization.h"
#include "mml/algorithms/OptimizationMultidim.h"
#include "mml/algorithms/FunctionsAnalyzer.h"
using namespace MML; using namespace cat; namespace RF = MML::RootFinding; using namespace MML::Optimization;
// a function with a sign change in [-1,1]
static std::shared_ptr<RealFunctionFromStdFunc> rootf(Ctx& c) { F1 k = f1(c); double z = c.u(-.6, .6); int kind = c.i(0, 3); return std::make_shared<RealFunctionFromStdFunc>([=](Real x) { double t = x - z; return cb(kind == 0 ? t * (1.2 + k.a * t) : kind == 1 ? std::tanh(4 * t) + 0.1 * t : kind == 2 ? t * t * t + 0.05 * t : std::exp(k.b * t) - 1); }); }
static void rr(Ctx& c, const RF::RootFindingResult& r, int lim = 80) { c.within(r.iterations_used, lim); c.claim(r.converged); if (r.converged) { c.fin(r.root); c.ms(r.elapsed_time_ms); } c.o(r.root); c.o(r.function_value); c.o(r.iterations_used); c.o(r.achieved_tolerance); c.o((int)r.status); c.o(r.error_message); c.o(r.algorithm_name); }
static RF::RootFindingConfig rc(Ctx& c) { RF::RootFindingConfig k; k.tolerance = std::pow(10.0, c.i(0, 5) ? -c.i(3, 12) : -30); k.max_iterations = c.i(1, 80); return k; }
OP("root.bisection", SH | CB | IT | TM, 1000) { auto f = rootf(c); return inst([=](Ctx& c) { double a = c.u(-1, -.6), b = c.u(.6, 1); auto k = rc(c); rr(c, RF::FindRootBisection(*f, a, b, k), k.max_iterations); }); }
OP("root.falsepos", SH | CB | IT | TM, 1000) { auto f = rootf(c); return inst([=](Ctx& c) { double a = c.u(-1, -.6), b = c.u(.6, 1); auto k = rc(c); rr(c, RF::FindRootFalsePosition(*f, a, b, k), k.max_iterations); }); }
OP("root.newton", SH | CB | IT | TM, 3000) { auto f = rootf(c); return inst([=](Ctx& c) { double a = c.u(-1, -.6), b = c.u(.6, 1); auto k = rc(c); rr(c, RF::FindRootNewton(*f, a, b, k), k.max_iterations); }); }
OP("root.secant", SH | CB | IT | TM, 1000) { auto f = rootf(c); return inst([=](Ctx& c) { double a = c.u(-1, -.6), b = c.u(.6, 1); auto k = rc(c); rr(c, RF::FindRootSecant(*f, a, b, k), k.max_iterations); }); }
OP("root.ridders", SH | CB | IT | TM, 1000) { auto f = rootf(c); return inst([=](Ctx& c) { double a = c.u(-1, -.6), b = c.u(.6, 1); auto k = rc(c); rr(c, RF::FindRootRidders(*f, a, b, k), k.max_iterations); }); }
OP("root.brent", SH | CB | IT | TM, 1000) { auto f = rootf(c); return inst([=](Ctx& c) { double a = c.u(-1, -.6), b = c.u(.6, 1); auto k = rc(c); rr(c, RF::FindRootBrent(*f, a, b, k), k.max_iterations); }); }
OP("root.simple", SH | CB | IT | SETT, 3000) { auto f = rootf(c); return inst([=](Ctx& c) { double a = c.u(-1, -.6), b = c.u(.6, 1), e = std::pow(10.0, -c.i(3, 10)); switch (c.i(0, 5)) { case 0: c.fin(RF::FindRootBisection(*f, a, b, e)); break; case 1: c.fin(RF::FindRootFalsePosition(*f, a, b, e)); break; case 2: c.fin(RF::FindRootNewton(*f, a, b, e)); break; case 3: c.fin(RF::FindRootSecant(*f, a, b, e)); break; case 4: c.fin(RF::FindRootRidders(*f, a, b, e)); break; default: c.fin(RF::FindRootBrent(*f, a, b, e)); } }); }
OP("root.bracket", SH | CB | IT, 2000) { auto f = rf(c); return inst([=](Ctx& c) { if (c.b()) { Real a = c.u(-1, 0), b = c.u(.1, 1); int n = c.i(2, 40); c.budget(n + 4); bool ok = RF::BracketRoot(*f, a, b, n); c.claim(ok); if (ok) { c.fin(a); c.fin(b); } c.o(a); c.o(b); } else { Vector<Real> x1, x2; int m = c.i(1, 60); c.budget(m + 4); int n = RF::FindRootBrackets(*f, -3, 3, m, x1, x2); c.o(n); c.o(x1); c.o(x2); } }); }
OP("root.poly", SH | HI | IT) { int n = c.i(1, 7); std::vector<Real> k(n + 1); for (auto& x : k) x = c.in(c.u(-2, 2)); k[n] += 2.5; PolynomReal p(k); return inst([=](Ctx& c) { switch (c.i(0, 2)) { case 0: c.o(RF::LaguerreRoots(p)); break; case 1: c.o(RF::EigenvalueRoots(p)); break; default: c.o(RF::BairstowRoots(p)); } }); }
OP("root.closed", SH | HI) { double k[5]; for (auto& x : k) x = c.in(c.u(-2, 2)); if (c.i(0, 5) == 0) k[0] = 0; std::vector<double> v(k, k + 5); return inst([=](Ctx& c) { Complex a, b, d, e; c.o(SolveQuadratic(v[0], v[1], v[2], a, b)); c.o(a); c.o(b); c.o(SolveCubic(v[0], v[1], v[2], v[3], a, b, d)); c.o(a); c.o(b); c.o(d); SolveQuartic(v[0] + 3, v[1], v[2], v[3], v[4], a, b, d, e); c.o(a); c.o(b); c.o(d); c.o(e); }); }

static std::shared_ptr<RealFunctionFromStdFunc> valley(Ctx& c) { double z = c.u(-.5, .5), k = c.u(.5, 2), s = c.u(0, .4); return std::make_shared<RealFunctionFromStdFunc>([=](Real x) { return cb(k * (x - z) * (x - z) + s * std::cos(3 * x)); }); }
static void mr(Ctx& c, const MinimizationResult& r) { c.claim(r.converged); if (r.converged) { c.fin(r.xmin); c.fin(r.fmin); } c.o(r.xmin); c.o(r.fmin); c.o(r.iterations); c.o((int)r.status); c.o(r.error_message); c.o(r.algorithm_name); c.o(r.function_evaluations); }
OP("min.1d", SH | CB | IT, 3000) { auto f = valley(c); auto g = valley(c); return inst([=](Ctx& c) { double a = c.u(-1.5, -.7), b = c.u(.7, 1.5), e = std::pow(10.0, -c.i(3, 8)); int n = c.i(2, 60);  switch (c.i(0, 6)) { case 0: { double s = c.u(-3, 3); auto k = Minimization::BracketMinimum(*f, a + s, a + s + (c.b() ? .2 : -.2) * c.u(.1, 3)); c.claim(k.valid); if (k.valid) { c.fin(k.ax); c.fin(k.bx); c.fin(k.cx); c.fin(k.fb); } c.o(k.ax); c.o(k.bx); c.o(k.cx); c.o(k.fb); break; } case 1: mr(c, Minimization::GoldenSectionSearch(*f, a, b, e)); break; case 2: mr(c, Minimization::BrentMinimize(*f, a, b, e, n)); break; case 3: mr(c, Minimization::BrentMinimizeWithDeriv(*f, *g, a, b, e, n)); break; case 4: mr(c, Minimization::GoldenSectionMaximize(*g, a, b, e)); break; case 5: mr(c, Minimization::BrentMaximize(*g, a, b, e, n)); break; default: { double s = c.u(-3, 3); auto k = Minimization::BracketMinimum(*f, a + s, a + s + (c.b() ? .2 : -.2) * c.u(.1, 3)); if (k.valid) { mr(c, Minimization::BrentMinimize(*f, k, e, n)); mr(c, Minimization::GoldenSectionSearch(*f, k, e)); } else c.claim(false); } } }); }
OP("min.1d.config", SH | CB | IT | TM, 1200) { auto f = valley(c); auto g = valley(c); return inst([=](Ctx& c) { double a = c.u(-1.5, -.7), b = c.u(.7, 1.5); Minimization1DConfig k; k.tolerance = std::pow(10.0, -c.i(3, 8)); k.max_iterations = c.i(2, 80);  MinimizationResult r; switch (c.i(0, 3)) { case 0: r = Minimization::GoldenSectionSearch(*f, a, b, k); break; case 1: r = Minimization::BrentMinimize(*f, a, b, k); break; case 2: r = Minimization::BrentMinimizeWithDeriv(*f, *g, a, b, k); break; default: r = Minimization::BrentMaximize(*g, a, b, k); } c.within(r.iterations, k.max_iterations); mr(c, r); if (r.converged) c.ms(r.elapsed_time_ms); }); }

template <int N> struct Bowl : IDifferentiableScalarFunction<N> { double z[N], k[N], s;
    Bowl(Ctx& c) { for (int i = 0; i < N; ++i) { z[i] = c.u(-1, 1); k[i] = c.u(.3, 3); } s = c.u(-.2, .2); }
    Real operator()(const VectorN<Real, N>& x) const override { double v = 0; for (int i = 0; i < N; ++i) v += k[i] * (x[i] - z[i]) * (x[i] - z[i]) + s * x[i] * x[(i + 1) % N]; return cb(v); }
    void Gradient(const VectorN<Real, N>& x, VectorN<Real, N>& g) const override { tick(); for (int i = 0; i < N; ++i) g[i] = hv(2 * k[i] * (x[i] - z[i]) + s * (x[(i + 1) % N] + x[(i + N - 1) % N])); } };
static void mm(Ctx& c, const MultidimMinimizationResult& r) { c.claim(r.converged); if (r.converged) { c.finv(r.xmin, r.xmin.size()); c.fin(r.fmin); } c.o(r.xmin); c.o(r.fmin); c.o(r.iterations); c.o((int)r.status); c.o(r.error_message); c.o(r.function_evaluations); c.o(r.algorithm_name); }
template <int N> static VectorN<Real, N> st(Ctx& c) { VectorN<Real, N> v; for (int i = 0; i < N; ++i) v[i] = c.u(-2, 2); return v; }
OP("min.neldermead", CB | IT, 20000) { auto f = std::make_shared<Bowl<2>>(c); auto g = std::make_shared<Bowl<3>>(c); double e = std::pow(10.0, -c.i(3, 9)); int n = c.i(5, 400); auto s = std::make_shared<NelderMead>(e, n); return inst([=](Ctx& c) { auto v_f = via(c, f); auto v_g = via(c, g); auto v_s = via(c, s); c.budget(n + 12); switch (c.i(0, 2)) { case 0: mm(c, v_s->Minimize(*v_f, st<2>(c), c.u(.2, 2))); break; case 1: mm(c, v_s->Minimize(*v_g, st<3>(c), c.u(.2, 2))); break; default: { Vector<Real> d(2); d[0] = c.u(.2, 1); d[1] = c.u(.2, 1); mm(c, v_s->Minimize(*v_f, st<2>(c), d)); } } c.within(v_s->getNumFuncEvals(), n + 12); c.o(v_s->getNumFuncEvals()); c.o(v_s->getSimplex()); c.o(v_s->getSimplexValues()); }); }
OP("min.powell", CB | IT, 200000) { auto f = std::make_shared<Bowl<2>>(c); auto g = std::make_shared<Bowl<3>>(c); double e = std::pow(10.0, -c.i(3, 8)); int n = c.i(2, 40); auto s = std::make_shared<Powell>(e, n); return inst([=](Ctx& c) { auto v_f = via(c, f); auto v_g = via(c, g); auto v_s = via(c, s); if (c.b()) mm(c, v_s->Minimize(*v_f, st<2>(c))); else mm(c, v_s->Minimize(*v_g, st<3>(c))); c.within(v_s->getIterations(), n); c.o(v_s->getIterations()); c.o(v_s->getCurrentFValue()); }); }
OP("min.cg", CB | IT, 200000) { auto f = std::make_shared<Bowl<2>>(c); auto g = std::make_shared<Bowl<3>>(c); int n = c.i(2, 60); auto s = std::make_shared<ConjugateGradient>(1e-8, 1e-8, n, c.b() ? ConjugateGradient::Method::FletcherReeves : ConjugateGradient::Method::PolakRibiere); return inst([=](Ctx& c) { auto v_f = via(c, f); auto v_g = via(c, g); auto v_s = via(c, s); if (c.b()) mm(c, v_s->Minimize(*v_f, st<2>(c))); else mm(c, v_s->Minimize(*v_g, st<3>(c))); c.within(v_s->getIterations(), n); c.o(v_s->getIterations()); c.o(v_s->getCurrentFValue()); }); }
OP("min.bfgs", CB | IT, 200000) { auto f = std::make_shared<Bowl<2>>(c); auto g = std::make_shared<Bowl<3>>(c); int n = c.i(2, 80); auto s = std::make_shared<BFGS>(1e-9, 1e-8, n); return inst([=](Ctx& c) { auto v_f = via(c, f); auto v_g = via(c, g); auto v_s = via(c, s); if (c.b()) mm(c, v_s->Minimize(*v_f, st<2>(c))); else mm(c, v_s->Minimize(*v_g, st<3>(c))); c.within(v_s->getIterations(), n); c.o(v_s->getIterations()); c.o(v_s->getCurrentFValue()); }); }
OP("min.lbfgs", CB | IT, 200000) { auto f = std::make_shared<Bowl<2>>(c); auto g = std::make_shared<Bowl<4>>(c); int n = c.i(2, 80), m = c.i(1, 5); auto s = std::make_shared<LBFGS>(1e-9, 1e-8, n, m); return inst([=](Ctx& c) { auto v_f = via(c, f); auto v_g = via(c, g); auto v_s = via(c, s); if (c.b()) mm(c, v_s->Minimize(*v_f, st<2>(c))); else mm(c, v_s->Minimize(*v_g, st<4>(c))); c.within(v_s->getIterations(), n); c.o(v_s->getIterations()); c.o(v_s->getCurrentFValue()); }); }
OP("min.config", SH | CB | IT | TM, 300000) { auto f = std::make_shared<Bowl<2>>(c); return inst([=](Ctx& c) { auto v_f = via(c, f); MultidimOptimizationConfig k(std::pow(10.0, -c.i(3, 8)), c.i(3, 200)); auto x = st<2>(c); MultidimMinimizationResult r; switch (c.i(0, 5)) { case 0: r = NelderMeadMinimize(*v_f, x, k); break; case 1: r = PowellMinimize(*v_f, x, k); break; case 2: r = ConjugateGradientMinimize(*v_f, x, k); break; case 3: r = BFGSMinimize(*v_f, x, k); break; case 4: r = LBFGSMinimize(*v_f, x, k); break; default: { NegatedScalarFunction<2> n(*v_f); r = NelderMeadMaximize(n, x, k); } } c.within(r.iterations, k.max_iterations + 12); mm(c, r); if (r.converged) c.ms(r.elapsed_time_ms); }); }

static void pa(Ctx& c, const PointAnalysisResult& r) { c.o(r.x); c.o(r.value); c.o(r.isDefined); c.o(r.isContinuous); c.o(r.isDerivativeDefined); c.o(r.isInflectionPoint); c.o(r.derivative); c.o(r.secondDerivative); }
// the analyzer treats a throwing function as undefined at that point (documented), so it is not listed as forwarding callback exceptions
OP("analyze.function", SH) { F1 k = f1(c); double j = c.u(-.5, .5); bool jump = c.b(); auto f = std::make_shared<RealFunctionFromStdFunc>([=](Real x) { if (x > 2.5) throw std::domain_error("undefined here"); return cb(k.raw(x) + (jump && x > j ? 2 : 0)); });
    return inst([=](Ctx& c) { RealFunctionAnalyzer a(*f, "f"); double x = c.u(-2, 3); switch (c.i(0, 9)) { case 0: pa(c, a.AnalyzePoint(x)); break; case 1: { auto r = a.AnalyzeInterval(-2, 3, c.i(3, 40)); c.o(r.isDefinedEverywhere); c.o(r.isContinuousEverywhere); c.o(r.isMonotonic); c.o(r.minValue); c.o(r.maxValue); c.o(r.undefinedPoints); c.o(r.discontinuityPoints); break; } case 2: for (auto& p : a.AnalyzePoints(-1, 2, c.i(2, 9))) pa(c, p); break; case 3: c.o(a.isMonotonic(-2, 2, c.i(2, 30))); c.o(a.isDefinedAtPoint(x)); c.o(a.isContinuousAtPoint(x, 1e-5)); c.o(a.isLocalOptimum(x, 1e-4)); break; case 4: c.o(a.ComputeLeftLimit(j)); c.o(a.ComputeRightLimit(j)); break; case 5: { auto d = a.ClassifyDiscontinuity(j); c.o((int)d.type); c.o(d.jumpSize); break; } case 6: for (auto& d : a.FindDiscontinuities(-1, 1, c.i(5, 60))) { c.o(d.x); c.o((int)d.type); } break; case 7: c.o(a.MinInNPoints(-2, 2, c.i(2, 30))); c.o(a.MaxInNPoints(-2, 2, 9)); break; case 8: { auto v = a.GetLocalOptimumsClassified(-2, 2, 1e-3); for (auto& p : v) { c.o(p.x); c.o((int)p.type); c.o(p.value); } break; } default: c.o(a.GetRoots(-2, 2, 1e-4)); } }); }
OP("analyze.compare", SH | CB) { auto f = rf(c), g = rf(c); return inst([=](Ctx& c) { RealFunctionComparer k(*f, *g); int n = c.i(2, 30); switch (c.i(0, 6)) { case 0: c.o(k.getAbsDiffSum(-1, 1, n)); break; case 1: c.o(k.getAbsDiffAvg(-1, 1, n)); break; case 2: c.o(k.getAbsDiffMax(-1, 1, n)); break; case 3: c.o(k.getRelDiffAvg(-1, 1, n)); break; case 4: c.o(k.getRelDiffMax(-1, 1, n)); break; case 5: c.o(k.getIntegratedDiff(-1, 1, GAUSS10)); break; default: c.o(k.getIntegratedAbsDiff(-1, 1, GAUSS10)); c.o(k.getIntegratedSqrDiff(-1, 1, GAUSS10)); } }); }
