// quadrature: one, two, three dimensions, adaptive, improper, Gaussian, Monte Carlo, path and surface integrals
#include "fun.h"
#include "mml/base/Geometry/Geometry3DBodies.h"
#include "mml/core/Integration.h"
#include "mml/core/Integration/GaussKronrod.h"
#include "mml/core/Integration/GaussianQuadrature.h"
#include "mml/core/Integration/Integration2DAdaptive.h"
#include "mml/core/Integration/Integration3DAdaptive.h"
#include "mml/core/Integration/IntegrationImproper.h"
#include "mml/core/Integration/MonteCarloIntegration.h"
#include "mml/core/Integration/PathIntegration.h"
#include "mml/core/Integration/SurfaceIntegration.h"
#include "mml/base/Geometry/Geometry3DBodies.h"
using namespace MML; using namespace cat; using namespace MML::Integration;
static void ir(Ctx& c, const IntegrationResult& r) { c.claim(r.converged); if (r.converged) c.fin(r.value); c.o(r.value); c.o(r.error_estimate); c.o(r.iterations); }
static void id(Ctx& c, const IntegrationDetailedResult& r) { ev(c, r); if (r.IsSuccess()) c.fin(r.value); c.o(r.value); c.o(r.error_estimate); c.o(r.iterations); c.o(r.converged); }
static IntegrationConfig conv() { IntegrationConfig k; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; return k; }
template <class R> static void ar(Ctx& c, const R& r) { c.claim(r.converged); if (r.converged) c.fin(r.value); c.o(r.value); c.o(r.error_estimate); c.o(r.function_evaluations); c.o(r.cells_subdivided); c.o(r.max_depth_reached); }

OP("int.simple", SH | CB | IT | SETT, 10000) { auto f = rf(c); return inst([=](Ctx& c) { Steps lim(c); double a = c.u(-1, 0), b = c.u(0.2, 1), e = std::pow(10.0, -c.i(3, 6)); switch (c.i(0, 3)) { case 0: ir(c, IntegrateTrap(*f, a, b, e)); break; case 1: ir(c, IntegrateSimpson(*f, a, b, e)); break; case 2: ir(c, IntegrateRomberg(*f, a, b, e)); break; default: ir(c, Integrate(*f, a, b, ROMBERG, e)); } }); }
OP("int.fixed", SH | CB) { auto f = rf(c); return inst([=](Ctx& c) { double a = c.u(-1, 0), b = c.u(0.2, 1); switch (c.i(0, 5)) { case 0: ir(c, IntegrateGauss10(*f, a, b)); break; case 1: ir(c, MML::IntegrateGK21(*f, a, b)); break; case 2: ir(c, IntegrateGaussLegendre(*f, a, b, c.i(2, 12))); break; case 3: ir(c, IntegrateGaussLaguerre(*f, c.i(2, 8))); ir(c, IntegrateGaussHermite(*f, c.i(2, 8))); break; case 4: ir(c, IntegrateGaussJacobi(*f, 0.3, 0.4, c.i(2, 8))); break; default: ir(c, IntegrateGaussChebyshev1(*f, c.i(2, 9))); ir(c, IntegrateGaussChebyshev2(*f, c.i(2, 9))); } }); }
OP("int.rules", SH | HI) { return inst([=](Ctx& c) { int n = c.i(1, 16); auto r = [&](const GaussQuadratureRule& q) { c.o(q.nodes); c.o(q.weights); }; switch (c.i(0, 5)) { case 0: r(GaussLegendreRule(n, -1, 2)); break; case 1: r(GaussLaguerreRule(n, 0.3)); break; case 2: r(GaussHermiteRule(n)); break; case 3: r(GaussJacobiRule(n, .2, .4)); break; case 4: r(GaussChebyshev1Rule(n)); break; default: r(GaussChebyshev2Rule(n)); } }); }
OP("int.detailed", SH | CB | TM | IT, 10000) { auto f = rf(c); return inst([=](Ctx& c) { Steps lim(c); double a = c.u(-1, 0), b = c.u(0.2, 1), e = std::pow(10.0, -c.i(3, 6)); auto k = conv(); switch (c.i(0, 13)) { case 0: id(c, IntegrateTrapDetailed(*f, a, b, k, e)); break; case 1: id(c, IntegrateSimpsonDetailed(*f, a, b, k, e)); break; case 2: id(c, IntegrateRombergDetailed(*f, a, b, k, e)); break; case 3: id(c, IntegrateGauss10Detailed(*f, a, b, k)); break; case 4: id(c, MML::IntegrateGK21Detailed(*f, a, b, k)); break; case 5: id(c, IntegrateGaussLegendreDetailed(*f, a, b, 8, k)); break; case 6: id(c, IntegrateOpenDetailed(*f, a, b, k, e)); break; case 7: id(c, IntegrateGaussHermiteDetailed(*f, 6, k)); break; case 8: id(c, IntegrateDetailed(*f, a, b, SIMPSON, k, e)); break; case 9: id(c, IntegrateGaussJacobiDetailed(*f, .3, .6, 6, k)); break; case 10: id(c, IntegrateGaussChebyshev1Detailed(*f, 6, k)); break; case 11: id(c, IntegrateGaussChebyshev2Detailed(*f, 6, k)); break; case 12: id(c, IntegrateInteriorSingularDetailed(*f, a, b, .1, k, 1e-5)); break; default: id(c, IntegrateGaussLaguerreDetailed(*f, 6, 0.0, k)); } }); }
OP("int.gk", SH | CB | IT, 1003000) { auto f = rf(c); return inst([=](Ctx& c) { double a = c.u(-1, 0), b = c.u(0.2, 1); auto g = [&](Real x) { return (*f)(x); }; auto r = [&](const GKResult& q) { c.o(q.value); c.o(q.error_estimate); c.o(q.function_evals); }; switch (c.i(0, 4)) { case 0: r(IntegrateGK15(g, a, b)); break; case 1: r(IntegrateGK21(g, a, b)); break; case 2: r(IntegrateGK31(g, a, b)); break; case 3: c.o(IntegrateGaussKronrod(g, a, b)); break; default: c.o(IntegrateGaussKronrod31(g, a, b)); } }); }
OP("int.gk.adaptive", SH | CB | IT, 200000) { auto f = rf(c); return inst([=](Ctx& c) { double a = c.u(-1, 0), b = c.u(0.2, 1); int d = c.i(3, 11), m = c.i(50, 4000); GKRule ru = (GKRule)c.i(0, 2); c.budget(std::min<long>(m + (d + 2) * 31L, (2L << d) * 31)); auto r = IntegrateGKAdaptive([&](Real x) { return (*f)(x); }, a, b, 1e-9, 1e-9, d, ru, m); c.claim(r.converged); if (r.converged) c.fin(r.value); c.o(r.value); c.o(r.error_estimate); c.o(r.function_evals); }); }
OP("int.gk.detailed", SH | CB | TM | IT, 200000) { auto f = rf(c); return inst([=](Ctx& c) { auto g = [&](Real x) { return (*f)(x); }; auto k = conv(); switch (c.i(0, 3)) { case 0: id(c, IntegrateGK15Detailed(g, -1, .5, k)); break; case 1: id(c, IntegrateGK21Detailed(g, -1, .5, k)); break; case 2: id(c, IntegrateGK31Detailed(g, -1, .5, k)); break; default: id(c, IntegrateGKAdaptiveDetailed(g, -1, .5, k, 1e-8, 1e-8, c.i(2, 10))); } }); }
OP("int.improper", SH | CB | IT | SETT, 20000) { F1 k = f1(c); auto f = std::make_shared<RealFunctionFromStdFunc>([k](Real x) { return cb((1 + k.a * std::sin(x)) * std::exp(-x * x)); }); auto s = std::make_shared<RealFunctionFromStdFunc>([k](Real x) { return cb(k.a + k.b * x); });
    return inst([=](Ctx& c) { Steps lim(c); double e = std::pow(10.0, -c.i(3, 5)); switch (c.i(0, 7)) { case 0: ir(c, IntegrateOpen(*s, -1, 1, e)); break; case 1: ir(c, IntegrateUpperInf(*f, 0.5, e)); break; case 2: ir(c, IntegrateLowerInf(*f, -0.5, e)); break; case 3: ir(c, IntegrateInf(*f, e)); break; case 4: ir(c, IntegrateInfSplit(*f, 0.3, e)); break; case 5: ir(c, IntegrateLowerSingular(*s, 0, 1, e)); break; case 6: ir(c, IntegrateUpperSingular(*s, 0, 1, e)); break; default: ir(c, IntegrateBothSingular(*s, 0, 1, e)); } }); }
OP("int.improper.detailed", SH | CB | IT | TM, 20000) { F1 k = f1(c); auto f = std::make_shared<RealFunctionFromStdFunc>([k](Real x) { return cb((1 + k.a * std::sin(x)) * std::exp(-x * x)); });
    return inst([=](Ctx& c) { Steps lim(c); double e = 1e-4; auto q = conv(); switch (c.i(0, 5)) { case 0: id(c, IntegrateUpperInfDetailed(*f, 0.5, q, e)); break; case 1: id(c, IntegrateLowerInfDetailed(*f, 0, q, e)); break; case 2: id(c, IntegrateInfDetailed(*f, q, e)); break; case 3: id(c, IntegrateInfSplitDetailed(*f, .2, q, e)); break; case 4: id(c, IntegrateLowerSingularDetailed(*f, 0, 1, q, e)); break; default: id(c, IntegrateInteriorSingularDetailed(*f, 0, 1, .4, q, e)); } }); }
static Real yl(Real x) { return -1 - 0.1 * x; } static Real yh(Real x) { return 1 + 0.2 * x; } static Real zl(Real x, Real y) { return -0.5 + 0.1 * x * y; } static Real zh(Real x, Real y) { return 0.5 + 0.1 * x; }
OP("int.2d", SH | CB | SETT) { auto f = sf<2>(c); return inst([=](Ctx& c) { auto m = c.b() ? GAUSS10 : GAUSS10; ir(c, Integrate2D(*f, m, -1, 0.5, yl, yh)); if (c.i(0, 3) == 0) { auto r = Integrate2DDetailed(*f, GAUSS10, -1, .5, yl, yh); id(c, r); } }); }
OP("int.3d", SH | CB | SLOW) { auto f = sf<3>(c); return inst([=](Ctx& c) { if (c.b()) ir(c, Integrate3D(*f, -.5, 0.5, yl, yh, zl, zh)); else id(c, Integrate3DDetailed(*f, GAUSS10, -.5, 0.5, yl, yh, zl, zh)); }); }
OP("int.2d.adaptive", SH | CB | IT, 60000) { auto f = sf<2>(c); return inst([=](Ctx& c) { AdaptiveConfig2D k; k.max_depth = c.i(1, 4); k.max_evaluations = c.i(500, 20000); c.budget(k.max_evaluations + 4500L * k.max_depth); k.tol_abs = 1e-6; ar(c, IntegrateAdaptive2D([&](Real x, Real y) { return (*f)(VectorN<Real, 2>{x, y}); }, -1, 1, -1, .5, k)); }); }
OP("int.3d.adaptive", SH | CB | IT | SLOW, 200000) { auto f = sf<3>(c); return inst([=](Ctx& c) { AdaptiveConfig3D k; k.max_depth = c.i(1, 2); k.max_evaluations = c.i(4000, 30000); k.tol_abs = 1e-4; ar(c, IntegrateAdaptive3D([&](Real x, Real y, Real z) { return (*f)(VectorN<Real, 3>{x, y, z}); }, -1, 1, -1, .5, 0, 1, k)); }); }
OP("int.adaptive.detailed", SH | CB | TM | IT | SLOW, 200000) { auto f = sf<2>(c); return inst([=](Ctx& c) { auto k = conv(); id(c, IntegrateAdaptive2DDetailed([&](Real x, Real y) { return (*f)(VectorN<Real, 2>{x, y}); }, -1, 1, -1, .5, k, 1e-6, 4, 10000)); }); }
template <class R> static void mc(Ctx& c, const R& r) { c.claim(r.IsSuccess()); c.o(r.value); c.o(r.error_estimate); c.o(r.variance); c.o(r.samples_used); c.o(r.converged); if (r.IsSuccess()) { c.fin(r.value); c.fin(r.error_estimate); } }
OP("int.mc", CB | IT, 4000) { auto f = sf<2>(c); auto I = std::make_shared<MonteCarloIntegrator<2>>(c.i(1, 99)); return inst([=](Ctx& c) { auto v_I = via(c, I); MonteCarloConfig k; k.num_samples = c.i(20, 600); k.seed = c.i(1, 1000); k.use_antithetic = c.b(); auto lo = vecn<2>(c, -2, -1), hi = vecn<2>(c, 0, 1); mc(c, v_I->integrate(*f, lo, hi, k)); }); }
OP("int.mc.1d", SH | CB | IT, 4000) { auto f = rf(c); return inst([=](Ctx& c) { MonteCarloConfig k; k.num_samples = c.i(20, 600); k.seed = c.i(1, 1000); mc(c, IntegrateMonteCarlo1D(*f, -1, .5, k)); }); }
OP("int.mc.stratified", CB | IT, 4000) { auto f = sf<2>(c); auto I = std::make_shared<StratifiedMonteCarloIntegrator<2>>(c.i(1, 99)); return inst([=](Ctx& c) { auto v_I = via(c, I); auto lo = vecn<2>(c, -2, -1), hi = vecn<2>(c, 0, 1); mc(c, v_I->integrate(*f, lo, hi, c.i(2, 6), c.i(2, 9), (unsigned)c.i(1, 1000))); }); }
OP("int.mc.volume", CB) { auto I = std::make_shared<HitOrMissIntegrator<3>>(c.i(1, 99)); return inst([=](Ctx& c) { auto v_I = via(c, I); double R = c.u(0.3, 1); mc(c, v_I->estimateVolume([R](const VectorN<Real, 3>& x) { tick(); return x[0] * x[0] + x[1] * x[1] + x[2] * x[2] < R; }, VectorN<Real, 3>{-1, -1, -1}, VectorN<Real, 3>{1, 1, 1}, c.i(20, 400), (unsigned)c.i(1, 1000))); mc(c, EstimatePi(c.i(10, 200), 7)); mc(c, EstimateUnitBallVolume<4>(c.i(10, 200), 9)); }); }
OP("int.path", SH | CB | SETT) { auto cu = cf<3>(c, 0, 1); auto f = sf<3>(c); auto g = vf<3>(c); auto d = rf(c); return inst([=](Ctx& c) { double a = c.u(0, .3), b = c.u(.5, 1); switch (c.i(0, 3)) { case 0: ir(c, PathIntegration::ParametricCurveLength<3>(*cu, a, b)); break; case 1: ir(c, PathIntegration::ParametricCurveMass<3>(*cu, *d, a, b)); break; case 2: ir(c, PathIntegration::LineIntegral(*f, *cu, a, b, 1e-3)); break; default: ir(c, PathIntegration::LineIntegral(*g, *cu, a, b, 1e-3)); } }); }
OP("int.surface", SH | CB | SLOW) { auto g = vf<3>(c); auto s = suf(c); auto B = std::make_shared<Cube3D>(c.u(0.5, 2), Pnt3Cart(0, .1, .2)); auto T = std::make_shared<Pyramid3D>(1.0, 2.0); return inst([=](Ctx& c) { auto v_B = via(c, B); auto v_T = via(c, T); switch (c.i(0, 2)) { case 0: ir(c, SurfaceIntegration::SurfaceIntegral(*g, *s, -1, 1, -1, 1, c.i(3, 8), c.i(3, 8))); break; case 1: ir(c, SurfaceIntegration::SurfaceIntegral(*g, *v_B, 0.1)); break; default: ir(c, SurfaceIntegration::SurfaceIntegral(*g, *v_T, 0.1)); } }); }
