// interpolation, curve fitting, Chebyshev approximation, polynomials, orthogonal bases, extrapolation, curves
#include "fun.h"
#include "mml/base/Polynom.h"
#include "mml/base/InterpolatedFunction.h"
#include "mml/algorithms/CurveFitting.h"
#include "mml/algorithms/ChebyshevApproximation.h"
#include "mml/base/ChebyshevPolynom.h"
#include "mml/core/OrthogonalBasis.h"
#include "mml/core/OrthogonalBasis/ChebyshevBasis.h"
#include "mml/core/OrthogonalBasis/HermiteBasis.h"
#include "mml/core/OrthogonalBasis/LaguerreBasis.h"
#include "mml/core/OrthogonalBasis/LegendreBasis.h"
#include "mml/core/RichardsonExtrapolation.h"
#include "mml/core/Curves.h"
#include "mml/core/Surfaces.h"
#include "mml/base/StandardFunctions.h"
using namespace MML; using namespace cat;
template <class F> static void at(Ctx& c, const F& f, double lo, double hi) { for (int k = c.i(1, 4); k > 0; --k) { double x = c.u(lo, hi); c.o(x); c.o(f(x)); } }
OP("interp.linear", SH | HI) { int n = c.i(2, 9); auto x = grid(c, n, -1, 1); auto y = vec(c, n); auto f = std::make_shared<LinearInterpRealFunc>(x, y, c.b()); return inst([=](Ctx& c) { auto v_f = via(c, f); at(c, *v_f, -1.2, 1.2); auto g = *v_f; at(c, g, -1, 1); }); }
OP("interp.polynomial", SH | HI) { int n = c.i(2, 9), m = c.i(2, std::min(n, 5)); auto x = grid(c, n, -1, 1); auto y = vec(c, n); auto f = std::make_shared<PolynomInterpRealFunc>(x, y, m); return inst([=](Ctx& c) { auto v_f = via(c, f); at(c, *v_f, -1, 1); }); }
OP("interp.polynomial.error", HI) { int n = c.i(2, 9), m = c.i(1, std::min(n, 5)); auto x = grid(c, n, -1, 1); auto y = vec(c, n); auto f = std::make_shared<PolynomInterpRealFunc>(x, y, m); return inst([=](Ctx& c) { auto v_f = via(c, f); at(c, *v_f, -1, 1); c.o(v_f->getLastErrorEst()); auto g = *v_f; c.o(g.getLastErrorEst()); }); }
OP("interp.rational", SH | HI) { int n = c.i(2, 9), m = c.i(2, std::min(n, 4)); auto x = grid(c, n, -1, 1); auto y = vec(c, n); auto f = std::make_shared<RationalInterpRealFunc>(x, y, m); return inst([=](Ctx& c) { auto v_f = via(c, f); at(c, *v_f, -1, 1); c.o((*v_f)(x[c.i(0, n - 1)])); }); }
OP("interp.rational.error", HI) { int n = c.i(3, 9), m = c.i(1, 3); auto x = grid(c, n, -1, 1); auto y = vec(c, n); auto f = std::make_shared<RationalInterpRealFunc>(x, y, m); return inst([=](Ctx& c) { auto v_f = via(c, f); at(c, *v_f, -1, 1); c.o(v_f->getLastErrorEst()); c.o((*v_f)(x[c.i(0, n - 1)])); c.o(v_f->getLastErrorEst()); }); }
OP("interp.barycentric", SH | HI) { int n = c.i(4, 9); auto x = grid(c, n, -1, 1); auto y = vec(c, n); auto f = std::make_shared<BarycentricRationalInterp>(x, y, c.i(0, 3)); return inst([=](Ctx& c) { auto v_f = via(c, f); at(c, *v_f, -1, 1); c.o(v_f->getWeight(n - 1)); c.o((*v_f)(x[c.i(0, n - 1)])); auto g = *v_f; at(c, g, -1, 1); }); }
OP("interp.spline", SH | HI) { int n = c.i(3, 9); auto x = grid(c, n, -1, 1); auto y = vec(c, n); auto f = c.b() ? std::make_shared<SplineInterpRealFunc>(x, y) : std::make_shared<SplineInterpRealFunc>(x, y, c.u(), c.u()); return inst([=](Ctx& c) { auto v_f = via(c, f); at(c, *v_f, -1, 1); double a = c.u(-1, 0), b = c.u(0, 1); c.o(v_f->Derivative(a)); c.o(v_f->SecondDerivative(b)); c.o(v_f->Integrate(a, b)); c.o(v_f->GetSecondDerivative(n - 1)); auto g = *v_f; at(c, g, -1, 1); }); }
OP("interp.2d", SH | HI) { int n = c.i(3, 6), m = c.i(3, 6); auto x = grid(c, n, -1, 1), y = grid(c, m, 0, 2); auto z = std::make_shared<Matrix<Real>>(mat(c, n, m)); auto f = std::make_shared<BilinearInterp2D>(x, y, *z); auto g = std::make_shared<BicubicSplineInterp2D>(x, y, *z); return inst([=, keep = z](Ctx& c) { auto v_f = via(c, f); auto v_g = via(c, g); double a = c.u(-1, 1), b = c.u(0, 2); Real p, q, r; switch (c.i(0, 3)) { case 0: c.o((*v_f)(a, b)); break; case 1: v_f->interpWithDerivatives(a, b, p, q, r); c.o(p); c.o(q); c.o(r); break; case 2: c.o((*v_g)(a, b)); break; default: v_g->interpWithDerivatives(a, b, p, q, r); c.o(p); c.o(q); c.o(r); } }); }
OP("interp.2d.build", HI) { int n = c.i(3, 6), m = c.i(3, 6); auto x = grid(c, n, -1, 1), y = grid(c, m, 0, 2); auto z = mat(c, n, m); return inst([=](Ctx& c) { BicubicSplineInterp2D g(x, y, z); c.o(g(c.u(-1, 1), c.u(0, 2))); }); }
OP("interp.curve.linear", SH | HI) { int n = c.i(3, 8); auto p = mat(c, n, 3); auto f = std::make_shared<LinInterpParametricCurve<3>>(p, c.b()); return inst([=](Ctx& c) { auto v_f = via(c, f); at(c, *v_f, v_f->getMinT(), v_f->getMaxT()); auto g = *v_f; at(c, g, 0, 1); }); }
OP("interp.curve.spline", SH | HI) { int n = c.i(4, 8); auto p = mat(c, n, 2); bool cl = c.b(); auto f = std::make_shared<SplineInterpParametricCurve<2>>(p, cl); return inst([=](Ctx& c) { auto v_f = via(c, f); at(c, *v_f, 0, 1); }); }
OP("interp.curve.spline.copy", HI) { int n = c.i(4, 8); auto p = mat(c, n, 3); bool cl = c.b(); auto f = std::make_shared<SplineInterpParametricCurve<3>>(0.0, 2.0, p, cl); return inst([=](Ctx& c) { auto v_f = via(c, f); { SplineInterpParametricCurve<3> g(*v_f); at(c, g, 0, 1); SplineInterpParametricCurve<3> h(p, cl); h = g; at(c, h, 0, 1); std::vector<SplineInterpParametricCurve<3>> v; v.push_back(g); v.push_back(h); at(c, v[0], 0, 1); } at(c, *v_f, 0, 1); }); }

OP("fit.linear", SH | HI | TM) { int n = c.i(3, 9); auto x = grid(c, n, -1, 1); auto y = vec(c, n); return inst([=](Ctx& c) { Real a, b; c.o(LinearLeastSquares<Real>(x, y, a, b)); c.o(a); c.o(b); auto r = LinearLeastSquaresDetailed<Real>(x, y); c.o(r.a); c.o(r.residual_norm); c.o(r.r_squared); CurveFittingConfig k; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto d = LinearFitDetailed<Real>(x, y, k); ev(c, d); c.o(d.coefficients); c.o(d.r_squared); c.o(d.mean_squared_error); }); }
OP("fit.polynomial", SH | HI | IT | TM) { int n = c.i(5, 12); auto x = grid(c, n, -1, 1); auto y = vec(c, n); return inst([=](Ctx& c) { int d = c.i(1, 4); CurveFittingConfig k; k.check_finite = true; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = PolynomialFitDetailed<Real>(x, y, d, k); ev(c, r); if (r.IsSuccess()) c.finv(r.coefficients, r.coefficients.size()); c.o(r.coefficients); c.o(r.residual_norm); c.o(r.effective_rank); auto s = PolynomialFit<Real>(x, y, d); c.o(s.coefficients); c.o(s.condition_number); c.o(s.adjusted_r_squared); c.o(EvaluatePolynomial<Real>(0.3, s.coefficients)); }); }
OP("fit.general", SH | CB | IT | TM, 1000) { int n = c.i(5, 10); auto x = grid(c, n, -1, 1); auto y = vec(c, n); std::vector<F1> k; for (int i = c.i(1, 3); i > 0; --i) k.push_back(f1(c)); return inst([=](Ctx& c) { Vector<std::function<Real(Real)>> b((int)k.size()); for (int i = 0; i < (int)k.size(); ++i) b[i] = [q = k[i]](Real t) { return cb(q.raw(t)); }; CurveFittingConfig g; g.check_finite = true; g.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; if (c.b()) { auto r = GeneralLinearFitDetailed<Real>(x, y, b, g); ev(c, r); if (r.IsSuccess()) c.finv(r.coefficients, r.coefficients.size()); c.o(r.coefficients); c.o(r.residual_norm); } else { auto r = GeneralLinearLeastSquares<Real>(x, y, b); c.o(r.coefficients); c.o(r.effective_rank); c.o(r.evaluate(.3, b)); } }); }
OP("cheb.approx", SH | CB) { auto f = rf(c); int n = c.i(3, 20); auto a = std::make_shared<ChebyshevApproximation>(*f, -1, 1.5, n); return inst([=](Ctx& c) { auto v_a = via(c, a); switch (c.i(0, 6)) { case 0: at(c, *v_a, -1, 1.5); break; case 1: at(c, v_a->Derivative(), -1, 1.5); break; case 2: at(c, v_a->Integral(), -1, 1.5); break; case 3: { auto p = v_a->ToPolynomial(); c.o(p.coefficients()); break; } case 4: c.o(v_a->MaxError(*f, c.i(2, 40))); break; case 5: { auto b = *v_a; c.o(b.Truncate(1e-5)); at(c, b, -1, 1); b.SetNumTerms(2); at(c, b, -1, 1); ChebyshevApproximation m(std::move(b)); at(c, m, -1, 1); break; } default: { ChebyshevApproximation g([&](Real x) { return (*f)(x); }, 0, 1, c.i(2, 9)); at(c, g, 0, 1); c.o(g.Coefficients()); auto z = ChebyshevApproximation::FromPolynomial(PolynomReal({1, 2, 3}), -1, 1); c.o(z.Coefficients()); std::ostringstream o; z.PrintCoefficients(o); c.o(o.str()); } } }); }
OP("cheb.poly", SH) { return inst([=](Ctx& c) { int n = c.i(1, 12); c.o(ChebyshevT(n, c.u())); c.o(ChebyshevU(n, c.u())); c.o(ChebyshevRoots(n)); c.o(ChebyshevExtrema(n)); }); }
OP("poly.algebra", SH | HI) { int n = c.i(1, 6), m = c.i(1, 4); std::vector<Real> a(n + 1), b(m + 1); for (auto& x : a) x = c.in(c.u()); for (auto& x : b) x = c.in(c.u()); b[m] += 1.5; PolynomReal p(a), q(b); return inst([=](Ctx& c) { c.o((p + q).coefficients()); c.o((p - q * 2.0).coefficients()); c.o((p * q).coefficients()); PolynomReal d, r; PolynomReal::poldiv(p, q, d, r); c.o(d.coefficients()); c.o(r.coefficients()); c.o(p.derivative().coefficients()); c.o(p.integral().coefficients()); c.o(p(c.u())); PolynomReal k = p; Vector<Real> pd(4); k.Derive(c.u(), pd); c.o(pd); c.o(p.to_string(9, 3)); c.o(p == q); k.Reduce(); k.SetDegree(n + 1); c.o(k.coefficients()); PolynomReal z(std::move(k)); c.o(z.degree()); c.o(PolynomReal::FromValues(std::vector<Real>{0, 1, 2}, std::vector<Real>{1, 2, a[0]}).coefficients()); PolynomComplexRealCoef pc(a); c.o(pc(Complex(c.u(), c.u()))); Matrix2Polynom mp(a); MatrixNM<Real, 2, 2> M; M(0, 0) = .5; M(1, 1) = .2; c.o(mp(M)); std::ostringstream s; s << p; c.o(s.str()); }); }
template <class B> static void basis(Ctx& c, const B& b, double lo, double hi) { for (int k = 0; k < 3; ++k) { int n = c.i(0, 10); double x = c.u(lo, hi); c.o(b.Evaluate(n, x)); c.o(b.WeightFunction(x)); c.o(b.Normalization(n)); } c.o(b.DomainMin()); }
OP("basis.eval", SH) { return inst([=](Ctx& c) { switch (c.i(0, 8)) { case 0: { ChebyshevBasis b; basis(c, b, -.9, .9); c.o(b.GetZeros(c.i(1, 8))); c.o(b.GetExtrema(c.i(1, 8))); break; } case 1: { ChebyshevBasisSecondKind b; basis(c, b, -.9, .9); c.o(b.GetZeros(c.i(1, 8))); break; } case 2: { HermiteBasis b; basis(c, b, -2, 2); c.o(b.QuantumWavefunction(c.i(0, 6), c.u())); break; } case 3: basis(c, ProbabilistHermiteBasis(), -2, 2); break; case 4: basis(c, LaguerreBasis(), 0, 3); break; case 5: basis(c, AssociatedLaguerreBasis(.5), 0.1, 3); break; case 6: basis(c, LegendreBasis(), -1, 1); break; case 7: c.o(AssociatedLegendreBasis(c.i(0, 2)).Evaluate(c.i(2, 6), c.u())); break; default: { Real a, b, d; LegendreBasis().RecurrenceCoefficients(c.i(1, 5), a, b, d); c.o(a); c.o(b); c.o(d); } } }); }
OP("basis.coefficient", SH | CB) { auto f = rf(c); return inst([=](Ctx& c) { struct Few { int n = Defaults::TrapezoidIntegrationMaxSteps; Few() { Defaults::TrapezoidIntegrationMaxSteps = 10; } ~Few() { Defaults::TrapezoidIntegrationMaxSteps = n; } } few; if (c.b()) c.o(LegendreBasis().ComputeCoefficient(*f, c.i(0, 4), 1e-4)); else c.o(ChebyshevBasis().ComputeCoefficient(*f, c.i(0, 4), 1e-3)); }); }
OP("special.functions", SH) { return inst([=](Ctx& c) { double x = c.u(.1, 3); int n = c.i(0, 5); switch (c.i(0, 5)) { case 0: c.o(Functions::Legendre(n, c.u())); c.o(Functions::Hermite(n, x)); break; case 1: c.o(Functions::TGamma(x)); c.o(Functions::LGamma(x)); break; case 2: c.o(Functions::Erf(x)); c.o(Functions::Erfc(x)); break; case 3: c.o(Functions::Factorial(n)); break; case 4: c.o(Functions::Laguerre(n, x)); break; default: c.o(Functions::Sin(x)); c.o(Functions::Exp(Complex(x, 1))); } }); }
OP("richardson", CB | SH | IT, 100) { auto f = rf(c); return inst([=](Ctx& c) { if (c.b()) { int m = c.i(2, 10); auto r = Richardson::Extrapolate([&](Real h) { return (*f)(h); }, c.u(.1, 1), 1.4, m); c.within(r.iterations, m); c.claim(r.converged); if (r.converged) c.fin(r.value); c.o(r.value); c.o(r.error_estimate); c.o(r.iterations); } else { auto r = Richardson::NevilleExtrapolate({c.u(), c.u(), c.u()}, {.4, .2, .1}); c.o(r.value); c.o(r.error_estimate); } }); }
OP("curves.2d", SH) { return inst([=](Ctx& c) { std::unique_ptr<Curves::ICurveCartesian2D> k; switch (c.i(0, 6)) { case 0: k.reset(new Curves::Circle2DCurve(1.5)); break; case 1: k.reset(new Curves::LogSpiralCurve(-.3)); break; case 2: k.reset(new Curves::LemniscateCurve()); break; case 3: k.reset(new Curves::DeltoidCurve(2)); break; case 4: k.reset(new Curves::AstroidCurve(1.2)); break; case 5: k.reset(new Curves::EpitrochoidCurve(1, .4, 3)); break; default: k.reset(new Curves::ArchimedeanSpiralCurve(.4)); } double t = c.u(.3, 1.4); c.o((*k)(t)); c.o(k->getTangentUnit(t)); c.o(k->getNormal(t)); c.o(k->getCurvature(t)); c.o(k->getSignedCurvature(t)); }); }
static VectorN<Real, 3> cu3(Real t) { tick(); return VectorN<Real, 3>{hv(std::sin(t)), hv(t * t), hv(t)}; }
OP("curves.3d", SH | CB) { return inst([=](Ctx& c) { Curves::CurveCartesian3D k(0, 2, cu3); double t = c.u(.3, 1.4); switch (c.i(0, 5)) { case 0: c.o(k.getTangentUnit(t)); break; case 1: c.o(k.getNormal(t)); break; case 2: c.o(k.getBinormal(t)); break; case 3: c.o(k.getCurvature(t)); break; case 4: c.o(k.getTorsion(t)); break; default: { Curves::HelixCurve h(1, .3); c.o(h(t)); c.o(h.getCurvature(t)); Curves::ToroidalSpiralCurve q(3); c.o(q(t)); Curves::TwistedCubicCurve w; c.o(w.getTorsion(t)); } } }); }
OP("surfaces", SH | CB) { auto s = suf(c); return inst([=](Ctx& c) { Surfaces::MonkeySaddle k; Surfaces::Sphere b(1.5); double u = c.u(.2, 1), w = c.u(.2, 1); c.o(k(u, w)); c.o(b(u, w)); c.o(k.Normal(u, w)); { VectorN<Real, 3> a, b; k.Tangents(u, w, a, b); c.o(a); k.PrincipalDirections(u, w, a, b); c.o(b); } c.o(k.GaussianCurvature(u, w)); c.o(b.MeanCurvature(u, w)); c.o((*s)(u, w)); Real E, F, G; b.GetFirstNormalFormCoefficients(u, w, E, F, G); c.o(E); c.o(F); c.o(G); }); }
