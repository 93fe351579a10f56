// systems given by function pointers, configuration presets, definiteness, iterated QR steps, banded arithmetic, coordinate-system
// field operations, frames, shapes, value types and the remaining constructions of geometry
#include "fun.h"
#include "mml/base/ODESystem.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/base/DAESystem.h"
#include "mml/base/Quaternions.h"
#include "mml/base/Intervals.h"
#include "mml/base/Tensor.h"
#include "mml/base/Vector/VectorTypes.h"
#include "mml/base/Matrix/MatrixSym.h"
#include "mml/base/Matrix/MatrixBandDiag.h"
#include "mml/base/Geometry/Geometry2D.h"
#include "mml/base/Geometry/Geometry3D.h"
#include "mml/base/Geometry/Geometry3DBodies.h"
#include "mml/base/Geometry/GeometrySpherical.h"
#include "mml/base/BaseUtils/AngleCoordUtils.h"
#include "mml/base/BaseUtils/SymbolUtils.h"
#include "mml/base/BaseUtils/VectorOps.h"
#include "mml/algorithms/ODESolvers.h"
#include "mml/algorithms/ODESolvers/BVPShootingMethod.h"
#include "mml/algorithms/DAESolvers.h"
#include "mml/algorithms/FunctionsAnalyzer.h"
#include "mml/algorithms/MatrixAlg.h"
#include "mml/algorithms/EigenSystemSolvers.h"
#include "mml/algorithms/EigenSolverHelpers.h"
#include "mml/algorithms/Fourier.h"
#include "mml/algorithms/Optimization.h"
#include "mml/algorithms/OptimizationMultidim.h"
#include "mml/algorithms/ChebyshevApproximation.h"
#include "mml/algorithms/ComputationalGeometry.h"
#include "mml/algorithms/CompGeometry/KDTree.h"
#include "mml/algorithms/Statistics/Distributions.h"
#include "mml/core/CoordSystem.h"
#include "mml/core/CoordTransf.h"
#include "mml/core/CoordTransf/CoordTransf2D.h"
#include "mml/core/CoordTransf/CoordTransf3D.h"
#include "mml/core/CoordTransf/CoordTransfSpherical.h"
#include "mml/core/CoordTransf/CoordTransfCylindrical.h"
#include "mml/core/FieldOperations.h"
#include "mml/core/Fields.h"
#include "mml/core/Curves.h"
#include "mml/core/Surfaces.h"
#include "mml/core/MetricTensor.h"
#include "mml/core/Integration.h"
#include "mml/core/Integration/IntegrationImproper.h"
#include "mml/core/Integration/Integration2DAdaptive.h"
#include "mml/core/Integration/Integration3DAdaptive.h"
#include "mml/core/LinAlgEqSolvers.h"
#include "mml/core/RichardsonExtrapolation.h"
#include "mml/core/NumericValidation.h"
#include "mml/core/OrthogonalBasis.h"
#include "mml/core/OrthogonalBasis/ChebyshevBasis.h"
#include "mml/core/OrthogonalBasis/HermiteBasis.h"
#include "mml/core/OrthogonalBasis/LaguerreBasis.h"
#include "mml/systems/DiscreteMaps.h"
using namespace MML; using namespace cat;
template <class F> static void gt(Ctx& c, F f) { try { f(); } catch (const MMLException& e) { auto* s = dynamic_cast<const std::exception*>(&e); c.o(s ? s->what() : "?"); } catch (const std::invalid_argument& e) { c.o(e.what()); } catch (const std::domain_error& e) { c.o(e.what()); } }
static Vector<Real> start(Ctx& c, int n) { Vector<Real> x(n); for (int i = 0; i < n; ++i) x[i] = c.u(-1, 1); return x; }
static void sol(Ctx& c, const ODESystemSolution& s) { c.o(s.size()); for (int k = 0; k < s.size(); k += s.size() > 8 ? s.size() / 4 : 1) { c.o(s.getTValue(k)); for (int i = 0; i < s.getSysDim(); ++i) c.o(s.getXValue(k, i)); } c.o(s.getNumStepsOK()); }
static void P(Ctx& c, const Pnt3Cart& p) { c.o(p.X()); c.o(p.Y()); c.o(p.Z()); }
static void P(Ctx& c, const Pnt2Cart& p) { c.o(p.X()); c.o(p.Y()); }
static Pnt3Cart p3(Ctx& c) { return Pnt3Cart(c.in(c.u()), c.in(c.u()), c.in(c.u())); }
static Pnt2Cart p2(Ctx& c) { return Pnt2Cart(c.in(c.u()), c.in(c.u())); }
static Vec3Cart v3(Ctx& c) { return Vec3Cart(c.in(c.u()), c.in(c.u()), c.in(c.u(.2, 1))); }

// ---- systems given by plain function pointers
static void osc(Real t, const Vector<Real>& x, Vector<Real>& d) { tick(); d[0] = hv(x[1]); d[1] = hv(-x[0] - .2 * x[1] + .3 * std::cos(t)); }
static void oscj(const Real t, const Vector<Real>& x, Vector<Real>& d, Matrix<Real>& J) { osc(t, x, d); J(0, 0) = 0; J(0, 1) = hv(1); J(1, 0) = hv(-1); J(1, 1) = hv(-.2); }
OP("ode.pointers", SH | CB) { auto s = std::make_shared<ODESystem>(2, osc); auto j = std::make_shared<ODESystemWithJacobian>(2, osc, oscj); return inst([=](Ctx& c) { auto x = start(c, 2); double e = c.u(.2, 1.5); switch (c.i(0, 4)) {
    case 0: { DormandPrince5Integrator in(*s); sol(c, in.integrate(x, 0, e, .1, 1e-7)); break; } case 1: { ODESystemFixedStepSolver f(*j, StepCalculators::RK4_Basic); sol(c, f.integrate(x, 0, e, c.i(3, 20))); break; }
    case 2: { Vector<Real> d(2); Matrix<Real> J(2, 2); j->jacobian(e, x, d, J); c.o(d); c.o(J); (*s)(e, x, d); c.o(d); break; } case 3: { ODESystem z; Vector<Real> d(2); try { z.derivs(0, x, d); c.o(0); } catch (const std::runtime_error&) { c.o(1); } break; }
    default: { ODESystemWithJacobianFromStdFunc q(2, osc, oscj); sol(c, c.b() ? SolveBackwardEuler(q, 0, x, e, .1, 20) : SolveBDF2(q, 0, x, e, .1, 20)); } } }); }
static void daef(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& d) { tick(); d[0] = hv(-x[0] + .5 * y[0] + std::sin(t)); }
static void daeg(Real, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& g) { tick(); g[0] = hv(y[0] * (1.5 + .1 * y[0]) - .4 * x[0] - .3); }
static void dfx(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& m) { tick(); m(0, 0) = hv(-1); }
static void dfy(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& m) { m(0, 0) = hv(.5); }
static void dgx(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& m) { m(0, 0) = hv(-.4); }
static void dgy(Real, const Vector<Real>&, const Vector<Real>& y, Matrix<Real>& m) { m(0, 0) = hv(1.5 + .2 * y[0]); }
OP("dae.pointers", SH | CB) { auto s = std::make_shared<DAESystemWithJacobian>(1, 1, daef, daeg, dfx, dfy, dgx, dgy); return inst([=](Ctx& c) { Vector<Real> x{c.u()}, y{c.u(0, .5)}, d(1), g(1); Matrix<Real> m(1, 1); s->diffEqs(.1, x, y, d); s->algConstraints(.1, x, y, g); c.o(d); c.o(g); s->jacobian_fx(0, x, y, m); c.o(m); s->jacobian_fy(0, x, y, m); c.o(m); s->jacobian_gx(0, x, y, m); c.o(m); s->jacobian_gy(0, x, y, m); c.o(m); c.o(s->getDiffVarName(0)); c.o(s->getAlgVarName(0));
    gt(c, [&] { DAESystem n(1, 1, daef, nullptr); }); DAESystem e; c.o(e.getDiffDim()); }); }
OP("dae.solution", HI) { int nd = c.i(1, 3), na = c.i(1, 2), cap = c.i(0, 6); return inst([=](Ctx& c) { DAESolution s(0, 1, nd, na, cap); for (int q = 0, n = c.i(1, 20); q < n; ++q) gt(c, [&] { switch (c.i(0, 4)) {
    case 0: s.fillValues(s.size(), c.u(), vec(c, nd), vec(c, na)); break; case 1: { double t = c.u(); int k = c.i(0, 12); s.setTVal(k, t); break; } case 2: { int k = c.i(0, 9), i = c.i(0, nd); s.setXVal(k, i, c.u()); break; } case 3: { int k = c.i(0, 9), i = c.i(0, na); s.setYVal(k, i, c.u()); break; } default: s.incrementSuccessfulSteps(); } });
    c.o(s.size()); c.o(s.getTValues()); c.o(s.getXValues()); c.o(s.getYValues()); gt(c, [&] { c.o(s.getXValues(0)); c.o(s.getYValues(0)); c.o(s.getXValuesAtEnd()); }); c.o(s.getNumSteps()); }); }

// ---- configuration presets
template <class K> static void km(Ctx& c, const K& k) { c.o(k.tolerance); c.o(k.max_iterations); }
OP("presets", SH | CB | SLOW) { auto s = std::make_shared<ODESystemFromStdFunc>(2, osc); auto f = rf(c); return inst([=](Ctx& c) { gt(c, [&] { auto x = start(c, 2); switch (c.i(0, 7)) {
    case 0: { auto k = c.b() ? ODEIntegratorConfig::HighPrecision() : c.b() ? ODEIntegratorConfig::Fast() : ODEIntegratorConfig::Stiff(); DormandPrince5Integrator in(*s); auto r = in.integrate(x, 0, .6, k); sol(c, r); c.o(in.getStatistics().acceptanceRate()); c.o(in.getStatistics().totalSteps()); break; }
    case 1: { auto k = c.b() ? StiffSolverConfig::HighPrecision() : StiffSolverConfig::Fast(); k.step_size = .1; ODESystemWithJacobianFromStdFunc q(2, osc, oscj); auto r = c.b() ? SolveBackwardEuler(q, 0, x, .5, k) : SolveBDF2(q, 0, x, .5, k); c.claim(r.status == AlgorithmStatus::Success); sol(c, r.solution); break; }
    case 2: { auto k = c.b() ? Minimization1DConfig::HighPrecision() : Minimization1DConfig::Fast(); km(c, k); RealFunctionFromStdFunc g([=](Real t) { return cb(t * t + .1 * std::sin(3 * t)); }); auto r = Minimization::GoldenSectionSearch(g, -1, 1, k); c.o(r.xmin); c.o(r.fmin); c.o(r.iterations); c.o((*f)(r.xmin)); break; }
    case 3: { auto k = c.b() ? EigenSolverConfig::HighPrecision() : EigenSolverConfig::Fast(); km(c, k); auto r = SymmMatEigenSolverJacobi::Solve(symm(c, 3), k); c.o(r.eigenvalues); break; }
    case 4: { auto k = c.b() ? IterativeSolverConfig::HighPrecision() : c.b() ? IterativeSolverConfig::Fast() : IterativeSolverConfig::SOR(c.u(1, 1.5)); km(c, k); auto r = SORSolver::Solve(dd(c, 3), vec(c, 3), k); c.o(r.solution); c.o(r.iterations); break; }
    case 5: { auto k = c.b() ? BVPSolverConfig::HighPrecision() : BVPSolverConfig::Fast(); km(c, k); k.num_integration_steps = 20; BVPShootingSolverND<> b(*s, k); ShootingConfig h; h.unknownIndices.push_back(1); h.unknownGuesses.push_back(c.u()); h.targetIndices.push_back(0); h.targetValues.push_back(c.u()); Vector<Real> x0{c.u(), 0}; auto r = b.solve(0, 1, x0, h); c.claim(r.converged); c.o((int)r.failureReason); c.o(r.getFailureDescription()); c.o(r.iterations); break; }
    case 6: { auto k = c.b() ? DAESolverConfig::HighPrecision() : DAESolverConfig::Fast(); k.step_size = .1; struct DA : IODESystemDAEWithJacobian { int getDiffDim() const override { return 1; } int getAlgDim() const override { return 1; } void diffEqs(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& d) const override { daef(t, x, y, d); } void algConstraints(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& g) const override { daeg(t, x, y, g); } void jacobian_fx(Real t, const Vector<Real>& x, const Vector<Real>& y, Matrix<Real>& m) const override { dfx(t, x, y, m); } void jacobian_fy(Real t, const Vector<Real>& x, const Vector<Real>& y, Matrix<Real>& m) const override { dfy(t, x, y, m); } void jacobian_gx(Real t, const Vector<Real>& x, const Vector<Real>& y, Matrix<Real>& m) const override { dgx(t, x, y, m); } void jacobian_gy(Real t, const Vector<Real>& x, const Vector<Real>& y, Matrix<Real>& m) const override { dgy(t, x, y, m); } } da;
        Vector<Real> a{c.u()}, b{c.u(0, .5)}; auto r = SolveDAEBackwardEuler(da, 0, a, b, .5, k); c.claim(r.status == AlgorithmStatus::Success); c.o((int)r.status); c.o(r.solution.size()); if (r.solution.size()) c.o(r.solution.getXValuesAtEnd()); break; }
    default: { auto k = c.b() ? Optimization::MultidimOptimizationConfig::HighPrecision() : c.b() ? Optimization::MultidimOptimizationConfig::Fast() : Optimization::MultidimOptimizationConfig::LargeScale(c.i(2, 9)); km(c, k); } } }); }); }

// ---- linear algebra
OP("matrix.definite", SH) { int n = c.i(1, 4); auto a = c.b() ? spd(c, n) : symm(c, n); if (c.b()) a = a * -1.0; return inst([=](Ctx& c) { MatrixSym<Real> s(n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) s(i, j) = a(i, j); gt(c, [&] { using namespace MatrixAlg; switch (c.i(0, 4)) {
    case 0: c.o(IsPositiveDefinite(a)); c.o(IsPositiveDefinite(s)); break; case 1: c.o(IsPositiveSemiDefinite(a)); c.o(IsPositiveSemiDefinite(s)); break; case 2: c.o(IsNegativeDefinite(a)); c.o(IsNegativeDefinite(s)); break; case 3: c.o(IsNegativeSemiDefinite(a)); c.o(IsNegativeSemiDefinite(s)); break; default: c.o(IsIndefinite(s)); c.o(s.IsEqualTo(s)); auto r = SymmMatEigenSolverQR::Solve(a); c.o(r.eigenvalues); } }); }); }
OP("eigen.qrsteps", HI) { int n = c.i(3, 6); auto a = mat(c, n, n); for (int i = 0; i < n; ++i) for (int j = 0; j + 1 < i; ++j) a(i, j) = 0; return inst([=](Ctx& c) { auto h = a; int it = c.i(1, 12); if (c.b()) c.o(EigenSolverHelpers::MultipleQRSteps(h, it)); else c.o(EigenSolverHelpers::MultipleDoubleShiftSteps(h, 0, n - 1, it)); c.o(h); }); }
OP("band.arith", SH | HI) { int n = c.i(3, 7), m1 = c.i(1, 2), m2 = c.i(1, 2); auto mk = [&] { Matrix<Real> d(n, m1 + m2 + 1); for (int i = 0; i < n; ++i) for (int j = 0; j <= m1 + m2; ++j) d(i, j) = c.in(c.u()) + (j == m1 ? 5 : 0); return BandDiagonalMatrix(n, m1, m2, d); }; auto A = mk(), B = mk(); return inst([=](Ctx& c) { double k = c.u(.5, 2); auto C = A; switch (c.i(0, 4)) {
    case 0: c.o((A * k).ToFullMatrix()); c.o((A / k).ToFullMatrix()); c.o((-A).ToFullMatrix()); break; case 1: c.o((A - B).ToFullMatrix()); C += B; C /= k; c.o(C.ToFullMatrix()); break; case 2: c.o(A.IsEqualTo(B)); c.o(A.IsEqualTo(A)); c.o(A.GetDiagonal()); break;
    case 3: C(1, 1) = k; c.o(C.ToFullMatrix()); break; default: { BandDiagonalSolver s(A); c.o(s.Solve(mat(c, n, 2))); } } }); }
OP("iter.omega", SH) { int n = c.i(2, 4); auto a = dd(c, n); auto b = vec(c, n); return inst([=](Ctx& c) { c.o(SORSolver::EstimateOptimalOmega(a, b, c.i(1, 5), c.i(1, 10))); }); }
OP("dct.verify", SH | HI) { auto v = vec(c, c.b() ? 8 : c.i(2, 9)); return inst([=](Ctx& c) { c.o(Fourier::DCT::VerifyRoundTrip(v)); c.o(Fourier::DCT::VerifyFastMatchesReference(v)); c.o(Fourier::DFT::IsReasonableSize(v.size())); gt(c, [&] { Fourier::FourierValidation::ValidatePositiveSize(c.i(-1, 2), "n", "f"); Fourier::FourierValidation::ValidateWindowMatch(v.size(), c.i(2, 9), "f"); }); }); }
OP("cheb.more", SH | CB) { auto f = rf(c); ChebyshevApproximation a([f](Real x) { return (*f)(x); }, -1, 1, c.i(3, 12)); return inst([=](Ctx& c) { c.o(a.MaxError([f](Real x) { return (*f)(x); }, c.i(2, 20))); gt(c, [&] { c.o(a.Coefficient(c.i(0, 13))); }); }); }

// ---- functions and quadrature
OP("fn.analyzer.more", SLOW) { auto f = rf(c); auto a = std::make_shared<RealFunctionAnalyzer>(*f); return inst([=](Ctx& c) { double h = c.u(.2, 2); c.o((*f)(h)); switch (c.i(0, 3)) { case 0: c.o(a->GetLocalOptimums(-h, h)); break; case 1: c.o(a->GetInflectionPoints(-h, h)); break; case 2: { std::vector<Real> d; c.o(a->isContinuous(-h, h, c.i(2, 20), 1e-6, &d)); c.o(d); break; } default: RealFunctionFromStdFunc s([](Real t) { return std::sin(4 * t) + .1; }); RealFunctionAnalyzer b(s); c.o(b.calcRootsPeriod(-h, h + 1, c.i(3, 60))); } }); }
static Real zl(Real, Real) { return -.5; } static Real zh(Real x, Real) { return .5 + .1 * x; } static Real yl(Real) { return -1; } static Real yh(Real x) { return 1 - .2 * x; }
OP("int.more", SH | CB | TM) { auto f = rf(c); auto g = sf<3>(c); return inst([=](Ctx& c) { IntegrationConfig k; k.exception_policy = EvaluationExceptionPolicy::Propagate; switch (c.i(0, 4)) {
    case 0: { auto r = Integrate3DDetailed(*g, -1, 1, yl, yh, zl, zh, k); ev(c, r); c.o(r.value); break; } case 1: { Steps s(c); auto r = IntegrateUpperSingularDetailed(*f, 0, 1, k, 1e-5); ev(c, r); c.o(r.value); break; } case 2: { Steps s(c); auto r = IntegrateBothSingularDetailed(*f, 0, 1, k, 1e-5); ev(c, r); c.o(r.value); break; }
    case 3: { Integration::AdaptiveResult2D a(c.u(), c.u(), 3, 2, 1, true), b(c.u(), c.u(), 5, 1, 4, c.b()); auto r = a + b; c.o(r.value); c.o(r.converged); c.o(r.function_evaluations); c.o(r.max_depth_reached); break; } default: { Integration::AdaptiveResult3D a(c.u(), c.u(), 3, 2, 1, true), b(c.u(), c.u(), 5, 1, 4, c.b()); auto r = a + b; c.o(r.value); c.o(r.converged); c.o(r.cells_subdivided); } } }); }
OP("fn.tabulate", SH | CB) { auto f = rf(c); auto v = vf<3>(c); return inst([=](Ctx& c) { Vector<Real> X, Y; int n = c.i(2, 9); X.Resize(n); Y.Resize(n); f->GetValues(-1, c.u(0, 2), n, X, Y); c.o(X); c.o(Y); c.o((*v)(vecn<3>(c))); }); }
OP("validate", NOTH) { return inst([=](Ctx& c) { static const double t[] = {0, 1, -1, 1e-9, NAN, INFINITY, -INFINITY}; double a = t[c.i(0, 6)], b = t[c.i(0, 6)]; switch (c.i(0, 4)) { case 0: gt(c, [&] { ValidateFinite(a, "x"); c.o(1); }); break; case 1: gt(c, [&] { ValidateBounds(a, b, "f"); c.o(2); }); break; case 2: gt(c, [&] { ValidateTolerance(a, "f"); c.o(3); }); break; case 3: gt(c, [&] { ValidateFunctionValue(a, "f"); c.o(4); }); break; default: gt(c, [&] { ValidateMaxIterations(c.i(-2, 2)); c.o(5); }); }
    c.o(Richardson::SimpleExtrapolate(c.u(), c.u(), 2, 2)); c.o(Richardson::SimpleErrorEstimate(c.u(), c.u(), 2, 2)); }); }

// ---- field operations in curvilinear coordinates, with diagnostics
template <class R> static void fr(Ctx& c, const R& r) { ev(c, r); for (int i = 0; i < 3; ++i) { c.o(r.value[i]); c.o(r.error[i]); } }
template <class R> static void fs(Ctx& c, const R& r) { ev(c, r); c.o(r.value); c.o(r.error); }
OP("field.curvilinear.detailed", SH | CB | TM) { auto f = sf<3>(c); auto v = vf<3>(c); return inst([=](Ctx& c) { FieldOperationConfig k; k.exception_policy = EvaluationExceptionPolicy::Propagate; k.estimate_error = c.b(); static const int od[] = {0, 1, 2, 4, 6, 8}; k.derivative_order = od[c.i(0, 5)]; Vec3Sph s(c.u(.3, 2), c.u(.3, 2.5), c.u(0, 3)); Vec3Cyl y(c.u(.3, 2), c.u(0, 3), c.u()); VectorN<Real, 3> x{s[0], s[1], s[2]}; int d = 1 << c.i(0, 3);
    switch (c.i(0, 9)) { case 0: fr(c, ScalarFieldOperations::GradientSpherDetailed(*f, s, k)); break; case 1: fr(c, ScalarFieldOperations::GradientCylDetailed(*f, y, k)); break; case 2: fs(c, ScalarFieldOperations::LaplacianSpherDetailed(*f, s, k)); break; case 3: fs(c, ScalarFieldOperations::LaplacianCylDetailed(*f, y, k)); break; case 4: fs(c, VectorFieldOperations::DivCylDetailed(*v, x, k)); break;
    case 5: fr(c, VectorFieldOperations::CurlSpherDetailed(*v, x, k)); break; case 6: fr(c, VectorFieldOperations::CurlCylDetailed(*v, x, k)); break; case 7: c.o(ScalarFieldOperations::GradientSpher(*f, s, d)); break; case 8: c.o(ScalarFieldOperations::GradientCyl(*f, y, d)); break; default: fs(c, VectorFieldOperations::DivSpherDetailed(*v, x, k)); fr(c, VectorFieldOperations::CurlCartDetailed(*v, x, k)); } }); }
OP("field.classes.more", SH) { return inst([=](Ctx& c) { using namespace Fields; VectorN<Real, 3> x{c.u(.2, 1), c.u(.2, 1), c.u(.2, 1)}, d{0, 0, 1}; double k = c.u(.5, 2); switch (c.i(0, 3)) { case 0: c.o(InverseRadialPotentialForceFieldCart(k, x)); c.o(InverseRadialPotentialForceFieldSph(x)); c.o(InverseRadialPotentialForceFieldSph(k, x)); break; case 1: { InfinitePlaneCurrentField f(k, d); c.o(f(x)); break; } case 2: { GaussianBumpField f(k, 1 + k); c.o(f(x)); break; } default: { MexicanHatField f(k, 1 + k); c.o(f(x)); } } }); }

// ---- frames and transformations
OP("frames.more", HI) { return inst([=](Ctx& c) { InertialFrame3D root; InertialFrame3D in(&root); CircleOrbitingFrame3DCartesian a(&root, c.u(1, 2), 3), b(&a, 1, 2, c.u()), d(&a, 1, 2, .1, c.u()); SphericalRotatingFrame r(&b, 2, VectorN<Real, 3>{0, 0, 1}); HardSphereRotatingFrame e(&a, 5, 2, VectorN<Real, 3>{0, 0, 1}); RotatingSphereLocalCartesian l(e, c.u(0, 60), c.u(0, 90)); ReferenceFrame3D cp(b); cp = d; double t = c.u(); c.o(root.GetChildFrames().size()); c.o(a.GetChildFrames().size()); c.o(cp.GetParentFrame() == &a);
    c.o(a.GetOriginPositionAtTime(t)); c.o(b.GetOriginPositionAtTime(t)); c.o(d.GetLocalPosInParentFrameAtTime(VectorN<Real, 3>{.1, .2, .3}, t)); c.o(r.GetOriginPositionAtTime(t)); c.o(r.GetPositionAtTime(Vec3Sph(1, .3, .2), t)); c.o(l.GetOriginPositionAtTime(t)); c.o(l.GetLocalPosInParentFrameAtTime(VectorN<Real, 3>{.1, .2, .3}, t)); c.o(b.SetParentFrame(&r)); c.o(a.RemoveChildFrame(&d)); c.o(d.SetParentFrame(nullptr) ? 1 : 0); }); }
OP("transf.more", 0) { return inst([=](Ctx& c) { Vec3Sph s(c.u(.3, 2), c.u(.3, 2.5), c.u(0, 3)); Vec3Cart x(c.u(.2, 1), c.u(.2, 1), c.u(.2, 1)); int i = c.i(0, 2); switch (c.i(0, 5)) {
    case 0: { CoordTransfSphericalToCartesian t; c.o(t.getUnitBasisVec(i, s)); c.o(t.getInverseBasisVec(i, s)); c.o(t.getInverseUnitBasisVec(i, s)); break; } case 1: { CoordTransfCartesianToSpherical t; c.o(t(VectorN<Real, 3>{x[0], x[1], x[2]})); c.o(t.getContravarBasisVec(i, s)); c.o(t.getInverseContravarBasisVec(i, s)); break; }
    case 2: { CoordTransfCart2DRotation a(c.u()), b(a); CoordTransfObliqueToCartesian2D d(c.u(.5, 1.5)), e(d); CoordTransfCartesianToOblique2D f(c.u(.5, 1.5)), g(f); VectorN<Real, 2> y{c.u(), c.u()}; c.o(b.transf(y)); c.o(e.transf(y)); c.o(g.transf(y)); break; }
    case 3: { auto q = CoordTransfCart3DRotationQuaternion::FromEulerXYZ(c.u(), c.u(), c.u()); CoordTransfCart3DRotationQuaternion p(q); c.o(p.transf(x)); c.o(p.transfInverse(x)); break; } case 4: { MatrixNM<Real, 3, 3> m; double a = c.u(); m(0, 0) = std::cos(a); m(0, 1) = -std::sin(a); m(1, 0) = std::sin(a); m(1, 1) = std::cos(a); m(2, 2) = 1; CoordTransfCart3DRotationQuaternion p(m); c.o(p.transf(x)); break; }
    default: { MetricTensorSphericalContravar g; VectorN<Real, 3> y{s[0], s[1], s[2]}; c.o(g.Component(i, c.i(0, 2), y)); MetricTensorSpherical h; auto T = h(y); c.o(T(i, i)); } } }); }

// ---- curves and surfaces
OP("curves.more", 0) { return inst([=](Ctx& c) { double t = c.u(.2, 2); Pnt3Cart o(c.u(), c.u(), c.u()), e(c.u(), c.u(), 2); switch (c.i(0, 4)) { case 0: { Curves::Circle3DXYCurve a(t, o); Curves::Circle3DXZCurve b(t, o); Curves::Circle3DYZCurve d(t, o); c.o(a(t)); c.o(b(t)); c.o(d(t)); break; } case 1: { Curves::LineCurve l(0, o, t, e); c.o(l(t)); c.o(l.getMinT()); break; } case 2: { Curves::ButterflyCurve b; c.o(b(t)); c.o(b.getRadiusOfCurvature(t)); break; }
    case 3: { Curves::CurveCartesian3D k([](Real q) { tick(); return VectorN<Real, 3>{hv(q), hv(q * q), hv(std::sin(q))}; }); c.o(k(t)); break; } default: { Surfaces::Helicoid h(t); c.o(h(t, 1)); gt(c, [&] { Surfaces::PlaneSurface p(Vec3Cart(0, 0, 1), v3(c)); c.o(p(t, 1)); Surfaces::PlaneSurface q(Vec3Cart(0, 0, 1), Vec3Cart(0, 0, 1), v3(c)); c.o(q(t, 1)); }); } } }); }

// ---- value types
OP("quat.more", SH) { return inst([=](Ctx& c) { auto q = [&] { return Quaternion(c.in(c.u(.2, 1)), v3(c)); }; Quaternion a = q(), b = q(), d(v3(c)); double k = c.u(.5, 2); switch (c.i(0, 3)) { case 0: a += b; c.o(a.w()); c.o(a.Vector()); a -= d; c.o(a.z()); break; case 1: a *= k; a *= b; c.o(a.w()); c.o((a - b).x()); c.o((k * a).y()); break; case 2: c.o((a / k).w()); c.o(a == b); c.o(a != b); c.o(a.isApprox(a)); break; default: c.o((-a).w()); c.o(a.Vector()); } }); }
OP("vec.curvilinear", SH) { return inst([=](Ctx& c) { double k = c.u(.5, 2); switch (c.i(0, 5)) {
    case 0: { Vec2Cart a(c.u(.1, 1), c.u()), b(c.u(.1, 1), c.u()), p, q; c.o((-a)); c.o(a + b); c.o(a - b); c.o(a == b); c.o(a != b); c.o(a.IsEqualTo(b)); c.o(a.Normalized()); c.o(a.GetAsUnitVectorAtPos(b)); a.getPerpendicularVectors(p, q); c.o(p); c.o(a * b); break; }
    case 1: { Vec2Pol a(c.u(.1, 1), c.u()), b(c.u(.1, 1), c.u()); c.o(-a); c.o(a + b); c.o(a - b); c.o(a * k); c.o(a / k); c.o(k * a); c.o(a.GetAsUnitVectorAtPos(b)); break; }
    case 2: { Vec3Sph a(c.u(.1, 1), c.u(.1, 3), c.u()), b(c.u(.1, 1), c.u(.1, 3), c.u()); c.o(-a); c.o(a + b); c.o(a - b); c.o(a * k); c.o(a / k); c.o(k * a); c.o(a == b); c.o(a != b); c.o(a.IsEqualTo(b)); c.o(a.GetAsUnitVectorAtPosGlobalSpher(b)); c.o(a.GetAsUnitVectorAtPos(b)); break; }
    case 3: { Vec3Cyl a(c.u(.1, 1), c.u(), c.u()), b(c.u(.1, 1), c.u(), c.u()); c.o(-a); c.o(a + b); c.o(a - b); c.o(a * k); c.o(a / k); c.o(k * a); c.o(a.GetAsUnitVectorAtPos(b)); break; }
    case 4: { Vec3Cart a = v3(c), b = v3(c); c.o(a.Normalized()); c.o(a.GetAsUnitVectorAtPos(b)); c.o(a == b); c.o(a != b); break; } default: { Vector4Minkowski a, b; for (int i = 0; i < 4; ++i) { a[i] = c.u(); b[i] = c.u(); } c.o(ScalarProduct(a, b)); gt(c, [&] { c.o(a.Norm()); c.o(a.Distance(b)); }); c.o(a.isTimelike()); c.o(a.isSpacelike()); c.o(a.isLightlike()); } } }); }
OP("coord.utils", SH) { return inst([=](Ctx& c) { using namespace Utils; Real a, b, d, x = c.u(.1, 1), y = c.u(), z = c.u(); AngleRadToExplicit(x, a, b, d); c.o(a); c.o(b); c.o(d); CartesianToPolar(x, y, a, b); c.o(a); c.o(b); PolarToCartesian(x, y, a, b); c.o(a); CartesianToSpherical(x, y, z, a, b, d); c.o(b); c.o(d); SphericalToCartesian(x, y, z, a, b, d); c.o(a); c.o(d); CartesianToCylindrical(x, y, z, a, b, d); c.o(b); CylindricalToCartesian(x, y, z, a, b, d); c.o(a); c.o(LeviCivita(c.i(0, 3), c.i(0, 3), c.i(0, 3), c.i(0, 3))); auto u = cvec(c, 3); c.o(ScalarProduct(u, u)); }); }
OP("intervals.more", SH) { CompleteRWithReccuringPointHoles h(0, .5); ClosedIntervalWithReccuringPointHoles g(-1, 1, 0, .25); return inst([=](Ctx& c) { double x = c.b() ? c.i(-3, 3) * .25 : c.u(); c.o(h.contains(x)); c.o(g.contains(x)); CompleteRInterval r; NegInfToClosedInterval n(x); ClosedToInfInterval p(x); c.o(r.contains(x)); c.o(n.contains(c.u())); c.o(p.contains(c.u())); }); }
OP("dist.moments", SH) { return inst([=](Ctx& c) { using namespace Statistics; double a = c.u(.5, 5), b = c.u(.5, 5); gt(c, [&] { switch (c.i(0, 5)) { case 0: { NormalDistribution d(a, b); c.o(d.zScore(1)); c.o(d.fromZScore(1)); c.o(StandardNormal::pdf(a)); break; } case 1: { TDistribution d(c.i(1, 6)); c.o(d.mean()); c.o(d.variance()); break; } case 2: { FDistribution d(c.i(1, 6), c.i(1, 8)); c.o(d.mean()); c.o(d.variance()); break; } case 3: { LogisticDistribution d(a, b); c.o(d.variance()); break; } case 4: { BetaDistribution d(a, b); c.o(d.variance()); break; } default: { WeibullDistribution w(a, b); c.o(w.variance()); ParetoDistribution p(a, b); c.o(p.mean()); c.o(p.variance()); } } }); }); }
OP("basis.recurrence", SH) { return inst([=](Ctx& c) { Real a, b, d; int n = c.i(0, 6); switch (c.i(0, 4)) { case 0: { ChebyshevBasis q; q.RecurrenceCoefficients(n, a, b, d); break; } case 1: { ChebyshevBasisSecondKind q; q.RecurrenceCoefficients(n, a, b, d); break; } case 2: { HermiteBasis q; q.RecurrenceCoefficients(n, a, b, d); break; } case 3: { LaguerreBasis q; q.RecurrenceCoefficients(n, a, b, d); break; } default: { AssociatedLaguerreBasis q(1.5); q.RecurrenceCoefficients(n, a, b, d); } } c.o(a); c.o(b); c.o(d); }); }
OP("maps.params", HI) { auto l = std::make_shared<Systems::LogisticMap>(3.2); auto h = std::make_shared<Systems::HenonMap>(); return inst([=](Ctx& c) { auto v = via(c, l); auto w = via(c, h); Systems::LogisticMap a(*v); Systems::HenonMap b(*w); a.setParam(0, c.u(2.5, 4)); b.setParam(c.i(0, 1), c.u(.1, 1)); c.o(a.getParam(0)); c.o(b.getParam(0)); c.o(a.iterate(Vector<Real>{.3})); c.o(b.iterate(Vector<Real>{.1, .2})); c.o(v->getParam(0)); }); }

// ---- geometry
OP("geo.circles.more", SH) { return inst([=](Ctx& c) { auto a = p2(c), b = p2(c), d = p2(c); double r = c.u(.2, 2); gt(c, [&] { switch (c.i(0, 5)) { case 0: { Circle2D k(c.u(), c.u(), r); P(c, k.Center()); auto bb = k.GetBoundingBox(); c.o(bb.minX); c.o(k.IsOnBoundary(a)); c.o(k.TangentAt(r)); P(c, k.Translated(Vec2Cart(1, 2)).Center()); c.o(k.Scaled(2).Radius()); break; } case 1: { auto k = Circle2D::FromDiameter(a, b); c.o(k.Radius()); auto q = Circle2D::FromThreePoints(a, b, d); c.o(q.Radius()); break; }
    case 2: { auto k = Box2D::FromCenterAndSize(a, 1, 2), q = Box2D::FromCenterAndHalfExtents(b, r, 1); P(c, k.Center()); c.o(k.Contains(q)); c.o(k.Intersects(q)); auto x = k.Intersection(q); P(c, x.Min()); q.ExpandToInclude(d); P(c, q.Max()); c.o(q.IsDegenerate()); P(c, k.Translated(Vec2Cart(1, 0)).Min()); P(c, k.Scaled(2).Max()); break; }
    case 3: { Line2D l(a, Vec2Cart(1, r)), m(b, Vec2Cart(r, -1)); Pnt2Cart x; c.o(l.Intersects(m, &x)); P(c, x); P(c, l.Perpendicular(d).StartPoint()); break; } case 4: { SegmentLine2D s(a, b), t(d, Vec2Cart(1, 1), r); Pnt2Cart x; c.o(s.Intersects(t, &x)); P(c, s.PointOnSegment(.3)); P(c, s.Midpoint()); c.o((int)CompGeometry::Intersections::IntersectSegments(s, t).type); SegmentLine2D u(a, Pnt2Cart(a.X() + 2, a.Y())), w(Pnt2Cart(a.X() + 1, a.Y()), Pnt2Cart(a.X() + 3, a.Y())); auto y = u.Intersection(w); c.o((int)y.type); c.o(y.HasIntersection()); break; }
    default: { Triangle2D t(a, b, d); c.o(t.CircumRadius()); c.o(t.InRadius()); c.o(t.AngleA()); c.o(t.AngleB()); c.o(t.AngleC()); c.o(t.IsCounterClockwise()); } } }); }); }
OP("geo.comp.more", SH) { int n = c.i(3, 9); std::vector<Pnt2Cart> q; std::vector<Pnt3Cart> w; for (int i = 0; i < n; ++i) { q.push_back(p2(c)); w.push_back(p3(c)); } return inst([=](Ctx& c) { gt(c, [&] { using namespace CompGeometry; switch (c.i(0, 6)) { case 0: { auto r = FindNearestBruteForce2D(q, p2(c)); c.o(r.index); c.o(r.distance); auto s = FindNearestBruteForce3D(w, p3(c)); c.o(s.index); break; } case 1: { Polygon2D p(q); auto k = Circles::MinimumEnclosingCircle(p); c.o(k.Radius()); c.o(ConvexHull2D::Compute(p).NumVertices()); break; }
    case 2: { auto k = Circles::MinimumEnclosingCircle(std::vector<Pnt2Cart>(q.begin(), q.begin() + 3)); P(c, k.Center()); c.o(k.Radius()); break; } case 3: { auto l = Intersections::IntersectLines2D(q[0], Vec2Cart(1, .3), q[1], Vec2Cart(.2, 1)); c.o((int)l.type); P(c, l.point); auto m = Intersections::IntersectLines3D(w[0], Vec3Cart(1, .3, 0), w[1], Vec3Cart(.2, 1, .1)); c.o((int)m.type); break; }
    case 4: { Triangle3D t(w[0], w[1], w[2]); Line3D l(Pnt3Cart(0, 0, 3), Vec3Cart(0, 0, -1)); auto h = Intersections::IntersectRayTriangle(l, t); c.o(h.hit); c.o(h.t); auto g = Intersections::IntersectRayTriangle(Pnt3Cart(0, 0, 3), Vec3Cart(0, 0, -1), t); c.o(std::get<0>(g.GetBarycentricCoords())); auto k = Intersections::IntersectRayTriangle(l, w[0], w[1], w[2]); c.o(k.hit); break; }
    case 5: { auto ts = Triangulation::DelaunayTriangulate(q); c.o(ts.size()); for (auto& t : ts) c.o(t.Area()); break; } default: { KDTreeConfig a = KDTreeConfig::HighPerformance(), b = KDTreeConfig::LowMemory(); KDTree2D t; t.build(q, c.b() ? a : b); auto r = t.findNearest(p2(c)); c.o(r.index); } } }); }); }
OP("geo.shapes", SH) { return inst([=](Ctx& c) { double a = c.u(.5, 2), b = c.u(.5, 2), d = c.u(.3, 1.2); gt(c, [&] { switch (c.i(0, 9)) { case 0: { auto e = Ellipse::FromFoci(a, a + b); c.o(e.Area()); break; } case 1: { CircularSector s(a, d); CircularSegment g(a, d); c.o(s.Area()); c.o(g.Area()); c.o(CircularSegment::FromSagitta(a, a / 2).Area()); break; } case 2: { Annulus k(a, a + b); c.o(k.Area()); break; } case 3: { c.o(RegularPolygon::FromCircumradius(c.i(3, 9), a).Area()); c.o(RegularPolygon::FromInradius(c.i(3, 9), a).Area()); break; } case 4: { Rectangle r(a, b); c.o(r.Area()); c.o(Rectangle::FromDiagonalAndRatio(a, b).Area()); c.o(SphereGeom::Circumscribed(r, d).Volume()); break; }
    case 5: { c.o(Parallelogram::FromDiagonals(a, b, d).Area()); break; } case 6: { c.o(Rhombus::FromSideAndDiagonal(a, a / 2).Area()); c.o(Rhombus::FromSideAndAngle(a, d).Area()); break; } case 7: { CylinderGeom k(a, b); c.o(k.Volume()); c.o(CylinderGeom::FromVolume(a, b).Volume()); c.o(ConeGeom::FromSlantHeight(a, a + b).Volume()); break; } case 8: { Triangle t(3, 4, 5); c.o(t.IsRight()); c.o(t.IsAcute()); c.o(t.IsObtuse()); break; } default: { c.o(Spheroid::Earth().Volume()); Frustum f(a, b, d); c.o(f.SlantHeight()); } } }); }); }
OP("geo.solid.more", SH) { return inst([=](Ctx& c) { auto a = p3(c), b = p3(c); double r = c.u(.5, 2); gt(c, [&] { switch (c.i(0, 6)) { case 0: { Sphere3D s(r, 6, 8); Cube3D k(r); CubeWithTriangles3D t(r); Torus3D o(2, r / 2, 6, 6); Cylinder3D y(r, 2, 6); PyramidEquilateral3D p(r), q(r, Vec3Cart(1, 0, 0)); c.o(s.IsInside(a)); c.o(k.IsInside(a)); c.o(t.IsInside(a)); c.o(o.IsInside(a)); c.o(y.IsInside(a)); c.o(p.IsInside(a)); ComposedSolidSurfaces3D z(std::vector<IBody*>{&s, &k}); c.o(z.IsInside(b)); break; }
    case 1: { auto x = Box3D::FromCenterAndSize(a, 1, 2, 3), y = Box3D::FromCenterAndHalfExtents(b, r, r, 1), z = Box3D::FromCenterAndHalfExtents(b, Vec3Cart(1, 1, 1)); c.o(x.Contains(y)); c.o(x.Expanded(r).Contains(z)); c.o(x.IsDegenerate()); P(c, x.Scaled(2).Max()); BoundingSphere3D s(a, r), t(b, 1); c.o(s.Intersects(t)); break; }
    case 2: { Line3D l(a, v3(c)), m(b, v3(c)); Pnt3Cart x; c.o(l.AreEqual(m)); c.o(l == l); c.o(l.IsPerpendicular(m)); c.o(l.IsPointOnLine(a)); c.o(l.Intersects(m, x)); P(c, l.PerpendicularLineThroughPoint(b).StartPoint()); SegmentLine3D s(a, v3(c), r); P(c, s(.5)); break; }
    case 3: { Plane3D p(a, v3(c)), q(b, v3(c)); Plane3D w(r, 1.0, 2.0); Line3D l(a, v3(c)); Real x, y, z; P(c, p.GetPointOnPlane()); p.GetCoordAxisSegments(x, y, z); c.o(x); c.o(p.IsLineOnPlane(l)); c.o(p.AngleToLine(l)); c.o(p.IsPerpendicularToPlane(q)); c.o(p.DistToPlane(q)); c.o(w.DistToPoint(a)); break; }
    case 4: { Triangle3D t(a, b, p3(c)); c.o(t.IsRight()); c.o(t.IsIsosceles()); c.o(t.IsEquilateral()); c.o(t.getDefinedPlane().DistToPoint(b)); break; } case 5: { Pnt2Cart x(1, r), y(r, 2); x += y; x -= y; x *= r; x /= 2; P(c, x); Pnt3Cart u = a; u += b; u -= a; u *= r; u /= 2; P(c, u); Pnt3Cyl k(1, r, 2), j(r, 1, 1); c.o(k.Dist(j)); break; }
    default: c.o(SphericalGeometryCalculator::RadiusFromCartesian(a)); c.o(SphericalGeometryCalculator::DistanceBetweenLatLong(r, 10, 20, 30, 40)); } }); }); }
