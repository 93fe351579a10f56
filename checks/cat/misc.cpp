// mixed real/complex algebra, matrix functions, subspaces, one-sided and higher derivatives, metric derivatives, field analysers,
// interpolants made from solutions, quadrature rules, special functions, the dynamical-system facade
#include "fun.h"
#include "mml/base/BaseUtils/MatrixOps.h"
#include "mml/base/BaseUtils/MixedTypeOps.h"
#include "mml/base/BaseUtils/VectorOps.h"
#include "mml/base/BaseUtils/ComparisonUtils.h"
#include "mml/base/BaseUtils/SymbolUtils.h"
#include "mml/base/BaseUtils/AngleCoordUtils.h"
#include "mml/base/StandardFunctions.h"
#include "mml/base/DAESystem.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/core/MatrixUtils.h"
#include "mml/algorithms/MatrixAlg.h"
#include "mml/core/MetricTensor.h"
#include "mml/core/Surfaces.h"
#include "mml/core/Curves.h"
#include "mml/core/FunctionHelpers.h"
#include "mml/core/SingularityHandling.h"
#include "mml/core/Derivation.h"
#include "mml/core/Derivation/Jacobians.h"
#include "mml/core/Integration/GaussianQuadrature.h"
#include "mml/core/CoordTransf/CoordTransfSpherical.h"
#include "mml/core/CoordTransf/CoordTransfCylindrical.h"
#include "mml/algorithms/FieldAnalyzers.h"
#include "mml/algorithms/Statistics.h"
#include "mml/algorithms/Statistics/StatisticsConfidence.h"
#include "mml/systems/DynamicalSystemAnalyzer.h"
#include "mml/systems/ContinuousSystems.h"
#include "mml/systems/LinearSystem.h"
using namespace MML; using namespace cat;
template <class F> static void gt(Ctx& c, F f) { try { f(); } catch (const MMLException& e) { auto* s = dynamic_cast<const std::exception*>(&e); c.o(s ? s->what() : "?"); } catch (const std::invalid_argument& e) { c.o(e.what()); } }

OP("mixed.algebra", SH | HI) { int n = c.i(1, 5); auto rv = vec(c, n); auto zv = cvec(c, n); auto rm = mat(c, n, n); auto zm = cmat(c, n, n); Complex z(c.in(c.u()), c.in(c.u())); return inst([=](Ctx& c) { using namespace Utils; switch (c.i(0, 6)) {
    case 0: c.o(AddVec(zv, rv)); c.o(AddVec(rv, zv)); c.o(SubVec(zv, rv)); c.o(SubVec(rv, zv)); break; case 1: c.o(MulVec(z, rv)); c.o(MulVec(rv, z)); break; case 2: c.o(AddMat(zm, rm)); c.o(AddMat(rm, zm)); c.o(SubMat(zm, rm)); c.o(SubMat(rm, zm)); break;
    case 3: c.o(MulMat(z, rm)); c.o(MulMat(rm, z)); c.o(MulMat(zm, rm)); c.o(MulMat(rm, zm)); break; case 4: c.o(MulMatVec(rm, zv)); c.o(MulMatVec(zm, rv)); c.o(MulVecMat(zv, rm)); c.o(MulVecMat(rv, zm)); break;
    case 5: c.o(GetRealPart(zm)); c.o(GetImagPart(zm)); c.o(GetConjugateTranspose(zm)); c.o(CmplxMatFromRealMat(rm)); break; default: c.o(IsComplexMatReal(zm)); c.o(IsComplexMatReal(CmplxMatFromRealMat(rm))); c.o(IsHermitian(zm)); c.o(IsUnitary(zm)); c.o(AreEqual(zv, zv)); c.o(AreEqualAbs(zv, zv)); c.o(AreEqual(rv, rv)); c.o(AreEqual(zv[0], z)); } }); }
OP("matrix.functions", SH | HI) { int n = c.i(1, 4); auto a = mat(c, n, n), b = mat(c, n, n); std::vector<Vector<Real>> w; for (int i = 0; i < n; ++i) w.push_back(vec(c, n)); return inst([=](Ctx& c) { using namespace Utils; int k = c.i(1, 12); switch (c.i(0, 6)) {
    case 0: c.o(Exp(a, k)); break; case 1: c.o(Sin(a, k)); c.o(Cos(a, k)); break; case 2: c.o(Sinh(a, k)); c.o(Cosh(a, k)); break; case 3: c.o(Commutator(a, b)); c.o(AntiCommutator(a, b)); break;
    case 4: { Matrix<Real> s, t; MatrixDecomposeToSymAntisym(a, s, t); c.o(s); c.o(t); break; } case 5: c.o(MatrixFromVectorsInRows(w)); c.o(MatrixFromVectorsInColumns(w)); c.o(RowMatrixFromVector(w[0])); c.o(ColumnMatrixFromVector(w[0])); c.o(DiagonalMatrixFromVector(w[0])); break;
    default: c.o(IsOrthogonal(a)); c.o(IsNilpotent(a)); c.o(IsUnipotent(b)); c.o(OuterProduct(w[0], w[n - 1])); c.o(ScalarProduct(w[0], w[n - 1])); c.o(VectorsAngle(w[0], w[n - 1])); c.o(VectorProjectionParallelTo(w[0], w[n - 1])); c.o(VectorProjectionPerpendicularTo(w[0], w[n - 1])); } }); }
OP("matrix.subspaces", SH | HI) { int n = c.i(1, 4), m = c.i(1, 4); auto a = mat(c, n, m); if (n > 1 && c.b()) for (int j = 0; j < m; ++j) a(n - 1, j) = a(0, j); auto q = mat(c, m, m); return inst([=](Ctx& c) { using namespace Utils; gt(c, [&] { switch (c.i(0, 7)) {
    case 0: c.o(SingularValues(a)); c.o(RankSVD(a)); c.o(Nullity(a)); break; case 1: c.o(NullSpace(a)); c.o(Kernel(a)); break; case 2: c.o(ColumnSpace(a)); c.o(Range(a)); break; case 3: c.o(RowSpace(a)); c.o(LeftNullSpace(a)); break;
    case 4: { auto f = ComputeFundamentalSubspaces(a); c.o(f.columnSpace); c.o(f.leftNullSpace); c.o(f.rank); break; } case 5: c.o(PseudoInverse(a)); c.o(ConditionNumber(a)); break;
    case 6: c.o(SimilarityTransform(q, q)); c.o(FrobeniusNorm(a)); c.o(InfinityNorm(a)); c.o(OneNorm(a)); c.o(MaxAbsDiff(a, a)); c.o(Trace(q)); break;
    default: c.o(IsUpperHessenberg(q)); c.o(IsUpperTriangular(q)); c.o(IsLowerTriangular(q)); c.o(IsDiagonal(q)); c.o(Utils::IsSymmetric(q)); c.o(Utils::IsSkewSymmetric(q)); c.o(RankGaussian(a)); } }); }); }
OP("linsys.direct", HI) { int n = c.i(1, 4); auto A = c.b() ? spd(c, n) : dd(c, n); auto b = vec(c, n); auto S = std::make_shared<Systems::LinearSystem<Real>>(A, b); return inst([=](Ctx& c) { auto s = via(c, S); gt(c, [&] { switch (c.i(0, 5)) {
    case 0: c.o(s->SolveByGaussJordan()); break; case 1: c.o(s->SolveByCholesky()); break; case 2: c.o(s->SolveByQR()); c.o(s->SolveBySVD()); break; case 3: { auto r = s->Analyze(); c.o(r.rank); c.o(r.determinant); c.o(r.recommendedSolver); c.o(r.isPositiveDefinite); break; }
    case 4: c.o(s->SolveIterative(Systems::IterativeMethod::Auto, 1e-9, 200)); break; default: c.o(s->ConditionNumber1()); c.o(s->ConditionNumberInf()); c.o(s->Sparsity()); c.o(s->SolveLeastSquares()); } }); }); }

OP("der.onesided", SH | CB) { auto f = rf(c); return inst([=](Ctx& c) { double x = c.u(), h = c.u(.001, .1); switch (c.i(0, 4)) { case 0: c.o(Derivation::NDer1Right(*f, x)); c.o(Derivation::NDer2Left(*f, x)); break; case 1: c.o(Derivation::NDer4Right(*f, x)); c.o(Derivation::NDer6Left(*f, x)); break;
    case 2: c.o(Derivation::NDer6Right(*f, x)); c.o(Derivation::NDer8Right(*f, x)); break; case 3: c.o(Derivation::NDer1(*f, x, h)); c.o(Derivation::NDer2(*f, x, h)); c.o(Derivation::NDer4(*f, x, h)); break; default: c.o(Derivation::NDer6(*f, x, h)); c.o(Derivation::NDer8(*f, x, h)); c.o(Derivation::NSecDer4(*f, x, h)); } }); }
OP("der.partials", SH | CB) { auto f = vf<3>(c); auto g = sf<3>(c); return inst([=](Ctx& c) { auto x = vecn<3>(c); int i = c.i(0, 2), j = c.i(0, 2); VectorN<Real, 3> e; MatrixNM<Real, 3, 3> E; switch (c.i(0, 6)) {
    case 0: c.o(Derivation::NDer1PartialAllByAll<3>(*f, x, &E)); c.o(E); break; case 1: c.o(Derivation::NDer2PartialAllByAll<3>(*f, x, &E)); c.o(E); break; case 2: c.o(Derivation::NDer6PartialAllByAll<3>(*f, x, &E)); c.o(E); break; case 3: c.o(Derivation::NDer8PartialAllByAll<3>(*f, x, &E)); c.o(E); break;
    case 4: c.o(Derivation::NDer6PartialByAll<3>(*f, i, x, &e)); c.o(Derivation::NDer8PartialByAll<3>(*f, i, x)); c.o(Derivation::NDer1PartialByAll<3>(*f, i, x)); c.o(e); break; case 5: c.o(Derivation::NDer6PartialByAll<3>(*g, x, &e)); c.o(Derivation::NDer8PartialByAll<3>(*g, x)); c.o(e); break; default: c.o(Derivation::NSecDer2Partial<3>(*g, i, j, x)); } }); }
OP("der.jacobian.inplace", SH | CB) { int n = c.i(1, 4); std::vector<F1> k(n); for (auto& q : k) q = f1(c); std::function<Vector<Real>(const Vector<Real>&)> f = [=](const Vector<Real>& x) { tick(); Vector<Real> r(n); for (int i = 0; i < n; ++i) r[i] = hv(k[i].raw(x[i]) + x[(i + 1) % n]); return r; };
    return inst([=](Ctx& c) { auto x = vec(c, n); Matrix<Real> J(n, n); Derivation::calcJacobianDynInPlace(f, x, J); c.o(J); c.o(Derivation::NDer2PartialDyn(f, n - 1, 0, x)); c.o(Derivation::calcJacobianDyn(f, x, n, 1e-4)); }); }
OP("fn.combine", SH | CB) { auto f = rf(c), g = rf(c); double p = c.u(1, 3); return inst([=](Ctx& c) { double x = c.u(); switch (c.i(0, 4)) { case 0: { RealFuncDerived1 a(*f); RealFuncDerived2 b(*f); RealFuncDerived6 d(*f); RealFuncDerived8 e(*f); c.o(a(x)); c.o(b(x)); c.o(d(x)); c.o(e(x)); break; }
    case 1: { RealFuncSecondDerived4 a(*f); RealFuncSecondDerived6 b(*f); c.o(a(x)); c.o(b(x)); break; } case 2: { RealFuncDiff a(*f, *g); RealFuncQuotient b(*f, *g); c.o(a(x)); c.o(b(x)); break; }
    case 3: { RealFuncScale a(*f, p); RealFuncShift b(*f, p); RealFuncNegate d(a); RealFuncAbs e(d); c.o(b(x)); c.o(e(x)); break; } default: { RealFuncAbs q(*f); RealFuncPow a(q, p); RealFuncAbsDiff b(*f, *g); RealFuncDiffSqr d(*f, *g); c.o(a(x)); c.o(b(x)); c.o(d(x)); } } }); }
OP("metric.derivatives", SH | CB) { auto g = vf<3>(c); int w = c.i(0, 2); std::shared_ptr<MetricTensorField<3>> M; if (w == 0) M = std::make_shared<MetricTensorSpherical>(); else if (w == 1) M = std::make_shared<MetricTensorCylindrical>(); else M = std::make_shared<MetricTensorCartesian3D>(); return inst([=](Ctx& c) { VectorN<Real, 3> s{c.u(.5, 2), c.u(.4, 2.5), c.u(.1, 3)}; int i = c.i(0, 2), j = c.i(0, 2); switch (c.i(0, 3)) {
    case 0: c.o(M->LowerIndex(s, s)); c.o(M->RaiseIndex(s, s)); break; case 1: c.o(M->CovariantDerivativeContravarComp(*g, i, j, s)); c.o(M->CovariantDerivativeCovar(*g, j, s)); break; case 2: c.o(M->CovariantDerivativeContravar(*g, j, s)); c.o(M->GetChristoffelSymbolSecondKind(i, j, 0, s)); break;
    default: { MetricTensorFromCoordTransf<Vector3Spherical, Vector3Cartesian, 3> F(CoordTransfSpherToCart); c.o(F.Component(i, j, s)); MetricTensorMinkowski K; c.o(K.Component(i, j, VectorN<Real, 4>{1, 2, 3, 4})); } } }); }

OP("field.analyze.box", SH | CB | SLOW) { auto f = sf<3>(c); auto g = vf<3>(c); return inst([=](Ctx& c) { auto x = vecn<3>(c); Vec3Cart p(x[0], x[1], x[2]), q(x[0] + c.u(.2, 1), x[1] + c.u(.2, 1), x[2] + c.u(.2, 1)); int n = c.i(2, 3); ScalarFieldAnalyzer A(*f); VectorFieldAnalyzer B(*g); double tol = c.b() ? 1e-4 : 2; switch (c.i(0, 7)) {
    case 0: { auto r = A.FindCriticalPoints(p, q, n, tol); c.o(r.size()); for (auto& v : r) c.o(v); break; } case 1: c.o(A.IsHarmonic(p, q, n, tol)); c.o(A.IsCriticalPoint(p, tol)); break; case 2: c.o(B.IsSolenoidalAt(p, tol)); c.o(B.IsIrrotationalAt(p, tol)); break; case 3: c.o(B.IsSolenoidal(p, q, n, tol)); break;
    case 4: c.o(B.IsIrrotational(p, q, n, tol)); c.o(B.IsConservative(p, q, n, tol)); break; case 5: c.o(B.MaxDivergence(p, q, n)); break; case 6: c.o(B.MaxCurlMagnitude(p, q, n)); break; default: c.o(B.CirculationAroundCircle(p, q, c.u(.2, 1), c.i(4, 40))); } }); }
struct UC : public Curves::ICurveCartesian3D { std::shared_ptr<ParametricCurveFromStdFunc<3>> g; UC(std::shared_ptr<ParametricCurveFromStdFunc<3>> q) : g(q) {} Real getMinT() const override { return 0; } Real getMaxT() const override { return 2; } VectorN<Real, 3> operator()(Real t) const override { return (*g)(t); } };
OP("curve.functions", SH | CB) { auto f = cf<2>(c, 0, 2); auto g = cf<3>(c, 0, 2); auto K = std::make_shared<UC>(g); return inst([=](Ctx& c) { double t = c.u(.2, 1.8); switch (c.i(0, 4)) { case 0: c.o(Curves::getCurvature2D(*f, t)); break; case 1: c.o(Curves::getCurvaturePolar2D(*f, t)); break;
    case 2: c.o(K->getSecondDerivative(t)); c.o(K->getTangentUnit(t)); c.o(K->getCurvatureVector(t)); break; case 3: { auto p = K->getNormalPlane(t); c.o(p.A()); c.o(p.B()); c.o(p.D()); auto q = K->getRectifyingPlane(t); c.o(q.A()); c.o(q.D()); break; } default: { Vec3Cart a, b, d; K->getMovingTrihedron(t, a, b, d); c.o(a); c.o(b); c.o(d); c.o(K->getTorsion(t)); } } }); }
OP("curve.polar", 0) { auto q = std::make_shared<Curves::Circle2DCurvePolar>(c.u(.5, 2)); return inst([=](Ctx& c) { auto v = via(c, q); double t = c.u(.2, 2); c.o((*v)(t)); c.o(v->getTangent(t)); c.o(v->getNormalUnit(t)); c.o(v->getCurvature(t)); }); }
OP("surface.classify", SH) { int w = c.i(0, 8); std::shared_ptr<Surfaces::ISurfaceCartesian> q; double a = c.u(.5, 2); if (w == 0) q = std::make_shared<Surfaces::CylinderSurface>(a, 2.0); else if (w == 1) q = std::make_shared<Surfaces::MobiusStrip>(a); else if (w == 2) q = std::make_shared<Surfaces::Hyperboloid>(1.0, 1.0, a); else if (w == 3) q = std::make_shared<Surfaces::Paraboloid>(a, 2.0);
    else if (w == 4) q = std::make_shared<Surfaces::Helicoid>(a); else if (w == 5) q = std::make_shared<Surfaces::EnneperSurface>(a); else if (w == 6) q = std::make_shared<Surfaces::KleinBottle>(a); else if (w == 7) q = std::make_shared<Surfaces::DiniSurface>(a, .3); else q = std::make_shared<Surfaces::PlaneSurface>(Vec3Cart(0, 0, a), Vec3Cart(0, 0, 1), Vec3Cart(1, 0, 0), Vec3Cart(0, 1, 0), -5, 5, -5, 5);
    return inst([=](Ctx& c) { double u = c.u(.3, 1.2), v = c.u(.3, 1.2); switch (c.i(0, 4)) { case 0: c.o(q->isFlat(u, v)); c.o(q->isParabolic(u, v)); c.o(q->isHyperbolic(u, v)); break; case 1: { VectorN<Real, 3> a, b; q->Tangents(u, v, a, b); c.o(a); c.o(b); break; } case 2: { VectorN<Real, 3> a, b; q->PrincipalDirections(u, v, a, b); c.o(a); c.o(b); break; }
    case 3: c.o(q->Normal(u, v)); c.o((*q)(u, v)); break; default: c.o(q->getMinU()); c.o(q->getMaxU()); c.o(q->getMinW()); c.o(q->getMaxW()); c.o(q->GaussianCurvature(u, v)); c.o(q->MeanCurvature(u, v)); } }); }

struct Sol { ODESystemSolution s{0, 1, 3, 12}; DAESolution d{0, 1, 3, 2, 12}; };
OP("solution.interpolants", SH) { auto S = std::make_shared<Sol>(); int n = c.i(5, 11); for (int i = 0; i <= n; ++i) { double t = (double)i / n; Vector<Real> x{c.u(), c.u(), c.u()}, y{c.u(), c.u()}; S->s.fillValues(i, t, x); S->d.fillValues(i, t, x, y); } S->s.setFinalSize(n); S->d.setFinalSize(n);
    return inst([=](Ctx& c) { double t = c.u(.05, .95); int k = c.i(0, 2); switch (c.i(0, 6)) { case 0: c.o(S->s.getSolAsLinInterp(k)(t)); c.o(S->s.getSolAsPolyInterp(k, 3)(t)); break; case 1: c.o(S->s.getSolAsSplineInterp(k)(t)); break; case 2: c.o(S->s.getSolAsParamCurve2D(0, k ? k : 1)(t)); c.o(S->s.getSolAsParamCurve3D(0, 1, 2)(t)); break;
    case 3: c.o(S->d.getXAsLinInterp(k)(t)); c.o(S->d.getYAsLinInterp(k % 2)(t)); break; case 4: c.o(S->d.getXAsSplineInterp(k)(t)); c.o(S->d.getYAsSplineInterp(k % 2)(t)); break; case 5: c.o(S->d.getXAsParamCurve2D(0, 1)(t)); c.o(S->d.getXAsParamCurve3D(0, 1, 2)(t)); break;
    default: c.o(S->d.getXValues()); c.o(S->d.getYValues(k % 2)); c.o(S->d.getXValuesAtEnd()); c.o(S->d.getYValuesAtEnd()); c.o(S->s.getXValuesAtEnd()); c.o(S->s.getTValues()); } }); }
OP("solution.grow", 0) { int n = c.i(3, 9); return inst([=](Ctx& c) { auto S = std::make_shared<Sol>(); int m = n + c.i(0, 8); for (int i = 0; i <= m; ++i) { Vector<Real> x{c.u(), c.u(), c.u()}, y{c.u(), c.u()}; double t = .1 * i; again([&] { S->s.fillValues(i, t, x); }); again([&] { S->d.fillValues(i, t, x, y); }); } again([&] { S->s.setFinalSize(m); }); again([&] { S->d.setFinalSize(m); });
    c.o(S->s.size()); c.o(S->d.size()); c.o(S->s.getXValues()); c.o(S->d.getXValues()); c.o(S->d.getYValues()); c.o(S->d.getTValues()); c.o(S->s.getTValues()); auto q = via(c, S); c.o(q->s.getXValuesAtEnd()); c.o(q->d.getYValuesAtEnd()); }); }

OP("int.gaussrules", SH | CB) { auto f = rf(c); return inst([=](Ctx& c) { int n = c.i(2, 12); double a = c.u(-.5, 2), b = c.u(-.5, 2); auto o = [&](const GaussQuadratureRule& r) { c.o(r.nodes); c.o(r.weights); c.o(IntegrateWithRule(*f, r)); }; auto q = [&](const IntegrationResult& r) { c.o(r.value); c.o(r.converged); c.o(r.error_estimate); }; gt(c, [&] { switch (c.i(0, 8)) {
    case 0: o(GaussLegendreRule(n, a - 1, b + 1)); break; case 1: o(GaussLaguerreRule(n, a)); break; case 2: o(GaussHermiteRule(n)); break; case 3: o(GaussJacobiRule(n, a, b)); break; case 4: o(GaussChebyshev1Rule(n)); o(GaussChebyshev2Rule(n)); break;
    case 5: q(IntegrateGaussLegendre(*f, -1, a, n)); q(IntegrateGaussLaguerre(*f, n, b)); break; case 6: q(IntegrateGaussHermite(*f, n)); break; case 7: q(IntegrateGaussJacobi(*f, a, b, n)); break; default: q(IntegrateGaussChebyshev1(*f, n)); q(IntegrateGaussChebyshev2(*f, n)); } }); }); }
OP("special.functions", SH) { return inst([=](Ctx& c) { using namespace Functions; double x = c.u(.1, .9); int n = c.i(0, 5); switch (c.i(0, 6)) { case 0: c.o(RiemannZeta(1.5 + x)); c.o(Hermite(n, x)); c.o(Legendre(n, x)); c.o(Laguerre(n, x)); break; case 1: c.o(SphBessel(n, x)); c.o(SphLegendre(n, n / 2, x)); c.o(SphNeumann(n, x)); break; case 2: c.o(Ellint_1(x, 1)); c.o(Ellint_2(x, 1)); c.o(Ellint_3(x, .3, 1)); c.o(Comp_ellint_1(x)); c.o(Comp_ellint_2(x)); c.o(Comp_ellint_3(x, .2)); break;
    case 3: c.o(CylBesselJ(n, x)); c.o(CylBesselI(n, x)); c.o(CylBesselK(n, x)); c.o(CylNeumann(n, x)); c.o(CylBesselY(n, x)); break; case 4: c.o(AssocLegendre(n, n / 2, x)); c.o(AssocLaguerre(n, 1, x)); c.o(Beta(x, x + 1)); c.o(Expint(x)); break; case 5: c.o(Factorial(n + 5)); c.o((double)FactorialInt(n)); c.o(FactorialStirling(n + 3)); break; default: c.o(Erf(x)); c.o(Erfc(x)); c.o(TGamma(x + 1)); c.o(LGamma(x + 2)); } }); }
OP("singularity.policy", SH | HI) { double r = c.b() ? c.in(0.0) : c.in(c.u()), th = c.b() ? 0 : c.in(c.u(0, 3)); return inst([=](Ctx& c) { using namespace Singularity; auto p = (SingularityPolicy)c.i(0, 4); gt(c, [&] { switch (c.i(0, 5)) { case 0: c.o(SafeDivide(c.u(), r, p, "x")); break; case 1: c.o(SafeInverseR(r, p)); break; case 2: c.o(SafeInverseR2(r, p)); break; case 3: c.o(SafeInverseRSinTheta(r, th, p)); break; case 4: c.o(SafeInverseR2Sin2Theta(r, th, p)); c.o(DescribeSphericalSingularity(r, th)); break; default: c.o(SafeCotThetaOverR2(r, th, p)); } }); }); }
OP("stat.proportions", SH) { int n = c.i(5, 60), m = c.i(5, 60); return inst([=](Ctx& c) { using namespace Statistics; double k = c.u(.7, .99); int a = c.i(0, n), b = c.i(0, m); gt(c, [&] { auto r = c.b() ? ConfidenceIntervalProportion(a, n, k) : ConfidenceIntervalProportionDifference(a, n, b, m, k); c.o(r.estimate); c.o(r.lowerBound); c.o(r.upperBound); c.o(r.parameter); }); }); }
OP("angles", SH | HI) { return inst([=](Ctx& c) { using namespace Utils; double x = c.in(c.u(-10, 10)); c.o(DegToRad(x)); c.o(RadToDeg(x)); Real d, m, s; AngleDegToExplicit(x * 30, d, m, s); c.o(d); c.o(m); c.o(s); c.o(ExplicitToAngleDeg(d, m, s)); c.o(ExplicitToAngleRad(d, m, s)); c.o(LeviCivita(c.i(1, 3), c.i(1, 3), c.i(1, 3))); c.o(KroneckerDelta(c.i(0, 1), 1)); c.o(AngleTo2PiRange(c.u(-10, 10))); c.o(AngleToPiPiRange(c.u(-10, 10))); }); }

struct Vdp : public IDynamicalSystem { double p[2]; std::vector<std::string> nm{"x", "v"}; Vdp(Ctx& c) { p[0] = c.u(.2, 1.5); p[1] = c.u(.5, 1.5); }
    int getDim() const override { return 2; } void derivs(Real, const Vector<Real>& x, Vector<Real>& d) const override { tick(); d[0] = hv(x[1]); d[1] = hv(p[0] * (1 - x[0] * x[0]) * x[1] - p[1] * x[0]); }
    int getNumParam() const override { return 2; } Real getParam(int i) const override { return p[i]; } void setParam(int i, Real v) override { p[i] = v; } std::string getStateName(int i) const override { return nm[i]; } std::string getParamName(int i) const override { return i ? "k" : "mu"; } };
OP("dyn.facade", CB | SLOW) { auto s = std::make_shared<Vdp>(c); return inst([=](Ctx& c) { auto q = via(c, s); Systems::DynamicalSystemAnalyzer<Real> A(*q); Vector<Real> x{c.u(), c.u()}; switch (c.i(0, 5)) {
    case 0: { auto r = A.Analyze(x, {Vector<Real>{.1, .1}}, 3); c.o(r.dimension); c.o(r.stateNames); c.o(r.fixedPoints.size()); c.o(r.lyapunov.maxExponent); c.o(r.isChaotic); c.o(r.kaplanYorkeDimension); c.o(r.summary); break; } case 1: c.o(A.ScanChaosVsParameter(0, .3, 1.2, 3, x, 2)); break;
    case 2: { auto r = A.ComputeBifurcation(1, .5, 1.2, 3, x, 0, 1, 5); c.o(r.parameterValues); for (auto& v : r.attractorValues) c.o(v); break; } case 3: for (auto& p : A.ComputePoincareSection(x, Systems::PoincareSection<Real>(0, 0, 1), 1, .2)) c.o(p); break; case 4: c.o(A.ComputeMaxLyapunov(x, 3)); break; default: { auto r = A.ComputeLyapunov(x, 3, .5, .05); c.o(r.exponents); c.o(r.sum); } } c.o(q->p[0]); c.o(q->p[1]); }); }
