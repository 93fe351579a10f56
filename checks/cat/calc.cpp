// differentiation, Jacobians, automatic differentiation, extrapolation, field operators, curve and surface calculus
#include "fun.h"
#include "mml/core/Derivation.h"
#include "mml/core/Derivation/ForwardAD.h"
#include "mml/core/Derivation/Jacobians.h"
#include "mml/core/RichardsonExtrapolation.h"
#include "mml/core/FieldOperations.h"
#include "mml/core/Fields.h"
#include "mml/core/FunctionHelpers.h"
#include "mml/core/Curves.h"
#include "mml/core/Surfaces.h"
#include "mml/core/MetricTensor.h"
#include "mml/core/CoordTransf/CoordTransfSpherical.h"
#include "mml/core/CoordTransf/CoordTransfCylindrical.h"
#include "mml/core/CoordTransf/CoordTransf3D.h"
#include "mml/core/CoordTransf/CoordTransfLorentz.h"
#include "mml/algorithms/FieldAnalyzers.h"
using namespace MML; using namespace cat;

OP("der.real", SH | CB) { auto f = rf(c); return inst([=](Ctx& c) { double x = c.u(), e = 0; switch (c.i(0, 11)) {
    case 0: c.o(Derivation::NDer1(*f, x, &e)); break; case 1: c.o(Derivation::NDer2(*f, x, &e)); break; case 2: c.o(Derivation::NDer4(*f, x, &e)); break;
    case 3: c.o(Derivation::NDer6(*f, x, &e)); break; case 4: c.o(Derivation::NDer8(*f, x, &e)); break; case 5: c.o(Derivation::NSecDer2(*f, x, &e)); c.o(Derivation::NSecDer4(*f, x)); break;
    case 6: c.o(Derivation::NThirdDer2(*f, x, &e)); c.o(Derivation::NThirdDer4(*f, x)); break; case 7: c.o(Derivation::NDer1Left(*f, x)); c.o(Derivation::NDer2Right(*f, x)); c.o(Derivation::NDer4Left(*f, x)); break;
    case 8: c.o(Derivation::NDerRichardson(*f, x, &e)); break; case 9: c.o(Derivation::NSecDerRichardson(*f, x, &e)); c.o(Derivation::NThirdDerRichardson(*f, x, &e)); break;
    case 10: c.o(Derivation::NDerAdaptive(*f, x, &e)); c.o(Derivation::NSecDerAdaptive(*f, x, &e)); break; default: c.o(Derivation::NThirdDerAdaptive(*f, x, &e)); c.o(Derivation::NDer8Left(*f, x)); } c.o(e); }); }
template <class D> static void derdet(Ctx& c, D d) { DerivativeConfig k; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; k.estimate_error = c.b(); auto r = d(k); ev(c, r); c.o(r.value); c.o(r.error); c.o(r.step_used); if (r.IsSuccess()) c.fin(r.value); }
OP("der.real.detailed", SH | CB | TM | IT, 60) { auto f = rf(c); return inst([=](Ctx& c) { double x = c.u(); int w = c.i(0, 8); switch (w) {
    case 0: derdet(c, [&](auto& k) { return Derivation::NDer1Detailed(*f, x, k); }); break; case 1: derdet(c, [&](auto& k) { return Derivation::NDer2Detailed(*f, x, k); }); break;
    case 2: derdet(c, [&](auto& k) { return Derivation::NDer4Detailed(*f, x, k); }); break; case 3: derdet(c, [&](auto& k) { return Derivation::NDer6Detailed(*f, x, k); }); break;
    case 4: derdet(c, [&](auto& k) { return Derivation::NDer8Detailed(*f, x, k); }); break; case 5: derdet(c, [&](auto& k) { return Derivation::NSecDer2Detailed(*f, x, k); }); break;
    case 6: derdet(c, [&](auto& k) { return Derivation::NSecDer4Detailed(*f, x, k); }); break; case 7: derdet(c, [&](auto& k) { return Derivation::NThirdDer2Detailed(*f, x, k); }); break;
    default: derdet(c, [&](auto& k) { return Derivation::NThirdDer4Detailed(*f, x, k); }); } }); }
OP("der.scalar", SH | CB) { auto f = sf<3>(c); return inst([=](Ctx& c) { auto x = vecn<3>(c); VectorN<Real, 3> e; int i = c.i(0, 2); switch (c.i(0, 5)) {
    case 0: c.o(Derivation::NDer1Partial<3>(*f, i, x)); c.o(Derivation::NDer1PartialByAll<3>(*f, x, &e)); break; case 1: c.o(Derivation::NDer2Partial<3>(*f, i, x)); c.o(Derivation::NDer2PartialByAll<3>(*f, x, &e)); break;
    case 2: c.o(Derivation::NDer4Partial<3>(*f, i, x)); c.o(Derivation::NDer4PartialByAll<3>(*f, x, &e)); break; case 3: c.o(Derivation::NDer6Partial<3>(*f, i, x)); break;
    case 4: c.o(Derivation::NDer8Partial<3>(*f, i, x)); break; default: c.o(Derivation::NSecDer4Partial<3>(*f, i, (i + 1) % 3, x)); } c.o(e); }); }
OP("der.vector", SH | CB) { auto f = vf<3>(c); return inst([=](Ctx& c) { auto x = vecn<3>(c); int i = c.i(0, 2), j = c.i(0, 2); switch (c.i(0, 4)) {
    case 0: c.o(Derivation::NDer1Partial<3>(*f, i, j, x)); break; case 1: c.o(Derivation::NDer2PartialByAll<3>(*f, i, x)); break; case 2: c.o(Derivation::NDer4PartialAllByAll<3>(*f, x)); break;
    case 3: c.o(Derivation::calcJacobian<3>(*f, x)); break; default: c.o(Derivation::NDer8Partial<3>(*f, i, j, x)); } }); }
OP("der.curve", SH | CB) { auto f = cf<3>(c, -2, 2); return inst([=](Ctx& c) { double t = c.u(); switch (c.i(0, 6)) {
    case 0: c.o(Derivation::NDer1<3>(*f, t)); break; case 1: c.o(Derivation::NDer2<3>(*f, t)); break; case 2: c.o(Derivation::NDer4<3>(*f, t)); break; case 3: c.o(Derivation::NDer6<3>(*f, t)); c.o(Derivation::NDer8<3>(*f, t)); break;
    case 4: c.o(Derivation::NSecDer2<3>(*f, t)); c.o(Derivation::NSecDer4<3>(*f, t)); break; case 5: c.o(Derivation::NThirdDer2<3>(*f, t)); break; default: c.o(Derivation::NThirdDer4<3>(*f, t)); } }); }
OP("der.surface", SH | CB) { auto f = suf(c); return inst([=](Ctx& c) { double u = c.u(-.8, .8), w = c.u(-.8, .8); c.o(Derivation::NDer1_u<3>(*f, u, w)); c.o(Derivation::NDer2_w<3>(*f, u, w)); c.o(Derivation::NDer2_uu<3>(*f, u, w)); c.o(Derivation::NDer2_uw<3>(*f, u, w)); c.o(Derivation::NDer2_ww<3>(*f, u, w)); }); }
OP("der.jacobian.dyn", SH | CB) { int n = c.i(1, 4); std::vector<F1> k(n); for (auto& q : k) q = f1(c); std::function<Vector<Real>(const Vector<Real>&)> f = [=](const Vector<Real>& x) { tick(); Vector<Real> r(n); for (int i = 0; i < n; ++i) r[i] = hv(k[i].raw(x[i]) + x[(i + 1) % n]); return r; };
    std::function<void(Real, const Vector<Real>&, Vector<Real>&)> g = [=](Real t, const Vector<Real>& x, Vector<Real>& d) { tick(); for (int i = 0; i < n; ++i) d[i] = hv(k[i].raw(x[i]) + t); };
    return inst([=](Ctx& c) { auto x = vec(c, n); c.o(Derivation::calcJacobianDyn(f, x)); c.o(Derivation::calcJacobianDyn2(f, x)); c.o(Derivation::NDer4PartialDyn(f, 0, n - 1, x)); c.o(Derivation::calcJacobianODE(g, 0.3, x)); Matrix<Real> J(n, n); Derivation::calcJacobianMap(f, x, J); c.o(J); }); }
OP("der.autodiff", SH | CB) { double a = c.u(), b = c.u(0.5, 2); return inst([=](Ctx& c) { using namespace MML::Symbolic; auto f = [&](auto x) { tick(); return sin(x * a) * exp(x / b) + x * x - 1.0 / (x * x + 2.0); }; auto d = derivative(f, c.u()); c.o(d.first); c.o(d.second);
    auto g = [&](const std::vector<Dual<double>>& v) { tick(); return v[0] * v[1] + cos(v[0]) + a; }; c.o(gradient(g, std::vector<double>{c.u(), c.u()})); }); }
OP("richardson", SH | CB | IT, 40) { F1 k = f1(c); return inst([=](Ctx& c) { int mi = c.i(2, 12); auto r = Richardson::Extrapolate([&](Real h) { return cb(k.a + k.b * h * h + k.c * h * h * h); }, c.u(0.1, 0.5), 1.4, mi); c.o(r.value); c.o(r.error_estimate); c.o(r.iterations); c.claim(r.converged); if (r.converged) { c.fin(r.value); } }); }
OP("richardson.neville", SH | HI) { int n = c.i(2, 6); auto y = svec(c, n); std::vector<double> x(n); for (int i = 0; i < n; ++i) x[i] = (i + 1) * 0.3; return inst([=](Ctx& c) { auto r = Richardson::NevilleExtrapolate(y, x); c.o(r.value); c.o(r.error_estimate); c.o(r.iterations); }); }
OP("fn.helpers", SH | CB) { auto f = rf(c), g = rf(c); return inst([=](Ctx& c) { double x = c.u(); auto t2 = TaylorSeries2(*f, x); auto t3 = TaylorSeries3(*f, x); c.o(t2(x + .1)); c.o(t3(x + .1)); RealFuncDerived4 d(*f); RealFuncSecondDerived2 d2(*f); c.o(d(x)); c.o(d2(x)); RealFuncSum s(*f, *g); RealFuncProduct p(*f, *g); RealFuncCompose k(*f, *g); c.o(s(x)); c.o(p(x)); c.o(k(x)); RealFuncDerived8 d8(s, 1e-2); c.o(d8(x)); }); }

OP("field.grad", SH | CB) { auto f = sf<3>(c); return inst([=](Ctx& c) { auto x = vecn<3>(c); Vec3Sph s; s[0] = c.u(0.5, 2); s[1] = c.u(0.4, 2.5); s[2] = c.u(0.1, 3); Vec3Cyl y; y[0] = c.u(0.5, 2); y[1] = c.u(0, 3); y[2] = c.u(); switch (c.i(0, 5)) {
    case 0: c.o(ScalarFieldOperations::GradientCart<3>(*f, x)); c.o(ScalarFieldOperations::GradientCart<3>(*f, x, 1 << c.i(0, 1))); break; case 1: c.o(ScalarFieldOperations::GradientSpher(*f, s)); break; case 2: c.o(ScalarFieldOperations::GradientCyl(*f, y)); break;
    case 3: c.o(ScalarFieldOperations::LaplacianCart<3>(*f, x)); break; case 4: c.o(ScalarFieldOperations::LaplacianSpher(*f, s)); break; default: c.o(ScalarFieldOperations::LaplacianCyl(*f, y)); } }); }
OP("field.divcurl", SH | CB) { auto f = vf<3>(c); return inst([=](Ctx& c) { auto x = vecn<3>(c); VectorN<Real, 3> s{c.u(0.5, 2), c.u(0.4, 2.5), c.u(0.1, 3)}; switch (c.i(0, 5)) {
    case 0: c.o(VectorFieldOperations::DivCart<3>(*f, x)); break; case 1: c.o(VectorFieldOperations::DivSpher(*f, s)); break; case 2: c.o(VectorFieldOperations::DivCyl(*f, s)); break;
    case 3: c.o(VectorFieldOperations::CurlCart(*f, x)); break; case 4: c.o(VectorFieldOperations::CurlSpher(*f, s)); break; default: c.o(VectorFieldOperations::CurlCyl(*f, s)); } }); }
OP("field.detailed", SH | CB | TM | IT, 400) { auto f = sf<3>(c); auto g = vf<3>(c); return inst([=](Ctx& c) { FieldOperationConfig k; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto x = vecn<3>(c); VectorN<Real, 3> s{c.u(0.5, 2), c.u(0.4, 2.5), c.u(0.1, 3)};
    auto v = [&](auto r) { ev(c, r); if (r.IsSuccess()) c.finv(r.value, 3); }; auto w = [&](auto r) { ev(c, r); if (r.IsSuccess()) c.fin(r.value); };
    switch (c.i(0, 4)) { case 0: v(ScalarFieldOperations::GradientCartDetailed<3>(*f, x, k)); break; case 1: w(ScalarFieldOperations::LaplacianCartDetailed<3>(*f, x, k)); break; case 2: w(VectorFieldOperations::DivCartDetailed<3>(*g, x, k)); break; case 3: v(VectorFieldOperations::CurlCartDetailed(*g, x, k)); break; default: w(VectorFieldOperations::DivSpherDetailed(*g, s, k)); } }); }
OP("field.metric", SH | CB) { auto f = sf<3>(c); auto g = vf<3>(c); auto M = std::make_shared<MetricTensorSpherical>(); auto MC = std::make_shared<MetricTensorCylindrical>(); return inst([=](Ctx& c) { VectorN<Real, 3> s{c.u(0.5, 2), c.u(0.4, 2.5), c.u(0.1, 3)}; int i = c.i(0, 2), j = c.i(0, 2), k = c.i(0, 2); switch (c.i(0, 4)) {
    case 0: c.o(M->GetChristoffelSymbolSecondKind(i, j, k, s)); c.o(MC->GetChristoffelSymbolFirstKind(i, j, k, s)); break; case 1: c.o(M->GetCovariantMetric(s)); c.o(M->GetContravariantMetric(s)); break; case 2: c.o(ScalarFieldOperations::Gradient<3>(*f, s, *M)); break;
    case 3: c.o(VectorFieldOperations::Divergence<3>(*g, s, *MC)); c.o(VectorFieldOperations::DivergenceViaDet<3>(*g, s, *MC)); break; default: c.o(M->CovariantDerivativeContravar(*g, j, s)); c.o(MC->RaiseIndex(s, s)); c.o(M->CovariantDerivativeCovarComp(*g, i, j, s)); } }); }
OP("field.analyze", SH | CB | SLOW) { auto f = sf<3>(c); auto g = vf<3>(c); return inst([=](Ctx& c) { auto x = vecn<3>(c); Vec3Cart p(x[0], x[1], x[2]); ScalarFieldAnalyzer A(*f); VectorFieldAnalyzer B(*g); c.o(A.GradientAt(p)); c.o(A.LaplacianAt(p)); c.o(B.DivergenceAt(p)); c.o(B.CurlAt(p)); }); }
OP("field.std", SH | HI) { double k = c.u(0.5, 2); auto d = vecn<3>(c); auto ctr = vecn<3>(c); return inst([=](Ctx& c) { auto x = vecn<3>(c); x[0] += 2; using namespace Fields; c.o(InverseRadialFieldCart(k)(x)); c.o(InverseRadialForceFieldCart(k)(x)); c.o(VortexField(d)(x)); c.o(PotentialVortexField(k, d)(x)); c.o(SaddleField(k)(x)); c.o(SourceSinkField(k, ctr)(x)); c.o(DipoleField(d, ctr)(x)); c.o(GaussianBumpField(1.0, k, ctr)(x)); c.o(MexicanHatField(1.0, k, ctr)(x)); c.o(InfiniteLineCurrentField(k)(x)); }); }

OP("curve.geometry", SH) { int w = c.i(0, 3); std::shared_ptr<Curves::ICurveCartesian3D> q; if (w == 0) q = std::make_shared<Curves::HelixCurve>(c.u(0.5, 2), c.u(0.1, 1)); else if (w == 1) q = std::make_shared<Curves::TwistedCubicCurve>(); else if (w == 2) q = std::make_shared<Curves::ToroidalSpiralCurve>(c.i(3, 7), 1.0); else q = std::make_shared<Curves::Circle3DCurve>(c.u(0.5, 2), Vec3Cart(0.3, 0.2, 1), Pnt3Cart(c.u(), 0, 1));
    return inst([=](Ctx& c) { double t = c.u(0.2, 2); switch (c.i(0, 3)) { case 0: c.o(q->getTangentUnit(t)); c.o(q->getNormal(t)); c.o(q->getBinormal(t)); break; case 1: c.o(q->getCurvature(t)); c.o(q->getTorsion(t)); c.o(q->getRadiusOfCurvature(t)); break; case 2: { auto p = q->getOsculationPlane(t); c.o(p.A()); c.o(p.D()); break; } default: c.o(q->isArcLengthParametrized(0.1, 1.0, 20)); c.o(q->getCurvatureVector(t)); } }); }
OP("curve.plane", 0) { auto A = std::make_shared<Curves::EpitrochoidCurve>(1.0, c.u(0.2, 0.9), c.i(2, 5)); auto B = std::make_shared<Curves::LogSpiralCurve>(-0.3, 1.0); return inst([=](Ctx& c) { auto v_A = via(c, A); auto v_B = via(c, B); double t = c.u(0.2, 2); c.o(v_A->getTangentUnit(t)); c.o(v_A->getCurvature(t)); c.o(v_B->getSignedCurvature(t)); c.o(v_B->getNormalUnit(t)); Curves::Circle2DCurvePolar P(1.3); c.o(P.getTangent(t)); c.o(P.getCurvature(t)); }); }
OP("surface.geometry", 0) { int w = c.i(0, 4); std::shared_ptr<Surfaces::ISurfaceCartesian> q; if (w == 0) q = std::make_shared<Surfaces::Torus>(2.0, c.u(0.3, 1)); else if (w == 1) q = std::make_shared<Surfaces::Sphere>(c.u(0.5, 2)); else if (w == 2) q = std::make_shared<Surfaces::MonkeySaddle>(); else if (w == 3) q = std::make_shared<Surfaces::Ellipsoid>(1.0, 2.0, c.u(0.5, 3)); else q = std::make_shared<Surfaces::EnneperSurface>();
    return inst([=](Ctx& c) { double u = c.u(0.3, 1.2), v = c.u(0.3, 1.2); switch (c.i(0, 3)) { case 0: c.o(q->Normal(u, v)); break; case 1: { Real a, b; q->PrincipalCurvatures(u, v, a, b); c.o(a); c.o(b); break; } case 2: c.o(q->GaussianCurvature(u, v)); c.o(q->MeanCurvature(u, v)); c.o(q->isRegular(u, v)); break; default: c.o(q->GetFirstNormalFormCoefficients(u, v)); c.o(q->GetSecondNormalFormCoefficients(u, v)); c.o(q->isHyperbolic(u, v)); } }); }
OP("coord.transf", SH | HI) { auto x0 = vecn<3>(c); return inst([=](Ctx& c) { auto x = vecn<3>(c); Vec3Cart p(x[0] + 2, x[1] + 2, x[2]); auto s = CoordTransfCartToSpher.transf(p); c.o(s); c.o(CoordTransfSpherToCart.transf(s)); auto y = CoordTransfCartToCyl.transf(p); c.o(y); c.o(CoordTransfCylToCart.transf(y)); c.o(CoordTransfSpherToCart.getBasisVec(1, s)); c.o(CoordTransfCartToSpher.jacobian(p)); c.o(CoordTransfSpherToCart.transfVecContravariant(Vec3Sph(x0), s)); CoordTransfCart3DRotationXAxis R(c.u()); c.o(R.transf(p)); c.o(R.transfInverse(p)); }); }
