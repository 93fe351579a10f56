// linear systems with cached factorisations, reference frames, coordinate transformations, field lines, fields
#include "fun.h"
#include "mml/systems/LinearSystem.h"
#include "mml/core/CoordSystem.h"
#include "mml/core/CoordTransf.h"
#include "mml/core/CoordTransf/CoordTransf2D.h"
#include "mml/core/CoordTransf/CoordTransf3D.h"
#include "mml/core/CoordTransf/CoordTransfCylindrical.h"
#include "mml/core/CoordTransf/CoordTransfSpherical.h"
#include "mml/core/CoordTransf/CoordTransfLorentz.h"
#include "mml/core/Fields.h"
#include "mml/core/MetricTensor.h"
#include "mml/algorithms/FieldLineTracer.h"
#include "mml/algorithms/FieldAnalyzers.h"
using namespace MML; using namespace cat; using namespace MML::Systems; using namespace MML::Fields;
template <class F> static void gt(Ctx& c, F f) { try { f(); } catch (const MMLException& e) { auto* s = dynamic_cast<const std::exception*>(&e); c.o(s ? s->what() : "?"); } catch (const std::invalid_argument& e) { c.o(e.what()); } }
static Matrix<Real> lsm(Ctx& c) { int n = c.i(1, 4); switch (c.i(0, 6)) { case 0: return spd(c, n); case 1: return symm(c, n); case 2: { auto a = mat(c, n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a(i, j) = 0; return a; } case 3: return mat(c, n + c.i(1, 2), n); case 4: { auto a = symm(c, n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a(i, j) += c.u(-1e-3, 1e-3); return a; } case 5: { auto a = mat(c, n, n); for (int j = 0; j < n; ++j) a(n - 1, j) = a(0, j); return a; } default: return dd(c, n); } }
static void lsq(Ctx& c, const LinearSystem<Real>& s) {
    switch (c.i(0, 18)) {
    case 0: c.o(s.Solve()); break;
    case 1: c.o(s.isSymmetric(c.b() ? 1e-10 : 0.1)); break;
    case 2: c.o(s.isPositiveDefinite(c.b() ? 1e-10 : 0.1)); break;
    case 3: c.o(s.Rank(c.i(0, 2) - 1)); c.o(s.Nullity(c.b() ? -1 : 0.5)); break;
    case 4: c.o(s.ConditionNumber()); c.o((int)s.AssessStability()); c.o(s.ExpectedDigitsLost()); break;
    case 5: { auto f = s.GetLU(); c.o(f.valid); if (f.valid) c.o(f.determinant); break; }
    case 6: { auto f = s.GetQR(); c.o(f.valid); if (f.valid) { c.o(f.Q); c.o(f.R); } break; }
    case 7: { auto f = s.GetSVD(); c.o(f.valid); if (f.valid) { c.o(f.singularValues); c.o(f.rank); } break; }
    case 8: { auto f = s.GetCholesky(); c.o(f.valid); if (f.valid) c.o(f.L); break; }
    case 9: c.o(s.SolveByLU()); break;
    case 10: c.o(s.SolveByQR()); c.o(s.SolveLeastSquares()); break;
    case 11: c.o(s.SolveBySVD()); break;
    case 12: c.o(s.SolveIterative((IterativeMethod)c.i(0, 3), 1e-8, c.i(5, 200))); break;
    case 13: { auto r = s.Verify(s.Solve(), 1e-9); c.o(r.absoluteResidual); c.o(r.relativeResidual); c.o(r.backwardError); c.o(r.estimatedForwardError); c.o(r.isAccurate); break; }
    case 14: { auto a = s.Analyze(); c.o(a.isSymmetric); c.o(a.isPositiveDefinite); c.o(a.determinant); c.o(a.rank); c.o(a.conditionNumber); c.o(a.hasUniqueSolution); c.o(a.recommendedSolver); c.o(a.analysisReport); break; }
    case 15: c.o(s.ConditionNumber1()); c.o(s.ConditionNumberInf()); break;
    case 16: c.o(s.Inverse()); break;
    case 17: c.o(s.PseudoInverse()); c.o(s.NullSpace()); c.o(s.ColumnSpace()); break;
    default: c.o(s.Determinant()); c.o(s.SpectralRadius()); c.o(s.HasComplexEigenvalues()); }
}
OP("sys.linear", HI) { auto A = lsm(c); auto b = vec(c, A.rows()); auto S = std::make_shared<LinearSystem<Real>>(A, b); return inst([=](Ctx& c) { auto v_S = via(c, S); int n = c.i(1, 3); for (int k = 0; k < n; ++k) gt(c, [&] { try { lsq(c, *v_S); } catch (const std::bad_alloc&) { throw; } }); }); }
OP("sys.linear.multiple", HI) { int n = c.i(1, 4); auto A = dd(c, n); auto B = mat(c, n, c.i(1, 3)); auto S = std::make_shared<LinearSystem<Real>>(A, B); return inst([=](Ctx& c) { auto v_S = via(c, S); gt(c, [&] { c.o(v_S->SolveMultiple()); c.o(v_S->GetMatrix()); c.o(v_S->Rank()); }); }); }
// coordinate transformations: every object answers through its own functions
template <class T> static void ct3(Ctx& c, const T& t) { Vec3Cart p(c.u(), c.u(), c.u()); auto q = t.transf(p); c.o(q); c.o(t.transfInverse(p)); for (int k = 0; k < 3; ++k) { c.o(t.coordTransfFunc(k)(p)); c.o(t.inverseCoordTransfFunc(k)(p)); } }
template <class T> static void ct2(Ctx& c, const T& t) { Vector2Cartesian p(c.u(), c.u()); c.o(t.transf(p)); c.o(t.transfInverse(p)); for (int k = 0; k < 2; ++k) { c.o(t.coordTransfFunc(k)(p)); c.o(t.inverseCoordTransfFunc(k)(p)); } }
template <class T, class... A> static Inst* ct3i(A... a) { return inst([=](Ctx& c) { auto v_t = reborn(c, [&] { return std::make_shared<T>(a...); }); ct3(c, *v_t); T copy(*v_t); if (c.b()) { c.o(copy.jacobian(Vec3Cart(c.u(), c.u(), c.u()))); c.o(copy.getBasisVec(c.i(0, 2), Vec3Cart(c.u(), 1, 2))); } }); }
OP("coord.rot.x", SH) { return ct3i<CoordTransfCart3DRotationXAxis>((c.u(-3, 3))); }
OP("coord.rot.y", SH) { return ct3i<CoordTransfCart3DRotationYAxis>((c.u(-3, 3))); }
OP("coord.rot.z", SH) { return ct3i<CoordTransfCart3DRotationZAxis>((c.u(-3, 3))); }
OP("coord.rot.euler", SH) { return ct3i<CoordTransfCart3DRotationEuler>(c.u(-3, 3), c.u(-3, 3), c.u(-3, 3)); }
OP("coord.rot.quaternion", SH) { Vec3Cart ax(c.u(), 1, c.u()); double an = c.u(-3, 3); return inst([=](Ctx& c) { auto v_t = reborn(c, [&] { return std::make_shared<CoordTransfCart3DRotationQuaternion>(ax, an); }); ct3(c, *v_t); auto o = CoordTransfCart3DRotationQuaternion::FromEulerZYX(c.u(), c.u(), c.u()); ct3(c, v_t->Compose(o)); ct3(c, v_t->Interpolate(o, c.u(0, 1))); c.o(v_t->GetRotationAxis()); c.o(v_t->GetRotationAngle()); }); }
OP("coord.orthogonal", SH) { double a = c.u(-3, 3), s = std::sin(a), k = std::cos(a); return ct3i<CoordTransf3DCartOrthogonal>(VectorN<Real, 3>{k, s, 0}, VectorN<Real, 3>{-s, k, 0}, VectorN<Real, 3>{0, 0, 1}); }
OP("coord.general", SH) { MatrixNM<Real, 3, 3> m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = c.u() + (i == j ? 3 : 0); return ct3i<CoordTransf3DCartGeneral>((m)); }
OP("coord.oblique3d", SH) { return ct3i<CoordTransfCartesianToOblique3D>(VectorN<Real, 3>{1, c.u(), 0}, VectorN<Real, 3>{0, 1, c.u()}, VectorN<Real, 3>{c.u(-.5, .5), 0, 1}); }
OP("coord.2d", SH) { double a = c.u(.3, 1.4); return inst([=](Ctx& c) { auto v_r = reborn(c, [&] { return std::make_shared<CoordTransfCart2DRotation>(a); }); auto v_o = reborn(c, [&] { return std::make_shared<CoordTransfObliqueToCartesian2D>(a); }); auto v_p = reborn(c, [&] { return std::make_shared<CoordTransfCartesianToOblique2D>(a); }); ct2(c, *v_r); ct2(c, *v_o); ct2(c, *v_p); CoordTransfPolarToCartesian2D q; c.o(q.transf(Vector2Polar(c.u(1, 2), c.u()))); c.o(q.transfInverse(Vector2Cartesian(c.u(), c.u()))); }); }
OP("coord.lorentz", SH) { double vl = c.u(-.9, .9); return inst([=](Ctx& c) { auto v_t = reborn(c, [&] { return std::make_shared<CoordTransfLorentzXAxis>(vl); }); Vector4Minkowski p{c.u(), c.u(), c.u(), c.u()}; c.o(v_t->transf(p)); c.o(v_t->transfInverse(p)); for (int k = 0; k < 4; ++k) { c.o(v_t->coordTransfFunc(k)(p)); c.o(v_t->inverseCoordTransfFunc(k)(p)); } }); }
OP("coord.tensors", SH) { return inst([=](Ctx& c) { CoordTransfSphericalToCartesian t; CoordTransfCartesianToSpherical u; Vec3Sph s(c.u(1, 2), c.u(.5, 2), c.u()); auto x = t.transf(s); c.o(t.transfVecContravariant(Vec3Sph(c.u(), c.u(), c.u()), s)); c.o(u.transfVecCovariant(Vec3Cart(c.u(), c.u(), c.u()), s)); Tensor2<3> T(0, 2); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) T(i, j) = c.u(); c.o(u.transfTensor2(T, x).GetMatrix()); MetricTensorFromCoordTransf<Vector3Spherical, Vector3Cartesian, 3> g(t); c.o(g.GetCovariantMetric(s)); c.o(g.GetContravariantMetric(s)); c.o(g.GetChristoffelSymbolSecondKind(c.i(0, 2), c.i(0, 2), c.i(0, 2), s)); }); }
// reference frames: a tree of non-owning links
struct Tree { static bool sane(const std::vector<std::unique_ptr<ReferenceFrame3D>>& f) { for (auto& a : f) if (a) { int n = 0; for (auto* k : a->GetChildFrames()) { bool known = false; for (auto& b : f) known = known || b.get() == k; if (!known || k->GetParentFrame() != a.get()) return false; ++n; } auto* p = a->GetParentFrame(); if (p) { bool known = false; for (auto& b : f) known = known || b.get() == p; if (!known) return false; int m = 0; for (auto* k : p->GetChildFrames()) m += k == a.get(); if (m != 1) return false; } int d = 0; for (auto* q = a.get(); q; q = q->GetParentFrame()) if (++d > 20) return false; } return true; } };
OP("sys.frames", 0) { return inst([=](Ctx& c) { std::vector<std::unique_ptr<ReferenceFrame3D>> f; int n = c.i(2, 6); for (int k = 0; k < n; ++k) { ReferenceFrame3D* p = k && c.b() ? f[(size_t)c.i(0, k - 1)].get() : nullptr; f.push_back(nullptr); double w = c.u(1, 2); Vec3Cart v(c.u(), c.u(), c.u()); int kind = c.i(0, 3); again(c, [&] { switch (kind) { case 0: f.back() = std::make_unique<InertialFrame3D>(p, v, Vec3Cart(1, 2, 3)); break; case 1: f.back() = std::make_unique<CircleOrbitingFrame3DCartesian>(p, 2.0, w); break; case 2: f.back() = std::make_unique<HardSphereRotatingFrame>(p, 1.0, w, VectorN<Real, 3>{0, 0, 1}); break; default: f.back() = std::make_unique<ReferenceFrame3D>(p); } }, [&] { return Tree::sane(f); }); }
    int m = c.i(0, 8); for (int k = 0; k < m; ++k) { size_t a = (size_t)c.i(0, n - 1), b = (size_t)c.i(0, n - 1); if (!f[a] || !f[b]) continue; bool r = false; int what = c.i(0, 4); again(c, [&] { switch (what) { case 0: r = f[a]->SetParentFrame(f[b].get()); break; case 1: r = f[a]->AddChildFrame(f[b].get()); break; case 2: r = f[a]->RemoveChildFrame(f[b].get()); break; case 3: r = f[a]->SetParentFrame(nullptr); break; default: f[a].reset(); } }, [&] { return Tree::sane(f); }); c.o(r); c.o(Tree::sane(f)); }
    for (auto& a : f) if (a) { c.o(a->GetChildFrames().size()); c.o(a->GetOriginPositionAtTime(c.u())); c.o(a->GetLocalPosInParentFrameAtTime(VectorN<Real, 3>{c.u(), 0, 1}, c.u())); } }); }
OP("sys.frames.copy", SH) { auto P = std::make_shared<InertialFrame3D>(nullptr, Vec3Cart(1, 0, 0), Vec3Cart(c.u(), 0, 0)); auto A = std::make_shared<CircleOrbitingFrame3DCartesian>(P.get(), 2.0, c.u(1, 3)); auto B = std::make_shared<HardSphereRotatingFrame>(A.get(), 1.0, 2.0, VectorN<Real, 3>{0, 0, 1}); return inst([=](Ctx& c) { { auto v_A = via(c, A); const ReferenceFrame3D& a = *v_A; c.o(a.GetOriginPositionAtTime(c.u())); c.o(a.GetLocalPosInParentFrameAtTime(VectorN<Real, 3>{c.u(), 0, 1}, c.u())); c.o(a.GetParentFrame() == P.get()); bool mine = true; for (auto* k : P->GetChildFrames()) mine = mine && k->GetParentFrame() == P.get(); c.o(mine); if (&a != A.get()) { c.o(P->GetChildFrames().size() == 2); c.o(a.GetChildFrames().size() <= 1); } else { c.o(true); c.o(true); } } c.o(B->GetParentFrame() == A.get()); c.o(A->GetChildFrames().size()); c.o(P->GetChildFrames().size()); }); }
// field lines
template <int N> static void fl(Ctx& c, const FieldLine<N>& l) { c.o(l.points); c.o(l.totalLength); c.o(l.hitBoundary); c.o(l.hitSingularity); }
OP("field.lines.2d", SH | CB | IT, 60000) { auto f = vf<2>(c); FieldLineTracer<2>::Config k; k.stepSize = c.u(.02, .3); k.maxLength = c.u(1, 20); k.maxPoints = c.i(1, 200); k.traceForward = c.i(0, 3); k.traceBackward = c.b(); auto T = std::make_shared<FieldLineTracer<2>>(k); return inst([=](Ctx& c) { auto v_T = via(c, T); auto box = BoundingBox<2>::Create2D(-2, 2, -2, 2); if (c.b()) { auto l = v_T->Trace(*f, VectorN<Real, 2>{c.u(), c.u()}, box); fl(c, l); c.within((long)l.points.size(), 2 * k.maxPoints + 1); } else for (auto& l : v_T->TraceFromSource(*f, VectorN<Real, 2>{c.u(), c.u()}, c.i(0, 5), .1, box)) { fl(c, l); c.within((long)l.points.size(), 2 * k.maxPoints + 1); } }); }
OP("field.lines.3d", SH | CB | IT, 60000) { auto f = vf<3>(c); FieldLineTracer<3>::Config k; k.stepSize = c.u(.02, .3); k.maxLength = c.u(1, 20); k.maxPoints = c.i(1, 200); k.traceBackward = c.b(); auto T = std::make_shared<FieldLineTracer<3>>(k); return inst([=](Ctx& c) { auto v_T = via(c, T); auto box = BoundingBox<3>::Create3D(-2, 2, -2, 2, -2, 2); switch (c.i(0, 2)) { case 0: { auto l = v_T->Trace(*f, vecn<3>(c), box); fl(c, l); c.within((long)l.points.size(), 2 * k.maxPoints + 1); break; } case 1: for (auto& l : v_T->TraceFromSource(*f, vecn<3>(c), c.i(0, 4), .1, box)) fl(c, l); break; default: { std::vector<VectorN<Real, 3>> s; for (int i = c.i(0, 3); i > 0; --i) s.push_back(vecn<3>(c, -2.5, 2.5)); for (auto& l : v_T->TraceFromSeedPoints(*f, s, box)) fl(c, l); } } }); }
OP("field.classes", SH | HI) { auto x0 = vecn<3>(c); double k = c.in(c.u(.5, 2)); return inst([=](Ctx& c) { VectorN<Real, 3> p{c.u(.5, 2), c.u(.5, 2), c.u(.5, 2)}; gt(c, [&] { InverseRadialFieldCart a(k); c.o(a(p)); c.o(InverseRadialForceFieldCart(k)(p)); c.o(InfiniteLineCurrentField(k)(p)); c.o(InfiniteLineCurrentFieldGeneral(Line3D(Pnt3Cart(0, 0, 0), Vec3Cart(0, 0, 1)), k)(p)); c.o(VortexField(k)(p)); c.o(PotentialVortexField(k)(p)); c.o(SaddleField(k)(p)); c.o(SourceSinkField(k, x0)(p)); c.o(DipoleField(x0)(p)); c.o(GaussianBumpField(1, k, x0)(p)); }); }); }
