// containers under mutation: what a failed allocation, a copy or a move leaves behind
#include "fun.h"
#include "mml/base/Matrix/Matrix3D.h"
#include "mml/base/Matrix/MatrixSym.h"
#include "mml/base/Matrix/MatrixTriDiag.h"
#include "mml/base/Matrix/MatrixBandDiag.h"
#include "mml/base/Matrix/MatrixNM.h"
#include "mml/base/Polynom.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/base/Intervals.h"
#include "mml/base/Quaternions.h"
#include "mml/base/Tensor.h"
#include "mml/tools/DataLoader.h"
#include "mml/tools/Timer.h"
using namespace MML; using namespace cat; using namespace MML::Data;
template <class V> static void ovec(Ctx& c, const V& v) { c.o((int)v.size()); c.o((int)(v.end() - v.begin())); for (int i = 0; i < (int)v.size(); ++i) c.o(v[i]); }
template <class T> static void mutate_vector(Ctx& c, const Vector<T>& a, std::function<T(double)> mk) {
    Vector<T> v; int n = c.i(2, 10); auto ok = [&] { return v.size() == (int)(v.end() - v.begin()) && v.empty() == (v.size() == 0); };
    for (int k = 0; k < n; ++k) { int s = v.size(); T x = mk(c.u()); switch (c.i(0, 9)) {
        case 0: case 1: case 2: again(c, [&] { v.push_back(x); }, ok); break;
        case 3: { int p = c.i(0, s); again(c, [&] { v.insert(p, x); }, ok); break; }
        case 4: if (s) v.erase(c.i(0, s - 1)); break;
        case 5: { int m = c.i(0, 9); again(c, [&] { v.Resize(m, true); }, ok); break; }
        case 6: again(c, [&] { v = a; }, ok); break;
        case 7: { again(c, [&] { Vector<T> t = v; v = std::move(t); }, ok); break; }
        case 8: if (s) { int p = c.i(0, s - 1), q = c.i(p, s); v.erase(p, q); } break;
        default: if (c.i(0, 3) == 0) v.Clear(); else if (s) v *= mk(2); }
        ovec(c, v); }
    Vector<T> w(std::move(v)); ovec(c, w); ovec(c, v); again(c, [&] { v.push_back(mk(1)); }, ok); ovec(c, v); try { again(c, [&] { w += w; w = w - w; w = w + a; }, ok); } catch (const MML::VectorDimensionError&) { c.o(-1); } ovec(c, w);
}
OP("cont.vector", HI) { auto a = vec(c, c.i(0, 6)); auto z = cvec(c, c.i(0, 4)); return inst([=](Ctx& c) { if (c.b()) mutate_vector<Real>(c, a, [](double x) { return x; }); else mutate_vector<Complex>(c, z, [](double x) { return Complex(x, 1); }); }); }
template <class M> static void om2(Ctx& c, const M& m) { c.o(m.rows()); c.o(m.cols()); c.o((int)(m.end() - m.begin())); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) c.o(m(i, j)); }
OP("cont.matrix", HI) { auto A = mat(c, c.i(1, 4), c.i(1, 4)); auto S = dd(c, c.i(1, 4)); return inst([=](Ctx& c) { Matrix<Real> m; int n = c.i(2, 8); auto ok = [&] { return (long)m.rows() * m.cols() == m.end() - m.begin(); };
    for (int k = 0; k < n; ++k) { switch (c.i(0, 10)) {
        case 0: again(c, [&] { m = A; }, ok); break;
        case 1: { int r = c.i(1, 5), q = c.i(1, 5); bool p = c.b(); again(c, [&] { m.Resize(r, q, p); }, ok); break; }
        case 2: { Matrix<Real> before = m; again(c, [&] { m.Transpose(); }, [&] { return ok() && (m == before || m == before.transpose()); }); break; }
        case 3: again(c, [&] { m = S; }, ok); { Matrix<Real> b = m; again(c, [&] { m.Invert(); }, [&] { return ok() && m == b; }); } break;
        case 4: if (m.rows()) { m.SwapRows(0, m.rows() - 1); m.SwapCols(0, m.cols() - 1); } break;
        case 5: if (m.rows()) again(c, [&] { m.InitRowWithVector(m.rows() - 1, Vector<Real>(m.cols(), 2.5)); m.InitColWithVector(0, Vector<Real>(m.rows(), .5)); }, ok); break;
        case 6: if (m.rows() && m.rows() == m.cols()) m.MakeUnitMatrix(); break;
        case 7: again(c, [&] { m += m; m *= 2; }, ok); if (0) break; m /= 2; break;
        case 8: again(c, [&] { Matrix<Real> t = m; t *= .5; m = std::move(t); }, ok); break;
        case 9: again(c, [&] { m = m * m.transpose(); }, ok); break;
        default: again(c, [&] { m = m.GetSubmatrix(0, 0, std::min(2, m.rows()), std::min(2, m.cols())); }, ok); } om2(c, m); }
    Matrix<Real> w(std::move(m)); om2(c, w); om2(c, m); again(c, [&] { m = A; }, ok); om2(c, m); }); }
OP("cont.matrix3d", HI) { int a = c.i(1, 3), b = c.i(1, 3), d = c.i(1, 3); auto M = std::make_shared<Matrix3D<Real>>(a, b, d); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < d; ++k) (*M)(i, j, k) = c.in(c.u());
    return inst([=](Ctx& c) { auto v_M = via(c, M); auto out = [&](const Matrix3D<Real>& m) { c.o(m.dim1()); c.o(m.dim2()); c.o(m.dim3()); c.o(m.size()); for (int i = 0; i < m.dim1(); ++i) for (int j = 0; j < m.dim2(); ++j) for (int k = 0; k < m.dim3(); ++k) { c.o(m(i, j, k)); c.o(m[i][j][k]); } };
        out(*v_M); Matrix3D<Real> x; int n = c.i(1, 6); auto ok = [&] { for (int i = 0; i < x.dim1(); ++i) for (int j = 0; j < x.dim2(); ++j) if (x[i][j] != x.data() + ((long)i * x.dim2() + j) * x.dim3()) return false; return true; };
        for (int k = 0; k < n; ++k) { switch (c.i(0, 5)) { case 0: again(c, [&] { x = *v_M; }, ok); break; case 1: { int p = c.i(1, 4), q = c.i(1, 4), r = c.i(1, 3); again(c, [&] { x.Resize(p, q, r); }, ok); break; } case 2: { int p = c.i(0, 4), q = c.i(1, 4), r = c.i(1, 3); again(c, [&] { x.Resize(p, q, r, 1.5); }, ok); break; } case 3: again(c, [&] { x = x * 2.0; }, ok); break; case 4: again(c, [&] { Matrix3D<Real> t(x); x = std::move(t); }, ok); break; default: x.Fill(3); x += 1.0; } out(x); }
        Matrix3D<Real> y(std::move(x)); out(y); out(x); again(c, [&] { x = *v_M; }, ok); out(x); }); }
OP("cont.matrixsym", HI) { auto S = std::make_shared<MatrixSym<Real>>(MatrixSym<Real>::FromFullMatrix(symm(c, c.i(1, 4)))); return inst([=](Ctx& c) { auto v_S = via(c, S); MatrixSym<Real> m; auto out = [&](const MatrixSym<Real>& m) { c.o(m.Dim()); for (int i = 0; i < m.Dim(); ++i) for (int j = 0; j < m.Dim(); ++j) c.o(m(i, j)); }; out(*v_S);
    auto ok = [&] { try { return m.GetAsMatrix().rows() == m.Dim() && MatrixSym<Real>(m).IsEqualTo(m, 0); } catch (const MatrixDimensionError&) { return m.Dim() == 0; } }; int n = c.i(1, 6);
    for (int k = 0; k < n; ++k) { switch (c.i(0, 5)) { case 0: again(c, [&] { m = *v_S; }, ok); break; case 1: { int p = c.i(0, 6); bool q = c.b(); again(c, [&] { m.Resize(p, q); }, ok); break; } case 2: { int p = c.i(0, 6); again(c, [&] { m.Resize(p); }, ok); break; } case 3: again(c, [&] { m = m * 2.0; }, ok); break; case 4: { bool q = c.b(); again(c, [&] { MatrixSym<Real> t(q ? m : *v_S); m = std::move(t); }, ok); break; } default: m.SetToValue(c.u()); } out(m); }
    MatrixSym<Real> y(std::move(m)); out(y); out(m); again(c, [&] { m = y; }, ok); out(m); }); }
OP("cont.tridiag", SH | HI) { int n = c.i(2, 6); auto M = std::make_shared<TridiagonalMatrix<Real>>(n, vec(c, n), vec(c, n, 4, 6), vec(c, n)); auto b = vec(c, n); return inst([=](Ctx& c) { auto v_M = via(c, M); const auto& m = *v_M; for (int i = 0; i < n; ++i) for (int j = std::max(0, i - 1); j <= std::min(n - 1, i + 1); ++j) c.o(m(i, j)); auto k = (m + m * 2.0 - m / 3.0).GetTranspose(); Vector<Real> x(n); k.Solve(b, x); c.o(x); c.o(m.IsEqualTo(k)); TridiagonalMatrix<Real> t(m); k = t; c.o(k.Solve(b)); c.o(k.Solve(b)); }); }
OP("cont.band", SH | HI) { int n = c.i(2, 6), m1 = c.i(0, std::min(2, n - 1)), m2 = c.i(0, std::min(2, n - 1)); auto M = std::make_shared<BandDiagonalMatrix>(n, m1, m2, mat(c, n, m1 + m2 + 1)); auto x = vec(c, n); return inst([=](Ctx& c) { auto v_M = via(c, M); const auto& m = *v_M; c.o(m * x); c.o(m.ToFullMatrix()); c.o((m + m).ToFullMatrix()); auto k = m; again(c, [&] { k = m; k *= 2; }, [&] { return k.GetDimension() == n; }); k -= m; c.o(k.Transpose() * x); c.o(m.Trace()); c.o(m.NormFrobenius()); c.o(m.NormInf()); c.o(m.IsSymmetric()); c.o(m.GetDiagonal(c.i(-1, 1))); }); }
OP("cont.polynom", HI) { int n = c.i(0, 5); std::vector<Real> a(n + 1); for (auto& x : a) x = c.in(c.u()); auto P = std::make_shared<PolynomReal>(a); return inst([=](Ctx& c) { auto v_P = via(c, P); PolynomReal m; int k = c.i(1, 6); auto ok = [&] { return (int)m.coefficients().size() == m.degree() + 1; };
    for (int t = 0; t < k; ++t) { switch (c.i(0, 8)) { case 0: again(c, [&] { m = *v_P; }, ok); break; case 1: { int d = c.i(0, 6); again(c, [&] { m.SetDegree(d); }, ok); break; } case 2: again(c, [&] { m = m * *v_P; }, ok); break; case 3: again(c, [&] { m = m + *v_P; }, ok); break; case 4: m.Reduce(); break; case 5: again(c, [&] { m = m.integral(); }, ok); break; case 6: again(c, [&] { m = m.derivative(); }, ok); break;
        case 7: if (!m.isNull() && m.leadingTerm() != 0 && v_P->degree() >= m.degree()) { PolynomReal q, r; again(c, [&] { PolynomReal::poldiv(*v_P, m, q, r); }, ok); c.o(q.coefficients()); c.o(r.coefficients()); } break; default: again(c, [&] { PolynomReal x(m); m = std::move(x); }, ok); } if (m.degree() > 40) m = *v_P; c.o(m.coefficients()); c.o(m(.5)); } }); }
OP("cont.odesolution", HI) { int dim = c.i(1, 3); int cap = c.i(1, 6); auto S = std::make_shared<ODESystemSolution>(0.0, 1.0, dim, cap); int n0 = c.i(3, 6); for (int i = 0; i < n0; ++i) S->fillValues(i, i * .1, vec(c, dim));
    return inst([=](Ctx& c) { auto v_S = via(c, S); auto out = [&](const ODESystemSolution& s) { c.o(s.size()); c.o(s.getTValues()); c.o(s.getNumSteps()); for (int d = 0; d < dim; ++d) c.o(s.getXValues(d)); if (!s.isEmpty()) { c.o(s.getXValuesAtEnd()); c.o(s.getXValues()); } }; out(*v_S); ODESystemSolution m(*v_S); int n = c.i(1, 8); int k = m.size();
        auto ok = [&] { return m.size() <= m.capacity() && m.getTValues().size() == m.size() && m.getXValues(dim - 1).size() == m.size(); };
        for (int t = 0; t < n; ++t) { Vector<Real> y(dim, t + .5); switch (c.i(0, 5)) { case 0: case 1: case 2: again(c, [&] { m.fillValues(k, k * .1, y); }, ok); ++k; break; case 3: { int r = c.i(1, 20); again(c, [&] { m.reserve(r); }, ok); break; } case 4: { again(c, [&] { m.setTVal(k, k * .1); }, ok); for (int d = 0; d < dim; ++d) again(c, [&] { m.setXVal(k, d, t + d); }, ok); ++k; break; } default: { ODESystemSolution q(m); again(c, [&] { m = q; }, ok); } } out(m); }
        again(c, [&] { m.setFinalSize(k - 1); }, ok); out(m); auto f = m.getSolAsLinInterp(0); c.o(f(.15)); auto g = m.getSolAsSplineInterp(dim - 1); c.o(g(.15)); if (dim > 1) c.o(m.getSolAsParamCurve2D(0, 1)(.1)); }); }
OP("cont.intervals", SH) { auto I = std::make_shared<Interval>(); double p = c.u(); I->AddInterval(ClosedInterval(p, p + 1)).AddInterval(OpenInterval(p + 2, p + 3)).AddInterval(ClosedOpenInterval(p + 4, p + 5)); return inst([=](Ctx& c) { auto v_I = via(c, I); const Interval& i = *v_I; switch (c.i(0, 3)) { case 0: c.o(i.contains(c.u(-1, 6))); c.o(i.getLength()); c.o(i.getMeasure()); c.o(i.getLowerBound()); c.o(i.isContinuous()); c.o(i.intersects(ClosedInterval(c.u(), 2))); break;
    case 1: { ClosedInterval a(c.u(), 1.5); OpenInterval b(0, c.u(1, 3)); auto k = c.b() ? Interval::Intersection(a, b) : c.b() ? Interval::Union(a, b) : Interval::Difference(a, b); c.o(k.getLength()); for (int t = 0; t < 5; ++t) c.o(k.contains(t * .5)); auto z = Interval::Complement(a); c.o(z.contains(c.u())); break; }
    case 2: { std::vector<Real> pts; i.GetEquidistantCovering(c.i(2, 6), pts); c.o(pts); break; }
    default: { auto i1 = std::make_unique<ClosedInterval>(0, 1); auto i2 = std::make_unique<OpenClosedInterval>(2, 3); auto i3 = std::make_unique<NegInfToOpenInterval>(-4); Interval k{i1.release(), i2.release(), i3.release()}; c.o(k.contains(c.u(0, 3))); c.o(k.contains(-7)); again(c, [&] { k.AddInterval(OpenToInfInterval(9)); }, [&] { return !k.contains(10.0); }); c.o(k.contains(10.0)); } } }); }
static std::shared_ptr<Dataset> dataset(Ctx& c) { std::string s = "id,x,ok,name,day,at\n"; int n = c.i(0, 6); for (int i = 0; i < n; ++i) { char b[120]; snprintf(b, sizeof b, "%d,%.3f,%s,%s%d,2024-0%d-11,10:0%d:00\n", c.i(-5, 50), c.u(), c.b() ? "true" : "false", c.i(0, 5) ? "n" : "\"a,b\"", i, 1 + i, i); std::string l = b; if (!c.i(0, 5)) l = "NA," + l.substr(l.find(',') + 1); s += l; } return std::make_shared<Dataset>(LoadFromCSVString(s)); }
static void ods(Ctx& c, const Dataset& d) { c.o(d.NumRows()); c.o(d.NumColumns()); for (auto& k : d.columns) { c.o(k.name); c.o((int)k.type); c.o(k.Size()); c.o(k.CountMissing()); for (size_t i = 0; i < k.Size(); ++i) { c.o(k.IsMissing(i)); c.o(k.GetAsString(i)); } } }
OP("cont.dataset", SH | CB) { auto D = dataset(c); return inst([=](Ctx& c) { auto v_D = via(c, D); const Dataset& d = *v_D; if (d.NumColumns() < 6) { ods(c, d); return; } switch (c.i(0, 4)) { case 0: { int k = c.i(0, 3); auto r = d.FilterRows(d.columns[(size_t)c.i(0, 5)].name, [k](const std::string& s) { tick(); return s.size() % 4 != (size_t)k; }); ods(c, r); break; } case 1: ods(c, d.SelectColumns({"x", "name"})); break; case 2: ods(c, d); c.o(d.GetColumnNames()); c.o(d.HasColumn("ok")); break; case 3: c.o(d.Head(2)); c.o(d.Tail(2)); c.o(d.Sample(2, 7)); c.o(d.PrintSummary()); break; default: c.o(d.GetRealColumn("x")); c.o(d.GetStringColumn("day")); try { c.o(d.GetIntColumn("name")); } catch (const DataError& e) { c.o(e.what()); } } }); }
OP("cont.dataset.text", 0) { int k = c.i(0, 2); std::string j = c.b() ? "[{\"a\":1,\"b\":\"x\\u00e9\"},{\"a\":2.5,\"b\":null}]" : "[{\"a\":true},{\"c\":[1,2],\"a\":false}]"; return inst([=](Ctx& c) { switch (k) { case 0: ods(c, *dataset(c)); break; case 1: ods(c, LoadFromJSONString(j)); break; default: try { ods(c, LoadFromJSONString(j.substr(0, (size_t)c.i(0, (int)j.size())))); } catch (const DataError& e) { c.o(e.what()); } } }); }
OP("cont.timer", 0) { return inst([=](Ctx& c) { Timer t; t.Start(); int n = c.i(0, 5); size_t want = 0; for (int k = 0; k < n; ++k) { again(c, [&] { t.MarkTime("a rather long mark name " + std::to_string(k)); }, [&] { return t.GetMarkCount() == want; }); ++want; c.o(t.GetMarkCount()); c.o(t.GetMarkTimeFromStart(want - 1) >= 0); } double r = -1; { ScopedTimer s("scoped", r); } c.o(r >= 0); }); }
template <int N> static std::shared_ptr<Tensor2<N>> ten2(Ctx& c) { auto t = std::make_shared<Tensor2<N>>(c.i(0, 1) ? 1 : 2, 0); (void)t; auto r = std::make_shared<Tensor2<N>>(1, 1); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) (*r)(i, j) = c.in(c.u()); return r; }
OP("cont.tensor", SH | HI) { auto T = ten2<3>(c), U = ten2<3>(c); auto T3 = std::make_shared<Tensor3<2>>(1, 2); auto T4 = std::make_shared<Tensor4<2>>(2, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 2; ++k) { (*T3)(i, j, k) = c.in(c.u()); for (int l = 0; l < 2; ++l) (*T4)(i, j, k, l) = c.in(c.u()); } auto v = vecn<3>(c); auto w = vecn<2>(c);
    return inst([=](Ctx& c) { auto v_T = via(c, T); auto v_3 = via(c, T3); auto v_4 = via(c, T4); const auto& t = *v_T; c.o((t + *U * 2.0 - *U / 3.0).GetMatrix()); c.o(t.Contract()); c.o(t(v, v)); const auto& t3 = *v_3; c.o(t3(w, w, w)); for (int a = 0; a < 3; ++a) for (int b = a + 1; b < 3; ++b) try { c.o(t3.Contract(a, b)); } catch (const std::exception& e) { c.o(e.what()); } const auto& t4 = *v_4; c.o(t4(w, w, w, w)); try { c.o(t4.Contract(0, 2).GetMatrix()); } catch (const std::exception& e) { c.o(e.what()); } std::ostringstream s; s << t; c.o(s.str()); auto fl = [&](const auto& x, int n) { c.o(x.NumCovar()); c.o(x.NumContravar()); for (int k = 0; k < n; ++k) c.o(x.IsContravar(k)); }; fl(t, 2); fl(t3, 3); fl(t4, 4); fl(t + *U * 2.0, 2); }); }
OP("cont.quaternion", SH | HI) { Quaternion p(c.in(c.u()), c.in(c.u()), c.in(c.u()), c.in(c.u())), q = Quaternion::FromAxisAngle(Vec3Cart(.3, c.u(), .8), c.in(c.u(-3, 3))); return inst([=](Ctx& c) { auto o = [&](const Quaternion& z) { for (int i = 0; i < 4; ++i) c.o(z[i]); }; auto v_q = via(c, q); o(p + *v_q); o(p * *v_q); o(p.Conjugate()); try { o(p.Inverse()); o(p.Normalized()); } catch (const std::exception& e) { c.o(e.what()); } c.o(v_q->Rotate(Vec3Cart(1, 2, c.u()))); c.o(v_q->ToRotationMatrix()); o(Quaternion::FromRotationMatrix(v_q->ToRotationMatrix())); o(Quaternion::Slerp(Quaternion::Identity(), *v_q, c.u(0, 1))); o(Quaternion::Lerp(p, *v_q, c.u(0, 1))); c.o(v_q->ToEulerZYX()); o(Quaternion::FromEulerXYZ(c.u(), c.u(), c.u())); Vec3Cart a; Real g; v_q->ToAxisAngle(a, g); c.o(a); c.o(g); c.o(v_q->isUnit()); }); }
