// Seeded file-writing operations of the library, with an independent description of what the file must contain.
#pragma once
#include "../sim/sim.h"
#include "mml/MMLBase.h"
#include "mml/base/Vector/Vector.h"
#include "mml/base/Vector/VectorN.h"
#include "mml/base/Matrix/Matrix.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/tools/Serializer.h"
#include "mml/tools/serializer/MatrixIO.h"
#include "mml/tools/serializer/VectorIO.h"
#include "mml/tools/serializer/SerializerFieldLines.h"
#include "mml/tools/serializer/SerializerSimulation.h"
#include "mml/tools/serializer/SerializerSurfaces.h"
#include "mml/tools/serializer/SerializerCurves.h"
#include "mml/tools/serializer/SerializerODE.h"
#include "mml/tools/ConsolePrinter.h"
#include <functional>
#include <memory>
#include <cstring>
#include <cmath>
#include <sstream>

namespace io {
using namespace MML;

// ------------------------------------------------------------------ values
inline double gen_val(bool special = true) {
    switch (sim::w(special ? 9 : 6)) {
    case 0: return sim::real(-10, 10);
    case 1: return sim::wi(-5, 5);
    case 2: return sim::real(-1, 1) / 3.0;
    case 3: return sim::real(-1000, 1000) * 1.2345678901234567;
    case 4: return sim::real(0, 1) * 1e-7 / 7.0;
    case 5: return sim::real(-1, 1) * 1e7;
    case 6: return -0.0;
    case 7: { static const double s[] = {1e300, -1e-300, 2.2250738585072014e-308, 1.7976931348623157e308, 123456.5, 0.1}; return s[sim::w(6)]; }
    default: { static const double s[] = {1.0 / 3, 1e15 + 1, 9.9999995, 99999.95, 0.5, 1e-5}; return s[sim::w(6)]; }
    }
}

// ------------------------------------------------------------------ user function driven by the simulator
struct UserError : std::runtime_error { UserError() : std::runtime_error("user function failed") {} };
struct Fun {
    double a, b, c; int kind; int throw_at = 0; int throw_kind = 0; mutable int calls = 0; int nan_at = 0;
    static Fun gen() { Fun f; f.a = sim::real(-3, 3); f.b = sim::real(-2, 2); f.c = sim::real(0.25, 2); f.kind = sim::w(4); f.nan_at = sim::w(8) == 0 ? 1 + sim::w(6) : 0; return f; }
    double raw(double x) const { switch (kind) { case 0: return a + b * x; case 1: return a * std::sin(c * x) + b; case 2: return a * x * x - b * x + c; default: return a * std::exp(-c * x * x) + b / 3.0; } }
    double pure(double x) const { if (nan_at && std::fabs(x - nan_at) < 0.75) return nan_at & 1 ? std::nan("") : HUGE_VAL; return raw(x); }
    void tick() const { ++calls; if (throw_at && calls == throw_at) { sim::count("fault:user_function_throws"); if (throw_kind == 0) throw UserError(); if (throw_kind == 1) throw std::string("non standard"); throw DivisionByZeroError("user"); } }
    double operator()(double x) const { tick(); return pure(x); }
};
struct RF : IRealFunction { Fun f; RF(Fun g) : f(g) {} Real operator()(Real x) const override { return f(x); } };
template <int N> struct Sc : IScalarFunction<N> { Fun f; Sc(Fun g) : f(g) {} static double arg(const VectorN<Real, N>& v) { double s = 0; for (int i = 0; i < N; ++i) s += (i + 1) * 0.5 * v[i]; return s; } Real operator()(const VectorN<Real, N>& v) const override { return f(arg(v)); } };
template <int N> struct Cu : IRealToVectorFunction<N> { Fun f; Cu(Fun g) : f(g) {} static double comp(const Fun& f, double t, int i) { return f.raw(t + 0.3 * i) * (i + 1); } VectorN<Real, N> operator()(Real t) const override { f.tick(); VectorN<Real, N> r; for (int i = 0; i < N; ++i) r[i] = comp(f, t, i); return r; } };
template <int N> struct VF : IVectorFunction<N> { Fun f; VF(Fun g) : f(g) {} static double comp(const Fun& f, const VectorN<Real, N>& v, int i) { return f.raw(Sc<N>::arg(v) + 0.7 * i) - v[i]; } VectorN<Real, N> operator()(const VectorN<Real, N>& v) const override { f.tick(); VectorN<Real, N> r; for (int i = 0; i < N; ++i) r[i] = comp(f, v, i); return r; } };
inline double surfc(const Fun& f, double u, double w, int i) { return f.raw(u + 0.2 * i) + (i - 1) * w; }
struct Su : IParametricSurface<3> { Fun f; Su(Fun g) : f(g) {} VectorN<Real, 3> operator()(Real u, Real w) const override { f.tick(); VectorN<Real, 3> r; for (int i = 0; i < 3; ++i) r[i] = surfc(f, u, w, i); return r; } Real getMinU() const override { return -1; } Real getMaxU() const override { return 1; } Real getMinW(Real) const override { return -1; } Real getMaxW(Real) const override { return 1; } };
struct SuR : IParametricSurfaceRect<3> { Fun f; double u1, u2, w1, w2; SuR(Fun g, double a, double b, double c, double d) : f(g), u1(a), u2(b), w1(c), w2(d) {} VectorN<Real, 3> operator()(Real u, Real w) const override { f.tick(); VectorN<Real, 3> r; for (int i = 0; i < 3; ++i) r[i] = surfc(f, u, w, i); return r; } Real getMinU() const override { return u1; } Real getMaxU() const override { return u2; } Real getMinW() const override { return w1; } Real getMaxW() const override { return w2; } };
struct NM : IVectorFunctionNM<2, 3> { Fun f; NM(Fun g) : f(g) {} VectorN<Real, 3> operator()(const VectorN<Real, 2>& v) const override { f.tick(); VectorN<Real, 3> r; for (int i = 0; i < 3; ++i) r[i] = surfc(f, v[0], v[1], i); return r; } };
// stand-in for a grid solution (the interface SaveGridFunction2D documents)
struct Dom { double a, b, c, d; double xMin() const { return a; } double xMax() const { return b; } double yMin() const { return c; } double yMax() const { return d; } };
struct Grid { Dom dm; int nx, ny; const Dom& domain() const { return dm; } int numNodesX() const { return nx; } int numNodesY() const { return ny; } double x(int i) const { return dm.a + (dm.b - dm.a) * i / (nx - 1); } double y(int j) const { return dm.c + (dm.d - dm.c) * j / (ny - 1); } };
struct GridF { Grid g; Fun f; const Grid& grid() const { return g; } double operator()(int i, int j) const { f.tick(); return f.raw(0.1 * i) + j; } };

// ------------------------------------------------------------------ expected file content
struct ELine { std::string prefix; std::vector<double> nums; };
struct Case {
    std::string name;
    int kind = 0;                       // 0: SerializeResult interface, 1: bool interface, 2: void interface (throws)
    std::function<bool(const std::string&)> run;   // true = success reported
    std::vector<ELine> lines; bool have_lines = false; int prec = 6;
    Fun* user = nullptr; std::shared_ptr<void> keep; int user_calls = 0;
    std::string message; bool bad = false;   // bad: the data lack a requested sample, the save must be refused
};
inline ELine T(const std::string& s) { return {s, {}}; }
inline ELine TN(const std::string& s, double v) { return {s, {v}}; }
inline ELine NL(std::initializer_list<double> l) { return {"", std::vector<double>(l)}; }

inline bool num_eq(double got, double want, int prec) {
    if (std::isnan(want)) return std::isnan(got);
    if (std::isinf(want)) return got == want;
    double tol = 0.5001 * std::pow(10.0, 1 - prec) * std::fabs(want);
    return std::fabs(got - want) <= tol + 4e-16 * 64 * (std::fabs(want)) + 1e-14;
}
// empty string = the text matches
inline std::string compare(const std::string& text, const std::vector<ELine>& exp, int prec) {
    std::vector<std::string> lines; std::string cur; bool ended = true;
    for (char c : text) { if (c == '\n') { lines.push_back(cur); cur.clear(); ended = true; } else { cur += c; ended = false; } }
    if (!ended) return "the last line is not terminated";
    char b[400];
    for (size_t i = 0; i < exp.size(); ++i) {
        if (i >= lines.size()) { snprintf(b, sizeof b, "file ends after %zu of %zu lines", lines.size(), exp.size()); return b; }
        const ELine& e = exp[i]; const std::string& l = lines[i];
        if (l.compare(0, e.prefix.size(), e.prefix)) { snprintf(b, sizeof b, "line %zu is '%.80s', expected '%.80s...'", i + 1, l.c_str(), e.prefix.c_str()); return b; }
        std::istringstream is(l.substr(e.prefix.size())); std::vector<std::string> tok; std::string t; while (is >> t) tok.push_back(t);
        if (e.nums.empty()) { if (l != e.prefix) { snprintf(b, sizeof b, "line %zu is '%.80s', expected '%.80s'", i + 1, l.c_str(), e.prefix.c_str()); return b; } continue; }
        if (tok.size() != e.nums.size()) { snprintf(b, sizeof b, "line %zu '%.80s' has %zu values, expected %zu", i + 1, l.c_str(), tok.size(), e.nums.size()); return b; }
        for (size_t k = 0; k < tok.size(); ++k) {
            char* end; double v = strtod(tok[k].c_str(), &end);
            if (*end || !num_eq(v, e.nums[k], prec)) { snprintf(b, sizeof b, "line %zu value %zu is '%s', expected %.17g", i + 1, k + 1, tok[k].c_str(), e.nums[k]); return b; }
        }
    }
    if (lines.size() > exp.size()) { snprintf(b, sizeof b, "file has %zu lines, expected %zu (extra: '%.60s')", lines.size(), exp.size(), lines[exp.size()].c_str()); return b; }
    return "";
}

inline std::string gen_title() { static const char* t[] = {"f", "A longer title, with punctuation: x^2 + 1", "T", "sin(x)", "0", "  spaced  "}; return t[sim::w(6)]; }
struct Range { double a, b; int n; };
inline Range gen_range(int maxn) { Range r; r.a = sim::real(-4, 4); r.b = r.a + 0.125 + sim::real(0, 6); r.n = 2 + sim::w(maxn - 1); return r; }
inline double at(const Range& r, int i) { return r.a + (r.b - r.a) * i / (r.n - 1); }
inline Vector<Real> gen_points(int maxn) { int n = 2 + sim::w(maxn - 1); Vector<Real> v(n); double x = sim::real(-4, 4); for (int i = 0; i < n; ++i) { v[i] = x; x += 0.1 + sim::real(0, 1); } return v; }

template <class S> bool ok(Case* c, const S& r) { c->message = r.message; return r.success; }
template <class T> T conv(double v) { if constexpr (std::is_integral_v<T>) return (T)std::lround(std::fmod(v, 1e6)); else return (T)v; }
template <> inline Complex conv<Complex>(double v) { return Complex(v, sim::w(2) ? v / 3 + 1 : gen_val()); }
template <> inline float conv<float>(double v) { return (float)std::fmod(v, 1e30); }

template <class E> Vector<E> gen_vec(int maxn, bool special = true) { int n = sim::w(maxn + 1); Vector<E> v(n); for (int i = 0; i < n; ++i) v[i] = conv<E>(gen_val(special)); return v; }
template <class E> Matrix<E> gen_mat(int maxn, bool special = true) { int r = 1 + sim::w(maxn), c = 1 + sim::w(maxn); Matrix<E> m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = conv<E>(gen_val(special)); return m; }

template <class C> void add_vec_lines(Case& c, const std::string& t, const Fun& f, Range X, Range Y, double thr);

// n: size scale (larger files need several flushes)
inline std::unique_ptr<Case> gen_case(int big, bool described_only = false, bool want_bad = false) {
    auto C = std::make_unique<Case>(); Case* c = C.get(); Case& k = *c;
    int N = big ? 160 : 12, G = big ? 14 : 4;
    std::string title = gen_title();
    uint32_t op = described_only ? 17 + sim::w(30) : sim::w(47);
    auto hold = [&](auto p) { k.keep = p; return p.get(); };
    auto hdr1 = [&](const char* type, double a, double b, int n) { k.lines = {T(type), T(title), TN("x1: ", a), TN("x2: ", b), TN("NumPoints: ", n)}; k.have_lines = true; };
    auto hdrc = [&](const std::string& type, double a, double b, int n) { k.lines = {T(type)}; if (!title.empty()) k.lines.push_back(T(title)); k.lines.push_back(TN("t1: ", a)); k.lines.push_back(TN("t2: ", b)); k.lines.push_back(TN("NumPoints: ", n)); k.have_lines = true; };
    auto vbin = [&](auto tag, const char* nm, bool text) { using E = decltype(tag); auto v = std::make_shared<Vector<E>>(gen_vec<E>(N * 4)); hold(v); k.kind = 1; k.name = std::string(text ? "Vector::SaveToFile<" : "Vector::SaveToBinary<") + nm + ">"; Vector<E>* p = v.get(); k.run = [p, text](const std::string& f) { return text ? Vector<E>::SaveToFile(*p, f) : Vector<E>::SaveToBinary(*p, f); }; };
    auto mat = [&](auto tag, const char* nm, int how) { using E = decltype(tag); auto v = std::make_shared<Matrix<E>>(gen_mat<E>(big ? 28 : 5)); hold(v); k.kind = 1; static const char* hn[] = {"SaveMatrixToFile<", "SaveMatrixToCSV<", "SaveMatrixToBinary<"}; k.name = std::string(hn[how]) + nm + ">"; Matrix<E>* p = v.get(); k.run = [p, how](const std::string& f) { return how == 0 ? Serializer::SaveMatrixToFile(*p, f) : how == 1 ? Serializer::SaveMatrixToCSV(*p, f) : Serializer::SaveMatrixToBinary(*p, f); }; };
    switch (op) {
    case 0: vbin(double(), "double", false); break;
    case 1: vbin(double(), "double", true); break;
    case 2: vbin(float(), "float", false); break;
    case 3: vbin(float(), "float", true); break;
    case 4: vbin(int(), "int", false); break;
    case 5: vbin(int(), "int", true); break;
    case 6: vbin(Complex(), "Complex", false); break;
    case 7: vbin(Complex(), "Complex", true); break;
    case 8: mat(double(), "double", 0); break;
    case 9: mat(double(), "double", 1); break;
    case 10: mat(double(), "double", 2); break;
    case 11: mat(float(), "float", sim::w(3)); break;
    case 12: mat(int(), "int", sim::w(3)); break;
    case 13: mat(Complex(), "Complex", 2 * sim::w(2)); break;
    case 14: { auto v = std::make_shared<std::vector<std::complex<double>>>(sim::w(N * 4)); for (auto& x : *v) x = {gen_val(), gen_val()}; auto* p = hold(v); k.kind = 1; k.name = "SaveComplexVector"; k.run = [p](const std::string& f) { return Serializer::SaveComplexVector(*p, f); }; break; }
    case 15: { auto v = std::make_shared<std::vector<double>>(sim::w(N * 4)); for (auto& x : *v) x = gen_val(); auto* p = hold(v); k.kind = 1; k.name = "SaveRealAsComplex"; k.run = [p](const std::string& f) { return Serializer::SaveRealAsComplex(*p, f); }; break; }
    case 16: {
        auto t = std::make_shared<TablePrinter<std::string, double>>("row", std::vector<std::string>{"a", "b,\"q\""}); auto* p = hold(t); k.kind = 2; int rows = sim::w(N * 2);
        for (int i = 0; i < rows; ++i) t->addRow(std::string("r") + std::to_string(i), {gen_val(), gen_val()});
        static const ExportFormat fm[] = {ExportFormat::Console, ExportFormat::CSV, ExportFormat::TSV, ExportFormat::Markdown, ExportFormat::LaTeX, ExportFormat::HTML};
        int f = sim::w(7); static const BorderStyle bs[] = {BorderStyle::None, BorderStyle::Simple, BorderStyle::Markdown, BorderStyle::Rounded, BorderStyle::Double, BorderStyle::Bold};
        TableStyle st; st.border(bs[sim::w(6)]); t->style(st);
        k.name = f == 6 ? "TablePrinter::printToFile" : "TablePrinter::exportToFile";
        k.run = [p, f](const std::string& n) { if (f == 6) p->printToFile(n); else p->exportToFile(n, fm[f]); return true; };
        break;
    }
    case 17: case 18: case 19: {       // SaveRealFunc, equally spaced
        Range r = gen_range(N); int prec = sim::w(2) ? 15 : 3 + sim::w(14); auto f = std::make_shared<RF>(Fun::gen()); auto* p = hold(f); k.user = &f->f; k.user_calls = r.n; k.prec = prec;
        bool eq = op == 19; hdr1(eq ? "REAL_FUNCTION_EQUALLY_SPACED" : "REAL_FUNCTION", r.a, r.b, r.n);
        for (int i = 0; i < r.n; ++i) { double x = at(r, i); if (eq) k.lines.push_back(NL({p->f.pure(x)})); else k.lines.push_back(NL({x, p->f.pure(x)})); }
        if (op == 17) { k.name = "SaveRealFunc(file)"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveRealFunc(*p, title, r.a, r.b, r.n, fn, prec)); }; }
        else if (op == 19) { k.name = "SaveRealFuncEquallySpaced(file)"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveRealFuncEquallySpaced(*p, title, r.a, r.b, r.n, fn, prec)); }; }
        else { // stream version on a caller's file stream
            k.name = "SaveRealFunc(stream)"; k.run = [=](const std::string& fn) { std::ofstream o(fn); if (!o) return false; bool s = ok(c, Serializer::SaveRealFunc(o, *p, title, r.a, r.b, r.n, prec)); o.close(); return s && !o.fail(); }; }
        break;
    }
    case 20: { auto pts = gen_points(N); int prec = sim::w(2) ? 15 : 3 + sim::w(14); auto f = std::make_shared<RF>(Fun::gen()); auto* p = hold(f); k.user = &f->f; k.user_calls = pts.size(); k.prec = prec; hdr1("REAL_FUNCTION", pts[0], pts[pts.size() - 1], pts.size());
        for (int i = 0; i < pts.size(); ++i) k.lines.push_back(NL({pts[i], p->f.pure(pts[i])})); k.name = "SaveRealFunc(points)"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveRealFunc(*p, title, pts, fn, prec)); }; break; }
    case 21: case 22: {   // multi function
        Range r = gen_range(N); int nf = 1 + sim::w(3); int prec = sim::w(2) ? 15 : 3 + sim::w(14);
        struct MF { std::vector<std::unique_ptr<RF>> fs; std::vector<IRealFunction*> ps; }; auto m = std::make_shared<MF>(); auto* p = hold(m); std::vector<std::string> leg;
        for (int i = 0; i < nf; ++i) { m->fs.push_back(std::make_unique<RF>(Fun::gen())); m->ps.push_back(m->fs.back().get()); leg.push_back("L" + std::to_string(i)); }
        if (want_bad) { leg.pop_back(); k.bad = true; }
        k.user = &m->fs[sim::w(nf)]->f; k.user_calls = r.n; k.prec = prec;
        k.lines = {T("MULTI_REAL_FUNCTION"), T(title), TN("", nf)}; for (auto& l : leg) k.lines.push_back(T(l)); k.lines.push_back(TN("x1: ", r.a)); k.lines.push_back(TN("x2: ", r.b)); k.lines.push_back(TN("NumPoints: ", r.n)); k.have_lines = true;
        for (int i = 0; i < r.n; ++i) { ELine e; double x = at(r, i); e.nums.push_back(x); for (auto& f : m->fs) e.nums.push_back(f->f.pure(x)); k.lines.push_back(e); }
        k.name = "SaveRealMultiFunc"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveRealMultiFunc(p->ps, title, leg, r.a, r.b, r.n, fn, prec)); };
        break;
    }
    case 23: case 24: case 25: {   // interpolation functions
        Range r; int nf = 1 + sim::w(3), np = 4 + sim::w(4); std::vector<std::string> leg; Vector<Real> xs(np); for (int i = 0; i < np; ++i) xs[i] = i * 0.75 - 1;
        r.a = -1; r.b = xs[np - 1]; r.n = 2 + sim::w(N - 1);
        k.lines = {T("MULTI_REAL_FUNCTION"), T(title), TN("", nf)}; for (int i = 0; i < nf; ++i) { leg.push_back("c" + std::to_string(i)); k.lines.push_back(T(leg.back())); }
        k.lines.push_back(TN("x1: ", r.a)); k.lines.push_back(TN("x2: ", r.b)); k.lines.push_back(TN("NumPoints: ", r.n)); k.have_lines = true;
        auto go = [&](auto tag, auto mk) { using F = typename decltype(tag)::type; auto fs = std::make_shared<std::vector<F>>(); auto* p = hold(fs);
            for (int i = 0; i < nf; ++i) { Vector<Real> ys(np); for (int j = 0; j < np; ++j) ys[j] = sim::real(-3, 3); fs->push_back(mk(xs, ys)); }
            for (int i = 0; i < r.n; ++i) { ELine e; double x = r.a + (r.b - r.a) * i / (r.n - 1); e.nums.push_back(x); for (auto& f : *fs) e.nums.push_back(f(x)); k.lines.push_back(e); }
            k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveRealMultiFunc(*p, title, leg, r.a, r.b, r.n, fn)); }; };
        struct TL { using type = LinearInterpRealFunc; }; struct TP { using type = PolynomInterpRealFunc; }; struct TS { using type = SplineInterpRealFunc; };
        if (op == 23) { k.name = "SaveRealMultiFunc(linear)"; go(TL{}, [](auto& x, auto& y) { return LinearInterpRealFunc(x, y); }); }
        else if (op == 24) { k.name = "SaveRealMultiFunc(polynomial)"; go(TP{}, [](auto& x, auto& y) { return PolynomInterpRealFunc(x, y, 3); }); }
        else { k.name = "SaveRealMultiFunc(spline)"; go(TS{}, [](auto& x, auto& y) { return SplineInterpRealFunc(x, y); }); }
        break;
    }
    case 26: case 27: case 28: case 29: case 30: {   // curves
        Range r = gen_range(N); auto pts = gen_points(N); if (sim::w(5) == 0) title = "";
        Fun fu = Fun::gen();
        auto go = [&](auto dim) { constexpr int D = decltype(dim)::value; auto f = std::make_shared<Cu<D>>(fu); auto* p = f.get(); std::string ty = D == 2 ? "PARAMETRIC_CURVE_CARTESIAN_2D" : "PARAMETRIC_CURVE_CARTESIAN_3D";
            auto row = [&](double t) { ELine e; e.nums.push_back(t); for (int i = 0; i < D; ++i) e.nums.push_back(Cu<D>::comp(fu, t, i)); k.lines.push_back(e); };
            if (op == 26) { hold(f); k.user = &f->f; k.user_calls = r.n; hdrc(ty, r.a, r.b, r.n); for (int i = 0; i < r.n; ++i) row(at(r, i)); k.name = "SaveParamCurve"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveParamCurve<D>(*p, ty, title, r.a, r.b, r.n, fn)); }; }
            else if (op == 27) { hold(f); k.user = &f->f; k.user_calls = pts.size(); hdrc(ty, pts[0], pts[pts.size() - 1], pts.size()); for (int i = 0; i < pts.size(); ++i) row(pts[i]); k.name = "SaveParamCurve(points)"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveParamCurve<D>(*p, ty, title, pts, fn)); }; }
            else { bool eq = op == 28; int n = eq ? r.n : pts.size(); auto vs = std::make_shared<std::vector<VectorN<Real, D>>>(); auto* q = hold(vs); hdrc(ty, eq ? r.a : pts[0], eq ? r.b : pts[n - 1], n);
                for (int i = 0; i < n; ++i) { VectorN<Real, D> v; ELine e; e.nums.push_back(eq ? at(r, i) : pts[i]); for (int j = 0; j < D; ++j) { v[j] = gen_val(); e.nums.push_back(v[j]); } vs->push_back(v); k.lines.push_back(e); }
                for (uint32_t x = sim::w(3); x > 0; --x) vs->push_back(VectorN<Real, D>()); if (want_bad) { vs->resize(sim::w(n)); k.bad = true; }
                k.name = eq ? "SaveAsParamCurve" : "SaveAsParamCurve(points)"; if (eq) k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveAsParamCurve<D>(*q, ty, title, r.a, r.b, r.n, fn)); }; else k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveAsParamCurve<D>(*q, ty, title, pts, fn)); }; } };
        if (op == 30) { int n = r.n; auto v = std::make_shared<std::pair<Vector<Real>, Vector<Real>>>(Vector<Real>(n), Vector<Real>(n)); auto* q = hold(v); hdrc("PARAMETRIC_CURVE_CARTESIAN_2D", r.a, r.b, n); for (int i = 0; i < n; ++i) { v->first[i] = gen_val(); v->second[i] = gen_val(); k.lines.push_back(NL({at(r, i), v->first[i], v->second[i]})); }
            if (want_bad) { k.bad = true; (sim::w(2) ? v->first : v->second) = Vector<Real>((int)sim::w(n)); }
            k.name = "SaveAsParamCurve2D"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveAsParamCurve2D(q->first, q->second, title, fn, r.a, r.b)); }; }
        else if (sim::w(2)) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>());
        break;
    }
    case 31: case 32: case 33: case 34: {     // surfaces and grids
        Range U = gen_range(G), W = gen_range(G); Fun fu = Fun::gen();
        const char* ty = op == 34 ? "SCALAR_FUNCTION_CARTESIAN_2D" : "PARAMETRIC_SURFACE_CARTESIAN"; const char* a = op == 34 ? "x1: " : "u1: "; const char* b = op == 34 ? "x2: " : "u2: "; const char* na = op == 34 ? "NumPointsX: " : "NumPointsU: "; const char* cc = op == 34 ? "y1: " : "w1: "; const char* d = op == 34 ? "y2: " : "w2: "; const char* nb = op == 34 ? "NumPointsY: " : "NumPointsW: ";
        double sxy = 1, sv = 1; if (op == 34 && sim::w(2)) { sxy = sim::real(0.5, 3); sv = sim::real(-2, 2); }
        k.lines = {T(ty), T(title), TN(a, U.a * sxy), TN(b, U.b * sxy), TN(na, U.n), TN(cc, W.a * sxy), TN(d, W.b * sxy), TN(nb, W.n)}; k.have_lines = true; k.user_calls = U.n * W.n;
        for (int i = 0; i < U.n; ++i) for (int j = 0; j < W.n; ++j) { double u = at(U, i), w = at(W, j); if (op == 34) k.lines.push_back(NL({u * sxy, w * sxy, (fu.raw(0.1 * i) + j) * sv})); else k.lines.push_back(NL({u, w, surfc(fu, u, w, 0), surfc(fu, u, w, 1), surfc(fu, u, w, 2)})); }
        if (op == 31) { auto f = std::make_shared<Su>(fu); auto* p = hold(f); k.user = &f->f; k.name = "SaveParametricSurface"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveParametricSurface(static_cast<const IParametricSurface<3>&>(*p), title, U.a, U.b, U.n, W.a, W.b, W.n, fn)); }; }
        else if (op == 32) { auto f = std::make_shared<NM>(fu); auto* p = hold(f); k.user = &f->f; k.name = "SaveParametricSurface(function)"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveParametricSurface(*p, title, U.a, U.b, U.n, W.a, W.b, W.n, fn)); }; }
        else if (op == 33) { auto f = std::make_shared<SuR>(fu, U.a, U.b, W.a, W.b); auto* p = hold(f); k.user = &f->f; k.name = "SaveParametricSurface(rect)"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveParametricSurface(*p, title, U.n, W.n, fn)); }; }
        else { auto f = std::make_shared<GridF>(GridF{{{U.a, U.b, W.a, W.b}, U.n, W.n}, fu}); auto* p = hold(f); k.user = &f->f; k.name = "SaveGridFunction2D"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveGridFunction2D(*p, title, fn, sxy, sv)); }; }
        break;
    }
    case 35: case 36: {    // scalar functions
        Range X = gen_range(G), Y = gen_range(G), Z = gen_range(G > 6 ? 6 : G); Fun fu = Fun::gen(); k.have_lines = true;
        if (op == 35) { auto f = std::make_shared<Sc<2>>(fu); auto* p = hold(f); k.user = &f->f; k.user_calls = X.n * Y.n; k.lines = {T("SCALAR_FUNCTION_CARTESIAN_2D"), T(title), TN("x1: ", X.a), TN("x2: ", X.b), TN("NumPointsX: ", X.n), TN("y1: ", Y.a), TN("y2: ", Y.b), TN("NumPointsY: ", Y.n)};
            for (int i = 0; i < X.n; ++i) for (int j = 0; j < Y.n; ++j) { double x = at(X, i), y = at(Y, j); k.lines.push_back(NL({x, y, fu.pure(Sc<2>::arg(VectorN<Real, 2>{x, y}))})); }
            k.name = "SaveScalarFunc2DCartesian"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveScalarFunc2DCartesian(*p, title, X.a, X.b, X.n, Y.a, Y.b, Y.n, fn)); }; }
        else { auto f = std::make_shared<Sc<3>>(fu); auto* p = hold(f); k.user = &f->f; k.user_calls = X.n * Y.n * Z.n; k.lines = {T("SCALAR_FUNCTION_CARTESIAN_3D"), T(title), TN("x1: ", X.a), TN("x2: ", X.b), TN("NumPointsX: ", X.n), TN("y1: ", Y.a), TN("y2: ", Y.b), TN("NumPointsY: ", Y.n), TN("z1: ", Z.a), TN("z2: ", Z.b), TN("NumPointsZ: ", Z.n)};
            for (int i = 0; i < X.n; ++i) for (int j = 0; j < Y.n; ++j) for (int l = 0; l < Z.n; ++l) { double x = at(X, i), y = at(Y, j), z = at(Z, l); k.lines.push_back(NL({x, y, z, fu.pure(Sc<3>::arg(VectorN<Real, 3>{x, y, z}))})); }
            k.name = "SaveScalarFunc3DCartesian"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveScalarFunc3DCartesian(*p, title, X.a, X.b, X.n, Y.a, Y.b, Y.n, Z.a, Z.b, Z.n, fn)); }; }
        break;
    }
    case 37: case 38: case 39: case 40: {    // vector fields
        Range X = gen_range(G), Y = gen_range(G), Z = gen_range(G > 6 ? 6 : G); Fun fu = Fun::gen(); fu.nan_at = 0; k.have_lines = true; bool thr = op == 38 || op == 40; double limit = 0.5 + sim::real(0, 6);
        auto keep = [&](double nrm) { return nrm < limit; };
        for (int again = 0; again < 6; ++again) { bool close = false;     // keep the threshold clear of every sample
            for (int i = 0; i < X.n; ++i) for (int j = 0; j < Y.n; ++j) for (int l = 0; l < (op >= 39 ? Z.n : 1); ++l) { double s = 0; if (op < 39) { VectorN<Real, 2> v{at(X, i), at(Y, j)}; for (int q = 0; q < 2; ++q) s += std::pow(VF<2>::comp(fu, v, q), 2); } else { VectorN<Real, 3> v{at(X, i), at(Y, j), at(Z, l)}; for (int q = 0; q < 3; ++q) s += std::pow(VF<3>::comp(fu, v, q), 2); } if (std::fabs(std::sqrt(s) - limit) < 1e-9) close = true; }
            if (!close) break; limit += 0.001; }
        if (op < 39) { auto f = std::make_shared<VF<2>>(fu); auto* p = hold(f); k.user = &f->f; k.user_calls = X.n * Y.n; k.lines = {T("VECTOR_FIELD_2D_CARTESIAN"), T(title)};
            for (int i = 0; i < X.n; ++i) for (int j = 0; j < Y.n; ++j) { VectorN<Real, 2> v{at(X, i), at(Y, j)}; double a = VF<2>::comp(fu, v, 0), b = VF<2>::comp(fu, v, 1); if (!thr || keep(std::sqrt(a * a + b * b))) k.lines.push_back(NL({v[0], v[1], a, b})); }
            k.name = thr ? "SaveVectorFunc2D(threshold)" : "SaveVectorFunc2D"; k.run = [=](const std::string& fn) { return ok(c, thr ? Serializer::SaveVectorFunc2DCartesian(*p, title, X.a, X.b, X.n, Y.a, Y.b, Y.n, fn, limit) : Serializer::SaveVectorFunc2DCartesian(*p, title, X.a, X.b, X.n, Y.a, Y.b, Y.n, fn)); }; }
        else { bool sph = sim::w(3) == 0; auto f = std::make_shared<VF<3>>(fu); auto* p = hold(f); k.user = &f->f; k.user_calls = X.n * Y.n * Z.n; k.lines = {T(sph ? "VECTOR_FIELD_SPHERICAL" : "VECTOR_FIELD_3D_CARTESIAN"), T(title)};
            for (int i = 0; i < X.n; ++i) for (int j = 0; j < Y.n; ++j) for (int l = 0; l < Z.n; ++l) { VectorN<Real, 3> v{at(X, i), at(Y, j), at(Z, l)}; double q[3]; double s = 0; for (int z = 0; z < 3; ++z) { q[z] = VF<3>::comp(fu, v, z); s += q[z] * q[z]; } if (!thr || keep(std::sqrt(s))) k.lines.push_back(NL({v[0], v[1], v[2], q[0], q[1], q[2]})); }
            k.name = thr ? "SaveVectorFunc3D(threshold)" : "SaveVectorFunc3D"; k.run = [=](const std::string& fn) { return ok(c, sph ? (thr ? Serializer::SaveVectorFuncSpherical(*p, title, X.a, X.b, X.n, Y.a, Y.b, Y.n, Z.a, Z.b, Z.n, fn, limit) : Serializer::SaveVectorFuncSpherical(*p, title, X.a, X.b, X.n, Y.a, Y.b, Y.n, Z.a, Z.b, Z.n, fn)) : (thr ? Serializer::SaveVectorFunc3DCartesian(*p, title, X.a, X.b, X.n, Y.a, Y.b, Y.n, Z.a, Z.b, Z.n, fn, limit) : Serializer::SaveVectorFunc3DCartesian(*p, title, X.a, X.b, X.n, Y.a, Y.b, Y.n, Z.a, Z.b, Z.n, fn))); }; }
        break;
    }
    case 41: case 42: {    // ODE solutions (possibly with unused capacity)
        int dim = 1 + sim::w(4), n = 1 + sim::w(N), cap = n + (int)sim::w(3) * (int)sim::w(10); double t1 = sim::real(-2, 2), t2 = t1 + 1 + sim::real(0, 4);
        auto s = std::make_shared<ODESystemSolution>(t1, t2, dim, cap > 0 ? cap - 1 : 0); auto* p = hold(s); k.have_lines = true;
        std::vector<std::vector<double>> rows; for (int i = 0; i < n; ++i) { Vector<Real> y(dim); std::vector<double> r{t1 + (t2 - t1) * i / n}; for (int j = 0; j < dim; ++j) { y[j] = gen_val(); r.push_back(y[j]); } s->fillValues(i, r[0], y); rows.push_back(r); }
        int how = sim::w(4); if (dim < 2 && how >= 2) how = sim::w(2); if (dim < 3 && how == 3) how = 2;
        int i1 = sim::w(dim), i2 = sim::w(dim), i3 = sim::w(dim); std::vector<std::string> leg; for (int i = 0; i < dim; ++i) leg.push_back("y" + std::to_string(i));
        if (want_bad) { k.bad = true; if (how == 1) leg.pop_back(); else { int* q[] = {&i1, &i2, &i3}; int& z = *q[sim::w(how == 0 ? 1 : how == 2 ? 2 : 3)]; z = sim::w(2) ? -1 - (int)sim::w(3) : dim + (int)sim::w(3); } }
        if (how == 0) { k.lines = {T("REAL_FUNCTION"), T(title), TN("x1: ", t1), TN("x2: ", t2), TN("NumPoints: ", n)}; for (auto& r : rows) k.lines.push_back(NL({r[0], k.bad ? 0 : r[1 + i1]})); k.name = "SaveODESolutionComponentAsFunc"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveODESolutionComponentAsFunc(*p, i1, title, fn)); }; }
        else if (how == 1) { k.lines = {T("MULTI_REAL_FUNCTION"), T(title), TN("", dim)}; for (auto& l : leg) k.lines.push_back(T(l)); k.lines.push_back(TN("x1: ", t1)); k.lines.push_back(TN("x2: ", t2)); k.lines.push_back(TN("NumPoints: ", n)); for (auto& r : rows) { ELine e; e.nums = r; k.lines.push_back(e); } k.name = "SaveODESolutionAsMultiFunc"; k.run = [=](const std::string& fn) { return ok(c, Serializer::SaveODESolutionAsMultiFunc(*p, title, leg, fn)); }; }
        else { hdrc(how == 2 ? "PARAMETRIC_CURVE_CARTESIAN_2D" : "PARAMETRIC_CURVE_CARTESIAN_3D", t1, t2, n); for (auto& r : rows) { ELine e; if (!k.bad) e.nums = {r[0], r[1 + i1], r[1 + i2]}; if (how == 3 && !k.bad) e.nums.push_back(r[1 + i3]); k.lines.push_back(e); }
            k.name = how == 2 ? "SaveODESolAsParametricCurve2D" : "SaveODESolAsParametricCurve3D"; k.run = [=](const std::string& fn) { return ok(c, how == 2 ? Serializer::SaveODESolAsParametricCurve2D(*p, fn, i1, i2, title) : Serializer::SaveODESolAsParametricCurve3D(*p, fn, i1, i2, i3, title)); }; }
        break;
    }
    case 43: case 44: {    // field lines
        int nl = 1 + sim::w(4); bool raw = sim::w(2); k.have_lines = true; k.prec = 17; 
        auto go = [&](auto dim) { constexpr int D = decltype(dim)::value; struct L { std::vector<FieldLine<D>> a; std::vector<std::vector<VectorN<Real, D>>> b; }; auto l = std::make_shared<L>(); auto* p = hold(l);
            k.lines = {T(D == 2 ? "FIELD_LINES_2D" : "FIELD_LINES_3D"), T("Title: " + title), TN("NUM_LINES: ", nl)};
            for (int i = 0; i < nl; ++i) { int n = sim::w(N); FieldLine<D> fl; k.lines.push_back(T("LINE " + std::to_string(i))); k.lines.push_back(TN("", n)); for (int j = 0; j < n; ++j) { VectorN<Real, D> v; ELine e; for (int q = 0; q < D; ++q) { v[q] = gen_val(); e.nums.push_back(v[q]); } fl.points.push_back(v); k.lines.push_back(e); } l->b.push_back(fl.points); l->a.push_back(fl); }
            k.name = D == 2 ? "SaveFieldLines2D" : "SaveFieldLines3D"; if constexpr (D == 2) k.run = [=](const std::string& fn) { return ok(c, raw ? Serializer::SaveFieldLines2D(p->b, title, fn) : Serializer::SaveFieldLines2D(p->a, title, fn)); }; else k.run = [=](const std::string& fn) { return ok(c, raw ? Serializer::SaveFieldLines3D(p->b, title, fn) : Serializer::SaveFieldLines3D(p->a, title, fn)); }; };
        if (op == 43) go(std::integral_constant<int, 2>()); else go(std::integral_constant<int, 3>());
        break;
    }
    default: {    // particle simulations
        bool d3 = op == 46; int nb = 1 + sim::w(4), ns = sim::w(N), every = 1 + sim::w(3); double W = 1 + sim::real(0, 9), H = 1 + sim::real(0, 9), D = 1 + sim::real(0, 9), dT = 0.01 + sim::real(0, 1);
        struct B { std::vector<std::vector<Pnt2Cart>> p2; std::vector<std::vector<Pnt3Cart>> p3; std::vector<std::string> col; std::vector<Real> rad; }; auto b = std::make_shared<B>(); auto* p = hold(b); k.have_lines = true;
        static const char* cols[] = {"red", "blue", "Green", "x"};
        k.lines = {T(d3 ? "PARTICLE_SIMULATION_DATA_3D" : "PARTICLE_SIMULATION_DATA_2D"), TN("Width: ", W), TN("Height: ", H)}; if (d3) k.lines.push_back(TN("Depth: ", D)); k.lines.push_back(TN("NumBalls: ", nb));
        for (int i = 0; i < nb; ++i) { b->col.push_back(cols[sim::w(4)]); b->rad.push_back(sim::real(0.1, 3)); k.lines.push_back(TN("Ball_" + std::to_string(i + 1) + " " + b->col[i] + " ", b->rad[i])); std::vector<Pnt2Cart> h2; std::vector<Pnt3Cart> h3; int extra = i && sim::w(4) == 0 ? 1 : 0; for (int s = 0; s < ns + extra; ++s) { double x = gen_val(), y = gen_val(), z = gen_val(); h2.push_back(Pnt2Cart(x, y)); h3.push_back(Pnt3Cart(x, y, z)); } if (want_bad && i + 1 == nb && i && ns) { k.bad = true; int q = sim::w(ns); h2.resize(q); h3.resize(q); } b->p2.push_back(h2); b->p3.push_back(h3); }
        if (want_bad && sim::w(3) == 0) {    // one list more, or one less, than there are balls
            k.bad = true; bool more = sim::w(2); switch (sim::w(3)) {
            case 0: if (more) { b->p2.push_back(b->p2[0]); b->p3.push_back(b->p3[0]); } else { b->p2.pop_back(); b->p3.pop_back(); } break;
            case 1: if (more) b->col.push_back("x"); else b->col.pop_back(); break;
            default: if (more) b->rad.push_back(1); else b->rad.pop_back(); }
        }
        k.lines.push_back(TN("NumSteps: ", (ns + every - 1) / every));
        int fr = 0; for (int s = 0; s < ns && !k.bad; s += every, ++fr) { ELine e; e.prefix = "Step " + std::to_string(fr) + " "; e.nums = {s * dT}; k.lines.push_back(e); for (int i = 0; i < nb; ++i) { ELine q; q.nums = {(double)i, b->p3[i][s].X(), b->p3[i][s].Y()}; if (d3) q.nums.push_back(b->p3[i][s].Z()); k.lines.push_back(q); } }
        k.name = d3 ? "SaveParticleSimulation3D" : "SaveParticleSimulation2D"; k.run = [=](const std::string& fn) { return ok(c, d3 ? Serializer::SaveParticleSimulation3D(fn, nb, W, H, D, p->p3, p->col, p->rad, dT, every) : Serializer::SaveParticleSimulation2D(fn, nb, W, H, p->p2, p->col, p->rad, dT, every)); };
        break;
    }
    }
    return C;
}

// outcome of running a case: 1 success, 0 failure reported, 2 library exception, 3 any other exception
inline int attempt(Case& c, const std::string& fn, std::string* what = nullptr) {
    try { return c.run(fn) ? 1 : 0; }
    catch (const UserError& e) { if (what) *what = e.what(); return 3; }
    catch (const FileIOError& e) { if (what) *what = e.what(); return 2; }
    catch (const std::exception& e) { if (what) *what = e.what(); return 3; }
    catch (...) { if (what) *what = "non-standard exception"; return 3; }
}
inline void quiet_cerr() { std::cerr.rdbuf(nullptr); }
} // namespace io
