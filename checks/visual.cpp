// C20: what Visualizer reports about writing its data file and running the external program, and where it writes.
#include "io_ops.h"
#include "mml/tools/Visualizer.h"
#include "mml/base/InterpolatedFunction.h"
using namespace MML; using io::Fun;
const char* const SIM_CHECK_ID = "C20";
__attribute__((constructor(101))) static void project_env() { setenv("MML_PROJECT_PATH", "/simproj", 1); unsetenv("MML_VISUALIZER_BACKEND"); }
using VR = VisualizerResult;
struct Op {
    const char* name; const char* exe = nullptr; bool launches = true, from_file = false;
    std::function<VR(const std::string&)> call;
    std::vector<std::function<bool(const std::string&)>> ref;
    std::vector<std::string> inputs;      // from_file
    std::shared_ptr<void> keep;
};
static const char* RES = "/simproj/results";
static std::string res_real() { std::string r; return sim::vfs_resolve(RES, true, false, r) ? RES : r; }

// ---- names
static std::string gen_name() {
    static const char* plain[] = {"plot.mml", "a", "x_1-b.txt", "PLOT.MML", "file.tar.gz", "0"};
    static const char* dirs[] = {"../x.mml", "/etc/passwd", "a/b/c.mml", "..", ".", "", "...", "/", "../../../../simout/data.mml", "results/../../x", "/simout/new.mml", "./y", "a/", "..plot", "/simproj/work/z", "subdir/q.mml", "../work/local.mml"};
    static const char* odd[] = {"my plot.mml", "a;rm -rf x", "$(id).mml", "`id`", "a|b", "a&b", "x\ny", "q\"uote'.mml", "back\\slash", "..\\..\\x", "t\tab", "\x01\x02", "na\xc3\xafve.mml", "-rf", "--help", "*", "~", "%s%n", "a>b", "(1).mml"};
    static const char* special[] = {"lnk_out", "lnk_new", "lnk_in", "loop", "subdir", "other.mml", "lnk_dirout", "lnk_sib", "lnk_sibnew", "lnk_up", "sep"};
    switch (sim::w(7)) {
    case 0: case 1: return plain[sim::w(6)];
    case 2: return dirs[sim::w(17)];
    case 3: return odd[sim::w(20)];
    case 4: return special[sim::w(11)];
    case 5: { static const int len[] = {100, 200, 240, 250, 251, 255, 256, 300, 3900, 5000}; int n = len[sim::w(10)]; std::string s((size_t)n, "abc.-/ "[sim::w(4)]); if (sim::w(3) == 0) s = "dir/" + s; return s; }
    default: { std::string s = "n"; int n = sim::w(12); static const char al[] = "ab01._- /\\;'\"$\n\t*?<>|&()\0%"; for (int i = 0; i < n; ++i) s += al[sim::w(sizeof al - 1)]; return s; }
    }
}
static std::string sanitised(const std::string& n) {
    size_t k = n.rfind('/'); std::string b = k == std::string::npos ? n : n.substr(k + 1), r; if (b.empty()) b = "output";
    for (char c : b) r += (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '-' || c == '.' ? c : '_';
    size_t f = r.find_first_not_of('.'); r = f == std::string::npos ? "output" : r.substr(f); return r;
}

// ---- operations
template <class T> T* hold(Op& o, std::shared_ptr<T> p) { T* q = p.get(); auto old = o.keep; o.keep = std::shared_ptr<void>(q, [p, old](void*) mutable { p.reset(); old.reset(); }); return q; }
static Op gen_op() {
    Op o; int N = sim::w(5) == 0 ? 150 : 8, G = 4; std::string t = io::gen_title(); Fun fu = Fun::gen();
    auto R = [&] { return io::gen_range(N); };
    auto ifs = [&](int n) { std::vector<std::pair<Vector<Real>, Vector<Real>>> v; for (int i = 0; i < n; ++i) { int m = 5 + sim::w(4); Vector<Real> x(m), y(m); for (int j = 0; j < m; ++j) { x[j] = -1.0 + 2.0 * j / (m - 1); y[j] = fu.raw(x[j]) + i; } v.push_back({x, y}); } return v; };
    std::vector<std::string> leg; for (int i = 0; i < 4; ++i) leg.push_back("L" + std::to_string(i));
    auto ode = [&] { int dim = 3, n = 2 + sim::w(N); auto s = std::make_shared<ODESystemSolution>(0.0, 1.0, dim, n - 1); for (int i = 0; i < n; ++i) { Vector<Real> y(dim); for (int j = 0; j < dim; ++j) y[j] = fu.raw(0.1 * i + j); s->fillValues(i, (Real)i / n, y); } return hold(o, s); };
    switch (sim::w(26)) {
    case 0: { auto r = R(); auto* f = hold(o, std::make_shared<io::RF>(fu)); o.name = "VisualizeRealFunction"; o.exe = "MML_RealFunctionVisualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeRealFunction(*f, t, r.a, r.b, r.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveRealFunc(*f, t, r.a, r.b, r.n, n).success; }}; break; }
    case 1: { auto p = io::gen_points(N); auto* f = hold(o, std::make_shared<io::RF>(fu)); o.name = "VisualizeRealFunction(points)"; o.exe = "MML_RealFunctionVisualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeRealFunction(*f, t, p, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveRealFunc(*f, t, p, n).success; }}; break; }
    case 2: { auto r = R(); auto* f = hold(o, std::make_shared<io::RF>(fu)); auto* g = hold(o, std::make_shared<io::RF>(Fun::gen())); std::vector<IRealFunction*> v{f, g}; auto l = leg; l.resize(2); o.name = "VisualizeMultiRealFunction"; o.exe = "MML_RealFunctionVisualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeMultiRealFunction(v, t, l, r.a, r.b, r.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveRealMultiFunc(v, t, l, r.a, r.b, r.n, n).success; }}; break; }
    case 3: case 4: case 5: { int k = 1 + sim::w(3); auto d = ifs(k); auto l = leg; l.resize(k); int np = 2 + sim::w(6); o.exe = "MML_RealFunctionVisualizer"; int how = sim::w(4);
        auto go = [&](auto* tag, const char* nm) { using F = std::remove_pointer_t<decltype(tag)>; auto v = std::make_shared<std::vector<F>>(); for (auto& x : d) { if constexpr (std::is_same_v<F, PolynomInterpRealFunc>) v->push_back(F(x.first, x.second, 3)); else v->push_back(F(x.first, x.second)); } auto* q = hold(o, v); o.name = nm; o.call = [=](const std::string& n) { return Visualizer::VisualizeMultiRealFunction(*q, t, l, -0.9, 0.9, np, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveRealMultiFunc(*q, t, l, -0.9, 0.9, np, n).success; }}; };
        if (how == 0) go((LinearInterpRealFunc*)0, "VisualizeMultiRealFunction(linear)"); else if (how == 1) go((PolynomInterpRealFunc*)0, "VisualizeMultiRealFunction(polynomial)"); else if (how == 2) go((SplineInterpRealFunc*)0, "VisualizeMultiRealFunction(spline)");
        else { auto v = std::make_shared<std::vector<LinearInterpRealFunc>>(); for (auto& x : d) v->push_back(LinearInterpRealFunc(x.first, x.second)); auto* q = hold(o, v); o.name = "VisualizeMultiRealFunctionSeparately"; double a = sim::w(2) ? -0.5 : -3, b = sim::w(2) ? 0.5 : 3; o.call = [=](const std::string& n) { return Visualizer::VisualizeMultiRealFunctionSeparately(*q, t, l, a, b, np, n); };
            for (int i = 0; i < k; ++i) o.ref.push_back([=](const std::string& n) { return Serializer::SaveRealFunc((*q)[i], l[i], std::max<Real>(a, -1.0), std::min<Real>(b, 1.0), np, n).success; }); }
        break; }
    case 6: { auto x = io::gen_range(G), y = io::gen_range(G); auto* f = hold(o, std::make_shared<io::Sc<2>>(fu)); o.name = "VisualizeScalarFunc2DCartesian"; o.exe = "MML_ScalarFunction2D_Visualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeScalarFunc2DCartesian(*f, t, x.a, x.b, x.n, y.a, y.b, y.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveScalarFunc2DCartesian(*f, t, x.a, x.b, x.n, y.a, y.b, y.n, n).success; }}; break; }
    case 7: { auto x = io::gen_range(G), y = io::gen_range(G); auto* f = hold(o, std::make_shared<io::GridF>(io::GridF{{{x.a, x.b, y.a, y.b}, x.n, y.n}, fu})); o.name = "VisualizeGridFunction2D"; o.exe = "MML_ScalarFunction2D_Visualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeGridFunction2D(*f, t, n, 2.0, 3.0); }; o.ref = {[=](const std::string& n) { return Serializer::SaveGridFunction2D(*f, t, n, 2.0, 3.0).success; }}; break; }
    case 8: { auto x = io::gen_range(G), y = io::gen_range(G); auto* f = hold(o, std::make_shared<io::VF<2>>(fu)); o.name = "VisualizeVectorField2DCartesian"; o.exe = "MML_VectorField2D_Visualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeVectorField2DCartesian(*f, t, x.a, x.b, x.n, y.a, y.b, y.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveVectorFunc2DCartesian(*f, t, x.a, x.b, x.n, y.a, y.b, y.n, n).success; }}; break; }
    case 9: { auto x = io::gen_range(G), y = io::gen_range(G), z = io::gen_range(3); auto* f = hold(o, std::make_shared<io::VF<3>>(fu)); o.name = "VisualizeVectorField3DCartesian"; o.exe = "MML_VectorField3D_Visualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeVectorField3DCartesian(*f, t, x.a, x.b, x.n, y.a, y.b, y.n, z.a, z.b, z.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveVectorFunc3DCartesian(*f, t, x.a, x.b, x.n, y.a, y.b, y.n, z.a, z.b, z.n, n, 3.0).success; }}; break; }
    case 10: { auto r = R(); auto* f = hold(o, std::make_shared<io::Cu<2>>(fu)); o.name = "VisualizeParamCurve2D"; o.exe = "MML_ParametricCurve2D_Visualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeParamCurve2D(*f, t, r.a, r.b, r.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveParamCurveCartesian2DResult(*f, t, r.a, r.b, r.n, n).success; }}; break; }
    case 11: { auto r = R(); auto* f = hold(o, std::make_shared<io::Cu<3>>(fu)); o.name = "VisualizeParamCurve3D"; o.exe = "MML_ParametricCurve3D_Visualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeParamCurve3D(*f, t, r.a, r.b, r.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveParamCurveCartesian3DResult(*f, t, r.a, r.b, r.n, n).success; }}; break; }
    case 12: case 13: { auto r = R(); int k = 1 + sim::w(3); int how = sim::w(3); auto l = leg;
        if (how < 2) { std::vector<IRealToVectorFunction<2>*> v; for (int i = 0; i < k; ++i) { auto* f = hold(o, std::make_shared<io::Cu<2>>(i ? Fun::gen() : fu)); v.push_back(f); o.ref.push_back([=](const std::string& n) { return Serializer::SaveParamCurveCartesian2DResult(*f, how ? l[i] : t, r.a, r.b, r.n, n).success; }); }
            o.name = how ? "VisualizeMultiParamCurve2D(legend)" : "VisualizeMultiParamCurve2D"; o.exe = "MML_ParametricCurve2D_Visualizer"; o.call = [=](const std::string& n) { return how ? Visualizer::VisualizeMultiParamCurve2D(v, l, r.a, r.b, r.n, n) : Visualizer::VisualizeMultiParamCurve2D(v, t, r.a, r.b, r.n, n); }; }
        else { std::vector<IRealToVectorFunction<3>*> v; for (int i = 0; i < k; ++i) { auto* f = hold(o, std::make_shared<io::Cu<3>>(i ? Fun::gen() : fu)); v.push_back(f); o.ref.push_back([=](const std::string& n) { return Serializer::SaveParamCurveCartesian3DResult(*f, t, r.a, r.b, r.n, n).success; }); }
            o.name = "VisualizeMultiParamCurve3D"; o.exe = "MML_ParametricCurve3D_Visualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeMultiParamCurve3D(v, t, r.a, r.b, r.n, n); }; }
        break; }
    case 14: { auto* s = ode(); int i = sim::w(3); o.name = "VisualizeODESysSolCompAsFunc"; o.exe = "MML_RealFunctionVisualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeODESysSolCompAsFunc(*s, i, t, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveODESolutionComponentAsFunc(*s, i, t, n).success; }}; break; }
    case 15: { auto* s = ode(); auto l = leg; l.resize(3); o.name = "VisualizeODESysSolAsMultiFunc"; o.exe = "MML_RealFunctionVisualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeODESysSolAsMultiFunc(*s, t, l, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveODESolutionAsMultiFunc(*s, t, l, n).success; }}; break; }
    case 16: { auto* s = ode(); o.name = "VisualizeODESysSolAsParamCurve2"; o.exe = "MML_ParametricCurve2D_Visualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeODESysSolAsParamCurve2(*s, 0, 2, t, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveODESolAsParametricCurve2D(*s, n, 0, 2, t).success; }}; break; }
    case 17: { auto* s = ode(); o.name = "VisualizeODESysSolAsParamCurve3"; o.exe = "MML_ParametricCurve3D_Visualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeODESysSolAsParamCurve3(*s, 2, 0, 1, t, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveODESolAsParametricCurve3D(*s, n, 2, 0, 1, t).success; }}; break; }
    case 18: case 19: { auto U = io::gen_range(G), W = io::gen_range(G); int how = sim::w(3); o.exe = "MML_ParametricSurface_Visualizer";
        if (how == 0) { auto* f = hold(o, std::make_shared<io::Su>(fu)); o.name = "VisualizeParametricSurface"; o.call = [=](const std::string& n) { return Visualizer::VisualizeParametricSurface(static_cast<const IParametricSurface<3>&>(*f), t, U.a, U.b, U.n, W.a, W.b, W.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveParametricSurface(static_cast<const IParametricSurface<3>&>(*f), t, U.a, U.b, U.n, W.a, W.b, W.n, n).success; }}; }
        else if (how == 1) { auto* f = hold(o, std::make_shared<io::SuR>(fu, U.a, U.b, W.a, W.b)); o.name = "VisualizeParametricSurface(rect)"; o.call = [=](const std::string& n) { return Visualizer::VisualizeParametricSurface(*f, t, U.n, W.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveParametricSurface(*f, t, U.n, W.n, n).success; }}; }
        else { auto* f = hold(o, std::make_shared<io::NM>(fu)); o.name = "VisualizeParametricSurface(function)"; o.call = [=](const std::string& n) { return Visualizer::VisualizeParametricSurface(*f, t, U.a, U.b, U.n, W.a, W.b, W.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveParametricSurface(*f, t, U.a, U.b, U.n, W.a, W.b, W.n, n).success; }}; }
        break; }
    case 20: { auto x = io::gen_range(G), y = io::gen_range(G), z = io::gen_range(3); auto* f = hold(o, std::make_shared<io::Sc<3>>(fu)); o.name = "VisualizeScalarFunc3DCartesian"; o.exe = "MML_ScalarFunction3D_Visualizer"; o.call = [=](const std::string& n) { return Visualizer::VisualizeScalarFunc3DCartesian(*f, t, x.a, x.b, x.n, y.a, y.b, y.n, z.a, z.b, z.n, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveScalarFunc3DCartesian(*f, t, x.a, x.b, x.n, y.a, y.b, y.n, z.a, z.b, z.n, n).success; }}; break; }
    case 21: { o.launches = false; auto go = [&](auto dim) { constexpr int D = decltype(dim)::value; auto l = std::make_shared<std::vector<FieldLine<D>>>(); int k = 1 + sim::w(3); for (int i = 0; i < k; ++i) { FieldLine<D> fl; int m = sim::w(N); for (int j = 0; j < m; ++j) { VectorN<Real, D> v; for (int q = 0; q < D; ++q) v[q] = fu.raw(j + q); fl.points.push_back(v); } l->push_back(fl); } auto* q = hold(o, l);
            if constexpr (D == 2) { o.name = "VisualizeFieldLines2D"; o.call = [=](const std::string& n) { return Visualizer::VisualizeFieldLines2D(*q, t, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveFieldLines2D(*q, t, n).success; }}; } else { o.name = "VisualizeFieldLines3D"; o.call = [=](const std::string& n) { return Visualizer::VisualizeFieldLines3D(*q, t, n); }; o.ref = {[=](const std::string& n) { return Serializer::SaveFieldLines3D(*q, t, n).success; }}; } };
        if (sim::w(2)) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>()); break; }
    default: {
        o.from_file = true; struct FF { const char* n; const char* e; VR (*f)(std::string); };
        static const FF one[] = {{"VisualizeRealFunctionFromFile", "MML_RealFunctionVisualizer", [](std::string s) { return Visualizer::VisualizeRealFunctionFromFile(s); }}, {"VisualizeScalarFunc2DFromFile", "MML_ScalarFunction2D_Visualizer", [](std::string s) { return Visualizer::VisualizeScalarFunc2DFromFile(s); }},
            {"VisualizeVectorField2DFromFile", "MML_VectorField2D_Visualizer", [](std::string s) { return Visualizer::VisualizeVectorField2DFromFile(s); }}, {"VisualizeVectorField3DFromFile", "MML_VectorField3D_Visualizer", [](std::string s) { return Visualizer::VisualizeVectorField3DFromFile(s); }},
            {"VisualizeParticleSimulation2D", "MML_ParticleVisualizer2D", [](std::string s) { return Visualizer::VisualizeParticleSimulation2D(s); }}, {"VisualizeParticleSimulation3D", "MML_ParticleVisualizer3D", [](std::string s) { return Visualizer::VisualizeParticleSimulation3D(s); }},
            {"VisualizeParametricSurfaceFromFile", "MML_ParametricSurface_Visualizer", [](std::string s) { return Visualizer::VisualizeParametricSurfaceFromFile(s); }}, {"VisualizeScalarFunc3DFromFile", "MML_ScalarFunction3D_Visualizer", [](std::string s) { return Visualizer::VisualizeScalarFunc3DFromFile(s); }},
            {"VisualizeRigidBodyTrajectory", "MML_RigidBodyMovement_Visualizer", [](std::string s) { return Visualizer::VisualizeRigidBodyTrajectory(s); }}};
        static const char* files[] = {"/simout/data.mml", "saved.mml", "local.mml", "../work/local.mml", "/simproj/results/saved.mml", "missing.mml", "/simout/missing.mml", "other.mml", "lnk_out", "x/y/saved.mml", "subdir/deep.mml", "lnk_sib", "lnk_up"};
        auto pick = [&] { return sim::w(3) ? std::string(files[sim::w(13)]) : gen_name(); };
        int k = sim::w(12);
        if (k < 9) { o.name = one[k].n; o.exe = one[k].e; std::string in = pick(); o.inputs = {in}; auto f = one[k].f; o.call = [=](const std::string&) { return f(in); }; }
        else { int m = sim::w(4); for (int i = 0; i < m; ++i) o.inputs.push_back(pick()); auto in = o.inputs;
            if (k == 9) { o.name = "VisualizeMultiParamCurve2D(files)"; o.exe = "MML_ParametricCurve2D_Visualizer"; o.call = [=](const std::string&) { return Visualizer::VisualizeMultiParamCurve2D(in); }; }
            else if (k == 10) { o.name = "VisualizeMultiParamCurve3D(files)"; o.exe = "MML_ParametricCurve3D_Visualizer"; o.call = [=](const std::string&) { return Visualizer::VisualizeMultiParamCurve3D(in); }; }
            else { o.name = "VisualizeRigidBodyTrajectory(files)"; o.exe = "MML_RigidBodyMovement_Visualizer"; o.call = [=](const std::string&) { return Visualizer::VisualizeRigidBodyTrajectory(in); }; } }
    } }
    return o;
}

static std::vector<std::pair<std::string, std::string>> snapshot() { std::vector<std::pair<std::string, std::string>> v; for (int i = 0; i < sim::disk_file_count(); ++i) if (const char* n = sim::disk_file_name(i)) { std::string d; sim::disk_get(n, d); v.push_back({n, d}); } return v; }
static bool inside(const std::string& p) { std::string r = res_real() + "/"; return p.compare(0, r.size(), r) == 0 && p.size() > r.size(); }
static const std::string* lookup(const std::vector<std::pair<std::string, std::string>>& v, const std::string& n) { for (auto& x : v) if (x.first == n) return &x.second; return nullptr; }
static std::string show(const std::string& s) { std::string o; for (unsigned char c : s.substr(0, 80)) { if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } if (s.size() > 80) o += "..."; return o; }

void scenario() {
    io::quiet_cerr(); sim::disk_no_faults(); sim::disk_arm(true); sim::vfs_reset(); sim::proc_arm(true); sim::proc_plan(sim::ProcPlan());
    sim::alloc_limit((size_t)1 << 28);
    for (const char* d : {"/simproj", "/simproj/work", "/simproj/tools", "/simproj/mml", "/simproj/tools/visualizers", "/simproj/tools/visualizers/linux", "/simout", "/etc"}) sim::vfs_dir(d);
    bool qt = sim::w(6) != 5, fltk = sim::w(6) != 5;
    if (qt) sim::vfs_dir("/simproj/tools/visualizers/linux/Qt"); if (fltk) sim::vfs_dir("/simproj/tools/visualizers/linux/FLTK");
    int rs = sim::w(8); bool res_usable = true; std::string R = RES;
    if (rs == 1) {}                                                     // not there yet
    else if (rs == 2) { sim::vfs_dir("/simout/res"); sim::vfs_link(RES, "/simout/res"); R = "/simout/res"; }
    else if (rs == 3) { sim::disk_put(RES, "file", 4); res_usable = false; }
    else sim::vfs_dir(RES);
    if (rs != 1 && rs != 3) {
        sim::disk_put((R + "/saved.mml").c_str(), "saved data", 10); sim::disk_put((R + "/other.mml").c_str(), "other", 5); sim::vfs_dir((R + "/subdir").c_str()); sim::disk_put((R + "/subdir/deep.mml").c_str(), "deep", 4);
        sim::vfs_link((R + "/lnk_out").c_str(), "/simout/data.mml"); sim::vfs_link((R + "/lnk_new").c_str(), "/simout/fresh.mml"); sim::vfs_link((R + "/lnk_in").c_str(), "saved.mml"); sim::vfs_link((R + "/loop").c_str(), "loop"); sim::vfs_link((R + "/lnk_dirout").c_str(), "/simout");
        // a sibling folder whose name begins with that of the results folder, and the folder above it
        std::string sib = R + "_2"; sim::vfs_dir(sib.c_str()); sim::disk_put((sib + "/kept.mml").c_str(), "kept", 4); sim::disk_put((sib + "/p.mml").c_str(), "kept", 4);
        sim::vfs_link((R + "/lnk_sib").c_str(), (sib + "/kept.mml").c_str()); sim::vfs_link((R + "/lnk_sibnew").c_str(), (sib + "/fresh.mml").c_str()); sim::vfs_link((R + "/lnk_up").c_str(), "../work/local.mml");
        sim::vfs_link((R + "/sep_1.mml").c_str(), (sib + "/p.mml").c_str()); sim::vfs_link((R + "/sep_2.mml").c_str(), "/simout/data.mml");
    }
    sim::disk_put("/simout/data.mml", "outside data", 12); sim::disk_put("/etc/passwd", "root", 4); sim::disk_put("/simproj/work/local.mml", "local data", 10);
    const char* ld0 = sim::w(2) ? "/opt/lib" : nullptr; if (ld0) setenv("LD_LIBRARY_PATH", ld0, 1); else unsetenv("LD_LIBRARY_PATH");
    std::string env_backend; static const char* eb[] = {"", "Qt", "FLTK", "qt6", "WPF", "auto", "nonsense"}; env_backend = sim::w(3) ? "" : eb[sim::w(7)];
    if (!env_backend.empty()) setenv("MML_VISUALIZER_BACKEND", env_backend.c_str(), 1); else unsetenv("MML_VISUALIZER_BACKEND");
    int set = 0;      // model of the selected backend: 0 auto 1 Qt 2 FLTK
    int calls = 1 + sim::w(3);
    for (int c = 0; c < calls; ++c) {
        if (sim::w(3) == 0) { int b = sim::w(4); SetVisualizerBackend(b == 0 ? VisualizerBackend::Auto : b == 1 ? VisualizerBackend::Qt : b == 2 ? VisualizerBackend::FLTK : VisualizerBackend::WPF); set = b == 1 && qt ? 1 : b == 2 && fltk ? 2 : 0; }
        int bk = set == 2 ? 2 : 1; if (env_backend == "Qt" || env_backend == "qt6" || env_backend == "auto") bk = 1; if (env_backend == "FLTK") bk = 2; bool wpf = env_backend == "WPF"; bool vague = env_backend == "auto" && set == 2;
        Op o = gen_op(); std::string name = gen_name(); const char* where = o.name; sim::site("%s", where);
        // the reference files
        std::vector<std::string> ref;
        sim::disk_no_faults();
        for (auto& f : o.ref) { sim::disk_put("/simref/x", "", 0); sim::proc_arm(false); bool good = f("/simref/x"); sim::proc_arm(true); std::string d; sim::disk_get("/simref/x", d); if (!good) { sim::trace("reference not savable"); sim::disk_remove("/simref/x"); return; } ref.push_back(d); }
        sim::disk_remove("/simref/x");
        // faults
        sim::ProcPlan pp; sim::DiskPlan dp; const char* fk = "none"; static const int errs[] = {EACCES, EIO, ENOSPC, EROFS, ELOOP, ENOMEM, EPERM};
        pp.run_ns = sim::draw(sim::F, 4) * 1000000000ull; if (sim::draw(sim::F, 3) == 2) { pp.eintr = 1 + sim::draw(sim::F, 4); }
        bool bad = true, soft = false;
        switch (sim::draw(sim::F, 12)) {
        case 0: case 1: bad = false; break;
        case 2: { static const int fe[] = {EAGAIN, ENOMEM}; pp.fork_errno = fe[sim::draw(sim::F, 2)]; fk = "fork fails"; break; }
        case 3: { static const int xe[] = {ENOENT, EACCES, ENOMEM, E2BIG, ENOEXEC, ETXTBSY}; pp.exec_errno = xe[sim::draw(sim::F, 6)]; fk = "exec fails"; break; }
        case 4: { static const int xc[] = {1, 2, 3, 126, 127, 128, 255}; pp.exit_code = sim::draw(sim::F, 2) ? xc[sim::draw(sim::F, 7)] : 1 + (int)sim::draw(sim::F, 255); fk = "program reports an error code"; break; }
        case 5: { static const int sg[] = {SIGSEGV, SIGABRT, SIGKILL, SIGTERM, SIGHUP, SIGBUS, SIGINT, SIGQUIT, SIGILL, SIGFPE, SIGPIPE, SIGALRM, SIGUSR1, SIGXCPU, SIGSYS, 34}; pp.sig = sg[sim::draw(sim::F, 16)]; if (pp.sig != SIGKILL && sim::draw(sim::F, 3) == 0) pp.sig |= 0x80; fk = "program is killed"; break; }
        case 6: pp.echild = true; fk = "the program's status is lost"; break;
        case 7: dp.open_fail_at = 1 + sim::draw(sim::F, 2); dp.open_errno = errs[sim::draw(sim::F, 7)]; fk = "open fails"; soft = true; break;
        case 8: dp.capacity = sim::draw(sim::F, 3) ? sim::draw(sim::F, 400) : sim::draw(sim::F, 20000); fk = "disk full"; soft = true; break;
        case 9: dp.close_fail_at = 1 + sim::draw(sim::F, 2); dp.close_errno = EIO; fk = "close fails"; soft = true; break;
        case 10: pp.fs_fail_at = 1 + sim::draw(sim::F, 14); pp.fs_errno = errs[sim::draw(sim::F, 7)]; pp.fs_fail_count = sim::draw(sim::F, 3) ? 1 : 1000; fk = "a name lookup fails"; soft = true; break;
        default: if (sim::draw(sim::F, 2)) { pp.child_alloc_fail = 1 + sim::draw(sim::F, 6); fk = "no memory in the forked copy"; soft = true; } else { dp.write_fail_at = 1 + sim::draw(sim::F, 2); dp.write_errno = EIO; fk = "write fails"; soft = true; } break;
        }
        if (sim::draw(sim::F, 3) == 2) { dp.short_io = true; dp.interrupt = sim::draw(sim::F, 2); }
        auto before = snapshot(); int dirs0 = sim::vfs_dir_count();
        sim::disk_plan(dp); sim::proc_plan(pp);
        sim::trace("%s('%s') with %s", o.name, show(o.from_file ? (o.inputs.empty() ? "" : o.inputs[0]) : name).c_str(), fk);
        sim::count(("case:" + std::string(o.name)).c_str());
        VR r{false, false, 0, "", ""}; int exc = 0; std::string what;
        try { r = o.call(name); } catch (const VisualizerError& e) { exc = 1; what = e.what(); } catch (const std::exception& e) { exc = 2; what = e.what(); } catch (...) { exc = 3; what = "?"; }
        if (sim::proc_in_child()) sim::proc_child_escaped();
        auto ds = sim::disk_stats(); int forks = sim::proc_forks(), fs_failed = sim::proc_fs_failed(), kills = sim::proc_kills(); sim::Launch L; memset((void*)&L, 0, sizeof L); if (forks) L = sim::proc_launch(0);
        sim::disk_no_faults(); sim::proc_plan(sim::ProcPlan());
        auto after = snapshot(); std::string arg0 = o.from_file ? (o.inputs.empty() ? "" : o.inputs[0]) : name;
        std::string desc = std::string(o.name) + "('" + show(arg0) + "'" + (o.inputs.size() > 1 ? ", ...)" : ")") + " when " + fk; const char* D = desc.c_str();
        sim::trace("success %d, timed out %d, code %d, path '%s', message '%s', exception %d %s", (int)r.success, (int)r.timedOut, r.exitCode, show(r.dataFilePath).c_str(), show(r.errorMessage).c_str(), exc, what.c_str());
        int san_class = 0; { std::string s2 = sanitised(name); if (s2.size() > 240) san_class = 1; for (const char* q : {"lnk_out", "lnk_new", "lnk_in", "loop", "subdir", "lnk_dirout", "lnk_sib", "lnk_sibnew", "lnk_up", "sep"}) if (s2 == q) san_class = 2; }
        sim::state(((uint64_t)std::hash<std::string>()(o.name) << 20) ^ (std::hash<std::string>()(fk) << 8) ^ (r.success << 7) ^ (forks << 5) ^ (exc << 3) ^ san_class);
        if (forks || bad) sim::nontrivial();
        // nothing unintended
        if (L.escaped) sim::violation("child-returns", where, "%s: the forked copy does not end, it returns to the caller and goes on executing the program", D);
        if (L.shell) sim::violation("unintended-execution", where, "%s: a shell is started: %s", D, L.path);
        if (forks > 1) sim::violation("unintended-execution", where, "%s: %d processes started", D, forks);
        if (forks && !L.reaped) sim::violation("zombie", where, "%s: the child process is never waited for", D);
        if (kills) sim::violation("unintended-execution", where, "%s: a signal is sent although no timeout was asked for", D);
        std::string tools = std::string("/simproj/tools/visualizers/linux/"), e1 = tools + "Qt/" + (o.exe ? o.exe : ""), e2 = tools + "FLTK/" + (o.exe ? o.exe : "") + "_FLTK"; std::string want = bk == 2 ? e2 : e1;
        if (L.exec_tries) {
            if (!o.launches) sim::violation("unintended-execution", where, "%s: starts %s", D, L.path);
            if (L.path != want && !(vague && L.path == e2)) sim::violation("unintended-execution", where, "%s: starts '%s' instead of '%s'", D, show(L.path).c_str(), want.c_str());
            size_t nf = o.from_file ? o.inputs.size() : o.ref.size();
            if ((size_t)L.argc != nf + 1 || (L.argc > 0 && std::string(L.arg[0]) != L.path)) sim::violation("unintended-execution", where, "%s: the program gets %d arguments for %zu data files", D, L.argc - 1, nf);
            for (int a = 1; a < L.argc && a < 12; ++a) {
                std::string f; int e = sim::vfs_resolve(L.arg[a], true, true, f); if (e || sim::vfs_is_dir(f.c_str())) { if (!e && o.from_file) continue; sim::violation("wrong-data", where, "%s: the program is given '%s', which is not a file", D, show(L.arg[a]).c_str()); continue; }
                const std::string* got = lookup(after, f);
                if (!o.from_file) {
                    if (!inside(f)) sim::violation("outside", where, "%s: the program is given '%s', outside the results folder", D, show(L.arg[a]).c_str());
                    if (a - 1 < (int)ref.size() && got && *got != ref[a - 1] && L.execed) sim::violation("wrong-data", where, "%s: the program is started although its data file has %zu of %zu bytes, first '%s'", D, got->size(), ref[a - 1].size(), show(*got).c_str());
                } else {
                    std::string q; if (sim::vfs_resolve(o.inputs[a - 1].c_str(), true, true, q) == 0 && !sim::vfs_is_dir(q.c_str())) { if (q != f && !fs_failed) sim::violation("wrong-data", where, "%s: the program is given '%s'", D, show(L.arg[a]).c_str()); }
                    else if (!inside(f)) sim::violation("wrong-data", where, "%s: '%s' does not exist, but the program is given '%s'", D, show(o.inputs[a - 1]).c_str(), show(L.arg[a]).c_str());
                }
            }
        }
        // files
        for (auto& x : after) { const std::string* b = lookup(before, x.first); if (b && *b == x.second) continue; if (!inside(x.first)) sim::violation("outside", where, "%s: %s '%s', outside the results folder", D, b ? "overwrites" : "creates", show(x.first).c_str()); if (o.from_file) sim::violation("outside", where, "%s: changes '%s'", D, show(x.first).c_str()); }
        for (auto& x : before) if (!lookup(after, x.first)) sim::violation("outside", where, "%s: deletes '%s'", D, show(x.first).c_str());
        for (int d = dirs0; d < sim::vfs_dir_count(); ++d) { std::string dn = sim::vfs_dir_name(d); if (dn != RES && !inside(dn)) sim::violation("outside", where, "%s: creates folder '%s'", D, dn.c_str()); }
        if (sim::disk_handles()) sim::violation("handle-leak", where, "%s: %d file handle(s) left open", D, sim::disk_handles());
        { const char* ld = getenv("LD_LIBRARY_PATH"); if ((ld ? std::string(ld) : "") != (ld0 ? ld0 : "") || getenv("QT_PLUGIN_PATH")) sim::violation("environment", where, "%s: changes the caller's environment (LD_LIBRARY_PATH=%s)", D, ld ? ld : "(unset)"); }
        // verdict
        bool prog_ok = forks == 1 && L.execed && !pp.exit_code && !pp.sig && !pp.echild;
        if (exc) { if (!(exc == 1 && wpf)) sim::violation("throws", where, "%s throws instead of reporting a failure: %s", D, what.c_str()); }
        else if (r.success) {
            if (o.launches && !forks) sim::violation("false-success", where, "%s reports success without starting the program", D);
            else if (o.launches && !prog_ok) sim::violation("false-success", where, "%s reports success", D);
            if (r.timedOut || r.exitCode) sim::violation("wrong-result", where, "%s: success with timedOut=%d exitCode=%d", D, (int)r.timedOut, r.exitCode);
            if (!o.from_file) {
                std::string f; int e = r.dataFilePath.empty() && ref.empty() ? 0 : sim::vfs_resolve(r.dataFilePath.c_str(), true, true, f); const std::string* got = lookup(after, f);
                if (!ref.empty() && (e || !got || *got != ref[0])) sim::violation("false-success", where, "%s reports success, but the file '%s' %s", D, show(r.dataFilePath).c_str(), e || !got ? "does not exist" : "is not complete");
            }
        } else {
            if (r.timedOut) sim::violation("wrong-result", where, "%s: a timeout is reported although none was set", D);
            if (r.errorMessage.empty()) sim::violation("wrong-result", where, "%s: a failure without a message", D);
            bool no_empty = !arg0.empty(); for (auto& in : o.inputs) if (in.empty()) no_empty = false;
            if (r.dataFilePath.empty() && no_empty) sim::violation("wrong-result", where, "%s: a failure without the file path: %s", D, show(r.errorMessage).c_str());
            bool fine = !bad || (soft && !ds.open_failed && !ds.write_failed && !ds.close_failed && !fs_failed && !(pp.child_alloc_fail && forks && !L.execed));
            if (fine && (pp.fork_errno || pp.exec_errno || pp.exit_code || pp.sig || pp.echild)) fine = false;
            if (fine && !wpf && res_usable) {
                bool name_ok = true;
                if (!o.from_file) name_ok = san_class == 0;
                else for (auto& in : o.inputs) { std::string f; bool plain = !in.empty() && in.find_first_not_of("abcdefghijklmnopqrstuvwxyz.0123456789/") == std::string::npos; int e = sim::vfs_resolve(in.c_str(), true, true, f); if (e) { plain = plain && in.find('/') == std::string::npos; e = sim::vfs_resolve((std::string(RES) + "/" + in).c_str(), true, true, f); if (!e && !inside(f)) e = 1; } if (!plain || e || sim::vfs_is_dir(f.c_str())) name_ok = false; }
                if (name_ok) sim::violation("false-failure", where, "%s reports a failure: %s", D, show(r.errorMessage).c_str());
            }
        }
        sim::count(exc ? "outcome:exception" : r.success ? "outcome:success" : "outcome:failure");
    }
}
