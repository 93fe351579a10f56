// C09: seeded randomness. Several threads (and the main one) run private programs of draws, Monte Carlo integrations, enclosing circles and data set samples; every
// answer that follows a seed is compared with the one obtained alone, in a fresh thread, with other entropy and without the disturbances in between.
#include "../sim/sim.h"
#include "mml/base/Random.h"
#include "mml/base/Function.h"
#include "mml/core/Integration/MonteCarloIntegration.h"
#include "mml/algorithms/CompGeometry/Circles.h"
#include "mml/tools/DataLoader.h"
#include <thread>
#include <chrono>
#include <cstring>
#include <algorithm>
const char* const SIM_CHECK_ID = "C09";
using namespace MML; using sim::w;
typedef long double LD;

enum Kind { SEED, DRAW_R, DRAW_I, DIR2, DIR3, BURST, MC, MC1, STRAT, HIT, PI, BALL, CIRCLE, SAMPLE, NKIND };
static const char* kname[] = {"Random::SetSeed", "Random::UniformReal", "Random::UniformInt", "Random::UniformVecDirection2", "Random::UniformVecDirection3", "Random (many draws)", "MonteCarloIntegrator", "IntegrateMonteCarlo1D",
    "StratifiedMonteCarloIntegrator", "HitOrMissIntegrator", "EstimatePi", "EstimateUnitBallVolume", "MinimumEnclosingCircle", "Dataset::Sample"};
static const int MAXS = 10, MAXT = 3;
struct Step { uint8_t kind, n, shape, anti, how, distract, broken, again; uint32_t seed; double lo[3], hi[3], a, b; int ns, thr; bool seeded; uint64_t gen; };
struct Plan { int n; Step s[MAXS]; };
static Plan plans[MAXT];
struct Out { int n; uint64_t h; bool cmp; };
static Out outs[2][MAXT][MAXS];

static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; return h ^ (h >> 29); }
static uint64_t bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
struct LCG { uint64_t s; uint32_t u(uint32_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)((s >> 33) % n); } double r(double a, double b) { return a + (b - a) * u(1 << 20) / (1 << 20); } };

static void bad(const char* kind, const Step& s, const char* fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); sim::fail(kind, "%s: %s", kname[s.kind], b); }

struct Thrown { int id; };
// integrand that records what it was asked
template<int N> struct Fn : IScalarFunction<N> {
    const Step* s; std::vector<double>* vals; std::vector<double>* pts; mutable long calls = 0;
    Real val(const VectorN<Real, N>& x) const {
        switch (s->shape) {
            case 0: return s->a;                                                                                   // constant
            case 1: { double v = s->b; for (int i = 0; i < N; ++i) v += s->a * (i + 1) * x[i]; return v; }            // linear
            case 2: return x[0] < 0.5 * (s->lo[0] + s->hi[0]) ? 1.0 : 0.0;
            case 3: { double v = 1; for (int i = 0; i < N; ++i) v *= std::exp(-x[i] * x[i]); return v; }
            case 4: { double v = 0; for (int i = 0; i < N; ++i) v += std::sin(3 * x[i] + s->a); return v; }
            default: return s->a * 1e8 + x[0];                                                                        // nearly constant
        }
    }
    Real operator()(const VectorN<Real, N>& x) const override {
        long k = ++calls;
        if (s->distract == 1) { sim::advance_ns(1000 + k % 7); sim::yield_point("integrand"); }
        if (s->distract == 2) (void)Random::UniformReal(0, 1);
        if (s->distract == 3) { std::this_thread::yield(); }
        if (s->thr && k == s->thr) throw Thrown{(int)k};
        Real v = val(x); vals->push_back(v); for (int i = 0; i < N; ++i) pts->push_back(x[i]); return v;
    }
};
struct Fn1 : IRealFunction { const Fn<1>* f; Real operator()(Real x) const override { VectorN<Real, 1> p; p[0] = x; return (*f)(p); } };

static uint64_t hres(const MonteCarloResult& r) { uint64_t h = mix(bits(r.value), bits(r.error_estimate)); h = mix(h, bits(r.variance)); h = mix(h, r.samples_used); h = mix(h, r.converged); h = mix(h, (uint64_t)r.function_evaluations); return mix(h, (uint64_t)r.status); }

// what a Monte Carlo result says must follow from the points it drew
template<int N> static void judge(const Step& s, const MonteCarloResult& r, const std::vector<double>& vals, const std::vector<double>& pts, double target, bool anti, long want) {
    LD vol = 1; for (int d = 0; d < N; ++d) vol *= (LD)s.hi[d] - s.lo[d];
    if (vol == 0) { if (r.value != 0 || r.error_estimate != 0) bad("degenerate_box", s, "a box without volume has the integral %.17g +- %g", r.value, r.error_estimate); return; }
    long n = (long)vals.size();
    if (want == 0 || n == 0) { if (r.status == AlgorithmStatus::Success && (!std::isfinite(r.value) || r.converged)) bad("no_samples", s, "no sample drawn, value %g with a success status", r.value); return; }
    if (n != want) bad("sample_count", s, "%ld evaluations, %ld samples asked for", n, want);
    if ((long)r.samples_used != n || r.function_evaluations != n) bad("sample_count", s, "samples_used %zu, function_evaluations %d, but %ld evaluations were made", r.samples_used, r.function_evaluations, n);
    for (int d = 0; d < N; ++d) {
        double l = std::min(s.lo[d], s.hi[d]), h = std::max(s.lo[d], s.hi[d]), t = 4e-16 * (std::fabs(l) + std::fabs(h)) * (anti ? 2 : 1); long below = 0;
        for (long i = 0; i < n; ++i) { double x = pts[(size_t)(i * N + d)]; if (!(x >= l - t && x <= h + t)) bad("out_of_range", s, "sample %ld has coordinate %d = %.17g outside [%.17g, %.17g]", i, d, x, l, h); below += x < 0.5 * (l + h); }
        if (std::fabs((double)below / n - 0.5) > 6 / std::sqrt((double)n)) bad("not_uniform", s, "%ld of %ld samples lie in the lower half of coordinate %d", below, n, d);
    }
    LD sum = 0, mag = 0; for (double v : vals) { sum += v; mag += std::fabs((LD)v); }
    LD mean = sum / n, tol = (LD)1e-15 * (n + 10) * std::fabs(vol) * mag / n + 1e-300L;
    if (!(std::fabs((LD)r.value - vol * mean) <= tol)) bad("not_the_mean", s, "value %.17g, but volume times mean of the %ld sampled values is %.17Lg", r.value, n, vol * mean);
    if (!(r.variance >= 0)) bad("variance", s, "variance %g", r.variance);
    if (!(r.error_estimate >= 0)) bad("error_estimate", s, "error estimate %g", r.error_estimate);
    if (s.kind != STRAT) {
        std::vector<double> u; if (anti) for (long i = 0; i + 1 < n; i += 2) u.push_back(0.5 * (vals[(size_t)i] + vals[(size_t)i + 1])); else u = vals;
        LD m = 0, q = 0; for (double v : u) m += v; m /= (LD)u.size(); for (double v : u) q += (v - m) * (v - m);
        LD e = std::fabs(vol) * std::sqrt(q) / (LD)u.size(), e1 = u.size() > 1 ? std::fabs(vol) * std::sqrt(q / ((LD)u.size() * (u.size() - 1))) : e;
        LD slack = (e + e1) * 1e-6L + std::fabs(vol) * 4e-7L * std::sqrt((mag / n) * (mag / n) / u.size()) + 1e-300L;      // rounding of the one-pass variance: sqrt(n eps) |mean| / sqrt(n)
        if (!(r.error_estimate >= e - slack && r.error_estimate <= e1 + slack)) bad("error_estimate", s, "error estimate %.9g, the %ld sampled values give %.9Lg", r.error_estimate, n, e);
    }
    if (target > 0 && r.converged && std::fabs(r.value) > 1e-6 && r.error_estimate > target * std::fabs(r.value) * (1 + 1e-9)) bad("false_convergence", s, "converged with error estimate %g of %g, target %g", r.error_estimate, r.value, target);
    if (s.kind == MC && anti && s.shape == 1) {      // antithetic pairs integrate a linear function exactly
        LD ex = s.b; for (int d = 0; d < N; ++d) ex += (LD)s.a * (d + 1) * 0.5L * ((LD)s.lo[d] + s.hi[d]); ex *= vol;
        LD sc = std::fabs((LD)s.b); for (int d = 0; d < N; ++d) sc += std::fabs((LD)s.a) * (d + 1) * (std::fabs(s.lo[d]) + std::fabs(s.hi[d]));
        if (std::fabs(r.value - ex) > 1e-13L * std::fabs(vol) * sc * (n + 10)) bad("antithetic", s, "a linear function integrates to %.17g with antithetic pairs, exactly it is %.17Lg", r.value, ex);
    }
}
template<int N> static void box(const Step& s, VectorN<Real, N>& l, VectorN<Real, N>& h) { for (int i = 0; i < N; ++i) { l[i] = s.lo[i]; h[i] = s.hi[i]; } }

static std::vector<Point2Cartesian> cloud(const Step& s) {
    LCG g{s.gen}; std::vector<Point2Cartesian> p; int n = s.ns; double sc = s.shape % 4 == 3 ? 1e-3 : s.shape % 4 == 2 ? 1e4 : 1;
    for (int i = 0; i < n; ++i) {
        double x = 0, y = 0;
        switch (s.n) {
            case 0: x = g.r(-1, 1); y = g.r(-1, 1); break;
            case 1: x = (int)g.u(5) - 2; y = (int)g.u(5) - 2; break;                                              // lattice, duplicates
            case 2: { int k = (int)g.u(9); x = k * 0.25 - 1; y = 0.5 * k - 1; break; }                             // collinear
            case 3: { static const int c[12][2] = {{5, 0}, {3, 4}, {4, 3}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-3, -4}, {-4, -3}, {0, -5}, {3, -4}, {4, -3}}; int k = (int)g.u(12); x = c[k][0] / 5.0; y = c[k][1] / 5.0; break; }   // on a circle
            case 4: { double k = g.r(-1, 1); x = k; y = k * 1e-7 * (g.u(3) - 1.0); break; }                        // almost collinear
            default: x = g.u(2) ? 1 : -1; y = g.u(2) ? 1 : -1; x += g.r(-1, 1) * 1e-9; y += g.r(-1, 1) * 1e-9; break;
        }
        p.push_back(Point2Cartesian(x * sc + s.a, y * sc + s.b));
    }
    return p;
}
static uint64_t circle(const Step& s, bool check) {
    std::vector<Point2Cartesian> p = cloud(s);
    auto c = CompGeometry::Circles::MinimumEnclosingCircle(p);
    uint64_t h = mix(mix(bits(c.Center().X()), bits(c.Center().Y())), bits(c.Radius()));
    if (!check) return h;
    if (p.empty()) return h;
    LD ext = 0, mag = 0; for (auto& q : p) { for (auto& t : p) ext = std::max(ext, std::hypot((LD)q.X() - t.X(), (LD)q.Y() - t.Y())); mag = std::max(mag, std::fabs((LD)q.X()) + std::fabs((LD)q.Y())); }
    LD tol = 1e-10L + 1e-12L * mag + 1e-8L * ext;
    if (!(c.Radius() >= 0)) bad("circle", s, "radius %g", c.Radius());
    for (auto& q : p) { LD d = std::hypot((LD)q.X() - c.Center().X(), (LD)q.Y() - c.Center().Y()); if (!(d <= c.Radius() + tol)) bad("circle", s, "point (%.17g, %.17g) of %zu lies %.3Lg outside the enclosing circle of radius %.17g", q.X(), q.Y(), p.size(), d - c.Radius(), c.Radius()); }
    if (p.size() > 9) { if (c.Radius() > ext / std::sqrt((LD)3) + tol) bad("circle", s, "radius %.17g for points of diameter %.17Lg", c.Radius(), ext); return h; }
    LD best = p.size() == 1 ? 0 : 1e300L; size_t n = p.size();
    auto ok = [&](LD x, LD y, LD r) { for (auto& q : p) if (std::hypot(q.X() - x, q.Y() - y) > r * (1 + 1e-12L) + 1e-18L * mag + 1e-25L) return false; return true; };
    for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) {
        LD x = ((LD)p[i].X() + p[j].X()) / 2, y = ((LD)p[i].Y() + p[j].Y()) / 2, r = std::hypot((LD)p[i].X() - p[j].X(), (LD)p[i].Y() - p[j].Y()) / 2; if (r < best && ok(x, y, r)) best = r;
        for (size_t k = j + 1; k < n; ++k) {
            LD ax = (LD)p[j].X() - p[i].X(), ay = (LD)p[j].Y() - p[i].Y(), bx = (LD)p[k].X() - p[i].X(), by = (LD)p[k].Y() - p[i].Y(), d = 2 * (ax * by - ay * bx); if (d == 0) continue;
            LD a2 = ax * ax + ay * ay, b2 = bx * bx + by * by, cx = (by * a2 - ay * b2) / d, cy = (ax * b2 - bx * a2) / d, rr = std::hypot(cx, cy); if (rr < best && ok(p[i].X() + cx, p[i].Y() + cy, rr)) best = rr;
        }
    }
    if (best < 1e299L && c.Radius() > best + tol) bad("circle", s, "radius %.17g, a circle of radius %.17Lg encloses the %zu points", c.Radius(), best, n);
    return h;
}

template<int N> static uint64_t integrate(const Step& s, bool undisturbed, bool& seeded) {
    Step t = s; if (undisturbed) t.distract = 0;
    VectorN<Real, N> l, h; box<N>(t, l, h); std::vector<double> vals, pts; vals.reserve(512); pts.reserve(512); Fn<N> f; f.s = &t; f.vals = &vals; f.pts = &pts;
    uint64_t d = 0; seeded = true; bool threw = false;
    try {
        if (t.kind == MC || t.kind == MC1) {
            MonteCarloConfig c; c.samples((size_t)t.ns).error(0.05).antithetic(t.anti); long want = t.anti ? t.ns / 2 * 2 : t.ns;
            if (t.kind == MC1) { c.randomSeed(t.seed); Fn1 g; Fn<1> one; one.s = &t; one.vals = &vals; one.pts = &pts; g.f = &one; auto r = IntegrateMonteCarlo1D(g, t.lo[0], t.hi[0], c); judge<1>(t, r, vals, pts, 0.05, t.anti, want); return hres(r); }
            MonteCarloIntegrator<N> m(t.how == 0 ? t.seed : (undisturbed ? 99u : t.distract ? 0u : 7u));       // the constructor's seed only matters when nothing reseeds
            if (t.how == 1) m.seed(t.seed);
            if (t.how == 2) { c.randomSeed(t.seed); if (!undisturbed && t.again) { MonteCarloConfig c0; c0.samples(3); Step u = t; u.thr = 0; f.s = &u; (void)m.integrate(f, l, h, c0); f.s = &t; vals.clear(); pts.clear(); f.calls = 0; } }
            if (t.how == 3) { m.seed(t.seed); if (!undisturbed && t.thr == 0 && t.again) { try { Step u = t; u.thr = 2; Fn<N> q; q.s = &u; q.vals = &vals; q.pts = &pts; (void)m.integrate(q, l, h, c); } catch (const Thrown&) {} vals.clear(); pts.clear(); m.seed(t.seed); } }
            auto r = m.integrate(f, l, h, c); judge<N>(t, r, vals, pts, 0.05, t.anti, want); d = hres(r);
            if (t.again && t.how != 2) { vals.clear(); pts.clear(); auto r2 = m.integrate(f, l, h, c); judge<N>(t, r2, vals, pts, 0.05, t.anti, want); d = mix(d, hres(r2)); }   // the sequence goes on
        } else if (t.kind == STRAT) {
            int k = 2 + t.anti, per = 1 + t.ns % 6; long want = per; for (int i = 0; i < N; ++i) want *= k;
            StratifiedMonteCarloIntegrator<N> m(t.how == 0 ? t.seed : (undisturbed ? 99u : t.distract ? 0u : 7u));
            if (t.how == 1) m.seed(t.seed);
            auto r = m.integrate(f, l, h, k, per, t.how >= 2 ? t.seed : 0u); judge<N>(t, r, vals, pts, 0, false, want); d = hres(r);
            LD vol = 1; for (int i = 0; i < N; ++i) vol *= (LD)t.hi[i] - t.lo[i];
            if (vol != 0) {
                std::vector<long> cell((size_t)(want / per), 0); long edge = 0;
                for (size_t i = 0; i < vals.size(); ++i) { long id = 0; bool e = false; for (int j = 0; j < N; ++j) { LD u = ((LD)pts[i * N + (size_t)j] - t.lo[j]) / ((LD)t.hi[j] - t.lo[j]) * k; if (std::fabs(u - std::round(u)) < 1e-9L * (1 + std::fabs(t.lo[j] / (t.hi[j] - t.lo[j])))) e = true; id = id * k + std::max(0L, std::min((long)k - 1, (long)std::floor(u))); } if (e) edge++; else cell[(size_t)id]++; }
                for (size_t i = 0; i < cell.size(); ++i) if (cell[i] > per || cell[i] < per - edge) bad("strata", t, "%ld samples in stratum %zu of %zu, %d asked for", cell[i], i, cell.size(), per);
            }
        } else {    // HIT
            HitOrMissIntegrator<N> m(t.how == 0 ? t.seed : (undisturbed ? 99u : t.distract ? 0u : 7u));
            if (t.how == 1) m.seed(t.seed);
            auto r = m.estimateVolume([&](const VectorN<Real, N>& x) { Real v = f(x); bool in = v > 0.4; vals.back() = in; return in; }, l, h, (size_t)t.ns, t.how >= 2 ? t.seed : 0u);
            judge<N>(t, r, vals, pts, 0, false, t.ns); d = hres(r);
        }
    } catch (const Thrown& e) { threw = true; if (e.id != t.thr) bad("exception", t, "wrong exception"); }
    if (threw) { if (!t.thr) bad("exception", t, "exception although the integrand did not throw"); return 0x7777; }
    return d;
}
static void sample(const Step& s, uint64_t& h) {
    Data::Dataset d; Data::DataColumn c; c.name = "id"; c.type = Data::ColumnType::INT; LCG g{s.gen}; int rows = 1 + (int)g.u(40);
    for (int i = 0; i < rows; ++i) { c.intData.push_back(i * 3); c.missingMask.push_back(false); }
    d.columns.push_back(c); d.rowCount = (size_t)rows;
    size_t want = std::min<size_t>((size_t)s.n * 5 + (size_t)s.anti, (size_t)rows);
    std::string t = d.Sample((size_t)s.n * 5 + (size_t)s.anti, s.seed); for (char ch : t) h = mix(h, (unsigned char)ch);
    std::vector<int> seen; size_t at = t.find('\n'); if (t.substr(0, at) != "id") bad("sample", s, "header '%s'", t.substr(0, at).c_str());
    while (at != std::string::npos && at + 1 < t.size()) { size_t e = t.find('\n', at + 1); std::string line = t.substr(at + 1, e == std::string::npos ? e : e - at - 1); int v = atoi(line.c_str()); if (v % 3 || v < 0 || v >= 3 * rows) bad("sample", s, "row '%s' is not in the data set", line.c_str()); seen.push_back(v); at = e; }
    if (seen.size() != want) bad("sample", s, "%zu rows, %zu expected", seen.size(), want);
    std::sort(seen.begin(), seen.end()); if (std::unique(seen.begin(), seen.end()) != seen.end()) bad("sample", s, "a row was drawn twice");
}
static double rr(const Step& s, double lo, double hi, uint64_t& h) { double v = Random::UniformReal(lo, hi); if (!(v >= lo && v <= hi)) bad("out_of_range", s, "%.17g drawn from [%.17g, %.17g]", v, lo, hi); h = mix(h, bits(v)); return v; }
static int ri(const Step& s, int lo, int hi, uint64_t& h) { int v = Random::UniformInt(lo, hi); if (v < lo || v > hi) bad("out_of_range", s, "%d drawn from [%d, %d]", v, lo, hi); h = mix(h, (uint64_t)(int64_t)v); return v; }
static void dir(const Step& s, bool three, double a, uint64_t& h, double* out) {
    double x = 1e300, y = 1e300, z = three ? 1e300 : 0; double r = three ? Random::UniformVecDirection3(x, y, z, a) : Random::UniformVecDirection2(x, y, a);
    double n = std::sqrt(x * x + y * y + z * z); if (!(std::fabs(n - std::fabs(a)) <= 1e-14 * std::fabs(a) * 8)) bad("direction", s, "vector (%g, %g, %g) of length %.17g, asked for %.17g", x, y, z, n, a);
    if (r != a) bad("direction", s, "returns %g for length %g", r, a);
    h = mix(mix(mix(h, bits(x)), bits(y)), bits(z)); out[0] = x; out[1] = y; out[2] = z;
}
// statistics over many draws: bounds a correct generator breaks with probability below 1e-20
static void burst(const Step& s, uint64_t& h) {
    int n = 400; double dev = 5.5 / std::sqrt((double)n), v[3];
    if (s.shape % 4 == 0) { int lo = 0, hi = 0; double a = s.lo[0], b = std::max(s.hi[0], a + 1e-3); for (int i = 0; i < n; ++i) { double x = (rr(s, a, b, h) - a) / (b - a); lo += x < 0.5; hi += x < 0.25 || x > 0.75; }
        if (std::fabs(lo / (double)n - 0.5) > dev || std::fabs(hi / (double)n - 0.5) > dev) bad("not_uniform", s, "%d of %d reals below the middle, %d in the outer quarters", lo, n, hi); }
    else if (s.shape % 4 == 1) { int k = 2 + s.n, a = (int)s.gen % 1000 - 500, c[8] = {}; for (int i = 0; i < n; ++i) c[ri(s, a, a + k - 1, h) - a]++;
        for (int i = 0; i < k; ++i) if (std::fabs(c[i] / (double)n - 1.0 / k) > dev || (c[i] == 0 && k <= 5)) bad("not_uniform", s, "value %d of [%d, %d] drawn %d times of %d", a + i, a, a + k - 1, c[i], n); }
    else { bool three = s.shape % 4 == 3; double m[3] = {}, q[3] = {}; for (int i = 0; i < n; ++i) { dir(s, three, 2.0, h, v); for (int j = 0; j < 3; ++j) { m[j] += v[j] / 2; q[j] += v[j] * v[j] / 4; } }
        for (int j = 0; j < (three ? 3 : 2); ++j) if (std::fabs(m[j] / n) > 2 * dev || std::fabs(q[j] / n - (three ? 1.0 / 3 : 0.5)) > dev) bad("not_uniform", s, "mean of component %d over %d unit vectors is %g, of its square %g", j, n, m[j] / n, q[j] / n); }
}
static Out exec(const Step& s, bool undisturbed, bool seeded) {
    Out o{1, 0x1234, true}; double v[3]; bool sd = true;
    if (s.broken && !undisturbed && s.kind >= MC && (s.kind > HIT || (s.distract == 0 || (s.how == 0 && s.distract != 2)))) sim::entropy_broken(true);
    switch (s.kind) {
        case SEED: Random::SetSeed(s.seed); break;
        case DRAW_R: { int k = 1 + s.n; for (int i = 0; i < k; ++i) rr(s, s.lo[0], std::max(s.lo[0], s.hi[0]) + (s.anti ? 0 : 1), o.h); o.cmp = seeded; break; }
        case DRAW_I: { int k = 1 + s.n; for (int i = 0; i < k; ++i) { static const int L[6][2] = {{0, 9}, {-5, 5}, {7, 7}, {-2147483647 - 1, 2147483647}, {0, 1}, {1000000, 1000003}}; ri(s, L[s.shape % 6][0], L[s.shape % 6][1], o.h); } o.cmp = seeded; break; }
        case DIR2: case DIR3: dir(s, s.kind == DIR3, s.a, o.h, v); o.cmp = seeded; break;
        case BURST: burst(s, o.h); o.cmp = seeded; break;
        case MC: case STRAT: case HIT: o.h = s.n == 0 ? integrate<1>(s, undisturbed, sd) : s.n == 1 ? integrate<2>(s, undisturbed, sd) : integrate<3>(s, undisturbed, sd); break;
        case MC1: o.h = integrate<1>(s, undisturbed, sd); break;
        case PI: case BALL: {
            int dim = s.kind == PI ? 2 : 1 + s.n; MonteCarloResult r = s.kind == PI ? EstimatePi((size_t)s.ns, s.seed) : dim == 1 ? EstimateUnitBallVolume<1>((size_t)s.ns, s.seed) : dim == 2 ? EstimateUnitBallVolume<2>((size_t)s.ns, s.seed) : EstimateUnitBallVolume<3>((size_t)s.ns, s.seed);
            static const double ball[4] = {0, 2, 3.14159265358979324, 4.18879020478639098}; double box = std::pow(2.0, dim);
            if (s.ns > 0) {
                if (!(std::fabs(r.value - ball[dim]) <= box * 6 / std::sqrt((double)s.ns))) bad("not_uniform", s, "volume of the %d-dimensional ball estimated as %g from %d samples", dim, r.value, s.ns);
                double hits = r.value / box * s.ns; if (std::fabs(hits - std::round(hits)) > 1e-6) bad("not_the_mean", s, "value %.17g is not a share of %d samples", r.value, s.ns);
                double p = r.value / box; if (!(std::fabs(r.error_estimate - box * std::sqrt(std::max(0.0, p * (1 - p)) / s.ns)) <= 1e-9)) bad("error_estimate", s, "error estimate %g for a share of %g of %d samples", r.error_estimate, p, s.ns);
                if ((int)r.samples_used != s.ns) bad("sample_count", s, "%zu samples used, %d asked for", r.samples_used, s.ns);
            } else if (r.status == AlgorithmStatus::Success && (!std::isfinite(r.value) || r.converged)) bad("no_samples", s, "no sample drawn, value %g with a success status", r.value);
            o.h = hres(r); break; }
        case CIRCLE: o.h = circle(s, true); for (int i = 0; i < 1 + s.anti; ++i) { uint64_t h2 = circle(s, false); if (h2 != o.h) bad("entropy_dependent", s, "asked twice for the same %d points, the answers differ", s.ns); } break;
        case SAMPLE: sample(s, o.h); break;
    }
    sim::entropy_broken(false);
    return o;
}
static void gen_step(Step& s) {
    memset(&s, 0, sizeof s);
    s.kind = (uint8_t)w(NKIND); s.seed = 1 + w(5); if (w(4) == 0) { static const uint32_t e[4] = {4294967295u, 2147483648u, 12345u, 624u}; s.seed = e[w(4)]; }
    s.shape = (uint8_t)w(6); s.anti = (uint8_t)w(2); s.how = (uint8_t)w(4); s.distract = (uint8_t)w(4); s.broken = (uint8_t)sim::chance(sim::F, 1, 4); s.again = (uint8_t)w(2); s.gen = w(10000); s.n = (uint8_t)w(3);
    for (int i = 0; i < 3; ++i) { double a = sim::real(-2, 2), b = a + sim::real(0.1, 3); switch (w(12)) { case 0: std::swap(a, b); break; case 1: b = a; break; case 2: a += 1e4; b += 1e4; break; case 3: a *= 1e-6; b = a + 1e-6; break; default: break; } s.lo[i] = a; s.hi[i] = b; }
    s.a = sim::real(-3, 3); s.b = sim::real(-3, 3); s.ns = (int)w(60); if (w(5) == 0) s.ns = 200 + (int)w(200); if (w(12) == 0) s.ns = (int)w(3);
    s.thr = sim::chance(sim::F, 1, 6) ? 1 + (int)w(8) : 0;
    if (s.kind == CIRCLE) { s.n = (uint8_t)w(6); s.ns = w(4) ? (int)w(10) : (int)w(60); if (w(3)) { s.a = s.b = 0; } else if (w(3) == 0) { s.a *= 1000; } }
    if (s.kind == BURST && s.shape % 4 == 1) s.n = (uint8_t)w(6);
    if (s.kind == MC1) s.how = 0;
    if (s.kind <= BURST) s.distract = s.thr = 0;
    if (s.kind == MC1 || s.kind == MC || s.kind == STRAT || s.kind == HIT) { if (s.again && s.kind == MC && s.how == 0) s.thr = 0; }
}
static void run_plan(int t, int slot, bool undisturbed) {
    Plan& p = plans[t]; bool seeded = false;
    for (int i = 0; i < p.n; ++i) {
        const Step& s = p.s[i];
        if (!sim::threads_active()) sim::site("%s", kname[s.kind]);
        if (undisturbed && s.kind < MC && !seeded && s.kind != SEED) { outs[slot][t][i] = Out{1, 0, false}; continue; }       // alone: without the draws before the seed
        Out o = exec(s, undisturbed, seeded);
        if (s.kind == SEED) seeded = true;
        if (!undisturbed && (s.kind >= MC && s.kind <= HIT) && s.distract == 2) seeded = false;                           // the integrand itself drew from this thread's generator
        outs[slot][t][i] = o;
        if (!undisturbed) sim::yield_point("step");
    }
}
void scenario() {
    sim::clock_reset(); sim::entropy_seed(w(1000)); sim::site("random");
    int nt = 1 + (int)w(MAXT); bool main_too = w(2);
    for (int t = 0; t < nt; ++t) { plans[t].n = 2 + (int)w(MAXS - 2); for (int i = 0; i < plans[t].n; ++i) { gen_step(plans[t].s[i]); } if (w(3)) { Step& f = plans[t].s[w(2)]; f.kind = SEED; f.thr = f.distract = 0; } }
    if (nt > 1 && w(3) == 0) plans[1] = plans[0];
    memset(outs, 0, sizeof outs);
    bool solo = w(8) == 0;
    if (!solo) {
        sim::ThreadCfg cfg; cfg.max_steps = 6000000; cfg.mem_preempt = sim::chance(sim::S, 1, 2); sim::threads_begin(cfg);
        { std::vector<std::thread> th; for (int t = main_too ? 1 : 0; t < nt; ++t) th.emplace_back([t] { run_plan(t, 0, false); }); if (main_too) run_plan(0, 0, false); for (auto& x : th) x.join(); }
        sim::threads_end();
    } else for (int t = 0; t < nt; ++t) { bool in = t == 0 && main_too; if (in) run_plan(t, 0, false); else { std::thread x([t] { run_plan(t, 0, false); }); x.join(); } }
    sim::entropy_seed(w(1000) + 7000);
    for (int t = 0; t < nt; ++t) { std::thread x([t] { run_plan(t, 1, true); }); x.join(); }
    for (int t = 0; t < nt; ++t) for (int i = 0; i < plans[t].n; ++i) {
        const Out &a = outs[0][t][i], &b = outs[1][t][i]; const Step& s = plans[t].s[i]; sim::site("%s", kname[s.kind]); char c[64]; snprintf(c, sizeof c, "case:%s", kname[s.kind]); for (char* q = c + 5; *q; ++q) if (!isalnum((unsigned char)*q)) *q = '_'; sim::count(c);
        if (s.broken) sim::count("fault:entropy_failure"); if (s.thr) sim::count("fault:integrand_throws"); if (s.distract == 1) sim::count("fault:slow_integrand");
        sim::hash(a.cmp ? a.h : 0); sim::state(((uint64_t)s.kind * 8 + s.how) * 64 + s.shape * 8 + s.n * 2 + s.anti + 4096ull * (s.distract + 4 * (s.ns == 0) + 8 * (s.thr > 0)));
        if (!a.cmp || !b.cmp) continue;
        sim::nontrivial();
        if (a.h != b.h) bad("not_reproducible", s, "step %d of thread %d: seed %u gives %016llx among %d threads, %016llx alone in a fresh thread", i, t, s.seed, (unsigned long long)a.h, nt, (unsigned long long)b.h);
    }
}
