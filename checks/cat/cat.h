// Operation catalogue: seeded library operations shared by C06-C09, C15-C19.
// An operation is a factory: make(seed) builds inputs and long-lived objects and returns an instance; run(question seed) asks it one
// question and writes every observable result into a digest. User callbacks go through cb(), the seam where a check counts, delays,
// throws or corrupts; inputs go through in().
#pragma once
#include "../../sim/sim.h"
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <vector>
namespace cat {
enum Flags : unsigned {
    SH = 1,      // run() uses only const operations of the shared objects: may run on one instance from many threads
    CB = 2,      // calls user code through cb()
    IT = 4,      // iterative with a budget: fed hostile values
    HI = 8,      // inputs pass through in() (hostile inputs instead of callbacks)
    TM = 16,     // reports an elapsed time
    RN = 32,     // draws random numbers (seeded)
    SLOW = 64,
    NOTH = 128,  // needs no concurrent run (prints to shared streams etc.)
    SETT = 256,  // depends on the per-thread default settings
};
struct Rng {
    uint64_t s;
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    double u(double lo = -1, double hi = 1) { return lo + (hi - lo) * (double)(next() >> 11) * 0x1p-53; }
    int i(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
    bool b() { return next() & 1; }
};
struct Ctx;
struct Hook { virtual void call(Ctx&) {} virtual double value(Ctx&, double v) { return v; } virtual double input(Ctx&, double v) { return v; } };
struct Ctx {
    Rng rng; uint64_t h = 0xcbf29ce484222325ull; long calls = 0; Hook* hook = nullptr;
    bool claimed = false, ok = true;          // did the operation report failure by a status?
    bool nonfinite = false;                   // a value reported together with success is not finite
    long over = 0, lim = 0;                   // iterations reported beyond the configured limit
    std::vector<double> times;                // elapsed times reported (ms)
    int via = 0;                              // ask the object itself (0), a copy, a moved copy, an assigned one, a moved-from one assigned again ... (C19)
    bool keep = false, notext = false; std::string rep;       // short text of the first outputs (for reports)
    double u(double lo = -1, double hi = 1) { return rng.u(lo, hi); }
    int i(int lo, int hi) { return rng.i(lo, hi); }
    bool b() { return rng.b(); }
    double in(double v) { return hook ? hook->input(*this, v) : v; }
    void bytes(const void* p, size_t n) { const unsigned char* q = (const unsigned char*)p; for (size_t k = 0; k < n; ++k) { h ^= q[k]; h *= 1099511628211ull; } }
    void o(double v) { if (v != v) v = std::nan(""); uint64_t x; memcpy(&x, &v, 8); if (v != v) x = 0x7ff8000000000000ull; bytes(&x, 8); if (keep && rep.size() < 160) { char b[32]; snprintf(b, sizeof b, "%.6g ", v); rep += b; } }
    void o(float v) { o((double)v); }
    void o(long double v) { o((double)v); }
    void o(int v) { o((double)v); }
    void o(long v) { o((double)v); }
    void o(unsigned v) { o((double)v); }
    void o(size_t v) { o((double)v); }
    void o(bool v) { o(v ? 1.0 : 0.0); }
    void o(const std::string& s) { if (notext) return; o((double)s.size()); bytes(s.data(), s.size()); if (keep && rep.size() < 160) rep += s.substr(0, 40) + " "; }
    void o(const char* s) { o(std::string(s)); }
    template <class T> void o(const std::complex<T>& z) { o(z.real()); o(z.imag()); }
    template <class A, class B> void o(const std::pair<A, B>& p) { o(p.first); o(p.second); }
    template <class T> auto om(const T& m, int) -> decltype(m.rows(), m.cols(), m(0, 0), void()) { o((int)m.rows()); o((int)m.cols()); for (int a = 0; a < (int)m.rows(); ++a) for (int b = 0; b < (int)m.cols(); ++b) o(m(a, b)); }
    template <class T> auto om(const T& v, long) -> decltype(v.begin(), v.end(), void()) { size_t n = 0; for (auto it = v.begin(); it != v.end(); ++it) { typename std::decay<decltype(*it)>::type x = *it; o(x); ++n; } o((double)n); }
    template <class T> auto om(const T& v, ...) -> decltype(v.size(), v[0], void()) { o((double)v.size()); for (int k = 0; k < (int)v.size(); ++k) o(v[k]); }
    template <class T> auto o(const T& v) -> decltype(om(v, 0), void()) { om(v, 0); }
    template <class T> void ov(const T& v, int n) { for (int k = 0; k < n; ++k) o(v[k]); }
    // result status; values reported with success must be finite
    void claim(bool good) { if (!claimed) ok = good; else ok = ok && good; claimed = true; o(good); }
    void fin(double v) { o(v); if (!std::isfinite(v)) nonfinite = true; }
    template <class T> void finv(const T& v, int n) { for (int k = 0; k < n; ++k) fin(v[k]); }
    void within(long n, long limit) { if (n > limit) { over = n; lim = limit; } }
    long cap = 0; void budget(long n) { cap = calls + n; }     // the configuration of this question allows n more callbacks
    void ms(double t) { times.push_back(t); }
};
Ctx*& cur();
// the user-callback seam
inline void tick() { Ctx* c = cur(); if (!c) return; ++c->calls; if (c->hook) c->hook->call(*c); }
inline double hv(double v) { Ctx* c = cur(); return c && c->hook ? c->hook->value(*c, v) : v; }
inline double cb(double v) { tick(); return hv(v); }
struct Inst { virtual void run(Ctx&) = 0; virtual ~Inst() {} };
template <class F> struct InstF : Inst { F f; InstF(F&& g) : f(std::move(g)) {} void run(Ctx& c) override { f(c); } };
template <class F> Inst* inst(F f) { return new InstF<F>(std::move(f)); }
struct Op { const char* name; Inst* (*make)(Ctx&); unsigned flags; long budget; };
std::vector<Op>& ops();
struct Reg { Reg(const char* n, Inst* (*m)(Ctx&), unsigned f, long budget = 0) { ops().push_back({n, m, f, budget}); } };
#define CAT2(a, b) a##b
#define CAT1(a, b) CAT2(a, b)
#define OP(name, ...) static cat::Inst* CAT1(mk_, __LINE__)(cat::Ctx& c); static cat::Reg CAT1(rg_, __LINE__)(name, CAT1(mk_, __LINE__), __VA_ARGS__); static cat::Inst* CAT1(mk_, __LINE__)([[maybe_unused]] cat::Ctx& c)
// a mutation that the caller simply repeats when it runs out of memory
template <class F> void again(F f) { try { f(); } catch (const std::bad_alloc&) { sim::alloc_fail_off(); f(); } }
// the same, and the object must be consistent in between
template <class F, class I> void again(Ctx& c, F f, I consistent) { try { f(); } catch (const std::bad_alloc&) { sim::alloc_fail_off(); if (!consistent()) c.o(-98765.0); f(); } }
// the object a question goes to: the original, or (C19) something that came from it by copy, move or assignment
template <class T> struct Via {
    typedef typename std::remove_const<T>::type U;
    std::shared_ptr<U> h; T* p;
    Via(const Ctx& c, T& x) : p(&x) {
        if constexpr (std::is_copy_constructible<U>::value) {
            if (c.via == 1) { auto t = std::make_shared<U>(x); h = std::make_shared<U>(*t); }
            else if (c.via == 2) { auto t = std::make_shared<U>(x); h = std::make_shared<U>(std::move(*t)); }
            else if constexpr (std::is_copy_assignable<U>::value) {
                if (c.via == 3) { auto t = std::make_shared<U>(x); h = std::make_shared<U>(x); { U gone(std::move(*h)); } *h = *t; }
                else if (c.via == 4) { auto t = std::make_shared<U>(x); h = std::make_shared<U>(*t); U& me = *h; *h = me; *h = std::move(*t); }
                else if (c.via == 5) { auto t = std::make_shared<U>(x); h = std::make_shared<U>(x); { U gone(std::move(*h)); } *h = std::move(*t); }
            }
        }
        if (h) p = h.get();
    }
    T& operator*() const { return *p; }
    T* operator->() const { return p; }
};
template <class T> Via<const T> via(const Ctx& c, const T& x) { return Via<const T>(c, x); }
template <class T> Via<T> via(const Ctx& c, const std::shared_ptr<T>& x) { return Via<T>(c, *x); }
// a question to an object made for it alone, or to one that outlives the object it was copied or moved from
template <class M> auto reborn(const Ctx& c, M make) -> decltype(make()) {
    auto x = make(); typedef typename std::remove_reference<decltype(*x)>::type T; decltype(x) h;
    if (c.via == 1) { auto t = std::make_shared<T>(*x); h = std::make_shared<T>(*t); } else if (c.via == 2) h = std::make_shared<T>(std::move(*x)); else if (c.via > 2) h = std::make_shared<T>(*x);
    if (h) { x.reset(); return h; }
    return x;
}
// sets the current context while an operation is built or run
struct Use { Ctx* old; Use(Ctx& c) : old(cur()) { cur() = &c; } ~Use() { cur() = old; } };
} // namespace cat
