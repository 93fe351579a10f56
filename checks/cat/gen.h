#pragma once
#include "cat.h"
#include "mml/base/Vector/Vector.h"
#include "mml/base/Vector/VectorN.h"
#include "mml/base/Matrix/Matrix.h"
#include <sstream>
namespace cat {
inline MML::Vector<Real> vec(Ctx& c, int n, double lo = -2, double hi = 2) { MML::Vector<Real> v(n); for (int i = 0; i < n; ++i) v[i] = c.in(c.u(lo, hi)); return v; }
inline MML::Matrix<Real> mat(Ctx& c, int n, int m) { MML::Matrix<Real> a(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a(i, j) = c.in(c.u(-2, 2)); return a; }
inline MML::Matrix<Real> dd(Ctx& c, int n) { auto a = mat(c, n, n); for (int i = 0; i < n; ++i) a(i, i) += 2.5 * n; return a; }
inline MML::Matrix<Real> symm(Ctx& c, int n) { auto a = mat(c, n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a(i, j) = a(j, i); return a; }
inline MML::Matrix<Real> spd(Ctx& c, int n) { auto a = symm(c, n); for (int i = 0; i < n; ++i) a(i, i) += 2.5 * n; return a; }
inline MML::Vector<Complex> cvec(Ctx& c, int n) { MML::Vector<Complex> v(n); for (int i = 0; i < n; ++i) v[i] = Complex(c.in(c.u()), c.in(c.u())); return v; }
inline MML::Matrix<Complex> cmat(Ctx& c, int n, int m) { MML::Matrix<Complex> a(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a(i, j) = Complex(c.in(c.u()), c.in(c.u())); return a; }
template <int N> MML::VectorN<Real, N> vecn(Ctx& c, double lo = -1, double hi = 1) { MML::VectorN<Real, N> v; for (int i = 0; i < N; ++i) v[i] = c.in(c.u(lo, hi)); return v; }
inline std::vector<double> svec(Ctx& c, int n, double lo = -2, double hi = 2) { std::vector<double> v(n); for (auto& x : v) x = c.in(c.u(lo, hi)); return v; }
inline MML::Vector<Real> grid(Ctx& c, int n, double lo, double hi) { MML::Vector<Real> v(n); for (int i = 0; i < n; ++i) v[i] = lo + (hi - lo) * i / (n - 1) + (i && i < n - 1 ? c.u(-0.2, 0.2) * (hi - lo) / n : 0); return v; }
} // namespace cat
