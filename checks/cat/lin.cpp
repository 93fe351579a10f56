// dense / banded direct and iterative solvers, decompositions, eigenproblems
#include "cat.h"
#include "gen.h"
#include "mml/core/LinAlgEqSolvers.h"
#include "mml/base/Matrix/MatrixBandDiag.h"
#include "mml/base/Matrix/MatrixTriDiag.h"
#include "mml/base/Matrix/Matrix3D.h"
#include "mml/base/Matrix/MatrixNM.h"
#include "mml/algorithms/EigenSystemSolvers.h"
#include "mml/algorithms/MatrixAlg.h"
#include "mml/core/MatrixUtils.h"
using namespace MML; using namespace cat;

OP("lin.gaussjordan", SH | HI) { int n = c.i(1, 6); auto A = dd(c, n); auto b = vec(c, n); return inst([=](Ctx& c) { auto x = GaussJordanSolver<Real>::SolveConst(A, b); c.o(x); }); }
OP("lin.gaussjordan.inplace", HI) { int n = c.i(1, 5), m = c.i(1, 3); auto A = dd(c, n); auto B = mat(c, n, m); return inst([=](Ctx& c) { Matrix<Real> a = A, b = B; GaussJordanSolver<Real>::SolveInPlace(a, b); c.o(a); c.o(b); }); }
OP("lin.gaussjordan.complex", SH) { int n = c.i(1, 4); auto A = cmat(c, n, n); for (int i = 0; i < n; ++i) A(i, i) += Complex(n + 1.0, 0); auto b = cvec(c, n); return inst([=](Ctx& c) { c.o(GaussJordanSolver<Complex>::SolveConst(A, b)); }); }
OP("lin.gaussjordan.detailed", SH | TM | IT | HI) { int n = c.i(1, 5); auto A = dd(c, n); if (c.i(0, 5) == 0) for (int j = 0; j < n; ++j) A(n - 1, j) = 0; auto b = vec(c, n); return inst([=](Ctx& c) { LinearSolverConfig k; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = GaussJordanSolveDetailed(A, b, k); c.claim(r.IsSuccess()); if (r.IsSuccess()) c.finv(r.solution, r.solution.size()); c.o(r.solution); c.o(r.residual_norm); c.o(r.error_message); c.o(r.algorithm_name); if (r.IsSuccess()) c.ms(r.elapsed_time_ms); }); }
OP("lin.lu", HI) { int n = c.i(1, 6); auto A = dd(c, n); auto s = std::make_shared<LUSolver<Real>>(A); return inst([=](Ctx& c) { auto v_s = via(c, s); switch (c.i(0, 3)) { case 0: c.o(v_s->Solve(vec(c, n))); break; case 1: { Matrix<Real> inv; inv.Resize(n, n); v_s->inverse(inv); c.o(inv); break; } case 2: c.o(v_s->det()); break; default: { auto B = mat(c, n, 2); Matrix<Real> X(n, 2); v_s->Solve(B, X); c.o(X); } } }); }
OP("lin.lu.inplace", HI) { int n = c.i(1, 5); auto A = dd(c, n); return inst([=](Ctx& c) { Matrix<Real> a = A; LUSolverInPlace<Real> s(a); c.o(s.Solve(vec(c, n))); auto B = mat(c, n, 2); c.o(s.Solve(B)); c.o(a); }); }
OP("lin.lu.detailed", SH | TM | IT | HI) { int n = c.i(1, 5); auto A = dd(c, n); auto b = vec(c, n); return inst([=](Ctx& c) { LinearSolverConfig k; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = LUSolveDetailed(A, b, k); c.claim(r.IsSuccess()); if (r.IsSuccess()) c.finv(r.solution, r.solution.size()); c.o(r.solution); c.o(r.residual_norm); if (r.IsSuccess()) c.ms(r.elapsed_time_ms); }); }
OP("lin.cholesky", HI) { int n = c.i(1, 6); auto A = spd(c, n); auto s = std::make_shared<CholeskySolver<Real>>(A); return inst([=](Ctx& c) { auto v_s = via(c, s); switch (c.i(0, 2)) { case 0: c.o(v_s->Solve(vec(c, n))); break; case 1: { Matrix<Real> inv(n, n); v_s->inverse(inv); c.o(inv); break; } default: c.o(v_s->logdet()); c.o(v_s->L()); } }); }
OP("lin.cholesky.detailed", SH | TM | IT | HI) { int n = c.i(1, 5); auto A = spd(c, n); auto b = vec(c, n); return inst([=](Ctx& c) { LinearSolverConfig k; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = CholeskySolveDetailed(A, b, k); c.claim(r.IsSuccess()); if (r.IsSuccess()) c.finv(r.solution, r.solution.size()); c.o(r.solution); c.o(r.residual_norm); if (r.IsSuccess()) c.ms(r.elapsed_time_ms); }); }
OP("lin.qr", HI) { int n = c.i(1, 5), m = n + c.i(0, 3); auto A = mat(c, m, n); for (int i = 0; i < n; ++i) A(i, i) += 4; auto s = std::make_shared<QRSolver<Real>>(A); return inst([=](Ctx& c) { auto v_s = via(c, s); switch (c.i(0, 4)) { case 0: c.o(v_s->LeastSquaresSolve(vec(c, m))); break; case 1: if (m == n) c.o(v_s->Solve(vec(c, n))); else c.o(v_s->rows()); break; case 2: c.o(v_s->GetQ()); c.o(v_s->GetR()); break; case 3: { auto b = vec(c, m); Vector<Real> q(m); v_s->QtMultiply(b, q); c.o(q); break; } default: if (m == n) { c.o(v_s->det()); Matrix<Real> iv(n, n); v_s->inverse(iv); c.o(iv); } c.o(v_s->isSingular()); } }); }
OP("lin.svd", HI) { int n = c.i(1, 5), m = n + c.i(0, 3); auto A = mat(c, m, n); if (c.i(0, 3) == 0 && n > 1) for (int i = 0; i < m; ++i) A(i, n - 1) = A(i, 0); auto s = std::make_shared<SVDecompositionSolver<Real>>(A); return inst([=](Ctx& c) { auto v_s = via(c, s); switch (c.i(0, 5)) { case 0: c.o(v_s->Solve(vec(c, m))); break; case 1: c.o(v_s->Rank(c.b() ? -1.0 : c.u(1e-9, 0.5))); break; case 2: c.o(v_s->Nullspace()); break; case 3: c.o(v_s->Range()); break; case 4: c.o(v_s->inv_condition()); break; default: c.o(v_s->getU()); c.o(v_s->getV()); c.o(v_s->getW()); c.o(v_s->Solve(vec(c, m), c.u(1e-6, 0.1))); } }); }
OP("lin.band", HI) { int n = c.i(3, 8), m1 = c.i(1, 2), m2 = c.i(1, 2); Matrix<Real> d(n, m1 + m2 + 1); for (int i = 0; i < n; ++i) for (int j = 0; j <= m1 + m2; ++j) d(i, j) = c.in(c.u()) + (j == m1 ? 5 : 0); BandDiagonalMatrix B(n, m1, m2, d); auto s = std::make_shared<BandDiagonalSolver>(B); return inst([=](Ctx& c) { auto v_s = via(c, s); c.o(v_s->Solve(vec(c, n))); c.o(v_s->Det()); c.o(B * vec(c, n)); c.o(B.ToFullMatrix()); c.o(B.NormInf()); c.o(B.Transpose().ToFullMatrix()); }); }
OP("lin.band.detailed", SH | TM | IT) { int n = c.i(3, 7); Matrix<Real> d(n, 3); for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) d(i, j) = c.u() + (j == 1 ? 4 : 0); BandDiagonalMatrix B(n, 1, 1, d); auto b = vec(c, n); return inst([=](Ctx& c) { auto r = BandDiagonalSolveDetailed(B, b); c.claim(r.IsSuccess()); if (r.IsSuccess()) c.finv(r.solution, r.solution.size()); c.o(r.solution); c.o(r.residual_norm); c.ms(r.elapsed_time_ms); }); }
OP("lin.tridiag", HI) { int n = c.i(2, 8); Vector<Real> a = vec(c, n), d = vec(c, n), e = vec(c, n); for (int i = 0; i < n; ++i) d[i] += 4; a[0] = 0; e[n - 1] = 0; auto T = std::make_shared<TridiagonalMatrix<Real>>(n, a, d, e); return inst([=](Ctx& c) { auto v_T = via(c, T); c.o(v_T->Solve(vec(c, n))); c.o((*v_T + *T)(0, 0)); c.o(v_T->GetTranspose()(1, 0)); auto inv = [&] { try { c.o(v_T->GetInverse()(0, 0)); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { c.o(e.what()); } }; inv(); }); }
template <class S> static Inst* itersolve(Ctx& c, int kind) { int n = c.i(1, 6); auto A = dd(c, n); auto b = vec(c, n); return inst([=](Ctx& c) { IterativeSolverConfig k; k.max_iterations = c.i(1, 60); k.tolerance = std::pow(10.0, -c.i(2, 10)); k.omega = c.u(0.8, 1.3); auto r = S::Solve(A, b, k); c.within(r.iterations, k.max_iterations + 1); c.claim(r.converged); if (r.converged) c.finv(r.solution, r.solution.size()); c.o(r.solution); c.o(r.iterations); c.o(r.residual); c.o(r.error_message); c.ms(r.elapsed_time_ms); }); }
OP("lin.jacobi", SH | TM | HI | IT) { return itersolve<JacobiSolver>(c, 0); }
OP("lin.gaussseidel", SH | TM | HI | IT) { return itersolve<GaussSeidelSolver>(c, 1); }
OP("lin.sor", SH | TM | HI | IT) { return itersolve<SORSolver>(c, 2); }
OP("lin.sor.optimal", SH | HI | IT) { int n = c.i(1, 4); auto A = dd(c, n); auto b = vec(c, n); return inst([=](Ctx& c) { auto r = SORSolver::SolveOptimal(A, b); c.claim(r.converged); if (r.converged) c.finv(r.solution, r.solution.size()); c.o(r.solution); c.o(r.iterations); }); }
OP("lin.simple", SH | HI | IT) { int n = c.i(1, 5); auto A = dd(c, n); auto b = vec(c, n); return inst([=](Ctx& c) { switch (c.i(0, 2)) { case 0: c.o(JacobiSolver::SolveSimple(A, b)); break; case 1: c.o(GaussSeidelSolver::SolveSimple(A, b)); break; default: c.o(SORSolver::SolveSimple(A, b, 1.1)); } }); }
template <class S> static Inst* eig(Ctx& c) { int n = c.i(1, 6); auto A = symm(c, n); return inst([=](Ctx& c) { EigenSolverConfig k; k.max_iterations = c.i(2, 60); k.sort_eigenvalues = c.b(); k.compute_eigenvectors = true; auto r = S::Solve(A, k); c.claim(r.converged); if (r.converged) c.finv(r.eigenvalues, r.eigenvalues.size()); c.o(r.eigenvalues); c.o(r.eigenvectors); c.o(r.iterations); c.o(r.residual); c.ms(r.elapsed_time_ms); }); }
OP("eig.jacobi", SH | TM | HI | IT) { return eig<SymmMatEigenSolverJacobi>(c); }
OP("eig.qr", SH | TM | HI | IT) { return eig<SymmMatEigenSolverQR>(c); }
OP("eig.general", SH | TM | HI | IT) { int n = c.i(1, 6); auto A = mat(c, n, n); return inst([=](Ctx& c) { EigenSolverConfig k; k.max_iterations = c.i(20, 200); auto r = EigenSolver::Solve(A, k); c.within(r.iterations, k.max_iterations + 1); c.claim(r.converged); for (auto& e : r.eigenvalues) { if (r.converged) { c.fin(e.real); c.fin(e.imag); } c.o(e.real); c.o(e.imag); } c.o(r.eigenvectors); for (bool x : r.isComplexPair) c.o(x); c.o(r.iterations); c.o(r.maxResidual); c.ms(r.elapsed_time_ms); }); }
OP("matalg.hessenberg", SH | HI) { int n = c.i(1, 5); auto A = mat(c, n, n); return inst([=](Ctx& c) { auto r = MatrixAlg::ReduceToHessenberg(A); c.o(r.H); c.o(r.Q); }); }
OP("matalg.definite", SH | HI) { int n = c.i(1, 5); auto A = symm(c, n); return inst([=](Ctx& c) { Real tol = std::pow(10.0, -c.i(3, 12)); c.o((int)MatrixAlg::ClassifyDefiniteness(A, tol)); c.o(MatrixAlg::IsPositiveDefinite(A, tol)); c.o(MatrixAlg::IsIndefinite(A, tol)); c.o(MatrixAlg::IsSymmetric(A)); }); }
OP("matutils.basic", SH | HI) { int n = c.i(1, 5); auto A = mat(c, n, n); return inst([=](Ctx& c) { c.o(Utils::Trace(A)); c.o(Utils::FrobeniusNorm(A)); c.o(Utils::InfinityNorm(A)); c.o(Utils::OneNorm(A)); c.o(Utils::Det(A)); c.o(Utils::RankGaussian(A)); c.o(Utils::IsNilpotent(A)); c.o(Utils::IsUnipotent(A)); PolynomRealFunc p; Real d; Matrix<Real> inv; Utils::FaddeevAlg(A, p, d, inv); c.o(d); c.o(inv); for (int i = 0; i <= p.degree(); ++i) c.o(p[i]); }); }
OP("matutils.svd", SH | HI) { int n = c.i(1, 4), m = c.i(1, 5); auto A = mat(c, m, n); return inst([=](Ctx& c) { switch (c.i(0, 5)) { case 0: { auto r = Utils::ComputeSVD(A); c.o(r.singularValues); c.o(r.rank); c.o(r.conditionNumber); break; } case 1: c.o(Utils::PseudoInverse(A)); break; case 2: c.o(Utils::NullSpace(A)); break; case 3: c.o(Utils::ColumnSpace(A)); c.o(Utils::RowSpace(A)); break; case 4: { auto f = Utils::ComputeFundamentalSubspaces(A); c.o(f.rank); c.o(f.leftNullSpace); break; } default: c.o(Utils::ConditionNumber(A)); c.o(Utils::RankSVD(A)); } }); }
OP("matrix.algebra", SH | HI) { int n = c.i(1, 5), m = c.i(1, 5); auto A = mat(c, n, m); auto B = mat(c, m, n); auto v = vec(c, m); auto S = dd(c, n); return inst([=](Ctx& c) { c.o(A * B); c.o(A * v); c.o(A.transpose()); c.o(S.inverse()); c.o(A + A * 2.0 - A / 3.0); c.o(A.NormL1()); c.o(A.NormL2()); c.o(A.NormLInf()); c.o(S.trace()); c.o(S.isSymmetric()); c.o(S.isDiagonallyDominant()); c.o(S.GetLower()); c.o(S.GetUpper(false)); c.o(A.GetSubmatrix(0, 0, n, 1)); c.o(A.VectorFromColumn(m - 1)); c.o(A.to_string(10, 4)); c.o(A.IsEqualTo(A)); }); }
OP("matrix.mutate", HI) { int n = c.i(2, 5); auto A = dd(c, n); return inst([=](Ctx& c) { Matrix<Real> m = A; m.SwapRows(0, n - 1); m.SwapCols(0, n - 1); m.Transpose(); m.Resize(n + 1, n + 1, true); m(n, n) = 3; m.Invert(); m *= 2; m += m; Matrix<Real> k(std::move(m)); c.o(k); k.MakeUnitMatrix(); k.InitRowWithVector(0, Vector<Real>(n + 1, 2.0)); c.o(k); Matrix<Real> z; z = k; z = std::move(k); c.o(z); }); }
OP("matrix.sym", SH | HI) { int n = c.i(1, 5); auto A = symm(c, n); auto M = MatrixSym<Real>::FromFullMatrix(A); return inst([=](Ctx& c) { c.o(M * M); c.o((M + M * 2.0 - M / 4.0).GetAsMatrix()); c.o(M.NormFrobenius()); c.o(M.NormInf()); c.o(M.Trace()); c.o(M * Vector<Real>(n, 1.5)); c.o(M.VectorFromRow(n - 1)); c.o(M.to_string()); auto k = M; k.Resize(n + 2, true); c.o(k.GetAsMatrix()); }); }
OP("matrix.sym.inverse", SH | HI) { int n = c.i(1, 5); auto M = MatrixSym<Real>::FromFullMatrix(spd(c, n)); return inst([=](Ctx& c) { c.o(M.GetInverse()); }); }
OP("matrix.3d", CB) { int a = c.i(1, 3), b = c.i(1, 3), d = c.i(1, 3); Matrix3D<Real> M(a, b, d); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < d; ++k) M(i, j, k) = c.u(); return inst([=](Ctx& c) { Matrix3D<Real> x = M; x.Apply([](Real v) { return cb(v * v); }); x += M; Matrix3D<Real> y(std::move(x)); y *= 3; Matrix3D<Real> z; z = y; z = z + M; c.o(z == y); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < d; ++k) c.o(z[i][j][k]); c.o(z.ToStringFull()); z.Resize(b, a, d); c.o(z.size()); }); }
OP("matrix.nm", SH | HI) { MatrixNM<Real, 3, 3> A; VectorN<Real, 3> v; for (int i = 0; i < 3; ++i) { v[i] = c.in(c.u()); for (int j = 0; j < 3; ++j) A(i, j) = c.in(c.u()) + (i == j ? 4 : 0); } return inst([=](Ctx& c) { c.o(A * v); c.o(A * A); c.o(A.GetInverse()); c.o(A.transpose()); c.o(Utils::Det(A)); c.o(A.Trace()); c.o(A.to_string(9, 3)); }); }
OP("vector.ops", SH | HI) { int n = c.i(1, 6); auto a = vec(c, n), b = vec(c, n); return inst([=](Ctx& c) { c.o(a + b); c.o(a - b * 2.0); c.o(-a / 3.0); c.o(a.NormL1()); c.o(a.NormL2()); c.o(a.NormLInf()); c.o(a == b); c.o(a.IsEqualTo(a)); c.o(a.to_string(8, 3)); Vector<Real> v = a; v.push_back(2); v.insert(0, 5); v.erase(1); v.Resize(n + 3, true); c.o(v); try { c.o(a.at(n)); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { c.o(e.what()); } }); }
OP("vector.print", SH | SETT) { int n = c.i(1, 4); auto a = vec(c, n); auto A = mat(c, n, n); return inst([=](Ctx& c) { std::ostringstream s; s << a << "\n" << A; a.Print(s, 12, 4, 1e-3); a.PrintCol(s, 9, 2); A.Print(s, 9, 3); c.o(s.str()); c.o(a.to_string()); }); }
