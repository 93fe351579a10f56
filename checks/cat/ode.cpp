// ODE integration (fixed, adaptive, stiff, events, boundary values), differential-algebraic systems, dynamical systems
#include "fun.h"
#include "mml/base/ODESystem.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/base/DAESystem.h"
#include "mml/algorithms/ODESolvers.h"
#include "mml/algorithms/ODESolvers/ODESolverEventDetection.h"
#include "mml/algorithms/ODESolvers/BVPShootingMethod.h"
#include "mml/algorithms/DAESolvers.h"
#include "mml/systems/DynamicalSystem.h"
using namespace MML; using namespace cat;
struct Sys { int n; double a[3], b[3], k[3];
    void f(Real t, const Vector<Real>& x, Vector<Real>& d) const { tick(); for (int i = 0; i < n; ++i) d[i] = hv(a[i] * std::sin(x[(i + 1) % n]) - k[i] * x[i] + b[i] * std::cos(t)); }
    void j(Real t, const Vector<Real>& x, Vector<Real>& d, Matrix<Real>& J) const { f(t, x, d); for (int i = 0; i < n; ++i) for (int q = 0; q < n; ++q) J(i, q) = hv((q == (i + 1) % n ? a[i] * std::cos(x[q]) : 0) - (q == i ? k[i] : 0)); } };
static Sys sys(Ctx& c, int lo = 1, int hi = 3) { Sys s; s.n = c.i(lo, hi); for (int i = 0; i < 3; ++i) { s.a[i] = c.u(); s.b[i] = c.u(); s.k[i] = c.u(0, 1.5); } return s; }
struct OS : IODESystem { Sys s; OS(Sys q) : s(q) {} int getDim() const override { return s.n; } void derivs(const Real t, const Vector<Real>& x, Vector<Real>& d) const override { s.f(t, x, d); } };
struct OJ : IODESystemWithJacobian { Sys s; OJ(Sys q) : s(q) {} int getDim() const override { return s.n; } void derivs(const Real t, const Vector<Real>& x, Vector<Real>& d) const override { s.f(t, x, d); } void jacobian(const Real t, const Vector<Real>& x, Vector<Real>& d, Matrix<Real>& J) const override { s.j(t, x, d, J); } };
static void sol(Ctx& c, const ODESystemSolution& s) { int n = s.size(); c.o(n); c.o(s.getSysDim()); for (int k = 0; k < n; k += n > 8 ? n / 4 : 1) { c.o(s.getTValue(k)); for (int i = 0; i < s.getSysDim(); ++i) c.o(s.getXValue(k, i)); } if (n) c.o(s.getXValuesAtEnd()); c.o(s.getNumStepsOK()); c.o(s.getNumStepsBad()); }
static void fins(Ctx& c, const ODESystemSolution& s) { for (int k = 0; k < s.size(); ++k) for (int i = 0; i < s.getSysDim(); ++i) if (!std::isfinite(s.getXValue(k, i))) c.nonfinite = true; }
static Vector<Real> start(Ctx& c, int n) { Vector<Real> x(n); for (int i = 0; i < n; ++i) x[i] = c.u(-1, 1); return x; }

OP("ode.fixed", SH | CB) { auto s = std::make_shared<OS>(sys(c, 2, 2)); return inst([=](Ctx& c) { auto v_s = via(c, s); static const IODESystemStepCalculator* k[] = {&StepCalculators::EulerStepCalc, &StepCalculators::EulerCromerStepCalc, &StepCalculators::VelocityVerletStepCalc, &StepCalculators::LeapfrogStepCalc, &StepCalculators::MidpointStepCalc, &StepCalculators::RK4_Basic, &StepCalculators::RK5_CashKarp, &StepCalculators::DormandPrince5StepCalc, &StepCalculators::DormandPrince8StepCalc}; ODESystemFixedStepSolver v(*v_s, *k[c.i(0, 8)]); auto x = start(c, 2); double t = c.u(); sol(c, v.integrate(x, t, t + c.u(.1, 2), c.i(1, 30))); }); }
OP("ode.fixed.system", SH | CB) { Sys q = sys(c); auto s = std::make_shared<ODESystemFromStdFunc>(q.n, [q](Real t, const Vector<Real>& x, Vector<Real>& d) { q.f(t, x, d); }); auto v = std::make_shared<ODESystemFixedStepSolver>(*s, StepCalculators::RK4_Basic); return inst([=, keep = s](Ctx& c) { auto v_v = via(c, v); auto r = v_v->integrate(start(c, q.n), 0, c.u(.1, 2), c.i(4, 30)); sol(c, r); c.o(r.getSolAsLinInterp(0)(0.05)); c.o(r.getSolAsSplineInterp(0)(0.05)); c.o(r.getSolAsPolyInterp(0, 2)(0.05)); c.o(r.getTValues()); auto z = r; z.reserve(100); z.fillValues(z.size(), 9.0, start(c, q.n)); sol(c, z); }); }
template <class St> static Inst* adaptive(Ctx& c) { auto s = std::make_shared<OS>(sys(c)); auto v = std::make_shared<ODEAdaptiveIntegrator<St>>(*s); return inst([=](Ctx& c) { auto x = start(c, s->s.n); double t = c.u(), e = std::pow(10., -c.i(3, 8)); switch (c.i(0, 3)) { case 0: sol(c, v->integrate(x, t, t + c.u(.2, 1), c.u(.02, .3), e, c.b() ? 0.01 : 0)); break; case 1: { Vector<Real> ts(c.i(2, 5)); double q = t; for (int i = 0; i < ts.size(); ++i) { ts[i] = q; q += c.u(.05, .3); } sol(c, v->integrateAt(x, ts, e)); break; } case 2: { ODEIntegratorConfig k; k.tolerance = e; k.output_interval = c.b() ? 0 : .05; k.max_steps = c.i(1, 200); sol(c, v->integrate(x, t, t + .7, k)); auto& st = v->getStatistics(); c.o((int)st.status); c.o(st.error_message); if (st.status == AlgorithmStatus::Success) c.ms(st.elapsed_time_ms); break; } default: (void)v->estimateInitialStep(t, x, t + 1, e); sol(c, v->integrate(x, t, t + .5, .1, e)); } auto& st = v->getStatistics(); c.o(st.acceptedSteps); c.o(st.rejectedSteps); c.o(st.totalFuncEvals); c.o(st.minStepSize); c.o(st.maxStepSize); }); }
OP("ode.adaptive.dp5", CB | TM) { return adaptive<DormandPrince5_Stepper>(c); }
OP("ode.adaptive.ck", CB | TM) { return adaptive<CashKarp_Stepper>(c); }
OP("ode.adaptive.dp8", CB | TM) { return adaptive<DormandPrince8_Stepper>(c); }
OP("ode.adaptive.bs", CB | TM) { return adaptive<BulirschStoer_Stepper>(c); }
OP("ode.adaptive.bsr", CB | TM) { return adaptive<BulirschStoerRational_Stepper>(c); }
template <class St> static void detailed(Ctx& c, const OS& s) { ODEAdaptiveConfig k; k.check_finite = true; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; k.integrator.tolerance = std::pow(10., -c.i(3, 7)); k.integrator.max_steps = c.i(5, 300); k.integrator.output_interval = .1; auto x = start(c, s.s.n); auto r = ODEAdaptiveIntegrateDetailed<St>(s, x, 0, c.u(.2, 1), k); ev(c, r); c.o(r.accepted_steps); c.o(r.rejected_steps); c.o(r.min_step_size); c.within(r.accepted_steps, k.integrator.max_steps); if (r.IsSuccess()) { c.claim(r.solution.has_value()); fins(c, *r.solution); } if (r.solution) sol(c, *r.solution); }
OP("ode.adaptive.detailed", SH | CB | IT | TM, 300000) { auto s = std::make_shared<OS>(sys(c)); int w = c.i(0, 4); return inst([=](Ctx& c) { auto v_s = via(c, s); switch (w) { case 0: detailed<DormandPrince5_Stepper>(c, *v_s); break; case 1: detailed<CashKarp_Stepper>(c, *v_s); break; case 2: detailed<DormandPrince8_Stepper>(c, *v_s); break; case 3: detailed<BulirschStoer_Stepper>(c, *v_s); break; default: detailed<BulirschStoerRational_Stepper>(c, *v_s); } }); }
template <class St> static void steps(Ctx& c, IAdaptiveStepper& st, const OS& s) { st.resetFSAL(); auto x = start(c, s.s.n); Vector<Real> d(s.s.n); double t = 0, h = .05; s.derivs(t, x, d); for (int k = c.i(1, 4); k > 0; --k) { auto r = st.doStep(t, x, d, h, 1e-6); c.o(r.accepted); c.o(r.hDone); c.o(r.hNext); c.o(r.funcEvals); if (r.accepted) { c.o(st.interpolate(t + r.hDone * .3)); t += r.hDone; } h = r.hNext; c.o(x); if (r.accepted) c.o(st.getFinalDeriv()); } c.o(st.order()); c.o(st.isFSAL()); }
OP("ode.stepper", CB) { auto s = std::make_shared<OS>(sys(c)); std::shared_ptr<IAdaptiveStepper> st; switch (c.i(0, 3)) { case 0: st = std::make_shared<DormandPrince5_Stepper>(*s); break; case 1: st = std::make_shared<CashKarp_Stepper>(*s); break; case 2: st = std::make_shared<DormandPrince8_Stepper>(*s); break; default: st = std::make_shared<BulirschStoer_Stepper>(*s); } return inst([=, keep = s](Ctx& c) { auto v_s = via(c, s); steps<int>(c, *st, *v_s); }); }
OP("ode.stiff", SH | CB | IT | TM, 400000) { Sys q = sys(c); for (auto& k : q.k) k *= 20; auto s = std::make_shared<OJ>(q); return inst([=](Ctx& c) { auto v_s = via(c, s); ODEStiffConfig k; k.check_finite = true; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; k.solver.step_size = c.u(.02, .1); k.solver.max_newton_iter = c.i(3, 20); k.solver.tolerance = 1e-4; auto x = start(c, q.n); double e = c.u(.1, .8); int w = c.i(0, 2); auto r = w == 0 ? SolveBackwardEulerDetailed(*v_s, 0, x, e, k) : w == 1 ? SolveBDF2Detailed(*v_s, 0, x, e, k) : SolveRosenbrock23Detailed(*v_s, x, 0, e, k); ev(c, r); c.o(r.total_steps); if (r.IsSuccess() && r.solution) fins(c, *r.solution); if (r.solution) sol(c, *r.solution); }); }
OP("ode.stiff.plain", CB | TM) { Sys q = sys(c); for (auto& k : q.k) k *= 20; auto s = std::make_shared<OJ>(q); auto ros = std::make_shared<Rosenbrock23Solver>(*s, 1e-4, 1e-4); return inst([=, keep = s](Ctx& c) { auto v_ros = via(c, ros); auto v_s = via(c, s); auto x = start(c, q.n); switch (c.i(0, 3)) { case 0: sol(c, SolveBackwardEuler(*v_s, 0, x, .5, c.u(.03, .1), 20)); break; case 1: sol(c, SolveBDF2(*v_s, 0, x, .5, c.u(.03, .1), 20)); break; case 2: sol(c, v_ros->Solve(0, x, .5, .05)); break; default: { StiffSolverConfig k; k.tolerance = std::pow(10., -c.i(2, 5)); auto r = c.b() ? SolveBDF2(*v_s, 0, x, .5, k) : SolveBackwardEuler(*v_s, 0, x, .3, k); c.claim(r.status == AlgorithmStatus::Success); if (r.status == AlgorithmStatus::Success) c.ms(r.elapsed_time_ms); sol(c, r.solution); } } }); }
struct OE : IODESystemWithEvents { Sys s; int ne; double lev[3]; EventDirection dir[3]; EventAction act[3]; OE(Sys q) : s(q) {} int getDim() const override { return s.n; } void derivs(const Real t, const Vector<Real>& x, Vector<Real>& d) const override { s.f(t, x, d); } int getNumEvents() const override { return ne; }
    Real eventFunction(int i, Real t, const Vector<Real>& x) const override { return cb(i == 2 ? t - .3 : x[i % s.n] - lev[i]); } EventDirection getEventDirection(int i) const override { return dir[i]; } EventAction getEventAction(int i) const override { return act[i]; } void handleEvent(int i, Real, Vector<Real>& x) const override { tick(); x[i % s.n] += i & 1 ? .4 : -.5; } };
OP("ode.events", CB) { auto s = std::make_shared<OE>(sys(c)); s->ne = c.i(1, 3); for (int i = 0; i < 3; ++i) { s->lev[i] = c.u(-.5, .5); s->dir[i] = (EventDirection)c.i(0, 2); s->act[i] = (EventAction)c.i(0, 2); } int w = c.i(0, 2); auto a = std::make_shared<DormandPrince5EventIntegrator>(*s); auto b = std::make_shared<CashKarpEventIntegrator>(*s); return inst([=](Ctx& c) { auto v_a = via(c, a); auto v_b = via(c, b); auto v_s = via(c, s); auto x = start(c, v_s->s.n); double e = c.u(.3, 1), oi = c.u(.05, .4); auto r = w ? v_a->integrateWithEvents(*v_s, x, 0, e, oi, 1e-6) : v_b->integrateWithEvents(*v_s, x, 0, e, oi, 1e-5); c.o(r.terminatedByEvent); c.o(r.finalTime); c.o(r.finalState); c.o(r.events.size()); for (auto& v : r.events) { c.o(v.eventIndex); c.o(v.time); c.o(v.state); c.o((int)v.direction); } sol(c, r.solution); }); }
OP("ode.bvp.1d", SH | CB | IT | TM, 40000) { auto s = std::make_shared<OS>(sys(c, 2, 2)); int n = c.i(4, 16), mi = c.i(4, 25); auto v = std::make_shared<BVPShootingSolver<>>(*s, n, 1e-7, mi); return inst([=, keep = s](Ctx& c) { auto v_v = via(c, v); auto r = c.b() ? v_v->solvePositionBVP(0, 1, c.u(), c.u(), -1, c.u(0, 2)) : v_v->solve1D(0, 1, start(c, 2), 0, 1, c.u(), -.5, .7); c.within(r.iterations, mi); c.claim(r.success()); c.o((int)r.failureReason); c.o((int)r.status); c.o(r.failureDetails); if (r.success()) { c.ms(r.elapsed_time_ms); c.fin(r.residual); c.finv(r.shootingParams, r.shootingParams.size()); fins(c, r.solution); } sol(c, r.solution); }); }
OP("ode.bvp.nd", SH | CB | IT | TM, 20000) { auto s = std::make_shared<OS>(sys(c, 2, 3)); int n = c.i(5, 30), mi = c.i(1, 8); auto v = std::make_shared<BVPShootingSolverND<>>(*s, n, 1e-7, mi); return inst([=, keep = s](Ctx& c) { auto v_s = via(c, s); auto v_v = via(c, v); ShootingConfig k; int m = c.i(1, v_s->s.n); for (int i = 0; i < m; ++i) { k.unknownIndices.push_back(i); k.unknownGuesses.push_back(c.u()); k.targetIndices.push_back((i + 1) % v_s->s.n); k.targetValues.push_back(c.u(-.5, .5)); } auto r = v_v->solve(0, 1, start(c, v_s->s.n), k); c.within(r.iterations, mi); c.claim(r.success()); c.o((int)r.failureReason); c.o((int)r.status); c.o(r.iterations); if (r.success()) { c.ms(r.elapsed_time_ms); c.fin(r.residualNorm); c.finv(r.shootingParams, m); } c.o(r.residuals); sol(c, r.solution); }); }
struct DA : IODESystemDAEWithJacobian { double a, b, k; int getDiffDim() const override { return 1; } int getAlgDim() const override { return 1; }
    void diffEqs(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& d) const override { tick(); d[0] = hv(-k * x[0] + a * y[0] + std::sin(t)); }
    void algConstraints(Real, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& g) const override { tick(); g[0] = hv(y[0] * (1.5 + .1 * y[0]) - b * x[0] - .3); }
    void jacobian_fx(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& m) const override { tick(); m(0, 0) = hv(-k); }
    void jacobian_fy(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& m) const override { m(0, 0) = hv(a); }
    void jacobian_gx(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& m) const override { m(0, 0) = hv(-b); }
    void jacobian_gy(Real, const Vector<Real>&, const Vector<Real>& y, Matrix<Real>& m) const override { m(0, 0) = hv(1.5 + .2 * y[0]); } };
static void dsol(Ctx& c, const DAESolution& s) { int n = s.size(); c.o(n); for (int k = 0; k < n; ++k) { c.o(s.getTValue(k)); c.o(s.getXValue(k, 0)); c.o(s.getYValue(k, 0)); } c.o(s.getNumStepsOK()); c.o(s.getTValues()); c.o(s.getXValues()); c.o(s.getYValues()); if (n) { c.o(s.getXValuesAtEnd()); c.o(s.getYValuesAtEnd()); } }
OP("dae", SH | CB | IT | TM, 60000) { auto s = std::make_shared<DA>(); s->a = c.u(); s->b = c.u(); s->k = c.u(0, 3); return inst([=](Ctx& c) { auto v_s = via(c, s); DAESolverConfig k; k.step_size = c.u(.03, .2); k.max_newton_iter = c.i(3, 20); k.max_steps = c.i(2, 40); Vector<Real> x{c.u()}, y{c.u(0, .5)}; double e = c.u(.2, 1); int w = c.i(0, 4); auto r = w == 0 ? SolveDAEBackwardEuler(*v_s, 0, x, y, e, k) : w == 1 ? SolveDAEBDF2(*v_s, 0, x, y, e, k) : w == 2 ? SolveDAEBDF4(*v_s, 0, x, y, e, k) : w == 3 ? SolveDAERODAS(*v_s, 0, x, y, e, k) : SolveDAERadauIIA(*v_s, 0, x, y, e, k); bool good = r.status == AlgorithmStatus::Success; c.claim(good); c.o(r.error_message); c.o(r.total_steps); c.o(r.newton_iterations); c.o(r.jacobian_evaluations); c.within(r.total_steps, k.max_steps); if (good) { c.ms(r.elapsed_time_ms); for (int i = 0; i < r.solution.size(); ++i) { c.fin(r.solution.getXValue(i, 0)); c.fin(r.solution.getYValue(i, 0)); } } dsol(c, r.solution); }); }
OP("dae.ic", SH | CB | IT, 60) { auto s = std::make_shared<DA>(); s->a = c.u(); s->b = c.u(); s->k = c.u(0, 3); return inst([=](Ctx& c) { auto v_s = via(c, s); Vector<Real> x{c.u()}, y{c.u(0, .5)}; int mi = c.i(1, 20); c.budget(2 * mi + 5); bool good = ComputeConsistentIC(*v_s, 0, x, y, mi); c.claim(good); if (good) c.finv(y, 1); c.o(y); c.o(VerifyConsistentIC(*v_s, 0, x, y)); }); }
struct Dyn : Systems::DynamicalSystemBase<2, 2> { Dyn(Ctx& c) { _params[0] = c.u(.2, 1.5); _params[1] = c.u(); } void derivs(Real, const Vector<Real>& y, Vector<Real>& d) const override { tick(); d[0] = hv(y[1] - .2 * _params[1]); d[1] = hv(_params[0] * (1 - y[0] * y[0]) * y[1] - y[0]); } };
OP("dyn.fixedpoint", CB | IT | TM, 2000) { auto s = std::make_shared<Dyn>(c); return inst([=](Ctx& c) { auto v_s = via(c, s); auto x = start(c, 2); Systems::DynSysConfig k; k.check_finite = true; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; int mi = c.i(1, 50); auto r = Systems::FindFixedPointDetailed(*v_s, x, 1e-9, mi, k); ev(c, r); c.within(r.fixed_point.iterations, mi); if (r.IsSuccess()) { c.finv(r.fixed_point.location, 2); c.fin(r.fixed_point.convergenceResidual); } c.o((int)r.fixed_point.type); c.o(r.fixed_point.isStable); c.o(r.fixed_point.eigenvalues); }); }
OP("dyn.fixedpoints", CB) { auto s = std::make_shared<Dyn>(c); return inst([=](Ctx& c) { auto v_s = via(c, s); auto x = start(c, 2); Systems::DynamicalSystemAnalyzer<Real> a(*v_s); for (auto& p : a.FindFixedPoints({x, start(c, 2)})) c.o(p.location); }); }
OP("dyn.lyapunov", CB | IT | TM, 20000) { auto s = std::make_shared<Dyn>(c); return inst([=](Ctx& c) { auto v_s = via(c, s); Systems::DynSysConfig k; k.check_finite = true; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = Systems::ComputeLyapunovDetailed(*v_s, start(c, 2), c.u(.5, 3), c.u(.2, 1), .05, k); ev(c, r); if (r.IsSuccess()) { c.finv(r.lyapunov.exponents, 2); c.fin(r.lyapunov.sum); } c.o(r.lyapunov.isChaotic); c.o(r.lyapunov.numOrthonormalizations); }); }
OP("dyn.bifurcation", CB | IT | TM, 60000) { auto s = std::make_shared<Dyn>(c); return inst([=](Ctx& c) { auto v_s = via(c, s); Systems::DynSysConfig k; k.check_finite = true; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = Systems::SweepBifurcationDetailed(*v_s, c.i(0, 1), .2, 1.4, c.i(2, 5), start(c, 2), c.i(0, 1), c.u(.2, 2), c.u(1, 8), .1, k); ev(c, r); c.o(r.diagram.parameterName); for (auto& v : r.diagram.attractorValues) { c.o(v); if (r.IsSuccess()) c.finv(v, (int)v.size()); } c.o(v_s->getParams()); }); }
OP("dyn.poincare", CB | IT | SLOW | TM, 8000000) { auto s = std::make_shared<Dyn>(c); return inst([=](Ctx& c) { auto v_s = via(c, s); Systems::DynSysConfig k; k.check_finite = true; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; int n = c.i(1, 4); auto r = Systems::ComputePoincareSectionDetailed(*v_s, start(c, 2), Systems::PoincareSection<Real>(0, c.u(-.5, .5), c.i(-1, 1)), n, .2, k); ev(c, r); c.o(r.intersections.size()); if (r.IsSuccess()) c.claim((int)r.intersections.size() == n); for (auto& p : r.intersections) { c.o(p); if (r.IsSuccess()) c.finv(p, 2); } }); }
OP("dyn.trajectory", CB | IT | TM, 4000) { auto s = std::make_shared<Dyn>(c); return inst([=](Ctx& c) { auto v_s = via(c, s); Systems::DynSysConfig k; k.check_finite = true; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = Systems::IntegrateTrajectoryDetailed(*v_s, start(c, 2), c.u(.5, 3), c.u(.05, .4), .05, k); ev(c, r); for (auto& p : r.points) { c.o(p); if (r.IsSuccess()) c.finv(p, 2); } }); }
OP("dyn.analyzer", CB | SLOW) { auto s = std::make_shared<Dyn>(c); auto a = std::make_shared<Systems::DynamicalSystemAnalyzer<Real>>(*s); return inst([=, keep = s](Ctx& c) { auto v_a = via(c, a); auto x = start(c, 2); switch (c.i(0, 4)) { case 0: c.o(v_a->IsChaotic(x, 2)); break; case 1: c.o(v_a->GetLyapunovTime(x, 3)); break; case 2: for (auto& p : v_a->FindFixedPointsInBox(Vector<Real>{-1, -1}, Vector<Real>{1, 1}, 2)) c.o(p.location); break; case 3: for (auto& p : v_a->IntegrateTrajectory(x, 1, .1, .05)) c.o(p); break; default: c.o(v_a->GetFractalDimension(x, 2)); c.o(v_a->IsDissipative(x, 2)); } }); }
OP("dyn.systems", SH) { return inst([=](Ctx& c) { std::unique_ptr<IDynamicalSystem> s; switch (c.i(0, 6)) { case 0: s.reset(new Systems::LorenzSystem()); break; case 1: s.reset(new Systems::RosslerSystem()); break; case 2: s.reset(new Systems::VanDerPolSystem(c.u(.5, 3))); break; case 3: s.reset(new Systems::DuffingSystem()); break; case 4: s.reset(new Systems::ChuaCircuit()); break; case 5: s.reset(new Systems::HenonHeilesSystem()); break; default: s.reset(new Systems::DoublePendulumSystem()); } auto x = s->getDefaultInitialCondition(); for (int i = 0; i < x.size(); ++i) x[i] += c.u(.05, .2); Vector<Real> d(s->getDim()); Matrix<Real> J(s->getDim(), s->getDim()); s->derivs(c.u(), x, d); c.o(d); s->jacobian(0, x, J); c.o(J); c.o(s->getStateName(0)); c.o(s->getParamName(0)); for (int i = 0; i < s->getNumInvariants(); ++i) c.o(s->computeInvariant(i, x)); s->setParam(0, 1.5); c.o(s->getParams()); ODEAdaptiveIntegrator<> v(*s); sol(c, v.integrate(x, 0, .3, .1, 1e-6)); }); }
OP("dyn.maps", SH) { return inst([=](Ctx& c) { Systems::LogisticMap l(c.u(2.5, 4)); Systems::HenonMap h; Systems::StandardMap m(c.u(.5, 2)); Systems::TentMap t(1.9); switch (c.i(0, 4)) { case 0: c.o(Systems::DiscreteMapLyapunov<1>::Compute(l, Vector<Real>{.3}, 60, 10).exponents); break; case 1: c.o(Systems::DiscreteMapLyapunov<2>::Compute(h, Vector<Real>{.1, .1}, 60, 10).exponents); break; case 2: c.o(Systems::DiscreteMapLyapunov<2>::Compute(m, Vector<Real>{.1, c.u()}, 60, 10).maxExponent); break; case 3: for (auto& p : l.orbit(Vector<Real>{.4}, c.i(1, 20))) c.o(p); break; default: for (auto& p : h.orbit(Vector<Real>{.1, .2}, c.i(1, 20))) c.o(p); c.o(Systems::DiscreteMapLyapunov<1>::Compute(t, Vector<Real>{.3}, 30, 3).isChaotic); } }); }
