// Fourier transforms, windows, statistics, tests, distributions, Chebyshev approximation
#include "fun.h"
#include "mml/algorithms/Fourier.h"
#include "mml/algorithms/FourierRealFFT.h"
#include "mml/algorithms/FourierWindowing.h"
#include "mml/algorithms/Statistics.h"
#include "mml/algorithms/Statistics/Distributions.h"
#include "mml/algorithms/Statistics/StatisticsConfidence.h"
#include "mml/algorithms/Statistics/StatisticsHypothesis.h"
#include "mml/algorithms/Statistics/StatisticsRank.h"
#include "mml/algorithms/ChebyshevApproximation.h"
using namespace MML; using namespace cat; using namespace MML::Statistics; using namespace MML::Fourier;
typedef std::shared_ptr<Vector<Real>> PV; typedef std::shared_ptr<Vector<Complex>> PC;
static PV pv(Ctx& c, int n, double lo = -2, double hi = 2) { return std::make_shared<Vector<Real>>(vec(c, n, lo, hi)); }
static PC pc(Ctx& c, int n) { return std::make_shared<Vector<Complex>>(cvec(c, n)); }
template <class R> static void four(Ctx& c, const R& r) { ev(c, r); if (r.IsSuccess()) for (int i = 0; i < r.value.size(); ++i) { std::complex<double> z(r.value[i]); c.fin(z.real()); c.fin(z.imag()); } c.o(r.input_size); }
static FourierConfig fconv() { FourierConfig k; k.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; return k; }
static StatisticsConfig sconv(Ctx& c) { StatisticsConfig k; k.exception_policy = c.b() ? EvaluationExceptionPolicy::ConvertToStatus : EvaluationExceptionPolicy::Propagate; return k; }

OP("fourier.dft", SH | HI) { auto v = pc(c, c.i(1, 17)); auto r = pv(c, c.i(1, 17)); return inst([=](Ctx& c) { switch (c.i(0, 4)) { case 0: c.o(DFT::Forward(*v)); break; case 1: c.o(DFT::Forward(*r)); break; case 2: c.o(DFT::Inverse(*v)); break; case 3: c.o(DFT::InverseReal(*v)); break; default: c.o(DFT::ComputeBin(*v, c.i(-1, v->size()))); } }); }
OP("fourier.fft", SH | HI) { auto v = pc(c, 1 << c.i(0, 6)); auto x = pc(c, c.i(1, 20)); return inst([=](Ctx& c) { switch (c.i(0, 4)) { case 0: c.o(FFT::Forward(*v)); break; case 1: c.o(FFT::Inverse(*v)); break; case 2: { Vector<Complex> t = *v; FFT::Transform(t, c.b() ? 1 : -1); c.o(t); break; } case 3: c.o(FFT::Forward(FFT::ZeroPad(*x))); break; default: c.o(FFT::Forward(*x)); } }); }
OP("fourier.real", SH | HI) { auto v = pv(c, 2 << c.i(0, 5)); auto x = pv(c, c.i(1, 20)); return inst([=](Ctx& c) { switch (c.i(0, 3)) { case 0: { auto s = RealFFT::Forward(*v); c.o(s); c.o(RealFFT::Inverse(s)); break; } case 1: { Vector<Real> t = *v; RealFFT::Transform(t, 1); c.o(t); break; } case 2: { Vector<Real> t = *v; RealFFT::Transform(t, -1); c.o(t); break; } default: c.o(RealFFT::Forward(*x)); } }); }
OP("fourier.dct", SH | HI) { auto v = pv(c, c.i(1, 70)); auto x = pv(c, 32 << c.i(0, 1)); return inst([=](Ctx& c) { auto& t = c.b() ? *v : *x; switch (c.i(0, 5)) { case 0: c.o(DCT::ForwardII(t)); break; case 1: c.o(DCT::InverseII(t)); break; case 2: c.o(DCT::ForwardDST(t)); break; case 3: c.o(DCT::InverseDST(t)); break; case 4: c.o(DCT::ForwardII_Fast(*x)); break; default: c.o(DCT::InverseII_Fast(*x)); } }); }
OP("fourier.detailed", SH | HI | TM | IT) { auto v = pc(c, 1 << c.i(0, 5)); auto r = pv(c, 1 << c.i(0, 5)); return inst([=](Ctx& c) { auto k = fconv(); switch (c.i(0, 9)) { case 0: four(c, DFT::ForwardDetailed(*v, k)); break; case 1: four(c, DFT::ForwardDetailed(*r, k)); break; case 2: four(c, DFT::InverseDetailed(*v, k)); break; case 3: four(c, DFT::InverseRealDetailed(*v, k)); break; case 4: four(c, FFT::ForwardDetailed(*v, k)); break; case 5: four(c, FFT::InverseDetailed(*v, k)); break; case 6: four(c, DCT::ForwardIIDetailed(*r, k)); break; case 7: four(c, DCT::InverseIIDetailed(*r, k)); break; case 8: four(c, DCT::ForwardDSTDetailed(*r, k)); break; default: four(c, DCT::InverseDSTDetailed(*r, k)); } }); }
OP("fourier.windows", SH) { return inst([=](Ctx& c) { int n = c.i(0, 20); switch (c.i(0, 7)) { case 0: c.o(Windows::Rectangular(n)); break; case 1: c.o(Windows::Hann(n)); break; case 2: c.o(Windows::Hamming(n)); break; case 3: c.o(Windows::Blackman(n)); break; case 4: c.o(Windows::Bartlett(n)); break; case 5: c.o(Windows::Welch(n)); break; case 6: c.o(Windows::Kaiser(n, c.u(-1, 9))); break; default: c.o(Windows::Gaussian(n, c.u(-.1, 1))); } }); }

OP("stat.describe", SH | HI | IT) { auto v = pv(c, c.i(1, 40)); if (c.b()) for (auto& x : *v) x = std::floor(x * 2) / 2; return inst([=](Ctx& c) { Real a, b, d, e, f, g; switch (c.i(0, 12)) { case 0: c.o(Mean(*v)); c.o(Variance(*v)); c.o(StdDev(*v)); break; case 1: AvgVar(*v, a, b); c.o(a); c.o(b); AvgStdDev(*v, a, b); c.o(b); break; case 2: Moments(*v, a, b, d, e, f, g); c.o(a); c.o(b); c.o(d); c.o(e); c.o(f); c.o(g); break; case 3: c.o(Median(*v)); break; case 4: c.o(Percentile(*v, c.u(-1, 101))); break; case 5: Quartiles(*v, a, b, d); c.o(a); c.o(b); c.o(d); break; case 6: c.o(Range(*v)); c.o(IQR(*v)); break; case 7: MinMax(*v, a, b); c.o(a); c.o(b); break; case 8: c.o(Mode(*v)); break; case 9: c.o(TrimmedMean(*v, c.u(0, 50))); break; case 10: c.o(MAD(*v)); break; case 11: c.o(GeometricMean(*v)); break; default: c.o(HarmonicMean(*v)); } }); }
OP("stat.describe.positive", SH | HI | IT) { int n = c.i(1, 40); auto v = pv(c, n, 0.1, 5), w = pv(c, n, 0, 2); return inst([=](Ctx& c) { switch (c.i(0, 3)) { case 0: c.o(GeometricMean(*v)); break; case 1: c.o(HarmonicMean(*v)); break; case 2: c.o(WeightedMean(*v, *w)); break; default: c.o(WeightedVariance(*v, *w)); } }); }
OP("stat.correlation", SH | HI | IT) { int n = c.i(2, 24); auto x = pv(c, n), y = pv(c, n); auto m = std::make_shared<Matrix<Real>>(mat(c, n, c.i(1, 4))); return inst([=](Ctx& c) { auto v_m = via(c, m); switch (c.i(0, 6)) { case 0: c.o(Covariance(*x, *y)); break; case 1: c.o(PearsonCorrelation(*x, *y)); break; case 2: { auto r = PearsonCorrelationWithTest(*x, *y); c.o(r.r); c.o(r.tStatistic); c.o(r.degreesOfFreedom); break; } case 3: c.o(RSquared(*x, *y)); break; case 4: c.o(CovarianceMatrix(*v_m)); break; case 5: c.o(CorrelationMatrix(*v_m)); break; default: c.o(PearsonCorrelation(*x, *x)); } }); }
OP("stat.rank", SH | HI | IT) { int n = c.i(3, 24); auto x = pv(c, n), y = pv(c, n); if (c.b()) for (auto& q : *x) q = std::floor(q); return inst([=](Ctx& c) { auto rr = [&](const RankCorrelationResult& r) { c.o(r.rho); c.o(r.zScore); c.o(r.n); c.o(r.IsSignificant()); }; switch (c.i(0, 4)) { case 0: c.o(ComputeRanks(*x)); break; case 1: c.o(SpearmanCorrelation(*x, *y)); break; case 2: rr(SpearmanCorrelationWithTest(*x, *y)); break; case 3: c.o(KendallCorrelation(*x, *y)); break; default: rr(KendallCorrelationWithTest(*x, *y)); } }); }
OP("stat.rank.detailed", SH | HI | IT | TM) { int n = c.i(1, 24); auto x = pv(c, n), y = pv(c, n); return inst([=](Ctx& c) { auto k = sconv(c); auto rr = [&](const RankCorrelationDetailedResult& r) { ev(c, r); if (r.IsSuccess()) { c.fin(r.rho); c.o(r.zScore); } c.o(r.n); }; switch (c.i(0, 3)) { case 0: rr(SpearmanCorrelationDetailed(*x, *y, k)); break; case 1: rr(SpearmanCorrelationWithTestDetailed(*x, *y, k)); break; case 2: rr(KendallCorrelationDetailed(*x, *y, k)); break; default: rr(KendallCorrelationWithTestDetailed(*x, *y, k)); } }); }
static void ht(Ctx& c, const HypothesisTestResult& r) { c.o(r.testStatistic); c.o(r.pValue); c.o(r.criticalValue); c.o(r.rejectNull); c.o(r.degreesOfFreedom); c.o(r.testName); }
static void hd(Ctx& c, const HypothesisTestDetailedResult& r) { ev(c, r); if (r.IsSuccess()) { c.fin(r.testStatistic); c.fin(r.pValue); } c.o(r.criticalValue); c.o(r.rejectNull); c.o(r.degreesOfFreedom); }
OP("stat.test", SH | HI | IT) { int n = c.i(2, 16); auto x = pv(c, n), y = pv(c, n); auto o = pv(c, n, 1, 20), e = pv(c, n, 1, 20); auto t = std::make_shared<Matrix<Real>>(c.i(2, 3), c.i(2, 4)); for (int i = 0; i < t->rows(); ++i) for (int j = 0; j < t->cols(); ++j) (*t)(i, j) = c.in(c.i(1, 30)); auto g = std::make_shared<std::vector<Vector<Real>>>(); for (int i = 0; i < c.i(2, 4); ++i) g->push_back(vec(c, c.i(2, 7)));
    return inst([=](Ctx& c) { double a = c.u(0.01, .2); switch (c.i(0, 6)) { case 0: ht(c, OneSampleTTest(*x, c.u(), a)); break; case 1: ht(c, TwoSampleTTest(*x, *y, a)); break; case 2: ht(c, WelchTTest(*x, *y, a)); break; case 3: ht(c, PairedTTest(*x, *y, a)); break; case 4: ht(c, ChiSquareGoodnessOfFit(*o, *e, a)); break; case 5: ht(c, ChiSquareIndependence(*t, a)); break; default: ht(c, OneWayANOVA(*g, a)); } }); }
OP("stat.test.detailed", SH | HI | IT | TM) { int n = c.i(1, 16); auto x = pv(c, n), y = pv(c, n); auto o = pv(c, n, 1, 20), e = pv(c, n, 1, 20); auto t = std::make_shared<Matrix<Real>>(c.i(1, 3), c.i(2, 4)); for (int i = 0; i < t->rows(); ++i) for (int j = 0; j < t->cols(); ++j) (*t)(i, j) = c.in(c.i(0, 30)); auto g = std::make_shared<std::vector<Vector<Real>>>(); for (int i = 0; i < c.i(1, 4); ++i) g->push_back(vec(c, c.i(1, 7)));
    return inst([=](Ctx& c) { double a = c.u(0.01, .2); auto k = sconv(c); switch (c.i(0, 6)) { case 0: hd(c, OneSampleTTestDetailed(*x, c.u(), a, k)); break; case 1: hd(c, TwoSampleTTestDetailed(*x, *y, a, k)); break; case 2: hd(c, WelchTTestDetailed(*x, *y, a, k)); break; case 3: hd(c, PairedTTestDetailed(*x, *y, a, k)); break; case 4: hd(c, ChiSquareGoodnessOfFitDetailed(*o, *e, a, k)); break; case 5: hd(c, ChiSquareIndependenceDetailed(*t, a, k)); break; default: hd(c, OneWayANOVADetailed(*g, a, k)); } }); }
static void cd(Ctx& c, const ConfidenceIntervalDetailedResult& r) { ev(c, r); if (r.IsSuccess()) { c.fin(r.estimate); c.fin(r.lowerBound); c.fin(r.upperBound); } c.o(r.marginOfError); c.o(r.parameter); }
static void ci(Ctx& c, const ConfidenceInterval& r) { c.o(r.estimate); c.o(r.lowerBound); c.o(r.upperBound); c.o(r.marginOfError); c.o(r.parameter); }
OP("stat.interval", SH | HI | IT | TM) { int n = c.i(1, 16); auto x = pv(c, n), y = pv(c, n); return inst([=](Ctx& c) { double l = c.u(0.5, .999); auto k = sconv(c); int t = c.i(1, 50), s = c.i(0, t); switch (c.i(0, 7)) { case 0: cd(c, ConfidenceIntervalMeanDetailed(*x, l, k)); break; case 1: cd(c, ConfidenceIntervalMeanDifferenceDetailed(*x, *y, l, k)); break; case 2: cd(c, ConfidenceIntervalProportionDetailed(s, t, l, k)); break; case 3: cd(c, ConfidenceIntervalProportionDifferenceDetailed(s, t, t / 2, t, l, k)); break; case 4: cd(c, ConfidenceIntervalPairedDifferenceDetailed(*x, *y, l, k)); break; case 5: ci(c, ConfidenceIntervalMean(*x, l)); break; case 6: ci(c, ConfidenceIntervalMeanDifference(*x, *y, l)); break; default: ci(c, ConfidenceIntervalPairedDifference(*x, *y, l)); } }); }

template <class D> static void dist(Ctx& c, const D& d, double lo, double hi) { double x = c.u(lo, hi); c.o(d.pdf(x)); c.o(d.cdf(x)); c.o(d.inverseCdf(c.u(0.01, .99))); }
OP("dist.continuous", SH | IT | HI) { double a = c.in(c.u(0.3, 4)), b = c.in(c.u(0.3, 4)); auto m = std::make_shared<std::array<double, 2>>(std::array<double, 2>{a, b});
    return inst([=](Ctx& c) { double a = (*m)[0], b = (*m)[1]; switch (c.i(0, 9)) { case 0: dist(c, NormalDistribution(a, b), -3, 6); break; case 1: dist(c, CauchyDistribution(a, b), -3, 6); break; case 2: dist(c, ExponentialDistribution(a), 0, 5); break; case 3: dist(c, LogisticDistribution(a, b), -4, 6); break; case 4: dist(c, UniformDistribution(a, a + b), -1, 8); break; case 5: dist(c, GammaDistribution(a, b), 0.01, 9); break; case 6: dist(c, BetaDistribution(a, b), 0.01, .99); break; case 7: dist(c, WeibullDistribution(a, b), 0.01, 5); break; case 8: dist(c, ParetoDistribution(a, b), b, 3 * b); break; default: { LogNormalDistribution d(a, b); dist(c, d, .1, 9); c.o(d.mean()); c.o(d.variance()); } } }); }
OP("dist.discrete_df", SH | IT) { int a = c.i(1, 30), b = c.i(1, 30); return inst([=](Ctx& c) { double x = c.u(0.01, 9); switch (c.i(0, 3)) { case 0: { TDistribution d(a); c.o(d.pdf(x)); c.o(d.cdf(-x)); c.o(d.inverseCdf(c.u(0.01, .99))); c.o(d.twoTailedPValue(x)); c.o(d.criticalValue(c.u(.01, .5))); break; } case 1: { ChiSquareDistribution d(a); c.o(d.pdf(x)); c.o(d.cdf(x)); c.o(d.rightTailPValue(x)); c.o(d.criticalValue(c.u(.01, .5))); break; } case 2: { FDistribution d(a, b); c.o(d.pdf(x)); c.o(d.cdf(x)); c.o(d.criticalValue(c.u(.01, .5))); break; } default: c.o(StandardNormal::cdf(x)); c.o(StandardNormal::inverseCdf(c.u(.001, .999))); c.o(StandardNormal::twoTailedPValue(x)); } }); }
OP("cheb.approx", SH | CB | IT, 2000) { auto f = rf(c); double a = c.u(-2, -.5), b = c.u(.2, 2); int n = c.i(2, 24); auto A = std::make_shared<ChebyshevApproximation>(*f, a, b, n); return inst([=](Ctx& c) { auto v_A = via(c, A); double x = a + (b - a) * c.u(0, 1); c.o((*v_A)(x)); switch (c.i(0, 4)) { case 0: { auto d = v_A->Derivative(); c.o(d(x)); break; } case 1: { auto d = v_A->Integral(); c.o(d(x)); break; } case 2: c.o(v_A->Eval(x, c.i(1, n))); break; case 3: { ChebyshevApproximation t = *v_A; c.o(t.Truncate(c.u(0, .1))); c.o(t(x)); c.o(t.ToPolynomial()(x)); c.o(t.MaxError(*f, 30)); break; } default: { ChebyshevApproximation t(*f, a, b, c.i(2, 12)); c.o(t(x)); } } }); }
