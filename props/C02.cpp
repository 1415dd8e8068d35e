// C02: evaluation is the polynomial of the stored coefficients, frozen outside [0,duration],
// and the time vectors used to build fits describe the same polynomial.
#include "pbt.hpp"
#include "curves/polynomial_splines.hpp"
#include <limits>
using namespace curves;

const char* const kRule =
    "Case: an order 1..5, arbitrary coefficients, a duration (incl. 0) and a query time inside, at, or outside the "
    "duration (incl. +-infinity), plus a time-vector query through one of the dense, mapped-block or Ref-taking helpers. "
    "Non-trivial: at least two non-zero coefficients and a query time other than 0.";

template <int N> static void run(pbt::Case& c) {
  typedef PolynomialSpline<N> S;
  typename S::SplineCoefficients a;
  int nz = 0;
  for (auto& x : a) { x = c.value(); nz += x != 0; }
  double T = c.pick({20, 60, 5, 15}) == 0 ? 1.0 : c.chance(5) ? 0.0 : c.chance(15) ? c.logReal(1e-9, 1e6) : c.logReal(1e-3, 100.0);
  S s;
  {   // a spline without data is the zero polynomial of zero duration
    const double u = c.chance(50) ? 0.0 : c.value(10.0);
    c.check(s.getSplineDuration() == 0.0, "a default-constructed spline has a duration");
    c.check(s.getPositionAtTime(u) == 0.0 && s.getVelocityAtTime(u) == 0.0 && s.getAccelerationAtTime(u) == 0.0, "a default-constructed spline is not zero");
  }
  switch (c.pick({35, 25, 25, 5, 5, 5})) {
    case 0: s = S(a, T); break;
    case 1: {
      if (c.chance(50)) { typename S::SplineCoefficients z; for (auto& x : z) x = c.value(10.0); s.setCoefficientsAndDuration(z, c.logReal(0.1, 10.0)); }
      s.setCoefficientsAndDuration(a, T); break;
    }
    case 3: { const S o(a, T); S q(o); s = q; break; }                                    // copies
    case 4: { S o(a, T); S q(std::move(o)); s = std::move(q); break; }
    case 5: { s = S(a, T + 1.0); std::vector<S> v; for (int i = 0; i < 3; ++i) v.push_back(i == 1 ? S(a, T) : s); s = v[1]; break; }
    default: {   // through the mutable coefficient accessor
      typename S::SplineCoefficients z; for (auto& x : z) x = 1.0;
      s = S(z, T); *s.getCoefficientsPtr() = a;
    }
  }
  double t;
  switch (c.pick({15, 45, 10, 10, 10, 5, 5, 8, 8, 4})) {
    case 0: t = 0.0; break;
    case 1: t = T * c.unit(); break;
    case 2: t = T; break;
    case 3: t = -c.logReal(1e-9, 1e3); break;
    case 4: t = T + c.logReal(1e-9, 1e3); break;
    case 5: t = std::numeric_limits<double>::infinity(); break;
    case 7: t = T * (1.0 - c.logReal(1e-15, 1e-1)); break;              // just inside
    case 8: t = T * c.logReal(1e-15, 1e-1); break;
    case 9: t = std::nextafter(c.chance(50) ? T : 0.0, c.chance(50) ? HUGE_VAL : -HUGE_VAL); break;
    default: t = -std::numeric_limits<double>::infinity();
  }
  c.note("order %d T=%.17g t=%.17g", N, T, t);
  c.noteVec("coefficients(high to low)", std::vector<double>(a.begin(), a.end()));
  if (nz >= 2 && t != 0.0) c.nontrivial();
  c.labelIf(t < 0, "before start"); c.labelIf(t > T, "after end"); c.labelIf(t == T, "at end");
  c.check(s.getCoefficients() == a, "stored coefficients differ from the given ones");
  c.check(s.getSplineDuration() == T, "stored duration differs from the given one");

  const long double x = t < 0 ? 0.0 : t > T ? T : t;   // frozen outside
  long double pw[N + 3]; pw[0] = 1; for (int i = 1; i <= N; ++i) pw[i] = pw[i - 1] * x;
  long double p = 0, v = 0, w = 0, mp = 0, mv = 0, mw = 0;
  for (int i = 0; i <= N; ++i) {
    const long double k = a[N - i];
    p += k * pw[i]; mp += fabsl(k * pw[i]);
    if (i >= 1) { const long double d = k * i * pw[i - 1]; v += d; mv += fabsl(d); }
    if (i >= 2) { const long double d = k * i * (i - 1) * pw[i - 2]; w += d; mw += fabsl(d); }
  }
  const double e = 1e-13;
  c.near(s.getPositionAtTime(t), (double)p, e * (double)mp, "position");
  c.near(s.getVelocityAtTime(t), (double)v, e * (double)mv, "velocity");
  c.near(s.getAccelerationAtTime(t), (double)w, e * (double)mw, "acceleration");

  // Time vectors: no freezing, defined for every finite tk (also negative).
  const double tk = c.chance(20) ? c.value(100.0) : (std::isinf(t) ? T : t);
  long double q[N + 1]; q[0] = 1; for (int i = 1; i <= N; ++i) q[i] = q[i - 1] * tk;
  typedef typename S::EigenTimeVectorType Row;
  Row ref[3], ref0[3];
  for (int i = 0; i <= N; ++i) {
    ref[0](N - i) = (double)q[i];
    ref[1](N - i) = i >= 1 ? (double)(i * q[i - 1]) : 0.0;
    ref[2](N - i) = i >= 2 ? (double)(i * (i - 1) * q[i - 2]) : 0.0;
    ref0[0](N - i) = i == 0; ref0[1](N - i) = i == 1; ref0[2](N - i) = i == 2 ? 2.0 : 0.0;
  }
  auto same = [&](const Row& got, const Row& want, const char* what, const double extra = 0) {
    for (int i = 0; i <= N; ++i)
      if (!(std::fabs(got(i) - want(i)) <= 1e-14 * (std::fabs(want(i)) + extra)))
        c.fail("%s at tk=%.17g: entry of power %d is %.17g, expected %.17g", what, tk, N - i, got(i), want(i));
  };
  Row base; for (int i = 0; i <= N; ++i) base(i) = (double)c.in(-3, 3);
  Eigen::MatrixXd M = Eigen::MatrixXd::Constant(3, 2 * (N + 1), 7.0);
  const int r = (int)c.in(0, 2), col = (int)c.in(0, N + 1);
  auto blk = M.block<1, N + 1>(r, col);
  auto others = [&]() { for (int i = 0; i < M.rows(); ++i) for (int j = 0; j < M.cols(); ++j)
      if (!(i == r && j >= col && j <= col + N)) c.check(M(i, j) == 7.0, "time vector helper wrote outside the given block"); };
  Row g = Row::Constant(5.0);
  S::getTimeVector(Eigen::Ref<Row>(g), tk); same(g, ref[0], "getTimeVector(Ref)");
  S::getTimeVector(g, tk); same(g, ref[0], "getTimeVector");
  S::getTimeVector(blk, tk); same(blk, ref[0], "getTimeVector(block)");
  S::getDTimeVector(g, tk); same(g, ref[1], "getDTimeVector");
  S::getDDTimeVector(g, tk); same(g, ref[2], "getDDTimeVector");
  S::getDiffTimeVector(blk, tk); same(blk, ref[1], "getDiffTimeVector");
  S::getDDiffTimeVector(blk, tk); same(blk, ref[2], "getDDiffTimeVector");
  S::getTimeVectorAtZero(Eigen::Ref<Row>(g)); same(g, ref0[0], "getTimeVectorAtZero(Ref)");
  S::getTimeVectorAtZero(blk); same(blk, ref0[0], "getTimeVectorAtZero");
  S::getDTimeVectorAtZero(g); same(g, ref0[1], "getDTimeVectorAtZero");
  S::getDDTimeVectorAtZero(g); same(g, ref0[2], "getDDTimeVectorAtZero");
  S::getDiffTimeVectorAtZero(blk); same(blk, ref0[1], "getDiffTimeVectorAtZero");
  S::getDDiffTimeVectorAtZero(blk); same(blk, ref0[2], "getDDiffTimeVectorAtZero");
  auto sum = [&](const Row& x) { Row y = base + x; return y; };
  blk = base; S::addTimeVector(blk, tk); same(blk, sum(ref[0]), "addTimeVector", 3.0);
  blk = base; S::addDiffTimeVector(blk, tk); same(blk, sum(ref[1]), "addDiffTimeVector", 3.0);
  blk = base; S::addDDiffTimeVector(blk, tk); same(blk, sum(ref[2]), "addDDiffTimeVector", 3.0);
  blk = base; S::addTimeVectorAtZero(blk); same(blk, sum(ref0[0]), "addTimeVectorAtZero", 3.0);
  blk = base; S::addDiffTimeVectorAtZero(blk); same(blk, sum(ref0[1]), "addDiffTimeVectorAtZero", 3.0);
  blk = base; S::addDDiffTimeVectorAtZero(blk); same(blk, sum(ref0[2]), "addDDiffTimeVectorAtZero", 3.0);
  others();
}

void property(pbt::Case& c) {
  switch (c.in(1, 5)) {
    case 1: c.label("order1"); run<1>(c); break;
    case 2: c.label("order2"); run<2>(c); break;
    case 3: c.label("order3"); run<3>(c); break;
    case 4: c.label("order4"); run<4>(c); break;
    default: c.label("order5"); run<5>(c);
  }
}
