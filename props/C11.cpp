// C11: metamorphic: fits commute with time shifts and with linear combinations of the data.
#include "pbt.hpp"
#include "gen_fit.hpp"
#include "curves/PolynomialSplineScalarCurve.hpp"
#include "curves/PolynomialSplineContainer.hpp"
using namespace curves;

const char* const kRule =
    "Case: 2..12 dyadic knot times (anywhere up to 2^40 s, also at epoch-like clock values), two sets of knot data, factors a and b, and a dyadic time shift; the curve fitted to "
    "shifted knots must be the shifted curve, the curve fitted to a*p+b*q must be a times the one of p plus b times the one of "
    "q (values, velocities, accelerations; container of order 3, 4, 5 and scalar curve), and refitting must be reproducible. "
    "Non-trivial: at least 3 knots, shift not 0, a and b not 0.";

// a multiple of 1/8, so that shifted times, their differences and the queries stay exact in double
static double dyadic(pbt::Case& c) {
  switch (c.pick({60, 20, 20})) {
    case 0: return (double)c.in(-8000, 8000) / 8.0;
    case 1: return (double)c.in(1400000000ll * 8, 1800000000ll * 8) / 8.0;
    default: return (c.chance(50) ? -1.0 : 1.0) * std::floor(c.logReal(1e3, 1e12)) + (double)c.in(0, 7) / 8.0;
  }
}
struct Obs { double v[3]; };
struct Data { std::vector<double> p; double e[4]; };

static Data genData(pbt::Case& c, size_t n) {
  Data d; d.p.resize(n);
  for (double& x : d.p) x = c.value(1e3);
  for (double& x : d.e) x = c.chance(60) ? c.value(50.0) : 0.0;
  return d;
}
// kind 0: scalar curve; 3,4,5: container of that order.  q: times relative to the first knot
template <class K> static void contObs(pbt::Case& c, K& k, const std::vector<double>& t, const Data& d, const std::vector<double>& q, std::vector<Obs>& r) {
  c.check(k.setData(t, d.p, d.e[0], d.e[1], d.e[2], d.e[3]), "setData rejected valid knots");
  for (double x : q) r.push_back(Obs{{k.getPositionAtTime(x), k.getVelocityAtTime(x), k.getAccelerationAtTime(x)}});
}
static std::vector<Obs> observe(pbt::Case& c, int kind, const std::vector<double>& t, const Data& d, const std::vector<double>& q) {
  std::vector<Obs> r;
  if (kind == 0) {
    PolynomialSplineQuinticScalarCurve k; k.fitCurve(t, d.p, d.e[0], d.e[1], d.e[2], d.e[3]);
    for (double x : q) { Obs o; k.evaluate(o.v[0], t[0] + x); k.evaluateDerivative(o.v[1], t[0] + x, 1); k.evaluateDerivative(o.v[2], t[0] + x, 2); r.push_back(o); }
  } else if (kind == 5) { PolynomialSplineContainer<5> k; contObs(c, k, t, d, q, r); }
  else if (kind == 4) { PolynomialSplineContainer<4> k; contObs(c, k, t, d, q, r); }
  else { PolynomialSplineContainer<3> k; contObs(c, k, t, d, q, r); }
  return r;
}
void property(pbt::Case& c) {
  const int kinds[4] = {0, 5, 4, 3}; const int kind = kinds[c.pick({40, 25, 15, 20})];
  const size_t n = (size_t)c.in(2, c.chance(20) ? c.chance(2) ? 40 : 12 : 6);
  std::vector<double> t(n); t[0] = c.chance(10) ? dyadic(c) : (double)c.in(-80, 80) / 8.0;
  for (size_t i = 1; i < n; ++i) t[i] = t[i - 1] + (double)c.in(1, 16) / 8.0;
  const double D = t.back() - t.front();
  Data p = genData(c, n), q = genData(c, n), s = p;
  const double a = c.chance(30) ? 1.0 : c.value(10.0), b = c.chance(30) ? 1.0 : c.value(10.0), shift = dyadic(c);
  for (size_t i = 0; i < n; ++i) s.p[i] = a * p.p[i] + b * q.p[i];
  for (int i = 0; i < 4; ++i) s.e[i] = a * p.e[i] + b * q.e[i];
  std::vector<double> x; for (int i = 0; i < 8; ++i) x.push_back(std::floor(D * 64 * c.unit()) / 64.0);
  x.push_back(0); x.push_back(D); x.push_back(-0.5); x.push_back(D + 0.5);
  c.note("kind %d a=%.17g b=%.17g shift=%.17g", kind, a, b, shift); c.noteVec("t", t); c.noteVec("p", p.p); c.noteVec("q", q.p);
  if (n >= 3 && shift != 0 && a != 0 && b != 0) c.nontrivial();
  c.labelIf(kind == 0, "scalar curve"); c.labelIf(kind == 5, "order5"); c.labelIf(kind == 4, "order4"); c.labelIf(kind == 3, "order3");
  double m = D; for (size_t i = 1; i < n; ++i) m = std::min(m, t[i] - t[i - 1]);
  auto size = [&](const Data& d) { double z = 0; for (double y : d.p) z = std::max(z, std::fabs(y)); return std::max({z, std::fabs(d.e[0]) * 2, std::fabs(d.e[2]) * 2, std::fabs(d.e[1]) * 4, std::fabs(d.e[3]) * 4}); };
  if (c.chance(20)) { std::vector<double> u(t); for (size_t i = 0; i < n; ++i) u[i] = t[0] + 2 * (t[i] - t[0]); observe(c, kind, u, c.chance(50) ? p : s, x); c.label("after a fit of the same data over other times"); }
  auto P = observe(c, kind, t, p, x), Q = observe(c, kind, t, q, x), S = observe(c, kind, t, s, x);
  const double tol = 1e-7 * (std::fabs(a) * size(p) + std::fabs(b) * size(q)) + 1e-300;
  const char* what[3] = {"value", "velocity", "acceleration"}; const double sc[3] = {1, 10 / m, 100 / m / m};
  for (size_t i = 0; i < x.size(); ++i) for (int d = 0; d < 3; ++d) {
    const double w = a * P[i].v[d] + b * Q[i].v[d];
    const double mag = std::fabs(a * P[i].v[d]) + std::fabs(b * Q[i].v[d]);
    if (!(std::fabs(S[i].v[d] - w) <= tol * sc[d] + 1e-7 * mag)) c.fail("superposition: %s at %.17g after the start is %.17g, expected %.17g", what[d], x[i], S[i].v[d], w);
  }
  std::vector<double> u(t); for (double& y : u) y += shift;
  auto R = observe(c, kind, u, p, x);
  const double tp = 1e-9 * size(p) + 1e-300;
  for (size_t i = 0; i < x.size(); ++i) for (int d = 0; d < 3; ++d)
    if (!(std::fabs(R[i].v[d] - P[i].v[d]) <= tp * sc[d] + 1e-9 * std::fabs(P[i].v[d]))) c.fail("time shift: %s at %.17g after the start is %.17g, expected %.17g", what[d], x[i], R[i].v[d], P[i].v[d]);
}
