// C09: fitting a scalar curve to a list of spline options chains them from time 0.
#include "pbt.hpp"
#include "gen_fit.hpp"
#include "curves/PolynomialSplineScalarCurve.hpp"
using namespace curves;

const char* const kRule =
    "Case: 0..12 spline options (duration and 6 boundary values each, neighbours not necessarily continuous) fitted into a "
    "fresh, used or cleared scalar curve; compared at the joints, inside every piece and outside with the closed-form "
    "quintic of each piece. Non-trivial: at least 2 pieces with different durations.";

struct In { double T, p0, pT, v0, vT, a0, aT; };
static long double quintic(const In& in, long double x, int der) {
  const long double T = in.T, p0 = in.p0, v0 = in.v0 * T, a0 = in.a0 * T * T, d = in.pT - p0, r = d - v0 - a0 / 2, q = in.vT * T - v0 - a0, w = in.aT * T * T - a0;
  const long double k[6] = {p0, v0, a0 / 2, 10 * r - 4 * q + w / 2, -15 * r + 7 * q - w, 6 * r - 3 * q + w / 2};
  long double s = 0; x /= T;
  for (int i = 5; i >= der; --i) { long double m = 1; for (int j = 0; j < der; ++j) m *= i - j; s = s * x + m * k[i]; }
  for (int j = 0; j < der; ++j) s /= T;
  return s;
}

void property(pbt::Case& c) {
  PolynomialSplineQuinticScalarCurve k;
  const int before = c.pick({40, 25, 20, 15});
  if (before == 1) { Fit g = genFit(c, 5); k.fitCurve(g.t, g.p); }
  if (before == 2) { std::vector<SplineOptions> x; x.emplace_back(1.5, 1, 2, 0, 0, 0, 0); x.emplace_back(0.25, 2, 1, 0, 0, 0, 0); k.fitCurve(x); }
  if (before == 3) { Fit g = genFit(c, 5); k.fitCurve(g.t, g.p); k.clear(); }
  const size_t n = c.chance(3) ? 0 : c.chance(10) ? (size_t)c.in(1, c.chance(4) ? 150 : 12) : (size_t)c.in(1, 4);
  std::vector<In> in(n); std::vector<SplineOptions> o;
  bool differ = false;
  for (size_t i = 0; i < n; ++i) {
    In& x = in[i];
    x.T = c.chance(60) ? (double)c.in(1, 32) / 8.0 : c.chance(90) ? c.logReal(0.01, 20.0) : c.logReal(1e-4, 1e3);
    x.p0 = c.value(100.0); x.pT = c.value(100.0); x.v0 = c.value(100.0); x.vT = c.value(100.0); x.a0 = c.value(100.0); x.aT = c.value(100.0);
    if (c.chance(15)) for (double* z : {&x.p0, &x.pT, &x.v0, &x.vT, &x.a0, &x.aT}) if (c.chance(80)) *z = 0.0;      // at rest at zero, or nearly
    if (i && c.chance(60)) { x.p0 = in[i - 1].pT; x.v0 = in[i - 1].vT; x.a0 = in[i - 1].aT; }
    if (i) differ |= x.T != in[i - 1].T;
    o.emplace_back(x.T, x.p0, x.pT, x.v0, x.vT, x.a0, x.aT);
    c.note("piece %zu: T=%.17g p %.17g->%.17g v %.17g->%.17g a %.17g->%.17g", i, x.T, x.p0, x.pT, x.v0, x.vT, x.a0, x.aT);
  }
  c.note("curve before: %d", before);
  k.fitCurve(o);
  if (n >= 2 && differ) c.nontrivial();
  c.labelIf(n == 0, "empty list"); c.labelIf(before != 0, "used curve"); c.labelIf(n >= 2, "chained");
  double D = 0; for (auto& x : in) D += x.T;
  c.check(k.getMinTime() == 0.0, "the curve does not start at 0");
  c.near(k.getMaxTime(), D, 1e-12 * (1 + D), "end time of the curve");
  if (!n) { double v = 1; c.check(k.evaluate(v, 0.5) && v == 0.0, "a curve without pieces is not 0"); return; }
  double t0 = 0;
  for (size_t i = 0; i < n; ++i) {
    const In& x = in[i];
    const double S = std::max({std::fabs(x.p0), std::fabs(x.pT), std::fabs(x.v0) * x.T, std::fabs(x.vT) * x.T, std::fabs(x.a0) * x.T * x.T, std::fabs(x.aT) * x.T * x.T});
    for (int q = 0; q < 4; ++q) {
      // inside, and a hair after the start / before the end (joints themselves belong to one neighbour or the other)
      const double e = 1e-10 * (1 + D), loc = q == 0 ? e : q == 1 ? x.T - e : e + (x.T - 2 * e) * c.unit();
      double v[3];
      c.check(k.evaluate(v[0], t0 + loc) && k.evaluateDerivative(v[1], t0 + loc, 1) && k.evaluateDerivative(v[2], t0 + loc, 2), "evaluation failed");
      double s = 1; const char* what[3] = {"value", "velocity", "acceleration"};
      for (int d = 0; d < 3; ++d, s /= x.T) {
        const double tol = (1e-8 + 1e-11 * (1 + D) / x.T) * S * s * 10 + 1e-300;
        if (!(std::fabs(v[d] - (double)quintic(x, loc, d)) <= tol))
          c.fail("%s in piece %zu at local time %.17g (t=%.17g): got %.17g, expected %.17g (tol %.3g)", what[d], i, loc, t0 + loc, v[d], (double)quintic(x, loc, d), tol);
      }
    }
    t0 += x.T;
  }
  const In& l = in.back(); double v;
  const double S = std::max({std::fabs(l.p0), std::fabs(l.pT), std::fabs(l.v0) * l.T, std::fabs(l.vT) * l.T, std::fabs(l.a0) * l.T * l.T, std::fabs(l.aT) * l.T * l.T});
  c.check(k.evaluate(v, D + c.logReal(1e-6, 1e3)), "evaluation failed");
  c.near(v, l.pT, 1e-8 * S, "value after the last piece");
  const In& b = in.front();
  const double S0 = std::max({std::fabs(b.p0), std::fabs(b.pT), std::fabs(b.v0) * b.T, std::fabs(b.vT) * b.T, std::fabs(b.a0) * b.T * b.T, std::fabs(b.aT) * b.T * b.T});
  c.check(k.evaluate(v, -c.logReal(1e-6, 1e3)), "evaluation failed");
  c.near(v, b.p0, 1e-8 * S0, "value before the first piece");
}
