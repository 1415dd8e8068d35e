// C08: a fitted scalar curve lives in the absolute time frame of its knots.
#include "pbt.hpp"
#include "gen_fit.hpp"
#include "curves/PolynomialSplineScalarCurve.hpp"
using namespace curves;

const char* const kRule =
    "Case: a scalar curve, fresh, previously fitted or cleared, fitted to 2..15 knots with arbitrary (also negative) start "
    "time, with or without end derivatives; checked at every knot, around the knots, before and after the curve, and its "
    "derivatives against exact differences of its values. Non-trivial: start time not 0 and at least 3 knots not all equal.";

typedef PolynomialSplineQuinticScalarCurve Curve1;
static double val(pbt::Case& c, const Curve1& k, double t) { double v = NAN; c.check(k.evaluate(v, t), "evaluate returned false"); return v; }
static double der(pbt::Case& c, const Curve1& k, double t, unsigned o) { double v = NAN; c.check(k.evaluateDerivative(v, t, o), "evaluateDerivative returned false"); return v; }

// A fit to invalid knots leaves an empty curve.
static void badFit(pbt::Case& c, Curve1& k) {
  if (c.chance(60)) k.fitCurve({-1.0, 2.0, 5.0}, {3.0, 4.0, 9.0});
  Fit g = genFit(c, 6);
  switch (c.pick({30, 20, 30, 20})) {
    case 0: g.t.clear(); g.p.clear(); c.label("fit to no knots"); break;
    case 1: g.t.resize(1); g.p.resize(1); break;
    case 2: { const size_t i = 1 + c.choose(g.t.size() - 1); g.t[i] = g.t[i - 1] - (c.chance(50) ? 0.0 : 1.0); break; }
    default: g.p.push_back(1.0);
  }
  c.note("after a fit to invalid knots");
  if (c.chance(50)) k.fitCurve(g.t, g.p); else k.fitCurve(g.t, g.p, g.v0, g.a0, g.vT, g.aT);
  c.check(k.getMinTime() == k.getMaxTime(), "a curve fitted to invalid knots covers a time range");
  const double t = c.value(10.0);
  c.near(val(c, k, t), 0.0, 0.0, "value after a fit to invalid knots");
  c.near(der(c, k, t, 1), 0.0, 0.0, "velocity after a fit to invalid knots");
  c.near(der(c, k, t, 2), 0.0, 0.0, "acceleration after a fit to invalid knots");
  c.label("invalid fit before");
}

void property(pbt::Case& c) {
  Curve1 k;
  c.check(k.getMinTime() == 0.0 && k.getMaxTime() == 0.0, "a new curve is not at time 0");
  const int before = c.pick({44, 26, 16, 6, 8});
  if (before == 3) { std::vector<SplineOptions> x; for (int i = (int)c.in(0, 3); i-- > 0;) x.emplace_back((double)c.in(1, 16) / 8.0, c.value(10.0), c.value(10.0), 0, 0, 0, 0); k.fitCurve(x); }
  else if (before == 4) badFit(c, k);
  else if (before) { Fit g = genFit(c, 5); k.fitCurve(g.t, g.p, g.v0, g.a0, g.vT, g.aT); }
  if (before == 2) {
    k.clear();
    c.check(k.getMinTime() == 0.0 && k.getMaxTime() == 0.0, "a cleared curve still covers a time range");
    c.near(val(c, k, c.value(10.0)), 0.0, 0.0, "value of a cleared curve");
  }
  Fit f = genFit(c, 15);
  const bool plain = c.chance(40);
  if (plain) f.v0 = f.a0 = f.vT = f.aT = 0;
  f.finish(true, true);
  c.note("%s", before == 0 ? "fresh curve" : before == 1 || before >= 3 ? "refit of a used curve" : "refit of a cleared curve");
  f.note(c);
  if (plain) k.fitCurve(f.t, f.p); else k.fitCurve(f.t, f.p, f.v0, f.a0, f.vT, f.aT);
  if (c.chance(10)) { Curve1 q(k); k.fitCurve({0.0, 1.0}, {5.0, 6.0}); Curve1 r; r.fitCurve({1.0, 2.0, 3.0}, {0.0, 1.0, 0.0}); r = q; k = r; c.label("copied"); }
  const size_t n = f.t.size();
  bool flat = true; for (double x : f.p) flat &= x == f.p[0];
  if (f.t[0] != 0.0 && n >= 3 && !flat) c.nontrivial();
  c.labelIf(plain, "no end derivatives given"); c.labelIf(before == 1, "refit"); c.labelIf(f.t[0] < 0, "negative start time");
  const double span = 1 + std::fabs(f.t.front()) + std::fabs(f.t.back()), tol = f.tol();
  c.check(k.getMinTime() == f.t.front(), "the curve does not start at its first knot time");
  c.near(k.getMaxTime(), f.t.back(), 1e-12 * span * n, "end time of the curve");
  const double d0 = f.minDt, dn = f.minDt;   // residuals scale with the shortest interval
  for (size_t i = 0; i < n; ++i) {
    c.near(val(c, k, f.t[i]), f.p[i], 2 * tol, "value at a knot");
    if (i > 0 && i + 1 < n) {
      const double m = f.minDt, e = 3e-16 * (4 + n) * span;
      for (unsigned o = 1; o <= 2; ++o) {
        const double l = der(c, k, f.t[i] - e, o), r = der(c, k, f.t[i] + e, o), s = o == 1 ? m : m * m;
        c.near(l, r, (o == 1 ? 10 : 100) * tol / s + 1e4 * e / m * (std::fabs(l) + std::fabs(r) + f.scale / s), "derivative jump at an inner knot");
      }
    }
  }
  c.near(der(c, k, f.t.front(), 1), f.v0, 10 * tol / d0, "initial velocity");
  c.near(der(c, k, f.t.front(), 2), f.a0, 100 * tol / d0 / d0, "initial acceleration");
  c.near(der(c, k, k.getMaxTime(), 1), f.vT, 10 * tol / dn, "final velocity");
  c.near(der(c, k, k.getMaxTime(), 2), f.aT, 100 * tol / dn / dn, "final acceleration");
  // outside: frozen at the ends
  for (int q = 0; q < 2; ++q) {
    const double far = c.chance(10) ? 1e12 : 1e3; double lo = f.t.front() - c.logReal(1e-6, far), hi = f.t.back() + c.logReal(1e-6, far);
    if (c.chance(3)) { lo = -HUGE_VAL; hi = HUGE_VAL; }
    c.near(val(c, k, lo), f.p.front(), 2 * tol, "value before the curve");
    c.near(val(c, k, hi), f.p.back(), 2 * tol, "value after the curve");
    c.near(der(c, k, lo, 1), f.v0, 10 * tol / d0, "velocity before the curve");
    c.near(der(c, k, hi, 1), f.vT, 10 * tol / dn, "velocity after the curve");
    c.near(der(c, k, lo, 2), f.a0, 100 * tol / d0 / d0, "acceleration before the curve");
    c.near(der(c, k, hi, 2), f.aT, 100 * tol / dn / dn, "acceleration after the curve");
  }
  // inside a segment the reported derivatives are those of the reported values (exact stencils for degree <= 5)
  for (int q = 0; q < 3; ++q) {
    const size_t i = c.choose(n - 1);
    const double L = f.t[i + 1] - f.t[i], h = L / 8.0 * (0.25 + 0.75 * c.unit()), room = L - 6.2 * h;
    const double t = f.t[i] + 3.1 * h + room * c.unit();
    double y[7], M = f.scale; for (int j = 0; j < 7; ++j) { y[j] = val(c, k, t + (j - 3) * h); M = std::max(M, std::fabs(y[j])); }
    const double v = (-y[0] + 9 * y[1] - 45 * y[2] + 45 * y[4] - 9 * y[5] + y[6]) / (60 * h);
    const double a = (2 * y[0] - 27 * y[1] + 270 * y[2] - 490 * y[3] + 270 * y[4] - 27 * y[5] + 2 * y[6]) / (180 * h * h);
    const double e = 1e-8 + 3e-15 * span / h;   // the second part: rounding of the query times
    c.note("derivative at t=%.17g", t);
    c.near(der(c, k, t, 1), v, e * M / h + 1e-300, "velocity vs differences of values");
    c.near(der(c, k, t, 2), a, e * M / h / h + 1e-300, "acceleration vs differences of values");
  }
  for (unsigned o : {0u, 3u, 4u, 7u, (unsigned)c.in(5, 4294967295ll)}) { double v = 0; c.check(!k.evaluateDerivative(v, f.t[0], o), "an unsupported derivative order was accepted"); }
}
