// Shared generator of fitting problems for spline containers and curves.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <cmath>
struct Fit {
  std::vector<double> t, p;
  double v0 = 0, a0 = 0, vT = 0, aT = 0;
  bool wide = false;                 // spacing beyond [0.1,2]: looser tolerance
  double minDt = 0, maxDt = 0, scale = 0;
  // Residual tolerance of the knots: relative to the size of the trajectory.  Measured residuals are below
  // 1e-9*scale (narrow) and 1e-7*scale (wide); a lost constraint shows up at the order of the scale itself.
  double tol() const { return (wide ? 1e-5 : 1e-7) * scale + 1e-300; }
  void finish(bool vel, bool acc) {
    minDt = maxDt = t[1] - t[0];
    for (size_t i = 1; i < t.size(); ++i) { minDt = std::min(minDt, t[i] - t[i - 1]); maxDt = std::max(maxDt, t[i] - t[i - 1]); }
    scale = 0;
    for (double x : p) scale = std::max(scale, std::fabs(x));
    if (vel) scale = std::max(scale, std::max(std::fabs(v0), std::fabs(vT)) * maxDt);
    if (acc) scale = std::max(scale, std::max(std::fabs(a0), std::fabs(aT)) * maxDt * maxDt);
  }
  void note(pbt::Case& c) const {
    c.noteVec("knot times", t); c.noteVec("knot values", p);
    c.note("v0=%.17g a0=%.17g vT=%.17g aT=%.17g", v0, a0, vT, aT);
  }
};
// maxKnots: upper bound on the number of knots (>=2)
inline Fit genFit(pbt::Case& c, int maxKnots, size_t knots = 0) {
  Fit f;
  size_t n;
  switch (c.pick({300, 450, 200, 48, 2})) {
    case 0: n = 2; break;
    case 1: n = (size_t)c.in(3, std::min(6, maxKnots)); break;
    case 2: n = (size_t)c.in(2, std::min(12, maxKnots)); break;
    case 3: n = (size_t)c.in(2, maxKnots); break;
    default: n = maxKnots >= 10 ? (size_t)c.in(maxKnots, std::max(70, maxKnots)) : 2;       // now and then a long one
  }
  if (knots) n = knots;
  f.wide = c.chance(25);
  if (c.chance(4)) { const double s = c.logReal(2.0, 1000.0); f.wide = true; f.t = c.times(n, 0.1 * s, s); }        // slow motions
  else f.t = f.wide ? c.times(n, 0.01, 5.0) : c.times(n, 0.1, 2.0);
  const int kind = c.pick({70, 10, 10, 10});
  f.p.resize(n);
  if (kind == 0) for (double& x : f.p) x = c.value();
  else if (kind == 1) { double k = c.value(); for (double& x : f.p) x = k; }                      // constant
  else if (kind == 2) { double k = c.value(100.0), m = c.value(100.0); for (size_t i = 0; i < n; ++i) f.p[i] = k + m * (f.t[i] - f.t[0]); }
  else for (size_t i = 0; i < n; ++i) f.p[i] = (double)((i * 7 + (size_t)c.in(0, 1)) % 5);
  const double mul = c.chance(6) ? std::pow(10.0, (double)c.in(-9, 9)) : 1.0;       // other units
  if (mul != 1.0) for (double& x : f.p) x *= mul;
  if (c.chance(70)) { f.v0 = c.value(100.0); f.vT = c.value(100.0); f.a0 = c.value(100.0); f.aT = c.value(100.0); }
  if (mul != 1.0) { f.v0 *= mul; f.vT *= mul; f.a0 *= mul; f.aT *= mul; }
  return f;
}
