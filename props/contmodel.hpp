// Independent model of a piecewise polynomial container.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <vector>

struct Seg { std::vector<double> a; double d; };   // coefficients high to low, duration

struct ContModel {
  std::vector<Seg> s;
  bool exact = true;     // durations are small dyadics: boundary decisions are exact
  long double duration() const { long double x = 0; for (auto& g : s) x += g.d; return x; }
  std::vector<double> breaks() const { std::vector<double> b{0.0}; double x = 0; for (auto& g : s) b.push_back(x += g.d); return b; }
  long double offset(size_t i) const { long double x = 0; for (size_t k = 0; k < i; ++k) x += s[k].d; return x; }
  double eps(double t) const { return exact ? 0.0 : 1e-12 * (1 + (double)duration() + std::fabs(t)); }
  // Segments that may be the active one at time t (more than one only within rounding of a boundary).
  std::vector<size_t> active(double t) const {
    std::vector<size_t> r; const long double e = eps(t);
    auto idx = [&](long double x) { long double o = 0; for (size_t i = 0; i < s.size(); ++i) { if (x - o < s[i].d) return i; if (i + 1 < s.size()) o += s[i].d; } return s.size() - 1; };
    size_t lo = idx(t - e), hi = idx(t + e);
    for (size_t i = lo; i <= hi; ++i) r.push_back(i);
    return r;
  }
  static long double poly(const Seg& g, long double x, int der, long double& mag) {
    if (x < 0) x = 0; if (x > g.d) x = g.d;
    long double v = 0, pw = 1; const int n = (int)g.a.size() - 1; mag = 0;
    for (int i = der; i <= n; ++i) { long double k = 1; for (int j = 0; j < der; ++j) k *= i - j; const long double m = g.a[n - i] * k * pw; v += m; mag += fabsl(m); pw *= x; }
    return v;
  }
  // got must be the der-th derivative at container time t (time frozen outside the container).
  void expect(pbt::Case& c, double got, double t, int der, const char* what) const {
    if (s.empty()) { c.near(got, 0.0, 0.0, what); return; }
    std::string alt; char b[160];
    for (size_t i : active(t)) {
      long double mag, m2; const long double x = (long double)t - offset(i);
      const long double w = poly(s[i], x, der, mag);
      long double lip = 0; for (int k = der + 1; k < (int)s[i].a.size(); ++k) { poly(s[i], x, k, m2); lip += m2; }
      const double tol = 1e-12 * (double)mag + (exact ? 0.0 : 1e-12 * (1 + std::fabs(t) + (double)duration())) * (double)lip + 1e-300;
      if (std::fabs(got - (double)w) <= tol) return;
      snprintf(b, sizeof b, " %.17g (spline %zu)", (double)w, i); alt += b;
    }
    c.fail("%s at t=%.17g: got %.17g, expected%s", what, t, got, alt.c_str());
  }
};

// Random segment of the given order.
inline Seg genSeg(pbt::Case& c, int order, bool exact, bool zero = false) {      // zero: durations may be 0
  Seg g; g.a.resize(order + 1);
  for (double& x : g.a) x = exact ? (double)c.in(-8, 8) : c.value(100.0);
  if (exact) g.d = zero && c.chance(3) ? 0.0 : (double)c.in(1, 24) / 8.0;
  else g.d = c.spacing(0.01, 10.0);
  return g;
}
template <class Spline> Spline toSpline(const Seg& g) {
  typename Spline::SplineCoefficients a; std::copy(g.a.begin(), g.a.end(), a.begin());
  return Spline(a, g.d);
}
// Query time; in exact mode always a small dyadic so that comparisons with boundaries are exact.
inline double genContTime(pbt::Case& c, const ContModel& m) {
  auto b = m.breaks();
  if (!m.exact) return c.queryTime(b);
  switch (c.pick({50, 30, 10, 10, 12})) {
    case 0: return c.of(b);
    case 4: return c.of(b) + std::ldexp(c.chance(50) ? -1.0 : 1.0, -(int)c.in(8, 30));     // close to a boundary, sums stay exact
    case 1: return std::floor(b.back() * 16.0 * c.unit()) / 16.0;
    case 2: return b.back() + (double)c.in(0, 64) / 16.0;
    default: return -(double)c.in(0, 64) / 16.0;
  }
}
