// C04: when an order cannot carry the requested constraints the fit still passes through every knot.
#include "pbt.hpp"
#include "gen_fit.hpp"
#include "curves/PolynomialSplineContainer.hpp"
#include "curves/polynomial_splines_containers.hpp"
#include "names.hpp"
using namespace curves;

const char* const kRule =
    "Case: an order 1..5 and one of the three setData overloads chosen so that the container has to fall back to the "
    "piecewise linear fit (order 1/2 with any overload, every order with the plain overload), 2..300 knots, fresh or used "
    "container, plus query times. Non-trivial: at least 3 knots with unequal values.";

template <int N> static void run(pbt::Case& c, int overload) {
  Fit f = genFit(c, 300);
  if (c.chance(4)) {   // intervals as short as double allows
    c.label("very short intervals"); if (c.chance(50)) { const double o = f.t[0]; for (double& x : f.t) x -= o; }
    for (size_t i = 1; i < f.t.size(); ++i) { const double d = c.chance(40) ? c.logReal(1e-18, 1e-2) : f.t[i] - f.t[i - 1]; f.t[i] = std::max(std::nextafter(f.t[i - 1], HUGE_VAL), f.t[i - 1] + d); }
  }
  f.finish(false, false);
  c.note("order %d, %d-argument overload", N, overload);
  f.note(c);
  const size_t n = f.t.size();
  typename Named<N>::Container k;
  if (c.chance(30)) { Fit g = genFit(c, 5); k.setData(g.t, g.p); k.setContainerTime(0.7 * k.getContainerDuration()); }
  bool ok;
  if (overload == 6) ok = k.setData(f.t, f.p, f.v0, f.a0, f.vT, f.aT);
  else if (overload == 4) ok = k.setData(f.t, f.p, f.v0, f.vT);
  else ok = k.setData(f.t, f.p);
  c.check(ok, "setData rejected valid knots");
  bool flat = true; for (double x : f.p) flat &= x == f.p[0];
  if (n >= 3 && !flat) c.nontrivial();
  c.labelIf(n > 30, ">30 knots");
  if (k.getSplines().size() != n - 1) c.fail("%zu splines for %zu knots", k.getSplines().size(), n);
  c.check(k.getContainerTime() == 0.0, "playback does not start at time 0 after a fit");
  const double span = 1 + std::fabs(f.t.front()) + std::fabs(f.t.back());
  c.near(k.getContainerDuration(), f.t.back() - f.t.front(), 1e-9 * span, "container duration");
  double slope = 0;
  for (size_t i = 1; i < n; ++i) slope = std::max(slope, std::fabs((f.p[i] - f.p[i - 1]) / (f.t[i] - f.t[i - 1])));
  const double tol = 1e-9 * (f.scale + slope * span) + 1e-300;
  for (size_t i = 0; i + 1 < n; ++i) {
    const auto& s = k.getSplines()[i];
    c.near(s.getPositionAtTime(0), f.p[i], tol, "knot value, start of its spline");
    c.near(s.getPositionAtTime(s.getSplineDuration()), f.p[i + 1], tol, "knot value, end of its spline");
  }
  std::vector<double> rel(n); for (size_t i = 0; i < n; ++i) rel[i] = f.t[i] - f.t[0];
  for (int q = 0; q < 8; ++q) {
    const double t = c.queryTime(rel);
    size_t i = 0; while (i + 2 < n && t >= rel[i + 1]) ++i;
    const double x = t < 0 ? 0 : t > rel.back() ? rel.back() : t;
    const double m = (f.p[i + 1] - f.p[i]) / (f.t[i + 1] - f.t[i]);
    c.note("query t=%.17g", t);
    c.near(k.getPositionAtTime(t), f.p[i] + m * (x - rel[i]), tol, "linear interpolation");
    bool nearKnot = false; for (double r : rel) nearKnot |= std::fabs(t - r) < 1e-9 * span;
    if (!nearKnot) {
      c.near(k.getVelocityAtTime(t), m, 1e-9 * std::fabs(m) + 1e-300, "linear velocity");
      c.near(k.getAccelerationAtTime(t), 0.0, 0.0, "linear acceleration");
    }
  }
}

void property(pbt::Case& c) {
  const int o = c.pick({40, 30, 30});
  switch (c.in(1, 5)) {
    case 1: c.label("order1"); run<1>(c, o == 0 ? 2 : o == 1 ? 4 : 6); break;
    case 2: c.label("order2"); run<2>(c, o == 0 ? 2 : o == 1 ? 4 : 6); break;
    case 3: c.label("order3"); run<3>(c, 2); break;
    case 4: c.label("order4"); run<4>(c, 2); break;
    default: c.label("order5"); run<5>(c, 2);
  }
}
