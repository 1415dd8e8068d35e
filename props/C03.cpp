// C03: a fitted container goes through every knot, meets the end conditions and is smooth (C2) at the knots.
#include "pbt.hpp"
#include "gen_fit.hpp"
#include "curves/PolynomialSplineContainer.hpp"
#include "curves/polynomial_splines_containers.hpp"
#include "names.hpp"
using namespace curves;

const char* const kRule =
    "Case: a spline order (cubic, quartic, quintic), 2..70 (now and then up to 150, once per run 300) strictly increasing knot times (spacing 0.01..5 s, now and then up to 1000 s, any start), "
    "knot values, end velocities and accelerations; fitted with the acceleration or the velocity overload into a fresh or "
    "an already used container. Non-trivial: at least 3 knots whose values are not all equal.";

template <int N> static void run(pbt::Case& c, size_t force = 0) {
  const bool huge = force || c.choose(8192) == 8191;
  Fit f = genFit(c, 40, force ? force : huge ? (size_t)c.in(71, N == 3 ? 150 : 90) : 0);
  if (force) { for (size_t i = 0; i < force; ++i) { f.t[i] = 0.5 * i + 0.1 * (i % 3); f.p[i] = (double)((i * 37) % 11) - 5; } f.v0 = 1; f.vT = -2; f.a0 = 3; f.aT = -1; }
  c.labelIf(huge, ">70 knots");
  const size_t n = f.t.size();
  const bool acc = force ? N == 5 : c.chance(60);
  // which constraints a fit of this order can carry (documented dropping rule)
  const bool keepAcc = acc && 4 * (n - 2) + 6 <= (n - 1) * (N + 1);
  f.finish(true, keepAcc);
  c.note("order %d %s overload, %s", N, acc ? "acceleration" : "velocity", keepAcc ? "acceleration kept" : "no end acceleration");
  f.note(c);
  typename Named<N>::Container k;
  if (c.chance(40)) {   // used container: another fit, played back half way
    Fit g = genFit(c, 6);
    k.setData(g.t, g.p, g.v0, g.a0, g.vT, g.aT);
    k.setContainerTime(0.5 * k.getContainerDuration()); k.advance(0.1);
  }
  if (c.chance(15)) {   // the same values and end conditions over other times, in this container or another one
    std::vector<double> t2(f.t); for (size_t i = 1; i < n; ++i) t2[i] = t2[i - 1] + (f.t[i] - f.t[i - 1]) * (c.chance(50) ? 2.0 : 0.5);
    typename Named<N>::Container o, &w = c.chance(50) ? o : k;
    if (acc) w.setData(t2, f.p, f.v0, f.a0, f.vT, f.aT); else w.setData(t2, f.p, f.v0, f.vT);
  }
  const bool ok = acc ? k.setData(f.t, f.p, f.v0, f.a0, f.vT, f.aT) : k.setData(f.t, f.p, f.v0, f.vT);
  c.check(ok, "setData rejected valid knots");
  bool flat = true; for (double x : f.p) flat &= x == f.p[0];
  if (n >= 3 && !flat) c.nontrivial();
  c.labelIf(n == 2, "2 knots"); c.labelIf(n > 12, ">12 knots"); c.labelIf(f.wide, "wide spacing"); c.labelIf(keepAcc, "acceleration constrained");

  const auto& s = k.getSplines();
  if (s.size() != n - 1) c.fail("%zu splines for %zu knots", s.size(), n);
  const double tol = f.tol();
  c.check(k.checkContainer(), "checkContainer() is false after a successful fit");
  c.check(k.getContainerTime() == 0.0, "playback does not start at time 0 after a fit");
  c.near(k.getContainerDuration(), f.t.back() - f.t.front(), 1e-9 * (1 + std::fabs(f.t.front()) + std::fabs(f.t.back())), "container duration");
  for (size_t i = 0; i + 1 < n; ++i) {
    const double d = s[i].getSplineDuration();
    c.near(d, f.t[i + 1] - f.t[i], 1e-12 * (1 + std::fabs(f.t[i + 1]) + std::fabs(f.t[i])), "spline duration");
    c.near(s[i].getPositionAtTime(0), f.p[i], tol, "knot value, start of its spline");
    c.near(s[i].getPositionAtTime(d), f.p[i + 1], tol, "knot value, end of its spline");
    c.near(k.getPositionAtTime(f.t[i] - f.t[0]), f.p[i], 2 * tol, "container position at a knot");
    if (i + 2 < n) {
      const double m = f.minDt;   // residuals scale with the shortest interval
      c.near(s[i].getVelocityAtTime(d), s[i + 1].getVelocityAtTime(0), 10 * tol / m, "velocity jump at an inner knot");
      c.near(s[i].getAccelerationAtTime(d), s[i + 1].getAccelerationAtTime(0), 100 * tol / (m * m), "acceleration jump at an inner knot");
    }
  }
  const double dn = s[n - 2].getSplineDuration(), dm = f.minDt;
  c.near(s[0].getVelocityAtTime(0), f.v0, 10 * tol / dm, "initial velocity");
  c.near(s[n - 2].getVelocityAtTime(dn), f.vT, 10 * tol / dm, "final velocity");
  c.near(k.getEndPosition(), f.p.back(), tol, "end position");
  c.near(k.getEndVelocity(), f.vT, 10 * tol / dm, "end velocity");
  c.near(k.getPositionAtTime(k.getContainerDuration()), f.p.back(), 2 * tol, "container position at its end");
  if (keepAcc) {
    c.near(s[0].getAccelerationAtTime(0), f.a0, 100 * tol / (dm * dm), "initial acceleration");
    c.near(s[n - 2].getAccelerationAtTime(dn), f.aT, 100 * tol / (dm * dm), "final acceleration");
    c.near(k.getEndAcceleration(), f.aT, 100 * tol / (dm * dm), "end acceleration");
  }
}

// Knots as close as double allows: accepted, one spline per interval (accuracy: see the known finding).
template <int N> static void tiny(pbt::Case& c) {
  const size_t n = (size_t)c.in(2, 6); std::vector<double> t(n), p(n);
  t[0] = c.chance(30) ? 0.0 : c.value(1e6);
  for (size_t i = 1; i < n; ++i) t[i] = c.chance(50) ? std::nextafter(t[i - 1], HUGE_VAL) : std::max(std::nextafter(t[i - 1], HUGE_VAL), t[i - 1] + c.logReal(1e-15, 1e-2));
  for (double& x : p) x = c.value(100.0);
  c.label("knots closer than 10 ms"); c.noteVec("knot times", t);
  typename Named<N>::Container k;
  const bool ok = c.chance(50) ? k.setData(t, p, 0.0, 0.0, 0.0, 0.0) : k.setData(t, p, 0.0, 0.0);
  c.check(ok, "setData rejected strictly increasing knot times");
  if (k.getSplines().size() != n - 1) c.fail("%zu splines for %zu knots", k.getSplines().size(), n);
  for (size_t i = 0; i + 1 < n; ++i) c.near(k.getSplines()[i].getSplineDuration(), t[i + 1] - t[i], 1e-12 * (t[i + 1] - t[i]), "spline duration");
}

void property(pbt::Case& c) {
  if (c.choose(1u << 30) == (1u << 30) - 1) { run<3>(c, 300); run<5>(c, 260); return; }     // once per check: hundreds of knots
  if (c.chance(2)) { switch (c.in(3, 5)) { case 3: tiny<3>(c); return; case 4: tiny<4>(c); return; default: tiny<5>(c); return; } }
  switch (c.pick({50, 30, 20})) {
    case 0: c.label("order5"); run<5>(c); break;
    case 1: c.label("order3"); run<3>(c); break;
    default: c.label("order4"); run<4>(c);
  }
}

// Known finding: knots closer than about 1 ms make the (unscaled) linear system numerically singular and the
// fit silently misses its final knot although setData returns true.
static pbt::KnownReg k1("submillisecond-knots", [] {
  PolynomialSplineContainerQuintic k;
  bool ok = k.setData({0.0, 0.0005}, {0.0, 1.0}, 0.0, 0.0, 0.0, 0.0);
  return ok && std::fabs(k.getEndPosition() - 1.0) > 1e-3;
});
