// C05: invalid knot data is rejected, leaves an empty trajectory, and does not disturb later fits.
#include "pbt.hpp"
#include "gen_fit.hpp"
#include "curves/PolynomialSplineContainer.hpp"
#include "curves/polynomial_splines_containers.hpp"
using namespace curves;

const char* const kRule =
    "Case: an order 1..5, one of three setData overloads, an optional earlier valid fit through any overload, then invalid knots (0 or 1 knot, "
    ">= 2 knots with one or more equal, decreasing or NaN times at a chosen index, or more or fewer values than times), then a valid fit through any overload. "
    "Non-trivial: the container held a trajectory before the invalid fit, or the bad interval is not the first one.";

template <int N> static bool set(PolynomialSplineContainer<N>& k, const Fit& f, int o) {
  return o == 6 ? k.setData(f.t, f.p, f.v0, f.a0, f.vT, f.aT) : o == 4 ? k.setData(f.t, f.p, f.v0, f.vT) : k.setData(f.t, f.p);
}

template <int N> static void run(pbt::Case& c) {
  PolynomialSplineContainer<N> k;
  const bool used = c.chance(60);
  if (used) {
    Fit g = genFit(c, 6);
    c.check(set<N>(k, g, c.pick({60, 20, 20}) * 2 + 2), "setData rejected valid knots");
    c.check(!k.isEmpty(), "container empty after a successful fit");
    if (c.chance(50)) k.setContainerTime(k.getContainerDuration() * c.unit());
  }
  const int o = c.pick({34, 33, 33}) * 2 + 2;
  Fit bad;
  size_t at = 0;
  const int kind = c.pick({15, 20, 55, 10});
  if (kind == 0) { c.label("no knots"); }
  else if (kind == 1) { bad = genFit(c, 2); bad.t.resize(1); bad.p.resize(1); c.label("one knot"); }
  else if (kind == 3) {
    bad = genFit(c, 8);
    const size_t n = bad.t.size(); size_t m = c.chance(20) ? 0 : c.chance(40) ? n - 1 : (size_t)c.in(0, 2 * (int64_t)n);
    if (m == n) m = n + 1;
    bad.p.resize(m, 1.0); bad.p.shrink_to_fit(); c.label("more or fewer values than times");
    at = m;
  } else {
    bad = genFit(c, 200);
    const size_t n = bad.t.size();
    at = c.choose(n - 1);
    switch (c.pick({40, 30, 15, 15, 10, 5, 3})) {
      case 6: at = std::min(at, n - 2); for (size_t i = at; i < n; ++i) bad.t[i] = HUGE_VAL; c.label("repeated infinite time"); break;
      case 0: { // equal neighbours (keep the rest increasing)
        const double d = bad.t[at + 1] - bad.t[at];
        for (size_t i = at + 1; i < n; ++i) bad.t[i] -= d;
        bad.t[at + 1] = bad.t[at];
        c.label("equal neighbours"); break;
      }
      case 1: std::swap(bad.t[at], bad.t[at + 1]); c.label("swapped neighbours"); break;
      case 5: bad.t[at + 1] = std::nextafter(bad.t[at], -DBL_MAX); c.label("decreasing by one ulp"); break;
      case 4: at = c.choose(n); bad.t[at] = std::nan(""); c.label("NaN time"); break;
      case 2: std::reverse(bad.t.begin(), bad.t.end()); c.label("reversed"); at = 0; break;
      default: for (double& x : bad.t) x = bad.t[0]; c.label("all equal"); at = 0; break;
    }
  }
  c.note("order %d, %d-argument overload, container %s", N, o, used ? "used" : "fresh");
  bad.note(c);
  if (used || at > 0) c.nontrivial();
  c.check(!set<N>(k, bad, o), "setData accepted invalid knots");
  auto empty = [&]() {
    c.check(k.isEmpty() && k.getSplines().empty(), "a rejected fit left splines in the container");
    c.check(k.getContainerDuration() == 0.0, "a rejected fit left a non-zero duration");
    c.check(k.getContainerTime() == 0.0, "a rejected fit left a non-zero container time");
    const double t = c.value(10.0);
    c.check(k.getPositionAtTime(t) == 0.0 && k.getVelocityAtTime(t) == 0.0 && k.getAccelerationAtTime(t) == 0.0, "empty container does not evaluate to 0");
    c.check(k.getPosition() == 0.0 && k.getVelocity() == 0.0 && k.getAcceleration() == 0.0, "empty container does not play back 0");
    c.check(k.getEndPosition() == 0.0 && k.getEndVelocity() == 0.0 && k.getEndAcceleration() == 0.0, "empty container does not end at 0");
    double off = 3.0; c.check(k.getActiveSplineIndexAtTime(t, off) == -1, "empty container has an active spline");
    c.check(!k.advance(0.1), "empty container advanced");
  };
  empty();
  Fit f = genFit(c, 6);
  const int o2 = c.pick({50, 25, 25}) * 2 + 2;
  c.check(set<N>(k, f, o2), "setData rejected valid knots after a rejected fit");
  PolynomialSplineContainer<N> fresh;
  set<N>(fresh, f, o2);
  c.check(k.getContainerTime() == 0.0, "a fit after a rejected fit does not start at time 0");
  c.check(k.getContainerDuration() == fresh.getContainerDuration(), "a fit after a rejected fit has another duration than a fresh fit");
  c.check(k.getSplines().size() == fresh.getSplines().size(), "a fit after a rejected fit has extra splines");
  for (int q = 0; q < 4; ++q) {
    const double t = (f.t.back() - f.t.front()) * c.unit();
    c.check(k.getPositionAtTime(t) == fresh.getPositionAtTime(t) && k.getVelocityAtTime(t) == fresh.getVelocityAtTime(t) && k.getAccelerationAtTime(t) == fresh.getAccelerationAtTime(t),
            "a fit after a rejected fit differs from a fresh fit");
  }
  if (c.chance(30)) { k.reset(); empty(); }
}

void property(pbt::Case& c) {
  switch (c.in(1, 5)) {
    case 1: c.label("order1"); run<1>(c); break;
    case 2: c.label("order2"); run<2>(c); break;
    case 3: c.label("order3"); run<3>(c); break;
    case 4: c.label("order4"); run<4>(c); break;
    default: c.label("order5"); run<5>(c);
  }
}
