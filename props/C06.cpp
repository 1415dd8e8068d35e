// C06: looking a container up by time evaluates the right spline at the right local time.
#include "pbt.hpp"
#include "contmodel.hpp"
#include "curves/PolynomialSplineContainer.hpp"
#include "curves/polynomial_splines_containers.hpp"
using namespace curves;

const char* const kRule =
    "Case: an order 1..5 and 0..60 splines with unrelated coefficients (so a wrong spline is visible) and durations (dyadic "
    "= exact boundaries, also 0, or arbitrary), appended one by one; then 12 query times: breakpoints, one ulp "
    "around them, inside, before and after; in 2 of 5 cases the playback position is moved between additions and lookups. Non-trivial: at least 2 splines.";

template <int N> static void run(pbt::Case& c) {
  typedef PolynomialSplineContainer<N> K; typedef typename K::SplineType S;
  K k; ContModel m; m.exact = c.chance(50);
  const size_t n = c.pick({5, 75, 15, 5}) == 0 ? 0 : c.chance(10) ? (size_t)c.in(1, c.chance(4) ? 400 : 60) : (size_t)c.in(1, 8);
  if (c.chance(20)) k.reserveSplines((unsigned)c.in(0, 20));
  const bool playing = c.chance(40);   // playback must not matter to lookups
  auto play = [&]() {
    switch (c.pick({50, 35, 15})) {
      case 0: { const double t = genContTime(c, m); c.note("setContainerTime %.17g", t); k.setContainerTime(t); break; }
      case 1: { const double d = (double)c.in(-8, 24) / 8.0; c.note("advance %.17g", d); k.advance(d); break; }
      default: c.note("resetTime"); k.resetTime();
    }
  };
  if (c.chance(15)) {
    for (int i = (int)c.in(1, 5); i-- > 0;) k.addSpline(toSpline<S>(genSeg(c, N, true, false)));
    if (c.chance(70)) k.setContainerTime((double)c.in(-8, 80) / 8.0);
    if (c.chance(50)) k.getPositionAtTime((double)c.in(-8, 80) / 8.0);
    k.reset(); c.note("reset after use"); c.label("reset before");
  }
  for (size_t i = 0; i < n; ++i) {
    Seg g = genSeg(c, N, m.exact, true);
    c.note("spline %zu duration %.17g", i, g.d);
    S sp = toSpline<S>(g);
    const bool ok = c.chance(50) ? k.addSpline(sp) : k.addSpline(std::move(sp));
    c.check(ok, "addSpline returned false");
    m.s.push_back(g);
    if (playing && c.chance(15)) play();
    if (c.chance(3)) m.expect(c, k.getVelocityAtTime(0.5), 0.5, 1, "getVelocityAtTime between two additions");
  }
  if (n >= 2) c.nontrivial();
  c.labelIf(m.exact, "exact boundaries"); c.labelIf(n > 8, ">8 splines"); c.labelIf(n == 0, "empty");
  c.check(k.isEmpty() == (n == 0), "isEmpty");
  if (k.getSplines().size() != n) c.fail("%zu splines stored, %zu added", k.getSplines().size(), n);
  c.near(k.getContainerDuration(), (double)m.duration(), m.exact ? 0.0 : 1e-12 * (1 + (double)m.duration()), "container duration");
  for (size_t i = 0; i < n; ++i) {
    c.check(k.getSpline((int)i)->getSplineDuration() == m.s[i].d, "stored spline has another duration");
    for (int j = 0; j <= N; ++j) c.check(k.getSpline((int)i)->getCoefficients()[j] == m.s[i].a[j], "stored spline has other coefficients");
  }
  if (n) {
    const Seg& l = m.s.back(); long double mg; const double d = l.d; double want;
    want = (double)ContModel::poly(l, d, 0, mg); c.near(k.getEndPosition(), want, 1e-12 * (double)mg + 1e-300, "end position");
    want = (double)ContModel::poly(l, d, 1, mg); c.near(k.getEndVelocity(), want, 1e-12 * (double)mg + 1e-300, "end velocity");
    want = (double)ContModel::poly(l, d, 2, mg); c.near(k.getEndAcceleration(), want, 1e-12 * (double)mg + 1e-300, "end acceleration");
  }
  if (playing && n) c.label("playback between lookups");
  for (int q = 0; q < 12; ++q) {
    if (playing && c.chance(40)) play();
    double t = m.exact && c.chance(3) ? (c.chance(50) ? -1.0 : 1.0) * (c.chance(50) ? HUGE_VAL : c.logReal(1e6, 1e18)) : genContTime(c, m);
    if (m.exact && c.chance(6)) t = std::nextafter(t, c.chance(50) ? HUGE_VAL : -HUGE_VAL);
    c.note("query %.17g", t);
    m.expect(c, k.getPositionAtTime(t), t, 0, "getPositionAtTime");
    m.expect(c, k.getVelocityAtTime(t), t, 1, "getVelocityAtTime");
    m.expect(c, k.getAccelerationAtTime(t), t, 2, "getAccelerationAtTime");
    double off = 12345.0; const int i = k.getActiveSplineIndexAtTime(t, off);
    if (!n) { c.check(i == -1, "empty container has an active spline"); continue; }
    auto a = m.active(t);
    if (std::find(a.begin(), a.end(), (size_t)i) == a.end()) c.fail("active spline at t=%.17g is %d, expected %zu", t, i, a[0]);
    c.near(off, (double)m.offset(i), m.exact ? 0.0 : 1e-12 * (1 + (double)m.duration()), "time offset of the active spline");
  }
}

void property(pbt::Case& c) {
  switch (c.in(1, 5)) {
    case 1: run<1>(c); break;
    case 2: run<2>(c); break;
    case 3: run<3>(c); break;
    case 4: run<4>(c); break;
    default: run<5>(c);
  }
}
