// C07: playback: after any history the current state is the trajectory at the current time.
#include "pbt.hpp"
#include "contmodel.hpp"
#include "curves/PolynomialSplineContainer.hpp"
#include "curves/polynomial_splines_containers.hpp"
#include <memory>
using namespace curves;

const char* const kRule =
    "Case: a history of 1..60 operations (append a spline, advance by 0 .. several splines (also backwards), jump to a time, restart, clear, "
    "refit through knots, also with end derivatives or invalid ones, copy and assign the container, replace coefficients in place) on a container of order 1..5, checked against an independent model after "
    "every step. Non-trivial: the history advances over a spline boundary, or appends after time has moved.";

template <int N> static void run(pbt::Case& c) {
  typedef PolynomialSplineContainer<N> K; typedef typename K::SplineType S;
  std::unique_ptr<K> kp(new K); ContModel m; m.exact = c.chance(60);
  double t = 0.0;
  const int ops = c.chance(15) ? (int)c.in(10, c.chance(4) ? 400 : 60) : (int)c.in(1, 15);
  bool crossed = false, late = false;
  c.note("order %d, %s durations", N, m.exact ? "dyadic" : "arbitrary");
  for (int i = 0; i < ops; ++i) {
    K& k = *kp;
    switch (c.pick({30, 40, 12, 5, 3, 5, 5, 3, 2, 3})) {
      case 0: {
        Seg g = genSeg(c, N, m.exact);
        c.note("append spline of duration %.17g", g.d);
        late |= t > 0 && !m.s.empty();
        c.check(k.addSpline(toSpline<S>(g)), "addSpline returned false");
        m.s.push_back(g); break;
      }
      case 1: {
        double dt;
        switch (c.pick({40, 25, 15, 15, 5, 8})) {
          case 5: dt = c.chance(40) && t > 0 ? -(t - c.of(m.breaks())) : m.exact ? -(double)c.in(1, 96) / 16.0 : -c.logReal(1e-3, 20.0); if (dt > 0) dt = -dt; c.label("negative step"); break;
          case 0: dt = m.exact ? (double)c.in(0, 32) / 16.0 : c.logReal(1e-3, 2.0); break;
          case 1: dt = m.exact ? (double)c.in(0, 160) / 16.0 : c.real(0, 20.0); break;
          case 2: { auto b = m.breaks(); double x = c.of(b) - t; dt = x > 0 ? x : 0.0; break; }       // exactly to a boundary
          case 3: dt = m.s.empty() ? 1.0 : c.of(m.s).d; break;
          default: dt = 0.0;
        }
        const double D = (double)m.duration();
        const bool end = m.s.empty() || t >= D;
        const bool fuzzy = !m.exact && !m.s.empty() && std::fabs(t - D) <= 1e-9 * (1 + D);
        auto b0 = m.s.empty() ? 0 : m.active(t)[0];
        const bool r = k.advance(dt);
        c.note("advance(%.17g) -> %d", dt, (int)r);
        if (!fuzzy) c.check(r == !end, end ? "advance past the end reported success" : "advance before the end reported failure");
        if (r) t += dt;
        crossed |= !m.s.empty() && m.active(t)[0] != b0;
        break;
      }
      case 2: {
        const double x = genContTime(c, m);
        c.note("jump to %.17g", x);
        k.setContainerTime(x); t = x; break;
      }
      case 3: c.note("restart"); c.check(k.resetTime(), "resetTime returned false"); t = 0; break;
      case 4: c.note("clear"); c.check(k.reset(), "reset returned false"); t = 0; m.s.clear(); break;
      case 5: {
        const size_t n = (size_t)c.in(2, 5); std::vector<double> kt(n), kv(n);
        kt[0] = (double)c.in(-4, 4); for (size_t j = 1; j < n; ++j) kt[j] = kt[j - 1] + (double)c.in(1, 8) / 4.0;
        for (double& v : kv) v = (double)c.in(-5, 5);
        c.note("refit"); c.noteVec("times", kt); c.noteVec("values", kv);
        if (N >= 2 && c.chance(30)) {      // with end derivatives: the splines of the same fit into a new container
          const double e[4] = {(double)c.in(-2, 2), (double)c.in(-2, 2), (double)c.in(-2, 2), (double)c.in(-2, 2)}; const bool acc = c.chance(50); K o;
          c.check(acc ? k.setData(kt, kv, e[0], e[1], e[2], e[3]) && o.setData(kt, kv, e[0], e[1], e[2], e[3]) : k.setData(kt, kv, e[0], e[2]) && o.setData(kt, kv, e[0], e[2]), "setData rejected valid knots");
          m.s.clear(); t = 0;
          for (auto& x : o.getSplines()) m.s.push_back(Seg{std::vector<double>(x.getCoefficients().begin(), x.getCoefficients().end()), x.getSplineDuration()});
          break;
        }
        c.check(k.setData(kt, kv), "setData rejected valid knots");
        m.s.clear();
        for (size_t j = 0; j + 1 < n; ++j) { Seg g; g.a.assign(N + 1, 0.0); g.d = kt[j + 1] - kt[j]; g.a[N] = kv[j]; g.a[N - 1] = (kv[j + 1] - kv[j]) / g.d; m.s.push_back(g); }
        t = 0; break;
      }
      case 7: {
        c.note("assign to a container in use"); std::unique_ptr<K> q(new K);
        for (int j = (int)c.in(0, 3); j-- > 0;) q->addSpline(toSpline<S>(genSeg(c, N, m.exact)));
        q->setContainerTime(q->getContainerDuration() * 0.5); *q = *kp;
        if (c.chance(50)) { kp->reset(); kp->addSpline(toSpline<S>(genSeg(c, N, m.exact))); kp->advance(0.25); }      // the original lives on, differently
        kp = std::move(q); break;
      }
      case 8: {
        c.note("rejected refit"); std::vector<double> kt{0.0, 1.0, 1.0}, kv{1.0, 2.0, 3.0};
        c.check(!(c.chance(50) ? k.setData(kt, kv) : k.setData(kt, kv, 0.0, 0.0)), "setData accepted invalid knots"); m.s.clear(); t = 0; break;
      }
      case 9: {
        if (m.s.empty()) break;
        const size_t j = c.choose(m.s.size()); Seg g = genSeg(c, N, m.exact); g.d = m.s[j].d;
        c.note("replace the coefficients of spline %zu", j);
        *k.getSpline((int)j)->getCoefficientsPtr() = toSpline<S>(g).getCoefficients(); m.s[j] = g; break;
      }
      default: { c.note("copy"); std::unique_ptr<K> q(new K(*kp)); kp = std::move(q); break; }
    }
    K& q = *kp;
    c.check(q.getContainerTime() == t, "container time does not follow the history");
    const double D = (double)m.duration();
    c.near(q.getContainerDuration(), D, m.exact ? 0.0 : 1e-12 * (1 + D), "container duration");
    c.check(q.isEmpty() == m.s.empty(), "isEmpty");
    m.expect(c, q.getPosition(), t, 0, "current position");
    m.expect(c, q.getVelocity(), t, 1, "current velocity");
    m.expect(c, q.getAcceleration(), t, 2, "current acceleration");
    if (!m.s.empty()) {
      const int a = q.getActiveSplineIndex(); auto ok = m.active(t);
      const bool done = t >= D - m.eps(t) && (size_t)a == m.s.size();   // "past the last spline" once finished
      if (!done && std::find(ok.begin(), ok.end(), (size_t)a) == ok.end())
        c.fail("active spline at t=%.17g is %d, expected %zu", t, a, ok[0]);
    }
  }
  if (crossed || late) c.nontrivial();
  c.labelIf(crossed, "advanced over a boundary"); c.labelIf(late, "appended after time moved"); c.labelIf(m.exact, "exact boundaries");
}

void property(pbt::Case& c) {
  switch (c.pick({35, 25, 24, 8, 8})) {
    case 0: run<1>(c); break;
    case 1: run<5>(c); break;
    case 3: run<2>(c); break;
    case 4: run<4>(c); break;
    default: run<3>(c);
  }
}
