// C17: cubic Hermite curves in three-dimensional space.
#include "pbt.hpp"
#include "curves/CubicHermiteE3Curve.hpp"
using namespace curves;
typedef CubicHermiteE3Curve K; typedef Eigen::Vector3d V;

const char* const kRule =
    "Case: an E3 Hermite curve, fresh, used, or cleared, fitted to 0..20 strictly increasing knots (spacing 0.01..5 s, now and then 1e-6..1e4 s, any start time) with or without end "
    "derivatives; value, velocity and acceleration at knots, inside, next to and outside the knots are compared with an independent long-double Hermite cubic "
    "with Catmull-Rom inner slopes. Non-trivial: at least 3 knots, first knot not at time 0 and a query strictly inside an interval.";

static V vec(pbt::Case& c, double big) { double x = c.value(big), y = c.value(big), z = c.value(big); return V(x, y, z); }
struct Data { std::vector<double> t; std::vector<V> p; V d0 = V::Zero(), dT = V::Zero(); int overload = 0; };
static Data gen(pbt::Case& c, int maxKnots) {
  Data f; size_t n;
  switch (c.pick({600, 200, 80, 55, 60, 5})) { case 0: n = c.in(3, 6); break; case 1: n = 2; break; case 2: n = 1; break; case 3: n = c.in(2, maxKnots); break; case 4: n = 0; break; default: n = c.in(maxKnots, 15 * maxKnots); }
  f.t = c.chance(8) ? c.times(n, 1e-6, 1e4) : c.times(n, 0.01, 5.0);
  const double mul = c.chance(6) ? std::pow(10.0, (double)c.in(-9, 9)) : 1.0;
  const V far = c.chance(4) ? V(vec(c, 10) * 1e6) : V(0, 0, 0);      // map coordinates
  for (size_t i = 0; i < n; ++i) f.p.push_back(vec(c, 1e3) * mul + far);
  f.overload = c.pick({30, 55, 15});
  if (f.overload == 1) { f.d0 = vec(c, 100) * mul; f.dT = vec(c, 100) * mul; }
  return f;
}
static void fit(pbt::Case& c, K& k, const Data& f) {
  std::vector<Key> keys;
  if (f.overload == 0) k.fitCurve(f.t, f.p, &keys);
  else if (f.overload == 1) k.fitCurveWithDerivatives(f.t, f.p, f.d0, f.dT, &keys);
  else k.fitCurveWithDerivatives(f.t, f.p);
  if (f.overload != 2) c.check(keys.size() == f.t.size(), "number of keys reported by the fit");
}
void property(pbt::Case& c) {
  K k;
  c.check(k.isEmpty() && k.size() == 0, "a new curve is not empty");
  const int before = c.pick({45, 40, 15});
  if (before) { Data g = gen(c, 6); c.note("fitted before:"); c.noteVec("times", g.t); fit(c, k, g); }
  if (before == 2) { k.clear(); c.check(k.isEmpty() && k.size() == 0, "a cleared curve is not empty"); }
  Data f = gen(c, 20);
  const size_t n = f.t.size();
  c.note("fit %d on a %s curve", f.overload, before == 0 ? "fresh" : before == 1 ? "used" : "cleared"); c.noteVec("knot times", f.t);
  for (size_t i = 0; i < n && c.verbose(); ++i) c.note("knot %zu: %.17g %.17g %.17g", i, f.p[i].x(), f.p[i].y(), f.p[i].z());
  c.note("initial derivative %.17g %.17g %.17g final %.17g %.17g %.17g", f.d0.x(), f.d0.y(), f.d0.z(), f.dT.x(), f.dT.y(), f.dT.z());
  fit(c, k, f);
  c.check(k.size() == (int)n && k.isEmpty() == (n == 0), "size after a fit (earlier contents must be gone)");
  if (n) { c.check(k.getMinTime() == f.t.front(), "first time"); c.check(k.getMaxTime() == f.t.back(), "last time"); }
  std::vector<V> d(n);
  for (size_t i = 0; i < n; ++i) d[i] = i == 0 ? f.d0 : i + 1 == n ? f.dT : V((f.p[i + 1] - f.p[i - 1]) / (f.t[i + 1] - f.t[i - 1]));
  c.labelIf(n == 0, "empty"); c.labelIf(n == 1, "one knot"); c.labelIf(n > 6, ">6 knots"); c.labelIf(before == 1, "used curve"); c.labelIf(f.overload == 1, "end derivatives");
  std::vector<double> q(f.t.begin(), f.t.begin() + std::min<size_t>(n, 8));
  if (n > 8) q.push_back(f.t.back());
  for (int i = 0; i < 10; ++i) q.push_back(c.queryTime(f.t));
  if (c.chance(10) || n == 0) q.push_back(0.0);
  bool inner = false;
  for (double t : q) {
    V v(7, 7, 7), w(7, 7, 7), a(7, 7, 7), a2(7, 7, 7);
    c.note("query %.17g", t);
    const bool ok = k.evaluate(v, t), ok1 = k.evaluateDerivative(w, t, 1), ok2 = k.evaluateDerivative(a, t, 2), ok3 = k.evaluateLinearAcceleration(a2, t);
    const bool want = n > 0 && t >= f.t.front() && t <= f.t.back();
    if (ok != want || ok1 != want) c.fail("evaluation at %.17g %s", t, want ? "failed inside the curve" : "succeeded outside the curve");
    if (ok2 != (want && n > 1) || ok3 != ok2) { if (n != 1 || !want || ok2 != ok3) c.fail("acceleration at %.17g %s", t, want ? "failed inside the curve" : "succeeded outside the curve"); }
    if (!want) continue;
    if (n == 1) { c.check(v == f.p[0], "value of a one-knot curve"); c.check(w == f.d0, "derivative of a one-knot curve"); continue; }
    size_t i = 0; while (i + 2 < n && f.t[i + 1] <= t) ++i;
    inner |= n >= 3 && t > f.t[i] && t < f.t[i + 1];
    // bracket to the right of t, and at an inner knot also the one to the left (acceleration jumps there)
    std::string bad;
    for (size_t s = (i > 0 && t == f.t[i]) ? 2 : 1; s-- > 0;) {
      const size_t j = i - s;
      const long double h = (long double)f.t[j + 1] - f.t[j], x = ((long double)t - f.t[j]) / h;
      bad.clear();
      for (int m = 0; m < 3; ++m) {
        const long double A = f.p[j](m), B = f.p[j + 1](m), D = d[j](m) * h, E = d[j + 1](m) * h;
        // monomial form a0 + a1 x + a2 x^2 + a3 x^3 of the Hermite cubic
        const long double c2 = 3 * (B - A) - 2 * D - E, c3 = 2 * (A - B) + D + E;
        const double rv = A + x * (D + x * (c2 + x * c3)), rw = (D + x * (2 * c2 + 3 * x * c3)) / h, ra = (2 * c2 + 6 * c3 * x) / (h * h);
        const double sc = 1e-11 * (std::fabs((double)A) + std::fabs((double)B) + std::fabs((double)D) + std::fabs((double)E)) + 1e-300;
        char b[256];
        auto cmp = [&](const char* what, double got, double exp, double tol) {
          if (bad.empty() && !(std::fabs(got - exp) <= tol)) { snprintf(b, sizeof b, "%s, axis %d at time %.17g: got %.17g, expected %.17g", what, m, t, got, exp); bad = b; }
        };
        cmp("value", v(m), rv, sc); cmp("velocity", w(m), rw, 10 * sc / (double)h);
        cmp("acceleration", a(m), ra, 100 * sc / (double)(h * h)); cmp("linear acceleration", a2(m), ra, 100 * sc / (double)(h * h));
      }
      if (bad.empty()) break;
    }
    if (!bad.empty()) c.fail("%s", bad.c_str());
  }
  if (n >= 3 && f.t[0] != 0.0 && inner) c.nontrivial();
  V v; for (unsigned o : {0u, 3u}) if (n) c.check(!k.evaluateDerivative(v, f.t[0], o), "an unsupported derivative order was accepted");
}
