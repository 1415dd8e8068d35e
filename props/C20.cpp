// C20: periodic Hermite curves are smooth loops.
#include "se3.hpp"
#include "curves/CubicHermiteE3Curve.hpp"
using namespace curves;

const char* const kRule =
    "Case: a loop of 2..10 poses whose last pose repeats the first (times with spacing 0.01..5 s), fitted as a periodic SE3 curve and, positions only, as a periodic E3 curve, on fresh or used curves; checked for "
    "passing through the poses, equal twist at both ends, and for being the same loop when it is cut open at another knot (data rotated by a random number of knots, times shifted by the period). "
    "Non-trivial: at least 4 poses, i.e. 3 different ones, and a loop cut at another knot.";

void property(pbt::Case& c) {
  Poses f = genPoses(c, 10, 2);
  const size_t n = f.t.size();
  f.p[n - 1] = f.p[0]; f.overload = 0; f.d0 = f.dT = Twist6();
  if (c.chance(20)) { auto r = f.p[0].getRotation(); f.p[n - 1].getRotation() = Pose::Rotation(-r.w(), -r.x(), -r.y(), -r.z()); }
  f.note(c);
  const double P = f.t.back() - f.t.front();
  HK a, b; CubicHermiteE3Curve ea, eb;
  if (c.chance(30)) { a.fitCurve({0.0, 1000.0, 2000.0}, {Pose(), Pose(), Pose()}); ea.fitCurve({0.0, 1000.0, 2000.0}, std::vector<Eigen::Vector3d>(3, Eigen::Vector3d::Ones())); c.label("used curve"); }
  else if (c.chance(40)) {      // another fit of the same kind first
    Poses h = genPoses(c, 12, 2); h.p.back() = h.p.front(); std::vector<Eigen::Vector3d> ph; for (auto& p : h.p) ph.push_back(p.getPosition().vector());
    c.note("fitted before:"); h.note(c);
    if (c.chance(60)) { a.fitPeriodicCurve(h.t, h.p); ea.fitPeriodicCurve(h.t, ph); } else { fitPoses(c, a, h); ea.fitCurveWithDerivatives(h.t, ph, Eigen::Vector3d(1, 2, 3), Eigen::Vector3d(-1, 0, 1)); }
    if (c.chance(20)) { a.clear(); ea.clear(); }
    c.label("used curve");
  }
  std::vector<Eigen::Vector3d> pa; for (auto& p : f.p) pa.push_back(p.getPosition().vector());
  std::vector<Key> k1, k2;
  a.fitPeriodicCurve(f.t, f.p, &k1); ea.fitPeriodicCurve(f.t, pa, &k2);
  c.check(k1.size() == n && k2.size() == n && a.size() == (int)n && ea.size() == (int)n, "number of knots of the loop");
  c.check(a.getMinTime() == f.t.front() && a.getMaxTime() == f.t.back() && ea.getMinTime() == f.t.front() && ea.getMaxTime() == f.t.back(), "time range of the loop");
  // cut open at knot j: knots j..n-1 then 1..j one period later
  const size_t j = n > 2 ? 1 + c.choose(n - 2) : 0;
  Poses g;
  for (size_t i = j; i < n; ++i) { g.t.push_back(f.t[i]); g.p.push_back(f.p[i]); }
  for (size_t i = 1; i <= j; ++i) { g.t.push_back(f.t[i] + P); g.p.push_back(f.p[i]); }
  c.note("cut open at knot %zu", j);
  std::vector<Eigen::Vector3d> pb; for (auto& p : g.p) pb.push_back(p.getPosition().vector());
  b.fitPeriodicCurve(g.t, g.p); eb.fitPeriodicCurve(g.t, pb);
  // model: Catmull-Rom through the seam, too
  HModel m; bool seam = false;
  const L dt = ((L)f.t[1] - f.t[0]) + ((L)f.t[n - 1] - f.t[n - 2]);
  const L3 sv = (toL(pa[1]) - toL(pa[n - 2])) / dt;
  m.build(f.t, f.p, Twist6(), Twist6());
  const L3 sw = HModel::slopeW(m.q[n - 2], m.q[1], dt, &seam);
  m.dx.front() = m.dx.back() = sv; m.dw.front() = m.dw.back() = sw; m.ambiguous |= seam;
  auto at = [&](HK& h, CubicHermiteE3Curve& e, double t, Pose* p, Twist6* d, Eigen::Vector3d* x, Eigen::Vector3d* v) {
    c.check(h.evaluate(*p, t) && h.evaluateDerivative(*d, t, 1) && e.evaluate(*x, t) && e.evaluateDerivative(*v, t, 1), "evaluation failed inside the loop");
  };
  Pose p0, p1; Twist6 d0, d1; Eigen::Vector3d x0, x1, v0, v1;
  at(a, ea, f.t.front(), &p0, &d0, &x0, &v0); at(a, ea, f.t.back(), &p1, &d1, &x1, &v1);
  const double s0 = m.scaleX(0) + m.scaleX(n - 2), H0 = std::min((double)m.h(0), (double)m.h(n - 2));
  c.near((d0.getTranslationalVelocity().vector() - d1.getTranslationalVelocity().vector()).norm(), 0, 1e-9 * s0 / H0, "linear velocity jumps at the seam");
  c.near((v0 - v1).norm(), 0, 1e-9 * s0 / H0, "E3 velocity jumps at the seam");
  c.near(dist(sv, d0.getTranslationalVelocity().vector()), 0, 1e-9 * s0 / H0, "linear velocity at the seam vs the slope between its neighbours");
  c.near(dist(sv, v0), 0, 1e-9 * s0 / H0, "E3 velocity at the seam vs the slope between its neighbours");
  if (!m.ambiguous) {
    const double w = (double)(1 + m.omegas(0).size() + m.omegas(n - 2).size());
    if (!m.omegas(0).amb && !m.omegas(n - 2).amb) {
      c.near((d0.getRotationalVelocity().vector() - d1.getRotationalVelocity().vector()).norm(), 0, 1e-7 * w / H0, "angular velocity jumps at the seam");
      c.near(dist(sw, d0.getRotationalVelocity().vector()), 0, 1e-7 * w / H0, "angular velocity at the seam vs the slope between its neighbours");
    }
  }
  for (size_t i = 0; i < n; ++i) {
    Pose p; Twist6 d; Eigen::Vector3d x, v; at(a, ea, f.t[i], &p, &d, &x, &v);
    const double s = m.scaleX(std::min(i, n - 2));
    c.near(dist(m.x[i], p.getPosition().vector()), 0, 1e-9 * s, "position at a knot"); c.near(dist(m.x[i], x), 0, 1e-9 * s, "E3 position at a knot");
    if (!m.ambiguous) c.near(angleBetween(m.q[i], toQ(p.getRotation())), 0, 1e-7, "rotation at a knot");
  }
  for (int k = 0; k < 5; ++k) {
    double t = f.t.front() + P * c.unit();
    const size_t i = m.seg(t);
    if (!(t > f.t[i] && t < f.t[i + 1])) continue;
    const double u = i >= j ? t : t + P;
    if (u > g.t.back() || u < g.t.front()) continue;
    c.note("query %.17g, in the cut loop %.17g", t, u);
    at(a, ea, t, &p0, &d0, &x0, &v0); at(b, eb, u, &p1, &d1, &x1, &v1);
    const double s = m.scaleX(i), H = (double)m.h(i);
    c.near((p0.getPosition().vector() - p1.getPosition().vector()).norm(), 0, 1e-8 * s, "position depends on where the loop is cut open");
    c.near((x0 - x1).norm(), 0, 1e-8 * s, "E3 position depends on where the loop is cut open");
    c.near((d0.getTranslationalVelocity().vector() - d1.getTranslationalVelocity().vector()).norm(), 0, 1e-7 * s / H, "velocity depends on where the loop is cut open");
    c.near((v0 - v1).norm(), 0, 1e-7 * s / H, "E3 velocity depends on where the loop is cut open");
    if (m.ambiguous) { c.label("180 degrees"); continue; }
    const HModel::W w = m.omegas(i); if (w.amb) continue;
    const double z = (double)(1 + w.size());
    c.near(angleBetween(toQ(p0.getRotation()), toQ(p1.getRotation())), 0, 1e-7 * z, "rotation depends on where the loop is cut open");
    c.near((d0.getRotationalVelocity().vector() - d1.getRotationalVelocity().vector()).norm(), 0, 1e-6 * z * z / H, "angular velocity depends on where the loop is cut open");
  }
  if (n >= 4) c.nontrivial();
  c.labelIf(n == 2, "2 poses"); c.labelIf(n == 3, "3 poses"); c.labelIf(n > 6, ">6 poses");
}
