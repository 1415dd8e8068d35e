// C18: cubic Hermite curves over rigid transformations.
#include "se3.hpp"
using namespace curves;

const char* const kRule =
    "Case: an SE3 Hermite curve, fresh, used or cleared, fitted to 0..16 poses at strictly increasing times (spacing 0.01..5 s, now and then 1e-6..1e4 s) with or without end twists; pose, "
    "twist and linear acceleration at knots, inside, next to and outside are compared with an independent long-double model (angular velocity by a fourth-order difference "
    "of the model's rotation). Relative rotations within 1e-5 rad of 180 degrees have two right answers and are skipped. Non-trivial: at least 3 poses with different rotations and a query strictly inside.";

void property(pbt::Case& c) {
  HK k;
  c.check(k.isEmpty() && k.size() == 0, "a new curve is not empty");
  const int before = c.pick({45, 40, 15});
  if (before) { Poses g = genPoses(c, 5); c.note("fitted before:"); g.note(c); fitPoses(c, k, g); }
  if (before == 2) { k.clear(); c.check(k.isEmpty() && k.size() == 0, "a cleared curve is not empty"); }
  const Poses f = genPoses(c, 16, 0, true);
  const size_t n = f.t.size();
  c.note("fit %d on a %s curve", f.overload, before == 0 ? "fresh" : before == 1 ? "used" : "cleared"); f.note(c);
  fitPoses(c, k, f);
  c.check(k.size() == (int)n && k.isEmpty() == (n == 0), "size after a fit (earlier contents must be gone)");
  std::vector<Time> kt{1.0, 2.0}; k.getCurveTimes(&kt); c.check(kt == f.t, "knot times of the curve");
  if (n) { c.check(k.getMinTime() == f.t.front(), "first time"); c.check(k.getMaxTime() == f.t.back(), "last time"); }
  const HModel m(f);
  c.labelIf(n == 0, "empty"); c.labelIf(n == 1, "one knot"); c.labelIf(n > 6, ">6 knots"); c.labelIf(before == 1, "used curve"); c.labelIf(f.overload == 1, "end twists"); c.labelIf(m.ambiguous, "180 degrees");
  std::vector<double> q(f.t.begin(), f.t.begin() + std::min<size_t>(n, 6));
  if (n > 6) q.push_back(f.t.back());
  for (int i = 0; i < 6; ++i) q.push_back(c.queryTime(f.t));
  if (c.chance(10) || n == 0) q.push_back(0.0);
  bool inner = false;
  for (double t : q) {
    Pose p(Pose::Position(7, 7, 7), Pose::Rotation(0, 1, 0, 0)); Twist6 d; kindr::Acceleration3D a;
    c.note("query %.17g", t);
    const bool ok = k.evaluate(p, t), ok1 = k.evaluateDerivative(d, t, 1), ok2 = k.evaluateLinearAcceleration(a, t);
    const bool want = n > 0 && t >= f.t.front() && t <= f.t.back();
    if (ok != want || ok1 != want) c.fail("evaluation at %.17g %s", t, want ? "failed inside the curve" : "succeeded outside the curve");
    if (n != 1 && ok2 != want) c.fail("acceleration at %.17g %s", t, want ? "failed inside the curve" : "succeeded outside the curve");
    if (!want) continue;
    const Q r = toQ(p.getRotation());
    c.near((double)sqrtl(r.w * r.w + r.v.squaredNorm()), 1.0, 1e-9, "norm of the quaternion");
    if (n == 1) {
      c.check(p.getPosition() == f.p[0].getPosition(), "position of a one-knot curve"); c.near(angleBetween(r, m.q[0]), 0, 1e-9, "rotation of a one-knot curve");
      c.check(d.getVector() == f.d0.getVector(), "derivative of a one-knot curve"); continue;
    }
    const size_t i = m.seg(t);
    inner |= n >= 3 && t > f.t[i] && t < f.t[i + 1];
    const double sx = m.scaleX(i), H = (double)m.h(i);
    L3 x, v, ax, y; m.pos(i, t, &x, &v, &ax);
    c.near(dist(x, p.getPosition().vector()), 0, 1e-11 * sx, "distance of the position from the Hermite cubic");
    c.near(dist(v, d.getTranslationalVelocity().vector()), 0, 1e-10 * sx / H, "error of the linear velocity");
    bool okA = dist(ax, a.vector()) <= 1e-9 * sx / H / H;
    if (!okA && t == f.t[i] && i > 0) {      // the acceleration may jump at an inner knot: either side
      L3 x2, v2, a2; m.pos(i - 1, t, &x2, &v2, &a2); const double G = (double)m.h(i - 1);
      okA = dist(a2, a.vector()) <= 1e-9 * m.scaleX(i - 1) / G / G;
    }
    if (!okA) c.fail("linear acceleration at %.17g: got %.17g %.17g %.17g, expected %.17g %.17g %.17g", t, a.x(), a.y(), a.z(), (double)ax[0], (double)ax[1], (double)ax[2]);
    // knots: pose and derivative are given, whatever the branch of the logarithm
    for (size_t j = i; j <= i + 1; ++j) if (t == f.t[j]) {
      c.near(angleBetween(r, m.q[j]), 0, 1e-8 * (1 + (double)(m.dw[j].norm() * m.h(i))), "rotation error at a knot");
    }
    if (m.ambiguous) continue;
    const HModel::W w = m.omegas(i);
    if (w.amb) { c.label("180 degrees"); continue; }
    const double s = (double)(1 + w.size());
    c.near(angleBetween(r, m.rot(i, w, t)), 0, 1e-9 * s, "angle from the Hermite rotation");
    c.near(dist(m.angVel(i, w, t), d.getRotationalVelocity().vector()), 0, 1e-8 * s / H, "error of the angular velocity");
    for (size_t j = i; j <= i + 1; ++j) if (t == f.t[j]) c.near(dist(m.dw[j], d.getRotationalVelocity().vector()), 0, 1e-8 * s / H, "error of the angular velocity at a knot");
  }
  if (n >= 3 && inner && angleBetween(m.q[0], m.q[1]) > 1e-3 && angleBetween(m.q[1], m.q[2]) > 1e-3) c.nontrivial();
  if (n) { Twist6 d; for (unsigned o : {0u, 2u, 3u}) c.check(!k.evaluateDerivative(d, f.t[0], o), "an unsupported derivative order was accepted"); }
}
