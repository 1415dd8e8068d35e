// C19: Hermite curves are independent of the coordinate frame, of the sign of the quaternions, and of the time axis.
#include "se3.hpp"
#include "curves/CubicHermiteE3Curve.hpp"
using namespace curves;

const char* const kRule =
    "Case: 2..10 poses with end twists, and the same data seen from another frame (random rigid transformation on the left), on another time axis (shifted and scaled by powers of two) "
    "and with the signs of random quaternions flipped; both SE3 curves are queried at corresponding times inside and outside and must correspond, in pose and twist. The positions alone go "
    "through E3 curves the same way. Relative rotations within 1e-5 rad of 180 degrees are skipped. Non-trivial: at least 3 poses, a frame that is rotated, and a query strictly inside.";

void property(pbt::Case& c) {
  Poses f = genPoses(c, 10, 2); f.overload = 1;
  const size_t n = f.t.size();
  const Pose T(Pose::Position(genVec(c, 1e3)), genRot(c));
  const double s = std::ldexp(1.0, c.chance(90) ? (int)c.in(-3, 3) : (int)c.in(-10, 10)), o = (double)c.in(-800, 800) / 8;
  c.note("frame: position %.17g %.17g %.17g, quaternion %.17g %.17g %.17g %.17g; time -> %.17g * time + %.17g", T.getPosition().x(), T.getPosition().y(), T.getPosition().z(), T.getRotation().w(),
         T.getRotation().x(), T.getRotation().y(), T.getRotation().z(), s, o);
  f.note(c);
  const Q R = normalized(toQ(T.getRotation()));
  auto rot = [&](const Eigen::Vector3d& v) { return Eigen::Vector3d(qrot(R, toL(v)).cast<double>()); };
  auto app = [&](const Pose& p) { const Q q = normalized(mul(R, toQ(p.getRotation()))); const Eigen::Vector3d v = q.v.cast<double>();
    return Pose(Pose::Position(rot(p.getPosition().vector()) + T.getPosition().vector()), Pose::Rotation((double)q.w, v.x(), v.y(), v.z())); };
  Poses g = f;
  for (size_t i = 0; i < n; ++i) {
    g.t[i] = s * f.t[i] + o; g.p[i] = app(f.p[i]);
    if (c.chance(30)) { auto r = g.p[i].getRotation(); g.p[i].getRotation() = Pose::Rotation(-r.w(), -r.x(), -r.y(), -r.z()); }
  }
  auto tw = [&](const Twist6& d) { return Twist6(rot(d.getTranslationalVelocity().vector()) / s, Eigen::Vector3d(rot(d.getRotationalVelocity().vector()) / s)); };
  g.d0 = tw(f.d0); g.dT = tw(f.dT);
  HK a, b; a.fitCurveWithDerivatives(f.t, f.p, f.d0, f.dT); b.fitCurveWithDerivatives(g.t, g.p, g.d0, g.dT);
  CubicHermiteE3Curve ea, eb; std::vector<Eigen::Vector3d> pa, pb;
  for (size_t i = 0; i < n; ++i) { pa.push_back(f.p[i].getPosition().vector()); pb.push_back(g.p[i].getPosition().vector()); }
  ea.fitCurveWithDerivatives(f.t, pa, f.d0.getTranslationalVelocity().vector(), f.dT.getTranslationalVelocity().vector());
  eb.fitCurveWithDerivatives(g.t, pb, g.d0.getTranslationalVelocity().vector(), g.dT.getTranslationalVelocity().vector());
  const HModel m(f);
  bool inner = false;
  std::vector<double> q; for (int i = 0; i < 8; ++i) q.push_back(i < 2 ? f.t[c.choose(n)] : c.queryTime(f.t));
  const double guard = 1e-9 * (1 + std::fabs(f.t.front()) + std::fabs(f.t.back()));
  for (double t : q) {
    const double u = s * t + o;
    Pose x, y; Twist6 d, e; Eigen::Vector3d ex, ey, ev, ew;
    bool knot = false; for (size_t i = 0; i < n; ++i) knot |= t == f.t[i];
    if (!knot && (std::fabs(t - f.t.front()) < guard || std::fabs(t - f.t.back()) < guard)) continue;      // rounding of the time axis decides
    c.note("query %.17g <-> %.17g", t, u);
    const bool ok = a.evaluate(x, t), ok2 = b.evaluate(y, u);
    c.check(ok == ok2, "one curve is defined where the other is not");
    c.check(ea.evaluate(ex, t) == ok && eb.evaluate(ey, u) == ok, "one position curve is defined where the other is not");
    if (!ok) continue;
    c.check(a.evaluateDerivative(d, t, 1) && b.evaluateDerivative(e, u, 1) && ea.evaluateDerivative(ev, t, 1) && eb.evaluateDerivative(ew, u, 1), "derivative failed inside the curve");
    const size_t i = m.seg(t); const double H = (double)m.h(i), sx = m.scaleX(i), sy = sx * 3 + T.getPosition().vector().norm();
    inner |= n >= 3 && t > f.t[i] && t < f.t[i + 1];
    // rounding of s*t+o moves times by about 1e-13; the steepest generated segment is 0.01 s long
    const double tp = 1e-8 * sy, tv = 1e-7 * sy / H;
    c.near((Eigen::Vector3d(rot(x.getPosition().vector()) + T.getPosition().vector()) - y.getPosition().vector()).norm(), 0, tp, "position seen from the other frame");
    c.near((Eigen::Vector3d(rot(ex) + T.getPosition().vector()) - ey).norm(), 0, tp, "E3 position seen from the other frame");
    c.near((Eigen::Vector3d(rot(d.getTranslationalVelocity().vector()) / s) - e.getTranslationalVelocity().vector()).norm() * s, 0, tv, "velocity seen from the other frame");
    c.near((Eigen::Vector3d(rot(ev) / s) - ew).norm() * s, 0, tv, "E3 velocity seen from the other frame");
    c.near((ex - x.getPosition().vector()).norm(), 0, 1e-10 * sx, "positions of the SE3 and the E3 curve");
    c.near((ev - d.getTranslationalVelocity().vector()).norm(), 0, 1e-9 * sx / H, "velocities of the SE3 and the E3 curve");
    if (m.ambiguous) { c.label("180 degrees"); continue; }
    const HModel::W w = m.omegas(i);
    if (w.amb) { c.label("180 degrees"); continue; }
    const double sw = (double)(1 + w.size());
    c.near(angleBetween(mul(R, toQ(x.getRotation())), toQ(y.getRotation())), 0, 1e-7 * sw, "rotation seen from the other frame");
    c.near((Eigen::Vector3d(rot(d.getRotationalVelocity().vector()) / s) - e.getRotationalVelocity().vector()).norm() * s, 0, 1e-6 * sw * sw / H, "angular velocity seen from the other frame");
  }
  if (n >= 3 && inner && (double)R.v.norm() > 1e-2) c.nontrivial();
  c.labelIf(s != 1.0, "time scaled"); c.labelIf(n > 6, ">6 poses");
}
