// Generators and an independent long-double model of the SE3 Hermite curve (header documentation of CubicHermiteSE3Curve:
// cubic Hermite in position, q(t) = qA exp(w1 b1) exp(w2 b2) exp(w3 b3) in rotation, Catmull-Rom slopes at inner knots).
#pragma once
#include "pbt.hpp"
#include "curves/CubicHermiteSE3Curve.hpp"
typedef curves::CubicHermiteSE3Curve HK;
typedef HK::ValueType Pose;
typedef HK::DerivativeType Twist6;
typedef long double L;
typedef Eigen::Matrix<L, 3, 1> L3;
typedef Eigen::Matrix<L, 3, 3> LM;
struct Q { L w; L3 v; };
inline Q mul(const Q& a, const Q& b) { return Q{a.w * b.w - a.v.dot(b.v), L3(a.w * b.v + b.w * a.v + a.v.cross(b.v))}; }
inline Q inv(const Q& a) { return Q{a.w, L3(-a.v)}; }
inline Q qexp(const L3& r) { const L n = r.norm(); if (n < 1e-15L) return Q{1, L3(0.5L * r)}; return Q{cosl(n / 2), L3(sinl(n / 2) / n * r)}; }
inline L3 qlog(const Q& q) { const L n = q.v.norm(); if (n < 1e-18L) return q.w < 0 ? L3(-2 * q.v) : L3(2 * q.v); const L h = q.w < 0 ? -atan2l(n, -q.w) : atan2l(n, q.w); return L3(2 * h / n * q.v); }
inline L3 qrot(const Q& q, const L3& x) { const L3 t = 2 * q.v.cross(x); return L3(x + q.w * t + q.v.cross(t)); }
inline Q toQ(const Pose::Rotation& r) { return Q{(L)r.w(), L3(r.x(), r.y(), r.z())}; }
inline L3 toL(const Eigen::Vector3d& v) { return v.cast<L>(); }
inline Q normalized(Q q) { const L n = sqrtl(q.w * q.w + q.v.squaredNorm()); q.w /= n; q.v /= n; return q; }
inline double angleBetween(const Q& a, const Q& b) { return (double)qlog(mul(a, inv(b))).norm(); }   // up to sign

inline Eigen::Vector3d genVec(pbt::Case& c, double big) { double x = c.value(big), y = c.value(big), z = c.value(big); return Eigen::Vector3d(x, y, z); }
inline Eigen::Vector3d genAxis(pbt::Case& c) {
  switch (c.pick({30, 70})) { case 0: { Eigen::Vector3d a = Eigen::Vector3d::Zero(); a[c.choose(3)] = c.chance(50) ? -1 : 1; return a; }
    default: { Eigen::Vector3d a(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)); return a.norm() < 1e-3 ? Eigen::Vector3d::UnitX() : Eigen::Vector3d(a.normalized()); } }
}
inline Pose::Rotation genRot(pbt::Case& c) {
  double ang;
  switch (c.pick({20, 50, 10, 20})) { case 0: { const int k = (int)c.in(0, 8); ang = (k & 1 ? (k + 1) / 2 : -(k / 2)) * M_PI / 4; break; } case 1: ang = c.real(-M_PI, M_PI); break; case 2: ang = c.logReal(1e-9, 1e-2); break; default: ang = M_PI - c.logReal(1e-4, 0.5); }
  const Eigen::Vector3d a = genAxis(c);
  Pose::Rotation r(std::cos(ang / 2), std::sin(ang / 2) * a.x(), std::sin(ang / 2) * a.y(), std::sin(ang / 2) * a.z());
  if (c.chance(30)) r = Pose::Rotation(-r.w(), -r.x(), -r.y(), -r.z());        // the same rotation
  return r;
}
struct Poses {
  std::vector<double> t; std::vector<Pose> p; Twist6 d0, dT; int overload = 0;
  void note(pbt::Case& c) const {
    c.noteVec("knot times", t);
    for (size_t i = 0; i < p.size() && c.verbose(); ++i) { const Pose& x = p[i]; c.note("pose %zu: position %.17g %.17g %.17g, quaternion %.17g %.17g %.17g %.17g", i,
      x.getPosition().x(), x.getPosition().y(), x.getPosition().z(), x.getRotation().w(), x.getRotation().x(), x.getRotation().y(), x.getRotation().z()); }
    const auto a = d0.getVector(), b = dT.getVector();
    c.note("end derivatives [%.17g %.17g %.17g | %.17g %.17g %.17g] [%.17g %.17g %.17g | %.17g %.17g %.17g]", a[0], a[1], a[2], a[3], a[4], a[5], b[0], b[1], b[2], b[3], b[4], b[5]);
  }
};
inline Poses genPoses(pbt::Case& c, int maxKnots, size_t minKnots = 0, bool extreme = false) {
  Poses f; size_t n;
  switch (c.pick({600, 200, 80, 55, 60, 5})) { case 0: n = c.in(3, 6); break; case 1: n = 2; break; case 2: n = 1; break; case 3: n = c.in(2, maxKnots); break; case 4: n = 0; break; default: n = c.in(maxKnots, 12 * maxKnots); }
  if (n < minKnots) n = minKnots;
  f.t = extreme && c.chance(8) ? c.times(n, 1e-6, 1e4) : c.times(n, 0.01, 5.0);
  const double mul = extreme && c.chance(6) ? std::pow(10.0, (double)c.in(-9, 9)) : 1.0;
  const Eigen::Vector3d far = extreme && c.chance(4) ? Eigen::Vector3d(genVec(c, 10) * 1e6) : Eigen::Vector3d(0, 0, 0);      // map coordinates
  Pose::Rotation last;
  for (size_t i = 0; i < n; ++i) {
    const Pose::Position x(genVec(c, 1e3) * mul + far);
    Pose::Rotation r = c.chance(40) && i ? Pose::Rotation(last.boxPlus(genAxis(c) * c.real(0, 1.2))) : genRot(c);
    r.fix(); last = r; f.p.push_back(Pose(x, r));
  }
  f.overload = c.pick({30, 55, 15});
  if (f.overload == 1) { f.d0 = Twist6(Eigen::Vector3d(genVec(c, 100) * mul), Eigen::Vector3d(genVec(c, 10))); f.dT = Twist6(Eigen::Vector3d(genVec(c, 100) * mul), Eigen::Vector3d(genVec(c, 10))); }
  return f;
}
inline void fitPoses(pbt::Case& c, HK& k, const Poses& f) {
  std::vector<curves::Key> keys;
  if (f.overload == 0) k.fitCurve(f.t, f.p, &keys);
  else if (f.overload == 1) k.fitCurveWithDerivatives(f.t, f.p, f.d0, f.dT, &keys);
  else k.fitCurveWithDerivatives(f.t, f.p);
  if (f.overload != 2) c.check(keys.size() == f.t.size(), "number of keys reported by the fit");
}
// Model of a curve given by poses and derivatives at the knots.
struct HModel {
  std::vector<double> t; std::vector<L3> x, dx, dw; std::vector<Q> q;
  bool ambiguous = false;            // a relative rotation of (almost) exactly 180 degrees was met: two answers are right
  static L3 slopeW(const Q& a, const Q& b, L dt, bool* amb) { const L3 l = qlog(normalized(mul(b, inv(a)))); if (l.norm() > M_PIl - 1e-5L) *amb = true; return L3(l / dt); }
  HModel() {}
  explicit HModel(const Poses& f) { build(f.t, f.p, f.d0, f.dT); }
  void build(const std::vector<double>& tt, const std::vector<Pose>& p, const Twist6& d0, const Twist6& dT) {
    t = tt; const size_t n = t.size();
    for (auto& y : p) { x.push_back(toL(y.getPosition().vector())); q.push_back(normalized(toQ(y.getRotation()))); }
    for (size_t i = 0; i < n; ++i) {
      if (i == 0 || i + 1 == n) { const Twist6& d = i == 0 ? d0 : dT; dx.push_back(toL(d.getTranslationalVelocity().vector())); dw.push_back(toL(d.getRotationalVelocity().vector())); }
      else { const L dt = (L)t[i + 1] - t[i - 1]; dx.push_back((x[i + 1] - x[i - 1]) / dt); dw.push_back(slopeW(q[i - 1], q[i + 1], dt, &ambiguous)); }
    }
  }
  size_t seg(double s) const { size_t i = 0; while (i + 2 < t.size() && t[i + 1] <= s) ++i; return i; }
  L h(size_t i) const { return (L)t[i + 1] - t[i]; }
  double scaleX(size_t i) const { return (double)(x[i].cwiseAbs() + x[i + 1].cwiseAbs() + h(i) * (dx[i].cwiseAbs() + dx[i + 1].cwiseAbs())).maxCoeff() + 1e-300; }
  void pos(size_t i, double s, L3* p, L3* v, L3* a) const {
    const L H = h(i), u = ((L)s - t[i]) / H; const L3 A = x[i], B = x[i + 1], D = dx[i] * H, E = dx[i + 1] * H, c2 = 3 * (B - A) - 2 * D - E, c3 = 2 * (A - B) + D + E;
    *p = A + u * (D + u * (c2 + u * c3)); *v = (D + u * (2 * c2 + 3 * u * c3)) / H; *a = (2 * c2 + 6 * u * c3) / (H * H);
  }
  struct W { L3 w1, w2, w3; bool amb; L size() const { return w1.norm() + w2.norm() + w3.norm(); } };
  W omegas(size_t i) const {
    W r; const L H = h(i); r.w1 = qrot(inv(q[i]), L3(dw[i] * (H / 3))); r.w3 = qrot(inv(q[i + 1]), L3(dw[i + 1] * (H / 3)));
    r.w2 = qlog(normalized(mul(mul(qexp(-r.w1), mul(inv(q[i]), q[i + 1])), qexp(-r.w3)))); r.amb = r.w2.norm() > M_PIl - 1e-5L; return r;
  }
  Q rotU(size_t i, const W& w, L u) const {
    const L b1 = 1 - (1 - u) * (1 - u) * (1 - u), b2 = u * u * (3 - 2 * u), b3 = u * u * u;
    return mul(mul(mul(q[i], qexp(b1 * w.w1)), qexp(b2 * w.w2)), qexp(b3 * w.w3));
  }
  Q rot(size_t i, const W& w, double s) const { return rotU(i, w, ((L)s - t[i]) / h(i)); }
  L3 angVel(size_t i, const W& w, double s) const {      // fourth-order central difference
    const L u = ((L)s - t[i]) / h(i), e = 2e-4L / (1 + w.size());
    const Q m = inv(rotU(i, w, u));
    auto D = [&](L d) { return L3(qlog(mul(rotU(i, w, u + d), m)) - qlog(mul(rotU(i, w, u - d), m))); };
    return L3((8 * D(e) - D(2 * e)) / (12 * e * h(i)));
  }
};
inline double dist(const L3& a, const Eigen::Vector3d& b) { return (double)(a - toL(b)).norm(); }
