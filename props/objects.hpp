// One object of each kind that holds a curve: how to fill it and everything that can be read from it.
#pragma once
#include "pbt.hpp"
#include "gen_fit.hpp"
#include "names.hpp"
#include "se3.hpp"
#include "curves/PolynomialSplineScalarCurve.hpp"
#include "curves/PolynomialSplineVectorSpaceCurve.hpp"
#include "curves/LocalSupport2CoefficientManager.hpp"
#include "curves/CubicHermiteE3Curve.hpp"
#include <memory>
using namespace curves;

struct Job { int kind, variant, reps; Fit f; std::vector<double> q; std::string file; };
typedef std::vector<double> Out;
typedef LocalSupport2CoefficientManager<Eigen::VectorXd> Mgr;
typedef PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, 3> Vec3;
enum { SPLINE, QUINTIC, CUBIC, SCALAR, VECTOR, MANAGER, E3, SE3K, CSV, KINDS };
static const char* const kNames[] = {"spline", "quintic container", "cubic container", "scalar curve", "vector curve", "coefficient manager", "E3 curve", "SE3 curve", "CSV file"};

static Eigen::VectorXd vec(double x) { Eigen::VectorXd v(3); v << x, -x, x + 1; return v; }
static std::vector<Vec3::ValueType> axes(const Fit& f) { std::vector<Vec3::ValueType> r; for (double x : f.p) r.push_back(Vec3::ValueType(x, -x, x * x)); return r; }

// ---- building and reading (const) one object of each kind
static void build(const Job& j, Named<5>::Container& k) { k.setData(j.f.t, j.f.p, j.f.v0, j.f.a0, j.f.vT, j.f.aT); }
static void build(const Job& j, Named<3>::Container& k) { if (j.variant & 1) k.setData(j.f.t, j.f.p); else k.setData(j.f.t, j.f.p, j.f.v0, j.f.vT); }
static void build(const Job& j, PolynomialSplineQuinticScalarCurve& k) { if (j.variant & 1) k.fitCurve(j.f.t, j.f.p); else k.fitCurve(j.f.t, j.f.p, j.f.v0, j.f.a0, j.f.vT, j.f.aT); }
static void build(const Job& j, Vec3& k) { k.fitCurve(j.f.t, axes(j.f)); }
static void build(const Job& j, Mgr& m) {
  std::vector<Key> keys; std::vector<Eigen::VectorXd> v; for (double x : j.f.p) v.push_back(vec(x));
  if (j.variant & 1) m.insertCoefficients(j.f.t, v, &keys); else for (size_t i = 0; i < v.size(); ++i) m.addCoefficientAtEnd(j.f.t[i], v[i], &keys);
  if (j.variant & 2) { m.updateCoefficientByKey(keys.front(), vec(7)); m.insertCoefficient(j.f.t.back(), vec(8)); }
  if (j.variant & 4 && v.size() > 2) m.removeCoefficientWithKey(keys[1]);
}
static void build(const Job& j, CubicHermiteE3Curve& k) {
  std::vector<CubicHermiteE3Curve::ValueType> v; for (double x : j.f.p) v.push_back(CubicHermiteE3Curve::ValueType(x, -x, 2 * x)); k.fitCurve(j.f.t, v);
}
static void build(const Job& j, HK& k) {
  std::vector<Pose> v; for (double x : j.f.p) { Pose p; p.getPosition() = Pose::Position(x, 2 * x, -x); p.getRotation() = Pose::Rotation(kindr::AngleAxisPD(std::fmod(x, 3.0), 0, 1, 0)); v.push_back(p); }
  k.fitCurve(j.f.t, v);
}
template <class K> static void readCont(const Job& j, const K& k, Out& o) {
  for (double t : j.q) {
    t -= j.f.t[0]; double off = -1;
    o.push_back(k.getPositionAtTime(t)); o.push_back(k.getVelocityAtTime(t)); o.push_back(k.getAccelerationAtTime(t)); o.push_back(k.getActiveSplineIndexAtTime(t, off)); o.push_back(off);
  }
  for (double x : {k.getContainerDuration(), k.getEndPosition(), k.getEndVelocity(), k.getEndAcceleration(), k.getPosition(), k.getVelocity(), k.getAcceleration(), (double)k.checkContainer()}) o.push_back(x);
}
static void read(const Job& j, const Named<5>::Container& k, Out& o) { readCont(j, k, o); }
static void read(const Job& j, const Named<3>::Container& k, Out& o) { readCont(j, k, o); }
static void read(const Job& j, const PolynomialSplineQuinticScalarCurve& k, Out& o) {
  for (double t : j.q) { double x = 0; k.evaluate(x, t); o.push_back(x); for (unsigned d : {1u, 2u}) { k.evaluateDerivative(x, t, d); o.push_back(x); } }
  o.push_back(k.getMinTime()); o.push_back(k.getMaxTime());
}
static void read(const Job& j, const Vec3& k, Out& o) {
  for (double t : j.q) { Vec3::ValueType x; k.evaluate(x, t); for (int i = 0; i < 3; ++i) o.push_back(x(i)); for (unsigned d : {1u, 2u}) { k.evaluateDerivative(x, t, d); for (int i = 0; i < 3; ++i) o.push_back(x(i)); } }
}
static void read(const Job& j, const Mgr& m, Out& o) {
  std::vector<Time> t; m.getTimes(&t); std::vector<Key> k; m.getKeys(&k);
  for (double x : t) o.push_back(x);
  for (Key x : k) { o.push_back(m.getCoefficientByKey(x)(0)); o.push_back(m.getCoefficientTimeByKey(x)); }
  for (double x : j.q) {
    if (!(x >= t.front() && x <= t.back())) continue;      // no log output
    Mgr::CoefficientIter a, b; o.push_back(m.getCoefficientsAt(x, &a, &b)); o.push_back(a->first); o.push_back(b->second.coefficient(1));
    Mgr::CoefficientMap r; m.getCoefficientsInRange(t.front(), x, &r); o.push_back((double)r.size());
    std::vector<Time> w; m.getTimesInWindow(&w, x, t.back()); o.push_back((double)w.size()); o.push_back(m.hasCoefficientAtTime(x));
  }
  m.checkInternalConsistency();
}
static void read(const Job& j, const CubicHermiteE3Curve& k, Out& o) {
  for (double t : j.q) { if (!(t >= j.f.t.front() && t <= j.f.t.back())) continue;
    CubicHermiteE3Curve::ValueType x; CubicHermiteE3Curve::DerivativeType d, e; k.evaluate(x, t); k.evaluateDerivative(d, t, 1); k.evaluateDerivative(e, t, 2);
    for (double y : {x.x(), x.y(), x.z(), d.x(), d.y(), d.z(), e.x(), e.y(), e.z()}) o.push_back(y); }
}
static void read(const Job& j, const HK& k, Out& o) {
  for (double t : j.q) { if (!(t >= j.f.t.front() && t <= j.f.t.back())) continue;
    Pose p; Twist6 d; k.evaluate(p, t); k.evaluateDerivative(d, t, 1);
    for (double y : {p.getPosition().x(), p.getPosition().y(), p.getRotation().w(), p.getRotation().y()}) o.push_back(y);
    for (int i = 0; i < 3; ++i) { o.push_back(d.getTranslationalVelocity().vector()(i)); o.push_back(d.getRotationalVelocity().vector()(i)); } }
}
static bool same(const Out& a, const Out& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
