// C26: a copied, assigned, moved or swapped container or curve goes on exactly like one with the same history that was never copied.
#include "objects.hpp"
#include "curves/SlerpSE3Curve.hpp"
#include <iostream>
#include <sstream>

const char* const kRule =
    "Case: a family of up to 6 objects of one kind (spline, container of order 3 or 5, scalar, vector, position or pose Hermite curve, curve under extension); 2..25 steps either change one "
    "member (fits through any overload, rejected fits, clear, playback, single splines, knots and policies) or copy-construct, copy-assign (also onto itself), move, swap, "
    "send it through a growing vector, or destroy it, also through a base class pointer. After every step every member, read completely, must equal bit for bit a fresh "
    "object on which the same history of changes is repeated. Non-trivial: a member is changed or destroyed after it was copied or moved.";

struct Op { int what = 0; Job j; double x = 0; int n = 0; };

// ---- changes, per kind.  `what`: 0,1,2 a fit, 3 a rejected fit, 4 clear, 5.. particular to the kind
template <int N> static void apply(Named<N>* , typename Named<N>::Container& k, const Op& o) {
  const Fit& f = o.j.f;
  switch (o.what) {
    case 0: k.setData(f.t, f.p, f.v0, f.a0, f.vT, f.aT); break;
    case 1: k.setData(f.t, f.p, f.v0, f.vT); break;
    case 2: k.setData(f.t, f.p); break;
    case 3: { std::vector<double> t(f.t); std::swap(t.front(), t.back()); k.setData(t, f.p, f.v0, f.a0, f.vT, f.aT); break; }
    case 4: k.reset(); break;
    case 5: if (!k.isEmpty()) k.advance(o.x); break;
    case 6: if (!k.isEmpty()) k.setContainerTime(o.x * 0.5); break;
    case 7: k.resetTime(); break;
    case 8: { typename Named<N>::Spline s; s.computeCoefficients(SplineOptions(std::fabs(o.x), f.p[0], f.p[1], f.v0, f.vT, f.a0, f.aT)); if (o.n & 1) k.addSpline(s); else k.addSpline(std::move(s)); break; }
    case 9: if (!k.isEmpty()) { const int i = o.n % (int)k.getSplines().size(); const double T = k.getSpline(i)->getSplineDuration(); k.getSpline(i)->computeCoefficients(SplineOptions(T, f.p[0], f.p[1], f.v0, f.vT, f.a0, f.aT)); } break;
    default: k.reserveSplines(1 + o.n);
  }
}
static void apply(Named<3>::Container& k, const Op& o) { apply<3>(nullptr, k, o); }
static void apply(Named<5>::Container& k, const Op& o) { apply<5>(nullptr, k, o); }
typedef Named<5>::Spline Sp;
static void apply(Sp& s, const Op& o) {
  const Fit& f = o.j.f;
  const SplineOptions opt(std::fabs(o.x), f.p[0], f.p[1], f.v0, f.vT, f.a0, f.aT);
  switch (o.what) { case 4: s = Sp(); break; case 5: s = Sp(opt); break; default: s.computeCoefficients(opt); }
}
static void apply(PolynomialSplineQuinticScalarCurve& k, const Op& o) {
  const Fit& f = o.j.f;
  switch (o.what) {
    case 0: k.fitCurve(f.t, f.p, f.v0, f.a0, f.vT, f.aT); break;
    case 1: case 2: k.fitCurve(f.t, f.p); break;
    case 3: { std::vector<double> t(f.t); t.back() = t.front(); k.fitCurve(t, f.p); break; }
    case 4: k.clear(); break;
    default: { std::vector<SplineOptions> l; for (int i = 0; i <= o.n % 4; ++i) l.push_back(SplineOptions(std::fabs(o.x) + i, f.p[0], f.p[1], f.v0, f.vT, f.a0, f.aT)); k.fitCurve(l); }
  }
}
static void apply(Vec3& k, const Op& o) {
  const Fit& f = o.j.f; const auto p = axes(f); const Vec3::DerivativeType a(f.v0, f.a0, 1), b(f.vT, f.aT, -1);
  switch (o.what) {
    case 0: k.fitCurve(f.t, p, a, b, b, a); break;
    case 3: { std::vector<double> t(f.t); t.back() = t.front(); k.fitCurve(t, p); break; }
    case 4: k.clear(); break;
    default: k.fitCurve(f.t, p);
  }
}
static std::vector<CubicHermiteE3Curve::ValueType> points(const Fit& f) { std::vector<CubicHermiteE3Curve::ValueType> v; for (double x : f.p) v.push_back(CubicHermiteE3Curve::ValueType(x, -x, 2 * x)); return v; }
static void apply(CubicHermiteE3Curve& k, const Op& o) {
  const Fit& f = o.j.f; const CubicHermiteE3Curve::DerivativeType a(f.v0, f.a0, 1), b(f.vT, f.aT, -1);
  switch (o.what) {
    case 0: k.fitCurveWithDerivatives(f.t, points(f), a, b); break;
    case 1: { auto p = points(f); p.back() = p.front(); k.fitPeriodicCurve(f.t, p); break; }
    case 4: k.clear(); break;
    default: k.fitCurve(f.t, points(f));
  }
}
static std::vector<Pose> poses(const Fit& f) {
  std::vector<Pose> v; for (double x : f.p) { Pose p; p.getPosition() = Pose::Position(x, 2 * x, -x); p.getRotation() = Pose::Rotation(kindr::AngleAxisPD(std::fmod(x, 3.0), 0, 1, 0)); v.push_back(p); } return v;
}
static void apply(HK& k, const Op& o) {
  const Fit& f = o.j.f; auto p = poses(f);
  switch (o.what) {
    case 0: k.fitCurveWithDerivatives(f.t, p, Twist6(Eigen::Vector3d(f.v0, f.a0, 1), Eigen::Vector3d(0.1, 0.2, 0.3)), Twist6(Eigen::Vector3d(f.vT, f.aT, -1), Eigen::Vector3d(0, 0.5, 0))); break;
    case 1: p.back() = p.front(); k.fitPeriodicCurve(f.t, p); break;
    case 4: k.clear(); break;
    default: k.fitCurve(f.t, p);
  }
}
// extension: a Hermite curve with its policy, and a Slerp curve (which holds its policy itself)
struct Extended { HK k; SamplingPolicy pol; double t = 0; };
static void apply(Extended& e, const Op& o) {
  switch (o.what) {
    case 0: e.pol.setMinimumMeasurements(1 + o.n % 4); break;
    case 1: e.pol.setMinSamplingPeriod(o.x / 2); break;
    default: e.t += 0.01 + o.x; e.pol.extend<HK, Pose>(std::vector<Time>{e.t}, std::vector<Pose>{poses(o.j.f)[0]}, &e.k);
  }
}
struct Slerp : SlerpSE3Curve {
  virtual bool evaluate(ValueType&, Time) const { return false; }
  virtual bool evaluateDerivative(DerivativeType&, Time, unsigned) const { return false; }
};
static void apply(Slerp& k, const Op& o) {
  switch (o.what) {
    case 0: k.setSamplingRatio(1 + o.n % 4); break;
    case 4: k.clear(); break;
    case 5: k.fitCurve(o.j.f.t, poses(o.j.f)); break;
    default: k.extend(std::vector<Time>{(k.isEmpty() ? o.j.f.t[0] : k.getMaxTime()) + o.x + 0.01}, std::vector<Pose>{poses(o.j.f)[0]});
  }
}
// ---- complete reading, also of empty objects
template <class K> static void readWhole(const K& k, const std::vector<double>& q, Out& o) {
  o.push_back(k.getSplines().size()); o.push_back(k.isEmpty()); o.push_back(k.getContainerDuration()); o.push_back(k.getContainerTime()); o.push_back(k.getActiveSplineIndex());
  for (const auto& s : k.getSplines()) { o.push_back(s.getSplineDuration()); for (double x : s.getCoefficients()) o.push_back(x); }
  for (double x : {k.getEndPosition(), k.getEndVelocity(), k.getEndAcceleration(), k.getPosition(), k.getVelocity(), k.getAcceleration()}) o.push_back(x);
  for (double t : q) { double off = -1; o.push_back(k.getPositionAtTime(t)); o.push_back(k.getVelocityAtTime(t)); o.push_back(k.getAccelerationAtTime(t)); if (!k.isEmpty()) { o.push_back(k.getActiveSplineIndexAtTime(t, off)); o.push_back(off); } }
}
static void whole(const Named<3>::Container& k, const std::vector<double>& q, Out& o) { readWhole(k, q, o); }
static void whole(const Named<5>::Container& k, const std::vector<double>& q, Out& o) { readWhole(k, q, o); }
static void whole(const Sp& s, const std::vector<double>& q, Out& o) {
  o.push_back(s.getSplineDuration()); for (double x : s.getCoefficients()) o.push_back(x);
  for (double t : q) for (double x : {s.getPositionAtTime(t), s.getVelocityAtTime(t), s.getAccelerationAtTime(t)}) o.push_back(x);
}
static Job at(const std::vector<double>& q) { Job j; j.q = q; j.f.t = {-1e300, 1e300}; return j; }
static void whole(const PolynomialSplineQuinticScalarCurve& k, const std::vector<double>& q, Out& o) { read(at(q), k, o); }
static void whole(const Vec3& k, const std::vector<double>& q, Out& o) { read(at(q), k, o); o.push_back(k.getMinTime()); o.push_back(k.getMaxTime()); }
template <class K> static void hermite(const K& k, const std::vector<double>& q, Out& o) {
  o.push_back(k.isEmpty()); o.push_back(k.size());
  if (k.isEmpty()) return;
  const double a = k.getMinTime(), b = k.getMaxTime(); o.push_back(a); o.push_back(b);
  std::vector<double> in; for (double t : q) if (t >= a && t <= b) in.push_back(t);
  in.push_back(a); in.push_back(b); in.push_back(a + (b - a) / 3); if (in.back() < a || in.back() > b) in.pop_back();
  if (k.size() >= 2) read(at(in), k, o);
  if (q.size() % 4 != 1) return;
  std::ostringstream text; std::streambuf* old = std::cout.rdbuf(text.rdbuf()); k.print("curve"); std::cout.rdbuf(old);
  }
static void whole(const CubicHermiteE3Curve& k, const std::vector<double>& q, Out& o) { hermite(k, q, o); }
static void whole(const HK& k, const std::vector<double>& q, Out& o) { hermite(k, q, o); }

static void whole(const Extended& e, const std::vector<double>& q, Out& o) { SamplingPolicy pol(e.pol); o.push_back(pol.getMinimumMeasurements()); o.push_back(pol.getMinSamplingPeriod()); hermite(e.k, q, o); }
static void whole(const Slerp& k, const std::vector<double>&, Out& o) { std::vector<Time> t; k.getCurveTimes(&t); o.push_back(k.size()); o.push_back(k.isEmpty()); for (double x : t) o.push_back(x); if (!k.isEmpty()) { o.push_back(k.getMinTime()); o.push_back(k.getMaxTime()); } }

template <class K> struct Base { typedef K type; };
template <> struct Base<PolynomialSplineQuinticScalarCurve> { typedef Curve<ScalarCurveConfig> type; };
template <> struct Base<HK> { typedef SE3Curve type; };

template <class K> static void run(pbt::Case& c, int kinds, bool hermite) {
  std::vector<std::unique_ptr<K>> m; std::vector<std::vector<Op>> h; std::vector<bool> blank(1, false);
  m.emplace_back(new K); h.emplace_back();
  bool copied = false, after = false; std::vector<double> q;
  for (int i = (int)c.in(1, 3); i-- > 0;) q.push_back(c.value(100.0));
  const int steps = (int)c.in(2, c.chance(15) ? 25 : 9);
  for (int s = 0; s < steps; ++s) {
    const size_t i = c.choose(m.size());
    switch (s == 0 ? 0 : c.pick({45, 14, 12, 8, 6, 7, 8})) {
      case 0: {
        Op o; o.what = (int)c.choose(kinds); o.j.f = genFit(c, 6); for (double& x : o.j.f.p) if (!(std::fabs(x) < 1e6)) x = 1.0;
        if (hermite && o.what == 3) o.what = 2;
        o.x = c.real(0, 4); o.n = (int)c.in(0, 5);
        c.note("%zu: change %d, x=%.17g, n=%d", i, o.what, o.x, o.n); o.j.f.note(c);
        for (size_t z = 0; z < 2; ++z) q.push_back(c.queryTime(o.j.f.t)); if (q.size() > 6) q.erase(q.begin(), q.begin() + 2);
        apply(*m[i], o); h[i].push_back(o); after |= copied; break;
      }
      case 1: if (m.size() < 6) { c.note("%zu: copy -> %zu", i, m.size()); m.emplace_back(new K(*m[i])); h.push_back(std::vector<Op>(h[i])); copied = true; } break;
      case 2: { const size_t k = c.choose(m.size()); c.note("%zu: assign from %zu", i, k); const K& src = *m[k]; *m[i] = src; const std::vector<Op> hk(h[k]); h[i] = hk; copied |= i != k; c.labelIf(i == k, "self assignment"); break; }
      case 3: if (m.size() > 1) { c.note("%zu: destroy", i); typename Base<K>::type* p = m[i].release(); delete p; m.erase(m.begin() + i); h.erase(h.begin() + i); after |= copied; } break;
      case 4: { c.note("%zu: move", i); std::unique_ptr<K> n(new K(std::move(*m[i]))); m[i] = std::move(n); copied = true; c.label("move"); break; }
      case 5: { const size_t k = c.choose(m.size()); c.note("%zu: swap with %zu", i, k); std::swap(*m[i], *m[k]); std::swap(h[i], h[k]); copied = true; c.label("swap"); break; }
      default: { c.note("%zu: through a vector", i); std::vector<K, Eigen::aligned_allocator<K>> v; v.push_back(*m[i]); for (int z = 0; z < 4; ++z) v.push_back(K(v[z])); v.erase(v.begin()); *m[i] = v[c.choose(4)]; copied = true; }
    }
    for (size_t k = 0; k < m.size(); ++k) {
      K f; for (const Op& o : h[k]) apply(f, o);
      Out want, got; whole(f, q, want); whole(*m[k], q, got);
      if (!same(want, got)) { size_t z = 0; while (z < want.size() && z < got.size() && !memcmp(&want[z], &got[z], 8)) ++z;
        c.fail("after step %d member %zu differs from a fresh object with the same history (reading %zu: %.17g, expected %.17g)", s, k, z, z < got.size() ? got[z] : 0.0, z < want.size() ? want[z] : 0.0); }
      Out again; whole(*m[k], q, again); c.check(same(got, again), "reading an object changed what it says");
    }
  }
  if (after) c.nontrivial();
}
void property(pbt::Case& c) {
  switch (c.pick({12, 16, 12, 13, 13, 10, 10, 8, 6})) {
    case 0: c.label("spline"); run<Sp>(c, 7, false); break;
    case 1: c.label("quintic container"); run<Named<5>::Container>(c, 11, false); break;
    case 2: c.label("cubic container"); run<Named<3>::Container>(c, 11, false); break;
    case 3: c.label("scalar curve"); run<PolynomialSplineQuinticScalarCurve>(c, 7, false); break;
    case 4: c.label("vector curve"); run<Vec3>(c, 6, false); break;
    case 5: c.label("E3 curve"); run<CubicHermiteE3Curve>(c, 6, true); break;
    case 6: c.label("SE3 curve"); run<HK>(c, 6, true); break;
    case 7: c.label("extended SE3 curve"); run<Extended>(c, 9, true); break;
    default: c.label("extended Slerp curve"); run<Slerp>(c, 10, true);
  }
}
