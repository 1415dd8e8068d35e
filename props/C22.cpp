// C22: incremental extension under a sampling policy.
#include "se3.hpp"
#include "curves/SlerpSE3Curve.hpp"
using namespace curves;

const char* const kRule =
    "Case: 1..40 measurements at increasing times extend an SE3 curve one by one or in batches under a sampling ratio of 1..5 and (Hermite) a minimum period, with clears, refits and changes of "
    "ratio and period in between; after every step the knots are compared with a model of the policy, for the Hermite curve also poses and slopes at the knots. Slerp curves are driven through a subclass that only "
    "supplies the evaluation their class leaves abstract. Non-trivial: at least 6 measurements with a ratio above 1.";

struct Slerp : SlerpSE3Curve {      // the class is abstract: its two evaluation functions do not match the interface
  virtual bool evaluate(ValueType&, Time) const { return false; }
  virtual bool evaluateDerivative(DerivativeType&, Time, unsigned) const { return false; }
};
static Pose pose(pbt::Case& c) { const Pose::Position x(genVec(c, 100)); Pose::Rotation r = genRot(c); r.fix(); return Pose(x, r); }

static void slerp(pbt::Case& c) {
  Slerp k; std::vector<double> knots; int since = 0, ratio = 1; double t = c.value(100);
  const int steps = c.chance(20) ? (int)c.in(1, c.chance(4) ? 200 : 40) : (int)c.in(1, 12);
  if (c.chance(80)) { ratio = (int)c.in(1, c.chance(5) ? 20 : 5); k.setSamplingRatio(ratio); }
  c.note("Slerp curve, ratio %d", ratio);
  int single = 0;
  for (int i = 0; i < steps; ++i) {
    // Another ratio from now on: the group in progress ends as soon as it has that many (1 keeps every measurement: only between groups)
    if (i && c.chance(8)) { ratio = (int)c.in(since ? 2 : 1, 5); k.setSamplingRatio(ratio); c.note("ratio %d", ratio); c.label("ratio changed"); }
    const int op = c.pick({80, 8, 6, 6});
    if (op == 0) {
      t += c.spacing(0.01, 5.0); c.note("extend at %.17g", t); ++single;
      k.extend({t}, {pose(c)});
      if (knots.size() < 2 || ratio == 1) knots.push_back(t);
      else { if (since == 0) knots.push_back(t); else knots.back() = t; since = since + 1 >= ratio ? 0 : since + 1; }
    } else if (op == 1) {
      std::vector<double> ts; std::vector<Pose> ps; const size_t n = (size_t)c.in(2, 5);
      for (size_t j = 0; j < n; ++j) { t += c.spacing(0.01, 5.0); ts.push_back(t); ps.push_back(pose(c)); }
      c.noteVec("extend by a batch", ts); k.extend(ts, ps); knots.insert(knots.end(), ts.begin(), ts.end()); since = 0; c.label("batch");
    } else if (op == 2) { c.note("clear"); k.clear(); knots.clear(); since = 0; c.label("clear"); if (c.chance(50)) t = c.value(100); }
    else {
      std::vector<double> ts = c.times((size_t)c.in(1, 4), 0.1, 2.0); std::vector<Pose> ps; for (size_t j = 0; j < ts.size(); ++j) ps.push_back(pose(c));
      c.noteVec("fit", ts); k.fitCurve(ts, ps); knots = ts; t = ts.back(); since = 0; c.label("fit");
    }
    std::vector<Time> got{9.0}; k.getCurveTimes(&got);
    if (got != knots) { c.noteVec("knots", got); c.noteVec("expected", knots); c.fail("after step %d the curve has %zu knots, expected %zu%s", i, got.size(), knots.size(), got.size() == knots.size() ? " (others)" : ""); }
    c.check(k.size() == (int)knots.size() && k.isEmpty() == knots.empty(), "size of the curve");
    if (!knots.empty()) c.check(k.getMinTime() == knots.front() && k.getMaxTime() == knots.back(), "time range of the curve");
  }
  if (single >= 6 && ratio > 1) c.nontrivial();
}
static void hermite(pbt::Case& c) {
  HK k; int ratio = (int)c.in(1, c.chance(5) ? 20 : 5); const int pk = c.pick({40, 30, 30}); double period = pk == 0 ? 0.0 : pk == 1 ? c.real(0, 4.0) : (double)c.in(1, 32) / 8.0;
  SamplingPolicy pol(ratio, period);
  if (c.chance(50)) { pol = SamplingPolicy(); pol.setMinimumMeasurements(ratio); pol.setMinSamplingPeriod(period); }
  c.check(pol.getMinimumMeasurements() == ratio && pol.getMinSamplingPeriod() == period, "policy settings");
  c.note("Hermite policy, ratio %d, period %.17g", ratio, period);
  std::vector<double> T; std::vector<Pose> V; std::vector<double> kept; std::vector<Pose> keptV; int since = 0; bool provisional = false;
  double t = pk == 2 ? (double)c.in(-80, 80) / 8.0 : c.value(100);
  const int steps = c.chance(20) ? (int)c.in(1, c.chance(4) ? 200 : 40) : (int)c.in(1, 14);
  int done = 0;
  while (done < steps) {
    if (done && c.chance(5)) { ratio = (int)c.in(1, 5); pol.setMinimumMeasurements(ratio); c.note("ratio %d", ratio); c.label("ratio changed"); }
    if (done && c.chance(5)) { period = c.chance(40) ? 0.0 : (double)c.in(1, 32) / 8.0; pol.setMinSamplingPeriod(period); c.note("period %.17g", period); c.label("period changed"); }
    const size_t n = c.chance(15) ? (size_t)c.in(1, 4) : 1;
    std::vector<double> ts; std::vector<Pose> ps;
    for (size_t j = 0; j < n; ++j) { t += pk == 2 && c.chance(60) ? (double)c.in(1, 16) / 8.0 : c.spacing(0.05, 3.0); ts.push_back(t); ps.push_back(pose(c)); }
    c.noteVec("extend", ts);
    pol.extend<HK, Pose>(ts, ps, &k);
    for (size_t j = 0; j < n; ++j, ++done) {
      const bool keep = kept.empty() || (since >= ratio && kept.back() + period < ts[j]);
      if (keep) { kept.push_back(ts[j]); keptV.push_back(ps[j]); since = 0; provisional = false; } else { ++since; provisional = true; }
    }
    std::vector<double> want = kept; std::vector<Pose> wantV = keptV; if (provisional) { want.push_back(t); wantV.push_back(ps.back()); }
    std::vector<Time> got; k.getCurveTimes(&got);
    if (got != want) { c.noteVec("knots", got); c.noteVec("expected", want); c.fail("the curve has %zu knots, expected %zu%s", got.size(), want.size(), got.size() == want.size() ? " (others)" : ""); }
    c.check(k.getMinTime() == want.front() && k.getMaxTime() == t, "time range of the extended curve");
    double mag = 1; for (auto& p : wantV) mag = std::max(mag, p.getPosition().vector().norm());
    HModel m; m.build(want, wantV, Twist6(), Twist6());
    for (size_t i = 0; i < want.size(); ++i) {
      Pose p; Twist6 d; c.check(k.evaluate(p, want[i]) && k.evaluateDerivative(d, want[i], 1), "evaluation at a knot failed");
      c.near(dist(toL(wantV[i].getPosition().vector()), p.getPosition().vector()), 0, 1e-8 * mag, "position at a knot");
      c.near(angleBetween(toQ(wantV[i].getRotation()), toQ(p.getRotation())), 0, 1e-6, "rotation at a knot");
      // a kept knot between two kept knots has the slope between its neighbours
      if (i > 0 && i + 1 < kept.size()) {
        c.near(dist(m.dx[i], d.getTranslationalVelocity().vector()), 0, 1e-7 * mag / 0.05, "velocity at an inner knot");
        if (!m.ambiguous) c.near(dist(m.dw[i], d.getRotationalVelocity().vector()), 0, 1e-5 / 0.05, "angular velocity at an inner knot");
      }
    }
    if (c.chance(4)) { c.note("clear"); k.clear(); kept.clear(); keptV.clear(); since = 0; provisional = false; c.label("clear"); c.check(k.isEmpty(), "a cleared curve is not empty"); if (c.chance(50)) t = c.value(100); }
    else if (c.chance(2)) c.check(c.dies([&] { pol.extend<HK, Pose>(std::vector<Time>{t}, ps, &k); }), "an extension that does not advance the curve was accepted");
  }
  if (done >= 6 && ratio > 1) c.nontrivial();
}
void property(pbt::Case& c) { if (c.chance(50)) { c.label("hermite"); hermite(c); } else { c.label("slerp"); slerp(c); } }
