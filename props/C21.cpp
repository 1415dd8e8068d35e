// C21: curve files contain the curve.
#include "se3.hpp"
#include "curves/CubicHermiteE3Curve.hpp"
#include "curves/helpers.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace curves;

const char* const kRule =
    "Case: an SE3 and an E3 Hermite curve with 2..8 knots; saved at its knots or at 1..12 times inside (read back with the CSV loader, compared bit for bit with evaluation), or sampled into a table of 2..60 "
    "rows whose columns, identified by the header, are compared with evaluation at evenly spaced times. Scratch files are reused. Non-trivial: at least 3 knots and 3 rows.";

void property(pbt::Case& c) {
  const std::string file = pbt::scratchDir() + "/curve.csv";
  if (c.chance(50)) unlink(file.c_str());
  Poses f = genPoses(c, 8, 2); f.note(c);
  HK k; fitPoses(c, k, f);
  if (c.chance(50)) {
    std::vector<double> t = f.t;
    if (c.chance(50)) { c.label("saved at knots"); k.saveCurveTimesAndValues(file); }
    else {
      c.label("saved at times"); t.clear();
      const size_t m = (size_t)c.in(1, c.chance(2) ? 300 : 12);
      for (size_t i = 0; i < m; ++i) { double x = c.queryTime(f.t); t.push_back(std::min(std::max(x, f.t.front()), f.t.back())); }
      k.saveCurveAtTimes(file, t);
    }
    c.noteVec("saved at", t);
    std::vector<Time> rt; std::vector<Eigen::VectorXd> rv; loadTimeVectorCSV(file, &rt, &rv);
    c.check(rt == t, "times in the file"); c.check(rv.size() == t.size(), "rows in the file");
    for (size_t i = 0; i < t.size(); ++i) {
      Pose p; c.check(k.evaluate(p, t[i]), "evaluation failed");
      const auto& x = p.getPosition(); const auto& q = p.getRotation();
      const double want[7] = {x.x(), x.y(), x.z(), q.w(), q.x(), q.y(), q.z()};
      c.check(rv[i].size() == 7, "a row does not have a position and a quaternion");
      for (int j = 0; j < 7; ++j) if (!(rv[i][j] == want[j])) c.fail("row %zu column %d: file has %.17g, the curve %.17g", i, j, rv[i][j], want[j]);
    }
    if (f.t.size() >= 3 && t.size() >= 3) c.nontrivial();
    if (c.chance(1)) {
      c.check(c.dies([&] { k.saveCurveAtTimes(file + ".missing/x", t); }), "saving into a missing directory did not fail");
      c.check(c.dies([&] { k.saveCurveTimesAndValues(file + ".missing/x"); }), "saving into a missing directory did not fail");
    }
    return;
  }
  const bool e3 = c.chance(50); c.label(e3 ? "E3 table" : "SE3 table");
  CubicHermiteE3Curve e; std::vector<Eigen::Vector3d> pos; for (auto& p : f.p) pos.push_back(p.getPosition().vector());
  e.fitCurveWithDerivatives(f.t, pos, f.d0.getTranslationalVelocity().vector(), f.dT.getTranslationalVelocity().vector());
  const int n = c.chance(15) ? (int)c.in(2, c.chance(4) ? 400 : 60) : (int)c.in(2, 12);
  c.note("table of %d samples of the %s curve", n, e3 ? "E3" : "SE3");
  c.check(e3 ? e.writeEvalToFile(file, n) : k.writeEvalToFile(file, n), "writing the table failed");
  std::ifstream in(file.c_str()); std::string line, w;
  c.check((bool)std::getline(in, line), "the table has no header");
  std::vector<std::string> head; { std::istringstream s(line); while (s >> w) head.push_back(w); }
  std::map<std::string, size_t> col; for (size_t i = 0; i < head.size(); ++i) col[head[i]] = i;
  c.check(col.size() == head.size(), "two columns have the same name");
  for (const char* nm : {"t", "px", "py", "pz", "vx", "vy", "vz"}) if (!col.count(nm)) c.fail("the table has no column %s", nm);
  if (!e3) for (const char* nm : {"rw", "rx", "ry", "rz", "wx", "wy", "wz"}) if (!col.count(nm)) c.fail("the table has no column %s", nm);
  const double a = f.t.front(), b = f.t.back(), dt = (b - a) / (n - 1);
  double mag = 0; for (auto& p : f.p) mag = std::max(mag, p.getPosition().vector().norm());
  double m = b - a; for (size_t i = 1; i < f.t.size(); ++i) m = std::min(m, f.t[i] - f.t[i - 1]);
  // the sample times may differ from ours by rounding, which shows far from time 0
  const double et = 3e-16 * (n + 2) * (std::fabs(a) + std::fabs(b)), dn = f.d0.getTranslationalVelocity().vector().norm() + f.dT.getTranslationalVelocity().vector().norm();
  const double ev = et * (30 * mag / m + 10 * dn), ea = et * (300 * mag / m / m + 100 * dn / m), dw = f.d0.getRotationalVelocity().vector().norm() + f.dT.getRotationalVelocity().vector().norm();
  const double er = et * (30 / m + 10 * dw), ew = et * (300 / m / m + 100 * dw / m + 10 * dw * dw);
  int rows = 0;
  for (; std::getline(in, line); ++rows) {
    std::vector<double> r; std::istringstream s(line); while (s >> w) r.push_back(atof(w.c_str()));
    if (r.size() != head.size()) c.fail("row %d has %zu entries, the header names %zu columns", rows, r.size(), head.size());
    const double t = std::min(a + rows * dt, b);
    auto get = [&](const char* nm) { return r[col[nm]]; };
    c.near(get("t"), t, 2e-6 + 2 * et, "time of a row");
    Pose p; Twist6 d; Eigen::Vector3d x, v;
    if (e3) c.check(e.evaluate(x, t) && e.evaluateDerivative(v, t, 1), "evaluation failed");
    else { c.check(k.evaluate(p, t) && k.evaluateDerivative(d, t, 1), "evaluation failed"); x = p.getPosition().vector(); v = d.getTranslationalVelocity().vector(); }
    const double tx = 2e-6 + ev + 1e-9 * (mag + x.norm() + v.norm()), tv = 2e-6 + ea + 1e-8 * v.norm() + 1e-8 * mag / 1e-2;
    c.near(get("px"), x.x(), tx, "px"); c.near(get("py"), x.y(), tx, "py"); c.near(get("pz"), x.z(), tx, "pz");
    c.near(get("vx"), v.x(), tv, "vx"); c.near(get("vy"), v.y(), tv, "vy"); c.near(get("vz"), v.z(), tv, "vz");
    if (e3) continue;
    const auto& q = p.getRotation(); const double sg = get("rw") * q.w() + get("rx") * q.x() + get("ry") * q.y() + get("rz") * q.z() < 0 ? -1 : 1;
    const Eigen::Vector3d o = d.getRotationalVelocity().vector(); const double tw = 3e-6 + er + 1e-7 * o.norm(), to = 10 * tw + ew;
    c.near(get("rw"), sg * q.w(), tw, "rw"); c.near(get("rx"), sg * q.x(), tw, "rx"); c.near(get("ry"), sg * q.y(), tw, "ry"); c.near(get("rz"), sg * q.z(), tw, "rz");
    c.near(get("wx"), o.x(), to, "wx"); c.near(get("wy"), o.y(), to, "wy"); c.near(get("wz"), o.z(), to, "wz");
  }
  if (rows != n && rows != n - 1) c.fail("%d rows for %d samples", rows, n);      // the end point itself may be left out
  if (f.t.size() >= 3 && rows >= 3) c.nontrivial();
  if (c.chance(5)) c.check(!(e3 ? e.writeEvalToFile(file + ".missing/x", n) : k.writeEvalToFile(file + ".missing/x", n)), "writing into a missing directory reported success");
}
