// C23: curves from ROS trajectory messages.
#include "se3.hpp"
#include "gen_fit.hpp"
#include "curves_ros/RosJointTrajectoryInterface.hpp"
#include "curves_ros/RosMultiDOFJointTrajectoryInterface.hpp"
#include "curves_ros/RosMultiDOFJointTrajectoryTranslationInterface.hpp"
using namespace curves;

const char* const kRule =
    "Case: a joint or multi-DOF trajectory message with 0..6 differently named joints and 2..12 points at increasing times from start, and a requested joint name that is in the message (80 %) or not; "
    "the resulting curve must cover the message's times and take the named joint's values at them, whatever other joints the message has; an absent name must be refused and leave the curve as it was. "
    "Non-trivial: at least 2 joints, a joint other than the first requested, at least 3 points.";

struct Msg {
  std::vector<std::string> names; std::vector<ros::Duration> d; std::vector<double> t; std::string want; int j = -1;
};
static Msg gen(pbt::Case& c) {
  Msg m;
  static const char* pool[] = {"base", "LF_HAA", "LF_HFE", "joint", "joint1", "joint11", "", "RH_KFE", "Base", "a b"};
  std::vector<std::string> left(pool, pool + 10);
  const size_t nj = c.pick({10, 90}) == 0 ? 0 : (size_t)c.in(1, c.chance(2) ? 40 : 6);
  if (c.chance(15)) for (const char* x : {"left_front_leg_upper_joint_position_a", "left_front_leg_upper_joint_position_b", "left_front_leg_upper_joint_position", "robot/left_front_leg_upper_joint_position_a"}) left.push_back(x);
  for (size_t i = 0; nj > 6 && i < nj; ++i) left.push_back("joint_" + std::to_string(i));
  for (size_t i = 0; i < nj; ++i) { size_t x = c.choose(left.size()); m.names.push_back(left[x]); left.erase(left.begin() + x); }
  const size_t n = c.chance(20) ? (size_t)c.in(2, c.chance(2) ? 80 : 12) : (size_t)c.in(2, 5);
  int64_t ns = c.chance(50) ? 0 : c.chance(90) ? (int64_t)c.choose(20000000000ull) : (int64_t)c.logReal(1e10, 1e17);
  for (size_t i = 0; i < n; ++i) {
    if (i) ns += c.chance(50) ? 1000000000ll * c.in(1, 3) : (int64_t)(c.logReal(0.05, 3.0) * 1e9);
    m.d.push_back(ros::Duration((int32_t)(ns / 1000000000ll), (int32_t)(ns % 1000000000ll))); m.t.push_back(m.d.back().toSec());
  }
  if (!m.names.empty() && c.chance(80)) { m.j = (int)c.choose(nj); m.want = m.names[m.j]; } else m.want = c.of(left);
  c.note("joints:"); for (auto& s : m.names) c.note("  '%s'", s.c_str());
  c.note("requested '%s'", m.want.c_str()); c.noteVec("times from start", m.t);
  if (nj >= 2 && m.j >= 1 && n >= 3) c.nontrivial();
  c.labelIf(m.j < 0, "absent name"); c.labelIf(m.names.empty(), "no joints");
  return m;
}
static double minDt(const std::vector<double>& t) { double d = 1e9; for (size_t i = 1; i < t.size(); ++i) d = std::min(d, t[i] - t[i - 1]); return d; }

static void scalar(pbt::Case& c) {
  Msg m = gen(c); trajectory_msgs::JointTrajectory msg; msg.joint_names = m.names;
  double mag = 0; std::vector<double> vals;
  for (size_t i = 0; i < m.t.size(); ++i) {
    trajectory_msgs::JointTrajectoryPoint p; p.time_from_start = m.d[i];
    for (size_t j = 0; j < m.names.size(); ++j) { p.positions.push_back(c.value(100)); if ((int)j == m.j) { vals.push_back(p.positions.back()); mag = std::max(mag, std::fabs(vals.back())); } }
    msg.points.push_back(p);
  }
  c.noteVec("values of the joint", vals);
  RosJointTrajectoryInterface k;
  const bool used = c.chance(40); if (used) k.fitCurve({3.0, 4.0, 6.0}, {1.0, 2.0, -1.0});
  const bool ok = k.fromMessage(msg, m.want);
  c.check(ok == (m.j >= 0), m.j >= 0 ? "a joint of the message was refused" : "a joint that is not in the message was accepted");
  double v;
  if (!ok) {
    if (used) { c.check(k.getMinTime() == 3.0 && k.getMaxTime() == 6.0, "a refused message changed the curve"); k.evaluate(v, 4.0); c.near(v, 2.0, 1e-9, "a refused message changed the curve"); }
    return;
  }
  c.check(k.getMinTime() == m.t.front(), "first time of the curve"); c.near(k.getMaxTime(), m.t.back(), 1e-9, "last time of the curve");
  for (size_t i = 0; i < m.t.size(); ++i) { c.check(k.evaluate(v, m.t[i]), "evaluation failed"); c.near(v, vals[i], 1e-5 * mag + 1e-300, "value at a point of the message"); }
  for (double s : {m.t.front(), m.t.back()}) { k.evaluateDerivative(v, s, 1); c.near(v, 0, 1e-3 * mag / minDt(m.t) + 1e-300, "end velocity"); }
}
template <class K> struct Is { static const bool se3 = false; };
template <> struct Is<RosMultiDOFJointTrajectoryInterface> { static const bool se3 = true; };
static Eigen::Vector3d posOf(pbt::Case& c, RosMultiDOFJointTrajectoryInterface& k, double t, Q* q) { Pose p; c.check(k.evaluate(p, t), "evaluation failed"); *q = toQ(p.getRotation()); return p.getPosition().vector(); }
static Eigen::Vector3d posOf(pbt::Case& c, RosMultiDOFJointTrajectoryTranslationInterface& k, double t, Q*) { Eigen::Vector3d p; c.check(k.evaluate(p, t), "evaluation failed"); return p; }
static void prefit(RosMultiDOFJointTrajectoryInterface& k) { k.fitCurve({3.0, 4.0, 6.0}, {Pose(), Pose(Pose::Position(1, 2, 3), Pose::Rotation()), Pose()}); }
static void prefit(RosMultiDOFJointTrajectoryTranslationInterface& k) { k.fitCurve({3.0, 4.0, 6.0}, {Eigen::Vector3d(0, 0, 0), Eigen::Vector3d(1, 2, 3), Eigen::Vector3d(0, 0, 0)}); }
template <class K> static void multi(pbt::Case& c) {
  Msg m = gen(c); trajectory_msgs::MultiDOFJointTrajectory msg; msg.joint_names = m.names;
  std::vector<geometry_msgs::Transform> vals; double mag = 0;
  for (size_t i = 0; i < m.t.size(); ++i) {
    trajectory_msgs::MultiDOFJointTrajectoryPoint p; p.time_from_start = m.d[i];
    for (size_t j = 0; j < m.names.size(); ++j) {
      geometry_msgs::Transform x; const Eigen::Vector3d v = genVec(c, 100); Pose::Rotation r = genRot(c); r.fix();
      x.translation.x = v.x(); x.translation.y = v.y(); x.translation.z = v.z(); x.rotation.w = r.w(); x.rotation.x = r.x(); x.rotation.y = r.y(); x.rotation.z = r.z();
      p.transforms.push_back(x); if ((int)j == m.j) { vals.push_back(x); mag = std::max(mag, v.cwiseAbs().maxCoeff()); }
    }
    msg.points.push_back(p);
  }
  for (size_t i = 0; i < vals.size() && c.verbose(); ++i) c.note("transform of the joint: %.17g %.17g %.17g", vals[i].translation.x, vals[i].translation.y, vals[i].translation.z);
  K k; const bool used = c.chance(40); if (used) prefit(k);
  const bool ok = k.fromMessage(msg, m.want);
  c.check(ok == (m.j >= 0), m.j >= 0 ? "a joint of the message was refused" : "a joint that is not in the message was accepted");
  Q q{1, L3(0, 0, 0)};
  if (!ok) {
    if (used) { c.check(k.getMinTime() == 3.0 && k.getMaxTime() == 6.0, "a refused message changed the curve"); c.near((posOf(c, k, 4.0, &q) - Eigen::Vector3d(1, 2, 3)).norm(), 0, 1e-9, "a refused message changed the curve"); }
    return;
  }
  c.check(k.getMinTime() == m.t.front(), "first time of the curve"); c.near(k.getMaxTime(), m.t.back(), 1e-9, "last time of the curve");
  for (size_t i = 0; i < m.t.size(); ++i) {
    const double t = Is<K>::se3 ? m.t[i] : m.t[i];
    const Eigen::Vector3d p = posOf(c, k, t, &q); const auto& v = vals[i].translation; const auto& r = vals[i].rotation;
    c.near(p.x(), v.x, 1e-5 * mag + 1e-300, "x at a point of the message"); c.near(p.y(), v.y, 1e-5 * mag + 1e-300, "y at a point of the message"); c.near(p.z(), v.z, 1e-5 * mag + 1e-300, "z at a point of the message");
    if (Is<K>::se3) c.near(angleBetween(q, Q{(L)r.w, L3(r.x, r.y, r.z)}), 0, 1e-6, "rotation at a point of the message");
  }
}
void property(pbt::Case& c) {
  switch (c.pick({34, 33, 33})) {
    case 0: c.label("joint"); scalar(c); break;
    case 1: c.label("multi-DOF poses"); multi<RosMultiDOFJointTrajectoryInterface>(c); break;
    default: c.label("multi-DOF positions"); multi<RosMultiDOFJointTrajectoryTranslationInterface>(c);
  }
}
