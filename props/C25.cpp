// C25: separate objects can be used from separate threads, and one object can be read from several.
#include "objects.hpp"
#include "curves/helpers.hpp"
#include <atomic>
#include <thread>

const char* const kRule =
    "Case: 2..4 threads released together. Either each thread computes, fits, plays, edits and queries objects of its own (splines, containers, scalar and "
    "vector curves, coefficient managers, CSV files, position and pose Hermite curves; same or different kinds and data), or all threads query one and the same "
    "object through its const methods. Everything they observe must be bit for bit what the same work gives in one thread; the TSAN build also reports any "
    "unsynchronised access. Non-trivial: at least two threads work on the same kind of object.";

template <class K> static void own(const Job& j, Out& o) { K k; for (int r = 0; r < j.reps; ++r) { build(j, k); read(j, k, o); } }
template <> void own<Mgr>(const Job& j, Out& o) { Mgr k; for (int r = 0; r < j.reps; ++r) { build(j, k); read(j, k, o); Mgr l(k); read(j, l, o); o.push_back(l.equals(k)); k.clear(); } }

// All of a job in the calling thread.
static Out work(const Job& j) {
  Out o;
  switch (j.kind) {
    case SPLINE: for (int r = 0; r < j.reps; ++r) {
      const Fit& f = j.f; const double T = f.t[1] - f.t[0];
      Named<5>::Spline s(SplineOptions(T, f.p[0], f.p[1], f.v0, f.vT, f.a0, f.aT)); Named<3>::Spline u; u.computeCoefficients(SplineOptions(T, f.p[0], f.p[1], f.v0, f.vT, 0, 0));
      Named<4>::Spline w(SplineOptions(T, f.p[0], f.p[1], f.v0, f.vT, f.a0, f.aT));
      for (double t : j.q) { t -= f.t[0]; for (double x : {s.getPositionAtTime(t), s.getVelocityAtTime(t), s.getAccelerationAtTime(t), u.getPositionAtTime(t), w.getPositionAtTime(t)}) o.push_back(x); }
    } break;
    case QUINTIC: {
      Named<5>::Container k;
      for (int r = 0; r < j.reps; ++r) { build(j, k); read(j, k, o); for (int i = 0; i < 4; ++i) { o.push_back(k.advance(k.getContainerDuration() * 0.3)); o.push_back(k.getPosition()); } k.setContainerTime(j.q[0] - j.f.t[0]); o.push_back(k.getVelocity()); }
      break;
    }
    case CUBIC: own<Named<3>::Container>(j, o); break;
    case SCALAR: own<PolynomialSplineQuinticScalarCurve>(j, o); break;
    case VECTOR: own<Vec3>(j, o); break;
    case MANAGER: own<Mgr>(j, o); break;
    case E3: own<CubicHermiteE3Curve>(j, o); break;
    case SE3K: own<HK>(j, o); break;
    default: for (int r = 0; r < j.reps && r < 3; ++r) {
      std::vector<Eigen::VectorXd> v, w; std::vector<Time> t; for (double x : j.f.p) v.push_back(vec(x));
      writeTimeVectorCSV(j.file, j.f.t, v); loadTimeVectorCSV(j.file, &t, &w);
      for (double x : t) o.push_back(x); for (auto& x : w) for (int i = 0; i < x.size(); ++i) o.push_back(x(i));
    }
  }
  return o;
}
template <class F> static void together(int n, F f) {
  std::vector<std::thread> th; std::atomic<int> ready(0); std::atomic<bool> go(false);
  for (int i = 0; i < n; ++i) th.emplace_back([&, i] { ++ready; while (!go) std::this_thread::yield(); f(i); });
  while (ready < n) std::this_thread::yield();
  go = true; for (auto& t : th) t.join();
}
template <class K> static void shared(pbt::Case& c, const std::vector<Job>& jobs) {
  K k; build(jobs[0], k); const K& r = k;
  const int n = (int)jobs.size(); std::vector<Out> want(n), got(n);
  std::vector<Job> js(jobs); for (auto& j : js) { j.f = jobs[0].f; j.variant = jobs[0].variant; }
  // threads first: a lazily filled cache must not be filled by the reference run
  together(n, [&](int i) { for (int x = 0; x < js[i].reps; ++x) read(js[i], r, got[i]); });
  for (int i = 0; i < n; ++i) { for (int x = 0; x < js[i].reps; ++x) read(js[i], r, want[i]); if (!same(want[i], got[i])) c.fail("thread %d read something else from the shared %s than a single thread does", i, kNames[jobs[0].kind]); }
}

void property(pbt::Case& c) {
  const int n = (int)c.in(2, 4); const bool share = c.chance(40), oneKind = share || c.chance(60);
  std::vector<Job> jobs(n);
  for (int i = 0; i < n; ++i) {
    Job& j = jobs[i];
    j.kind = i && oneKind ? jobs[0].kind : c.pick({8, 16, 14, 12, 12, 16, 8, 8, 3});
    if (share && (j.kind == SPLINE || j.kind == CSV)) j.kind = QUINTIC;
    j.variant = (int)c.in(0, 7); j.reps = (int)c.in(1, c.chance(10) ? 30 : 4);
    j.f = genFit(c, 8); for (double& x : j.f.p) if (!(std::fabs(x) < 1e6)) x = 1.0;
    for (int q = (int)c.in(1, 6); q-- > 0;) j.q.push_back(c.queryTime(j.f.t));
    char b[32]; snprintf(b, sizeof b, "/job%d.csv", i); j.file = pbt::scratchDir() + b;
    if (!share || i == 0) { c.note("%s thread %d: %s, variant %d, %d times", share ? "shared," : "own objects,", i, kNames[j.kind], j.variant, j.reps); j.f.note(c); }
  }
  bool twin = false; for (int i = 0; i < n; ++i) for (int k = 0; k < i; ++k) twin |= jobs[i].kind == jobs[k].kind;
  if (twin) c.nontrivial();
  c.label(share ? "shared object" : "own objects"); c.label(kNames[jobs[0].kind]);
  if (share) {
    switch (jobs[0].kind) {
      case QUINTIC: shared<Named<5>::Container>(c, jobs); break;
      case CUBIC: shared<Named<3>::Container>(c, jobs); break;
      case SCALAR: shared<PolynomialSplineQuinticScalarCurve>(c, jobs); break;
      case VECTOR: shared<Vec3>(c, jobs); break;
      case MANAGER: shared<Mgr>(c, jobs); break;
      case E3: shared<CubicHermiteE3Curve>(c, jobs); break;
      default: shared<HK>(c, jobs);
    }
    return;
  }
  std::vector<Out> got(n);
  together(n, [&](int i) { got[i] = work(jobs[i]); });
  for (int i = 0; i < n; ++i) if (!same(work(jobs[i]), got[i])) c.fail("thread %d (%s) got another result than the same work in a single thread", i, kNames[jobs[i].kind]);
}
