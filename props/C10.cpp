// C10: a vector-space curve is one scalar curve per axis.
#include "pbt.hpp"
#include "gen_fit.hpp"
#include "curves/PolynomialSplineScalarCurve.hpp"
#include "curves/PolynomialSplineVectorSpaceCurve.hpp"
using namespace curves;

const char* const kRule =
    "Case: a vector curve of dimension 1, 2, 3, 4, 6 or 9, fresh, used or cleared, fitted to 2..10 knots by one of its three fit "
    "overloads (values only; end velocities and accelerations; full derivative lists), different data on every axis; every "
    "axis is compared with a scalar curve fitted to that axis, and with the knots directly, at query times inside, at knots and "
    "outside. Non-trivial: dimension >= 2, start time not 0, axes with different values.";

template <int N> static void run(pbt::Case& c) {
  typedef PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, N> V;
  typedef typename V::ValueType Val;
  V k;
  c.check(k.getMinTime() == 0.0 && k.getMaxTime() == 0.0, "a new curve is not at time 0");
  auto fit = [&](const std::vector<Fit>& ax, int overload) {
    const size_t n = ax[0].t.size();
    std::vector<Val> v(n), d1(n), d2(n); Val v0, a0, vT, aT;
    for (int i = 0; i < N; ++i) {
      v0(i) = ax[i].v0; a0(i) = ax[i].a0; vT(i) = ax[i].vT; aT(i) = ax[i].aT;
      for (size_t j = 0; j < n; ++j) { v[j](i) = ax[i].p[j]; d1[j](i) = 17.0 + j; d2[j](i) = -23.0 - j; }
    }
    d1.front() = v0; d1.back() = vT; d2.front() = a0; d2.back() = aT;
    if (overload == 0) k.fitCurve(ax[0].t, v);
    else if (overload == 1) k.fitCurve(ax[0].t, v, v0, a0, vT, aT);
    else k.fitCurve(ax[0].t, v, d1, d2);
  };
  auto gen = [&](int maxKnots, int overload) {
    std::vector<Fit> ax(N); ax[0] = genFit(c, maxKnots);
    for (int i = 1; i < N; ++i) {
      ax[i] = ax[0];
      for (double& x : ax[i].p) x = c.value();
      if (c.chance(10)) ax[i].p = ax[c.choose(i)].p;   // axes that agree, wholly or in part
      else if (c.chance(5)) ax[i].p.front() = ax[c.choose(i)].p.front();
      ax[i].v0 = c.value(100.0); ax[i].a0 = c.value(100.0); ax[i].vT = c.value(100.0); ax[i].aT = c.value(100.0);
    }
    for (auto& a : ax) { if (overload == 0) a.v0 = a.a0 = a.vT = a.aT = 0; a.finish(true, true); }
    return ax;
  };
  const int before = c.pick({50, 30, 20});
  if (before) { const int o = (int)c.in(0, 2); fit(gen(c.chance(20) ? 12 : 4, o), o); }
  if (before == 2) {
    k.clear(); Val v; v.setConstant(7.0);
    c.check(k.getMinTime() == 0.0 && k.getMaxTime() == 0.0, "a cleared curve still covers a time range");
    c.check(k.evaluate(v, c.value(10.0)), "evaluate returned false");
    c.check(v == Val::Zero(), "a cleared curve is not 0");
  }
  if (c.chance(8)) {   // a fit to invalid knots leaves an empty curve
    const int o = (int)c.in(0, 2); auto bad = gen(4, o); const int kind = c.pick({40, 20, 40});
    for (auto& a : bad) {
      if (kind < 2) { a.t.resize(kind); a.p.resize(kind); } else a.t.back() = a.t[a.t.size() - 2];
    }
    if (kind == 0) {
      std::vector<Val> none; Val z = Val::Zero();
      if (o == 0) k.fitCurve(std::vector<Time>(), none); else if (o == 1) k.fitCurve(std::vector<Time>(), none, z, z, z, z); else k.fitCurve(std::vector<Time>(), none, none, none);
    } else fit(bad, o);
    Val v; v.setConstant(7.0);
    c.check(k.getMinTime() == k.getMaxTime(), "a curve fitted to invalid knots covers a time range");
    c.check(k.evaluate(v, c.value(10.0)), "evaluate returned false");
    c.check(v == Val::Zero(), "a curve fitted to invalid knots is not 0");
    c.label("invalid fit before");
  }
  const int overload = c.pick({30, 40, 30});
  auto ax = gen(10, overload);
  const auto& t = ax[0].t; const size_t n = t.size();
  c.note("dimension %d, fit overload %d, curve %s", N, overload, before == 0 ? "fresh" : before == 1 ? "used" : "cleared");
  for (auto& a : ax) a.note(c);
  fit(ax, overload);
  if (c.chance(5)) { V q(k); fit(gen(3, 1), 1); k = q; c.label("copied"); }
  if (N >= 2 && t[0] != 0.0 && ax[0].p != ax[1 % N].p) c.nontrivial();
  c.labelIf(overload == 0, "values only"); c.labelIf(overload == 1, "end derivatives"); c.labelIf(overload == 2, "derivative lists"); c.labelIf(before, "used curve");
  std::vector<PolynomialSplineQuinticScalarCurve> s(N);
  for (int i = 0; i < N; ++i) s[i].fitCurve(t, ax[i].p, ax[i].v0, ax[i].a0, ax[i].vT, ax[i].aT);
  const double span = 1 + std::fabs(t.front()) + std::fabs(t.back());
  c.check(k.getMinTime() == t.front(), "the curve does not start at its first knot time");
  c.near(k.getMaxTime(), t.back(), 1e-12 * span * n, "end time of the curve");
  std::vector<double> q(t); for (int i = 0; i < 6; ++i) q.push_back(c.queryTime(t));
  for (size_t j = 0; j < q.size(); ++j) {
    Val v, d, a; c.check(k.evaluate(v, q[j]) && k.evaluateDerivative(d, q[j], 1) && k.evaluateDerivative(a, q[j], 2), "evaluation failed");
    for (int i = 0; i < N; ++i) {
      double w, e, b; s[i].evaluate(w, q[j]); s[i].evaluateDerivative(e, q[j], 1); s[i].evaluateDerivative(b, q[j], 2);
      const double tol = ax[i].tol(), m = ax[i].minDt;
      c.note("axis %d t=%.17g", i, q[j]);
      c.near(v(i), w, tol, "value vs the scalar curve of the axis");
      c.near(d(i), e, 10 * tol / m, "velocity vs the scalar curve of the axis");
      c.near(a(i), b, 100 * tol / m / m, "acceleration vs the scalar curve of the axis");
      if (j < n) c.near(v(i), ax[i].p[j], 2 * tol, "value at a knot");
    }
  }
  Val v;
  for (unsigned o : {0u, 3u, 5u}) c.check(!k.evaluateDerivative(v, t[0], o), "an unsupported derivative order was accepted");
  if (c.chance(20)) {
    bool threw = false;
    try { k.extend(t, std::vector<Val>(n), nullptr); } catch (const std::runtime_error&) { threw = true; }
    c.check(threw, "the unsupported extend reported success");
    threw = false;
    try { k.fitCurve(std::vector<SplineOptions>(), (std::vector<Key>*)nullptr); } catch (const std::runtime_error&) { threw = true; }
    c.check(threw, "the unsupported option-list fit reported success");
  }
}
void property(pbt::Case& c) {
  switch (c.pick({40, 18, 18, 16, 4, 4})) {
    case 0: c.label("dim3"); run<3>(c); break;
    case 1: c.label("dim1"); run<1>(c); break;
    case 2: c.label("dim2"); run<2>(c); break;
    case 4: c.label("dim4"); run<4>(c); break;
    case 5: c.label("dim9"); run<9>(c); break;
    default: c.label("dim6"); run<6>(c);
  }
}
