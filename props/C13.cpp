// C13: time queries of the coefficient manager.
#include "mgrmodel.hpp"
using namespace curves;

const char* const kRule =
    "Case: a manager with 0..40 coefficients built by shuffled inserts, moves and removals, then bracket queries, range queries and "
    "end-window queries at times at, one ulp around, between, before and after the coefficients, compared with a linear scan. "
    "Non-trivial: at least 3 coefficients and one query strictly inside.";

template <class C> static void run(pbt::Case& c) {
  typedef LocalSupport2CoefficientManager<C> M;
  M m; MgrModel<C> r; double ctr = 0;
  const size_t n = c.pick({6, 8, 66, 20}) == 0 ? 0 : c.chance(8) ? 1 : c.chance(15) ? (size_t)c.in(2, c.chance(3) ? 500 : 40) : (size_t)c.in(2, 9);
  for (size_t i = 0; i < n; ++i) { const double t = genTime(c), v = ++ctr; const Key k = m.insertCoefficient(t, Make<C>::of(v)); r.e[t] = Ent{k, v}; }
  if (c.chance(30)) for (int i = 0; i < 3 && r.e.size() > 1; ++i) {
    auto x = r.e.begin(); std::advance(x, c.choose(r.e.size()));
    if (c.chance(50)) { m.removeCoefficientAtTime(x->first); r.e.erase(x); }
    else { const double t = genTime(c); if (r.e.count(t)) continue; auto it = m.coefficientBegin(); while (it != m.coefficientEnd() && it->first != x->first) ++it;
      c.check(it != m.coefficientEnd(), "a stored coefficient is missing"); m.modifyCoefficient(it, t, Make<C>::of(x->second.v)); Ent e = x->second; r.e.erase(x); r.e[t] = e; }
  }
  std::vector<double> t; for (auto& x : r.e) t.push_back(x.first);
  c.noteVec("coefficient times", t);
  const M& k = m;
  bool inside = false;
  for (int q = 0; q < 10; ++q) {
    const double x = c.chance(2) ? c.chance(50) ? HUGE_VAL : -HUGE_VAL : c.queryTime(t);
    c.note("bracket query %.17g", x);
    typename M::CoefficientIter a, b;
    const bool ok = k.getCoefficientsAt(x, &a, &b);
    const bool want = t.size() >= 2 && x >= t.front() && x <= t.back();
    if (ok != want) c.fail("bracket query at %.17g %s", x, ok ? "succeeded outside the coefficients" : "failed inside the coefficients");
    if (!ok) continue;
    inside |= x > t.front() && x < t.back();
    size_t i = 0; while (i + 2 < t.size() && t[i + 1] <= x) ++i;   // last interval also owns the end
    if (a->first != t[i] || b->first != t[i + 1]) c.fail("bracket of %.17g is [%.17g, %.17g], expected [%.17g, %.17g]", x, a->first, b->first, t[i], t[i + 1]);
    c.check(a->second.key == r.e[t[i]].key && b->second.key == r.e[t[i + 1]].key, "bracket has wrong keys");
    c.check(a->second.coefficient == Make<C>::of(r.e[t[i]].v) && b->second.coefficient == Make<C>::of(r.e[t[i + 1]].v), "bracket has wrong coefficients");
  }
  if (t.size() >= 3 && inside) c.nontrivial();
  c.labelIf(t.empty(), "empty"); c.labelIf(t.size() == 1, "one coefficient"); c.labelIf(t.size() > 9, ">9 coefficients");
  for (int q = 0; q < 6; ++q) {
    double s = c.queryTime(t), e = c.queryTime(t);
    if (c.chance(3)) s = -HUGE_VAL; if (c.chance(3)) e = HUGE_VAL;
    if (s > e && c.chance(85)) std::swap(s, e);
    c.note("range query [%.17g, %.17g]", s, e);
    std::set<Key> want, may;
    if (!t.empty() && s <= e && s <= t.back() && e >= t.front()) {
      const double s1 = std::max(s, t.front()), e1 = std::min(e, t.back());
      // active in the range: from the last one at or before its start to the first one at or after its end
      size_t i = 0; while (i + 1 < t.size() && t[i + 1] <= s1) ++i;
      size_t j = i; while (j + 1 < t.size() && t[j] < e1) ++j;
      for (size_t z = i; z <= j; ++z) want.insert(r.e[t[z]].key);
    }
    typename M::CoefficientMap got; std::set<Key> old;
    if (c.chance(20)) {   // a map still holding older results: what is in the range must come out with its present value
      for (auto& x : r.e) if (c.chance(50)) { got[x.second.key] = Make<C>::of(-7.0); old.insert(x.second.key); }
      c.label("used result map");
    }
    k.getCoefficientsInRange(s, e, &got);
    for (Key w : want) if (!got.count(w)) c.fail("range query [%.17g, %.17g] misses the coefficient at %.17g", s, e, r.byKey(w)->first);
    for (auto& g : got) {
      auto y = r.byKey(g.first); c.check(y != r.e.end(), "range query returns an unknown key");
      if (!want.count(g.first) && old.count(g.first)) continue;
      if (!want.count(g.first)) c.fail("range query [%.17g, %.17g] returns the coefficient at %.17g", s, e, y->first);
      c.check(g.second == Make<C>::of(y->second.v), "range query returns a wrong coefficient");
    }
  }
  if (!t.empty()) for (int q = 0; q < 4; ++q) {
    double b = c.queryTime(t); if (b < t.front()) b = t.front();
    c.note("window query from %.17g", b);
    std::vector<Time> got{3.0, 4.0}, want; for (double x : t) if (x >= b) want.push_back(x);
    k.getTimesInWindow(&got, b, t.back());
    if (got != want) { c.noteVec("got", got); c.fail("window query from %.17g returns %zu times, expected %zu%s", b, got.size(), want.size(), got.size() == want.size() ? " (others)" : ""); }
  }
  if (t.size() && c.chance(2)) {
    std::vector<Time> got; const double e = t.back() + 1;
    c.check(c.dies([&] { k.getTimesInWindow(&got, t.front(), e); }), "a window that does not end at the last coefficient was accepted");
    c.check(c.dies([&] { k.getTimesInWindow(&got, t.front() - 1, t.back()); }), "a window that starts before the first coefficient was accepted");
  }
}
void property(pbt::Case& c) { if (c.chance(30)) run<Eigen::VectorXd>(c); else run<Small>(c); }
