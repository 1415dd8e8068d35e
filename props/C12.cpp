// C12: the coefficient manager behaves as a sorted time -> (stable key, value) map over any history.
#include "mgrmodel.hpp"
using namespace curves;

const char* const kRule =
    "Case: a history of 1..60 operations (insert, overwrite, batch insert, add at end, move/modify, modify batch, remove by key or "
    "time, update by key or map, clear, and calls documented as errors) on a coefficient manager of numbers or heap vectors, "
    "compared with a reference map through every accessor after every step. Non-trivial: at least 6 operations of which one "
    "overwrites, moves or removes an existing coefficient.";

template <class C> static void run(pbt::Case& c) {
  typedef LocalSupport2CoefficientManager<C> M;
  M m; MgrModel<C> r; std::set<Key> ever;
  double ctr = 1; bool touched = false;
  const bool big = c.choose(512) == 511;
  const int ops = big ? (int)c.in(1, 6) : c.chance(20) ? (int)c.in(10, c.chance(2) ? 300 : 60) : (int)c.in(1, 15);
  auto val = [&]() { return c.chance(10) && !r.e.empty() ? r.e.begin()->second.v : (ctr += 1); };
  auto some = [&]() { auto i = r.e.begin(); std::advance(i, c.choose(r.e.size())); return i; };
  auto fresh = [&](Key k) { if (!ever.insert(k).second) c.fail("key %zu was issued before", k); };
  auto insModel = [&](double t, double v, Key k) {
    auto i = r.e.find(t);
    if (i != r.e.end()) { touched = true; if (k != i->second.key) c.fail("overwriting the coefficient at %.17g changed its key from %zu to %zu", t, i->second.key, k); i->second.v = v; }
    else { fresh(k); r.e[t] = Ent{k, v}; }
  };
  c.note("coefficient type %s", Make<C>::name());
  if (big) {
    const size_t n = (size_t)c.in(60, 700); const double step = c.chance(50) ? 1.0 : c.spacing(0.001, 10), t0 = genTime(c); c.label("many coefficients"); c.note("insert %zu coefficients from %.17g, every %.17g", n, t0, step);
    std::vector<Time> t(n); std::vector<C> v(n); std::vector<Key> k; double x = t0;
    for (size_t i = 0; i < n; ++i) { t[i] = x; x = std::max(x + step, std::nextafter(x, HUGE_VAL)); v[i] = Make<C>::of(ctr + 1 + i); }
    if (c.chance(50)) { m.insertCoefficients(t, v, &k); c.check(k.size() == n, "insertCoefficients() did not append one key per coefficient"); }
    else for (size_t i = 0; i < n; ++i) m.addCoefficientAtEnd(t[i], v[i], &k);
    for (size_t i = 0; i < n; ++i) insModel(t[i], ctr + 1 + i, k[i]);
    ctr += n + 1; r.same(c, m, ever);
  }
  for (int op = 0; op < ops; ++op) {
    const bool has = !r.e.empty();
    switch (c.pick({22, 12, 8, 12, 10, 6, 9, 7, 6, 3, 2, 3})) {
      case 0: { const double t = genTime(c), v = val(); c.note("insert at %.17g", t); insModel(t, v, m.insertCoefficient(t, Make<C>::of(v))); break; }
      case 1: { if (!has) break; const double t = some()->first, v = val(); c.note("overwrite at %.17g", t); insModel(t, v, m.insertCoefficient(t, Make<C>::of(v))); break; }
      case 2: {
        const size_t n = c.choose(4096) == 4095 ? (size_t)c.in(100, 700) : (size_t)c.in(0, 8); c.labelIf(n > 8, "batch of >100"); std::vector<Time> t(n); std::vector<C> v(n); std::vector<double> d(n);
        for (size_t i = 0; i < n; ++i) { t[i] = i && c.chance(15) ? t[c.choose(i)] : genTime(c); d[i] = val(); v[i] = Make<C>::of(d[i]); }
        c.noteVec("insert batch", t);
        std::vector<Key> k; const size_t pre = c.choose(3); k.assign(pre, 5);
        if (c.chance(70)) {
          m.insertCoefficients(t, v, &k);
          c.check(k.size() == pre + n, "insertCoefficients() did not append one key per coefficient");
          for (size_t i = 0; i < n; ++i) insModel(t[i], d[i], k[pre + i]);
        } else {
          m.insertCoefficients(t, v);
          std::vector<Key> all; m.getKeys(&all); std::vector<Time> tt; m.getTimes(&tt);
          for (size_t i = 0; i < n; ++i) { size_t j = std::find(tt.begin(), tt.end(), t[i]) - tt.begin(); c.check(j < tt.size() && j < all.size(), "an inserted coefficient is missing"); insModel(t[i], d[i], all[j]); }
        }
        break;
      }
      case 3: {
        const double t = has ? r.maxTime() + (c.chance(80) ? c.spacing(0.01, 10) : 1e-9 * (1 + std::fabs(r.maxTime()))) : genTime(c), v = val();
        std::vector<Key> k{5}; const bool out = c.chance(80);
        c.note("add at end %.17g", t);
        if (out) { m.addCoefficientAtEnd(t, Make<C>::of(v), &k); c.check(k.size() == 2 && k[0] == 5, "addCoefficientAtEnd() did not append its key"); }
        else { m.addCoefficientAtEnd(t, Make<C>::of(v)); std::vector<Key> a; m.getKeys(&a); c.check(!a.empty(), "nothing added"); k.push_back(a.back()); }
        insModel(t, v, k[1]); break;
      }
      case 4: {
        if (!has) break;
        auto i = some(); const double v = val(); double t = i->first;
        if (c.chance(85)) { do { const int how = c.pick({40, 40, 10, 10}); t = how == 0 ? i->first + c.real(-2, 2) : how == 1 ? genTime(c) : how == 2 ? std::nextafter(i->first, c.chance(50) ? HUGE_VAL : -HUGE_VAL) : i->first + (c.chance(50) ? -1 : 1) * c.logReal(1e-12, 1e-3); } while (r.e.count(t) && t != i->first); }
        c.note("move %.17g to %.17g", i->first, t);
        auto it = m.coefficientBegin(); while (it != m.coefficientEnd() && it->first != i->first) ++it;
        c.check(it != m.coefficientEnd(), "a stored coefficient is missing");
        m.modifyCoefficient(it, t, Make<C>::of(v));
        const Key k = i->second.key; r.e.erase(i->first); r.e[t] = Ent{k, v}; touched = true; break;
      }
      case 5: {
        if (!has) break;
        size_t a = c.choose(r.e.size()), n = 1 + c.choose(r.e.size() - a); std::vector<Time> t; std::vector<C> v;
        auto i = r.e.begin(); std::advance(i, a);
        for (size_t j = 0; j < n; ++j, ++i) { i->second.v = val(); t.push_back(i->first); v.push_back(Make<C>::of(i->second.v)); }
        c.noteVec("modify batch", t); m.modifyCoefficientsValuesInBatch(t, v); touched = true; break;
      }
      case 6: { if (!has) break; auto i = some(); c.note("remove key at %.17g", i->first); m.removeCoefficientWithKey(i->second.key); r.e.erase(i->first); touched = true; break; }
      case 7: { if (!has) break; auto i = some(); c.note("remove at %.17g", i->first); m.removeCoefficientAtTime(i->first); r.e.erase(i->first); touched = true; break; }
      case 8: { if (!has) break; auto i = some(); i->second.v = val(); c.note("update key at %.17g", i->first); m.updateCoefficientByKey(i->second.key, Make<C>::of(i->second.v)); touched = true; break; }
      case 9: {
        typename M::CoefficientMap u; c.note("update from a map");
        for (auto& x : r.e) if (c.chance(50)) { x.second.v = val(); u[x.second.key] = Make<C>::of(x.second.v); }
        m.updateCoefficients(u); touched = true; break;
      }
      case 10: c.note("clear"); m.clear(); r.e.clear(); break;
      default: {   // documented errors (forked: they abort)
        if (!c.chance(20)) break;
        Key dead = 0; for (Key k : ever) if (r.byKey(k) == r.e.end()) dead = k;
        double t = genTime(c); while (r.e.count(t)) t += 1;
        const C v = Make<C>::of(1); const char* what = ""; std::function<void()> f;
        switch (c.in(0, 6)) {
          case 0: what = "removing a key that does not exist"; f = [&] { m.removeCoefficientWithKey(dead); }; break;
          case 1: what = "removing at a time without coefficient"; f = [&] { m.removeCoefficientAtTime(t); }; break;
          case 2: what = "updating a key that does not exist"; f = [&] { m.updateCoefficientByKey(dead, v); }; break;
          case 3: what = "reading a key that does not exist"; f = [&] { m.getCoefficientByKey(dead); }; break;
          case 4: what = "reading the time of a key that does not exist"; f = [&] { m.getCoefficientTimeByKey(dead); }; break;
          case 5: what = "updating from a map with a key that does not exist"; f = [&] { typename M::CoefficientMap u; for (auto& x : r.e) if (c.chance(50)) u[x.second.key] = v; u[dead] = v; m.updateCoefficients(u); }; break;
          default: what = "adding at the end before the last coefficient"; if (!has) break; f = [&] { m.addCoefficientAtEnd(c.chance(50) ? r.maxTime() : r.maxTime() - 1, v); };
        }
        if (f) { c.note("error: %s", what); c.label("error call"); if (!c.dies(f)) c.fail("%s did not fail", what); }
      }
    }
    r.same(c, m, ever);
  }
  if (ops >= 6 && touched) c.nontrivial();
  c.labelIf(r.e.size() > 10, ">10 coefficients at the end"); c.labelIf(touched, "overwrite/move/remove");
}
void property(pbt::Case& c) { if (c.chance(50)) { c.label("heap vectors"); run<Eigen::VectorXd>(c); } else { c.label("small vectors"); run<Small>(c); } }
