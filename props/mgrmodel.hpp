// Reference model of the coefficient manager: a sorted map from time to (key, value).
#pragma once
#include "pbt.hpp"
#include "curves/LocalSupport2CoefficientManager.hpp"
#include <map>
#include <set>
#include <algorithm>
#include <limits>

// Coefficient types: a plain number and a heap-allocated vector.
template <class C> struct Make;
typedef Eigen::Vector2d Small;       // held in place; an Eigen type like every coefficient of the library, so that code written for those compiles
template <> struct Make<Small> { static Small of(double x) { return Small(x, 0.5 * x); } static const char* name() { return "Vector2d"; } };
template <> struct Make<Eigen::VectorXd> {
  static Eigen::VectorXd of(double x) { Eigen::VectorXd v(3); v << x, -x, x + 1; return v; } static const char* name() { return "vector"; } };

struct Ent { curves::Key key; double v; };
template <class C> struct MgrModel {
  typedef curves::LocalSupport2CoefficientManager<C> M;
  std::map<double, Ent> e;
  double minTime() const { return e.empty() ? 0.0 : e.begin()->first; }
  double maxTime() const { return e.empty() ? 0.0 : e.rbegin()->first; }
  std::map<double, Ent>::const_iterator byKey(curves::Key k) const { for (auto i = e.begin(); i != e.end(); ++i) if (i->second.key == k) return i; return e.end(); }
  // Everything observable of m equals the model.
  void same(pbt::Case& c, const M& m, const std::set<curves::Key>& ever) const {
    if (m.size() != e.size()) c.fail("size() is %zu, expected %zu", (size_t)m.size(), e.size());
    c.check(m.empty() == e.empty(), "empty()");
    c.check(m.getMinTime() == minTime(), "getMinTime()"); c.check(m.getMaxTime() == maxTime(), "getMaxTime()");
    std::vector<curves::Time> t{42.0}; m.getTimes(&t);
    if (t.size() != e.size()) c.fail("getTimes() returns %zu times, expected %zu", t.size(), e.size());
    std::vector<curves::Key> k{7777777}; m.getKeys(&k);
    if (k.size() != e.size()) c.fail("getKeys() returns %zu keys, expected %zu", k.size(), e.size());
    std::vector<curves::Key> k3(e.size(), 5); m.getKeys(&k3); c.check(k3 == k, "getKeys() depends on what the vector held");
    std::vector<curves::Time> t3(e.size() + 1, -1.0); m.getTimes(&t3); c.check(t3 == t, "getTimes() depends on what the vector held");
    std::vector<curves::Key> k2{123456789}; m.appendKeys(&k2);
    c.check(k2.size() == e.size() + 1 && k2[0] == 123456789, "appendKeys() does not append");
    size_t i = 0; auto it = m.coefficientBegin();
    for (auto& x : e) {
      if (t[i] != x.first) c.fail("time %zu is %.17g, expected %.17g", i, t[i], x.first);
      if (k[i] != x.second.key) c.fail("key at time %.17g is %zu, expected %zu", x.first, k[i], x.second.key);
      c.check(k2[i + 1] == x.second.key, "appendKeys() returns other keys than getKeys()");
      const C want = Make<C>::of(x.second.v);
      c.check(it != m.coefficientEnd() && it->first == x.first && it->second.key == x.second.key, "iteration returns another time or key");
      if (!(it->second.coefficient == want)) c.fail("coefficient at time %.17g is wrong", x.first);
      c.check(m.hasCoefficientAtTime(x.first), "hasCoefficientAtTime() is false for a stored time");
      c.check(m.hasCoefficientWithKey(x.second.key), "hasCoefficientWithKey() is false for a stored key");
      if (!(m.getCoefficientByKey(x.second.key) == want)) c.fail("getCoefficientByKey() of the coefficient at %.17g is wrong", x.first);
      if (m.getCoefficientTimeByKey(x.second.key) != x.first) c.fail("getCoefficientTimeByKey() is %.17g, expected %.17g", m.getCoefficientTimeByKey(x.second.key), x.first);
      c.check(!m.hasCoefficientAtTime(std::nextafter(x.first, 1e300)) || e.count(std::nextafter(x.first, 1e300)), "hasCoefficientAtTime() is true for another time");
      ++i; ++it;
    }
    c.check(it == m.coefficientEnd(), "iteration does not end after the last coefficient");
    typename M::CoefficientMap all; if (!e.empty()) all[e.rbegin()->second.key] = Make<C>::of(-7.0);   // an older value in the result
    m.getCoefficients(&all);
    if (all.size() != e.size()) c.fail("getCoefficients() returns %zu entries, expected %zu", all.size(), e.size());
    for (auto& x : e) { auto f = all.find(x.second.key); c.check(f != all.end() && f->second == Make<C>::of(x.second.v), "getCoefficients() has a wrong entry"); }
    size_t n = 0;
    for (auto r = ever.rbegin(); r != ever.rend() && n < 24; ++r, ++n) if (byKey(*r) == e.end()) c.check(!m.hasCoefficientWithKey(*r), "hasCoefficientWithKey() is true for a removed key");
    c.check(!m.hasCoefficientWithKey(0), "hasCoefficientWithKey() is true for a key never issued");
    m.checkInternalConsistency();
  }
};
inline double genTime(pbt::Case& c) {
  switch (c.pick({60, 20, 15, 5})) {
    case 0: return (double)c.in(-4, 12);
    case 1: return (double)c.in(-40, 120) / 8.0;
    case 2: return c.real(-50, 50);
    default: return (c.chance(50) ? -1 : 1) * c.logReal(1e-9, 1e12);
  }
}
