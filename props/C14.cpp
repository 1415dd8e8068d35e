// C14: copies of a coefficient manager are equal and independent.
#include "mgrmodel.hpp"
#include <memory>
using namespace curves;

const char* const kRule =
    "Case: a family of up to 6 managers; 2..30 operations copy-construct, copy-assign (also to itself and onto a filled one), store in "
    "a growing vector, destroy, insert, move, update and remove on randomly chosen members, each with its own reference map; every "
    "member is compared with its map after every step, and pairs with equals(). Non-trivial: a member is changed or destroyed after "
    "it was copied.";

template <class C> static void run(pbt::Case& c) {
  typedef LocalSupport2CoefficientManager<C> M;
  std::vector<std::unique_ptr<M>> m; std::vector<MgrModel<C>> r; std::set<Key> ever; double ctr = 2; bool copied = false, after = false;
  m.emplace_back(new M); r.emplace_back();
  if (c.choose(256) == 255) {   // a large one
    const size_t n = (size_t)c.in(20, 400); c.label("many coefficients"); c.note("0: %zu coefficients", n);
    for (size_t i = 0; i < n; ++i) { const double t = 100.0 + i; const Key k = m[0]->insertCoefficient(t, Make<C>::of(i)); ever.insert(k); r[0].e[t] = Ent{k, (double)i}; }
  }
  const int ops = r[0].e.empty() ? (int)c.in(2, c.chance(20) ? 30 : 12) : (int)c.in(2, 6);
  for (int op = 0; op < ops; ++op) {
    const size_t i = c.choose(m.size());
    switch (c.pick({30, 20, 12, 5, 8, 8, 8, 5, 4})) {
      case 0: { const double t = genTime(c), v = c.chance(50) ? (double)c.in(0, 2) : ++ctr; c.note("%zu: insert at %.17g", i, t); const Key k = m[i]->insertCoefficient(t, Make<C>::of(v)); ever.insert(k);
        auto f = r[i].e.find(t); if (f != r[i].e.end()) c.check(f->second.key == k, "overwriting changed the key"); r[i].e[t] = Ent{k, v}; after |= copied; break; }
      case 1: if (m.size() < 6) { c.note("%zu: copy construct -> %zu", i, m.size()); m.emplace_back(new M(*m[i])); r.push_back(MgrModel<C>(r[i])); copied = true; } break;
      case 2: { const size_t j = c.choose(m.size()); c.note("%zu: assign from %zu", i, j); const M& src = *m[j]; *m[i] = src; r[i] = MgrModel<C>(r[j]); copied |= i != j; break; }
      case 3: if (m.size() > 1) { c.note("%zu: destroy", i); m.erase(m.begin() + i); r.erase(r.begin() + i); after |= copied; } break;
      case 4: if (!r[i].e.empty()) { auto x = r[i].e.begin(); std::advance(x, c.choose(r[i].e.size())); c.note("%zu: remove at %.17g", i, x->first);
          if (c.chance(50)) m[i]->removeCoefficientWithKey(x->second.key); else m[i]->removeCoefficientAtTime(x->first); r[i].e.erase(x); after |= copied; } break;
      case 5: if (!r[i].e.empty()) { auto x = r[i].e.begin(); std::advance(x, c.choose(r[i].e.size())); if (c.chance(50)) x->second.v = ++ctr; else x->second.v = (double)c.in(0, 2); c.note("%zu: update at %.17g", i, x->first);
          m[i]->updateCoefficientByKey(x->second.key, Make<C>::of(x->second.v)); after |= copied; } break;
      case 6: if (!r[i].e.empty()) { auto x = r[i].e.begin(); std::advance(x, c.choose(r[i].e.size())); const double t = c.chance(15) ? std::nextafter(x->first, c.chance(50) ? 1e300 : -1e300) : c.chance(10) ? x->first + 1e-9 : genTime(c); if (r[i].e.count(t)) break;
          c.note("%zu: move %.17g to %.17g", i, x->first, t); auto it = m[i]->coefficientBegin(); while (it != m[i]->coefficientEnd() && it->first != x->first) ++it;
          c.check(it != m[i]->coefficientEnd(), "a stored coefficient is missing"); Ent e{x->second.key, c.chance(50) ? x->second.v : ++ctr}; m[i]->modifyCoefficient(it, t, Make<C>::of(e.v)); r[i].e.erase(x); r[i].e[t] = e; after |= copied; } break;
      case 7: { c.note("%zu: through a vector", i); std::vector<M> v; v.push_back(*m[i]); for (int z = 0; z < 4; ++z) v.push_back(v[z]);
          *m[i] = v[c.choose(5)]; copied = true; break; }
      default: c.note("%zu: clear", i); m[i]->clear(); r[i].e.clear(); after |= copied;
    }
    for (size_t j = 0; j < m.size(); ++j) r[j].same(c, *m[j], std::set<Key>());
    const size_t a = c.choose(m.size()), b = c.choose(m.size());
    bool eq = r[a].e.size() == r[b].e.size();
    if (eq) for (auto x = r[a].e.begin(), y = r[b].e.begin(); x != r[a].e.end(); ++x, ++y) eq &= x->first == y->first && x->second.key == y->second.key && x->second.v == y->second.v;
    if (m[a]->equals(*m[b]) != eq) c.fail("equals() of members %zu and %zu is %d, expected %d", a, b, (int)!eq, (int)eq);
    c.labelIf(eq && a != b && !r[a].e.empty(), "compared equal copies"); c.labelIf(!eq, "compared different managers");
  }
  if (after) c.nontrivial();
}
void property(pbt::Case& c) { if (c.chance(50)) run<Eigen::VectorXd>(c); else run<Small>(c); }
