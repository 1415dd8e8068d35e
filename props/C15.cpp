// C15: keys are unique in the process: across managers, threads and histories.
#include "mgrmodel.hpp"
#include "curves/KeyGenerator.hpp"
#include <ctime>
#include <thread>
#include <atomic>
#include <unordered_set>
using namespace curves;

const char* const kRule =
    "Case: 1..8 threads released together, each drawing keys directly from the generator and through inserts into its own managers "
    "(which also overwrite, remove and clear), all keys of the process so far pooled; sometimes a long run of draws (up to 2^20) first; "
    "plus one fixed single-threaded case of 2^32 + 2^22 draws. "
    "Non-trivial: at least 2 threads drawing at least 50 keys each.";

static std::unordered_set<size_t>& issued() { static std::unordered_set<size_t> s; return s; }

// One long run, more keys than 32 bits can count; only reached through its fixed choice (config.py: marathon).
static void marathon(pbt::Case& c) {
  c.cpuBudget(360);
  c.label("marathon");
  const uint64_t n = (1ull << 32) + (1ull << 22), bits = 1ull << 33;
  std::vector<uint64_t> seen(bits / 64); std::unordered_set<size_t> far;
  const clock_t end = clock() + 300 * CLOCKS_PER_SEC;
  for (uint64_t i = 0; i < n; ++i) {
    const size_t k = KeyGenerator::getNextKey();
    bool dup;
    if (k < bits) { uint64_t& w = seen[k >> 6]; const uint64_t b = 1ull << (k & 63); dup = (w & b) != 0; w |= b; }
    else dup = far.size() < 4000000 ? !far.insert(k).second : far.count(k) != 0;
    if (dup) c.fail("key %zu was issued twice (second time as draw %llu of the process)", k, (unsigned long long)i + 1);
    if ((i & 0xffffff) == 0 && clock() > end) { c.note("stopped after %llu draws", (unsigned long long)i); return; }
  }
}

void property(pbt::Case& c) {
  if (c.choose(1u << 30) == (1u << 30) - 1) { marathon(c); return; }
  const int nt = (int)c.in(1, 8);
  const size_t per = c.chance(3) ? (size_t)c.logReal(1e3, 5e3) : (size_t)c.in(1, 300);
  const bool burn = c.chance(1) && c.chance(10);
  std::vector<int> mode(nt); for (int& x : mode) x = c.pick({50, 30, 20});
  c.note("%d threads x %zu keys%s", nt, per, burn ? ", after a long run" : "");
  for (int x : mode) c.note("thread mode %d (0 draws, 1 inserts, 2 inserts and adds at end)", x);
  if (nt >= 2 && per >= 50) c.nontrivial();
  c.labelIf(nt == 1, "one thread"); c.labelIf(nt >= 4, ">=4 threads"); c.labelIf(burn, "long run");
  std::unordered_set<size_t>& all = issued();
  if (all.size() > 4000000) all.clear();
  auto add = [&](size_t k) { if (!all.insert(k).second) c.fail("key %zu was issued twice", k); };
  if (burn) { const size_t n = (size_t)c.logReal(1e4, 1048576.0); for (size_t i = 0; i < n; ++i) add(KeyGenerator::getNextKey()); }
  std::vector<std::vector<size_t>> got(nt); std::vector<std::thread> th; std::atomic<int> ready(0); std::atomic<bool> go(false);
  for (int i = 0; i < nt; ++i) th.emplace_back([&, i] {
    got[i].reserve(2 * per);
    ++ready; while (!go) {}
    if (mode[i] == 0) for (size_t j = 0; j < per; ++j) got[i].push_back(KeyGenerator::getNextKey());
    else {
      typedef Eigen::Vector2d V; LocalSupport2CoefficientManager<V> m;
      for (size_t j = 0; j < per; ++j) {
        if (m.size() > 24) m.clear();
        const double t = (double)j;
        if (mode[i] == 1) { got[i].push_back(m.insertCoefficient(-t, V(t, 0))); m.insertCoefficient(-t, V(t + 1, 0)); if (j % 5 == 4) m.removeCoefficientWithKey(got[i].back()); }
        else { std::vector<Key> k; m.addCoefficientAtEnd(t, V(t, 0), &k); got[i].push_back(k[0]); }
      }
    }
  });
  while (ready < nt) {}
  go = true;
  for (auto& t : th) t.join();
  for (auto& g : got) for (size_t k : g) add(k);
}
