// A small property-based-testing engine ("choice sequence" style).
//
// Every random decision of a case goes through Case::choose(n).  The sequence
// of chosen integers *is* the case: it is what gets shrunk, saved and replayed,
// and what libFuzzer mutates.  Zero is always the simplest choice.
//
// A property is one translation unit defining:
//     extern const char* const kRule;      // what a case is / what is non-trivial
//     void property(pbt::Case& c);         // throws pbt::Failure through c.fail()
// and optionally known findings through PBT_KNOWN (see below).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <cstdarg>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };

// Shared (mmap-ed) record of the choices of the running case; survives a crash.
struct Record {
  static const uint64_t kMax = 1u << 16;
  uint64_t count;
  uint64_t v[kMax];
};

class Case {
 public:
  enum Mode { kRandom, kReplay, kBytes };
  Case(Record* rec) : rec_(rec) {}
  void startRandom(uint64_t seed) { reset(kRandom); s_ = seed; }
  void startReplay(const std::vector<uint64_t>& v) { reset(kReplay); in_ = v; }
  void startBytes(const uint8_t* d, size_t n) { reset(kBytes); d_ = d; n_ = n; }

  // ---- primitive -----------------------------------------------------------
  uint64_t choose(uint64_t n) {            // uniform in [0, n)
    uint64_t r = 0;
    if (n > 1) {
      switch (mode_) {
        case kRandom: r = next() % n; break;
        case kReplay: r = pos_ < in_.size() ? (in_[pos_] < n ? in_[pos_] : n - 1) : 0; ++pos_; break;
        case kBytes: {
          int nb = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
          for (int i = 0; i < nb; ++i) r = (r << 8) | (p_ < n_ ? d_[p_++] : 0);
          r %= n; break;
        }
      }
    } else if (mode_ == kReplay) {
      ++pos_;
    }
    if (rec_->count < Record::kMax) { rec_->v[rec_->count] = r; ++rec_->count; }
    return r;
  }
  int64_t in(int64_t lo, int64_t hi) { if (hi < lo) hi = lo; return lo + (int64_t)choose((uint64_t)(hi - lo) + 1); }  // simplest: lo
  bool chance(unsigned percent) { return choose(100) >= 100 - (percent > 100 ? 100 : percent); }   // simplest: false
  // weighted pick, simplest: 0
  int pick(std::initializer_list<int> w) {
    int tot = 0; for (int x : w) tot += x;
    int r = (int)choose(tot), i = 0;
    for (int x : w) { if (r < x) return i; r -= x; ++i; }
    return 0;
  }
  template <class T> const T& of(const std::vector<T>& v) { return v[choose(v.size())]; }

  // ---- numbers -------------------------------------------------------------
  double unit() { return (double)choose(1ull << 32) / 4294967296.0; }      // [0,1)
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double logReal(double lo, double hi) { return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * unit()); }
  // a "value": simple constants, small integers, dyadics, uniform, tiny, large
  double value(double big = 1e4) {
    static const double nice[] = {0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 10.0, -10.0, 3.0, -3.0, 0.1, -0.1};
    switch (pick({25, 15, 35, 10, 10, 5})) {
      case 0: return nice[choose(13)];
      case 1: return (double)in(-20, 20);
      case 2: return real(-10.0, 10.0);
      case 3: return (double)in(-64, 64) / 16.0;
      case 4: return (chance(50) ? -1.0 : 1.0) * logReal(1.0, big);
      default: return (chance(50) ? -1.0 : 1.0) * logReal(1e-6, 1.0);
    }
  }
  // Strictly increasing sequence of n times; spacing in [minDt, maxDt], start anywhere.
  std::vector<double> times(size_t n, double minDt, double maxDt) {
    std::vector<double> t(n);
    if (!n) return t;
    switch (pick({30, 20, 30, 10, 10, 8})) {
      case 5: t[0] = (chance(20) ? -1.0 : 1.0) * std::floor(logReal(1e4, 4e9)) + (double)in(0, 7) / 8.0; break;   // epoch-like clock
      case 0: t[0] = 0.0; break;
      case 1: t[0] = (double)in(-20, 20); break;
      case 2: t[0] = real(-100.0, 100.0); break;
      case 3: t[0] = real(-1.0, 1.0); break;
      default: t[0] = (double)in(-8000, 8000) / 8.0; break;
    }
    const int kind = pick({30, 20, 30, 20});
    double eq = kind == 0 ? spacing(minDt, maxDt) : 1.0;
    for (size_t i = 1; i < n; ++i) {
      double d = 1.0;
      switch (kind) {
        case 0: d = eq; break;
        case 1: d = clamp((double)in(1, 16) / 8.0, minDt, maxDt); break;
        case 2: d = spacing(minDt, maxDt); break;
        default: d = clamp(real(0.2, 2.0), minDt, maxDt); break;
      }
      t[i] = std::max(t[i - 1] + d, std::nextafter(t[i - 1], DBL_MAX));
    }
    return t;
  }
  double spacing(double minDt, double maxDt) {
    switch (pick({30, 20, 50})) {
      case 0: return clamp(1.0, minDt, maxDt);
      case 1: return clamp((double)in(1, 40) / 8.0, minDt, maxDt);
      default: return logReal(minDt, maxDt);
    }
  }
  // A query time for a piecewise object with the given breakpoints.
  double queryTime(const std::vector<double>& k) {
    if (k.empty()) return value(1e3);
    const double a = k.front(), b = k.back(), span = std::max(b - a, 1e-3);
    switch (pick({20, 35, 10, 10, 10, 5, 5, 5})) {
      case 0: return k[choose(k.size())];
      case 1: return a + (b - a) * unit();
      case 2: return std::nextafter(k[choose(k.size())], -DBL_MAX);
      case 3: return std::nextafter(k[choose(k.size())], DBL_MAX);
      case 4: { size_t i = choose(k.size()); return k[i] + (chance(50) ? -1 : 1) * logReal(1e-9, 1e-2); }
      case 5: return a - span * unit();
      case 6: return b + span * unit();
      default: { const double far = chance(70) ? 1e3 * unit() : logReal(1e3, 1e12); return chance(50) ? a - far : b + far; }
    }
  }
  static double clamp(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }

  // ---- outcome ---------------------------------------------------------------
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Failure{b};
  }
  // |got-want| <= tol (NaN never passes)
  void near(double got, double want, double tol, const char* what) {
    if (!(std::fabs(got - want) <= tol))
      fail("%s: got %.17g, expected %.17g (|diff| %.3g > tol %.3g)", what, got, want, std::fabs(got - want), tol);
  }
  void check(bool ok, const char* what) { if (!ok) fail("%s", what); }
  void nontrivial() { nontrivial_ = true; }
  void label(const char* l) { labels_[l] = true; }
  void labelIf(bool b, const char* l) { if (b) labels_[l] = true; }
  bool verbose() const { return verbose_; }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose_) return;
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (log_.size() < 20000) { log_ += b; log_ += "\n"; }
  }
  void noteVec(const char* name, const std::vector<double>& v) {
    if (!verbose_) return;
    std::string s = std::string(name) + "=["; char b[40];
    for (size_t i = 0; i < v.size(); ++i) { snprintf(b, sizeof b, "%s%.17g", i ? ", " : "", v[i]); s += b; }
    note("%s]", s.c_str());
  }
  void cpuBudget(int seconds);     // replaces the CPU budget of this case
  // Runs f in a forked child; true iff it terminated abnormally (CHECK/assert/throw).
  bool dies(const std::function<void()>& f);

  // engine-side
  bool verbose_ = false, nontrivial_ = false;
  std::map<const char*, bool> labels_;
  std::string log_;
  Record* rec_;

 private:
  void reset(Mode m) {
    mode_ = m; rec_->count = 0; pos_ = 0; p_ = 0; in_.clear(); n_ = 0;
    nontrivial_ = false; labels_.clear(); log_.clear();
  }
  uint64_t next() { uint64_t z = (s_ += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  Mode mode_ = kReplay; uint64_t s_ = 0; std::vector<uint64_t> in_; size_t pos_ = 0;
  const uint8_t* d_ = nullptr; size_t n_ = 0, p_ = 0;
};

// A known finding: a fixed input; run() returns true iff the defect still shows.
struct Known { const char* name; std::function<bool()> run; };
inline std::vector<Known>& knowns() { static std::vector<Known> k; return k; }
struct KnownReg { KnownReg(const char* n, std::function<bool()> f) { knowns().push_back({n, f}); } };

std::string scratchDir();   // per-process scratch directory, removed by the engine

}  // namespace pbt

extern const char* const kRule;
void property(pbt::Case& c);
