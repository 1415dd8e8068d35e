// C16: CSV files round trip.
#include "pbt.hpp"
#include "curves/helpers.hpp"
#include <fstream>
#include <limits>
#include <unistd.h>
using namespace curves;

const char* const kRule =
    "Case: a table of strings (1..8 columns, ragged, also with empty fields anywhere), a time-stamped vector series, or a doubly time-stamped file, "
    "of 1..40 rows with values from simple numbers to arbitrary bit patterns (infinities and NaN included); written and read back (the double time series is "
    "written by the string writer); numbers must come back bit for bit (a NaN as a NaN), outputs must be replaced, not appended to. "
    "Non-trivial: at least 2 rows and 2 columns.";

static double number(pbt::Case& c) {
  switch (c.pick({30, 30, 25, 15})) {
    case 0: return c.value();
    case 1: return (c.chance(50) ? -1 : 1) * c.logReal(1e-300, 1e300);
    case 2: { uint64_t b = c.choose(1ull << 32) << 32 | c.choose(1ull << 32); double d; memcpy(&d, &b, 8); return d; }
    default: { static const double s[] = {0.0, -0.0, 0.1, 1e-310, DBL_MIN, DBL_MAX, -DBL_MAX, DBL_EPSILON, 1e22, 123456789.123456789, 1413560000.123456789, HUGE_VAL, -HUGE_VAL, NAN}; return s[c.choose(14)]; }
  }
}
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
static std::string text(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }

void property(pbt::Case& c) {
  static const char* const names[] = {"t.csv", "t", "a b.txt", ".x", "curve.2014-10-17.csv"};
  const std::string f = pbt::scratchDir() + "/" + (c.choose(200) == 199 ? std::string((size_t)c.in(30, 240), 'n') : std::string(names[c.choose(5)]));
  std::remove(f.c_str());
  if (c.chance(30)) { std::ofstream o(f); for (int i = 0; i < 60; ++i) o << "9,9,9,9,9,9,9,9,9,9\n"; }   // an older, longer file
  const size_t rows = c.chance(15) ? (size_t)c.in(1, c.chance(4) ? 400 : 40) : (size_t)c.in(1, 6);
  const int kind = c.pick({30, 45, 25});
  if (kind == 0) {
    c.label("strings");
    static const char al[] = "abcXYZ019 .-+_;:'#\t\"eE/\xc3\xa9\x01\x7f\xff|\\%";
    std::vector<std::vector<std::string>> w(rows); size_t cols = 0;
    for (auto& r : w) {
      r.resize((size_t)c.in(1, c.chance(1) ? c.chance(4) ? 4000 : 100 : 8)); cols = std::max(cols, r.size());
      for (size_t i = 0; i < r.size(); ++i) { const bool lng = r.size() <= 100 && c.choose(8192) == 8191;
        if (lng) { r[i].assign((size_t)c.in(1000, 140000), al[c.choose(sizeof al - 1)]); c.label("field of >1000 characters"); continue; }
        if (c.chance(4)) {   // pieces that formats and parsers tend to give a meaning to
          static const char* const sp[] = {"\xEF\xBB\xBF", "#", "//", "\"", "\"\"", "'", " ", "\t", "nan", "inf", "0x1p3", "NULL", "1e5", "-0", "\\n", "\\", ";", "%s", "time", "+", "1_0", "\x1a", "\x0b", "\x0c", "\xc2\x85", "\xe2\x80\xa8"};
          r[i] = sp[c.choose(sizeof sp / sizeof *sp)]; if (c.chance(50)) r[i] += "a"; if (c.chance(20)) r[i] = "b" + r[i]; c.label("special field"); continue; }
        if (c.chance(1)) { for (int z = (int)c.in(1, 6); z-- > 0;) { char b = (char)c.choose(256); r[i] += b == ',' || b == '\n' || b == '\r' ? 'x' : b; } continue; }
        size_t n = c.choose(r.size() <= 100 && c.chance(1) ? 600 : 7); for (size_t j = 0; j < n; ++j) r[i] += al[c.choose(sizeof al - 1)]; }
    }
    if (c.choose(100) == 99) {   // a file of a round number of bytes (buffer sizes), or one off
      size_t b = 0; for (auto& r : w) for (auto& x : r) b += x.size() + 1;
      const size_t want = (size_t(1) << c.in(9, 17)) + (size_t)c.in(0, 2) - 1; if (b < want) { w[c.choose(rows)].back().append(want - b, 'x'); c.label("file of a round size"); }
    }
    if (rows >= 2 && cols >= 2) c.nontrivial();
    writeCSV(f, w);
    auto g = loadCSV(f);
    if (g.size() != w.size()) c.fail("%zu rows read back, %zu written", g.size(), w.size());
    for (size_t i = 0; i < rows; ++i) {
      if (g[i].size() != w[i].size()) c.fail("row %zu: %zu fields read back, %zu written", i, g[i].size(), w[i].size());
      for (size_t j = 0; j < w[i].size(); ++j) if (g[i][j] != w[i][j]) c.fail("row %zu field %zu: '%s' read back, '%s' written", i, j, g[i][j].c_str(), w[i][j].c_str());
    }
    return;
  }
  const size_t dim = (size_t)c.in(1, c.chance(2) ? 100 : 7);
  if (rows >= 2 && dim >= 2) c.nontrivial();
  std::vector<Time> t(rows), t1(rows); std::vector<Eigen::VectorXd> v(rows);
  for (size_t i = 0; i < rows; ++i) { t[i] = number(c); t1[i] = number(c); v[i].resize(dim); for (size_t j = 0; j < dim; ++j) v[i](j) = number(c); }
  c.noteVec("times", t); for (size_t i = 0; i < rows && i < 4; ++i) c.noteVec("row", std::vector<double>(v[i].data(), v[i].data() + dim));
  std::vector<Time> g, g1; std::vector<Eigen::VectorXd> gv;
  if (c.chance(50)) { g.assign(3, 1.0); g1.assign(2, 5.0); gv.assign(4, Eigen::VectorXd::Ones(2)); }   // outputs already in use
  if (kind == 1) { c.label("time, vector"); writeTimeVectorCSV(f, t, v); loadTimeVectorCSV(f, &g, &gv); g1 = t1; }
  else {
    c.label("time, time, vector");
    std::vector<std::vector<std::string>> w(rows);
    for (size_t i = 0; i < rows; ++i) { w[i] = {text(t[i]), text(t1[i])}; for (size_t j = 0; j < dim; ++j) w[i].push_back(text(v[i](j))); }
    writeCSV(f, w); loadTimeTimeVectorCSV(f, &g, &g1, &gv);
  }
  if (g.size() != rows || g1.size() != rows || gv.size() != rows) c.fail("%zu/%zu/%zu entries read back, %zu written", g.size(), g1.size(), gv.size(), rows);
  for (size_t i = 0; i < rows; ++i) {
    if (!same(g[i], t[i])) c.fail("row %zu: time %.17g read back, %.17g written", i, g[i], t[i]);
    if (!same(g1[i], t1[i])) c.fail("row %zu: second time %.17g read back, %.17g written", i, g1[i], t1[i]);
    if ((size_t)gv[i].size() != dim) c.fail("row %zu: dimension %zu read back, %zu written", i, (size_t)gv[i].size(), dim);
    for (size_t j = 0; j < dim; ++j) if (!same(gv[i](j), v[i](j))) c.fail("row %zu column %zu: %.17g read back, %.17g written", i, j, gv[i](j), v[i](j));
  }
  if (c.chance(1)) {
    c.label("error cases");
    std::vector<Time> bad(t); if (c.chance(50)) bad.push_back(1.0); else bad.pop_back();
    c.check(c.dies([&] { writeTimeVectorCSV(f, bad, v); }), "writing times and values of different length did not fail");
    if (rows >= 2) {
      std::vector<Eigen::VectorXd> w(v); w[c.in(1, (int64_t)rows - 1)].setOnes(c.chance(50) ? dim + 1 : dim - 1);
      c.check(c.dies([&] { writeTimeVectorCSV(f, t, w); }), "writing values of different dimensions did not fail");
    }
    c.check(c.dies([&] { loadTimeVectorCSV(f + ".missing", &g, &gv); }), "reading a missing file did not fail");
    c.check(c.dies([&] { loadTimeTimeVectorCSV(f + ".missing", &g, &g1, &gv); }), "reading a missing file did not fail");
    c.check(c.dies([&] { loadCSV(f + ".missing"); }), "reading a missing file did not fail");
    c.check(c.dies([&] { writeCSV(f + ".missing/t.csv", {{"1", "2"}}); }), "writing to a file that cannot be opened did not fail");
    c.check(c.dies([&] { writeTimeVectorCSV(f + ".missing/t.csv", t, v); }), "writing to a file that cannot be opened did not fail");
  }
}
