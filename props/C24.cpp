// C24: the self-check of a container passes exactly for sound containers.
#include "pbt.hpp"
#include "contmodel.hpp"
#include "curves/PolynomialSplineContainer.hpp"
#include "curves/polynomial_splines_containers.hpp"
using namespace curves;

const char* const kRule =
    "Case: a container of order 1..5 with 1..12 (now and then up to 200) splines, each sound or with a negative duration or with a NaN in a chosen "
    "coefficient, built by appending or by replacing coefficients in place, and a current time (before, at, inside, at the end of, beyond the trajectory) "
    "reached by jumping or advancing. Non-trivial: at least two splines and exactly one fault, or no fault.";

template <int N> static void run(pbt::Case& c) {
  typedef PolynomialSplineContainer<N> K; typedef typename K::SplineType S;
  K k;
  const size_t n = c.chance(2) ? (size_t)c.in(13, 200) : (size_t)c.in(1, 12);
  std::vector<Seg> s(n);
  for (Seg& g : s) g = genSeg(c, N, true);
  unsigned faults = 0;
  bool bad = false;
  // mostly no fault or one fault: a fault must be found on its own
  const int kind = c.pick({40, 25, 25, 10});
  if (kind == 1 || kind == 3) {
    const size_t i = c.choose(n); ++faults; bad = true;
    s[i].d = c.chance(30) ? -c.logReal(1e-12, 1e-3) : -(double)c.in(1, 16) / 8.0;
    c.note("spline %zu has duration %.17g", i, s[i].d); c.label("negative duration");
  }
  if (kind == 2 || kind == 3) {
    const size_t i = c.choose(n), j = c.choose(N + 1); ++faults; bad = true;
    s[i].a[j] = std::nan("");
    c.note("spline %zu has NaN coefficient %zu", i, j); c.label("NaN coefficient");
  } else if (c.chance(10)) {
    s[c.choose(n)].a[c.choose(N + 1)] = c.chance(50) ? HUGE_VAL : c.chance(50) ? DBL_MAX : 0.0;   // odd but not NaN
  }
  const bool inPlace = c.chance(40);
  const bool late = inPlace && c.chance(30);   // the durations become negative only after the splines were added
  for (const Seg& g : s) k.addSpline(toSpline<S>(inPlace ? Seg{std::vector<double>(N + 1, 0.0), late ? std::fabs(g.d) : g.d} : g));
  if (inPlace) for (size_t i = 0; i < n; ++i) {
    S t = toSpline<S>(s[i]);
    if (!late && c.chance(50)) *k.getSpline((int)i)->getCoefficientsPtr() = t.getCoefficients();
    else k.getSpline((int)i)->setCoefficientsAndDuration(t.getCoefficients(), t.getSplineDuration());
  }
  const double D = k.getContainerDuration();
  double t = 0.0;
  switch (c.pick({35, 20, 15, 10, 10, 10})) {
    case 0: if (c.chance(10)) k.setContainerTime(-0.0); break;
    case 1: t = D * c.unit(); k.setContainerTime(t); break;
    case 2: t = D; k.setContainerTime(t); break;
    case 3: t = c.chance(30) ? std::nextafter(D, HUGE_VAL) : D + (double)c.in(1, 32) / 16.0; k.setContainerTime(t); break;
    case 4: t = c.chance(30) ? -1e-300 : -(double)c.in(1, 32) / 16.0; k.setContainerTime(t); break;
    default: for (int i = (int)c.in(1, 4); i-- > 0;) { k.advance((double)c.in(0, 48) / 16.0); } t = k.getContainerTime(); break;
  }
  const bool timeBad = t < 0 || t > D;
  if (timeBad) { ++faults; bad = true; c.label("time outside"); }
  c.labelIf(!bad, "sound");
  c.note("order %d, %zu splines, duration %.17g, time %.17g", N, n, D, t);
  if (n >= 2 && faults <= 1) c.nontrivial();
  if (bad) c.check(!k.checkContainer(), "the self-check passes a container with a fault");
  else c.check(k.checkContainer(), "the self-check rejects a sound container");
}

void property(pbt::Case& c) {
  switch (c.in(1, 5)) {
    case 1: c.label("order1"); run<1>(c); break;
    case 2: c.label("order2"); run<2>(c); break;
    case 3: c.label("order3"); run<3>(c); break;
    case 4: c.label("order4"); run<4>(c); break;
    default: c.label("order5"); run<5>(c);
  }
}
