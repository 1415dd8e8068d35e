// C01: a spline computed from boundary conditions meets them (orders 1..5).
#include "pbt.hpp"
#include "names.hpp"
#include <utility>
using namespace curves;

const char* const kRule =
    "Case: an order 1..5, a duration in [1e-6,1e6] s, and six boundary values (simple, integer, dyadic, uniform, "
    "tiny or large, in any unit; independent, or related as in rest-to-rest, symmetric, constant-velocity and closed motions); the spline is built by one of 4 routes (value/rvalue constructor, computeCoefficients on a fresh or "
    "an already used spline whose earlier conditions are unrelated or share some fields). Non-trivial: start and end positions differ, or some prescribed derivative is non-zero, "
    "and the duration is not 1.";

struct In { double T, p0, pT, v0, vT, a0, aT; };

template <int N> static typename Named<N>::Spline build(pbt::Case& c, const In& in, const In& before) {
  typedef typename Named<N>::Spline S;
  const bool fields = c.chance(25);   // fill in a default-constructed set: what is not given is 0
  auto opt = [fields](const In& i) {
    SplineOptions o;
    if (!fields) return SplineOptions(i.T, i.p0, i.pT, i.v0, i.vT, i.a0, i.aT);
    o.tf_ = i.T;
    if (i.p0 != 0) o.pos0_ = i.p0;
    if (i.pT != 0) o.posT_ = i.pT;
    if (i.v0 != 0) o.vel0_ = i.v0;
    if (i.vT != 0) o.velT_ = i.vT;
    if (i.a0 != 0) o.acc0_ = i.a0;
    if (i.aT != 0) o.accT_ = i.aT;
    return o;
  };
  const int route = c.pick({25, 25, 25, 25});
  c.note("route %d", route);
  switch (route) {
    case 0: { S s; SplineOptions o = opt(in); c.check(s.computeCoefficients(o), "computeCoefficients returned false"); return s; }
    case 1: { const SplineOptions o = opt(in); return S(o); }
    case 2: return S(opt(in));
    default: {
      S s(opt(before));
      if (c.chance(5)) { typename S::SplineCoefficients z; for (double& x : z) x = c.chance(50) ? NAN : HUGE_VAL; s.setCoefficientsAndDuration(z, c.chance(50) ? NAN : -1.0); }
      c.check(s.computeCoefficients(opt(in)), "computeCoefficients returned false");
      return s;
    }
  }
}

template <int N> static void run(pbt::Case& c, const In& in, const In& before) {
  const typename Named<N>::Spline s = build<N>(c, in, before);
  const double T = in.T;
  // Natural size of the trajectory: what the positions change by over T.
  double S = std::max(std::fabs(in.p0), std::fabs(in.pT));
  if (N >= 2) S = std::max(S, std::fabs(in.v0) * T);
  if (N >= 3) S = std::max(S, std::fabs(in.vT) * T);
  if (N >= 4) S = std::max(S, std::fabs(in.a0) * T * T);
  if (N >= 5) S = std::max(S, std::fabs(in.aT) * T * T);
  const double tol = 1e-9 * S + 1e-300;
  c.near(s.getSplineDuration(), T, 0.0, "duration");
  c.near(s.getPositionAtTime(0.0), in.p0, tol, "position at the start");
  c.near(s.getPositionAtTime(T), in.pT, tol, "position at the end");
  if (N >= 2) c.near(s.getVelocityAtTime(0.0), in.v0, tol / T, "velocity at the start");
  if (N >= 3) c.near(s.getVelocityAtTime(T), in.vT, tol / T, "velocity at the end");
  if (N >= 4) c.near(s.getAccelerationAtTime(0.0), in.a0, tol / T / T, "acceleration at the start");
  if (N >= 5) c.near(s.getAccelerationAtTime(T), in.aT, tol / T / T, "acceleration at the end");
  // Unique polynomial: compare mid positions with the closed-form Hermite solution.
  const double u = c.unit();
  const long double x = u;
  long double want = 0;
  const long double p0 = in.p0, pT = in.pT, v0 = in.v0 * (long double)T, vT = in.vT * (long double)T,
                    a0 = in.a0 * (long double)T * T, aT = in.aT * (long double)T * T, d = pT - p0;
  switch (N) {
    case 1: want = p0 + d * x; break;
    case 2: want = p0 + v0 * x + (d - v0) * x * x; break;
    case 3: want = p0 + v0 * x + (3 * d - 2 * v0 - vT) * x * x + (v0 + vT - 2 * d) * x * x * x; break;
    case 4: {
      const long double r = d - v0 - a0 / 2, q = vT - v0 - a0;        // c3+c4 = r, 3c3+4c4 = q
      const long double c4 = q - 3 * r, c3 = r - c4;
      want = p0 + v0 * x + a0 / 2 * x * x + c3 * x * x * x + c4 * x * x * x * x; break;
    }
    default: {
      const long double r = d - v0 - a0 / 2, q = vT - v0 - a0, w = aT - a0;
      const long double c3 = 10 * r - 4 * q + w / 2, c4 = -15 * r + 7 * q - w, c5 = 6 * r - 3 * q + w / 2;
      want = p0 + v0 * x + a0 / 2 * x * x + c3 * x * x * x + c4 * x * x * x * x + c5 * x * x * x * x * x;
    }
  }
  c.near(s.getPositionAtTime(u * T), (double)want, 4 * tol, "position between the ends");
}

static In gen(pbt::Case& c) {
  In i;
  switch (c.pick({20, 20, 45, 15})) {
    case 0: i.T = 1.0; break;
    case 1: i.T = (double)c.in(1, 64) / 8.0; break;
    case 2: i.T = c.logReal(1e-2, 20.0); break;
    default: i.T = c.chance(80) ? c.logReal(1e-6, 1e6) : c.logReal(1e-12, 1e9); break;
  }
  i.p0 = c.value(); i.pT = c.value();
  i.v0 = c.value(); i.vT = c.value(); i.a0 = c.value(); i.aT = c.value();
  // Related values, as in real use (rest to rest, symmetric, constant velocity, closed loops).
  if (c.chance(30)) {
    switch (c.choose(9)) {
      case 0: i.pT = i.p0; break;
      case 1: i.vT = i.v0; break;
      case 2: i.vT = -i.v0; break;
      case 3: i.aT = i.a0; break;
      case 4: i.v0 = i.vT = i.a0 = i.aT = 0.0; break;
      case 5: i.a0 = i.aT = 0.0; break;
      case 6: i.pT = i.p0 + i.v0 * i.T; i.vT = i.v0; if (c.chance(50)) i.a0 = i.aT = 0.0; break;
      case 7: i.pT = i.p0; i.vT = i.v0; i.aT = i.a0; break;
      default: i.v0 = i.vT = 0.0; break;
    }
  }
  if (c.chance(6)) { const double m = std::pow(10.0, (double)c.in(-12, 12)); for (double* x : {&i.p0, &i.pT, &i.v0, &i.vT, &i.a0, &i.aT}) *x *= m; }      // other units
  return i;
}

// What the spline held before: something else, or the same conditions with a few fields changed.
static In genBefore(pbt::Case& c, const In& in) {
  In b = gen(c);
  if (c.chance(50)) {
    const unsigned keep = (unsigned)c.choose(128);
    double In::*f[] = {&In::T, &In::p0, &In::pT, &In::v0, &In::vT, &In::a0, &In::aT};
    for (int k = 0; k < 7; ++k) if (keep >> k & 1) b.*f[k] = in.*f[k];
  }
  return b;
}

void property(pbt::Case& c) {
  const int order = (int)c.in(1, 5);
  const In in = gen(c), before = genBefore(c, in);
  c.note("order %d T=%.17g p0=%.17g pT=%.17g v0=%.17g vT=%.17g a0=%.17g aT=%.17g", order, in.T, in.p0, in.pT, in.v0, in.vT, in.a0, in.aT);
  if (in.T != 1.0 && (in.p0 != in.pT || (order >= 2 && in.v0 != 0))) c.nontrivial();
  c.labelIf(in.T < 0.01, "duration<10ms"); c.labelIf(in.T > 100, "duration>100s");
  switch (order) {
    case 1: c.label("order1"); run<1>(c, in, before); break;
    case 2: c.label("order2"); run<2>(c, in, before); break;
    case 3: c.label("order3"); run<3>(c, in, before); break;
    case 4: c.label("order4"); run<4>(c, in, before); break;
    default: c.label("order5"); run<5>(c, in, before);
  }
}
