// Radial quadratures integrate r^2 * (decaying functions) over (0,inf) to the accuracy their size allows.
#include <pbt.hpp>
#include <ref.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
using namespace IntegratorXX;
using ref::ld;
struct P {
  struct Case {
    int64_t scheme = 0, n = 60, k = 0, slater = 0;
    double R = 1, z = 1;
    template <class A> void io(A& a) { a("scheme", scheme); a("n", n); a("k", k); a("slater", slater); a("R", R); a("z", z); }
  };
  // exponents for which the scheme's scale R is a sensible choice (MK and TA compress the tail)
  static double zlo(int64_t s, int64_t sl) { static const double t[5][2] = {{.5, .5}, {.5, .5}, {4, 6}, {.5, 4}, {.5, 5}}; return t[s][sl]; }
  static double zhi(int64_t s, int64_t sl) { static const double t[5][2] = {{2, 2}, {2, 2}, {30, 9}, {2, 8}, {2, 9}}; return t[s][sl]; }
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.scheme = s.range(0, 4);
    c.n = s.range(40, tier ? 3000 : 800);
    c.k = s.range(0, 4);
    c.slater = s.range(0, 1);
    c.R = s.coin() ? 1.0 : s.logreal(-9, 9);
    c.z = s.real(zlo(c.scheme, c.slater), zhi(c.scheme, c.slater));
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t n = 40; n <= 300; ++n)
      for (int64_t s = 0; s < 5; ++s)
        if (!emit(Case{s, n, n % 5, (n / 5) % 2, n % 3 ? 1.0 : 2.5, zlo(s, (n / 5) % 2) * 1.25})) return;
  }
  static double err(const Case& c) {
    std::vector<double> p, w;
    auto take = [&](const auto& q) { p = q.points(); w = q.weights(); };
    const size_t n = size_t(c.n);
    switch (c.scheme) {
      case 0: take(Becke<double, double>(n, c.R)); break;
      case 1: take(MurrayHandyLaming<double, double>(n, c.R)); break;
      case 2: take(MuraKnowles<double, double>(n, c.R)); break;
      case 3: take(TreutlerAhlrichs<double, double>(n, c.R)); break;
      default: take(TreutlerAhlrichs<double, double>(n, c.R, 0.0)); break;
    }
    // the exponent follows the radial scale: f(r) = r^k exp(-z r/R) or r^k exp(-z (r/R)^2)
    ld s = 0;
    for (size_t i = 0; i < p.size(); ++i) {
      ld t = ld(p[i]) / c.R;
      s += ld(w[i]) / c.R * powl(t, c.k + 2) * (c.slater ? expl(-c.z * t) : expl(-c.z * t * t));
    }
    ld ex = c.slater ? tgammal(c.k + 3) / powl(c.z, c.k + 3) : tgammal((c.k + 3) / 2.0L) / 2 / powl(c.z, (c.k + 3) / 2.0L);
    return double(fabsl(s / ex - 1));
  }
  static double bound(const Case& c) { return BOUND(c); }
  static double BOUND(const Case& c);
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    x.nontrivial = true;
    x.label("scheme " + std::to_string(c.scheme));
    x.label(c.slater ? "exp(-r)" : "exp(-r^2)");
    double e = err(c);
    PBT_REQUIRE(e <= bound(c), "scheme %ld n=%ld R=%g: integral of r^%ld exp(-%g (r/R)^%d) has relative error %.3e, expected at most %.3e",
                (long)c.scheme, (long)c.n, c.R, (long)c.k + 2, c.z, c.slater ? 1 : 2, e, bound(c));
    return pbt::pass();
  }
};
double P::BOUND(const Case& c) {
  // ten times the error measured for the worst exponent and power in the range, at the next smaller n
  static const int ns[10] = {40, 50, 60, 80, 100, 150, 200, 300, 500, 1000};
  static const double b[10][10] = {
      {3e-06, 2e-08, 7e-10, 3e-11, 7e-12, 6e-13, 1e-13, 5e-14, 5e-14, 5e-14},
      {4e-04, 3e-05, 5e-06, 7e-09, 7e-11, 4e-13, 7e-14, 5e-14, 5e-14, 5e-14},
      {1e-05, 2e-07, 5e-09, 2e-12, 5e-13, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14},
      {3e-05, 3e-06, 3e-08, 2e-10, 5e-13, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14},
      {2e-05, 6e-07, 1e-07, 2e-09, 2e-11, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14},
      {3e-03, 1e-03, 4e-04, 1e-04, 3e-05, 4e-06, 8e-07, 7e-08, 3e-09, 9e-11},
      {3e-13, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14},
      {1e-11, 1e-12, 2e-13, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14, 5e-14},
      {5e-09, 1e-09, 4e-10, 8e-11, 2e-11, 2e-12, 3e-13, 5e-14, 5e-14, 5e-14},
      {3e-07, 8e-08, 3e-08, 5e-09, 1e-09, 1e-10, 2e-11, 2e-12, 8e-14, 5e-14}};
  int i = 9;
  while (i > 0 && ns[i] > c.n) --i;
  return b[2 * c.scheme + c.slater][i];
}
#ifndef CALIB
PBT_MAIN(P)
#else
int main() {
  for (int s = 0; s < 5; ++s) for (int sl = 0; sl < 2; ++sl) for (int n : {40, 50, 60, 80, 100, 150, 200, 300, 500, 1000, 3000}) {
    double m = 0; for (int k = 0; k <= 4; ++k) for (double z = P::zlo(s,sl); z <= P::zhi(s,sl)*1.001; z += (P::zhi(s,sl)-P::zlo(s,sl))/20) m = std::max(m, P::err({s, n, k, sl, 1.0, z}));
    printf("s%d %s n=%4d %.2e\n", s, sl ? "slater" : "gauss ", n, m);
  }
}
#endif
