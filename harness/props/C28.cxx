// The Legendre evaluation used by the Gauss rules: value, derivative and previous polynomial for every degree
// and argument inside (-1,1), against an independent long-double recurrence and the differential equation.
#include <tuple>
#include <cstddef>
#include <pbt.hpp>
#include <ref.hpp>
#include <integratorxx/util/legendre.hpp>
using namespace IntegratorXX;
using ref::ld;
struct P {
  struct Case {
    int64_t n = 0, prec = 0;
    double x = 0;
    template <class A> void io(A& a) { a("n", n); a("prec", prec); a("x", x); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.n = s.coin() ? s.small(0, 60) : s.range(0, tier ? 6000 : 1500);
    if (s.range(0, 199) == 0) c.n = s.range(0, tier ? 1000000 : 200000);
    c.prec = s.range(0, 2);
    switch (s.range(0, 3)) {
      case 0: c.x = s.pick<double>({0, 0.5, -0.5, 0.25}); break;
      case 1: c.x = s.real(-1, 1); break;
      case 2: c.x = 1 - s.logreal(-14, 0) / 10; break;
      default: c.x = -1 + s.logreal(-14, 0) / 10;
    }
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t n = 0; n <= 200; ++n)
      for (int64_t i = -49; i <= 49; ++i)
        if (!emit(Case{n, 0, double(i) / 50})) return;
    // degrees past 8, 15, 16, 20 and 24 bits
    for (int64_t n : {255, 256, 257, 32768, 65535, 65536, 65537, 65600, 131073, 1 << 20, (1 << 24) + 3})
      for (double X : {0.25, -0.54, 0.999, -0.999})
        for (int64_t prec = 0; prec < (n < (1 << 22) ? 3 : 1); ++prec)
          if (!emit(Case{n, prec, X})) return;
  }
  template <class T> static pbt::Result go(const Case& c) {
    const T x = T(c.x);
    if (!(x > T(-1) && x < T(1))) return pbt::pass();
    const ld eps = std::numeric_limits<T>::epsilon(), X = x;
    auto [p, dp, pm] = eval_Pn<T>(x, size_t(c.n));
    ld a = 1, b = 0, da = 0;  // P_n, P_{n-1}, P'_n by P'_{n} = x P'_{n-1} + n P_{n-1}
    for (int64_t k = 1; k <= c.n; ++k) {
      ld t = ((2.0L * k - 1) * X * a - (k - 1.0L) * b) / k;
      ld d = X * da + k * a;
      b = a; a = t; da = d;
    }
    // forward recurrence: every rounding error is carried on by a kernel of size min(n, 1/sin(angle))
    const ld tol = eps * (8 + 4 * ld(c.n) + ld(c.n) * std::min(ld(c.n), 1 / sqrtl((1 - X) * (1 + X))));
    PBT_REQUIRE(fabsl(p - a) <= tol, "P_%ld(%.17g) = %.17Lg, expected %.17Lg", (long)c.n, c.x, ld(p), a);
    PBT_REQUIRE(fabsl(pm - b) <= tol, "P_%ld(%.17g) = %.17Lg, expected %.17Lg", (long)c.n - 1, c.x, ld(pm), b);
    const ld dtol = tol * (1 + ld(c.n)) / (1 - X * X);
    PBT_REQUIRE(fabsl(dp - da) <= 2 * dtol, "P'_%ld(%.17g) = %.17Lg, expected %.17Lg", (long)c.n, c.x, ld(dp), da);
    return pbt::pass();
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    if (c.n < 0) return pbt::pass();
    x.nontrivial = c.n >= 2;
    x.label(c.prec == 0 ? "double" : c.prec == 1 ? "float" : "long double");
    return c.prec == 0 ? go<double>(c) : c.prec == 1 ? go<float>(c) : go<long double>(c);
  }
};
PBT_MAIN(P)
