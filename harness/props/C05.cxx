// Uniform trapezoid rule on [lo,up]: equidistant nodes from end to end, exact for affine functions,
// and on quadratics the classical composite-trapezoid error.
#include <pbt.hpp>
#include <ref.hpp>
#include <integratorxx/quadratures/primitive.hpp>
using namespace IntegratorXX;
using ref::ld;
struct P {
  struct Case {
    int64_t n = 2;
    double lo = 0, len = 1;
    template <class A> void io(A& a) { a("n", n); a("lo", lo); a("len", len); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.n = s.small(2, tier ? 2000000 : 200000);
    c.lo = s.coord();
    c.len = s.coin() ? s.logreal(-6, 6) : double(s.range(1, 20));
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    for (int64_t n = 0; n <= 3000; ++n)
      for (int v = 0; v < 3; ++v)
        if (!emit(Case{n, v == 0 ? 0. : v == 1 ? -1. : 3.25, v == 0 ? 1. : v == 1 ? 2. : 1e3})) return;
    // sizes at which products and sums of indices leave 16, 24 and 32 bits
    for (int64_t n : {65535, 65536, 65537, 65538, 92682, 131072, 1000003, 4194305, 16777215, 16777219, 20000003})
      if (!emit(Case{n, 0., 1.})) return;
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    const double lo = c.lo, up = c.lo + c.len;
    if (!(lo < up)) return pbt::pass();
    const ld L = ld(up) - lo, M = std::max(std::abs(lo), std::abs(up)), eps = 2.3e-16L;
    if (L < 1e-6L * M) return pbt::pass();  // interval lost in rounding: nothing to say
    x.nontrivial = c.n >= 3;
    if (c.n < 2) {
      x.label("too few points");
      bool threw = false;
      try { UniformTrapezoid<double, double> q(size_t(c.n), lo, up); } catch (const std::exception&) { threw = true; }
      PBT_REQUIRE(threw, "a trapezoid rule of %ld points is not refused: it needs both ends", (long)c.n);
      return pbt::pass();
    }
    x.label(lo == 0 && up == 1 ? "[0,1]" : "general interval");
    UniformTrapezoid<double, double> q(size_t(c.n), lo, up);
    auto &p = q.points();
    auto &w = q.weights();
    const size_t n = size_t(c.n);
    PBT_REQUIRE(p.size() == n && w.size() == n, "rule holds %zu/%zu entries, not %ld", p.size(), w.size(), (long)c.n);
    const ld h = L / (n - 1), pt = 16 * eps * (M + L);
    ld sw = 0, s1 = 0, s2 = 0, bw = 0, b1 = 0, b2 = 0, mid = ld(lo) + L / 2;
    for (size_t i = 0; i < n; ++i) {
      PBT_REQUIRE(fabsl(ld(p[i]) - (lo + h * i)) <= pt, "n=%ld [%g,%g]: node %zu is %.17g, not %.17Lg", (long)c.n, lo, up, i, p[i], lo + h * i);
      if (i) PBT_REQUIRE(p[i] > p[i - 1], "n=%ld [%g,%g]: nodes %zu,%zu not increasing", (long)c.n, lo, up, i - 1, i);
      ld ew = (i == 0 || i + 1 == n) ? h / 2 : h;
      PBT_REQUIRE(fabsl(ld(w[i]) - ew) <= 1e-14L * ew + 4 * eps * M / (n - 1), "n=%ld [%g,%g]: weight %zu is %.17g, not %.17Lg", (long)c.n, lo, up, i, w[i], ew);
      ld y = (ld(p[i]) - mid) / L;
      bw += w[i]; b1 += w[i] * y; b2 += w[i] * y * y;
      if (i % 4096 == 4095 || i + 1 == n) { sw += bw; s1 += b1; s2 += b2; bw = b1 = b2 = 0; }  // blocked: millions of terms
    }
    const ld tol = 1e-13L + 64 * eps * M / L;
    PBT_REQUIRE(fabsl(sw / L - 1) <= tol, "n=%ld [%g,%g]: weights sum to %.17Lg, not %.17Lg", (long)c.n, lo, up, sw, L);
    PBT_REQUIRE(fabsl(s1 / L) <= tol, "n=%ld [%g,%g]: linear function not integrated exactly (%.3Lg)", (long)c.n, lo, up, s1 / L);
    ld e2 = 1.0L / 12 + 1.0L / 6 / ((n - 1) * ld(n - 1));
    PBT_REQUIRE(fabsl(s2 / L - e2) <= tol, "n=%ld [%g,%g]: quadratic gives %.17Lg, composite trapezoid is %.17Lg", (long)c.n, lo, up, s2 / L, e2);
    return pbt::pass();
  }
};
PBT_MAIN(P)
