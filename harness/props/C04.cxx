// Modified Gauss-Chebyshev rule of the second kind (Perez-Jorda et al.): the weight-free rule is the
// n-point rule in the angle, pulled back through x(theta); integrates smooth functions over [-1,1].
#include <pbt.hpp>
#include <ref.hpp>
#include <integratorxx/quadratures/primitive.hpp>
using namespace IntegratorXX;
using ref::ld;
struct P {
  struct Case {
    int64_t n = 1, k = 0;
    double a = 0;
    template <class A> void io(A& s) { s("n", n); s("k", k); s("a", a); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.n = s.coin() ? s.range(1, 400) : s.range(0, 39) ? s.range(1, tier ? 100000 : 20000) : s.range(20000, 300000);
    c.k = s.range(0, 12);
    c.a = s.real(-3, 3);
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    for (int64_t n = 1; n <= (tier ? 6000 : 3000); ++n)
      if (!emit(Case{n, n % 13, (n % 7) - 3.0})) return;
  }
  static ld X(ld th) { return 1 - 2 * th / ref::PI + 2 / ref::PI * (1 + 2.0L / 3 * sinl(th) * sinl(th)) * cosl(th) * sinl(th); }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    x.nontrivial = c.n >= 2;
    GaussChebyshev2Modified<double, double> q(size_t(c.n));
    auto &p = q.points();
    auto &w = q.weights();
    const size_t n = size_t(c.n);
    PBT_REQUIRE(p.size() == n && w.size() == n, "rule holds %zu/%zu entries, not %ld", p.size(), w.size(), (long)c.n);
    ld sw = 0, sx = 0, sk = 0, se = 0;
    for (size_t i = 0; i < n; ++i) {
      ld th = ref::PI * (n - i) / (n + 1), s = sinl(th), ex = X(th), ew = 16.0L / 3 / (n + 1) * s * s * s * s;
      PBT_REQUIRE(fabsl(p[i] - ex) <= 4e-15L, "n=%ld: node %zu is %.17g, exact %.17Lg", (long)c.n, i, p[i], ex);
      PBT_REQUIRE(fabsl(w[i] - ew) <= ew * (4e-15L + 8e-15L / s), "n=%ld: weight %zu is %.17g, exact %.17Lg", (long)c.n, i, w[i], ew);
      sw += w[i]; sx += ld(w[i]) * p[i]; sk += ld(w[i]) * powl(p[i], c.k); se += ld(w[i]) * expl(ld(c.a) * p[i]);
    }
    if (c.n >= 2) PBT_REQUIRE(fabsl(sw - 2) <= 2e-14L, "n=%ld: weights sum to %.17Lg, not 2", (long)c.n, sw);
    PBT_REQUIRE(fabsl(sx) <= 2e-14L, "n=%ld: integral of x is %.3Lg, not 0", (long)c.n, sx);
    // convergence on smooth functions
    if (c.n >= 24) {
      x.label("convergence");
      ld ek = c.k % 2 ? 0 : 2.0L / (c.k + 1), ee = c.a == 0 ? 2 : (expl(c.a) - expl(-c.a)) / c.a;
      ld tol = CONV(c.n);
      PBT_REQUIRE(fabsl(sk - ek) <= tol, "n=%ld: integral of x^%ld over [-1,1] is %.17Lg, exact %.17Lg", (long)c.n, (long)c.k, sk, ek);
      PBT_REQUIRE(fabsl(se - ee) <= tol * 20, "n=%ld: integral of exp(%g x) over [-1,1] is %.17Lg, exact %.17Lg", (long)c.n, c.a, se, ee);
    }
    return pbt::pass();
  }
  static ld CONV(int64_t n) { ld r = 24.0L / n; return 3e-14L + 1e-9L * powl(r, 10); }
};
PBT_MAIN(P)
