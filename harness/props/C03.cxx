// Gauss-Chebyshev rules of the first, second and third kind: with the weight function of their kind
// restored, they integrate every polynomial of degree <= 2n-1 exactly.
#include <pbt.hpp>
#include <ref.hpp>
#include <integratorxx/quadratures/primitive.hpp>
using namespace IntegratorXX;
using ref::ld;
struct P {
  struct Case {
    int64_t kind = 1, n = 1;
    template <class A> void io(A& a) { a("kind", kind); a("n", n); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.kind = s.range(1, 3);
    if (s.range(0, 2) == 0) { c.n = s.range(5200, tier ? 1000000 : 100000); return c; }
    c.n = s.coin() ? s.pick<int64_t>({2000, 2048, 2500, 3000, 3999, 4000, 4095, 4096, 4097, 5000}) : s.range(1, tier ? 9000 : 5200);
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    for (int64_t n = 1; n <= (tier ? 2000 : 1000); ++n)
      for (int64_t k = 1; k <= 3; ++k)
        if (!emit(Case{k, n})) return;
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    x.nontrivial = c.n >= 2;
    x.label("kind " + std::to_string(c.kind));
    std::vector<double> p, w;
    if (c.kind == 1) { GaussChebyshev1<double, double> q(size_t(c.n)); p = q.points(); w = q.weights(); }
    if (c.kind == 2) { GaussChebyshev2<double, double> q(size_t(c.n)); p = q.points(); w = q.weights(); }
    if (c.kind == 3) { GaussChebyshev3<double, double> q(size_t(c.n)); p = q.points(); w = q.weights(); }
    PBT_REQUIRE(int64_t(p.size()) == c.n && int64_t(w.size()) == c.n, "rule holds %zu/%zu entries, not %ld", p.size(), w.size(), (long)c.n);
    const size_t n = p.size();
    if (c.n > 9000) {  // the Gauss rule is unique: compare with its closed form
      x.label("closed form");
      for (size_t i = 0; i < n; ++i) {
        const ld k = ld(n - i), eps = 2.3e-16L;
        const ld t = c.kind == 1 ? (2 * k - 1) * ref::PI / (2 * n) : c.kind == 2 ? k * ref::PI / (n + 1) : (2 * k - 1) * ref::PI / (2 * (2 * ld(n) + 1));
        const ld s = sinl(t), co = cosl(t);
        const ld ex = c.kind == 3 ? co * co : co, ew = c.kind == 1 ? ref::PI / n * s : c.kind == 2 ? ref::PI / (n + 1) * s : 2 * ref::PI / (2 * ld(n) + 1) * co * s;
        const ld tol = 2e-14L + 16 * eps * (1 / (s * s) + (c.kind == 3 ? 1 / (co * co) : 0));
        PBT_REQUIRE(fabsl(p[i] - ex) <= 4e-15L && fabsl(w[i] - ew) <= tol * ew, "kind %ld, n=%ld: entry %zu is (%.17g,%.17g), the Gauss rule has (%.17Lg,%.17Lg)", (long)c.kind, (long)c.n, i, p[i], w[i], ex, ew);
      }
      return pbt::pass();
    }
    // polynomial family orthogonal-ish basis, evaluated in the angle: cheap and stable
    std::vector<ld> y(n), g(n);
    for (size_t i = 0; i < n; ++i) {
      ld xi = p[i];
      if (c.kind == 1) { y[i] = xi; g[i] = ld(w[i]) / sqrtl((1 - xi) * (1 + xi)); }
      if (c.kind == 2) { y[i] = xi; g[i] = ld(w[i]) * sqrtl((1 - xi) * (1 + xi)); }
      if (c.kind == 3) { y[i] = 2 * xi - 1; g[i] = ld(w[i]) * sqrtl(xi / (1 - xi)); }
    }
    const ld tol = 2e-13L + 1e-14L * c.n;
    std::vector<ld> tm(n, 1.0L), t = y;  // T_0, T_1
    const int64_t dmax = 2 * c.n - 1;
    for (int64_t d = 0; d <= dmax; ++d) {
      ld s = 0;
      for (size_t i = 0; i < n; ++i) s += g[i] * tm[i];
      ld e = 0;  // integral of T_d against the weight function of the rule
      if (c.kind == 1) e = d == 0 ? ref::PI : 0;
      if (c.kind == 2) e = d == 0 ? ref::PI / 2 : d == 2 ? -ref::PI / 4 : 0;
      if (c.kind == 3) e = d == 0 ? ref::PI / 2 : d == 1 ? ref::PI / 4 : 0;
      PBT_REQUIRE(std::abs(s - e) <= tol, "kind %ld, n=%ld: weighted integral of T_%ld is %.17Lg, exact %.17Lg", (long)c.kind, (long)c.n,
                  (long)d, s, e);
      for (size_t i = 0; i < n; ++i) { ld q = 2 * y[i] * t[i] - tm[i]; tm[i] = t[i]; t[i] = q; }
    }
    return pbt::pass();
  }
};
PBT_MAIN(P)
