// Gauss-Legendre / Gauss-Lobatto: degree of exactness for every number of points.
#ifndef RULE0
#define RULE0 0
#define RULE1 0
#endif
#include <pbt.hpp>
#include <ref.hpp>
#include <integratorxx/quadratures/primitive.hpp>
using namespace IntegratorXX;

// Rules too long for the extended-precision sums: every moment again, in double, and the first 200 in extended precision.
template <class Q> static pbt::Result exact_long(const char* nm, const Q& q, int64_t n, int64_t dmax) {
  PBT_REQUIRE(int64_t(q.npts()) == n && int64_t(q.points().size()) == n && int64_t(q.weights().size()) == n,
              "%s(%ld) holds %zu points", nm, (long)n, q.npts());
  auto m = ref::legendre_moments(q.points(), q.weights(), 200);
  for (size_t d = 0; d <= 200; ++d)
    PBT_REQUIRE(std::abs(m[d] - (d == 0 ? 2.0L : 0.0L)) <= 1e-13L, "%s(%ld): integral of P_%zu over [-1,1] off by %.3Le", nm, (long)n, d, m[d]);
  std::vector<double> f;
  ref::legendre_moments_fast(q.points(), q.weights(), size_t(dmax), f);
  for (int64_t d = 0; d <= dmax; ++d)
    PBT_REQUIRE(std::abs(f[size_t(d)] - (d == 0 ? 2.0 : 0.0)) <= 1e-10, "%s(%ld): integral of P_%ld over [-1,1] off by %.3e (degree of exactness %ld)",
                nm, (long)n, (long)d, f[size_t(d)], (long)dmax);
  return pbt::pass();
}
template <class Q> static pbt::Result exact(const char* nm, const Q& q, int64_t n, int64_t dmax, ref::ld tol) {
  if (n > 20000) return exact_long(nm, q, n, dmax);
  PBT_REQUIRE(int64_t(q.npts()) == n && int64_t(q.points().size()) == n && int64_t(q.weights().size()) == n,
              "%s(%ld) holds %zu points", nm, (long)n, q.npts());
  auto m = ref::legendre_moments(q.points(), q.weights(), size_t(dmax));
  for (int64_t d = 0; d <= dmax; ++d) {
    ref::ld e = m[size_t(d)] - (d == 0 ? 2.0L : 0.0L);
    PBT_REQUIRE(std::abs(e) <= tol, "%s(%ld): integral of P_%ld over [-1,1] off by %.3Le (degree of exactness %ld)", nm, (long)n,
                (long)d, e, (long)dmax);
  }
  return pbt::pass();
}
struct P {
  struct Case {
    int64_t rule = 0, n = 1;
    template <class A> void io(A& a) { a("rule", rule); a("n", n); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.rule = s.range(RULE0, RULE1);
    switch (s.range(0, 9)) {
      case 0: c.n = s.range(0, 7) ? s.range(5200, tier ? 16000 : 9000) : s.range(9000, 20000); break;
      case 1: case 2: c.n = s.pick<int64_t>({1536, 2000, 2047, 2048, 2049, 2500, 3000, 4000, 4095, 4096, 4097, 5000, 8191, 8192, 8193}); break;
      default: c.n = s.range(2, 5200);
    }
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    for (int64_t n = 0; n <= (tier ? 3000 : 1500); ++n)
      for (int64_t r = RULE0; r <= RULE1; ++r)
        if (!emit(Case{r, n})) return;
    for (int64_t n : {10000, 16385, 20000, 32769, 65537})  // the recurrence itself becomes long
      for (int64_t r = RULE0; r <= RULE1 && (tier || n < 17000 || n == 32769 || (n == 65537 && r == 0)); ++r)
        if (!emit(Case{r, n})) return;
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    x.nontrivial = c.n >= 3;
    x.label(c.rule ? "lobatto" : "legendre");
    x.label(c.n % 2 ? "odd n" : "even n");
    if (c.n > 1000) x.label("n>1000");
    if (c.rule == 1 && c.n < 2) {
      bool threw = false;
      try { GaussLobatto<double, double> q(size_t(c.n)); } catch (const std::exception&) { threw = true; }
      PBT_REQUIRE(threw, "GaussLobatto(%ld) is not refused: the rule needs its two end points", (long)c.n);
      return pbt::pass();
    }
    if (c.n == 0) {
      GaussLegendre<double, double> q(0);
      PBT_REQUIRE(q.npts() == 0 && q.points().empty() && q.weights().empty(), "GaussLegendre(0) holds %zu points", q.npts());
      return pbt::pass();
    }
    if (c.rule == 0) return exact("GaussLegendre", GaussLegendre<double, double>(size_t(c.n)), c.n, 2 * c.n - 1, 1e-13L);
    GaussLobatto<double, double> q(size_t(c.n));
    PBT_REQUIRE(q.points().front() == -1.0 && q.points().back() == 1.0, "GaussLobatto(%ld) lacks an end point: [%.17g,%.17g]", (long)c.n,
                q.points().front(), q.points().back());
    return exact("GaussLobatto", q, c.n, 2 * c.n - 3, 1e-13L);
  }
};
PBT_MAIN(P)
