// Structure of every one-dimensional rule: right size, finite, strictly increasing inside the domain,
// positive weights, mirror symmetry where the rule has it.
#include <pbt.hpp>
#include <ref.hpp>
#include <integratorxx/quadratures/primitive.hpp>
using namespace IntegratorXX;
struct P {
  struct Case {
    int64_t rule = 0, n = 1;
    template <class A> void io(A& a) { a("rule", rule); a("n", n); }
  };
  static constexpr const char* names[] = {"GaussLegendre", "GaussLobatto", "GaussChebyshev1", "GaussChebyshev2",
                                          "GaussChebyshev2Modified", "GaussChebyshev3", "UniformTrapezoid"};
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.rule = s.range(0, 6);
    int64_t big = c.rule < 2 ? 6000 : tier ? 500000 : 60000;
    c.n = s.coin() ? s.small(2, big) : s.range(2, big);
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    for (int64_t n = 0; n <= (tier ? 2500 : 900); ++n)  // n = 0: an empty rule, where the rule has no fixed nodes
      for (int64_t r = 0; r < 7; ++r) {
        if ((r == 1 || r == 6) && n < 2) continue;
        if (!emit(Case{r, n})) return;
      }
    for (int64_t n : {32767, 32768, 32769, 46341, 65535, 65536, 65537, 131073, 1000003})  // where narrower counters wrap
      for (int64_t r = 2; r < 7; ++r)
        if (!emit(Case{r, n})) return;
  }
  template <class Q> static pbt::Result look(const Q& q, const Case& c, double lo, double up, bool open, bool sym, double slack = 0) {
    // slack: nodes that crowd towards the ends faster than the floating-point grid resolves
    const char* nm = names[c.rule];
    const auto& p = q.points();
    const auto& w = q.weights();
    const size_t n = size_t(c.n);
    PBT_REQUIRE(q.npts() == n && p.size() == n && w.size() == n, "%s(%ld): %zu points, %zu weights", nm, (long)c.n, p.size(), w.size());
    for (size_t i = 0; i < n; ++i) {
      PBT_REQUIRE(std::isfinite(p[i]) && std::isfinite(w[i]), "%s(%ld): entry %zu is not finite (%g,%g)", nm, (long)c.n, i, p[i], w[i]);
      PBT_REQUIRE(slack > 0 ? (p[i] >= lo - slack && p[i] <= up + slack) : open ? (p[i] > lo && p[i] < up) : (p[i] >= lo && p[i] <= up), "%s(%ld): node %zu = %.17g outside the domain", nm, (long)c.n, i, p[i]);
      if (i) PBT_REQUIRE(slack > 0 ? p[i] >= p[i - 1] - slack : p[i] > p[i - 1], "%s(%ld): nodes %zu and %zu not increasing (%.17g, %.17g)", nm, (long)c.n, i - 1, i, p[i - 1], p[i]);
      PBT_REQUIRE(w[i] > 0, "%s(%ld): weight %zu = %.17g not positive", nm, (long)c.n, i, w[i]);
      PBT_REQUIRE(q.points(i) == p[i] && q.weights(i) == w[i] && q.points_data()[i] == p[i] && q.weights_data()[i] == w[i],
                  "%s(%ld): indexed access disagrees at %zu", nm, (long)c.n, i);
    }
    for (size_t i = 0; sym && i < n; ++i) {
      PBT_REQUIRE(std::abs((p[i] - lo) - (up - p[n - 1 - i])) <= 1e-14, "%s(%ld): nodes %zu/%zu not mirror images", nm, (long)c.n, i, n - 1 - i);
      PBT_REQUIRE(std::abs(w[i] - w[n - 1 - i]) <= 1e-13 * w[i] + 2e-15, "%s(%ld): weights %zu/%zu differ (%.17g %.17g)", nm, (long)c.n, i, n - 1 - i, w[i], w[n - 1 - i]);
    }
    int thrown = 0;
    // past the end: just past it, far past it, and values that fold onto a
    // stored index when an index is narrowed, made signed or masked
    const size_t past[] = {n, n + 1, 2 * n, n | 0x8000u, size_t(1) << 31, (size_t(1) << 31) + n / 2, size_t(1) << 32, (size_t(1) << 32) + n / 2,
                           (size_t(1) << 63) + n - 1, SIZE_MAX - n + 1, SIZE_MAX, (size_t(1) << 16) * (n / 65536 + 1), 256 * (n / 256 + 1)};
    for (size_t i : past) {
      if (i < n) continue;
      thrown = 0;
      try { (void)q.points(i); } catch (const std::exception&) { ++thrown; }
      try { (void)q.weights(i); } catch (const std::exception&) { ++thrown; }
      PBT_REQUIRE(thrown == 2, "%s(%ld): indexed access past the end (%zu) not refused", nm, (long)c.n, i);
    }
    return pbt::pass();
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    x.nontrivial = c.n >= 2;
    x.label(names[c.rule]);
    size_t n = size_t(c.n);
    switch (c.rule) {
      case 0: return look(GaussLegendre<double, double>(n), c, -1, 1, true, true);
      case 1: return look(GaussLobatto<double, double>(n), c, -1, 1, false, true);
      case 2: return look(GaussChebyshev1<double, double>(n), c, -1, 1, true, true);
      case 3: return look(GaussChebyshev2<double, double>(n), c, -1, 1, true, true);
      case 4: return look(GaussChebyshev2Modified<double, double>(n), c, -1, 1, true, true, n > 600 ? 1e-15 : 0);
      case 5: return look(GaussChebyshev3<double, double>(n), c, 0, 1, true, false);
      default: return look(UniformTrapezoid<double, double>(n, 0., 1.), c, 0, 1, false, true);
    }
  }
};
PBT_MAIN(P)
