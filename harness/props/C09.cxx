// Angular quadratures integrate every spherical harmonic up to their advertised order exactly.
// Oracle: for any axis u, sum_i w_i P_l(u.x_i) = 4 pi delta_{l0} for 0 <= l <= order (addition theorem).
#include <pbt.hpp>
#include <ref.hpp>
#include <s2_bridge.hpp>
#include <s2_sizes.inc>
// The two grids whose stored table is wrong in the repository (known_findings.txt).  A failure counts as the
// listed finding only if it has exactly the recorded deviation: integral of 1, and root-sum-square of the
// residuals along a fixed axis.
struct Known { int64_t fam, n; double sum, rss; };
#include "C09_known.inc"
struct P {
  struct Case {
    int64_t fam = 0, order = 3;
    double a = 0, b = 0;
    template <class A> void io(A& s) { s("fam", fam); s("order", order); s("a", a); s("b", b); }
  };
  static Case gen(pbt::Src& s, int) {
    Case c;
    c.fam = s.range(0, 3);
    const auto& t = PUBLISHED[c.fam];
    c.order = t[size_t(s.range(0, int64_t(t.size()) - 1))].first;
    c.a = s.unit();
    c.b = s.unit();
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    int64_t k = 0;
    for (int rep = 0; rep < (tier ? 6 : 2); ++rep)
      for (int64_t f = 0; f < 4; ++f)
        for (int64_t o = 0; o <= 260; ++o)
          if (s2::npts_by_order(f, o) > 0) {
            ++k;
            if (!emit(Case{f, o, std::fmod(0.754877666 * double(k) + 0.1 * rep, 1.0), std::fmod(0.569840291 * double(k), 1.0)})) return;
          }
  }
  static std::vector<double> moments(const s2::Grid& g, const ref::P3& u, int64_t order) {
    std::vector<double> x(g.p.size()), m;
    for (size_t i = 0; i < x.size(); ++i) x[i] = ref::dot(u, g.p[i]);
    ref::legendre_moments_fast(x, g.w, size_t(order), m);
    return m;
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    const int64_t n = s2::npts_by_order(c.fam, c.order);
    if (n <= 0) return pbt::pass();  // (availability is another property)
    x.nontrivial = true;
    x.label(s2::NAME[c.fam]);
    const auto g = s2::make(c.fam, size_t(n));
    PBT_REQUIRE(int64_t(g.p.size()) == n && int64_t(g.w.size()) == n, "%s(%ld) has %zu points, %zu weights", s2::NAME[c.fam], (long)n, g.p.size(), g.w.size());
    const auto m = moments(g, ref::unit(c.a, c.b), c.order);
    std::string bad;
    for (int64_t l = 0; l <= c.order && bad.empty(); ++l) {
      double e = m[size_t(l)] - (l == 0 ? 4 * M_PI : 0.0);
      if (!(std::abs(e) <= 1e-12))
        bad = pbt::fmt("%s with %ld points, order %ld: spherical harmonics of degree %ld along axis (%g,%g) integrate with error %.3e",
                       s2::NAME[c.fam], (long)n, (long)c.order, (long)l, c.a, c.b, e);
    }
    if (bad.empty()) return pbt::pass();
    for (const auto& k : KNOWN)
      if (k.fam == c.fam && k.n == n) {
        auto q = moments(g, ref::unit(0.3, 0.2), c.order);
        double r = 0;
        for (int64_t l = 1; l <= c.order; ++l) r += q[size_t(l)] * q[size_t(l)];
        r = std::sqrt(r);
        if (std::abs(q[0] - k.sum) <= 1e-11 && std::abs(r - k.rss) <= 2e-11) return pbt::fail_as(std::string(s2::NAME[c.fam]) + "-" + std::to_string(n), bad);
        bad += pbt::fmt(" (not the recorded finding: sum %.15g, rss %.15g)", q[0], r);
      }
    return pbt::fail(bad);
  }
};
PBT_MAIN(P)
