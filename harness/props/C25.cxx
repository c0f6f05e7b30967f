// End to end: an atomic grid, pruned or not and wherever it is centred, integrates products f(|r-c|) Y_lm: the
// spherically symmetric part as its radial rule does, every harmonic up to the lowest angular order to zero.
#include <pbt.hpp>
#include <ref.hpp>
#include <s2_sizes.inc>
#include <integratorxx/generators/spherical_factory.hpp>
using namespace IntegratorXX;
using ref::ld;
using V3 = std::array<double, 3>;
struct P {
  struct Case {
    int64_t rad = 0, n = 20, fam = 2, k = 6, scheme = 0, f = 0, l = 1;
    double R = 1, z = 1, a = 0, b = 0, cx = 0, cy = 0, cz = 0;
    template <class A> void io(A& s) {
      s("rad", rad); s("n", n); s("fam", fam); s("k", k); s("scheme", scheme); s("f", f); s("l", l);
      s("R", R); s("z", z); s("a", a); s("b", b); s("cx", cx); s("cy", cy); s("cz", cz);
    }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.rad = s.range(0, 3);
    c.n = s.coin() ? s.small(1, 60) : s.range(0, 3) ? s.range(60, tier ? 250 : 120) : s.range(120, tier ? 4000 : 1500);
    c.fam = s.range(0, 3);
    int64_t m = 0;
    while (m + 1 < int64_t(PUBLISHED[c.fam].size()) && PUBLISHED[c.fam][size_t(m + 1)].second <= (c.n > 250 ? (tier ? 300000 : 100000) / c.n : tier ? 1500 : 800)) ++m;
    c.k = c.n > 250 || s.range(0, 19) ? s.range(0, m) : s.range(0, int64_t(PUBLISHED[c.fam].size()) - 1);
    c.scheme = s.range(0, 2);
    c.f = s.range(0, 3);
    c.l = s.range(0, 60);
    c.R = s.coin() ? 1 : s.logreal(-6, 6);
    c.z = s.real(0.5, 3);
    c.a = s.unit(); c.b = s.unit();
    if (s.coin()) { const double u = s.coin() ? c.R : 1; c.cx = u * s.coord(2); c.cy = u * s.coord(2); c.cz = u * s.coord(2); }
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    int64_t i = 0;
    for (int64_t f = 0; f < 4; ++f)
      for (int64_t k = 0; k < int64_t(PUBLISHED[f].size()); ++k)
        for (int64_t sc = 0; sc < 3; ++sc, ++i) {
          Case c;
          c.rad = i % 4; c.n = 5 + i % 40; c.fam = f; c.k = k; c.scheme = sc; c.f = i % 4; c.l = i % 13; c.R = 1 + 0.25 * double(i % 3); c.z = 0.75;
          c.a = std::fmod(0.754877666 * double(i), 1.0); c.b = std::fmod(0.569840291 * double(i), 1.0);
          if (i % 2) { c.cx = 1; c.cy = -2; c.cz = 0.5; }
          if (PUBLISHED[f][size_t(k)].second * c.n > 60000) c.n = 3 + i % 4;
          if (!emit(c)) return;
        }
  }
  static double f(const Case& c, double r) {
    const double t = r / c.R;
    switch (c.f) {
      case 0: return std::exp(-c.z * t * t);
      case 1: return std::exp(-c.z * t);
      case 2: return t * t * std::exp(-c.z * t * t);
      default: return 1 / ((1 + t * t) * (1 + t * t) * (1 + t * t));
    }
  }
  static double legendre(int64_t l, double x) {
    double p = 1, q = 0;
    for (int64_t k = 1; k <= l; ++k) { double t = ((2 * k - 1) * x * p - (k - 1) * q) / double(k); q = p; p = t; }
    return p;
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    static const RadialQuad rqs[4] = {RadialQuad::Becke, RadialQuad::MuraKnowles, RadialQuad::MurrayHandyLaming, RadialQuad::TreutlerAhlrichs};
    static const AngularQuad aqs[4] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
    static const PruningScheme ss[3] = {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler};
    static const char* sn[3] = {"unpruned", "robust", "Treutler"};
    if (c.n < 1 || c.R <= 0 || c.z <= 0) return pbt::pass();
    const auto& t = PUBLISHED[c.fam];
    const size_t n = size_t(c.n);
    const auto [order, size] = t[size_t(c.k) % t.size()];
    auto tr = make_radial_traits(rqs[c.rad], n, c.R);
    auto spec = create_pruned_spec(ss[c.scheme], UnprunedSphericalGridSpecification(rqs[c.rad], *tr, aqs[c.fam], AngularSize(size)));
    int64_t lmin = 1000, total = 0, known = 0;
    for (auto& r : spec.pruning_regions) {
      for (auto& q : t) if (q.second == int64_t(r.angular_size)) lmin = std::min<int64_t>(lmin, q.first);
      total += int64_t(r.angular_size * (r.idx_en - r.idx_st));
      // the two stored tables that are wrong (known_findings.txt)
      if (c.fam == 0 && (r.angular_size == 552 || r.angular_size == 5472)) known = std::max(known, int64_t(r.angular_size));
    }
    if (total > 400000) { x.label("skipped for size"); return pbt::pass(); }
    x.nontrivial = n > 1;
    x.label(sn[c.scheme]);
    auto g = SphericalGridFactory::generate_grid(spec);
    auto rg = RadialFactory::generate(rqs[c.rad], *tr);
    const V3 cen{c.cx, c.cy, c.cz};
    const bool off = c.cx != 0 || c.cy != 0 || c.cz != 0;
    if (off) { g->recenter(cen); x.label("off-origin"); }
    PBT_REQUIRE(int64_t(g->npts()) == total, "grid has %zu points, its regions hold %ld", g->npts(), (long)total);
    ld radial = 0, rabs = 0;
    for (size_t i = 0; i < n; ++i) { ld v = ld(rg->weights()[i]) * rg->points()[i] * rg->points()[i] * f(c, rg->points()[i]); radial += v; rabs += fabsl(v); }
    if (known) {
      // with a table that is known to be wrong the grid must still be that table's product: its recorded total
      // weight on the shells it serves, 4 pi elsewhere, and harmonics off by no more than the table is
      ld e = 0, s0 = 0, sl = 0;
      for (auto& r : spec.pruning_regions)
        for (size_t i = r.idx_st; i < r.idx_en; ++i)
          e += (c.fam == 0 && r.angular_size == 552 ? 12.1044731679028L : 4 * ref::PI) * rg->weights()[i] * rg->points()[i] * rg->points()[i] * f(c, rg->points()[i]);
      const auto v = ref::unit(c.a, c.b);
      const int64_t k = 1 + c.l % lmin;
      for (size_t i = 0; i < g->npts(); ++i) {
        V3 d{g->points()[i][0] - c.cx, g->points()[i][1] - c.cy, g->points()[i][2] - c.cz};
        const double r = std::sqrt(ref::dot(d, d));
        const ld q = ld(g->weights()[i]) * f(c, r);
        s0 += q;
        if (r > 0) sl += q * legendre(k, std::max(-1.0, std::min(1.0, ref::dot(d, v) / r)));
      }
      PBT_REQUIRE(fabsl(s0 - e) <= 1e-9L * 4 * ref::PI * rabs && fabsl(sl) <= (known == 552 ? 1.0L : 1e-5L) * 4 * ref::PI * rabs,
                  "%s grid (radial %ld, n=%zu, AhrensBeylkin, size %ld): beyond the recorded finding: %.15Lg (recorded %.15Lg), harmonic %.3Le", sn[c.scheme], (long)c.rad, n, (long)size, s0, e, sl);
      x.label("known wrong angular table");
      if (known == 5472) return pbt::pass();  // its deviation is below what this property resolves at these degrees
      return pbt::fail_as("AhrensBeylkin-552", pbt::fmt("spherically symmetric function integrates to %.15Lg, its radial rule gives %.15Lg", s0, 4 * ref::PI * radial));
    }
    const auto u = ref::unit(c.a, c.b);
    const int64_t l = lmin >= 1 ? 1 + c.l % lmin : 0;
    ld s0 = 0, sl = 0;
    // points close to the centre lose their direction when stored off-origin
    const double shift = off ? std::abs(c.cx) + std::abs(c.cy) + std::abs(c.cz) : 0;
    ld slack = 0;
    for (size_t i = 0; i < g->npts(); ++i) {
      const auto& p = g->points()[i];
      V3 d{p[0] - c.cx, p[1] - c.cy, p[2] - c.cz};
      const double r = std::sqrt(ref::dot(d, d));
      const ld v = ld(g->weights()[i]) * f(c, r);
      s0 += v;
      if (r > 0) sl += v * legendre(l, std::max(-1.0, std::min(1.0, ref::dot(d, u) / r)));
      if (off) slack += fabsl(v) * std::min(1.0, 1e-15 * shift / std::max(r, 1e-300) * double(l * l + 1)) + fabsl(ld(g->weights()[i])) * 1e-15 * shift / c.R * (1 + c.z);
    }
    const ld scale = 4 * ref::PI * rabs;
    PBT_REQUIRE(std::isfinite(double(s0)) && fabsl(s0 - 4 * ref::PI * radial) <= 1e-11L * scale + slack,
                "%s grid (radial %ld, n=%zu, family %ld, size %ld): spherically symmetric function integrates to %.15Lg, its radial rule gives %.15Lg", sn[c.scheme], (long)c.rad, n, (long)c.fam, (long)size, s0, 4 * ref::PI * radial);
    if (l >= 1) {
      PBT_REQUIRE(fabsl(sl) <= 1e-11L * scale + slack, "%s grid (radial %ld, n=%zu, family %ld, size %ld): harmonic of degree %ld times f integrates to %.3Le of %.3Le", sn[c.scheme], (long)c.rad, n, (long)c.fam, (long)size, (long)l, sl, scale);
      x.label("harmonic checked");
    }
    // and against the analytic value where the radial rule resolves f (the slowest scheme/function pairs get 1e-4)
    if (n >= 100 && c.rad != 1 && c.rad != 3 && c.z >= 0.5 && c.z <= 2 && c.f != 3) {
      ld ex = c.f == 0 ? powl(ref::PI / c.z, 1.5L) : c.f == 1 ? 8 * ref::PI / powl(c.z, 3) : 1.5L / c.z * powl(ref::PI / c.z, 1.5L);
      ex *= ld(c.R) * c.R * c.R;
      PBT_REQUIRE(fabsl(s0 / ex - 1) <= 1e-7L + slack / ex, "%s grid (radial %ld, n=%zu): function %ld integrates to %.15Lg, exact %.15Lg", sn[c.scheme], (long)c.rad, n, (long)c.f, s0, ex);
      x.label("compared with the analytic integral");
    }
    (void)order;
    return pbt::pass();
  }
};
PBT_MAIN(P)
