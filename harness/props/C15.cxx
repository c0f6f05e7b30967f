// Pruning schemes: regions tile the radial grid exactly, with the documented boundaries and angular sizes,
// for every radial size and every angular base grid; an incompatible base size never yields a grid.
#include <pbt.hpp>
#include <s2_sizes.inc>
#include <integratorxx/generators/spherical_factory.hpp>
using namespace IntegratorXX;
struct P {
  struct Case {
    int64_t scheme = 1, rad = 0, n = 1, fam = 2, size = 302, build = 0;
    template <class A> void io(A& s) { s("scheme", scheme); s("rad", rad); s("n", n); s("fam", fam); s("size", size); s("build", build); }
  };
  static Case gen(pbt::Src& s, int) {
    Case c;
    c.scheme = s.range(0, 2);
    c.rad = s.range(0, 3);
    c.n = s.coin() ? s.range(1, 40) : s.small(1, int64_t(1) << 40);
    c.fam = s.range(0, 3);
    const auto& t = PUBLISHED[c.fam];
    c.size = t[size_t(s.range(0, int64_t(t.size()) - 1))].second;
    if (s.range(0, 7) == 7) c.size += s.range(-2, 2);
    c.build = s.range(0, 3) == 3;
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    // every radial size with rotating base grids
    for (int64_t n = 1; n <= (tier ? 20000 : 3000); ++n)
      for (int64_t sc = 0; sc < 3; ++sc)
        for (int64_t f = 0; f < 4; ++f)
          if (!emit(Case{sc, n % 4, n, f, PUBLISHED[f][size_t(n * 7 + sc) % PUBLISHED[f].size()].second, 0})) return;
    // every base grid, on a few radial sizes
    for (int64_t f = 0; f < 4; ++f)
      for (auto& q : PUBLISHED[f])
        for (int64_t sc = 0; sc < 3; ++sc)
          for (int64_t n = 1; n <= 120; ++n)
            if (!emit(Case{sc, n % 4, n, f, q.second, n <= 2 || n == 30 + q.second % 7})) return;
  }
  static int64_t next(int64_t f, int64_t o) {
    for (auto& q : PUBLISHED[f]) if (q.first >= o) return q.first;
    return -1;
  }
  static int64_t npts(int64_t f, int64_t o) {
    for (auto& q : PUBLISHED[f]) if (q.first == o) return q.second;
    return -1;
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    static const RadialQuad rqs[4] = {RadialQuad::Becke, RadialQuad::MuraKnowles, RadialQuad::MurrayHandyLaming, RadialQuad::TreutlerAhlrichs};
    static const AngularQuad aqs[4] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
    static const PruningScheme ss[3] = {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler};
    static const char* sn[3] = {"unpruned", "robust", "Treutler"};
    if (c.n < 1 || c.size < 1) return pbt::pass();
    int64_t order = -1;
    for (auto& q : PUBLISHED[c.fam]) if (q.second == c.size) order = q.first;
    const auto tr = make_radial_traits(rqs[c.rad], size_t(c.n), 1.5);
    UnprunedSphericalGridSpecification u(rqs[c.rad], *tr, aqs[c.fam], AngularSize(c.size));
    x.nontrivial = c.scheme > 0 && c.n > 1;
    x.label(order < 0 ? "incompatible base size" : sn[c.scheme]);
    const bool small = c.n <= 40;
    if (order < 0) {
      bool threw = false;
      size_t np = 0;
      try {
        auto s = create_pruned_spec(ss[c.scheme], u);
        if (!small) return pbt::pass();
        np = SphericalGridFactory::generate_grid(s)->npts();
      } catch (const std::exception&) { threw = true; }
      // with one radial point no region may use the requested size
      if (!threw && c.scheme == 2 && c.n < 3) return pbt::pass();
      PBT_REQUIRE(threw, "%s pruning of a base grid of %ld points, which does not exist, gave %zu points", sn[c.scheme], (long)c.size, np);
      return pbt::pass();
    }
    const int64_t n = c.n, low = npts(c.fam, next(c.fam, 7));
    struct R { int64_t st, en, sz; };
    std::vector<R> e;
    if (c.scheme == 0) e = {{0, n, c.size}};
    else {
      const int64_t b1 = n / (c.scheme == 1 ? 4 : 3) + 1, b2 = n / 2 + 1;
      const int64_t med = npts(c.fam, c.scheme == 1 ? next(c.fam, order > 6 ? order - 6 : order) : next(c.fam, 11));
      for (R r : {R{0, b1, low}, R{b1, b2, med}, R{b2, n, c.size}}) if (r.st < r.en) e.push_back(r);
      if (n <= 2) x.label("tiny radial grid");
    }
    auto same = [&](const PrunedSphericalGridSpecification& s, const char* how) -> std::string {
      if (s.radial_quad != rqs[c.rad] || !s.radial_traits || !s.radial_traits->compare(*tr)) return pbt::fmt("%s: radial specification changed", how);
      int64_t at = 0;
      for (auto& r : s.pruning_regions) {
        if (int64_t(r.idx_st) != at || r.idx_en <= r.idx_st) return pbt::fmt("%s: region [%zu,%zu) after %ld does not tile %ld radial points", how, r.idx_st, r.idx_en, (long)at, (long)n);
        at = int64_t(r.idx_en);
        if (r.angular_quad != aqs[c.fam]) return pbt::fmt("%s: angular family changed", how);
      }
      if (at != n) return pbt::fmt("%s: regions end at %ld of %ld", how, (long)at, (long)n);
      if (s.pruning_regions.size() != e.size()) return pbt::fmt("%s: %zu regions, expected %zu", how, s.pruning_regions.size(), e.size());
      for (size_t i = 0; i < e.size(); ++i) {
        auto& r = s.pruning_regions[i];
        if (int64_t(r.idx_en) != e[i].en || int64_t(r.angular_size) != e[i].sz)
          return pbt::fmt("%s: region %zu is [%zu,%zu) with %zu angular points, expected [%ld,%ld) with %ld", how, i, r.idx_st, r.idx_en, r.angular_size, (long)e[i].st, (long)e[i].en, (long)e[i].sz);
      }
      return "";
    };
    std::string ctx = pbt::fmt(" (%s scheme, %ld radial points, family %ld, base size %ld)", sn[c.scheme], (long)n, (long)c.fam, (long)c.size);
    auto s = create_pruned_spec(ss[c.scheme], u);
    std::string m = same(s, "create_pruned_spec");
    if (m.empty() && c.scheme == 1) m = same(robust_psi4_pruning_scheme(u), "robust scheme");
    if (m.empty() && c.scheme == 2) m = same(treutler_pruning_scheme(u), "Treutler scheme");
    if (!m.empty()) return pbt::fail(m + ctx);
    PBT_REQUIRE(u.radial_traits && u.radial_traits->compare(*tr) && u.angular_size == size_t(c.size), "the unpruned specification was changed");
    if (c.build && small) {
      size_t want = 0;
      for (auto& r : e) want += size_t((r.en - r.st) * r.sz);
      auto g = SphericalGridFactory::generate_grid(s);
      PBT_REQUIRE(g && g->npts() == want && g->weights().size() == want, "generated grid has %zu points, expected %zu%s", g ? g->npts() : 0, want, ctx.c_str());
      x.label("grid generated");
    }
    return pbt::pass();
  }
};
PBT_MAIN(P)
