// The run-time factories build exactly what direct construction builds: the named radial rule with the given
// parameters, the named angular rule of the given size, and their (pruned) product, centred at the origin.
#include <pbt.hpp>
#include <match.hpp>
#include <s2_bridge.hpp>
#include <s2_sizes.inc>
#include <integratorxx/generators/spherical_factory.hpp>
using namespace IntegratorXX;
struct P {
  struct Case {
    int64_t rad = 0, n = 5, nparam = 2, fam = 2, route = 0, scheme = 0;
    double R = 1, alpha = 0.6;
    std::vector<int64_t> before;       // earlier requests, which must not matter
    std::vector<int64_t> sizes, gaps;  // regions: size index, gap to the next start
    template <class A> void io(A& s) {
      s("rad", rad); s("n", n); s("nparam", nparam); s("fam", fam); s("route", route); s("scheme", scheme);
      s("R", R); s("alpha", alpha); s("sizes", sizes); s("gaps", gaps); s("before", before);
    }
  };
  static int64_t size_index(pbt::Src& s, int64_t f, int64_t cap) {
    int64_t k = 0;
    while (k + 1 < int64_t(PUBLISHED[f].size()) && PUBLISHED[f][size_t(k + 1)].second <= cap) ++k;
    return s.range(0, k);
  }
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.rad = s.range(0, 3);
    c.n = s.small(1, tier ? 300 : 100);
    c.nparam = s.range(1, c.rad == 3 ? 3 : 2);
    c.fam = s.range(0, 3);
    c.route = s.range(0, 4);
    c.scheme = s.range(0, 2);
    c.R = s.coin() ? s.pick<double>({1, 2, 0.5, 7}) : s.logreal(-9, 9);
    c.alpha = s.pick<double>({0.6, 0, 1, 0.25});
    int64_t k = s.range(1, 4), fam = c.fam;
    for (int64_t i = 0; i < k; ++i) { c.sizes.push_back(size_index(s, fam, i ? 200 : s.range(0, 9) ? 400 : 16000)); c.gaps.push_back(s.range(0, 20)); }
    for (int64_t i = s.range(0, 3); i > 0; --i) c.before.push_back(s.range(0, 35));
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t f = 0; f < 4; ++f)
      for (int64_t k = 0; k < int64_t(PUBLISHED[f].size()); ++k)
        for (int64_t route = 0; route < 5; ++route) {
          Case c;
          c.rad = (k + route) % 4; c.fam = f; c.route = route; c.n = 2 + k % 7; c.R = 1 + 0.25 * double(k % 5); c.scheme = k % 3; c.nparam = 1 + k % 2;
          c.sizes = {k, (k * 5 + 1) % 8, (k * 3) % 6};
          c.gaps = {1, 0, 3};
          c.before = {(k + route) % 36, (k * 7 + route * 4) % 36};
          if (!emit(c)) return;
        }
  }
  template <class T> static std::string radial_same(const T& q, const RadialFactory::radial_grid_ptr& g) {
    if (!g) return "radial factory returned nothing";
    if (q.points() != g->points() || q.weights() != g->weights() || g->npts() != q.npts()) return "radial factory differs from direct construction";
    return "";
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    static const RadialQuad rqs[4] = {RadialQuad::Becke, RadialQuad::MuraKnowles, RadialQuad::MurrayHandyLaming, RadialQuad::TreutlerAhlrichs};
    static const AngularQuad aqs[4] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
    if (c.n < 1 || c.R <= 0 || c.sizes.empty() || c.sizes.size() != c.gaps.size()) return pbt::pass();
    const size_t n = size_t(c.n);
    x.nontrivial = n > 1;
    x.label("radial " + std::to_string(c.rad));
    x.label(s2::NAME[c.fam]);
    const RadialQuad rq = rqs[c.rad];
    const AngularQuad aq = aqs[c.fam];
    auto tr = c.nparam == 1 ? make_radial_traits(rq, n) : c.nparam == 2 ? make_radial_traits(rq, n, c.R) : make_radial_traits(rq, n, c.R, c.alpha);
    // earlier requests: the same parameters or the same size, another kind
    for (int64_t b : c.before) {
      const RadialQuad ork = rqs[b % 4];
      const AngularQuad oaq = aqs[(b / 4) % 4];
      const int64_t sz = PUBLISHED[c.fam][size_t(c.sizes[0]) % PUBLISHED[c.fam].size()].second;
      auto ot = make_radial_traits(ork, n, b >= 32 ? c.R : c.R * double(1 + b / 16));
      (void)RadialFactory::generate(ork, *ot);
      try {
        (void)S2Factory::generate(oaq, size_t(sz));
        if (n * size_t(sz) < 20000) (void)SphericalGridFactory::generate_grid(UnprunedSphericalGridSpecification(ork, *ot, oaq, AngularSize(sz)));
      } catch (const std::exception&) {}
    }
    PBT_REQUIRE(tr && tr->npts() == n, "radial traits report %zu points, asked for %zu", tr ? tr->npts() : 0, n);
    const double R = c.nparam == 1 ? 1.0 : c.R, al = c.nparam == 3 ? c.alpha : 0.6;
    auto g = RadialFactory::generate(rq, *tr);
    std::vector<double> rp, rw;
    std::string m;
    auto direct = [&](const auto& q, const auto& t) {
      rp = q.points(); rw = q.weights();
      m = radial_same(q, g);
      if (m.empty() && !tr->compare(t)) m = "radial traits differ from the directly constructed ones";
    };
    switch (c.rad) {
      case 0: direct(Becke<double, double>(n, R), BeckeRadialTraits(n, R)); break;
      case 1: direct(MuraKnowles<double, double>(n, R), MuraKnowlesRadialTraits(n, R)); break;
      case 2: direct(MurrayHandyLaming<double, double>(n, R), MurrayHandyLamingRadialTraits<2>(n, R)); break;
      default: direct(TreutlerAhlrichs<double, double>(n, R, al), TreutlerAhlrichsRadialTraits(n, R, al)); break;
    }
    if (!m.empty()) return pbt::fail(m + pbt::fmt(" (radial rule %ld, n=%zu)", (long)c.rad, n));
    auto size_of = [&](int64_t k) { return PUBLISHED[c.fam][size_t(k) % PUBLISHED[c.fam].size()].second; };
    const int64_t asz = size_of(c.sizes[0]);
    {
      auto s = S2Factory::generate(aq, size_t(asz));
      auto d = s2::make(c.fam, size_t(asz));
      PBT_REQUIRE(s && s->points() == d.p && s->weights() == d.w, "angular factory differs from direct construction of %s(%ld)", s2::NAME[c.fam], (long)asz);
    }
    if (c.n * asz > 300000) { x.label("product skipped for size"); return pbt::pass(); }
    // expected shells
    struct R3 { size_t st, en; int64_t sz; };
    std::vector<R3> rs;
    std::vector<PruningRegion> pr;
    SphericalGridFactory::spherical_grid_ptr s;
    UnprunedSphericalGridSpecification u(rq, *tr, aq, AngularSize(asz));
    switch (c.route) {
      case 0: s = SphericalGridFactory::generate_unpruned_grid(rq, *tr, aq, AngularSize(asz)); rs = {{0, n, asz}}; break;
      case 1: s = SphericalGridFactory::generate_grid(u); rs = {{0, n, asz}}; break;
      case 2: case 3: {
        size_t st = 0;
        for (size_t k = 0; k < c.sizes.size() && st < n; ++k) {
          if (!rs.empty()) rs.back().en = st;
          rs.push_back({st, n, size_of(c.sizes[k])});
          st += 1 + size_t(c.gaps[k]);
        }
        for (auto& r : rs) pr.push_back({r.st, r.en, aq, AngularSize(r.sz)});
        if (c.route == 2) s = SphericalGridFactory::generate_pruned_grid(rq, *tr, pr);
        else { PrunedSphericalGridSpecification sp(rq, *tr, pr); s = SphericalGridFactory::generate_grid(sp); }
        x.label(pbt::fmt("%zu explicit regions", rs.size()));
        break;
      }
      default: {
        static const PruningScheme ss[3] = {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler};
        auto sp = create_pruned_spec(ss[c.scheme], u);
        for (auto& r : sp.pruning_regions) rs.push_back({r.idx_st, r.idx_en, int64_t(r.angular_size)});
        s = SphericalGridFactory::generate_grid(sp);
        x.label("pruning scheme");
      }
    }
    PBT_REQUIRE(s != nullptr, "factory returned nothing");
    std::vector<match::PW> e;
    for (auto& r : rs) {
      auto d = s2::make(c.fam, size_t(r.sz));
      match::add_shells(e, rp, rw, r.st, r.en, d.p, d.w, V3{0, 0, 0});
    }
    m = match::multiset(s->points(), s->weights(), e, 2e-15);
    if (!m.empty()) return pbt::fail(pbt::fmt("route %ld, radial %ld(n=%zu,R=%g), %s(%ld): ", (long)c.route, (long)c.rad, n, R, s2::NAME[c.fam], (long)asz) + m);
    PBT_REQUIRE(s->npts() == e.size() && s->center() == (V3{0, 0, 0}), "factory grid is not centred at the origin or misreports its size");
    return pbt::pass();
  }
};
PBT_MAIN(P)
