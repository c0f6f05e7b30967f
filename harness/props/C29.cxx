// Angular tables, spheres, pruned spheres, recentring and batching in single and extended precision.
#include <pbt.hpp>
#include <match.hpp>
#include <s2_bridge.hpp>
#include <s2_sizes.inc>
#include <integratorxx/quadratures/s2.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace IntegratorXX;
// user-defined quadratures over T
template <class T> struct URad;
template <class T> struct UAng;
namespace IntegratorXX {
template <class T> struct quadrature_traits<URad<T>> {
  using point_type = T;
  using weight_type = T;
  using point_container = std::vector<T>;
  using weight_container = std::vector<T>;
  static std::tuple<point_container, weight_container> generate(const point_container& p, const weight_container& w) { return {p, w}; }
};
template <class T> struct quadrature_traits<UAng<T>> {
  using point_type = std::array<T, 3>;
  using weight_type = T;
  using point_container = std::vector<point_type>;
  using weight_container = std::vector<T>;
  static std::tuple<point_container, weight_container> generate(const point_container& p, const weight_container& w) { return {p, w}; }
};
}  // namespace IntegratorXX
template <class T> struct URad : Quadrature<URad<T>> {
  using base = Quadrature<URad<T>>;
  URad(const std::vector<T>& p, const std::vector<T>& w) : base(p, w) {}
  URad(const URad&) = default;
  URad(URad&&) noexcept = default;
};
template <class T> struct UAng : Quadrature<UAng<T>> {
  using base = Quadrature<UAng<T>>;
  UAng(const std::vector<std::array<T, 3>>& p, const std::vector<T>& w) : base(p, w) {}
  UAng(const UAng&) = default;
  UAng(UAng&&) noexcept = default;
};
struct Reg {
  int64_t st = 0, sz = 0;
  template <class A> void io(A& s) { s("st", st); s("sz", sz); }
};
struct P {
  struct Case {
    int64_t mode = 0, prec = 0, fam = 0, size = 0, rad = 0, n = 1, bsz = 10;
    double R = 1, cx = 0, cy = 0, cz = 0, nx = 0, ny = 0, nz = 0;
    std::vector<Reg> regs;
    template <class A> void io(A& s) {
      s("mode", mode); s("prec", prec); s("fam", fam); s("size", size); s("rad", rad); s("n", n); s("bsz", bsz); s("R", R);
      s("cx", cx); s("cy", cy); s("cz", cz); s("nx", nx); s("ny", ny); s("nz", nz); s("regs", regs);
    }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.mode = s.range(0, 9) ? 1 : 0;
    c.prec = s.range(0, 1);
    c.fam = s.range(0, 3);
    c.size = s.range(0, int64_t(PUBLISHED[c.fam].size()) - 1);
    c.rad = s.range(0, 3);
    c.n = s.small(1, tier ? 60 : 24);
    c.bsz = s.range(0, 3) ? s.small(1, 600) : s.range(1, 4);
    c.R = s.coin() ? s.real(0.25, 4) : s.logreal(-4, 4);
    if (s.coin()) { c.cx = s.coord(3); c.cy = s.coord(3); c.cz = s.coord(3); }
    c.nx = s.coord(3); c.ny = s.coord(3); c.nz = s.coord(3);
    c.regs = pbt::vec<Reg>(s, 0, 4, [&](pbt::Src& q) { return Reg{q.range(0, 30), q.range(0, 11)}; });
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t f = 0; f < 4; ++f)
      for (size_t i = 0; i < PUBLISHED[f].size(); ++i)
        for (int64_t p = 0; p < 2; ++p) {
          Case c;
          c.fam = f; c.size = int64_t(i); c.prec = p;
          if (!emit(c)) return;
        }
    for (int64_t p = 0; p < 2; ++p)
      for (int64_t pr = 0; pr < 2; ++pr) {  // more entries than 16 bits count
        Case c;
        c.mode = 1; c.n = 650; c.rad = 0; c.fam = 2; c.prec = p; c.bsz = 300; c.size = 7; c.nx = 1.5; c.ny = -0.25; c.nz = 3;
        c.regs.push_back({1, 7});
        if (pr) c.regs.push_back({200, 6});
        if (!emit(c)) return;
      }
    for (int64_t n = 1; n <= 12; ++n)
      for (int64_t k = 0; k < 16; ++k)
        for (int64_t p = 0; p < 2; ++p)
          for (int64_t b : {1, 7, 100}) {
            Case c;
            c.mode = 1; c.n = n; c.rad = k % 4; c.fam = k / 4; c.prec = p; c.bsz = b; c.nx = 1.5; c.ny = -0.25; c.nz = 3;
            for (int64_t r = 1; r < n && r <= 3; ++r) c.regs.push_back({r * n / 4, r});
            if (!emit(c)) return;
          }
  }
  template <class T> static UAng<T> ang(int64_t fam, size_t sz) {
    auto take = [](const auto& q) { return UAng<T>(q.points(), q.weights()); };
    switch (fam) {
      case 0: return take(AhrensBeylkin<T>(sz));
      case 1: return take(Delley<T>(sz));
      case 2: return take(LebedevLaikov<T>(sz));
      default: return take(Womersley<T>(sz));
    }
  }
  template <class T> static URad<T> rad(int64_t k, size_t n, double R) {
    auto take = [](const auto& q) { return URad<T>(q.points(), q.weights()); };
    switch (k) {
      case 0: return take(Becke<T, T>(n, R));
      case 1: return take(MurrayHandyLaming<T, T>(n, R));
      case 2: return take(MuraKnowles<T, T>(n, R));
      default: return take(TreutlerAhlrichs<T, T>(n, R));
    }
  }
  template <class T> static V3 dbl(const std::array<T, 3>& a) { return {double(a[0]), double(a[1]), double(a[2])}; }
  template <class PC, class WC> static void dbl(const PC& p, const WC& w, std::vector<V3>& pd, std::vector<double>& wd) {
    pd.clear(); wd.clear();
    for (auto& q : p) pd.push_back(dbl(q));
    for (auto& q : w) wd.push_back(double(q));
  }
  template <class PC, class WC, class E> static void wide(const PC& p, const WC& w, std::vector<std::array<E, 3>>& po, std::vector<E>& wo) {
    po.clear(); wo.clear();
    for (auto& q : p) po.push_back({E(q[0]), E(q[1]), E(q[2])});
    for (auto& q : w) wo.push_back(E(q));
  }
  template <class T> static pbt::Result run(const Case& c, pbt::Ctx& x) {
    const double eps = std::max(double(std::numeric_limits<T>::epsilon()), 2.3e-16);
    const auto& pub = PUBLISHED[c.fam];
    std::vector<V3> pd;
    std::vector<double> wd;
    std::string m;
    if (c.mode == 0) {
      const size_t sz = size_t(pub[size_t(c.size) % pub.size()].second);
      auto q = ang<T>(c.fam, sz);
      auto d = s2::make(c.fam, sz);
      std::vector<match::PW> e;
      for (size_t i = 0; i < d.npts; ++i) e.push_back({d.p[i], d.w[i], {1, 1, 1}});
      dbl(q.points(), q.weights(), pd, wd);
      m = match::multiset(pd, wd, e, 4 * eps);
      x.label("angular table");
      if (!m.empty()) return pbt::fail(pbt::fmt("%s(%zu) against double precision: ", s2::NAME[c.fam], sz) + m);
      using TR = quadrature_traits<LebedevLaikov<T>>;
      PBT_REQUIRE(c.fam != 2 || int64_t(TR::algebraic_order_by_npts(int64_t(sz))) == pub[size_t(c.size) % pub.size()].first, "order of LebedevLaikov(%zu) differs from double precision", sz);
      return pbt::pass();
    }
    // a (pruned) sphere over T
    const size_t n = size_t(c.n);
    const auto r = rad<T>(c.rad, n, c.R);
    {
      const auto rd = rad<double>(c.rad, n, c.R);
      for (size_t i = 0; i < n; ++i)  // C27 owns the accuracy of the radial rule; here: it is the same rule
        PBT_REQUIRE(std::abs(double(r.points()[i]) - rd.points()[i]) <= 1e4 * eps * double(n * n) * (rd.points()[i] + c.R), "radial node %zu is %.9g, in double precision %.17g", i, double(r.points()[i]), rd.points()[i]);
    }
    std::vector<size_t> cut{0};
    for (auto& q : c.regs) cut.push_back(size_t(q.st));
    std::sort(cut.begin(), cut.end());
    cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
    while (cut.back() >= n) cut.pop_back();
    std::vector<UAng<T>> as;
    for (size_t i = 0; i < cut.size(); ++i) as.push_back(ang<T>(c.fam, size_t(pub[size_t(i ? c.regs[(i - 1) % c.regs.size()].sz : c.size) % std::min<size_t>(pub.size(), 12)].second)));
    size_t total = 0;
    for (size_t i = 0; i < cut.size(); ++i) total += as[i].npts() * ((i + 1 < cut.size() ? cut[i + 1] : n) - cut[i]);
    if (total > 150000) { x.label("skipped for size"); return pbt::pass(); }
    using S = SphericalQuadrature<URad<T>, UAng<T>>;
    using PS = PrunedSphericalQuadrature<URad<T>, UAng<T>>;
    using A3 = std::array<T, 3>;
    const A3 cen{T(c.cx) / 3, T(c.cy) / 3, T(c.cz) / 3};  // not a double in extended precision
    // the exact product of the rules in T, formed in double (of single) or extended (of extended precision)
    using E = std::conditional_t<(sizeof(T) < sizeof(double)), double, T>;
    using E3 = std::array<E, 3>;
    const double ceps = double(std::numeric_limits<T>::epsilon());
    std::vector<std::vector<E3>> ap(as.size());
    std::vector<std::vector<E>> aw(as.size());
    for (size_t i = 0; i < as.size(); ++i) wide(as[i].points(), as[i].weights(), ap[i], aw[i]);
    std::vector<E> rp(r.points().begin(), r.points().end()), rw(r.weights().begin(), r.weights().end());
    std::vector<E3> pe;
    std::vector<E> we;
    for (size_t i = 0; i < n; ++i) if (!(std::isfinite(rp[i]) && std::isfinite(rw[i]) && rp[i] < 1e12 && rw[i] < 1e12 && rp[i] > 1e-10 && rw[i] > 1e-10)) { x.label("out of single-precision range"); return pbt::pass(); }
    auto expect = [&](const A3& at) {
      const E3 ce{E(at[0]), E(at[1]), E(at[2])};
      std::vector<match::PWT<E>> e;
      for (size_t i = 0; i < as.size(); ++i) match::add_shells(e, rp, rw, cut[i], i + 1 < cut.size() ? cut[i + 1] : n, ap[i], aw[i], ce);
      return e;
    };
    std::unique_ptr<SphericalQuadratureBase<std::vector<A3>, std::vector<T>>> g;
    if (cut.size() == 1) g = std::make_unique<S>(r, as[0], cen);
    else {
      RadialGridPartition<UAng<T>> rg;
      for (size_t i = 0; i < cut.size(); ++i) rg.add_quad(r, cut[i], as[i]);
      rg.finalize(r);
      g = std::make_unique<PS>(r, rg, cen);
    }
    x.label(cut.size() == 1 ? "sphere" : "pruned sphere");
    x.nontrivial = n > 1;
    wide(g->points(), g->weights(), pe, we);
    m = match::multiset(pe, we, expect(cen), 6 * ceps);
    if (!m.empty()) return pbt::fail("sphere: " + m);
    // recentre a clone
    auto h = g->clone();
    const A3 to{T(c.nx) / 3, T(c.ny) / 3, T(c.nz) / 3};
    h->recenter(to);
    PBT_REQUIRE(h->center() == to && g->center() == cen, "wrong centre after recentring a clone");
    {
      auto e = expect(to);
      for (auto& q : e) for (int k = 0; k < 3; ++k) q.ps[k] += 2 * std::abs(E(cen[k])) + std::abs(q.p[k] - E(to[k]));
      std::vector<E3> p2; std::vector<E> w2;
      wide(h->points(), h->weights(), p2, w2);
      m = match::multiset(p2, w2, e, 6 * ceps);
      if (!m.empty()) return pbt::fail("recentred clone: " + m);
      wide(g->points(), g->weights(), p2, w2);
      PBT_REQUIRE(p2 == pe && w2 == we, "recentring a clone changed the original");
    }
    // batches
    auto look = [&](auto& b) -> pbt::Result {
      std::vector<std::array<T, 4>> u, v;
      for (size_t i = 0; i < g->npts(); ++i) u.push_back({g->points()[i][0], g->points()[i][1], g->points()[i][2], g->weights()[i]});
      size_t nb = 0;
      for (auto it = b.begin(); it != b.end(); ++it, ++nb) {
        auto [lo, up, p, w] = *it;
        PBT_REQUIRE(!p.empty() && p.size() == w.size() && p.size() <= size_t(c.bsz), "batch %zu has %zu points and %zu weights, maximum %ld", nb, p.size(), w.size(), long(c.bsz));
        A3 elo = p[0], eup = p[0];
        for (size_t i = 0; i < p.size(); ++i) {
          v.push_back({p[i][0], p[i][1], p[i][2], w[i]});
          for (int k = 0; k < 3; ++k) { elo[k] = std::min(elo[k], p[i][k]); eup[k] = std::max(eup[k], p[i][k]); }
        }
        PBT_REQUIRE(lo == elo && up == eup, "batch %zu: box is not the extrema of its points", nb);
      }
      std::sort(u.begin(), u.end());
      std::sort(v.begin(), v.end());
      PBT_REQUIRE(u == v, "the batches are not the points and weights of the grid");
      PBT_REQUIRE(nb == b.nbatches(), "nbatches() is %zu, iteration gives %zu", b.nbatches(), nb);
      if (nb > 1) x.label("several batches");
      return pbt::pass();
    };
    using MB = SphericalMicroBatcher<std::vector<A3>, std::vector<T>>;
    std::shared_ptr<SphericalQuadratureBase<std::vector<A3>, std::vector<T>>> sh = g->clone();
    MB b(size_t(c.bsz), sh);
    auto r1 = look(b);
    if (!r1.ok) return r1;
    auto bc = b.clone();
    b.recenter(to);
    return look(bc);
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    if (c.n < 1 || c.R <= 0 || c.bsz < 1 || c.fam < 0 || c.fam > 3) return pbt::pass();
    x.label(c.prec ? "long double" : "float");
    return c.prec ? run<long double>(c, x) : run<float>(c, x);
  }
};
PBT_MAIN(P)
