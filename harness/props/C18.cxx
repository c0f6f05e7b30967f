// Batching partitions the grid: every point/weight pair in exactly one batch, no empty or oversized batch,
// boxes exactly the coordinate extrema, for every point set (including coincident points) and batch size.
#include <pbt.hpp>
#include <match.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace IntegratorXX;
struct P {
  struct Case {
    int64_t bsz = 1, route = 0, shape = 0, n = 1, k = 1;
    double cx = 0, cy = 0, cz = 0, sc = 1;
    std::vector<Node> pts;
    std::vector<int64_t> lattice;  // packed coordinates on a coarse lattice
    std::vector<RNode> rad;
    template <class A> void io(A& s) {
      s("bsz", bsz); s("route", route); s("shape", shape); s("n", n); s("k", k); s("cx", cx); s("cy", cy); s("cz", cz); s("sc", sc);
      s("pts", pts); s("lattice", lattice); s("rad", rad);
    }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.shape = s.range(0, 79) ? s.range(0, 4) : 5;  // 5: no points at all
    c.route = s.range(0, 4);
    c.bsz = s.range(0, 12) ? s.small(1, 2000) : s.pick<int64_t>({0, 1, 1 << 20, int64_t(1) << 62});
    c.sc = s.coin() ? 1 : s.range(0, 3) ? s.logreal(-12, 12) : s.coin() ? s.logreal(290, 308) : s.logreal(-322, -300);
    if (s.coin()) { c.cx = s.coord(); c.cy = s.coord(); c.cz = s.coord(); }
    const int64_t big = tier ? 400 : 120;
    switch (c.shape) {
      case 0: c.pts = pbt::vec<Node>(s, 1, big, gen_node); break;                         // arbitrary cloud
      case 1: case 2: c.k = s.range(1, 5); c.lattice = pbt::vec<int64_t>(s, 1, big, [](pbt::Src& q) { return q.range(0, 124); }); break;  // lattice: many ties and duplicates
      case 3: c.rad = pbt::vec<RNode>(s, 1, 20, gen_rnode); c.pts = pbt::vec<Node>(s, 1, 20, gen_node); break;  // shells
      default: c.n = s.small(2, tier ? 20000 : 3000); c.k = s.range(0, 4); break;           // structured clouds
    }
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    for (int64_t b : {1, 2, 100})
      for (int64_t r = 0; r < 5; ++r)
        for (int64_t v = 0; v < 2; ++v) {
          Case c;
          c.shape = 5; c.bsz = b; c.route = r; c.cx = double(v);
          if (!emit(c)) return;
        }
    for (int64_t n = 1; n <= 40; ++n)
      for (int64_t k = 0; k <= 4; ++k)
        for (int64_t b : {int64_t(0), int64_t(1), int64_t(2), int64_t(3), int64_t(7), n - 1, n, n + 1}) {
          Case c;
          c.shape = 4; c.n = n; c.k = k; c.bsz = b; c.route = (n + k + b) % 5;
          if (b >= 0 && !emit(c)) return;
        }
    for (int64_t k : {2, 3, 4, 0})
      for (int64_t b : {1, 64, 1000, 70001}) {
        if (b == 1 && k != 2) continue;
        Case c;
        c.shape = 4; c.n = 70000; c.k = k; c.bsz = b; c.route = k;
        if (!emit(c)) return;
      }
    for (int64_t n : {500, 2000, tier ? 20000 : 5000})
      for (int64_t k = 0; k <= 4; ++k)
        for (int64_t b : {1, 10, 100, 1000}) {
          Case c;
          c.shape = 4; c.n = n; c.k = k; c.bsz = b;
          if (!emit(c)) return;
        }
  }
  using B = SphericalQuadratureBase<std::vector<V3>, std::vector<double>>;
  using S = SphericalQuadrature<AnyRad, AnyAng>;
  template <class MB, class G> static pbt::Result look(MB& b, const G& orig, const Case& c, pbt::Ctx& x) {
    const size_t n = orig.npts(), mx = size_t(c.bsz);
    PBT_REQUIRE(b.npts() == n && b.points().size() == n && b.weights().size() == n, "batcher reports %zu points, grid has %zu", b.npts(), n);
    PBT_REQUIRE(b.max_batch_size() == mx, "max_batch_size() is %zu, requested %zu", b.max_batch_size(), mx);
    // conservation, bit for bit
    std::vector<std::array<double, 4>> a, d;
    for (size_t i = 0; i < n; ++i) {
      a.push_back({orig.points()[i][0], orig.points()[i][1], orig.points()[i][2], orig.weights()[i]});
      d.push_back({b.points()[i][0], b.points()[i][1], b.points()[i][2], b.weights()[i]});
    }
    std::sort(a.begin(), a.end());
    std::sort(d.begin(), d.end());
    PBT_REQUIRE(a == d, "the batched points and weights are not the grid's (%zu points, batch size %zu)", n, mx);
    size_t at = 0, nb = 0;
    const MB& cb = b;
    auto end = b.end();
    auto cit = cb.cbegin();
    for (auto it = b.begin(); it != end; ++it, ++nb) {
      auto [lo, up, p, w] = *it;
      PBT_REQUIRE(!p.empty() && p.size() == w.size(), "batch %zu has %zu points and %zu weights", nb, p.size(), w.size());
      PBT_REQUIRE(p.size() <= mx, "batch %zu has %zu points, maximum is %zu", nb, p.size(), mx);
      PBT_REQUIRE(at + p.size() <= n, "batches hold more points than the grid");
      V3 elo = p[0], eup = p[0];
      for (size_t i = 0; i < p.size(); ++i) {
        PBT_REQUIRE(p[i] == b.points()[at + i] && w[i] == b.weights()[at + i], "batch %zu entry %zu is not stored point %zu", nb, i, at + i);
        for (int q = 0; q < 3; ++q) { elo[q] = std::min(elo[q], p[i][q]); eup[q] = std::max(eup[q], p[i][q]); }
      }
      PBT_REQUIRE(lo == elo && up == eup, "batch %zu: box is not the extrema of its points", nb);
      auto [npts, pb, pe, wb, we] = it.range();
      PBT_REQUIRE(size_t(npts) == p.size() && size_t(pe - pb) == p.size() && size_t(we - wb) == p.size() && *pb == p[0] && *wb == w[0], "batch %zu: range() disagrees", nb);
      if (nb < 50 || nb % (n > 30000 ? 997 : 17) == 0 || at + p.size() == n) {
        auto [lo2, up2, p2, w2] = b.at(nb);
        auto [lo3, up3, p3, w3] = cb.at(nb);
        PBT_REQUIRE(p2 == p && w2 == w && lo2 == lo && up2 == up && p3 == p && w3 == w && lo3 == lo && up3 == up, "at(%zu) differs from iteration", nb);
      }
      auto [lo4, up4, p4, w4] = *cit;
      PBT_REQUIRE(p4 == p && w4 == w && lo4 == lo && up4 == up, "const iteration differs at batch %zu", nb);
      ++cit;
      at += p.size();
    }
    PBT_REQUIRE(at == n, "batches hold %zu of %zu points", at, n);
    {
      size_t k = 0, pt = 0;
      const auto first = cb.cbegin();
      auto walk = cb.cbegin();
      for (; walk != cb.cend() && k <= nb; walk++, ++k) {
        auto [np, pb, pe, wb, we] = walk.range();
        const size_t sz = size_t(np);
        PBT_REQUIRE(size_t(pe - pb) == sz && size_t(we - wb) == sz && pb == cb.points().begin() + long(pt) && wb == cb.weights().begin() + long(pt), "read-only iteration: batch %zu is not the stored range", k);
        PBT_REQUIRE(first + int(k) == walk, "offset %zu from the first batch is not batch %zu", k, k);
        pt += sz;
      }
      PBT_REQUIRE(k == nb && pt == n && walk == cb.cend(), "read-only iteration gives %zu batches with %zu points, expected %zu and %zu", k, pt, nb, n);
      PBT_REQUIRE(first == cb.cbegin(), "adding an offset advanced the iterator itself");
      auto f2 = b.begin();
      if (nb > 0) {
        auto g2 = f2 + int(nb - 1);
        PBT_REQUIRE(f2 == b.begin(), "adding an offset advanced the iterator itself");
        const auto o2 = g2;
        auto v2 = g2++;
        PBT_REQUIRE(g2 == b.end(), "the last batch is not followed by end()");
        auto p2 = o2;
        PBT_REQUIRE(v2 == o2 && ++p2 == g2, "prefix and postfix increments of the batch iterator disagree");
        auto c1 = cb.cbegin(), c0 = c1;
        auto v1 = c1++;
        PBT_REQUIRE(v1 == c0 && ++c0 == c1, "prefix and postfix increments of the read-only batch iterator disagree");
      }
    }
    PBT_REQUIRE(nb == b.nbatches(), "nbatches() is %zu, iteration gives %zu", b.nbatches(), nb);
    int th = 0;
    for (size_t i : {nb, nb + 1, size_t(-1)}) {
      try { (void)b.at(i); } catch (const std::exception&) { ++th; }
      try { (void)cb.at(i); } catch (const std::exception&) { ++th; }
    }
    PBT_REQUIRE(th == 6, "access past the last batch not refused");
    x.nontrivial = nb > 1;
    if (nb > 1) x.label("several batches");
    if (std::adjacent_find(a.begin(), a.end(), [](auto& u, auto& v) { return u[0] == v[0] && u[1] == v[1] && u[2] == v[2]; }) != a.end()) x.label("coincident points");
    if (nb == n && n > 1) x.label("one point per batch");
    return pbt::pass();
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    std::vector<Node> nd;
    switch (c.shape) {
      case 1: case 2:
        for (size_t i = 0; i < c.lattice.size(); ++i) {
          int64_t v = c.lattice[i], k = std::max<int64_t>(1, c.k);
          nd.push_back({double(v % k), double(v / 5 % k), c.shape == 1 ? 0.0 : double(v / 25 % k), double(i + 1)});
        }
        break;
      case 4:
        for (int64_t i = 0; i < c.n; ++i) {
          double t = double(i), w = double(i + 1);
          switch (c.k) {
            case 0: nd.push_back({1, 2, 3, w}); break;                                          // all coincident
            case 1: nd.push_back({t, 0, 0, w}); break;                                          // a line
            case 2: nd.push_back({std::fmod(t * 0.618033988749895, 1), std::fmod(t * 0.754877666246693, 1), std::fmod(t * 0.569840290998053, 1), w}); break;
            case 3: nd.push_back({std::ldexp(1.0, -int(i % 1000)), std::ldexp(1.0, -int(i % 7)), 0, w}); break;  // geometric clustering
            default: { double z = 1 - 2 * (t + 0.5) / double(c.n), s = std::sqrt(1 - z * z); nd.push_back({s * std::cos(2.399963 * t), s * std::sin(2.399963 * t), z, w}); }
          }
        }
        break;
      case 5: x.label("no points"); break;
      default: nd = c.pts; break;
    }
    if (nd.empty() && c.shape != 5) return pbt::pass();
    for (auto& q : nd) { q.x *= c.sc; q.y *= c.sc; q.z *= c.sc; }
    for (auto& q : nd) { auto cap = [](double& v) { v = std::max(-1.7e308, std::min(1.7e308, v)); }; cap(q.x); cap(q.y); cap(q.z); }
    if (std::abs(c.sc) > 1e200) x.label("close to the largest number"); else if (std::abs(c.sc) < 1e-200) x.label("close to the smallest number");
    const AnyRad rq = c.shape == 3 && !c.rad.empty() ? make_rad(c.rad) : AnyRad({1.}, {1.});
    const AnyAng aq = make_ang(nd);
    const V3 cen{c.cx, c.cy, c.cz};
    const S orig(rq, aq, cen);
    const auto p0 = orig.points();
    const auto w0 = orig.weights();
    x.label("shape " + std::to_string(c.shape));
    if (c.bsz <= 0) {
      bool threw = false;
      try { auto b = make_batcher(0, orig); (void)b; } catch (const std::exception&) { threw = true; }
      x.label("zero batch size");
      PBT_REQUIRE(threw, "a zero batch size was accepted for %zu points", orig.npts());
      return pbt::pass();
    }
    auto run = [&]() -> pbt::Result {
      using MB = SphericalMicroBatcher<std::vector<V3>, std::vector<double>>;
      switch (c.route) {
        case 0: { auto b = make_batcher(size_t(c.bsz), orig); return look(b, orig, c, x); }
        case 1: { S t(orig); auto b = make_batcher(size_t(c.bsz), std::move(t)); return look(b, orig, c, x); }
        case 2: { std::shared_ptr<B> t = orig.clone(); MB b(size_t(c.bsz), t); PBT_REQUIRE(&b.quadrature() == t.get(), "the batcher does not use the grid it was given"); return look(b, orig, c, x); }
        case 3: { std::unique_ptr<S> t = std::make_unique<S>(orig); MB b(size_t(c.bsz), *t); t.reset(); return look(b, orig, c, x); }
        default: {
          RadialGridPartition<AnyAng> g(rq, 0, aq);
          PrunedSphericalQuadrature<AnyRad, AnyAng> ps(rq, g, cen);
          auto b = make_batcher(size_t(c.bsz), ps);
          return look(b, ps, c, x);
        }
      }
    };
    auto r = run();
    if (r.ok) PBT_REQUIRE(orig.points() == p0 && orig.weights() == w0 && orig.center() == cen, "batching changed a grid that was passed by value or const reference");
    return r;
  }
};
PBT_MAIN(P)
