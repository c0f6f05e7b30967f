// Quadratures are values: copies, moves, slices to the generic base, sub-ranges and clones hold the same data
// and are independent; in-place edits through any accessor are seen by that object's every accessor and no other.
#include <pbt.hpp>
#include <match.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/s2.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
using namespace IntegratorXX;
struct Op {
  int64_t kind = 0, h = 0, i = 0;
  double v = 0;
  template <class A> void io(A& s) { s("kind", kind); s("h", h); s("i", i); s("v", v); }
};
struct P {
  static constexpr int64_t NT = 19;
  struct Case {
    int64_t type = 0, n = 3;
    std::vector<Op> ops;
    template <class A> void io(A& s) { s("type", type); s("n", n); s("ops", ops); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.type = s.range(0, NT - 1);
    c.n = s.range(0, 14) ? s.small(1, 40) : s.range(40, 3000);
    c.ops = pbt::vec<Op>(s, 1, !s.range(0, 59) ? 400 : tier ? 60 : 25, [](pbt::Src& q) {
      Op o;
      o.kind = q.range(0, 10);
      o.h = q.range(0, 5);
      o.i = q.range(0, 3000);
      o.v = q.coord(3);
      return o;
    });
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t t = 0; t < NT; ++t)
     for (int64_t n : {1, 2, 5})
      for (int64_t k = 0; k <= 10; ++k)
        for (int64_t l = 0; l <= 10; ++l) {
          Case c;
          c.type = t; c.n = n;
          c.ops = {{k, 0, 1, 2.5}, {l, 1, 2, -1.5}, {7, 0, 3, 9}, {7, 1, 0, -4}};
          if (!emit(c)) return;
        }
    for (int64_t t : {2, 5, 6, 7, 9, 11, 14}) {  // more entries than 16 bits count
      Case c;
      c.type = t; c.n = 70000;
      c.ops = {{0, 0, 1, 2.5}, {2, 0, 2, -1.5}, {5, 1, 100, 2}, {5, 0, 65600, 40}, {5, 0, 65535, 0.5}, {5, 3, 66000, 3}, {6, 0, 69998, 1}, {7, 0, 69999, 9}, {8, 1, 65536, -4}, {1, 0, 0, 0}};
      if (!emit(c)) return;
    }
    for (int64_t t : {2, 5, 9, 11, 14})  // sub-ranges around powers of two
      for (int e = 8; e <= 17; ++e) {
        const int64_t b = int64_t(1) << e;
        Case c;
        c.type = t; c.n = b + 40;
        c.ops = {{5, 0, b, 2}, {5, 0, b - 1, 1}, {5, 1, 3, 1}, {6, 0, b + 7, 0.5}, {5, 0, 1, double(b / 7)}, {7, 2, 0, 1}};
        if (!emit(c)) return;
      }
  }
  static bool eq(double a, double b) { return a == b; }
  static bool eq(const V3& a, const V3& b) { return a == b; }
  static void bump(double& p, double v) { p += v + 1; }
  static void bump(V3& p, double v) { p[1] += v + 1; }

  template <class Q> static pbt::Result run(const Q& q0, const Case& c, pbt::Ctx& x) {
    using G = Quadrature<Q>;
    using PT = typename G::point_container;
    using WT = typename G::weight_container;
    using Sub = SubQuadrature<Q>;
    struct H { std::shared_ptr<Q> q; std::shared_ptr<G> g; std::shared_ptr<Sub> s; PT p; WT w; };
    std::vector<H> hs;
    hs.push_back({std::make_shared<Q>(q0), nullptr, nullptr, q0.points(), q0.weights()});
    auto look1 = [](const auto& q, const H& h) -> std::string {
      if (q.npts() != h.p.size()) return pbt::fmt("npts() is %zu, expected %zu", q.npts(), h.p.size());
      const auto& qb = static_cast<const QuadratureBase<PT, WT>&>(q);
      if (q.points().size() != h.p.size() || q.weights().size() != h.w.size() || qb.npts() != h.p.size()) return "container sizes differ";
      for (size_t i = 0; i < h.p.size(); ++i)
        if (!eq(q.points()[i], h.p[i]) || !eq(q.weights()[i], h.w[i]) || !eq(qb.points(i), h.p[i]) || !eq(qb.weights(i), h.w[i]) || !eq(qb.points_data()[i], h.p[i]) || !eq(qb.weights_data()[i], h.w[i]))
          return pbt::fmt("entry %zu differs from what was stored", i);
      int th = 0;
      const size_t np = h.p.size();
      for (size_t i : {np, np + 1, (size_t(1) << 32) + np / 2, (size_t(1) << 63), SIZE_MAX}) {
        th = 0;
        try { (void)qb.points(i); } catch (const std::exception&) { ++th; }
        try { (void)qb.weights(i); } catch (const std::exception&) { ++th; }
        if (th != 2) return pbt::fmt("indexed access past the end (%zu of %zu) not refused", i, np);
      }
      return "";
    };
    int edits = 0, copies = 0;
    for (size_t o = 0; o < c.ops.size(); ++o) {
      const Op& op = c.ops[o];
      const size_t k = size_t(op.h) % hs.size();
      H& h = hs[k];
      H n = h;
      bool add = false;
      switch (op.kind) {
        case 0: if (h.q) { n.q = std::make_shared<Q>(*h.q); add = true; } else if (h.g) { n.g = std::make_shared<G>(*h.g); add = true; } else { n.s = std::make_shared<Sub>(*h.s); add = true; } break;
        case 1: if (h.q) h.q = std::make_shared<Q>(std::move(*h.q)); else if (h.g) h.g = std::make_shared<G>(std::move(*h.g)); else h.s = std::make_shared<Sub>(std::move(*h.s)); break;
        case 2: if (h.q) { n.g = std::make_shared<G>(*h.q); n.q.reset(); add = true; } break;              // slice to the generic base
        case 3: if (h.q) { const G& r = *h.q; n.g = std::make_shared<G>(r); n.q.reset(); add = true; } break;
        case 4: if (h.q) { h.g = std::make_shared<G>(std::move(*h.q)); h.q.reset(); } break;                // move-slice
        case 5: case 6: {                                                                                   // sub-range
          if (h.p.empty()) break;
          size_t b = size_t(op.i) % h.p.size(), e = b + 1 + size_t(std::abs(op.v) * 7) % (h.p.size() - b);
          std::pair<size_t, size_t> r(b, e);
          if (h.s) {                                                                                       // of a sub-range
            const SubQuadrature<Sub> t(r, *h.s);
            const SubQuadrature<Sub> t2(t);
            if (t.npts() != e - b || t2.npts() != e - b) return pbt::fail("a sub-range of a sub-range has the wrong size");
            for (size_t i = b; i < e; ++i)
              if (!eq(t.points()[i - b], h.p[i]) || !eq(t.weights()[i - b], h.w[i]) || !eq(t2.points()[i - b], h.p[i]) || !eq(t2.weights()[i - b], h.w[i]))
                return pbt::fail(pbt::fmt("type %ld: a sub-range of a sub-range differs from that range", (long)c.type));
            break;
          }
          if (h.q) n.s = std::make_shared<Sub>(r, *h.q); else n.s = std::make_shared<Sub>(r, *h.g);
          n.q.reset(); n.g.reset();
          n.p.assign(h.p.begin() + long(b), h.p.begin() + long(e));
          n.w.assign(h.w.begin() + long(b), h.w.begin() + long(e));
          add = true;
          x.label("sub-range");
          break;
        }
        case 7: case 8: case 9: {                                                                           // edit in place
          if (h.p.empty()) break;
          const size_t i = size_t(op.i) % h.p.size();
          auto edit = [&](auto& q) {
            QuadratureBase<PT, WT>& qb = q;
            if (op.kind == 7) { bump(q.points()[i], op.v); bump(q.weights()[i], op.v); }
            else if (op.kind == 8) { bump(qb.points()[i], op.v); bump(qb.weights()[i], op.v); }
            else { bump(qb.points_data()[i], op.v); bump(qb.weights_data()[i], op.v); }
          };
          if (h.q) edit(*h.q); else if (h.g) edit(*h.g); else edit(*h.s);
          bump(h.p[i], op.v);
          bump(h.w[i], op.v);
          ++edits;
          break;
        }
        default: if (hs.size() > 1) hs.erase(hs.begin() + long(k)); break;
      }
      if (add) { ++copies; if (hs.size() < 6) hs.push_back(n); else hs[k] = n; }
      for (size_t i = 0; i < hs.size(); ++i) {
        std::string m = hs[i].q ? look1(*hs[i].q, hs[i]) : hs[i].g ? look1(*hs[i].g, hs[i]) : look1(*hs[i].s, hs[i]);
        if (!m.empty()) return pbt::fail(pbt::fmt("type %ld, operation %zu (kind %ld on object %zu), object %zu: ", (long)c.type, o, (long)op.kind, k, i) + m);
      }
    }
    x.nontrivial = edits > 0 && copies > 0;
    if (edits && copies) x.label("copied and edited");
    return pbt::pass();
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    if (c.n < 1) return pbt::pass();
    const size_t n = size_t(c.n), n2 = std::max<size_t>(n, 2);
    x.label("type " + std::to_string(c.type));
    std::vector<V3> ap; std::vector<double> aw;
    for (size_t i = 0; i < n; ++i) { ap.push_back({double(i), 1, -double(i)}); aw.push_back(1.0 / double(i + 1)); }
    const AnyAng aq(ap, aw);
    switch (c.type) {
      case 0: return run(GaussLegendre<double, double>(n), c, x);
      case 1: return run(GaussLobatto<double, double>(n2), c, x);
      case 2: return run(GaussChebyshev1<double, double>(n), c, x);
      case 3: return run(GaussChebyshev2<double, double>(n), c, x);
      case 4: return run(GaussChebyshev2Modified<double, double>(n), c, x);
      case 5: return run(GaussChebyshev3<double, double>(n), c, x);
      case 6: return run(UniformTrapezoid<double, double>(n2, -1., 2.), c, x);
      case 7: return run(Becke<double, double>(n, 1.5), c, x);
      case 8: return run(MurrayHandyLaming<double, double>(n, 1.5), c, x);
      case 9: return run(MuraKnowles<double, double>(n, 1.5), c, x);
      case 10: return run(TreutlerAhlrichs<double, double>(n, 1.5), c, x);
      case 11: return run(aq, c, x);
      case 12: return run(SphericalQuadrature<Becke<double, double>, AnyAng>(Becke<double, double>(3, 1.), aq, V3{1, 2, 3}), c, x);
      case 14: {
        std::vector<double> p, w;
        for (size_t i = 0; i < n; ++i) { p.push_back(double(i % 5) - 2.25); w.push_back(i % 3 ? double(i) * 1e3 : -1e-3); }
        return run(AnyRad(p, w), c, x);
      }
      case 15: return run(LebedevLaikov<double>(n % 2 ? 6 : 14), c, x);
      case 16: return run(AhrensBeylkin<double>(72), c, x);
      case 17: return run(Delley<double>(n % 2 ? 26 : 50), c, x);
      case 18: return run(Womersley<double>(n % 2 ? 6 : 14), c, x);
      default: {
        Becke<double, double> r(4, 1.);
        RadialGridPartition<AnyAng> g(r, 0, aq, 2, AnyAng({V3{0, 0, 1}}, {2.}));
        return run(PrunedSphericalQuadrature<Becke<double, double>, AnyAng>(r, g, V3{1, 2, 3}), c, x);
      }
    }
  }
};
PBT_MAIN(P)
