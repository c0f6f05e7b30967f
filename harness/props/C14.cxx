// A pruned sphere is the union of its regions' shells, each with that region's angular rule; a partition
// object keeps exactly the regions it was given through any sequence of copies, moves and assignments.
#include <pbt.hpp>
#include <match.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
using namespace IntegratorXX;
struct Region {
  int64_t gap = 0;
  std::vector<Node> ang;
  template <class A> void io(A& s) { s("gap", gap); s("ang", ang); }
};
struct P {
  struct Case {
    std::vector<RNode> rad;
    std::vector<Region> regs;
    std::vector<int64_t> ops;
    int64_t variadic = 0, centered = 0, same = 0, rt = 1, at = 1;
    double cx = 0, cy = 0, cz = 0;
    template <class A> void io(A& s) {
      s("rad", rad); s("regs", regs); s("ops", ops); s("variadic", variadic); s("centered", centered); s("same", same); s("rt", rt); s("at", at);
      s("cx", cx); s("cy", cy); s("cz", cz);
    }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.variadic = s.range(0, 1);
    c.centered = s.range(0, 1);
    c.same = s.range(0, 3) == 3;
    if (c.centered) { c.cx = s.coord(); c.cy = s.coord(); c.cz = s.coord(); }
    const bool big = !s.range(0, 39);
    c.rad = pbt::vec<RNode>(s, 1, big ? 150 : tier ? 40 : 20, gen_rnode);
    c.regs = pbt::vec<Region>(s, 1, big ? 40 : tier ? 8 : 5, [](pbt::Src& q) {
      Region r;
      r.gap = q.range(0, 6);
      r.ang = pbt::vec<Node>(q, 1, 8, gen_node);
      return r;
    });
    // rules of later regions that agree with an earlier one in all but one respect
    for (size_t i = 1; i < c.regs.size(); ++i) {
      if (s.range(0, 2)) continue;
      auto& a = c.regs[i].ang;
      a = c.regs[size_t(s.range(0, int64_t(i) - 1))].ang;
      Node& one = a[size_t(s.range(0, int64_t(a.size()) - 1))];
      switch (s.range(0, 5)) {
        case 0: break;                                                   // the same rule again
        case 1: for (auto& e : a) e.w = 0.5 + e.w * 2; break;           // directions only
        case 2: for (auto& e : a) std::swap(e.x, e.z); break;           // weights only
        case 3: std::reverse(a.begin(), a.end()); break;                 // another order
        case 4: one.w = one.w + 1; break;                                // one weight
        default: one.y = one.y + 0.25; break;                            // one coordinate
      }
    }
    c.ops = pbt::vec<int64_t>(s, 0, big ? 60 : 6, [](pbt::Src& q) { return q.range(0, 6); });
    c.rt = gen_times(s, 40);
    c.at = gen_times(s, c.rt > 8 ? 4 : 60);
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t nr = 1; nr <= 9; ++nr)
      for (int64_t k = 1; k <= 4 && k <= nr; ++k)
        for (int64_t v = 0; v < 2; ++v) {
          Case c;
          for (int64_t i = 0; i < nr; ++i) c.rad.push_back({0.5 + double(i), 1.0 / double(i + 2)});
          for (int64_t g = 0; g < k; ++g) {
            Region r;
            r.gap = (nr - k) / k;
            for (int64_t j = 0; j <= g + 1; ++j) r.ang.push_back({0.1 * double(j + 1 + g), 1 - 0.05 * double(j), -0.3 * double(j), 1 + 0.1 * double(j + g)});
            c.regs.push_back(r);
          }
          c.variadic = v;
          c.ops = {nr % 6, k % 6};
          if (!emit(c)) return;
        }
    // large partitions: many shells, many regions, many angular points
    for (int64_t v = 0; v < 6; ++v) {
      Case c;
      const int64_t nr = v % 3 == 0 ? 8 : v % 3 == 1 ? 1 : 300;
      for (int64_t i = 0; i < nr; ++i) c.rad.push_back({0.5 + double(i), 1.0 / double(i + 2)});
      c.rt = v % 3 == 0 ? 50 : v % 3 == 1 ? 40000 : 1;
      c.at = v % 3 == 0 ? 70 : v % 3 == 1 ? 1 : 400;
      const int64_t k = v % 3 == 0 ? 4 : v % 3 == 1 ? 3 : 300;
      for (int64_t g = 0; g < k; ++g) {
        Region r;
        r.gap = v % 3 == 0 ? 1 : v % 3 == 1 ? g * 7 : 0;
        for (int64_t j = 0; j <= g % 3; ++j) r.ang.push_back({0.1 * double(j + 1 + g), 1 - 0.05 * double(j), -0.3 * double(j), 1 + 0.1 * double(j + g)});
        c.regs.push_back(r);
      }
      c.variadic = v / 3; c.centered = v % 2; c.cx = 1; c.cz = -2.5;
      c.ops = {v % 6, (v + 1) % 6};
      if (!emit(c)) return;
    }
  }
  using RGP = RadialGridPartition<AnyAng>;
  struct Reg { size_t st, en; AnyAng q; };
  static std::string look(const RGP& g, RGP& gm, const std::vector<Reg>& rs) {
    size_t k = 0;
    for (auto it = g.begin(); it != g.end(); ++it, ++k) {
      auto [range, q] = *it;
      if (k >= rs.size()) return "more regions than given";
      if (range.first != rs[k].st || range.second != rs[k].en) return pbt::fmt("region %zu covers [%zu,%zu), given [%zu,%zu)", k, range.first, range.second, rs[k].st, rs[k].en);
      if (q.points() != rs[k].q.points() || q.weights() != rs[k].q.weights()) return pbt::fmt("region %zu has another angular rule", k);
    }
    if (k != rs.size()) return pbt::fmt("%zu regions, given %zu", k, rs.size());
    k = 0;
    for (auto it = gm.begin(); it != gm.end(); it++, ++k) {
      auto v = *it;
      if (v.first.first != rs[k].st || v.first.second != rs[k].en || v.second.weights() != rs[k].q.weights()) return pbt::fmt("mutable iteration differs at region %zu", k);
    }
    k = 0;
    const auto first = g.cbegin();
    auto mfirst = gm.begin();
    for (auto it = g.cbegin(); it != g.cend(); it++, ++k) {
      auto v = *(first + int(k));
      auto u = *(mfirst + int(k));
      if (k >= rs.size() || v.first != (*it).first || u.first != v.first || v.first.first != rs[k].st || v.first.second != rs[k].en || v.second.weights() != rs[k].q.weights() || u.second.points() != rs[k].q.points())
        return pbt::fmt("offset %zu from the first region is not region %zu", k, k);
    }
    {
      auto a = g.begin(); auto b = gm.begin();
      for (size_t i = 0; i < rs.size(); ++i) {   // what both forms of the increment yield
        const auto oa = a; const auto ob = b;
        auto va = a++; auto vb = b++;
        if (va != oa || vb != ob || (*va).first.first != rs[i].st || (*vb).first.first != rs[i].st) return pbt::fmt("the postfix increment at region %zu does not yield that region", i);
        auto pa = oa; auto pb = ob;
        if (++pa != a || ++pb != b || pa != g.begin() + int(i + 1) || pb != gm.begin() + int(i + 1) || pa + -1 != oa || pb + -1 != ob) return pbt::fmt("prefix, postfix and offset disagree after region %zu", i);
      }
      if (a != g.end() || b != gm.end()) return "counting the regions off does not reach the end";
    }
    if (first != g.cbegin() || mfirst != gm.begin()) return "adding an offset advanced the iterator itself";
    if (k != rs.size()) return "const iteration has another length";
    return "";
  }
  static pbt::Result check(const Case& c0, pbt::Ctx& x) {
    Case c = c0;
    if (c.rt > 1) { c.rad = expand(c.rad, c.rt); for (auto& r : c.regs) r.gap = r.gap * c.rt + r.gap % 2; }
    if (c.at > 1) for (auto& r : c.regs) r.ang = expand(r.ang, c.at);
    if (c.rt > 1 || c.at > 1) x.label("enlarged");
    const size_t nr = c.rad.size();
    if (!nr || c.regs.empty()) return pbt::pass();
    const AnyRad rq = make_rad(c.rad);
    std::vector<Reg> rs;
    size_t st = 0;
    for (auto& r : c.regs) {
      if (r.ang.empty()) return pbt::pass();
      if (st >= nr) break;
      rs.push_back({st, nr, make_ang(c.same ? c.regs[0].ang : r.ang)});
      st += 1 + size_t(r.gap);
    }
    for (size_t k = 0; k + 1 < rs.size(); ++k) rs[k].en = rs[k + 1].st;
    x.nontrivial = rs.size() > 1 && nr > 2;
    x.label(pbt::fmt("%zu regions", rs.size()));
    if (c.same) x.label("same angular rule everywhere");
    auto build = [&]() -> RGP {
      if (c.variadic && rs.size() == 1) return RGP(rq, rs[0].st, rs[0].q);
      if (c.variadic && rs.size() == 2) return RGP(rq, rs[0].st, rs[0].q, rs[1].st, rs[1].q);
      if (c.variadic && rs.size() == 3) return RGP(rq, rs[0].st, rs[0].q, rs[1].st, rs[1].q, rs[2].st, rs[2].q);
      if (c.variadic && rs.size() == 4) return RGP(rq, rs[0].st, rs[0].q, rs[1].st, rs[1].q, rs[2].st, rs[2].q, rs[3].st, rs[3].q);
      RGP g;
      for (auto& r : rs) g.add_quad(rq, r.st, r.q);
      g.finalize(rq);
      return g;
    };
    auto g = std::make_unique<RGP>(build());
    std::string m = look(*g, *g, rs);
    if (!m.empty()) return pbt::fail("partition: " + m);
    for (size_t o = 0; o < c.ops.size(); ++o) {
      std::unique_ptr<RGP> h;
      switch (c.ops[o]) {
        case 0: h = std::make_unique<RGP>(*g); break;
        case 1: h = std::make_unique<RGP>(std::move(*g)); break;
        case 2: { h = std::make_unique<RGP>(AnyRad({1., 2.}, {1., 1.}), 0, make_ang({Node{1, 0, 0, 1}}), 1, make_ang({Node{0, 1, 0, 2}})); *h = *g; break; }
        case 3: { h = std::make_unique<RGP>(AnyRad({1., 2.}, {1., 1.}), 0, make_ang({Node{1, 0, 0, 1}}), 1, make_ang({Node{0, 1, 0, 2}})); *h = std::move(*g); break; }
        case 4: { h = std::make_unique<RGP>(*g); h->finalize(rq); break; }
        case 6: { h = std::make_unique<RGP>(*g); RGP& self = *h; *h = self; break; }
        default: { h = std::make_unique<RGP>(); *h = *g; m = look(*g, *g, rs); if (!m.empty()) return pbt::fail("assigned-from partition: " + m); break; }
      }
      g = std::move(h);
      x.label("partition copied, moved or assigned");
      m = look(*g, *g, rs);
      if (!m.empty()) return pbt::fail(pbt::fmt("partition after operation %zu (kind %ld): ", o, (long)c.ops[o]) + m);
    }
    using S = PrunedSphericalQuadrature<AnyRad, AnyAng>;
    using B = SphericalQuadratureBase<std::vector<V3>, std::vector<double>>;
    const V3 cen = c.centered ? V3{c.cx, c.cy, c.cz} : V3{0, 0, 0};
    std::vector<match::PW> e;
    for (auto& r : rs) match::add_shells(e, rq.points(), rq.weights(), r.st, r.en, r.q.points(), r.q.weights(), cen);
    auto s = c.centered ? std::make_shared<S>(rq, *g, cen) : std::make_shared<S>(rq, *g);
    g.reset();
    m = match::multiset(s->points(), s->weights(), e, 2e-15);
    if (!m.empty()) return pbt::fail("pruned sphere: " + m);
    PBT_REQUIRE(s->npts() == e.size() && s->center() == cen, "npts() is %zu, expected %zu, or wrong centre", s->npts(), e.size());
    const B& b = *s;
    m = match::multiset(b.points(), b.weights(), e, 2e-15);
    if (!m.empty() || b.npts() != e.size() || b.center() != cen) return pbt::fail("pruned sphere through its base class: " + m);
    auto cl = b.clone();
    if (cl->points() != s->points() || cl->weights() != s->weights() || cl->center() != cen) return pbt::fail("clone of the pruned sphere differs");
    if (rs.size() == 1 || c.same) {
      SphericalQuadrature<AnyRad, AnyAng> u(rq, rs[0].q, cen);
      std::vector<match::PW> ue;
      for (size_t i = 0; i < u.npts(); ++i) ue.push_back({u.points()[i], u.weights()[i], {0, 0, 0}});
      for (auto& q : ue) for (int k = 0; k < 3; ++k) q.ps[k] = std::abs(q.p[k]) + 2 * std::abs(cen[k]);
      m = match::multiset(s->points(), s->weights(), ue, 4e-15);
      if (!m.empty()) return pbt::fail("pruning with one angular rule everywhere differs from the unpruned sphere: " + m);
      x.label("compared with the unpruned sphere");
    }
    return pbt::pass();
  }
};
PBT_MAIN(P)
