// Recentring histories: after any sequence of recentre/copy/clone/move operations every grid is its original
// shape translated to the centre it reports, with untouched weights, and grids never influence each other.
#include <pbt.hpp>
#include <match.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
using namespace IntegratorXX;
using B = SphericalQuadratureBase<std::vector<V3>, std::vector<double>>;
using S = SphericalQuadrature<AnyRad, AnyAng>;
using PS = PrunedSphericalQuadrature<AnyRad, AnyAng>;
struct Op {
  int64_t kind = 0, h = 0, same = 0;
  double x = 0, y = 0, z = 0;
  template <class A> void io(A& s) { s("kind", kind); s("h", h); s("same", same); s("x", x); s("y", y); s("z", z); }
};
struct P {
  struct Case {
    int64_t pruned = 0, split = 0, at = 1;
    double cx = 0, cy = 0, cz = 0;
    std::vector<RNode> rad;
    std::vector<Node> ang;
    std::vector<Op> ops;
    template <class A> void io(A& s) { s("pruned", pruned); s("split", split); s("at", at); s("cx", cx); s("cy", cy); s("cz", cz); s("rad", rad); s("ang", ang); s("ops", ops); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.pruned = s.range(0, 1);
    c.split = s.range(0, 3);
    if (s.coin()) { c.cx = s.coord(4); c.cy = s.coord(4); c.cz = s.coord(4); }
    c.rad = pbt::vec<RNode>(s, 1, 6, gen_rnode);
    c.ang = pbt::vec<Node>(s, 1, 6, gen_node);
    c.at = gen_times(s, 200);
    c.ops = pbt::vec<Op>(s, 1, !s.range(0, 59) ? 400 : tier ? 60 : 25, [](pbt::Src& q) {
      Op o;
      o.kind = q.range(0, 6);
      o.h = q.range(0, 5);
      o.same = q.range(0, 13);
      o.x = q.coord(4); o.y = q.coord(4); o.z = q.coord(4);
      return o;
    });
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t pr = 0; pr < 2; ++pr)  // many thousands of points
      for (int64_t at : {3000, 12000}) {
        Case c;
        c.pruned = pr; c.split = 2; c.at = at; c.cx = 0.5; c.cz = -3;
        for (int64_t i = 0; i < 6; ++i) c.rad.push_back({0.5 + double(i), 1.0 / double(i + 2)});
        c.ang.push_back({0.1, 0.9, -0.3, 1.25});
        c.ops = {{0, 0, 13, 1.5, -2, 3}, {3, 0, 0, 0, 0, 0}, {1, 1, 13, -4, 0.25, 7}, {4, 0, 0, 0, 0, 0}, {0, 0, 13, 0, 0, 0}, {5, 2, 0, 0, 0, 0}, {2, 2, 5, 3, 1, 1}};
        if (!emit(c)) return;
      }
    for (int64_t pr = 0; pr < 2; ++pr)  // a long walk in minute steps adds up
      for (int e = 3; e <= 15; ++e)
        for (int axes = 1; axes <= 7; ++axes) {
          if (axes != 7 && (axes & (axes - 1))) continue;
          Case c;
          c.pruned = pr; c.split = 1;
          c.rad = {{0.0625, 1.0}, {0.5, 0.25}};
          c.ang = {{0.125, 0.875, -0.375, 1.25}, {-0.5, 0.25, 0.75, 0.5}};
          const double st = 3 * std::pow(10.0, -e);
          for (int64_t i = 1; i <= 400; ++i) c.ops.push_back({i % 3, 0, 13, axes & 1 ? st * double(i) : 0, axes & 2 ? -st * double(i) : 0, axes & 4 ? st * double(i) : 0});
          if (!emit(c)) return;
        }
  }
  struct H {
    std::shared_ptr<S> s;
    std::shared_ptr<PS> p;
    std::shared_ptr<B> b;       // what the user holds
    V3 cen;
    double scale;               // rounding each coordinate may have accumulated
    std::vector<V3> shape;      // offsets from the centre
    std::vector<double> w;
  };
  static std::string look(const H& h) {
    const B& b = *h.b;
    if (b.center() != h.cen) return pbt::fmt("center() is (%g,%g,%g), last set to (%g,%g,%g)", b.center()[0], b.center()[1], b.center()[2], h.cen[0], h.cen[1], h.cen[2]);
    if (b.npts() != h.shape.size() || b.points().size() != h.shape.size() || b.weights() != h.w) return "weights or size changed";
    for (size_t i = 0; i < h.shape.size(); ++i)
      for (int k = 0; k < 3; ++k)
        if (!(std::abs(b.points()[i][k] - (h.shape[i][k] + h.cen[k])) <= h.scale))
          return pbt::fmt("point %zu coordinate %d is %.17g, expected %.17g", i, k, b.points()[i][k], h.shape[i][k] + h.cen[k]);
    return "";
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    if (c.rad.empty() || c.ang.empty()) return pbt::pass();
    const AnyRad rq = make_rad(c.rad);
    const AnyAng aq = make_ang(expand(c.ang, c.at));
    if (c.at > 8) x.label("large grid");
    V3 cen{c.cx, c.cy, c.cz};
    std::vector<H> hs(1);
    {
      H& h = hs[0];
      std::vector<match::PW> e;
      size_t cut = std::min<size_t>(size_t(c.split), c.rad.size());
      if (c.pruned) {
        RadialGridPartition<AnyAng> g;
        g.add_quad(rq, 0, aq);
        if (cut > 0 && cut < c.rad.size()) { g.add_quad(rq, cut, aq); } else cut = 0;
        g.finalize(rq);
        h.p = std::make_shared<PS>(rq, g, cen);
        h.b = h.p;
        if (cut) match::add_shells(e, rq.points(), rq.weights(), 0, cut, aq.points(), aq.weights(), V3{0, 0, 0});
        match::add_shells(e, rq.points(), rq.weights(), cut, rq.npts(), aq.points(), aq.weights(), V3{0, 0, 0});
      } else {
        h.s = std::make_shared<S>(rq, aq, cen);
        h.b = h.s;
        match::add_shells(e, rq.points(), rq.weights(), 0, rq.npts(), aq.points(), aq.weights(), V3{0, 0, 0});
      }
      h.cen = cen;
      double mx = 0;
      for (auto& q : e) { h.shape.push_back(q.p); mx = std::max({mx, q.ps[0], q.ps[1], q.ps[2]}); }
      h.scale = 4e-16 * (mx + std::abs(cen[0]) + std::abs(cen[1]) + std::abs(cen[2])) * 2;
      h.w = h.b->weights();
    }
    {
      // the order of the points is part of the starting state, not of the property
      H& h = hs[0];
      std::vector<V3> got = h.b->points();
      bool same = got.size() == h.shape.size();
      for (size_t i = 0; same && i < got.size(); ++i)
        for (int k = 0; k < 3; ++k) same &= std::abs(got[i][k] - h.shape[i][k] - cen[k]) <= h.scale;
      if (!same) { for (size_t i = 0; i < got.size(); ++i) for (int k = 0; k < 3; ++k) got[i][k] -= cen[k]; h.shape = got; }
    }
    std::string m = look(hs[0]);
    if (!m.empty()) return pbt::fail("after construction: " + m);
    int moved = 0, copies = 0;
    for (size_t o = 0; o < c.ops.size(); ++o) {
      const Op& op = c.ops[o];
      const size_t k = size_t(op.h) % hs.size();
      switch (op.kind) {
        case 0: case 1: case 2: {
          V3 nc{op.x, op.y, op.z};
          if (op.same == 0) nc = hs[k].cen;
          if (op.same == 1) { nc = hs[k].cen; nc[size_t(o) % 3] = op.x; }
          if (op.same == 2) nc = {0, 0, 0};
          if (op.same == 3) for (int d = 0; d < 3; ++d) nc[size_t(d)] = -hs[k].cen[size_t(d)];
          if (op.same == 4) nc = {hs[k].cen[1], hs[k].cen[2], hs[k].cen[0]};
          if (op.same == 5) { nc = hs[k].cen; nc[size_t(o) % 3] += op.x; nc[(o + 1) % 3] -= op.x; }  // same sum of coordinates
          if (op.same == 6) { nc = hs[k].cen; nc[size_t(o) % 3] *= 1 + 4e-16; }
          if (op.same == 7) nc = hs[(k + 1) % hs.size()].cen;
          if (op.same == 8) for (auto& v : nc) v *= 1e8;
          if (op.same >= 9 && op.same <= 11)  // a minute step
            for (int d = 0; d < 3; ++d) nc[size_t(d)] = hs[k].cen[size_t(d)] + nc[size_t(d)] * (op.same == 9 ? 1e-8 : op.same == 10 ? 1e-11 : 1e-13);
          std::vector<V3> before = hs[k].b->points();
          const bool stay = nc == hs[k].cen;
          if (op.kind == 0) hs[k].b->recenter(nc);
          else if (hs[k].s) hs[k].s->recenter(nc);
          else if (hs[k].p) hs[k].p->recenter(nc);
          else hs[k].b->recenter(nc);
          if (stay && hs[k].b->points() != before) return pbt::fail(pbt::fmt("operation %zu: recentring onto the current centre moved the points", o));
          double mx = 0;
          for (int d = 0; d < 3; ++d) mx = std::max({mx, std::abs(nc[d]), std::abs(hs[k].cen[d])});
          hs[k].scale += 1e-15 * mx + 4e-16 * hs[k].scale;
          double ms = 0;
          for (auto& q : hs[k].shape) for (int d = 0; d < 3; ++d) ms = std::max(ms, std::abs(q[d]));
          hs[k].scale += 4e-16 * ms;
          hs[k].cen = nc;
          moved += !stay;
          break;
        }
        case 3: {  // clone through the base class
          H h = hs[k]; h.s.reset(); h.p.reset(); h.b = hs[k].b->clone();
          if (h.b->points() != hs[k].b->points()) return pbt::fail(pbt::fmt("operation %zu: the clone has other points", o));
          if (hs.size() < 6) hs.push_back(h); else hs[k] = h;
          ++copies;
          break;
        }
        case 4: case 5: {  // typed copy or move
          H h = hs[k];
          if (h.s) { h.s = op.kind == 4 ? std::make_shared<S>(*h.s) : std::make_shared<S>(std::move(*h.s)); h.b = h.s; }
          else if (h.p) { h.p = op.kind == 4 ? std::make_shared<PS>(*h.p) : std::make_shared<PS>(std::move(*h.p)); h.b = h.p; }
          else break;
          if (op.kind == 4 && hs.size() < 6) hs.push_back(h); else hs[k] = h;
          ++copies;
          break;
        }
        default: if (hs.size() > 1) hs.erase(hs.begin() + long(k)); break;
      }
      for (size_t i = 0; i < hs.size(); ++i)
        if (!(m = look(hs[i])).empty()) return pbt::fail(pbt::fmt("operation %zu (kind %ld on grid %zu), grid %zu: ", o, (long)op.kind, k, i) + m);
    }
    x.nontrivial = moved >= 2;
    if (copies) x.label("with copies or clones");
    if (moved >= 2) x.label("two or more moves");
    x.label(c.pruned ? "pruned" : "unpruned");
    return pbt::pass();
  }
};
PBT_MAIN(P)
