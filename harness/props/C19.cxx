// Batcher histories: through any sequence of clone/copy/move/recentre/weight updates, every batcher keeps presenting the same partition of its grid at its current centre.
#include <pbt.hpp>
#include <match.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace IntegratorXX;
using B = SphericalQuadratureBase<std::vector<V3>, std::vector<double>>;
using S = SphericalQuadrature<AnyRad, AnyAng>;
using PS = PrunedSphericalQuadrature<AnyRad, AnyAng>;
using MB = SphericalMicroBatcher<std::vector<V3>, std::vector<double>>;
struct Op {
  int64_t kind = 0, h = 0, i = 0;
  double x = 0, y = 0, z = 0;
  template <class A> void io(A& s) { s("kind", kind); s("h", h); s("i", i); s("x", x); s("y", y); s("z", z); }
};
struct P {
  struct Case {
    int64_t bsz = 3, at = 1, pruned = 0;
    double cx = 0, cy = 0, cz = 0;
    std::vector<RNode> rad;
    std::vector<Node> ang;
    std::vector<Op> ops;
    template <class A> void io(A& s) { s("bsz", bsz); s("at", at); s("pruned", pruned); s("cx", cx); s("cy", cy); s("cz", cz); s("rad", rad); s("ang", ang); s("ops", ops); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.bsz = s.range(1, 12);
    c.at = gen_times(s, 60);
    if (c.at > 4) c.bsz = s.range(5, 300);
    if (!s.range(0, 39)) { c.at = s.range(40, tier ? 700 : 250); c.bsz = s.range(1, 4); }  // thousands of batches
    c.pruned = s.range(0, 1);
    if (s.coin()) { c.cx = s.coord(3); c.cy = s.coord(3); c.cz = s.coord(3); }
    c.rad = pbt::vec<RNode>(s, 1, 6, gen_rnode);
    c.ang = pbt::vec<Node>(s, 1, 8, gen_node);
    c.ops = pbt::vec<Op>(s, 1, c.at == 1 && !s.range(0, 39) ? 300 : tier ? 50 : 20, [](pbt::Src& q) {
      Op o;
      o.kind = q.range(0, 8);
      o.h = q.range(0, 4);
      o.i = q.range(0, 63);
      o.x = q.coord(4); o.y = q.coord(4); o.z = q.coord(4);
      return o;
    });
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t pr = 0; pr < 2; ++pr)  // large grids: few big batches, thousands of small ones
      for (int64_t v = 0; v < 3; ++v) {
        Case c;
        c.pruned = pr; c.at = v == 0 ? 12000 : v == 1 ? 12000 : 1200; c.bsz = v == 0 ? 1000 : v == 1 ? 100000 : 1; c.cx = 0.5; c.cz = -3;
        for (int64_t i = 0; i < 6; ++i) c.rad.push_back({0.5 + double(i), 1.0 / double(i + 2)});
        c.ang.push_back({0.1, 0.9, -0.3, 1.25});
        c.ops = {{0, 0, 11, 1.5, -2, 3}, {2, 0, 0, 0, 0, 0}, {1, 1, 11, -4, 0.25, 7}, {5, 0, 50, 0, 0, 0}, {6, 1, 17, 0, 0, 0}, {3, 0, 1, 0, 0, 0}, {7, 0, 2, 0, 0, 0}, {0, 0, 1, 3, 1, 1}};
        if (!emit(c)) return;
      }
    for (int64_t pr = 0; pr < 2; ++pr) {  // kept copies and clones of them in every order
      Case c;
      c.pruned = pr; c.bsz = 3; c.cx = 0.5; c.cz = -3;
      for (int64_t i = 0; i < 5; ++i) c.rad.push_back({0.5 + double(i), 1.0 / double(i + 2)});
      c.ang = {{0.1, 0.9, -0.3, 1.25}, {-0.5, 0.25, 0.75, 0.5}, {0.5, 0.25, -0.75, 0.5}};
      const Op copy{3, 0, 1, 0, 0, 0}, clone{2, 0, 0, 0, 0, 0}, last{2, 2, 0, 0, 0, 0};
      for (int v = 0; v < 64; ++v) {
        c.ops.clear();
        for (int b = 0; b < 3; ++b) c.ops.push_back((v >> b) & 1 ? (b % 2 ? last : clone) : copy);
        c.ops.push_back((v & 8) ? Op{0, 1, 0, 1, 2, -3} : Op{5, 1, 4, 0, 0, 0});
        c.ops.push_back((v & 16) ? clone : last);
        c.ops.push_back({1, 0, 0, -2, 0.5, 1});
        c.ops.push_back((v & 32) ? Op{4, 0, 0, 0, 0, 0} : Op{6, 2, 1, 0, 0, 0});
        c.ops.push_back({0, 3, 0, 4, 4, 4});
        c.ops.push_back({4, 0, 0, 0, 0, 0});
        c.ops.push_back({5, 0, 2, 0, 0, 0});
        if (!emit(c)) return;
      }
    }
    for (int e = 3; e <= 15; ++e) {  // a long walk in minute steps
      Case c;
      c.pruned = e % 2; c.bsz = 2;
      c.rad = {{0.0625, 1.0}, {0.5, 0.25}};
      c.ang = {{0.125, 0.875, -0.375, 1.25}, {-0.5, 0.25, 0.75, 0.5}};
      const double st = 3 * std::pow(10.0, -e);
      for (int64_t i = 1; i <= 300; ++i) c.ops.push_back({i % 2, 0, 0, st * double(i), 0, -st * double(i)});
      if (!emit(c)) return;
    }
  }
  struct Grid { V3 cen; std::vector<V3> off; std::vector<double> w; double scale; };  // model of one stored grid
  struct H { std::shared_ptr<MB> b; std::shared_ptr<Grid> g; std::vector<size_t> sizes; };
  static std::vector<size_t> sizes(MB& b) {
    std::vector<size_t> r;
    for (auto it = b.begin(); it != b.end(); ++it) r.push_back(std::get<2>(*it).size());
    return r;
  }
  static std::string look(H& h) {
    MB& b = *h.b;
    const MB& cb = *h.b;
    const Grid& g = *h.g;
    if (b.quadrature().center() != g.cen) return "the grid's centre is not the last one set";
    if (b.npts() != g.off.size()) return "number of points changed";
    if (b.weights() != g.w || cb.weights() != g.w || cb.quadrature().weights() != g.w) return "weights differ from the last ones stored";
    for (size_t i = 0; i < g.off.size(); ++i)
      for (int k = 0; k < 3; ++k)
        if (!(std::abs(cb.points()[i][k] - (g.off[i][k] + g.cen[k])) <= g.scale)) return pbt::fmt("point %zu coordinate %d is %.17g, expected %.17g", i, k, cb.points()[i][k], g.off[i][k] + g.cen[k]);
    if (b.nbatches() != h.sizes.size()) return pbt::fmt("%zu batches, had %zu", b.nbatches(), h.sizes.size());
    size_t at = 0;
    for (size_t i = 0; i < h.sizes.size(); ++i) {
      auto [lo, up, p, w] = cb.at(i);
      if (p.size() != h.sizes[i] || w.size() != p.size()) return pbt::fmt("batch %zu has %zu points, had %zu", i, p.size(), h.sizes[i]);
      V3 elo = p[0], eup = p[0];
      for (size_t k = 0; k < p.size(); ++k, ++at) {
        if (p[k] != cb.points()[at] || w[k] != g.w[at]) return pbt::fmt("batch %zu does not show the stored points and weights", i);
        for (int q = 0; q < 3; ++q) { elo[q] = std::min(elo[q], p[k][q]); eup[q] = std::max(eup[q], p[k][q]); }
      }
      if (lo != elo || up != eup) return pbt::fmt("batch %zu: box is not the extrema of its points", i);
    }
    if (at != g.off.size()) return "batches do not cover the grid";
    at = 0;
    size_t i = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++i) {
      auto [n, pb, pe, wb, we] = it.range();
      if (i >= h.sizes.size() || size_t(n) != h.sizes[i] || size_t(pe - pb) != h.sizes[i] || size_t(we - wb) != h.sizes[i] || &*pb != &b.points()[at] || &*wb != &b.weights()[at])
        return pbt::fmt("iteration: batch %zu is not the stored range", i);
      at += h.sizes[i];
      if (i % 97 == 5) {
        auto [lo, up, p, w] = b.at(i);
        auto [lo2, up2, p2, w2] = cb.at(i);
        if (p != p2 || w != w2 || lo != lo2 || up != up2 || p[0] != *pb) return pbt::fmt("at(%zu) differs between the const and the mutable batcher", i);
      }
    }
    if (i != h.sizes.size()) return pbt::fmt("iteration gives %zu batches, had %zu", i, h.sizes.size());
    return "";
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    if (c.rad.empty() || c.ang.empty() || c.bsz < 1) return pbt::pass();
    std::vector<H> hs(1);
    {
      H& h = hs[0];
      const AnyRad rq = make_rad(c.rad);
      const AnyAng aq = make_ang(expand(c.ang, c.at));
      const V3 cen{c.cx, c.cy, c.cz};
      if (c.pruned) {
        PrunedSphericalQuadrature<AnyRad, AnyAng> s(rq, RadialGridPartition<AnyAng>(rq, 0, aq), cen);
        h.b = std::make_shared<MB>(size_t(c.bsz), s);
      } else {
        S s(rq, aq, cen);
        h.b = std::make_shared<MB>(size_t(c.bsz), s);
      }
      h.g = std::make_shared<Grid>();
      h.g->cen = cen;
      h.g->off = h.b->points();
      h.g->w = h.b->weights();
      h.g->scale = 0;
      for (auto& q : h.g->off)
        for (int d = 0; d < 3; ++d) { h.g->scale = std::max(h.g->scale, 4e-16 * (std::abs(q[d]) + std::abs(cen[d]))); q[d] -= cen[d]; }
      h.sizes = sizes(*h.b);
    }
    int clones = 0, moves = 0, shared = 0;
    for (size_t o = 0; o < c.ops.size(); ++o) {
      const Op& op = c.ops[o];
      const size_t k = size_t(op.h) % hs.size();
      const H h = hs[k];
      switch (op.kind) {
        case 0: case 1: {  // recentre through the batcher or its grid
          V3 nc{op.x, op.y, op.z};
          if (op.i % 8 == 5) for (int d = 0; d < 3; ++d) nc[size_t(d)] = h.g->cen[size_t(d)] + nc[size_t(d)] * (op.i % 16 == 5 ? 1e-9 : 1e-13);  // a minute step
          if (op.i % 8 == 6) { nc = h.g->cen; nc[o % 3] = op.x; }
          if (op.i % 16 == 7) nc = h.g->cen;
          double mx = 0;
          for (int d = 0; d < 3; ++d) mx = std::max({mx, std::abs(nc[d]), std::abs(h.g->cen[d])});
          double ms = 0;
          for (auto& q : h.g->off) for (int d = 0; d < 3; ++d) ms = std::max(ms, std::abs(q[d]));
          h.g->scale = h.g->scale * (1 + 1e-15) + 1e-15 * mx + 4e-16 * ms;
          if (op.kind == 0) h.b->recenter(nc); else h.b->quadrature().recenter(nc);
          h.g->cen = nc;
          ++moves;
          break;
        }
        case 2: {  // clone: an independent grid, the same partition
          H n{std::make_shared<MB>(h.b->clone()), std::make_shared<Grid>(*h.g), h.sizes};
          if (&n.b->quadrature() == &h.b->quadrature()) return pbt::fail(pbt::fmt("operation %zu: the clone shares the grid", o));
          if (n.b->points() != h.b->points() || n.b->max_batch_size() != h.b->max_batch_size()) return pbt::fail(pbt::fmt("operation %zu: the clone differs", o));
          if (hs.size() < 5) hs.push_back(n); else hs[k] = n;
          ++clones;
          break;
        }
        case 3: {  // move, copy and drop the original, or copy and keep both: copies show one and the same grid
          H n{op.i % 2 ? std::make_shared<MB>(*h.b) : std::make_shared<MB>(std::move(*h.b)), h.g, h.sizes};
          if (op.i % 4 == 1 && hs.size() < 6) {
            if (&n.b->quadrature() != &h.b->quadrature()) return pbt::fail(pbt::fmt("operation %zu: the copy does not share the grid", o));
            hs.push_back(n);
            ++shared;
          } else hs[k] = n;
          break;
        }
        case 4: {  // drop a handle
          if (hs.size() > 1) hs.erase(hs.begin() + long(k));
          break;
        }
        case 5: {  // scale one stored weight in place
          size_t i = size_t(op.i) % h.g->w.size();
          h.b->weights()[i] *= 0.5;
          h.g->w[i] *= 0.5;
          break;
        }
        case 6: {  // same through the batch range
          size_t bi = size_t(op.i) % h.sizes.size();
          auto it = h.b->begin();
          for (size_t q = 0; q < bi; ++q) it++;
          auto [n, pb, pe, wb, we] = it.range();
          (void)n; (void)pb; (void)pe;
          size_t at = 0;
          for (size_t q = 0; q < bi; ++q) at += h.sizes[q];
          for (auto w = wb; w != we; ++w, ++at) { *w *= 2; h.g->w[at] *= 2; }
          break;
        }
        case 7: {  // rebuild from the parts: the same or a coarser partition over a clone or a copy of the grid
          std::vector<size_t> idx{0}, sz;
          for (auto s : h.sizes) {
            if (op.i % 3 == 2 && sz.size() % 2) { sz.back() += s; idx.back() += s; sz.push_back(0); continue; }
            if (!sz.empty() && sz.back() == 0) sz.pop_back();
            sz.push_back(s);
            idx.push_back(idx.back() + s);
          }
          if (sz.back() == 0) sz.pop_back();
          H n{nullptr, std::make_shared<Grid>(*h.g), sz};
          const size_t mb = h.b->max_batch_size();
          auto parts = [&](auto* q) {
            if ((op.i / 3) % 3 == 1) n.b = std::make_shared<MB>(mb, *q, idx);
            else { auto cp = *q; n.b = std::make_shared<MB>(mb, std::move(cp), idx); }
          };
          if ((op.i / 3) % 3 == 0) n.b = std::make_shared<MB>(mb, h.b->quadrature().clone(), idx);
          else if (auto* s = dynamic_cast<const S*>(&h.b->quadrature())) parts(s);
          else if (auto* s = dynamic_cast<const PS*>(&h.b->quadrature())) parts(s);
          else return pbt::fail("the grid of the batcher is not of the type it was given");
          hs[k] = n;
          break;
        }
        default: {  // out-of-range access leaves everything alone
          bool th = false;
          try { (void)h.b->at(h.sizes.size() + size_t(op.i)); } catch (const std::exception&) { th = true; }
          if (!th) return pbt::fail("access past the last batch not refused");
        }
      }
      for (size_t i = 0; i < hs.size(); ++i) {
        std::string m = look(hs[i]);
        if (!m.empty()) return pbt::fail(pbt::fmt("operation %zu (kind %ld on batcher %zu), batcher %zu: ", o, (long)op.kind, k, i) + m);
      }
    }
    x.nontrivial = clones > 0 && moves > 0;
    if (clones) x.label("with clones");
    if (moves) x.label("with recentring");
    if (shared) x.label("with kept copies");
    return pbt::pass();
  }
};
PBT_MAIN(P)
