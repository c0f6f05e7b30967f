// Comparing a generated point/weight set with the expected one, up to rounding and up to order.
#pragma once
#include <pbt.hpp>
#include <quads.hpp>
#include <numeric>
namespace match {
template <class T> struct PWT { std::array<T, 3> p; T w; std::array<T, 3> ps; };  // ps: per coordinate, the magnitude it was formed from
using PW = PWT<double>;
template <class V, class W, class T> bool close(const V& p, const W& w, const PWT<T>& e, double eps) {
  for (int k = 0; k < 3; ++k) if (!(std::abs(p[k] - e.p[k]) <= eps * e.ps[k])) return false;
  return std::abs(w - e.w) <= eps * std::abs(e.w);
}
// empty string: (p,w) is the multiset exp.  *canonical: also in the same order.
// Near-coincident entries can each be close to several expected ones, so this is a maximum matching and not a greedy one.
template <class PC, class WC, class T>
std::string multiset(const PC& p, const WC& w, const std::vector<PWT<T>>& e, double eps, bool* canonical = nullptr) {
  if (p.size() != e.size() || w.size() != e.size())
    return pbt::fmt("%zu points and %zu weights, expected %zu", p.size(), w.size(), e.size());
  size_t i = 0;
  while (i < e.size() && close(p[i], w[i], e[i], eps)) ++i;
  if (canonical) *canonical = i == e.size();
  if (i == e.size()) return "";
  std::vector<size_t> id(p.size());
  std::iota(id.begin(), id.end(), 0);
  std::sort(id.begin(), id.end(), [&](size_t a, size_t b) { return p[a] < p[b]; });
  std::vector<T> xs(p.size());
  for (size_t k = 0; k < id.size(); ++k) xs[k] = p[id[k]][0];
  const size_t none = size_t(-1);
  std::vector<size_t> owner(p.size(), none), left;
  auto each = [&](size_t k, auto&& f) {  // candidates of expected entry k, until f says stop
    const T t = eps * e[k].ps[0];
    for (size_t q = size_t(std::lower_bound(xs.begin(), xs.end(), e[k].p[0] - t) - xs.begin()); q < xs.size() && xs[q] <= e[k].p[0] + t; ++q)
      if (close(p[id[q]], w[id[q]], e[k], eps) && f(q)) return;
  };
  for (size_t k = 0; k < e.size(); ++k) {  // nearest free candidate first
    size_t best = none; T bd = 0;
    each(k, [&](size_t q) {
      if (owner[q] != none) return false;
      const auto& g = p[id[q]];
      const T d = std::abs(g[0] - e[k].p[0]) + std::abs(g[1] - e[k].p[1]) + std::abs(g[2] - e[k].p[2]) + std::abs(w[id[q]] - e[k].w);
      if (best == none || d < bd) { best = q; bd = d; }
      return d == 0;
    });
    if (best == none) left.push_back(k); else owner[best] = k;
  }
  for (size_t k0 : left) {  // augmenting path, breadth first
    std::vector<size_t> from(p.size(), none), queue{k0};
    size_t end = none;
    for (size_t h = 0; h < queue.size() && end == none; ++h)
      each(queue[h], [&](size_t q) {
        if (from[q] != none) return false;
        from[q] = queue[h];
        if (owner[q] == none) { end = q; return true; }
        queue.push_back(owner[q]);
        return false;
      });
    if (end == none)
      return pbt::fmt("expected entry %zu: point (%.17g,%.17g,%.17g) with weight %.17g is missing (entry %zu is (%.17g,%.17g,%.17g), %.17g)", k0, double(e[k0].p[0]), double(e[k0].p[1]), double(e[k0].p[2]), double(e[k0].w),
                      i, double(p[i][0]), double(p[i][1]), double(p[i][2]), double(w[i]));
    for (size_t q = end;;) {
      const size_t k = from[q];
      size_t prev = none;
      each(k, [&](size_t c) { if (owner[c] == k) { prev = c; return true; } return false; });
      owner[q] = k;
      if (prev == none || k == k0) break;
      q = prev;
    }
  }
  return "";
}
// one shell set: radial nodes [st,en) times an angular set
template <class T, class RP, class RW, class AP, class AW>
void add_shells(std::vector<PWT<T>>& out, const RP& r, const RW& wr, size_t st, size_t en, const AP& a, const AW& wa, const std::array<T, 3>& c) {
  for (size_t j = 0; j < a.size(); ++j)
    for (size_t i = st; i < en; ++i) {
      PWT<T> e;
      for (int k = 0; k < 3; ++k) {
        e.p[k] = r[i] * a[j][k] + c[k];
        e.ps[k] = std::max(std::abs(r[i] * a[j][k]), std::abs(c[k]));
      }
      e.w = wr[i] * wa[j] * (r[i] * r[i]);
      out.push_back(e);
    }
}
}  // namespace match
// generated angular node
struct Node {
  double x = 0, y = 0, z = 0, w = 0;
  template <class A> void io(A& s) { s("x", x); s("y", y); s("z", z); s("w", w); }
};
inline Node gen_node(pbt::Src& s) {
  Node n;
  n.x = s.coord(3); n.y = s.coord(3); n.z = s.coord(3);
  n.w = s.range(0, 5) ? s.logreal(-4, 3) * (s.coin() ? 1 : -1) : 0.0;
  return n;
}
inline AnyAng make_ang(const std::vector<Node>& v) {
  std::vector<V3> p; std::vector<double> w;
  for (auto& n : v) { p.push_back({n.x, n.y, n.z}); w.push_back(n.w); }
  return AnyAng(p, w);
}
struct RNode {
  double r = 0, w = 0;
  template <class A> void io(A& s) { s("r", r); s("w", w); }
};
inline RNode gen_rnode(pbt::Src& s) {
  RNode n;
  n.r = s.range(0, 9) ? s.logreal(-6, 4) : 0.0;
  n.w = s.range(0, 9) ? s.logreal(-6, 4) : -s.real(0, 3);
  return n;
}
inline AnyRad make_rad(const std::vector<RNode>& v) {
  std::vector<double> p, w;
  for (auto& n : v) { p.push_back(n.r); w.push_back(n.w); }
  return AnyRad(p, w);
}
// a few generated nodes, repeated with variations: large sets which still shrink to small ones
inline std::vector<Node> expand(const std::vector<Node>& v, int64_t times) {
  std::vector<Node> o;
  for (int64_t k = 0; k < std::max<int64_t>(1, times); ++k)
    for (auto n : v) {
      const double f = 1 + 0.37 * double(k);
      if (k) { n.x = n.x * f + 0.01 * double(k); n.y -= 0.02 * double(k); n.z *= f; n.w += 0.001 * double(k); }
      o.push_back(n);
    }
  return o;
}
inline std::vector<RNode> expand(const std::vector<RNode>& v, int64_t times) {
  std::vector<RNode> o;
  for (int64_t k = 0; k < std::max<int64_t>(1, times); ++k)
    for (auto n : v) {
      if (k) { n.r = n.r * (1 + 0.11 * double(k)) + 0.003 * double(k); n.w += 0.002 * double(k); }
      o.push_back(n);
    }
  return o;
}
// mostly 1, sometimes large
inline int64_t gen_times(pbt::Src& s, int64_t most) { return s.range(0, 11) ? 1 : s.small(2, most); }
