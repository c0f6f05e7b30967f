// The change of variables from (-1,1) to any interval: the point lands where the documented map puts it, inside
// the interval and in order, and the weight gets the map's derivative, so mapped rules keep integrating.
#include <tuple>
#include <cassert>
#include <pbt.hpp>
#include <ref.hpp>
#include <integratorxx/util/bound_transform.hpp>
#include <integratorxx/quadratures/primitive.hpp>
using namespace IntegratorXX;
using ref::ld;
struct P {
  struct Case {
    int64_t kind = 0, n = 0, prec = 0;
    double lo = -1, up = 1, x = 0, w = 1;
    template <class A> void io(A& a) { a("kind", kind); a("n", n); a("prec", prec); a("lo", lo); a("up", up); a("x", x); a("w", w); }
  };
  static Case gen(pbt::Src& s, int) {
    Case c;
    c.kind = s.range(0, 3);
    c.prec = s.coin() ? 0 : s.range(1, 6);
    c.lo = s.coord(5);
    c.up = c.lo + s.logreal(-3, 4);
    switch (s.range(0, 3)) {
      case 0: c.x = 0; break;
      case 1: c.x = s.real(-0.999, 0.999); break;
      case 2: c.x = 1 - s.logreal(-8, 0) / 10; break;
      default: c.x = -1 + s.logreal(-8, 0) / 10;
    }
    c.w = s.logreal(-5, 3);
    c.n = s.range(0, 3) == 3 ? s.range(1, 60) : 0;
    if (c.n == 0 && s.range(0, 3) == 0) {  // intervals of any magnitude
      c.lo = s.logreal(-150, 150) * (s.coin() ? 1 : -1);
      c.up = s.coin() ? c.lo + std::abs(c.lo) * s.logreal(-6, 6) : s.logreal(-150, 150) * (s.coin() ? 1 : -1);
      if (c.up < c.lo) std::swap(c.up, c.lo);
    }
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t k = 0; k < 4; ++k)
      for (int64_t i = -99; i <= 99; ++i)
        for (int64_t j = 0; j < 6; ++j)
          if (!emit(Case{k, 0, (i + 99) % 7, -2.0 + double(j), 1.0 + 3 * double(j), double(i) / 100, 0.5})) return;
    for (int64_t k = 0; k < 4; ++k)
      for (int64_t n = 1; n <= 60; ++n)
        for (int64_t j = 0; j < 3; ++j)
          if (!emit(Case{k, n, 0, -2.0 + double(j), 1.0 + 3 * double(j), 0, 1})) return;
  }
  template <class T, class W = T> static pbt::Result point(const Case& c, ld lo, ld up) {
    const ld eps = std::numeric_limits<T>::epsilon(), weps = std::max<ld>(eps, std::numeric_limits<W>::epsilon());
    const T inf = std::numeric_limits<T>::infinity();
    const W tw = W(c.w);
    const T tx = T(c.x), tl = c.kind & 2 ? -inf : T(lo), tu = c.kind & 1 ? inf : T(up);
    if ((sizeof(T) == 4 || sizeof(W) == 4) && !(fabsl(lo) < 1e30L && fabsl(up) < 1e30L && (lo == 0 || fabsl(lo) > 1e-30L) && (up == 0 || fabsl(up) > 1e-30L))) return pbt::pass();
    if (!(tx > T(-1) && tx < T(1)) || !(tl < tu)) return pbt::pass();
    auto [p, w] = transform_minus_one_to_one(tl, tu, tx, tw);
    static_assert(std::is_same_v<decltype(p), T> && std::is_same_v<decltype(w), W>);
    ld x = tx, l = tl, u = tu, ep, ed, mag;
    switch (c.kind) {
      case 0: ep = (u - l) * x / 2 + (u + l) / 2; ed = (u - l) / 2; mag = std::max(fabsl(l), fabsl(u)); break;
      case 1: ep = l + (1 + x) / (1 - x); ed = 2 / ((1 - x) * (1 - x)); mag = fabsl(l) + (1 + x) / (1 - x); break;
      case 2: ep = u - (1 - x) / (1 + x); ed = 2 / ((1 + x) * (1 + x)); mag = fabsl(u) + (1 - x) / (1 + x); break;
      default: ep = x / (1 + x) / (1 - x); ed = (1 + x * x) / ((1 - x * x) * (1 - x * x)); mag = fabsl(ep); break;
    }
    const ld cond = 1 + 1 / (1 - fabsl(x));
    PBT_REQUIRE(fabsl(p - ep) <= 8 * eps * mag * cond, "map onto kind %ld [%g,%g]: %.17g goes to %.17Lg, expected %.17Lg", (long)c.kind, double(tl), double(tu), double(tx), ld(p), ep);
    PBT_REQUIRE(w > 0 && fabsl(w - tw * ed) <= 16 * weps * tw * ed * cond, "map onto kind %ld [%g,%g] at %.17g: weight factor %.17Lg, derivative of the map is %.17Lg", (long)c.kind, double(tl), double(tu), double(tx), ld(w) / ld(tw), ed);
    PBT_REQUIRE(p >= tl - 8 * eps * mag && p <= tu + 8 * eps * mag, "map onto [%g,%g] left the interval: %.17g -> %.17Lg", double(tl), double(tu), double(tx), ld(p));
    return pbt::pass();
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    if (!(c.lo < c.up) || c.w <= 0) return pbt::pass();
    static const char* nm[4] = {"finite", "[lo,inf)", "(-inf,up]", "(-inf,inf)"};
    x.nontrivial = c.x != 0 || c.n > 0;
    x.label(nm[c.kind]);
    if (c.n == 0) {
      if (c.prec) x.label("other types");
      switch (c.prec) {
        case 0: return point<double>(c, c.lo, c.up);
        case 1: return point<float>(c, c.lo, c.up);
        case 2: return point<ld>(c, c.lo, c.up);
        case 3: return point<float, double>(c, c.lo, c.up);
        case 4: return point<double, float>(c, c.lo, c.up);
        case 5: return point<ld, double>(c, c.lo, c.up);
        default: return point<double, ld>(c, c.lo, c.up);
      }
    }
    // a whole mapped Gauss-Legendre rule against exact integrals
    x.label("whole rule");
    const size_t n = size_t(c.n);
    GaussLegendre<double, double> q(n);
    const double inf = std::numeric_limits<double>::infinity();
    const double lo = c.kind & 2 ? -inf : c.lo, up = c.kind & 1 ? inf : c.up;
    std::vector<ld> p(n), w(n);
    for (size_t i = 0; i < n; ++i) {
      auto [a, b] = transform_minus_one_to_one(lo, up, q.points()[i], q.weights()[i]);
      p[i] = a; w[i] = b;
      PBT_REQUIRE(w[i] > 0 && (i == 0 || p[i] > p[i - 1]), "mapped rule (kind %ld, n=%zu) is not increasing with positive weights at %zu", (long)c.kind, n, i);
    }
    // functions whose pull-back to (-1,1) is a polynomial of degree < 2n:
    //   finite: ((p-lo)/(up-lo))^d; half lines: (1/(1+|p-end|))^(d+2), pulled back to ((1-x)/2)^d * dx/2; exact for every n
    for (size_t d = 0; d + 1 <= 2 * n && d < 12; ++d) {
      ld s = 0, e = 0, tol = 1e-12L;
      for (size_t i = 0; i < n; ++i) {
        switch (c.kind) {
          case 0: s += w[i] * powl((p[i] - ld(c.lo)) / (ld(c.up) - ld(c.lo)), ld(d)); e = (ld(c.up) - ld(c.lo)) / ld(d + 1); break;
          case 1: s += w[i] * powl(1 / (1 + (p[i] - ld(c.lo))), ld(d + 2)); e = 1 / ld(d + 1); break;
          case 2: s += w[i] * powl(1 / (1 + (ld(c.up) - p[i])), ld(d + 2)); e = 1 / ld(d + 1); break;
          default: {  // x(p) inverted; dp = (1+x^2)/(1-x^2)^2 dx, so f = x^d (1-x^2)^2/(1+x^2)
            ld t = p[i] == 0 ? 0 : (sqrtl(1 + 4 * p[i] * p[i]) - 1) / (2 * p[i]);
            s += w[i] * powl(t, ld(d)) * (1 - t * t) * (1 - t * t) / (1 + t * t);
            e = d % 2 ? 0 : 2 / ld(d + 1);
          }
        }
      }
      ld mag = c.kind == 0 ? (c.up - c.lo) : 1;
      // the ends of the interval amplify the rounding of nodes stored near +-1 (and, on a shifted interval, of p itself)
      if (c.kind) tol += 1e-14L * ld(n) * ld(n) * (1 + std::abs(c.kind == 2 ? c.up : c.kind == 1 ? c.lo : 0));
      else tol += 1e-14L * (std::abs(c.lo) + std::abs(c.up)) / (c.up - c.lo);
      PBT_REQUIRE(fabsl(s - e) <= tol * mag, "mapped rule (kind %ld, n=%zu) integrates a function it should integrate exactly (degree %zu) to %.17Lg instead of %.17Lg", (long)c.kind, n, d, s, e);
    }
    return pbt::pass();
  }
};
PBT_MAIN(P)
