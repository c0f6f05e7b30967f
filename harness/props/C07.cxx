// Radial quadratures: nodes and weights are the base rule pushed through the documented map r(x) and
// its derivative, for every size, scale and exponent; every way of constructing them agrees.
#include <pbt.hpp>
#include <ref.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
using namespace IntegratorXX;
using ref::ld;
// maps a user supplies: the documented extension point
template <int K> struct MyTraits : RadialTraits {
  size_t n; double R;
  MyTraits(size_t n_, double R_) : n(n_), R(R_) {}
  size_t npts() const noexcept override { return n; }
  std::unique_ptr<RadialTraits> clone() const override { return std::make_unique<MyTraits>(*this); }
  bool compare(const RadialTraits& o) const noexcept override { auto p = dynamic_cast<const MyTraits*>(&o); return p && p->n == n && p->R == R; }
  template <class T> T radial_transform(T x) const noexcept { return K == 0 ? R * (1 + x) * (1 + x) / (1 - x) : R * x * (1 + x); }
  template <class T> T radial_jacobian(T x) const noexcept { return K == 0 ? R * (2 * (1 + x) / (1 - x) + (1 + x) * (1 + x) / ((1 - x) * (1 - x))) : R * (1 + 2 * x); }
};
struct P {
  struct Case {
    int64_t scheme = 0, n = 1, mode = 0;
    double R = 1, alpha = 0.6;
    template <class A> void io(A& a) { a("scheme", scheme); a("n", n); a("mode", mode); a("R", R); a("alpha", alpha); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.scheme = s.range(0, 8);
    c.n = s.coin() ? s.small(1, 400) : s.range(0, 59) ? s.small(1, tier ? 20000 : 4000) : s.range(4000, 100000);
    c.mode = s.range(0, 3);
    switch (s.range(0, 3)) {
      case 0: c.R = 1; break;
      case 1: c.R = s.pick<double>({0.5, 2, 7, 0.25, 1.5, 3}); break;
      default: c.R = s.logreal(-12, 12);
    }
    switch (s.range(0, 3)) {
      case 0: c.alpha = 0.6; break;
      case 1: c.alpha = 0; break;
      case 2: c.alpha = s.pick<double>({1, 0.5, 2, 0.1}); break;
      default: c.alpha = s.coin() ? s.real(0, 2) : s.real(0, 5);
    }
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    for (int64_t n = 0; n <= (tier ? 4000 : 2000); ++n)
      for (int64_t s = 0; s < 9; ++s)
        if (!emit(Case{s, n, n % 4, 1.0 + 0.5 * (n % 3), n % 2 ? 0.6 : 0.25})) return;
  }
  template <class Q, class T, class... A> static Q make(int64_t mode, A... a) {
    switch (mode) {
      case 0: return Q(a...);                                             // parameters
      case 1: return Q(T(a...));                                          // traits
      case 2: { T t(a...); auto c = t.clone(); return Q(static_cast<const RadialTraits&>(*c)); }  // run-time traits
      default: { T t(a...); T u(t); return Q(u); }
    }
  }
  // map, derivative, and relative sensitivity of both to a rounding error in x
  static void map(int64_t s, ld x, ld R, ld al, ld& r, ld& dr, ld& cond) {
    const ld e = 2.3e-16L;
    if (s == 0) { r = R * (1 + x) / (1 - x); dr = 2 * R / ((1 - x) * (1 - x)); cond = e / (1 - x) + e / (1 + x); }
    if (s == 1) { ld t = x / (1 - x); r = R * t * t; dr = 2 * R * x / ((1 - x) * (1 - x) * (1 - x)); cond = e / (1 - x) + e / x; }
    if (s == 7) { r = R * (1 + x) * (1 + x) / (1 - x); dr = R * (2 * (1 + x) / (1 - x) + (1 + x) * (1 + x) / ((1 - x) * (1 - x))); cond = e / (1 - x) + e / (1 + x); return; }
    if (s == 8) { r = R * x * (1 + x); dr = R * (1 + 2 * x); cond = e / x; return; }
    if (s >= 5) {  // other powers M
      const ld t = x / (1 - x), M = s == 5 ? 1 : 3;
      r = R * powl(t, M); dr = R * M * powl(x, M - 1) / powl(1 - x, M + 1); cond = e / (1 - x) + e / x;
      return;
    }
    if (s == 2) { ld u = 1 - x * x * x; r = -R * logl(u); dr = 3 * R * x * x / u; cond = e / u + e / (x * x * x); }
    if (s >= 3) {
      const ld l2 = logl(2), L = logl(2 / (1 - x)), pw = powl(1 + x, al);
      r = R / l2 * pw * L; dr = R / l2 * pw * (al * L / (1 + x) + 1 / (1 - x)); cond = e / (1 - x) + e / (1 + x);
    }
  }
  static pbt::Result check(const Case& c, pbt::Ctx& ctx) {
    static const char* nm[] = {"Becke", "MurrayHandyLaming", "MuraKnowles", "TreutlerAhlrichs", "TreutlerAhlrichs(alpha)", "MurrayHandyLaming(M=1)", "MurrayHandyLaming(M=3)", "user map on Gauss-Chebyshev", "user map on the trapezoid rule"};
    if (c.R <= 0 || c.n < 0 || c.scheme < 0 || c.scheme > 8) return pbt::pass();
    ctx.nontrivial = c.n >= 2;
    ctx.label(nm[c.scheme]);
    if (c.R != 1) ctx.label("R != 1");
    const size_t n = size_t(c.n);
    const double al = c.scheme == 4 ? c.alpha : 0.6;
    auto build = [&](double R, std::vector<double>& p, std::vector<double>& w) {
      auto take = [&](const auto& q) { p = q.points(); w = q.weights(); };
      switch (c.scheme) {
        case 0: take(make<Becke<double, double>, BeckeRadialTraits>(c.mode, n, R)); break;
        case 1: take(make<MurrayHandyLaming<double, double>, MurrayHandyLamingRadialTraits<2>>(c.mode, n, R)); break;
        case 2: take(make<MuraKnowles<double, double>, MuraKnowlesRadialTraits>(c.mode, n, R)); break;
        case 3: take(make<TreutlerAhlrichs<double, double>, TreutlerAhlrichsRadialTraits>(c.mode, n, R)); break;
        case 5: take(make<RadialTransformQuadrature<UniformTrapezoid<double, double>, MurrayHandyLamingRadialTraits<1>>, MurrayHandyLamingRadialTraits<1>>(c.mode, n, R)); break;
        case 6: take(make<RadialTransformQuadrature<UniformTrapezoid<double, double>, MurrayHandyLamingRadialTraits<3>>, MurrayHandyLamingRadialTraits<3>>(c.mode, n, R)); break;
        case 7: take(make<RadialTransformQuadrature<GaussChebyshev2<double, double>, MyTraits<0>>, MyTraits<0>>(c.mode, n, R)); break;
        case 8: take(make<RadialTransformQuadrature<UniformTrapezoid<double, double>, MyTraits<1>>, MyTraits<1>>(c.mode, n, R)); break;
        default: take(make<TreutlerAhlrichs<double, double>, TreutlerAhlrichsRadialTraits>(c.mode, n, R, al)); break;
      }
    };
    std::vector<double> p, w, p1, w1, x, b;
    build(c.R, p, w);
    build(1.0, p1, w1);
    PBT_REQUIRE(p.size() == n && w.size() == n, "%s(%zu): %zu points, %zu weights", nm[c.scheme], n, p.size(), w.size());
    if (c.scheme == 1 || c.scheme == 2 || c.scheme == 5 || c.scheme == 6 || c.scheme == 8) {  // trapezoid rule on [0,1] without its end points
      UniformTrapezoid<double, double> q(n + 2, 0., 1.);
      x.assign(q.points().begin() + 1, q.points().end() - 1);
      b.assign(q.weights().begin() + 1, q.weights().end() - 1);
    } else {
      GaussChebyshev2<double, double> q(n);
      x = q.points();
      b = q.weights();
    }
    for (size_t i = 0; i < n; ++i) {
      ld r, dr, cond;
      map(c.scheme, x[i], c.R, al, r, dr, cond);
      const ld tol = 2e-13L + 40 * cond;
      PBT_REQUIRE(std::isfinite(p[i]) && std::isfinite(w[i]) && p[i] >= 0 && w[i] > 0, "%s(n=%zu,R=%g,alpha=%g): entry %zu is (%g,%g)", nm[c.scheme], n, c.R, al, i, p[i], w[i]);
      if (tol < 1e-3L) PBT_REQUIRE(i == 0 || p[i] > p[i - 1], "%s(n=%zu,R=%g,alpha=%g): radii %zu,%zu not increasing", nm[c.scheme], n, c.R, al, i - 1, i);
      PBT_REQUIRE(fabsl(p[i] - r) <= tol * r, "%s(n=%zu,R=%g,alpha=%g): radius %zu is %.17g, map gives %.17Lg", nm[c.scheme], n, c.R, al, i, p[i], r);
      PBT_REQUIRE(fabsl(w[i] - b[i] * dr) <= tol * b[i] * dr, "%s(n=%zu,R=%g,alpha=%g): weight %zu is %.17g, base weight times dr/dx is %.17Lg", nm[c.scheme], n, c.R, al, i, w[i], b[i] * dr);
      PBT_REQUIRE(std::abs(p[i] - c.R * p1[i]) <= 1e-13 * p[i] && std::abs(w[i] - c.R * w1[i]) <= 1e-13 * w[i],
                  "%s(n=%zu,R=%g): entry %zu does not scale with R: (%.17g,%.17g) vs R*(%.17g,%.17g)", nm[c.scheme], n, c.R, i, p[i], w[i], p1[i], w1[i]);
    }
    return pbt::pass();
  }
};
PBT_MAIN(P)
