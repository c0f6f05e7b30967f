// The rules are generic in their floating-point types: in single (or extended) precision they agree with the
// double-precision rule to that precision, for every size.
#include <pbt.hpp>
#include <ref.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
using namespace IntegratorXX;
using ref::ld;
struct P {
  struct Case {
    int64_t rule = 0, n = 2, prec = 0;
    double R = 1;
    template <class A> void io(A& a) { a("rule", rule); a("n", n); a("prec", prec); a("R", R); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.rule = s.range(0, 10);
    c.n = s.coin() ? s.small(2, 60) : s.range(2, tier ? 800 : 300);
    c.prec = s.coin() ? s.range(0, 1) : s.range(2, NT - 1);
    c.R = s.coin() ? 1 : s.real(0.25, 4);
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    for (int64_t n = 2; n <= (tier ? 500 : 200); ++n)
      for (int64_t r = 0; r < 11; ++r)
        for (int64_t p = 0; p < (n <= 60 ? NT : 2); ++p)
          if (!emit(Case{r, n, p, 1})) return;
  }
  static constexpr int64_t NT = 7;
  static constexpr const char* TN[NT] = {"float", "long double", "float,double", "double,float", "double,long double", "long double,double", "float,long double"};
  // T: points, U: weights
  template <class T, class U> static void make(const Case& c, std::vector<ld>& p, std::vector<ld>& w) {
    const size_t n = size_t(c.n);
    auto take = [&](const auto& q) { p.assign(q.points().begin(), q.points().end()); w.assign(q.weights().begin(), q.weights().end()); };
    switch (c.rule) {
      case 0: take(GaussLegendre<T, U>(n)); break;
      case 1: take(GaussLobatto<T, U>(n)); break;
      case 2: take(GaussChebyshev1<T, U>(n)); break;
      case 3: take(GaussChebyshev2<T, U>(n)); break;
      case 4: take(GaussChebyshev2Modified<T, U>(n)); break;
      case 5: take(GaussChebyshev3<T, U>(n)); break;
      case 6: take(UniformTrapezoid<T, U>(n, T(-1.5), T(c.R))); break;
      case 7: take(Becke<T, U>(n, c.R)); break;
      case 8: take(MurrayHandyLaming<T, U>(n, c.R)); break;
      case 9: take(MuraKnowles<T, U>(n, c.R)); break;
      default: take(TreutlerAhlrichs<T, U>(n, c.R)); break;
    }
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    static const char* nm[] = {"GaussLegendre", "GaussLobatto", "GaussChebyshev1", "GaussChebyshev2", "GaussChebyshev2Modified", "GaussChebyshev3", "UniformTrapezoid", "Becke", "MurrayHandyLaming", "MuraKnowles", "TreutlerAhlrichs"};
    if (c.n < 2 || c.R <= 0 || c.prec < 0 || c.prec >= NT) return pbt::pass();
    x.nontrivial = true;
    x.label(TN[c.prec]);
    std::vector<ld> p, w, q, v;
    make<double, double>(c, q, v);
    using L = long double;
    switch (c.prec) {
      case 0: make<float, float>(c, p, w); break;
      case 1: make<L, L>(c, p, w); break;
      case 2: make<float, double>(c, p, w); break;
      case 3: make<double, float>(c, p, w); break;
      case 4: make<double, L>(c, p, w); break;
      case 5: make<L, double>(c, p, w); break;
      default: make<float, L>(c, p, w); break;
    }
    const size_t n = size_t(c.n);
    PBT_REQUIRE(p.size() == n && w.size() == n, "%s(%zu) has %zu points, %zu weights", nm[c.rule], n, p.size(), w.size());
    const ld eps = c.prec == 1 || c.prec == 4 || c.prec == 5 ? 2.3e-16L : 1.2e-7L;
    ld wmax = 0;
    for (auto e : v) wmax = std::max(wmax, e);
    for (size_t i = 0; i < n; ++i) {
      PBT_REQUIRE(std::isfinite(double(p[i])) && std::isfinite(double(w[i])), "%s<%s>(%zu): entry %zu is not finite", nm[c.rule], TN[c.prec], n, i);
      ld tp, tw;
      if (c.rule < 7) {
        // finite domains: absolute; rounding of a node near the end of the interval moves its weight by up to eps*n^2 relative
        tp = 16 * eps * (1 + c.R) * (c.rule == 6 ? 1 : 1 + ld(n) / 64);
        tw = 64 * eps * wmax * (1 + ld(n));
      } else {
        // the maps amplify node rounding by dr/dx
        const ld m = fabsl(q[i]) + c.R;
        const ld amp = 1 + (c.rule == 8 ? ld(n) : ld(n) * ld(n)) ;
        tp = 64 * eps * m * amp;
        tw = 64 * eps * (v[i] + 1e-12L) * amp * (c.rule == 8 ? 4 : 1);
      }
      PBT_REQUIRE(fabsl(p[i] - q[i]) <= tp, "%s<%s>(%zu): node %zu is %.10Lg, in double %.17Lg (allowed %.2Le)", nm[c.rule], TN[c.prec], n, i, p[i], q[i], tp);
      PBT_REQUIRE(fabsl(w[i] - v[i]) <= tw, "%s<%s>(%zu): weight %zu is %.10Lg, in double %.17Lg (allowed %.2Le)", nm[c.rule], TN[c.prec], n, i, w[i], v[i], tw);
    }
    return pbt::pass();
  }
};
PBT_MAIN(P)
