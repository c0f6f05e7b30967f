// A product of two rules: exactly one entry per pair of entries, combined by the given operation, for any operation
// and any types; the factors are untouched, and a product object owns copies of them.
#include <pbt.hpp>
#include <quads.hpp>
#include <complex>
#include <integratorxx/composite_quadratures/product_quadrature.hpp>
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include <integratorxx/quadratures/primitive.hpp>
using namespace IntegratorXX;
// a user's rule: any point type, any weight type
template <class PT, class WT> struct Any;
namespace IntegratorXX {
template <class PT, class WT> struct quadrature_traits<Any<PT, WT>> {
  using point_type = PT;
  using weight_type = WT;
  using point_container = std::vector<PT>;
  using weight_container = std::vector<WT>;
  static std::tuple<point_container, weight_container> generate(const point_container& p, const weight_container& w) { return {p, w}; }
};
}  // namespace IntegratorXX
template <class PT, class WT> struct Any : Quadrature<Any<PT, WT>> {
  Any(const std::vector<PT>& p, const std::vector<WT>& w) : Quadrature<Any<PT, WT>>(p, w) {}
  Any(const Any&) = default;
  Any(Any&&) noexcept = default;
};
using D2 = std::array<double, 2>;
using D3 = std::array<double, 3>;
struct Tensor {  // points pair up, weights multiply
  D2 operator()(const float& a, const float& b) const { return {double(a), double(b)}; }
  double operator()(const double& a, const double& b) const { return a * b; }
};
struct Tensor3 {
  D3 operator()(const D2& a, const float& b) const { return {a[0], a[1], double(b)}; }
  double operator()(const double& a, const double& b) const { return a * b; }
};
struct Odd {  // neither commutative nor the same for both sides
  double operator()(const double& a, const double& b) const { return a - 2 * b; }
};
struct Cplx {
  std::complex<double> operator()(const double& a, const double& b) const { return {a, b}; }
  std::complex<double> operator()(const std::complex<double>& a, const double& b) const { return a * b; }
  double operator()(const float& a, const float& b) const { return double(a) * b; }
};
struct Counting {  // an operation with a state of its own, created per product
  int calls = 0;
  double operator()(const double& a, const double& b) { ++calls; return a * 3 + b; }
};
struct P {
  struct Case {
    int64_t kind = 0, nest = 0;
    std::vector<double> p1, w1, p2, w2;
    template <class A> void io(A& a) { a("kind", kind); a("nest", nest); a("p1", p1); a("w1", w1); a("p2", p2); a("w2", w2); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.kind = s.range(0, 6);
    c.nest = s.range(0, 6);
    auto fill = [&](std::vector<double>& v, int64_t n) { for (int64_t i = 0; i < n; ++i) v.push_back(s.range(0, 7) ? s.coord() : v.empty() ? 1. : v[size_t(s.range(0, int64_t(v.size()) - 1))]); };
    const bool big = s.range(0, 40) == 0;
    int64_t n = s.small(0, big ? tier ? 2000 : 700 : 30), m = s.small(0, big ? 500 : 30);
    fill(c.p1, n); fill(c.w1, n); fill(c.p2, m); fill(c.w2, m);
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t n = 0; n <= 9; ++n)
      for (int64_t m = 0; m <= 9; ++m)
        for (int64_t k = 0; k < 7; ++k) {
          Case c;
          c.kind = k; c.nest = (n + m) % 4;
          for (int64_t i = 0; i < n; ++i) { c.p1.push_back(0.25 + double(i)); c.w1.push_back(1 + 0.5 * double(i)); }
          for (int64_t i = 0; i < m; ++i) { c.p2.push_back(100 - 3 * double(i)); c.w2.push_back(0.125 - double(i)); }
          if (!emit(c)) return;
        }
  }
  template <class T> static bool less(const T& a, const T& b) { return a < b; }
  static bool less(const std::complex<double>& a, const std::complex<double>& b) { return a.real() != b.real() ? a.real() < b.real() : a.imag() < b.imag(); }
  template <class X, class Y> static void sorted(std::vector<std::pair<X, Y>>& v) {
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return less(a.first, b.first) || (!less(b.first, a.first) && less(a.second, b.second)); });
  }
  template <class Op, class A, class B> struct Peek : ProductQuadrature<Op, A, B> {
    using base = ProductQuadrature<Op, A, B>;
    using base::base;
    Peek(const Peek&) = default;
    Peek(Peek&&) = default;
    auto& first() { return *this->quad1_; }
    auto& second() { return *this->quad2_; }
  };
  template <class Q> static auto data(const Q& q) { return std::make_pair(q.points(), q.weights()); }
  template <class Op, class A, class B> static pbt::Result run(const A& a, const B& b, std::optional<Quadrature<ProductQuadrature<Op, A, B>>>* out = nullptr) {
    using PQ = ProductQuadrature<Op, A, B>;
    using T = quadrature_traits<PQ>;
    const auto da = data(a); const auto db = data(b);
    auto [p, w] = T::generate(a, b);
    const size_t n = a.npts() * b.npts();
    PBT_REQUIRE(p.size() == n && w.size() == n, "product of %zu and %zu entries has %zu points and %zu weights", a.npts(), b.npts(), p.size(), w.size());
    std::vector<std::pair<typename T::point_type, typename T::weight_type>> got, want;
    Op op;
    for (size_t i = 0; i < n; ++i) got.emplace_back(p[i], w[i]);
    for (size_t i = 0; i < a.npts(); ++i)
      for (size_t j = 0; j < b.npts(); ++j) want.emplace_back(op(da.first[i], db.first[j]), op(da.second[i], db.second[j]));
    sorted(got); sorted(want);
    for (size_t i = 0; i < n; ++i) PBT_REQUIRE(got[i] == want[i], "product of %zu and %zu entries: entry %zu in sorted order is not that of the pairs", a.npts(), b.npts(), i);
    PBT_REQUIRE(data(a) == da && data(b) == db, "making the product changed a factor");
    auto again = T::generate(a, b);
    PBT_REQUIRE(std::get<0>(again) == p && std::get<1>(again) == w, "making the product again gives another one");
    Quadrature<PQ> q(static_cast<const Quadrature<A>&>(a), static_cast<const Quadrature<B>&>(b));
    PBT_REQUIRE(q.points() == p && q.weights() == w && q.npts() == n, "the product as a quadrature object differs");
    if (out) out->emplace(q);
    // the object which holds the factors
    auto x = std::make_unique<Peek<Op, A, B>>(static_cast<const Quadrature<A>&>(a), static_cast<const Quadrature<B>&>(b));
    PBT_REQUIRE(data(x->first()) == da && data(x->second()) == db, "a product object does not hold its factors");
    auto y = std::make_unique<Peek<Op, A, B>>(*x);
    if (x->first().npts()) x->first().weights()[0] = x->first().weights()[0] + typename A::weight_type(1);
    if (x->second().npts()) x->second().weights()[0] = x->second().weights()[0] + typename B::weight_type(1);
    PBT_REQUIRE(data(a) == da && data(b) == db, "editing a product object's factor reaches the original rule");
    PBT_REQUIRE(data(y->first()) == da && data(y->second()) == db, "editing a product object's factor reaches a copy");
    x.reset();
    PBT_REQUIRE(data(y->first()) == da && data(y->second()) == db, "a copy dies with its original");
    Peek<Op, A, B> z(std::move(*y));
    y.reset();
    PBT_REQUIRE(data(z.first()) == da && data(z.second()) == db, "a moved product object does not hold its factors");
    Quadrature<A> ta(static_cast<const Quadrature<A>&>(a)); Quadrature<B> tb(static_cast<const Quadrature<B>&>(b));
    Peek<Op, A, B> u(std::move(ta), std::move(tb));
    PBT_REQUIRE(data(u.first()) == da && data(u.second()) == db, "a product object made from temporaries does not hold its factors");
    return pbt::pass();
  }
  template <class T> static std::vector<T> conv(const std::vector<double>& v) { return std::vector<T>(v.begin(), v.end()); }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    if (c.p1.size() != c.w1.size() || c.p2.size() != c.w2.size()) return pbt::pass();
    static const char* nm[] = {"tensor product", "one operation for both", "complex weights", "library rules of mixed types", "three factors", "operation with a state", "product with a sub-range"};
    if (c.kind < 0 || c.kind > 6) return pbt::pass();
    x.nontrivial = c.p1.size() > 1 && c.p2.size() > 1;
    x.label(nm[c.kind]);
    const Any<double, double> a(c.p1, c.w1), b(c.p2, c.w2);
    const Any<float, double> fa(conv<float>(c.p1), c.w1), fb(conv<float>(c.p2), c.w2);
    switch (c.kind) {
      case 0: {
        auto r = run<Tensor>(fa, fb);
        return r.ok ? run<Tensor>(fa, fa) : r;
      }
      case 1: {
        auto r = run<Odd>(a, b);
        return r.ok ? run<Odd>(a, a) : r;   // one object as both factors
      }
      case 2: {
        std::vector<std::complex<double>> w;
        for (size_t i = 0; i < c.w1.size(); ++i) w.emplace_back(c.w1[i], c.p1[i]);
        return run<Cplx>(Any<float, std::complex<double>>(conv<float>(c.p1), w), fb);
      }
      case 3: return run<Tensor>(GaussLegendre<float, double>(c.p1.size()), UniformTrapezoid<float, double>(c.p2.size() + 2, -1.f, 2.f));
      case 4: {
        std::optional<Quadrature<ProductQuadrature<Tensor, Any<float, double>, Any<float, double>>>> ab;
        auto r = run<Tensor>(fa, fb, &ab);
        if (!r.ok) return r;
        std::vector<float> p3; std::vector<double> w3;
        for (int64_t i = 0; i < c.nest; ++i) { p3.push_back(float(i) * 0.5f); w3.push_back(2 - double(i)); }
        const Any<float, double> cc(p3, w3);
        using AB = ProductQuadrature<Tensor, Any<float, double>, Any<float, double>>;
        using T = quadrature_traits<ProductQuadrature<Tensor3, AB, Any<float, double>>>;
        auto [p, w] = T::generate(*ab, cc);
        std::vector<std::pair<D3, double>> got, want;
        PBT_REQUIRE(p.size() == w.size(), "%zu points and %zu weights", p.size(), w.size());
        for (size_t i = 0; i < p.size(); ++i) got.emplace_back(p[i], w[i]);
        for (size_t i = 0; i < fa.npts(); ++i) for (size_t j = 0; j < fb.npts(); ++j) for (size_t k = 0; k < p3.size(); ++k)
          want.emplace_back(D3{double(fa.points()[i]), double(fb.points()[j]), double(p3[k])}, fa.weights()[i] * fb.weights()[j] * w3[k]);
        sorted(got); sorted(want);
        PBT_REQUIRE(got == want, "product of three rules (%zu x %zu x %zu) is not the set of all triples", fa.npts(), fb.npts(), p3.size());
        return pbt::pass();
      }
      case 5: return run<Counting>(a, b);
      default: {
        if (c.p1.size() < 2) return run<Odd>(b, a);
        SubQuadrature<Any<double, double>> s(std::make_pair(size_t(1), c.p1.size()), a);
        using S = SubQuadrature<Any<double, double>>;
        auto r = run<Odd, S, Any<double, double>>(s, b);
        if (!r.ok) return r;
        return run<Odd, Any<double, double>, S>(b, s);
      }
    }
  }
};
PBT_MAIN(P)
