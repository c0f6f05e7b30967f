// Names: each documented name or abbreviation, in any capitalisation, selects its quadrature; every other
// string is refused; and a quadrature type resolves to the specifier that the factory builds it from.
#include <pbt.hpp>
#include <integratorxx/generators/spherical_factory.hpp>
#include <integratorxx/quadratures/all.hpp>
#include <array>
#include <cctype>
#include <functional>
using namespace IntegratorXX;
// A radial scheme of the user's own: no documented specifier builds it.
struct OwnTraits : RadialTraits {
  size_t n; double R;
  OwnTraits(size_t n_, double R_ = 1.0) : n(n_), R(R_) {}
  size_t npts() const override { return n; }
  std::unique_ptr<RadialTraits> clone() const override { return std::make_unique<OwnTraits>(*this); }
  bool compare(const RadialTraits& o) const noexcept override { auto p = dynamic_cast<const OwnTraits*>(&o); return p && p->n == n && p->R == R; }
  template <typename T> auto radial_transform(T x) const noexcept { return R * (1 + x); }
  template <typename T> auto radial_jacobian(T) const noexcept { return T(R); }
};
template <typename A, typename B> struct OwnQuad { using point_type = A; using weight_type = B; };
struct P {
  struct Case {
    int64_t ang = 0;
    std::string s;
    int64_t type = 0, n = 1;  // ang 2, 3: a radial or angular type instead of a name
    double R = 1;
    template <class A> void io(A& a) { a("ang", ang); a("s", s); a("type", type); a("n", n); a("R", R); }
  };
  // What a type resolves to (-1: refused), and whether it is one the factory builds in double precision.
  struct Type { const char* name; int64_t got, want; std::function<std::string(int64_t, double)> same; };
  template <class F> static int64_t specifier(F f) { try { return int64_t(f()); } catch (const std::exception&) { return -1; } }
  template <class Q> static Type rad(const char* nm, int64_t want) {
    Type t{nm, specifier([] { return radial_from_type<Q>(); }), want, nullptr};
    return t;
  }
  template <class Q, class T> static Type radb(const char* nm, RadialQuad want) {
    Type t = rad<Q>(nm, int64_t(want));
    t.same = [](int64_t n, double R) -> std::string {
      const T tr(static_cast<size_t>(n), R);
      Q q(tr);
      const RadialTraits& base = tr;
      auto g = RadialFactory::generate(radial_from_type<Q>(), base);
      if (!g || g->npts() != q.npts()) return "the run-time grid has another size";
      for (size_t i = 0; i < q.npts(); ++i)
        if (g->points()[i] != q.points()[i] || g->weights()[i] != q.weights()[i]) return pbt::fmt("entry %zu differs", i);
      return "";
    };
    return t;
  }
  template <class Q> static Type ang(const char* nm, int64_t want) { return Type{nm, specifier([] { return angular_from_type<Q>(); }), want, nullptr}; }
  template <class Q> static Type angb(const char* nm, AngularQuad want) {
    Type t = ang<Q>(nm, int64_t(want));
    t.same = [](int64_t n, double) -> std::string {
      const auto order = quadrature_traits<Q>::next_algebraic_order(1 + n % 40);
      const size_t sz = size_t(quadrature_traits<Q>::npts_by_algebraic_order(order));
      Q q(sz);
      auto g = S2Factory::generate(angular_from_type<Q>(), sz);
      if (!g || g->npts() != q.npts()) return "the run-time grid has another size";
      for (size_t i = 0; i < q.npts(); ++i)
        if (g->points()[i] != q.points()[i] || g->weights()[i] != q.weights()[i]) return pbt::fmt("entry %zu differs", i);
      return "";
    };
    return t;
  }
  static const std::vector<Type>& types(bool angular) {
    const auto B = int64_t(RadialQuad::Becke), K = int64_t(RadialQuad::MuraKnowles), H = int64_t(RadialQuad::MurrayHandyLaming), A = int64_t(RadialQuad::TreutlerAhlrichs);
    using GC2 = GaussChebyshev2<double, double>; using UT = UniformTrapezoid<double, double>;
    static const std::vector<Type> r = {
        radb<Becke<double, double>, BeckeRadialTraits>("Becke", RadialQuad::Becke), radb<MuraKnowles<double, double>, MuraKnowlesRadialTraits>("MuraKnowles", RadialQuad::MuraKnowles),
        radb<MurrayHandyLaming<double, double>, MurrayHandyLamingRadialTraits<2>>("MurrayHandyLaming", RadialQuad::MurrayHandyLaming),
        radb<TreutlerAhlrichs<double, double>, TreutlerAhlrichsRadialTraits>("TreutlerAhlrichs", RadialQuad::TreutlerAhlrichs),
        rad<Becke<float, float>>("Becke<float>", B), rad<Becke<long double, long double>>("Becke<long double>", B), rad<Becke<float, double>>("Becke<float,double>", B),
        rad<MuraKnowles<float, float>>("MuraKnowles<float>", K), rad<MuraKnowles<double, float>>("MuraKnowles<double,float>", K),
        rad<MurrayHandyLaming<float, float>>("MurrayHandyLaming<float>", H), rad<MurrayHandyLaming<long double, double>>("MurrayHandyLaming<long double,double>", H),
        rad<TreutlerAhlrichs<float, float>>("TreutlerAhlrichs<float>", A), rad<TreutlerAhlrichs<double, long double>>("TreutlerAhlrichs<double,long double>", A),
        // types that no specifier builds
        rad<RadialTransformQuadrature<UT, MurrayHandyLamingRadialTraits<1>>>("MHL with m = 1", -1), rad<RadialTransformQuadrature<UT, MurrayHandyLamingRadialTraits<3>>>("MHL with m = 3", -1),
        rad<RadialTransformQuadrature<GC2, MurrayHandyLamingRadialTraits<2>>>("MHL map on Chebyshev nodes", -1), rad<RadialTransformQuadrature<GC2, MuraKnowlesRadialTraits>>("MK map on Chebyshev nodes", -1),
        rad<RadialTransformQuadrature<GaussLegendre<double, double>, BeckeRadialTraits>>("Becke map on Legendre nodes", -1),
        rad<RadialTransformQuadrature<GaussChebyshev1<double, double>, TreutlerAhlrichsRadialTraits>>("TA map on Chebyshev-1 nodes", -1),
        rad<RadialTransformQuadrature<GC2, OwnTraits>>("own map", -1), rad<GC2>("GaussChebyshev2", -1), rad<UT>("UniformTrapezoid", -1), rad<GaussLegendre<double, double>>("GaussLegendre", -1),
        rad<OwnQuad<double, double>>("own quadrature", -1)};
    const auto ab = int64_t(AngularQuad::AhrensBeylkin), de = int64_t(AngularQuad::Delley), ll = int64_t(AngularQuad::LebedevLaikov), wo = int64_t(AngularQuad::Womersley);
    static const std::vector<Type> a = {
        angb<AhrensBeylkin<double>>("AhrensBeylkin", AngularQuad::AhrensBeylkin), angb<Delley<double>>("Delley", AngularQuad::Delley), angb<LebedevLaikov<double>>("LebedevLaikov", AngularQuad::LebedevLaikov),
        angb<Womersley<double>>("Womersley", AngularQuad::Womersley), ang<AhrensBeylkin<float>>("AhrensBeylkin<float>", ab), ang<Delley<float>>("Delley<float>", de), ang<LebedevLaikov<float>>("LebedevLaikov<float>", ll),
        ang<Womersley<float>>("Womersley<float>", wo), ang<AhrensBeylkin<long double>>("AhrensBeylkin<long double>", ab), ang<Delley<long double>>("Delley<long double>", de),
        ang<LebedevLaikov<long double>>("LebedevLaikov<long double>", ll), ang<Womersley<long double>>("Womersley<long double>", wo),
        ang<OwnQuad<std::array<double, 3>, double>>("own quadrature", -1), ang<Becke<double, double>>("Becke", -1)};
    return angular ? a : r;
  }
  static const std::vector<std::pair<std::string, int64_t>>& names(int64_t ang) {
    static const std::vector<std::pair<std::string, int64_t>> r = {
        {"becke", int64_t(RadialQuad::Becke)}, {"muraknowles", int64_t(RadialQuad::MuraKnowles)}, {"mk", int64_t(RadialQuad::MuraKnowles)},
        {"murrayhandylaming", int64_t(RadialQuad::MurrayHandyLaming)}, {"mhl", int64_t(RadialQuad::MurrayHandyLaming)},
        {"treutlerahlrichs", int64_t(RadialQuad::TreutlerAhlrichs)}, {"ta", int64_t(RadialQuad::TreutlerAhlrichs)}};
    static const std::vector<std::pair<std::string, int64_t>> a = {
        {"ahrensbeylkin", int64_t(AngularQuad::AhrensBeylkin)}, {"ab", int64_t(AngularQuad::AhrensBeylkin)}, {"delley", int64_t(AngularQuad::Delley)},
        {"lebedevlaikov", int64_t(AngularQuad::LebedevLaikov)}, {"lebedev", int64_t(AngularQuad::LebedevLaikov)}, {"ll", int64_t(AngularQuad::LebedevLaikov)},
        {"womersley", int64_t(AngularQuad::Womersley)}};
    return ang ? a : r;
  }
  static Case gen(pbt::Src& s, int) {
    Case c;
    if (s.range(0, 99) == 0) {
      c.ang = 2 + s.range(0, 1);
      c.type = s.range(0, int64_t(types(c.ang == 3).size()) - 1);
      c.n = s.range(1, 60);
      c.R = s.real(0.1, 9.0);
      return c;
    }
    c.ang = s.range(0, 1);
    if (s.range(0, 9) == 0) {
      int64_t n = s.range(0, 24);
      for (int64_t i = 0; i < n; ++i) c.s += char(s.range(0, 255));
      return c;
    }
    if (s.range(0, 19) == 0) {  // a name somewhere in a long string
      const auto& nm = s.pick(names(c.ang)).first;
      const std::string pad(size_t(s.range(1, 300)), s.pick<char>({' ', 'a', 'Z', '\0', '\t'}));
      c.s = s.coin() ? nm + pad : pad + nm;
      return c;
    }
    c.s = s.pick(names(s.range(0, 3) ? c.ang : 1 - c.ang)).first;
    for (auto& ch : c.s) if (s.coin()) ch = char(std::toupper(static_cast<unsigned char>(ch)));
    int64_t edits = s.range(0, 3);
    for (int64_t e = 0; e < edits && e < 2; ++e) {
      size_t at = c.s.empty() ? 0 : size_t(s.range(0, int64_t(c.s.size()) - 1));
      char ch = s.coin() ? char(s.range('a', 'z')) : s.pick<char>({' ', '-', '_', '\0', '\n', char(0xe9), '1', 'A'});
      switch (s.range(0, 5)) {
        case 0: c.s.insert(at, 1, ch); break;
        case 1: if (!c.s.empty()) c.s.erase(at, 1); break;
        case 2: if (!c.s.empty()) c.s[at] = ch; break;
        case 3: c.s += ch; break;
        case 4: c.s = c.s.substr(0, at); break;
        default: if (at + 1 < c.s.size()) std::swap(c.s[at], c.s[at + 1]); break;
      }
    }
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t k = 2; k < 4; ++k)
      for (size_t t = 0; t < types(k == 3).size(); ++t)
        for (int64_t n : {1, 17}) {
          Case c;
          c.ang = k; c.type = int64_t(t); c.n = n; c.R = 1.5;
          if (!emit(c)) return;
        }
    for (int64_t ang = 0; ang < 2; ++ang)
      for (auto& q : names(ang)) {
        size_t bits = std::min<size_t>(q.first.size(), 17);
        for (uint64_t m = 0; m < (uint64_t(1) << bits); m += bits > 10 ? 37 : 1) {
          Case c;
          c.ang = ang;
          c.s = q.first;
          for (size_t i = 0; i < bits; ++i) if (m >> i & 1) c.s[i] = char(std::toupper(static_cast<unsigned char>(c.s[i])));
          if (!emit(c)) return;
        }
        std::string up = q.first;
        for (auto& ch : up) ch = char(std::toupper(static_cast<unsigned char>(ch)));
        if (!emit(Case{ang, up})) return;
        for (size_t n = 0; n < up.size(); ++n) if (!emit(Case{ang, up.substr(0, n)})) return;           // every prefix
        for (size_t n = 0; n < up.size(); ++n) { auto t = up; t.erase(n, 1); if (!emit(Case{ang, t})) return; }
      }
    for (int a = 0; a < 128; ++a)
      for (int b = 0; b < 128; ++b)
        for (int64_t ang = 0; ang < 2; ++ang)
          if (!emit(Case{ang, std::string{char(a), char(b)}})) return;                                 // every two-letter ASCII string
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    if (c.ang >= 2) {
      const auto& ts = types(c.ang == 3);
      const Type& t = ts[size_t(c.type) % ts.size()];
      x.nontrivial = true;
      x.label(t.want < 0 ? "type without a specifier" : "type with a specifier");
      PBT_REQUIRE(t.got == t.want, "type %s resolves to specifier %ld, expected %ld (-1: refused)", t.name, (long)t.got, (long)t.want);
      if (t.same) {
        const std::string d = t.same(c.n < 1 ? 1 : c.n, c.R);
        PBT_REQUIRE(d.empty(), "type %s resolves to a specifier that builds another quadrature: %s", t.name, d.c_str());
      }
      return pbt::pass();
    }
    std::string low = c.s;
    for (auto& ch : low) if (ch >= 'A' && ch <= 'Z') ch = char(ch + 32);
    int64_t want = -1;
    for (auto& q : names(c.ang)) if (q.first == low) want = q.second;
    x.nontrivial = !c.s.empty();
    x.label(want >= 0 ? "documented name" : "other string");
    const std::string asked = c.s;
    const auto ask = [&] { return specifier([&] { return c.ang ? int64_t(angular_from_string(asked)) : int64_t(radial_from_string(asked)); }); };
    const int64_t first = ask(), second = ask(), got = first == want ? second : first;
    PBT_REQUIRE(asked == c.s, "the name was changed");
    PBT_REQUIRE(got == want, "%s name \"%s\" selects %ld, expected %ld (-1: refused)", c.ang ? "angular" : "radial", c.s.c_str(), (long)got, (long)want);
    return pbt::pass();
  }
};
PBT_MAIN(P)
