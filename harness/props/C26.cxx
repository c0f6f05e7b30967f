// Generation is a pure function of its arguments: repeating a request gives bit-identical results whatever was
// generated, modified or refused before, in the same thread or concurrently in others.
#include <pbt.hpp>
#include <s2_sizes.inc>
#include <integratorxx/generators/spherical_factory.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/util/bound_transform.hpp>
#include <integratorxx/util/legendre.hpp>
#include <thread>
using namespace IntegratorXX;
using V3 = std::array<double, 3>;
using SB = SphericalQuadratureBase<std::vector<V3>, std::vector<double>>;
using MB = SphericalMicroBatcher<std::vector<V3>, std::vector<double>>;
// objects which all threads read
struct Shared {
  GaussLegendre<double, double> rule{9};
  TreutlerAhlrichs<double, double> radial{7, 1.25};
  LebedevLaikov<double> angular{26};
  SphericalQuadrature<TreutlerAhlrichs<double, double>, LebedevLaikov<double>> sphere{radial, angular, V3{0.5, -1, 2}};
  std::unique_ptr<RadialTraits> traits = make_radial_traits(RadialQuad::MuraKnowles, 11, 1.5);
  UnprunedSphericalGridSpecification unpruned{RadialQuad::MuraKnowles, *traits, AngularQuad::Delley, AngularSize(50)};
  PrunedSphericalGridSpecification pruned = create_pruned_spec(PruningScheme::Robust, unpruned);
  RadialGridPartition<LebedevLaikov<double>> partition{radial, 0, angular, 3, LebedevLaikov<double>(14)};
  MB batcher{5, sphere};
};
struct Req {
  int64_t kind = 0, n = 2, a = 0, b = 0;
  template <class A> void io(A& s) { s("kind", kind); s("n", n); s("a", a); s("b", b); }
};
struct Mix { double operator()(const double& a, const double& b) const { return 3 * a - b / 7; } };
struct P {
  static constexpr int64_t NK = 30;  // kinds of request; any other number is one that is refused
  struct Case {
    int64_t threads = 1;
    int64_t fill = 0, salt = 0;   // number of other requests served between the first time and the repetition
    std::vector<Req> reqs;
    template <class A> void io(A& s) { s("threads", threads); s("fill", fill); s("salt", salt); s("reqs", reqs); }
  };
  static Case gen(pbt::Src& s, int) {
    Case c;
    c.threads = s.coin() ? 1 : s.range(2, 6);
    c.reqs = pbt::vec<Req>(s, 2, 14, [](pbt::Src& q) {
      Req r;
      r.kind = q.range(0, NK - 1);
      r.n = q.small(2, 80);
      r.a = q.range(0, 15);
      r.b = q.range(0, 11);
      if ((r.kind == 9 || r.kind == 10) && q.range(0, 2) == 0) r.b = q.range(0, 127);
      return r;
    });
    if (s.range(0, 19) == 19) { c.fill = s.small(1, 600); c.salt = s.range(0, 1000); }
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t k = 0; k < NK; ++k)
      for (int64_t n : {2, 3, 17, 64})
        for (int64_t t : {1, 4}) {
          Case c;
          c.threads = t;
          c.reqs = {{k, n, 1, 2}, {k, n + 1, 2, 2}, {(k + 5) % NK, n, 0, 0}, {k, n, 1, 2}};
          if (!emit(c)) return;
        }
    // long histories in between
    for (int64_t k = 0; k < NK; ++k)
      for (int64_t f : {60, 600, 4000}) {
        Case c;
        if (k >= 11 && k <= 13) c.fill = f / 4; else c.fill = f;
        c.salt = f == 600 ? 2 * k : 2 * k + 1;
        c.reqs = {{k, 5, 1, 2}, {k, 33, 2, 2}, {k, 33, 6, 1}};
        if (!emit(c)) return;
      }
  }
  // other requests: one kind with ever new parameters, or all kinds in turn
  static Req filler(int64_t i, int64_t salt) {
    Req r;
    r.kind = salt % 2 ? salt / 2 % NK : (i * 7 + salt) % NK;
    const bool big = r.kind >= 11 && r.kind <= 13;
    r.n = 2 + (salt % 3 ? i : i * 37 + salt) % (big ? 24 : salt % 5 ? 120 : 500);
    r.a = (i * 5 + salt) % 16;
    r.b = (i / 3 + salt) % (big ? 6 : r.kind == 24 ? 20 : 128);
    return r;
  }
  using Out = std::vector<double>;
  static void take(Out& o, const std::vector<double>& p, const std::vector<double>& w) { o.insert(o.end(), p.begin(), p.end()); o.insert(o.end(), w.begin(), w.end()); }
  static void take(Out& o, const std::vector<std::array<double, 3>>& p, const std::vector<double>& w) {
    for (auto& q : p) o.insert(o.end(), q.begin(), q.end());
    o.insert(o.end(), w.begin(), w.end());
  }
  // copies the result out, then scribbles over the returned object
  template <class Q> static void use(Out& o, Q& q) {
    take(o, q.points(), q.weights());
    for (auto& p : q.points()) { if constexpr (std::is_same_v<std::decay_t<decltype(p)>, double>) p = -77; else p = {-77, -77, -77}; }
    for (auto& w : q.weights()) w = 1e300;
  }
  template <class T> static void out(Out& o, const T& v) {  // bit for bit, also what double does not hold
    const double d = double(v);
    o.push_back(d);
    if (sizeof(T) > 8) o.push_back(double(v - T(d)));
  }
  template <class Q> static void all(Out& o, const Q& q) {
    for (auto& p : q.points()) { if constexpr (std::is_arithmetic_v<std::decay_t<decltype(p)>>) out(o, p); else for (auto& v : p) out(o, v); }
    for (auto& w : q.weights()) out(o, w);
  }
  template <class T> static void other(Out& o, const Req& r, RadialQuad rq) {
    const size_t n = size_t(r.n);
    switch (r.b % 6) {
      case 0: all(o, GaussChebyshev1<T, T>(n)); all(o, GaussChebyshev2<T, double>(n)); break;
      case 1: all(o, GaussChebyshev3<T, T>(n)); all(o, GaussChebyshev2Modified<T, T>(n)); break;
      case 2: all(o, UniformTrapezoid<T, T>(n, T(-1), T(2))); all(o, GaussLobatto<T, double>(n)); break;
      case 3: all(o, GaussLegendre<T, T>(n)); all(o, GaussLegendre<double, T>(n)); break;
      default: break;
    }
    switch (rq) {
      case RadialQuad::Becke: all(o, Becke<T, T>(n, 1.25)); break;
      case RadialQuad::MuraKnowles: all(o, MuraKnowles<T, T>(n, 1.25)); break;
      case RadialQuad::MurrayHandyLaming: all(o, MurrayHandyLaming<T, T>(n, 1.25)); break;
      default: all(o, TreutlerAhlrichs<T, T>(n, 1.25, 0.5)); break;
    }
  }
  template <class T, class A> static void sphere_of(Out& o, const Req& r, size_t size, size_t size2) {
    const Becke<T, T> rad(size_t(2 + r.n % 9), 1.5);
    const A ang(size);
    SphericalQuadrature<Becke<T, T>, A> s(rad, ang, {T(1), T(r.b), T(-2)});
    all(o, s);
    const RadialGridPartition<A> part(rad, 0, A(size2), 1, ang);
    PrunedSphericalQuadrature<Becke<T, T>, A> q(rad, part);
    q.recenter({T(r.a) / 3, T(0), T(1)});
    all(o, q);
    auto b = make_batcher(size_t(3 + r.b), s);
    b.recenter({T(0), T(2), T(r.b) / 7});
    for (auto&& [lo, up, p, w] : b) { for (auto& v : lo) out(o, v); for (auto& v : up) out(o, v); for (auto& v : p) for (auto& u : v) out(o, u); for (auto& v : w) out(o, v); }
  }
  template <class T> static void sphere(Out& o, const Req& r, int64_t fam) {
    const auto size = [&](int64_t k) { return size_t(PUBLISHED[fam][size_t(k) % 6].second); };
    switch (fam) {
      case 0: sphere_of<T, AhrensBeylkin<T>>(o, r, size(r.b), size(r.b + r.n)); break;
      case 1: sphere_of<T, Delley<T>>(o, r, size(r.b), size(r.b + r.n)); break;
      case 2: sphere_of<T, LebedevLaikov<T>>(o, r, size(r.b), size(r.b + r.n)); break;
      default: sphere_of<T, Womersley<T>>(o, r, size(r.b), size(r.b + r.n)); break;
    }
  }
  // what the factories handed out; kept alive (and scribbled over) until the end of the case
  using Kept = std::vector<std::shared_ptr<void>>;
  static Out serve(const Req& r, const Shared& sh, Kept& kept) {
    static const RadialQuad rqs[4] = {RadialQuad::Becke, RadialQuad::MuraKnowles, RadialQuad::MurrayHandyLaming, RadialQuad::TreutlerAhlrichs};
    static const AngularQuad aqs[4] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
    static const PruningScheme ss[3] = {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler};
    Out o;
    const size_t n = size_t(r.n);
    const RadialQuad rq = rqs[r.a % 4];
    const int64_t fam = r.a / 4 % 4;
    const AngularQuad aq = aqs[fam];
    const AngularSize asz = AngularSize(PUBLISHED[fam][size_t(r.b) % PUBLISHED[fam].size()].second);
    const double R = 1 + 0.5 * double(r.b % 5);
    switch (r.kind) {
      case 0: { GaussLegendre<double, double> q(n); use(o, q); break; }
      case 1: { GaussLobatto<double, double> q(n); use(o, q); break; }
      case 2: { GaussChebyshev1<double, double> q(n); use(o, q); break; }
      case 3: { GaussChebyshev2<double, double> q(n); use(o, q); break; }
      case 4: { GaussChebyshev2Modified<double, double> q(n); use(o, q); break; }
      case 5: { GaussChebyshev3<double, double> q(n); use(o, q); break; }
      case 6: { UniformTrapezoid<double, double> q(n, -R, R); use(o, q); break; }
      case 7: case 8: { auto t = make_radial_traits(rq, n, R); auto q = RadialFactory::generate(rq, *t); use(o, *q); kept.push_back(q); break; }
      case 9: case 10: { auto q = S2Factory::generate(aq, asz); use(o, *q); kept.push_back(q); break; }
      case 11: { auto t = make_radial_traits(rq, n, R); auto q = SphericalGridFactory::generate_unpruned_grid(rq, *t, aq, asz); use(o, *q); kept.push_back(q); break; }
      case 12: {
        auto t = make_radial_traits(rq, n, R);
        auto q = SphericalGridFactory::generate_grid(create_pruned_spec(ss[r.b % 3], UnprunedSphericalGridSpecification(rq, *t, aq, asz)));
        use(o, *q);
        kept.push_back(q);
        break;
      }
      case 13: {
        auto t = make_radial_traits(rq, n, R);
        auto q = SphericalGridFactory::generate_unpruned_grid(rq, *t, aq, asz);
        using B = SphericalQuadratureBase<std::vector<std::array<double, 3>>, std::vector<double>>;
        SphericalMicroBatcher<std::vector<std::array<double, 3>>, std::vector<double>> b(7 + size_t(r.b), std::shared_ptr<B>(q));
        o.push_back(double(b.nbatches()));
        for (auto it = b.begin(); it != b.end(); ++it) { auto [lo, up, p, w] = *it; take(o, p, w); o.push_back(lo[0]); o.push_back(up[2]); }
        use(o, *q);
        kept.push_back(q);
        break;
      }
      // objects shared between the threads, read only
      case 15: { auto q = sh.rule; use(o, q); take(o, sh.rule.points(), sh.rule.weights()); break; }
      case 16: { SphericalQuadrature<TreutlerAhlrichs<double, double>, LebedevLaikov<double>> q(sh.radial, sh.angular, V3{double(r.b), 1, 2}); use(o, q); break; }
      case 17: { auto q = sh.sphere.clone(); q->recenter({double(r.a), double(r.b), 0.25}); use(o, *q); kept.push_back(q); take(o, sh.sphere.points(), sh.sphere.weights()); o.push_back(sh.sphere.center()[1]); break; }
      case 18: { auto q = SphericalGridFactory::generate_grid(sh.pruned); use(o, *q); auto u = SphericalGridFactory::generate_grid(sh.unpruned); use(o, *u); kept.push_back(q); kept.push_back(u); break; }
      case 19: {
        PrunedSphericalGridSpecification s(sh.pruned);
        if (r.b % 2 && !s.pruning_regions.empty()) s.pruning_regions.back().angular_size = AngularSize(6);
        o.push_back(s == sh.pruned); o.push_back(sh.traits->compare(*s.radial_traits)); o.push_back(double(sh.traits->clone()->npts()));
        for (auto sc : ss) for (auto& g : create_pruned_spec(sc, sh.unpruned).pruning_regions) { o.push_back(double(g.idx_en)); o.push_back(double(g.angular_size)); }
        break;
      }
      case 20: {
        for (size_t i = 0; i < sh.batcher.nbatches(); ++i) { auto [lo, up, p, w] = sh.batcher.at(i); take(o, p, w); o.push_back(lo[1]); o.push_back(up[0]); }
        auto b = sh.batcher.clone();
        b.recenter({double(r.b), 0, double(r.a)});
        take(o, b.points(), b.weights());
        break;
      }
      case 21: { PrunedSphericalQuadrature<TreutlerAhlrichs<double, double>, LebedevLaikov<double>> q(sh.radial, sh.partition); use(o, q); break; }
      case 22: {
        static const char* names[4] = {"Becke", "mK", "MurrayHandyLaming", "ta"};
        static const char* anames[4] = {"ab", "Delley", "LEBEDEV", "Womersley"};
        o.push_back(double(radial_from_string(names[r.a % 4]))); o.push_back(double(angular_from_string(anames[fam])));
        auto [a, d, m] = eval_Pn(0.01 * double(r.b), n); o.insert(o.end(), {a, d, m});
        auto [y, v] = transform_minus_one_to_one(-1.0 * double(r.b), r.a % 2 ? INFINITY : R + 1, 0.25, 0.5); o.insert(o.end(), {y, v});
        break;
      }
      case 23: {
        GaussLegendre<float, float> q(n); for (size_t i = 0; i < n; ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); }
        GaussLobatto<long double, long double> l(n); for (size_t i = 0; i < n; ++i) { o.push_back(double(l.points()[i])); o.push_back(double(l.weights()[i])); }
        break;
      }
      case 24: { SubQuadrature<LebedevLaikov<double>> q(std::make_pair(size_t(r.b), size_t(r.b) + 5), sh.angular); use(o, q); break; }
      case 29: { auto t = make_radial_traits(rq, n, R); auto q = SphericalGridFactory::generate_unpruned_grid(rq, *t, aq, PUBLISHED[fam][0].second); q->recenter({R, -R, 0.5}); auto d = q->clone(); d->recenter({0, 0, R}); use(o, *d); kept.push_back(q); take(o, q->points(), q->weights()); break; }
      case 25: {
        using T = quadrature_traits<ProductQuadrature<Mix, TreutlerAhlrichs<double, double>, GaussLegendre<double, double>>>;
        auto [p, w] = T::generate(sh.radial, r.a % 2 ? sh.rule : GaussLegendre<double, double>(2 + n % 12));
        take(o, p, w);
        break;
      }
      case 26: if (r.a % 2) other<float>(o, r, rq); else other<long double>(o, r, rq); break;
      case 27: if (r.a % 2) sphere<float>(o, r, fam); else sphere<long double>(o, r, fam); break;
      case 28: {
        const int64_t k = int64_t(n) * 3 + r.b;
        auto look = [&](auto t) { using T = decltype(t); o.insert(o.end(), {double(T::npts_by_algebraic_order(k)), double(T::algebraic_order_by_npts(k)), double(T::next_algebraic_order(k))}); };
        look(quadrature_traits<AhrensBeylkin<double>>()); look(quadrature_traits<Delley<double>>()); look(quadrature_traits<LebedevLaikov<double>>()); look(quadrature_traits<Womersley<double>>());
        break;
      }
      default: {  // a refused request in between
        try { S2Factory::generate(aq, 7 + AngularSize(r.b) * 8 + 100000); } catch (const std::exception&) { o.push_back(1); }
        break;
      }
    }
    return o;
  }
  static bool same(const Out& a, const Out& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    if (c.reqs.empty()) return pbt::pass();
    int64_t T = std::max<int64_t>(1, std::min<int64_t>(c.threads, 8));
    x.label(T > 1 ? "concurrent" : "single thread");
    const Shared sh;
    std::vector<std::vector<Out>> res(static_cast<size_t>(T), std::vector<Out>(c.reqs.size()));
    std::vector<Kept> kept(size_t(T) + 1);
    if (T > 1) {  // threads first, so that any lazily initialised state is initialised concurrently
      std::vector<std::thread> th;
      for (int64_t t = 0; t < T; ++t)
        th.emplace_back([&, t] { for (size_t i = 0; i < c.reqs.size(); ++i) { size_t k = (i + size_t(t)) % c.reqs.size(); res[size_t(t)][k] = serve(c.reqs[k], sh, kept[size_t(t)]); } });
      for (auto& t : th) t.join();
    } else for (size_t i = 0; i < c.reqs.size(); ++i) res[0][i] = serve(c.reqs[i], sh, kept[0]);
    // others in between
#ifdef __SANITIZE_THREAD__
    const int64_t most = 60;   // instrumented code is too slow for more
#else
    const int64_t most = 20000;
#endif
    const int64_t fill = std::max<int64_t>(0, std::min(c.fill, most));
    if (fill) x.label("long history");
    std::vector<uint64_t> seen;
    for (int64_t i = 0; i < 2 * fill; ++i) {
      Kept k;
      const int64_t j = i % fill;
      Req r = filler(j, c.salt < 0 ? 0 : c.salt);
      Out o = serve(r, sh, k);
      uint64_t h = o.size();
      for (double v : o) { uint64_t u; memcpy(&u, &v, 8); h = (h ^ u) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
      if (i < fill) seen.push_back(h);
      PBT_REQUIRE(seen[size_t(j)] == h, "request of kind %ld, n=%ld, a=%ld, b=%ld gave different results the second time in a history of %ld", (long)r.kind, (long)r.n, (long)r.a, (long)r.b, (long)fill);
    }
    // once more, backwards
    for (size_t i = c.reqs.size(); i-- > 0;) {
      Out o = serve(c.reqs[i], sh, kept[size_t(T)]);
      for (int64_t t = 0; t < T; ++t)
        PBT_REQUIRE(same(o, res[size_t(t)][i]), "request %zu (kind %ld, n=%ld, a=%ld, b=%ld) gave different results when repeated%s", i, (long)c.reqs[i].kind, (long)c.reqs[i].n, (long)c.reqs[i].a, (long)c.reqs[i].b, T > 1 ? " (first served concurrently)" : "");
    }
    x.nontrivial = c.reqs.size() >= 2;
    return pbt::pass();
  }
};
PBT_MAIN(P)
