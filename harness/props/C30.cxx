// Running out of memory in any request surfaces as an exception: nothing crashes, nothing leaks, the inputs are
// untouched, and the same request then succeeds with the result it always has.
#include <cstdlib>
#include <new>
#include <atomic>
namespace oom {
// every allocation goes through here: the fail-th one while armed is refused
static bool armed = false, sticky = false, hit = false;
static int64_t count = 0, fail = -1, live = 0;
static constexpr size_t LIMIT = size_t(1) << 31;
static void* get(size_t n) {
  if (armed) {
    const int64_t k = count++;
    if (fail >= 0 && (k == fail || (sticky && k > fail))) { hit = true; return nullptr; }
    if (n > LIMIT) return nullptr;
  }
  void* p = malloc(n ? n : 1);
  if (p) ++live;
  return p;
}
static void put(void* p) { if (p) { --live; free(p); } }
}  // namespace oom
void* operator new(size_t n) { void* p = oom::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = oom::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return oom::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return oom::get(n); }
void operator delete(void* p) noexcept { oom::put(p); }
void operator delete[](void* p) noexcept { oom::put(p); }
void operator delete(void* p, size_t) noexcept { oom::put(p); }
void operator delete[](void* p, size_t) noexcept { oom::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { oom::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { oom::put(p); }

#include <pbt.hpp>
#include <match.hpp>
#include <s2_bridge.hpp>
#include <s2_sizes.inc>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/generators/spherical_factory.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace IntegratorXX;
// the result of a request, reduced to numbers without allocating
struct Dig {
  uint64_t h = 1469598103934665603ull;
  int64_t n = 0;
  void b(const void* p, size_t k) { for (size_t i = 0; i < k; ++i) { h ^= static_cast<const unsigned char*>(p)[i]; h *= 1099511628211ull; } }
  void u(uint64_t v) { b(&v, sizeof v); }
  template <class PC, class WC> void q(const PC& p, const WC& w) { n += int64_t(p.size()); u(p.size()); u(w.size()); b(p.data(), p.size() * sizeof(p[0])); b(w.data(), w.size() * sizeof(w[0])); }
  template <class Q> void quad(const Q& x) { q(x.points(), x.weights()); }
};
static constexpr RadialQuad rqs[4] = {RadialQuad::Becke, RadialQuad::MuraKnowles, RadialQuad::MurrayHandyLaming, RadialQuad::TreutlerAhlrichs};
static constexpr AngularQuad aqs[4] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
static constexpr PruningScheme ss[3] = {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler};
struct P {
  static constexpr int64_t NK = 42;
  struct Case {
    int64_t kind = 0, n = 1, rad = 0, fam = 0, size = 0, v = 0, k = 0, sticky = 0;
    template <class A> void io(A& s) { s("kind", kind); s("n", n); s("rad", rad); s("fam", fam); s("size", size); s("v", v); s("k", k); s("sticky", sticky); }
  };
  static Case gen(pbt::Src& s, int) {
    Case c;
    c.kind = s.range(0, NK - 1);
    c.n = s.small(1, 60);
    c.rad = s.range(0, 3);
    c.fam = s.range(0, 3);
    c.size = s.range(0, 9);
    c.v = s.range(0, 11);
    c.k = s.small(0, 80);
    c.sticky = s.range(0, 1);
    if (c.kind == 31) c.n = s.coin() ? s.range(int64_t(1) << 33, int64_t(1) << 40) : s.range(int64_t(1) << 33, int64_t(1) << 62);
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t kd = 0; kd < NK; ++kd)
      for (int64_t k = 0; k < 24; ++k) {
        Case c;
        c.kind = kd; c.n = kd == 31 ? (int64_t(1) << (34 + k)) : 5 + k % 3; c.rad = k % 4; c.fam = k / 4 % 4; c.size = k % 5; c.v = k % 12; c.k = k; c.sticky = k % 2;
        if (!emit(c)) return;
      }
  }
  using S = SphericalQuadrature<AnyRad, AnyAng>;
  using PS = PrunedSphericalQuadrature<AnyRad, AnyAng>;
  using B = SphericalQuadratureBase<std::vector<V3>, std::vector<double>>;
  using MB = SphericalMicroBatcher<std::vector<V3>, std::vector<double>>;
  using RGP = RadialGridPartition<AnyAng>;
  // objects made before the request, which it may only read
  struct Env {
    std::unique_ptr<AnyRad> r;
    std::unique_ptr<AnyAng> a, a2;
    std::unique_ptr<RGP> g;
    std::shared_ptr<S> s;
    std::shared_ptr<PS> ps;
    std::shared_ptr<MB> mb;
    std::unique_ptr<RadialTraits> t;
    std::unique_ptr<UnprunedSphericalGridSpecification> u;
    std::unique_ptr<PrunedSphericalGridSpecification> p;
    std::string name;
  };
  static Env make_env(const Case& c) {
    Env e;
    const size_t n = c.kind == 31 ? 3 : size_t(c.n);
    std::vector<double> rp, rw, aw, bw;
    std::vector<V3> ap, bp;
    for (size_t i = 0; i < n; ++i) { rp.push_back(0.5 + double(i)); rw.push_back(1.0 / double(i + 2)); }
    for (int64_t j = 0; j < 3 + c.v; ++j) { ap.push_back({0.1 * double(j + 1), 1 - 0.05 * double(j), -0.3 * double(j)}); aw.push_back(1 + 0.1 * double(j)); }
    for (int64_t j = 0; j < 2 + c.size; ++j) { bp.push_back({0.2 * double(j + 1), 1 - 0.15 * double(j), 0.3 * double(j)}); bw.push_back(2 + 0.1 * double(j)); }
    e.r = std::make_unique<AnyRad>(rp, rw);
    e.a = std::make_unique<AnyAng>(ap, aw);
    e.a2 = std::make_unique<AnyAng>(bp, bw);
    e.g = std::make_unique<RGP>();
    e.g->add_quad(*e.r, 0, *e.a);
    if (n > 1) e.g->add_quad(*e.r, n / 2, *e.a2);
    e.g->finalize(*e.r);
    const V3 cen{1, -2, 0.5};
    e.s = std::make_shared<S>(*e.r, *e.a, cen);
    e.ps = std::make_shared<PS>(*e.r, *e.g, cen);
    e.mb = std::make_shared<MB>(size_t(2 + c.v), *e.s);
    e.t = make_radial_traits(rqs[c.rad], n, 1.0 + 0.25 * double(c.v));
    e.u = std::make_unique<UnprunedSphericalGridSpecification>(rqs[c.rad], *e.t, aqs[c.fam], size(c));
    e.p = std::make_unique<PrunedSphericalGridSpecification>(rqs[c.rad], *e.t, regions(c));
    e.name = "";
    return e;
  }
  static size_t size(const Case& c) { return size_t(PUBLISHED[c.fam][size_t(c.size) % std::min<size_t>(8, PUBLISHED[c.fam].size())].second); }
  static std::vector<PruningRegion> regions(const Case& c) {
    const size_t n = c.kind == 31 ? 3 : size_t(c.n);
    std::vector<PruningRegion> v;
    const size_t s0 = size_t(PUBLISHED[c.fam][0].second);
    if (n > 1) { v.push_back({0, n / 2, aqs[c.fam], s0}); v.push_back({n / 2, n, aqs[c.fam], size(c)}); }
    else v.push_back({0, n, aqs[c.fam], size(c)});
    return v;
  }
  static void env_digest(const Env& e, Dig& d) {
    d.quad(*e.r); d.quad(*e.a); d.quad(*e.a2); d.quad(*e.s); d.quad(*e.ps); d.q(e.mb->points(), e.mb->weights()); d.u(e.mb->nbatches());
    d.b(e.s->center().data(), 24); d.b(e.ps->center().data(), 24);
    for (auto it = e.g->cbegin(); it != e.g->cend(); ++it) { auto v = *it; d.u(v.first.first); d.u(v.first.second); d.quad(v.second); }
    d.u(e.t->npts()); d.u(e.u->angular_size); d.u(e.u->radial_traits->npts()); d.u(e.p->radial_traits->npts()); d.u(e.p->pruning_regions.size());
    for (auto& r : e.p->pruning_regions) { d.u(r.idx_st); d.u(r.idx_en); d.u(uint64_t(r.angular_quad)); d.u(r.angular_size); }
  }
  static void batches(MB& b, Dig& d) {
    d.u(b.nbatches());
    for (size_t i = 0; i < b.nbatches(); ++i) { auto [lo, up, p, w] = b.at(i); d.b(lo.data(), 24); d.b(up.data(), 24); d.q(p, w); }
  }
  // a change of an object that runs out of memory half-way, and is then asked for again while there is memory
  template <class F> static void persist(F f) {
    try { f(); }
    catch (const std::bad_alloc&) {
      struct Pause { bool a = oom::armed; Pause() { oom::armed = false; } ~Pause() { oom::armed = a; } } pause;
      f();
    }
  }
  static void look(const RGP& g, Dig& d) { for (auto it = g.cbegin(); it != g.cend(); ++it) { d.u(*it.idx_it); d.u(*(it.idx_it + 1)); d.quad(*it.quad_it); } }
  static void request(const Case& c, const Env& e, Dig& d) {
    const size_t n = size_t(c.n), n2 = std::max<size_t>(2, n);
    const double R = 1.0 + 0.25 * double(c.v);
    switch (c.kind) {
      case 0: d.quad(GaussLegendre<double, double>(n)); break;
      case 1: d.quad(GaussLobatto<double, double>(n2)); break;
      case 2: d.quad(GaussChebyshev1<double, double>(n)); break;
      case 3: d.quad(GaussChebyshev2<double, double>(n)); break;
      case 4: d.quad(GaussChebyshev2Modified<double, double>(n)); break;
      case 5: d.quad(GaussChebyshev3<double, double>(n)); break;
      case 6: d.quad(UniformTrapezoid<double, double>(n2, -1., 2.)); break;
      case 7: d.quad(Becke<double, double>(n, R)); break;
      case 8: d.quad(MurrayHandyLaming<double, double>(n, R)); break;
      case 9: d.quad(MuraKnowles<double, double>(n, R)); break;
      case 10: d.quad(TreutlerAhlrichs<double, double>(n, R)); break;
      case 11: { auto g = s2::make(c.fam, size(c)); d.q(g.p, g.w); break; }
      case 12: { auto g = RadialFactory::generate(rqs[c.rad], *e.t); d.quad(*g); break; }
      case 13: { auto g = S2Factory::generate(aqs[c.fam], size(c)); d.quad(*g); break; }
      case 14: { auto g = SphericalGridFactory::generate_grid(*e.u); d.quad(*g); break; }
      case 15: { auto g = SphericalGridFactory::generate_grid(*e.p); d.quad(*g); break; }
      case 16: {
        UnprunedSphericalGridSpecification u(*e.u);
        u.angular_size = size_t(PUBLISHED[c.fam][std::min<size_t>(PUBLISHED[c.fam].size() - 1, 7)].second);
        auto p = create_pruned_spec(ss[c.v % 3], u);
        for (auto& r : p.pruning_regions) { d.u(r.idx_st); d.u(r.idx_en); d.u(uint64_t(r.angular_quad)); d.u(r.angular_size); }
        auto g = SphericalGridFactory::generate_grid(p);
        d.quad(*g);
        break;
      }
      case 17: { S s(*e.r, *e.a, V3{1, 2, 3}); d.quad(s); S t(std::move(s)); d.quad(t); break; }
      case 18: { PS s(*e.r, *e.g, V3{1, 2, 3}); d.quad(s); PS t(std::move(s)); d.quad(t); break; }
      case 19: { S s(*e.s); d.quad(s); auto cl = s.clone(); d.quad(*cl); cl->recenter({3, 2, 1}); d.quad(*cl); break; }
      case 20: { PS s(*e.ps); d.quad(s); auto cl = s.clone(); d.quad(*cl); cl->recenter({3, 2, 1}); d.quad(*cl); break; }
      case 21: case 22: {
        RGP g;
        g.add_quad(*e.r, 0, *e.a2);
        if (n > 2) g.add_quad(*e.r, 1, *e.a);
        if (n > 4) g.add_quad(*e.r, 3, *e.a2);
        g.finalize(*e.r);
        RGP h(g);
        if (c.kind == 22) { h = *e.g; g = std::move(h); h = g; }
        for (auto it = h.cbegin(); it != h.cend(); ++it) { auto v = *it; d.u(v.first.first); d.u(v.first.second); d.quad(v.second); }
        for (auto it = h.begin(); it != h.end(); ++it) { auto v = *it; d.u(v.first.first); d.quad(v.second); }
        break;
      }
      case 23: { auto b = make_batcher(size_t(1 + c.v), *e.s); batches(b, d); break; }
      case 24: { S t(*e.s); auto b = make_batcher(size_t(1 + c.v), std::move(t)); batches(b, d); break; }
      case 25: { std::shared_ptr<B> t = e.ps->clone(); MB b(size_t(1 + c.v), t); batches(b, d); break; }
      case 26: { auto b = e.mb->clone(); b.recenter({0.5, 1, -3}); batches(b, d); MB m(std::move(b)); batches(m, d); break; }
      case 27: {
        PrunedSphericalGridSpecification p(*e.p), q;
        q = p;
        d.u(q == *e.p);
        p.pruning_regions.clear();
        q = p;
        UnprunedSphericalGridSpecification u(*e.u), v(std::move(u));
        auto t = e.t->clone();
        d.u(q == *e.p); d.u(t->compare(*e.t)); d.u(v.radial_traits->npts());
        break;
      }
      case 28: {
        static const char* const rn[] = {"MurrayHandyLaming", "murrayhandylaming", "TreutlerAhlrichs", "becke", "MURAKNOWLES"};
        static const char* const an[] = {"LebedevLaikov", "lebedevlaikov", "AhrensBeylkin", "womersley", "DELLEY"};
        d.u(uint64_t(radial_from_string(rn[c.v % 5])));
        d.u(uint64_t(angular_from_string(an[c.v % 5])));
        break;
      }
      case 29: {  // refused whatever the memory: the refusal is part of the result
        bool th = false;
        const size_t bad = size(c) + 1 + (size(c) == 12);
        const auto rq = rqs[c.rad];
        const auto aq = aqs[c.fam];
        try {
          switch (c.v) {
            case 0: { auto g = S2Factory::generate(aq, bad); d.quad(*g); break; }
            case 1: d.u(uint64_t(radial_from_string("no such radial quadrature"))); break;
            case 2: d.u(uint64_t(angular_from_string("no such angular quadrature"))); break;
            case 3: { auto g = SphericalGridFactory::generate_unpruned_grid(rq, *e.t, aq, bad); d.quad(*g); break; }
            case 4: { auto g = SphericalGridFactory::generate_pruned_grid(rq, *e.t, {}); d.quad(*g); break; }
            case 5: { auto g = SphericalGridFactory::generate_pruned_grid(rq, *e.t, {{0, n, aq, bad}}); d.quad(*g); break; }
            case 6: { auto g = SphericalGridFactory::generate_unpruned_grid(rqs[(c.rad + 1) % 4], *e.t, aq, size(c)); d.quad(*g); break; }
            case 7: { if (n < 2) { th = true; break; } auto g = SphericalGridFactory::generate_pruned_grid(rq, *e.t, {{0, 1, aq, size(c)}, {1, n, aqs[(c.fam + 1) % 4], size(c)}}); d.quad(*g); break; }
            case 8: { auto b = make_batcher(0, *e.s); d.u(b.nbatches()); break; }
            case 9: { auto [lo, up, p, w] = e.mb->at(e.mb->nbatches()); d.q(p, w); break; }
            case 10: { auto g = RadialFactory::generate(RadialQuad(0x77), *e.t); d.quad(*g); break; }
            default: { d.b(&e.s->points()[0], 8); const QuadratureBase<std::vector<V3>, std::vector<double>>& q = *e.s; auto p = q.points(q.npts()); d.b(p.data(), 24); }
          }
        } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { th = true; }
        d.u(th);
        break;
      }
      case 30: {
        const SubQuadrature<AnyRad> sq(std::pair<size_t, size_t>(n / 3, n), *e.r);
        d.quad(sq);
        const Quadrature<AnyRad> gq(*e.r);
        d.quad(gq);
        Becke<double, double> b(n, R);
        Quadrature<Becke<double, double>> bb(std::move(b));
        d.quad(bb);
        break;
      }
      case 31: {  // more entries than any machine holds
        switch (c.v) {
          case 0: d.quad(GaussLegendre<double, double>(n)); break;
          case 1: d.quad(GaussLobatto<double, double>(n)); break;
          case 2: d.quad(GaussChebyshev1<double, double>(n)); break;
          case 3: d.quad(GaussChebyshev2<double, double>(n)); break;
          case 4: d.quad(GaussChebyshev2Modified<double, double>(n)); break;
          case 5: d.quad(GaussChebyshev3<double, double>(n)); break;
          case 6: d.quad(UniformTrapezoid<double, double>(n, 0., 1.)); break;
          case 7: d.quad(Becke<double, double>(n, R)); break;
          case 8: d.quad(MurrayHandyLaming<double, double>(n, R)); break;
          case 9: d.quad(MuraKnowles<double, double>(n, R)); break;
          case 10: d.quad(TreutlerAhlrichs<double, double>(n, R)); break;
          default: { auto t = make_radial_traits(rqs[c.rad], n, R); auto g = SphericalGridFactory::generate_unpruned_grid(rqs[c.rad], *t, aqs[c.fam], size(c)); d.quad(*g); }
        }
        break;
      }
      case 32: { auto g = SphericalGridFactory::generate_unpruned_grid(AnyRad(*e.r), *e.a); d.quad(*g); auto b = MB(size_t(2 + c.v), std::shared_ptr<B>(g)); batches(b, d); break; }
      case 34: { S g(*e.s); persist([&] { g.recenter({3, 2, 1}); }); d.b(g.center().data(), 24); d.quad(g); persist([&] { g.recenter({0.5, 2, 1}); }); d.b(g.center().data(), 24); d.quad(g); break; }
      case 35: { PS g(*e.ps); B& b = g; persist([&] { b.recenter({3, 2, 1}); }); d.b(g.center().data(), 24); d.quad(g); persist([&] { b.recenter({0.5, 2, 1}); }); d.b(g.center().data(), 24); d.quad(g); break; }
      case 36: { MB b(e.mb->clone()); persist([&] { b.recenter({0.5, 1, -3}); }); d.u(b.nbatches()); d.q(b.points(), b.weights()); d.b(b.quadrature().center().data(), 24); break; }
      case 37: { RGP g; g.add_quad(*e.r, 0, *e.a2); g.finalize(*e.r); persist([&] { g = *e.g; }); look(g, d); break; }
      case 38: {  // a partition put together piece by piece
        RGP g;
        persist([&] { g.add_quad(*e.r, 0, *e.a2); });
        if (n > 2) persist([&] { g.add_quad(*e.r, 1, *e.a); });
        if (n > 4) persist([&] { g.add_quad(*e.r, 3, *e.a2); });
        if (n > 9) persist([&] { g.add_quad(*e.r, 8, *e.a); });
        persist([&] { g.finalize(*e.r); });
        look(g, d);
        break;
      }
      case 39: {
        PrunedSphericalGridSpecification q(rqs[(c.rad + 1) % 4], e.t->clone(), std::vector<PruningRegion>{});
        persist([&] { q = *e.p; });
        d.u(q == *e.p); d.u(q.pruning_regions.size()); d.u(uint64_t(q.radial_quad));
        persist([&] { q = q; });
        d.u(q == *e.p);
        break;
      }
      case 40: {  // the failed assignment leaves a partition that can still be used
        RGP g; g.add_quad(*e.r, 0, *e.a2); g.finalize(*e.r);
        bool failed = false;
        try { g = *e.g; } catch (const std::bad_alloc&) { failed = true; }
        if (failed) {
          struct Pause { bool a = oom::armed; Pause() { oom::armed = false; } ~Pause() { oom::armed = a; } } pause;
          size_t k = 0;
          for (auto it = g.cbegin(); it != g.cend() && k < 9; ++it) ++k;
          if (k != 1) throw 1;
        }
        g = *e.g;
        look(g, d);
        break;
      }
      case 41: {  // several grids, each made in place of the one before
        std::shared_ptr<B> g;
        for (int i = 0; i < 3; ++i) persist([&] { g = i % 2 ? e.ps->clone() : e.s->clone(); g->recenter({0.5 * i, 1, 2}); });
        d.quad(*g);
        std::unique_ptr<MB> b;
        persist([&] { b = std::make_unique<MB>(size_t(3 + c.v), g); });
        d.u(b->nbatches()); d.q(b->points(), b->weights());
        break;
      }
      default: { auto g = SphericalGridFactory::generate_pruned_grid(*e.r, RGP(*e.g)); d.quad(*g); auto h = g->clone(); d.quad(*h); break; }
    }
  }
  enum { OK = 0, BAD_ALLOC = 1, STD = 2, OTHER = 3 };
  // one request with the k-th allocation refused (k < 0: none)
  static int attempt(const Case& c, const Env& e, int64_t k, bool sticky, Dig& d) {
    using namespace oom;
    d = Dig();
    fail = k; oom::sticky = sticky; hit = false; count = 0; armed = true;
    int r = OK;
    try { request(c, e, d); }
    catch (const std::bad_alloc&) { r = BAD_ALLOC; }
    catch (const std::exception&) { r = STD; }
    catch (...) { r = OTHER; }
    armed = false;
    return r;
  }
  // in a process which has not yet made any request
  static std::string child(const Case& c, bool cold_fault, Dig& ref) {
    const Env e = make_env(c);
    Dig before, after, d;
    env_digest(e, before);
    const bool toobig = c.kind == 31;
    auto intact = [&]() { after = Dig(); env_digest(e, after); return after.h == before.h; };
    if (cold_fault) {
      const int r = attempt(c, e, c.k, c.sticky, d);
      if (r == OTHER || (r == STD && !toobig)) return "an exhausted memory is reported by something else than bad_alloc";
      if (!intact()) return "a request that ran out of memory changed its inputs";
    }
    int r = attempt(c, e, -1, false, ref);
    if (toobig) { if (r != BAD_ALLOC && r != STD) return "a rule with more entries than any machine holds is not refused"; }
    else if (r != OK) return "the request fails although there is memory";
    if (!intact()) return "the request changed its inputs";
    const int64_t l0 = oom::live;
    r = attempt(c, e, -1, false, d);
    const int64_t total = oom::count;
    if (d.h != ref.h) return "repeating the request gives another result";
    if (oom::live != l0) return pbt::fmt("the request leaks %lld allocations", (long long)(oom::live - l0));
    // every allocation (of very many: an even sample)
    const int64_t step = std::max<int64_t>(1, total / 150);
    for (int64_t k = c.k % step; k < total; k += step) {
      r = attempt(c, e, k, c.sticky, d);
      if (r == OTHER || (r == STD && !toobig)) return pbt::fmt("refusing allocation %lld of %lld is reported by something else than bad_alloc", (long long)k, (long long)total);
      if (r == OK && (d.h != ref.h || toobig)) return pbt::fmt("refusing allocation %lld of %lld silently changes the result", (long long)k, (long long)total);
      if (oom::live != l0) return pbt::fmt("refusing allocation %lld of %lld leaks %lld allocations", (long long)k, (long long)total, (long long)(oom::live - l0));
      if (!intact()) return pbt::fmt("refusing allocation %lld of %lld changes the inputs", (long long)k, (long long)total);
    }
    r = attempt(c, e, -1, false, d);
    if (d.h != ref.h) return "after running out of memory the request gives another result";
    return "";
  }
  struct Msg { uint64_t h; int64_t n, total; char why[400]; };
  static pbt::Result forked(const Case& c, bool cold, Msg& m) {
    int p[2];
    if (pipe(p)) return pbt::pass();
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      Dig ref;
      std::string w;
      memset(&m, 0, sizeof m);
      try { w = child(c, cold, ref); } catch (...) { w = "preparing the request fails"; }
      m.h = ref.h; m.n = ref.n; m.total = oom::count;
      snprintf(m.why, sizeof m.why, "%s", w.c_str());
      (void)!write(p[1], &m, sizeof m);
      _exit(0);
    }
    close(p[1]);
    ssize_t got = 0, k;
    while (size_t(got) < sizeof m && (k = read(p[0], reinterpret_cast<char*>(&m) + got, sizeof m - size_t(got))) > 0) got += k;
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (size_t(got) != sizeof m) return pbt::fail(pbt::fmt("request kind %lld: the process ends (status %d) when memory runs out", (long long)c.kind, st));
    if (m.why[0]) return pbt::fail(pbt::fmt("request kind %lld: %s", (long long)c.kind, m.why));
    return pbt::pass();
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    if (c.n < 1 || c.kind < 0 || c.kind >= NK || (c.kind != 31 && c.n > 100000)) return pbt::pass();
    if (c.kind == 31 && c.n < (int64_t(1) << 33)) return pbt::pass();
    Msg a, b;
    auto r = forked(c, true, a);
    if (!r.ok) return r;
    r = forked(c, false, b);
    if (!r.ok) return r;
    PBT_REQUIRE(a.h == b.h, "request kind %lld: the result differs in a process that had run out of memory before", (long long)c.kind);
    x.nontrivial = c.kind == 31 || a.total > 1;
    x.label(pbt::fmt("kind %lld", (long long)c.kind));
    x.label(c.sticky ? "memory stays exhausted" : "one allocation refused");
    return pbt::pass();
  }
};
PBT_MAIN(P)
