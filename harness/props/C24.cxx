// Malformed requests are refused with an exception - never a crash, an abort or a grid - and leave the library
// able to serve the next well-formed request exactly as before.
#include <pbt.hpp>
#include <match.hpp>
#include <s2_bridge.hpp>
#include <s2_sizes.inc>
#include <integratorxx/generators/spherical_factory.hpp>
using namespace IntegratorXX;
struct Bad {
  int64_t kind = 0, rad = 0, fam = 0, a = 0, b = 0;
  template <class A> void io(A& s) { s("kind", kind); s("rad", rad); s("fam", fam); s("a", a); s("b", b); }
};
struct P {
  struct Case {
    std::vector<Bad> reqs;
    template <class A> void io(A& s) { s("reqs", reqs); }
  };
  static constexpr int64_t NK = 18;
  static Case gen(pbt::Src& s, int) {
    Case c;
    c.reqs = pbt::vec<Bad>(s, 1, !s.range(0, 59) ? 120 : 8, [](pbt::Src& q) {
      Bad b;
      b.kind = q.range(0, NK - 1);
      b.rad = q.range(0, 3); b.fam = q.range(0, 3);
      b.a = q.small(0, int64_t(1) << 33);
      b.b = q.range(0, 63);
      return b;
    });
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t k = 0; k < NK; ++k)
      for (int64_t r = 0; r < 4; ++r)
        for (int64_t f = 0; f < 4; ++f)
          for (int64_t b = 0; b < 12; ++b) {
            Case c;
            c.reqs = {{k, r, f, b * 37 + 1, b}};
            if (!emit(c)) return;
          }
  }
  static constexpr RadialQuad rqs[4] = {RadialQuad::Becke, RadialQuad::MuraKnowles, RadialQuad::MurrayHandyLaming, RadialQuad::TreutlerAhlrichs};
  static constexpr AngularQuad aqs[4] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
  static constexpr PruningScheme ss[3] = {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler};
  static bool valid_size(int64_t f, int64_t n) { for (auto& q : PUBLISHED[f]) if (q.second == n) return true; return false; }
  static int64_t bad_size(int64_t f, int64_t a) { while (valid_size(f, a)) ++a; return a; }
  static RadialQuad bad_rq(int64_t a) { uint32_t v = uint32_t(a); while (v == 0x10 || v == 0x20 || v == 0x30 || v == 0x40) ++v; return RadialQuad(v); }
  static AngularQuad bad_aq(int64_t a) { uint32_t v = uint32_t(a); while (v == 0x100 || v == 0x200 || v == 0x300 || v == 0x400) ++v; return AngularQuad(v); }
  // The well-formed requests, served before this process refuses anything.
  struct Good { std::vector<V3> p; std::vector<double> w, rp, rw; };
  static const Good& good(int64_t rad, int64_t fam, size_t n) {
    static const std::vector<Good> all = [] {
      std::vector<Good> v;
      for (int64_t r = 0; r < 4; ++r)
        for (int64_t f = 0; f < 4; ++f)
          for (size_t m = 3; m < 12; ++m) {
            auto t = make_radial_traits(rqs[r], m);
            auto g = SphericalGridFactory::generate_unpruned_grid(rqs[r], *t, aqs[f], size_t(PUBLISHED[f][0].second));
            auto q = RadialFactory::generate(rqs[r], *t);
            v.push_back({g->points(), g->weights(), q->points(), q->weights()});
          }
      return v;
    }();
    return all[(size_t(rad) * 4 + size_t(fam)) * 9 + n - 3];
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    (void)good(0, 0, 3);
    const size_t small[4] = {size_t(PUBLISHED[0][0].second), size_t(PUBLISHED[1][0].second), size_t(PUBLISHED[2][0].second), size_t(PUBLISHED[3][0].second)};
    for (size_t k = 0; k < c.reqs.size(); ++k) {
      const Bad& b = c.reqs[k];
      const size_t n = 3 + size_t(b.b % 9), okn = small[b.fam];
      const RadialQuad rq = rqs[b.rad];
      const AngularQuad aq = aqs[b.fam];
      auto tr = make_radial_traits(rq, n);
      auto other = make_radial_traits(rqs[(b.rad + 1 + b.b % 3) % 4], n);
      const size_t bad = size_t(bad_size(b.fam, b.a));
      std::string got;
      size_t pts = 0;
      const Good& gd = good(b.rad, b.fam, n);
      // a request is made up to three times over, with the same objects: twice in a row, then after a well-formed one
      int64_t served = 0;
      auto ask = [&](auto f) {
        for (int64_t k = 1; k <= 3; ++k) {
          if (k == 3) (void)SphericalGridFactory::generate_unpruned_grid(rq, *tr, aq, okn);
          try { pts = f(); served = k; return; } catch (const std::exception& e) { if (k == 3) throw; }
        }
      };
#define ASK(...) ask([&] { auto g = __VA_ARGS__; return g ? size_t(g->npts()) : size_t(0); })
      const char* what = "";
      bool threw = false;
      try {
        switch (b.kind) {
          case 0: what = "unknown radial quadrature in the radial factory"; ASK(RadialFactory::generate(bad_rq(b.a), *tr)); break;
          case 1: what = "unknown angular quadrature in the angular factory"; ASK(S2Factory::generate(bad_aq(b.a), okn)); break;
          case 2: what = "angular size without a grid"; ASK(S2Factory::generate(aq, bad)); break;
          case 3: what = "radial parameters of another quadrature"; ASK(RadialFactory::generate(rq, *other)); break;
          case 4: what = "unpruned grid with an angular size without a grid"; ASK(SphericalGridFactory::generate_unpruned_grid(rq, *tr, aq, bad)); break;
          case 5: what = "unpruned grid with unknown radial quadrature"; ASK(SphericalGridFactory::generate_unpruned_grid(bad_rq(b.a), *tr, aq, okn)); break;
          case 6: what = "unpruned grid with unknown angular quadrature"; ASK(SphericalGridFactory::generate_unpruned_grid(rq, *tr, bad_aq(b.a), okn)); break;
          case 7: what = "spherical grid with radial parameters of another quadrature"; ASK(b.b % 2 ? SphericalGridFactory::generate_unpruned_grid(rq, *other, aq, okn)
                                                                                                     : SphericalGridFactory::generate_pruned_grid(rq, *other, {{0, n, aq, okn}})); break;
          case 8: what = "specification without radial parameters"; {
            UnprunedSphericalGridSpecification u(rq, *tr, aq, okn);
            u.radial_traits.reset();
            if (b.b % 5 < 3) ask([&] { return 1 + create_pruned_spec(ss[b.b % 5], u).pruning_regions.size(); });
            else if (b.b % 5 == 3) ASK(SphericalGridFactory::generate_grid(u));
            else { PrunedSphericalGridSpecification p(rq, nullptr, std::vector<PruningRegion>{{0, n, aq, okn}}); ASK(SphericalGridFactory::generate_grid(p)); }
            break;
          }
          case 9: what = "pruned grid without regions"; ASK(SphericalGridFactory::generate_pruned_grid(rq, *tr, std::vector<PruningRegion>{})); break;
          case 10: what = "pruned grid mixing angular families"; {
            std::vector<PruningRegion> pr = {{0, 1, aq, okn}, {1, 2, aq, okn}, {2, n, aq, okn}};
            auto& r = pr[size_t(b.b) % 3];
            int64_t f2 = (b.fam + 1 + b.b % 3) % 4;
            r.angular_quad = aqs[f2]; r.angular_size = small[f2];
            ASK(SphericalGridFactory::generate_pruned_grid(rq, *tr, pr));
            break;
          }
          case 11: what = "pruned grid with a region size without a grid"; {
            std::vector<PruningRegion> pr = {{0, 1, aq, okn}, {1, 2, aq, okn}, {2, n, aq, okn}};
            pr[size_t(b.b) % 3].angular_size = bad;
            ASK(SphericalGridFactory::generate_pruned_grid(rq, *tr, pr));
            break;
          }
          case 12: what = "pruned grid with unknown radial or angular quadrature"; {
            if (b.b % 2) ASK(SphericalGridFactory::generate_pruned_grid(bad_rq(b.a), *tr, {{0, n, aq, okn}}));
            else ASK(SphericalGridFactory::generate_pruned_grid(rq, *tr, {{0, n, bad_aq(b.a), okn}}));
            break;
          }
          case 13: what = "pruning scheme on an angular size without a grid"; {
            UnprunedSphericalGridSpecification u(rq, *tr, aq, bad);
            ASK(SphericalGridFactory::generate_grid(create_pruned_spec(ss[b.b % 3], u)));
            break;
          }
          case 14: what = "unknown radial quadrature or wrong parameter list for its traits"; {
            if (b.b % 4 == 0) ASK(make_radial_traits(bad_rq(b.a), n));
            else if (b.b % 4 == 1) ASK(make_radial_traits(rqs[b.rad % 3], n, 1.0, 0.6));
            else if (b.b % 4 == 2) ASK(make_radial_traits(rq, std::string("x")));
            else ASK(make_radial_traits(rq, n, 1.0, 0.6, 0.1));
            break;
          }
          case 16: what = "pruned grid with regions that do not fit the radial grid"; {
            const size_t far = b.a % 2 ? n + 1 : n + size_t(b.a);  // past the last radial point
            std::vector<PruningRegion> pr = {{0, 1, aq, okn}, {1, 2, aq, okn}, {2, n, aq, okn}};
            switch (b.b % 9) {
              case 0: pr = {{1, n, aq, okn}}; break;                            // does not start at the first point
              case 1: pr[0].idx_st = 1; pr[1].idx_st = 2; pr[2].idx_st = n - 1; if (n == 3) pr[2].idx_st = n; break;
              case 2: std::swap(pr[1], pr[2]); break;                           // descending
              case 3: pr[2].idx_st = 1; break;                                  // twice the same start
              case 4: pr[1].idx_st = 0; break;
              case 5: pr[2] = {n, n, aq, okn}; break;                           // starts at the end
              case 6: pr[2] = {far, far + 1, aq, okn}; break;                   // starts past the end
              case 7: pr[1] = {far, far + 1, aq, okn}; break;
              default: pr[2] = {SIZE_MAX - size_t(b.a), n, aq, okn}; break;
            }
            ASK(SphericalGridFactory::generate_pruned_grid(rq, *tr, pr));
            break;
          }
          case 17: what = "pruned grid on a radial grid without points"; {
            auto none = make_radial_traits(rq, 0);
            if (b.b % 4 == 3) ASK(SphericalGridFactory::generate_pruned_grid(rq, *none, {{0, 0, aq, okn}}));
            else ASK(SphericalGridFactory::generate_grid(create_pruned_spec(ss[b.b % 4], UnprunedSphericalGridSpecification(rq, *none, aq, okn))));
            break;
          }
          default: what = "pruning scheme with an unknown angular quadrature"; {
            UnprunedSphericalGridSpecification u(rq, *tr, bad_aq(b.a), okn);
            ASK(SphericalGridFactory::generate_grid(create_pruned_spec(ss[b.b % 3], u)));
            break;
          }
        }
      } catch (const std::exception& e) { threw = true; got = e.what(); }
      x.label(what);
      PBT_REQUIRE(threw, "request %zu accepted the %s time: %s (radial %ld, angular %ld, value %ld) gave %zu points", k, served == 1 ? "first" : served == 2 ? "second" : "third", what, (long)b.rad, (long)b.fam, (long)b.a, pts);
      // the next well-formed request is served as though nothing had happened
      auto g = SphericalGridFactory::generate_unpruned_grid(rq, *tr, aq, okn);
      auto r = RadialFactory::generate(rq, *tr);
      PBT_REQUIRE(g && r && r->npts() == n && g->npts() == n * okn, "after refusing \"%s\" a well-formed request gave %zu points instead of %zu", what, g ? g->npts() : 0, n * okn);
      PBT_REQUIRE(g->points() == gd.p && g->weights() == gd.w && r->points() == gd.rp && r->weights() == gd.rw,
                  "after refusing \"%s\" a well-formed request gave another grid than before", what);
      double s = 0, e = 0;
      for (auto w : g->weights()) s += w;
      for (size_t i = 0; i < n; ++i) e += 4 * M_PI * r->weights()[i] * r->points()[i] * r->points()[i];
      PBT_REQUIRE(std::abs(s - e) <= 1e-9 * std::abs(e), "after refusing \"%s\" a well-formed grid has total weight %.15g instead of %.15g", what, s, e);
    }
    x.nontrivial = !c.reqs.empty();
    return pbt::pass();
  }
};
#undef ASK
PBT_MAIN(P)
