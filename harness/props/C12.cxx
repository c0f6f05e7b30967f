// An angular grid is available exactly for the published sizes: those construct a non-empty grid, every
// other size is refused with an exception, through the class and through the run-time factory alike.
#include <pbt.hpp>
#include <s2_bridge.hpp>
#include <s2_sizes.inc>
#include <integratorxx/quadrature.hpp>
#include <integratorxx/generators/s2_factory.hpp>
using namespace IntegratorXX;
struct P {
  struct Case {
    int64_t fam = 0, n = 1, factory = 0;
    template <class A> void io(A& s) { s("fam", fam); s("n", n); s("factory", factory); }
  };
  static Case gen(pbt::Src& s, int) {
    Case c;
    c.fam = s.range(0, 3);
    c.factory = s.range(0, 1);
    const auto how = s.range(0, 3);
    if (how < 2) c.n = s.range(0, 20000);
    else if (how == 2) {  // a published size in the low bits of a larger number
      auto o = s.coin() ? c.fam : s.range(0, 3);
      c.n = s.pick(PUBLISHED[o]).second + (s.range(1, 1 << 15) << s.pick<int>({8, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48}));
      if (s.coin()) c.n = -c.n;
    } else { auto o = s.range(0, 3); c.n = s.pick(PUBLISHED[o]).second + s.range(-1, 1); }
    return c;
  }
  template <class F> static void enumerate(int tier, F emit) {
    for (int64_t n = 0; n <= (tier ? 25000 : 16000); ++n)
      for (int64_t f = 0; f < 4; ++f)
        if (!emit(Case{f, n, (n + f) % 2})) return;
    for (int64_t f = 0; f < 4; ++f)
      for (auto& q : PUBLISHED[f])
        for (int b : {8, 15, 16, 31, 32, 33, 48, 62})
          for (int64_t k = 0; k < 4; ++k)
            if (!emit(Case{f, k < 2 ? q.second + (int64_t(1) << b) : q.second - (int64_t(1) << b), k % 2})) return;
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    static const AngularQuad aq[4] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
    bool avail = false;
    for (auto& q : PUBLISHED[c.fam]) avail |= q.second == c.n;
    x.nontrivial = c.n > 0;
    x.label(avail ? "published size" : "incompatible size");
    bool threw = false;
    size_t np = 0, nw = 0;
    double s = 0, s2m = 0;
    std::string what;
    const auto ask = [&] {
     try {
      if (c.factory) { auto g = S2Factory::generate(aq[c.fam], size_t(c.n)); np = g->points().size(); nw = g->weights().size(); for (auto w : g->weights()) s += w; for (auto& p : g->points()) s2m += p[0] * p[0] + p[1] * p[1] + p[2] * p[2]; }
      else { auto g = s2::make(c.fam, size_t(c.n)); np = g.p.size(); nw = g.w.size(); for (auto w : g.w) s += w; for (auto& p : g.p) s2m += p[0] * p[0] + p[1] * p[1] + p[2] * p[2]; }
    } catch (const std::exception& e) { threw = true; what = e.what(); }
    };
    ask();
    if (threw) { threw = false; ask(); }  // and again
    const char* nm = s2::NAME[c.fam];
    if (!avail) { PBT_REQUIRE(threw, "%s accepted %ld points (asked up to twice), a size it has no grid for (%zu points, weights summing to %g)", nm, (long)c.n, np, s); return pbt::pass(); }
    PBT_REQUIRE(!threw, "%s refused its published size %ld: %s", nm, (long)c.n, what.c_str());
    PBT_REQUIRE(int64_t(np) == c.n && int64_t(nw) == c.n, "%s(%ld) has %zu points and %zu weights", nm, (long)c.n, np, nw);
    PBT_REQUIRE(std::abs(s2m / double(np) - 1) < 1e-9 && s > 1, "%s(%ld): not a grid on the unit sphere (mean squared norm %g, weights sum to %g)", nm, (long)c.n, s2m / double(np), s);
    return pbt::pass();
  }
};
PBT_MAIN(P)
