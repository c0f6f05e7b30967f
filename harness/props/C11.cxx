// Order/size look-ups of the angular families against the published tables, for every integer argument.
#include <pbt.hpp>
#include <s2_bridge.hpp>
#include <s2_sizes.inc>
struct P {
  struct Case {
    int64_t fam = 0, v = 0;
    template <class A> void io(A& s) { s("fam", fam); s("v", v); }
  };
  static Case gen(pbt::Src& s, int) {
    Case c;
    c.fam = s.range(0, 3);
    switch (s.range(0, 3)) {
      case 0: c.v = s.range(-1000, 20000); break;
      case 1: c.v = s.pick(PUBLISHED[c.fam]).second + s.range(-2, 2); break;
      case 2: c.v = s.small(0, int64_t(1) << 62) * (s.coin() ? -1 : 1); break;
      default: c.v = s.pick(PUBLISHED[c.fam]).second + (s.range(0, 4) << 32); break;
    }
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t v = -300; v <= 17000; ++v)
      for (int64_t f = 0; f < 4; ++f)
        if (!emit(Case{f, v})) return;
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    const auto& t = PUBLISHED[c.fam];
    const char* nm = s2::NAME[c.fam];
    int64_t en = -1, eo = -1, nx = t.back().first;
    for (auto it = t.rbegin(); it != t.rend(); ++it) if (it->first >= c.v) nx = it->first;
    for (auto& q : t) { if (q.first == c.v) en = q.second; if (q.second == c.v) eo = q.first; }
    x.nontrivial = en > 0 || eo > 0 || (c.v >= 0 && c.v <= t.back().first);
    if (en > 0) x.label("order of a grid");
    if (eo > 0) x.label("size of a grid");
    int64_t gn = s2::npts_by_order(c.fam, c.v), go = s2::order_by_npts(c.fam, c.v);
    PBT_REQUIRE(en > 0 ? gn == en : gn < 0, "%s: size for order %ld is %ld, published %ld", nm, (long)c.v, (long)gn, (long)en);
    PBT_REQUIRE(eo > 0 ? go == eo : go < 0, "%s: order for size %ld is %ld, published %ld", nm, (long)c.v, (long)go, (long)eo);
    int64_t gx = s2::next_order(c.fam, c.v);
    if (c.v <= t.back().first) PBT_REQUIRE(gx == nx, "%s: next order from %ld is %ld, smallest supported one not below it is %ld", nm, (long)c.v, (long)gx, (long)nx);
    else PBT_REQUIRE(s2::npts_by_order(c.fam, gx) > 0, "%s: next order from %ld is %ld, which no grid has", nm, (long)c.v, (long)gx);
    // round trips through the library itself
    if (gn > 0) PBT_REQUIRE(s2::order_by_npts(c.fam, gn) == c.v, "%s: order %ld -> size %ld -> order %ld", nm, (long)c.v, (long)gn, (long)s2::order_by_npts(c.fam, gn));
    if (go > 0) PBT_REQUIRE(s2::npts_by_order(c.fam, go) == c.v, "%s: size %ld -> order %ld -> size %ld", nm, (long)c.v, (long)go, (long)s2::npts_by_order(c.fam, go));
    PBT_REQUIRE(s2::next_order(c.fam, gx) == gx, "%s: next order is not idempotent at %ld", nm, (long)c.v);
    return pbt::pass();
  }
};
PBT_MAIN(P)
