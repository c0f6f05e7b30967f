// Grid specifications are values: equality is exactly equality of every field including the run-time radial
// parameters, copies and assignments are deep, and later changes to either side never show on the other.
#include <pbt.hpp>
#include <integratorxx/generators/spherical_factory.hpp>
using namespace IntegratorXX;
using Spec = PrunedSphericalGridSpecification;
using Uspec = UnprunedSphericalGridSpecification;
struct Op {
  int64_t kind = 0, i = 0, j = 0, a = 0, b = 0;
  template <class A> void io(A& s) { s("kind", kind); s("i", i); s("j", j); s("a", a); s("b", b); }
};
struct P {
  struct Case {
    std::vector<Op> ops;
    template <class A> void io(A& s) { s("ops", ops); }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.ops = pbt::vec<Op>(s, 2, !s.range(0, 59) ? 500 : tier ? 60 : 30, [](pbt::Src& q) {
      Op o;
      o.kind = q.range(0, 15);
      o.i = q.range(0, 4); o.j = q.range(0, 4);
      o.a = q.coin() ? q.range(0, NSET - 1) : q.range(0, 7); o.b = q.range(0, 7);
      return o;
    });
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    // every pair of radial parameter sets: made, copied, compared
    for (int64_t a = 0; a < NSET; ++a)
      for (int64_t b = 0; b < NSET; ++b) {
        Case c;
        c.ops = {{0, 0, 0, a, 0}, {0, 1, 0, b, 0}, {1, 0, 0, 0, 0}};
        if (!emit(c)) return;
      }
  }
  // radial parameter sets: 6 kinds x 3 sizes x 5 scales x 4 exponents (the exponent only counts for TA)
  struct T { int64_t kind, n, R, al; };
  static constexpr int64_t NSET = 6 * 3 * 5 * 4;
  static T decode(int64_t a) { return {a % 6, a / 6 % 3, a / 18 % 5, a / 90 % 4}; }
  static std::unique_ptr<RadialTraits> traits(int64_t a) {
    T t = decode(a);
    static const double Rs[5] = {1.0, 1.0000000000000002, 2.0, 1e-3, 1e6}, als[4] = {0.6, 0.25, 0.60000000000000009, 0.0};
    size_t n = t.n == 0 ? 6 : t.n == 1 ? 7 : (size_t(1) << 32) + 6;
    double R = Rs[t.R], al = als[t.al];
    switch (t.kind) {
      case 0: return std::make_unique<BeckeRadialTraits>(n, R);
      case 1: return std::make_unique<MuraKnowlesRadialTraits>(n, R);
      case 2: return std::make_unique<MurrayHandyLamingRadialTraits<2>>(n, R);
      case 3: return std::make_unique<TreutlerAhlrichsRadialTraits>(n, R, al);
      case 4: return std::make_unique<MurrayHandyLamingRadialTraits<3>>(n, R);
      default: return std::make_unique<MurrayHandyLamingRadialTraits<1>>(n, R);
    }
  }
  static int64_t canon(int64_t a) { T t = decode(a); if (t.kind != 3) t.al = 0; return t.kind + 6 * t.n + 18 * t.R + 90 * t.al; }
  static RadialQuad rq(int64_t a) {
    static const RadialQuad q[6] = {RadialQuad::Becke, RadialQuad::MuraKnowles, RadialQuad::MurrayHandyLaming, RadialQuad::TreutlerAhlrichs, RadialQuad::MurrayHandyLaming, RadialQuad::MurrayHandyLaming};
    return q[a % 6];
  }
  struct M { int64_t rq = 0, tr = -1; std::vector<PruningRegion> rs; };  // model of one specification
  static bool same(const M& a, const M& b) { return a.rq == b.rq && a.tr == b.tr && a.rs == b.rs; }
  static std::string look(const Spec& s, const M& m) {
    if (int64_t(s.radial_quad) != m.rq) return "radial quadrature differs";
    if (bool(s.radial_traits) != (m.tr >= 0)) return "radial parameters appeared or vanished";
    if (m.tr >= 0) {
      auto t = traits(m.tr);
      if (!s.radial_traits->compare(*t) || !t->compare(*s.radial_traits)) return "radial parameters differ from the ones set";
      if (s.radial_traits->npts() != t->npts()) return "radial size differs from the one set";
    }
    if (s.pruning_regions.size() != m.rs.size()) return "number of regions differs";
    for (size_t i = 0; i < m.rs.size(); ++i) {
      auto &a = s.pruning_regions[i], &b = m.rs[i];
      if (a.idx_st != b.idx_st || a.idx_en != b.idx_en || a.angular_quad != b.angular_quad || a.angular_size != b.angular_size) return pbt::fmt("region %zu differs from the one set", i);
    }
    return "";
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    std::vector<Spec> s;
    std::vector<M> m;
    std::vector<Uspec> u;
    std::vector<M> um;
    int copies = 0, changes = 0;
    static const AngularQuad aqs[4] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
    for (size_t o = 0; o < c.ops.size(); ++o) {
      const Op& op = c.ops[o];
      if (s.empty() || op.kind == 0) {
        if (s.size() < 5) {
          M n;
          n.tr = canon(op.a); n.rq = int64_t(rq(op.a));
          for (int64_t k = 0; k < op.b % 3; ++k) n.rs.push_back({size_t(k), size_t(k + 1), aqs[op.b % 4], AngularSize(10 + op.b)});
          if (op.b % 2) s.emplace_back(rq(op.a), traits(op.a), n.rs);
          else { auto t = traits(op.a); s.emplace_back(rq(op.a), *t, n.rs); }
          m.push_back(n);
        }
      } else {
        size_t i = size_t(op.i) % s.size(), j = size_t(op.j) % s.size();
        switch (op.kind) {
          case 1: { Spec t(s[i]); M tm = m[i]; if (s.size() < 5) { s.push_back(t); m.push_back(tm); } else { s[j] = t; m[j] = tm; } ++copies; break; }
          case 2: { s[i] = s[j]; m[i] = m[j]; ++copies; break; }                                    // includes self-assignment
          case 3: s[i].radial_traits = traits(op.a); m[i].tr = canon(op.a); ++changes; break;
          case 4: s[i].radial_traits.reset(); m[i].tr = -1; ++changes; break;
          case 5: { PruningRegion r{size_t(op.a), size_t(op.a + 1), aqs[op.b % 4], AngularSize(op.b)}; s[i].pruning_regions.push_back(r); m[i].rs.push_back(r); ++changes; break; }
          case 6: if (!m[i].rs.empty()) {
              size_t k = size_t(op.b) % m[i].rs.size();
              const size_t by = op.a % 8 > 3 ? size_t(1) << 32 : 1;
              auto f = [&](PruningRegion& r) { switch (op.a % 4) { case 0: r.idx_st += by; break; case 1: r.idx_en += by; break; case 2: r.angular_size += by; break; default: r.angular_quad = aqs[op.b % 4]; } };
              f(s[i].pruning_regions[k]); f(m[i].rs[k]); ++changes; break; }
            break;
          case 7: s[i].radial_quad = rq(op.a); m[i].rq = int64_t(rq(op.a)); ++changes; break;
          case 8: if (s.size() > 1) {  // (specifications are copied out: erase would need assignment order we do not want to depend on)
              std::vector<Spec> t; std::vector<M> tm;
              for (size_t k = 0; k < s.size(); ++k) if (k != i) { t.push_back(s[k]); tm.push_back(m[k]); }
              s.swap(t); m.swap(tm); }
            break;
          case 9: if (m[i].tr >= 0) {  // unpruned specification: deep copy of the traits
              Uspec a(rq(op.a), *s[i].radial_traits, aqs[op.b % 4], AngularSize(op.b + 1));
              if (a.radial_traits.get() == s[i].radial_traits.get()) return pbt::fail("an unpruned specification shares the radial parameters it was built from");
              u.push_back(a); um.push_back(m[i]); um.back().rs = {{0, 1, aqs[op.b % 4], AngularSize(op.b + 1)}}; um.back().rq = int64_t(rq(op.a));
              if (u.size() > 4) { u.clear(); um.clear(); }
              ++copies; }
            break;
          case 10: if (!u.empty()) { u[size_t(op.i) % u.size()].radial_traits = traits(op.a); um[size_t(op.i) % u.size()].tr = canon(op.a); ++changes; } break;
          case 12: if (m[i].rs.size() > 1) {  // exchange two regions
              const size_t k = size_t(op.a) % m[i].rs.size(), l = size_t(op.b) % m[i].rs.size();
              std::swap(s[i].pruning_regions[k], s[i].pruning_regions[l]); std::swap(m[i].rs[k], m[i].rs[l]); ++changes; }
            break;
          case 13: if (!m[i].rs.empty()) {    // drop or repeat a region
              const long k = op.a % long(m[i].rs.size());
              if (op.b % 2) { s[i].pruning_regions.erase(s[i].pruning_regions.begin() + k); m[i].rs.erase(m[i].rs.begin() + k); }
              else { PruningRegion r = m[i].rs[size_t(k)]; s[i].pruning_regions.insert(s[i].pruning_regions.begin(), r); m[i].rs.insert(m[i].rs.begin(), r); }
              ++changes; }
            break;
          case 14: {  // a default specification, assigned to or filled field by field
              Spec d;
              if (op.b % 2) d = s[j];
              else {
                d.radial_quad = s[j].radial_quad;
                if (m[j].tr >= 0) d.radial_traits = op.b % 4 ? traits(m[j].tr) : s[j].radial_traits->clone();
                d.pruning_regions = s[j].pruning_regions;
              }
              std::string e = look(d, m[j]);
              if (!e.empty()) return pbt::fail(pbt::fmt("operation %zu: a default specification filled from specification %zu: ", o, j) + e);
              if (!(d == s[j]) || !(s[j] == d)) return pbt::fail(pbt::fmt("operation %zu: a default specification filled from specification %zu does not equal it", o, j));
              s[i] = d; m[i] = m[j]; ++copies; break; }
          case 15: {  // moved out and back: what arrives is what was there
              Spec t(std::move(s[i]));
              std::string e = look(t, m[i]);
              if (!e.empty()) return pbt::fail(pbt::fmt("operation %zu: specification %zu, moved out: ", o, i) + e);
              s[i] = std::move(t); ++copies; break; }
          default: if (m[i].tr >= 0) { auto t = s[i].radial_traits->clone(); if (t.get() == s[i].radial_traits.get() || !t->compare(*s[i].radial_traits)) return pbt::fail("clone of the radial parameters differs"); } break;
        }
      }
      for (size_t i = 0; i < s.size(); ++i) {
        std::string e = look(s[i], m[i]);
        if (!e.empty()) return pbt::fail(pbt::fmt("operation %zu (kind %ld), specification %zu: ", o, (long)op.kind, i) + e);
        for (size_t j = 0; j < s.size(); ++j) {
          if ((s[i] == s[j]) != same(m[i], m[j]))
            return pbt::fail(pbt::fmt("operation %zu: specifications %zu and %zu compare %s, their fields are %s", o, i, j, s[i] == s[j] ? "equal" : "different", same(m[i], m[j]) ? "equal" : "different"));
          if (m[i].tr >= 0 && m[j].tr >= 0 && s[i].radial_traits->compare(*s[j].radial_traits) != (m[i].tr == m[j].tr))
            return pbt::fail(pbt::fmt("radial parameters %ld and %ld compare wrongly", (long)m[i].tr, (long)m[j].tr));
          if (i != j && s[i].radial_traits && s[i].radial_traits.get() == s[j].radial_traits.get()) return pbt::fail("two specifications share their radial parameters");
        }
      }
      for (size_t i = 0; i < u.size(); ++i) {
        Uspec v(u[i]);
        auto t = traits(um[i].tr);
        if (!u[i].radial_traits || !u[i].radial_traits->compare(*t) || !v.radial_traits || !v.radial_traits->compare(*t) || v.radial_traits.get() == u[i].radial_traits.get() ||
            int64_t(v.radial_quad) != um[i].rq || v.angular_quad != um[i].rs[0].angular_quad || v.angular_size != um[i].rs[0].angular_size || u[i].angular_size != v.angular_size || int64_t(u[i].radial_quad) != um[i].rq)
          return pbt::fail(pbt::fmt("operation %zu: unpruned specification %zu or its copy differs from what was set", o, i));
      }
    }
    x.nontrivial = copies > 0;
    if (copies && changes) x.label("copied and changed");
    return pbt::pass();
  }
};
PBT_MAIN(P)
