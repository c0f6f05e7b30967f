// An atomic sphere is the Cartesian product of its radial and angular rules: points c + r*a, weights
// w_r * w_a * r^2, exactly one entry per pair, whichever way the object was obtained or is looked at.
#include <pbt.hpp>
#include <match.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
using namespace IntegratorXX;
struct Mix { double operator()(const double& a, const double& b) const { return 3 * a + 1000 * b; } };
struct P {
  struct Case {
    int64_t radial = 0, n = 1, centered = 0, route = 0, rt = 1, at = 1;
    double R = 1, cx = 0, cy = 0, cz = 0;
    std::vector<RNode> rad;
    std::vector<Node> ang;
    template <class A> void io(A& s) {
      s("radial", radial); s("n", n); s("centered", centered); s("route", route); s("rt", rt); s("at", at); s("R", R);
      s("cx", cx); s("cy", cy); s("cz", cz); s("rad", rad); s("ang", ang);
    }
  };
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.route = s.range(0, 4);
    c.centered = s.range(0, 1);
    if (c.centered) { c.cx = s.coord(); c.cy = s.coord(); c.cz = s.coord(); }
    c.radial = s.coin() ? 0 : s.range(1, 6);
    if (c.radial == 0) c.rad = pbt::vec<RNode>(s, s.range(0, 49) ? 1 : 0, tier ? 60 : 25, gen_rnode);
    else { c.n = s.small(0, tier ? 400 : 120); c.R = s.logreal(-2, 2); }
    c.ang = pbt::vec<Node>(s, s.range(0, 49) ? 1 : 0, tier ? 60 : 25, gen_node);
    if (s.range(0, 2) == 0) {  // entries that agree with another one in some respect
      for (size_t i = 1; i < c.rad.size(); ++i) {
        const RNode& o = c.rad[size_t(s.range(0, int64_t(i) - 1))];
        switch (s.range(0, 5)) { case 0: c.rad[i].r = o.r; break; case 1: c.rad[i].w = o.w; break; case 2: c.rad[i].w = -o.w; break; default: break; }
      }
      for (size_t i = 1; i < c.ang.size(); ++i) {
        const Node& o = c.ang[size_t(s.range(0, int64_t(i) - 1))];
        Node& a = c.ang[i];
        switch (s.range(0, 6)) { case 0: a = o; break; case 1: a.w = o.w; break; case 2: a = o; a.w += 1; break; case 3: a.x = -o.x; a.y = -o.y; a.z = -o.z; break; default: break; }
      }
      if (c.centered && !c.rad.empty() && !c.ang.empty() && s.coin()) {  // a point falls onto the origin
        c.cx = -c.rad[0].r * c.ang[0].x; c.cy = -c.rad[0].r * c.ang[0].y; c.cz = -c.rad[0].r * c.ang[0].z;
      }
    }
    c.rt = gen_times(s, 60);
    c.at = gen_times(s, c.rt > 8 ? 4 : 60);
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t nr = 0; nr <= 14; ++nr)
      for (int64_t na = 0; na <= 14; ++na) {
        Case c;
        for (int64_t i = 0; i < nr; ++i) c.rad.push_back({0.5 + double(i), 1.0 / double(i + 2)});
        for (int64_t j = 0; j < na; ++j) c.ang.push_back({0.1 * double(j + 1), 1 - 0.05 * double(j), -0.3 * double(j), 1 + 0.1 * double(j)});
        c.route = (nr + na) % 5;
        c.centered = nr % 2;
        c.cx = 1.5; c.cy = -2; c.cz = 0.25;
        if (!emit(c)) return;
      }
    // more entries than 16 bits count, in either factor and in the product
    const int64_t big[][2] = {{300, 300}, {1, 70000}, {70000, 1}, {2, 33000}, {33000, 2}, {260, 1000}};
    for (auto& b : big)
      for (int64_t k = 0; k < 2; ++k) {
        Case c;
        c.rad.push_back({0.5, 0.25});
        c.ang.push_back({0.1, 0.9, -0.3, 1.25});
        c.rt = b[0]; c.at = b[1]; c.route = k ? 2 : 0; c.centered = k; c.cx = 1.5; c.cy = -2; c.cz = 0.25;
        if (!emit(c)) return;
      }
  }
  template <class Base> static std::string view(const Base& b, const std::vector<match::PW>& e, const V3& cen) {
    if (b.npts() != e.size()) return pbt::fmt("npts() is %zu, expected %zu", b.npts(), e.size());
    if (b.center() != cen) return "center() is not the requested centre";
    return match::multiset(b.points(), b.weights(), e, 2e-15);
  }
  template <class R> static pbt::Result look(const R& rq, const Case& c, pbt::Ctx& x) {
    using S = SphericalQuadrature<R, AnyAng>;
    using B = SphericalQuadratureBase<std::vector<V3>, std::vector<double>>;
    const AnyAng aq = make_ang(c.ang);
    const V3 cen = c.centered ? V3{c.cx, c.cy, c.cz} : V3{0, 0, 0};
    std::vector<match::PW> e;
    match::add_shells(e, rq.points(), rq.weights(), 0, rq.npts(), aq.points(), aq.weights(), cen);
    S s = c.centered ? S(rq, aq, cen) : S(rq, aq);
    std::string m;
    if (!(m = match::multiset(s.points(), s.weights(), e, 2e-15)).empty()) return pbt::fail("sphere: " + m);
    PBT_REQUIRE(s.npts() == e.size() && s.center() == cen, "npts() %zu or center() wrong", s.npts());
    if (!(m = view(static_cast<const B&>(s), e, cen)).empty()) return pbt::fail("sphere through its base class: " + m);
    const QuadratureBase<std::vector<V3>, std::vector<double>>& qb = s;
    PBT_REQUIRE(qb.npts() == e.size() && qb.points() == s.points() && qb.weights() == s.weights(), "generic quadrature view differs");
    switch (c.route) {
      case 1: { S t(s); if (!(m = view(static_cast<const B&>(t), e, cen)).empty()) return pbt::fail("copied sphere: " + m); break; }
      case 2: { auto t = s.clone(); if (!(m = view(*t, e, cen)).empty()) return pbt::fail("cloned sphere: " + m); break; }
      case 3: { S t(std::move(s)); if (!(m = view(static_cast<const B&>(t), e, cen)).empty()) return pbt::fail("moved sphere: " + m); break; }
      case 4: {  // shared, through the base class only, after its inputs are gone
        std::shared_ptr<B> t;
        { auto r2 = std::make_unique<R>(rq); auto a2 = std::make_unique<AnyAng>(aq); t = std::make_shared<S>(*r2, *a2, cen); }
        if (!(m = view(*t, e, cen)).empty()) return pbt::fail("sphere outliving its inputs: " + m);
        break;
      }
      default: break;
    }
    // the product rule underneath, with an asymmetric combination
    using PT = quadrature_traits<ProductQuadrature<Mix, R, AnyRad>>;
    std::vector<double> p2, w2;
    for (auto& a : c.ang) { p2.push_back(a.x); w2.push_back(a.w); }
    AnyRad q2(p2, w2);
    auto [pp, pw] = PT::generate(rq, q2);
    std::vector<match::PW> e2;
    for (size_t j = 0; j < p2.size(); ++j)
      for (size_t i = 0; i < rq.npts(); ++i) {
        double pe = 3 * rq.points()[i] + 1000 * p2[j], we = 3 * rq.weights()[i] + 1000 * w2[j];
        e2.push_back({{pe, we, 0}, 1, {std::max(std::abs(3 * rq.points()[i]), std::abs(1000 * p2[j])), std::max(std::abs(3 * rq.weights()[i]), std::abs(1000 * w2[j])), 1}});
      }
    std::vector<V3> got;
    for (size_t i = 0; i < pp.size() && i < pw.size(); ++i) got.push_back({pp[i], pw[i], 0});
    PBT_REQUIRE(pp.size() == pw.size(), "product rule: %zu points, %zu weights", pp.size(), pw.size());
    if (!(m = match::multiset(got, std::vector<double>(got.size(), 1.0), e2, 2e-15)).empty()) return pbt::fail("product rule: " + m);
    (void)x;
    return pbt::pass();
  }
  static pbt::Result check(const Case& c0, pbt::Ctx& x) {
    Case c = c0;
    if (c.rt > 1) c.rad = expand(c.rad, c.rt);
    if (c.at > 1) c.ang = expand(c.ang, c.at);
    if (c.rad.size() * c.ang.size() > 300000) { x.label("skipped for size"); return pbt::pass(); }
    if (c.rad.size() > 256 || c.ang.size() > 256) x.label("more than 256 nodes in one rule");
    const size_t nr = c.radial ? size_t(c.n) : c.rad.size();
    if (c.R <= 0) return pbt::pass();
    if (nr < 1 || c.ang.empty()) x.label("a factor without points");
    x.nontrivial = nr > 1 && c.ang.size() > 1 && nr != c.ang.size();
    x.label(c.radial ? "library radial rule" : "arbitrary radial rule");
    if (c.centered && (c.cx || c.cy || c.cz)) x.label("off-origin centre");
    x.label("route " + std::to_string(c.route));
    switch (c.radial) {
      case 0: return look(make_rad(c.rad), c, x);
      case 1: return look(Becke<double, double>(nr, c.R), c, x);
      case 2: return look(MurrayHandyLaming<double, double>(nr, c.R), c, x);
      case 3: return look(MuraKnowles<double, double>(nr, c.R), c, x);
      case 4: return look(TreutlerAhlrichs<double, double>(nr, c.R), c, x);
      case 5: return look(GaussLegendre<double, double>(nr), c, x);
      default: return look(GaussChebyshev3<double, double>(nr), c, x);
    }
  }
};
PBT_MAIN(P)
