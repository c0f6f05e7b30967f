// Geometry of every angular grid: unit vectors, requested count, distinct points, weights summing to 4 pi,
// equal weights for Womersley designs, and the point-group symmetry of the other three families.
#include <pbt.hpp>
#include <ref.hpp>
#include <s2_bridge.hpp>
#include <s2_sizes.inc>
#include <memory>
struct P {
  struct Case {
    int64_t fam = 0, n = 6, elem = 0;
    template <class A> void io(A& s) { s("fam", fam); s("n", n); s("elem", elem); }
  };
  using V3 = std::array<double, 3>;
  using M = std::array<V3, 3>;
  static Case gen(pbt::Src& s, int) {
    Case c;
    c.fam = s.range(0, 3);
    const auto& t = PUBLISHED[c.fam];
    c.n = t[size_t(s.range(0, int64_t(t.size()) - 1))].second;
    c.elem = s.range(0, 47);
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    int64_t k = 0;
    for (int64_t f = 0; f < 4; ++f)
      for (auto& pr : PUBLISHED[f])
        for (int64_t e = 0; e < 2; ++e)
          if (!emit(Case{f, pr.second, (k = (k + 11) % 60)})) return;
  }
  static V3 apply(const M& m, const V3& v) {
    V3 r;
    for (int i = 0; i < 3; ++i) r[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
    return r;
  }

  static M octahedral(int64_t e) {
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    M m{};
    e %= 48;
    for (int i = 0; i < 3; ++i) m[i][perm[e % 6][i]] = ((e / 6) >> i) & 1 ? -1 : 1;
    return m;
  }
  // rotation taking vertex 0 and a neighbour of the icosahedron to another (vertex, neighbour) pair
  static M icosahedral(int64_t e) {
    const double a = std::sqrt((5 - std::sqrt(5.)) / 10), b = std::sqrt((5 + std::sqrt(5.)) / 10);
    std::vector<V3> v;
    for (int s = -1; s <= 1; s += 2)
      for (int t = -1; t <= 1; t += 2) { v.push_back({0, s * a, t * b}); v.push_back({t * b, 0, s * a}); v.push_back({s * a, t * b, 0}); }
    std::vector<std::pair<int, int>> pr;
    for (int i = 0; i < 12; ++i)
      for (int j = 0; j < 12; ++j)
        if (std::abs(ref::dot(v[i], v[j]) - 1 / std::sqrt(5.)) < 1e-9) pr.push_back({i, j});
    auto frame = [&](std::pair<int, int> q) {
      V3 z = v[q.first], y = v[q.second];
      double d = ref::dot(z, y);
      for (int k = 0; k < 3; ++k) y[k] -= d * z[k];
      double n = std::sqrt(ref::dot(y, y));
      for (int k = 0; k < 3; ++k) y[k] /= n;
      V3 c = {z[1] * y[2] - z[2] * y[1], z[2] * y[0] - z[0] * y[2], z[0] * y[1] - z[1] * y[0]};
      return std::array<V3, 3>{z, y, c};
    };
    auto A = frame(pr[0]), B = frame(pr[size_t(e) % pr.size()]);
    M m{};
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        for (int k = 0; k < 3; ++k) m[i][j] += B[k][i] * A[k][j];
    return m;
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    x.nontrivial = true;
    x.label(s2::NAME[c.fam]);
    const char* nm = s2::NAME[c.fam];
    const auto g = s2::make(c.fam, size_t(c.n));
    const size_t n = size_t(c.n);
    PBT_REQUIRE(g.p.size() == n && g.w.size() == n && g.npts == n, "%s(%ld) has %zu points, %zu weights, npts %zu", nm, (long)c.n, g.p.size(), g.w.size(), g.npts);
    long double lsum = 0;
    for (size_t i = 0; i < n; ++i) {
      PBT_REQUIRE(std::isfinite(g.w[i]) && g.w[i] != 0, "%s(%ld): weight %zu is %g", nm, (long)c.n, i, g.w[i]);
      PBT_REQUIRE(std::abs(ref::dot(g.p[i], g.p[i]) - 1) <= 1e-13, "%s(%ld): point %zu has squared norm %.17g", nm, (long)c.n, i, ref::dot(g.p[i], g.p[i]));
      lsum += g.w[i];
      if (c.fam == 3) PBT_REQUIRE(std::abs(g.w[i] - 4 * M_PI / double(n)) <= 1e-13 * g.w[i], "%s(%ld): weight %zu is %.17g, not 4pi/N", nm, (long)c.n, i, g.w[i]);
    }
    const double sum = double(lsum);
    // the grid of 552 points whose table is wrong (known_findings.txt): everything else about it still has to hold
    const bool known552 = c.fam == 0 && c.n == 552 && std::abs(sum - 12.1044731679028) <= 1e-11;
    if (!known552)
      PBT_REQUIRE(std::abs(sum - 4 * M_PI) <= 1e-11, "%s(%ld): weights sum to 4 pi %+.3e", nm, (long)c.n, sum - 4 * M_PI);
    // order by x, to find neighbours
    std::vector<size_t> id(n);
    for (size_t i = 0; i < n; ++i) id[i] = i;
    std::sort(id.begin(), id.end(), [&](size_t a, size_t b) { return g.p[a][0] < g.p[b][0]; });
    auto dist = [](const V3& a, const V3& b) { return std::max({std::abs(a[0] - b[0]), std::abs(a[1] - b[1]), std::abs(a[2] - b[2])}); };
    for (size_t i = 0; i < n; ++i)
      for (size_t j = i + 1; j < n && g.p[id[j]][0] - g.p[id[i]][0] < 1e-6; ++j)
        PBT_REQUIRE(dist(g.p[id[i]], g.p[id[j]]) > 1e-6, "%s(%ld): points %zu and %zu coincide", nm, (long)c.n, id[i], id[j]);
    if (c.fam == 3) return pbt::pass();
    const M m = c.fam == 0 ? icosahedral(c.elem) : octahedral(c.elem);
    std::vector<double> xs(n);
    for (size_t i = 0; i < n; ++i) xs[i] = g.p[id[i]][0];
    const double tol = 1e-12;
    for (size_t i = 0; i < n; ++i) {
      V3 q = apply(m, g.p[i]);
      bool hit = false;
      for (size_t k = size_t(std::lower_bound(xs.begin(), xs.end(), q[0] - tol) - xs.begin()); k < n && xs[k] <= q[0] + tol; ++k)
        if (dist(g.p[id[k]], q) <= tol && std::abs(g.w[id[k]] - g.w[i]) <= 1e-12 * std::abs(g.w[i])) { hit = true; break; }
      PBT_REQUIRE(hit, "%s(%ld): the %s image %ld of point %zu is missing or has another weight", nm, (long)c.n, c.fam == 0 ? "icosahedral" : "octahedral", (long)c.elem, i);
    }
    x.label("symmetry image checked");
    if (known552) return pbt::fail_as("AhrensBeylkin-552", pbt::fmt("%s(%ld): weights sum to 4 pi %+.3e", nm, (long)c.n, sum - 4 * M_PI));
    return pbt::pass();
  }
};
PBT_MAIN(P)
