// Independent reference mathematics (long double), used by the oracles only.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <vector>
namespace ref {
using ld = long double;
constexpr ld PI = 3.141592653589793238462643383279502884L;
using P3 = std::array<double, 3>;

// sum_i w_i P_d(x_i), d = 0..dmax
template <class X, class W> std::vector<ld> legendre_moments(const X& x, const W& w, size_t dmax) {
  const size_t n = x.size();
  std::vector<ld> m(dmax + 1, 0.0L), pm(n, 0.0L), p(n, 1.0L);
  for (size_t d = 0; d <= dmax; ++d) {
    ld s = 0;
    for (size_t i = 0; i < n; ++i) s += ld(w[i]) * p[i];
    m[d] = s;
    const ld a = (2.0L * d + 1) / (d + 1), b = ld(d) / (d + 1);
    for (size_t i = 0; i < n; ++i) { ld q = a * ld(x[i]) * p[i] - b * pm[i]; pm[i] = p[i]; p[i] = q; }
  }
  return m;
}
// the same in double, for the big angular tables: returns (moment, sum |w_i P_d|) pairs
inline void legendre_moments_fast(const std::vector<double>& x, const std::vector<double>& w, size_t dmax,
                                  std::vector<double>& m) {
  const size_t n = x.size();
  m.assign(dmax + 1, 0.0);
  std::vector<double> pm(n, 0.0), p(n, 1.0);
  for (size_t d = 0; d <= dmax; ++d) {
    double s0 = 0, s1 = 0, s2 = 0, s3 = 0;
    size_t i = 0;
    for (; i + 4 <= n; i += 4) { s0 += w[i] * p[i]; s1 += w[i + 1] * p[i + 1]; s2 += w[i + 2] * p[i + 2]; s3 += w[i + 3] * p[i + 3]; }
    for (; i < n; ++i) s0 += w[i] * p[i];
    m[d] = (s0 + s1) + (s2 + s3);
    const double a = (2.0 * d + 1) / (d + 1), b = double(d) / (d + 1);
    for (size_t k = 0; k < n; ++k) { double q = a * x[k] * p[k] - b * pm[k]; pm[k] = p[k]; p[k] = q; }
  }
}
inline P3 unit(double a, double b) {  // a,b in [0,1] -> direction
  double z = 2 * a - 1, s = std::sqrt(std::max(0.0, 1 - z * z)), f = 2 * M_PI * b;
  return {s * std::cos(f), s * std::sin(f), z};
}
inline double dot(const P3& a, const P3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
}  // namespace ref
