// User-defined quadratures (the library's documented extension point): arbitrary nodes and weights,
// so that the composite quadratures can be driven with arbitrary data.
#pragma once
#include <cmath>
#include <memory>
#include <vector>
#include <array>
#include <algorithm>
#include <stdexcept>
#include <integratorxx/quadrature.hpp>
using V3 = std::array<double, 3>;
struct AnyRad;
struct AnyAng;
namespace IntegratorXX {
template <> struct quadrature_traits<AnyRad> {
  using point_type = double;
  using weight_type = double;
  using point_container = std::vector<double>;
  using weight_container = std::vector<double>;
  static std::tuple<point_container, weight_container> generate(const point_container& p, const weight_container& w) { return {p, w}; }
};
template <> struct quadrature_traits<AnyAng> {
  using point_type = std::array<double, 3>;
  using weight_type = double;
  using point_container = std::vector<point_type>;
  using weight_container = std::vector<double>;
  static std::tuple<point_container, weight_container> generate(const point_container& p, const weight_container& w) { return {p, w}; }
};
}  // namespace IntegratorXX
struct AnyRad : IntegratorXX::Quadrature<AnyRad> {
  using base = IntegratorXX::Quadrature<AnyRad>;
  AnyRad(const std::vector<double>& p, const std::vector<double>& w) : base(p, w) {}
  AnyRad(const AnyRad&) = default;
  AnyRad(AnyRad&&) noexcept = default;
};
struct AnyAng : IntegratorXX::Quadrature<AnyAng> {
  using base = IntegratorXX::Quadrature<AnyAng>;
  AnyAng(const std::vector<V3>& p, const std::vector<double>& w) : base(p, w) {}
  AnyAng(const AnyAng&) = default;
  AnyAng(AnyAng&&) noexcept = default;
};
