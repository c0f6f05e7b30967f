#include "s2_bridge.hpp"
#include <cmath>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <integratorxx/quadratures/s2.hpp>
using namespace IntegratorXX;
namespace s2 {
template <class Q> static Grid mk(size_t n) { Q q(n); return {q.points(), q.weights(), q.npts()}; }
#define DISPATCH(f, call)                                                  \
  switch (f) {                                                             \
    case 0: { using Q = AhrensBeylkin<double>; using T = quadrature_traits<Q>; (void)sizeof(T); return call; } \
    case 1: { using Q = Delley<double>; using T = quadrature_traits<Q>; (void)sizeof(T); return call; }        \
    case 2: { using Q = LebedevLaikov<double>; using T = quadrature_traits<Q>; (void)sizeof(T); return call; } \
    default: { using Q = Womersley<double>; using T = quadrature_traits<Q>; (void)sizeof(T); return call; }    \
  }
Grid make(int64_t f, size_t n) { DISPATCH(f, mk<Q>(n)) }
int64_t npts_by_order(int64_t f, int64_t o) { DISPATCH(f, int64_t(T::npts_by_algebraic_order(o))) }
int64_t order_by_npts(int64_t f, int64_t n) { DISPATCH(f, int64_t(T::algebraic_order_by_npts(n))) }
int64_t next_order(int64_t f, int64_t o) { DISPATCH(f, int64_t(T::next_algebraic_order(o))) }
}  // namespace s2
