#pragma once
#include <complex>
#include <type_traits>
#include <concepts>
// mixed operations between std::complex<double> and other arithmetic types
namespace std {
#define SHIM_OP(OP)                                                                                                                                  \
  template <typename T, typename U>                                                                                                                  \
    requires(std::is_arithmetic_v<U> and std::is_floating_point_v<T> and !std::is_same_v<T, U>)                                                      \
  auto operator OP(complex<T> const &x, U y) {                                                                                                       \
    return x OP T(y);                                                                                                                                \
  }                                                                                                                                                  \
  template <typename T, typename U>                                                                                                                  \
    requires(std::is_arithmetic_v<U> and std::is_floating_point_v<T> and !std::is_same_v<T, U>)                                                      \
  auto operator OP(U x, complex<T> const &y) {                                                                                                       \
    return T(x) OP y;                                                                                                                                \
  }
  SHIM_OP(+)
  SHIM_OP(-)
  SHIM_OP(*)
  SHIM_OP(/)
#undef SHIM_OP
} // namespace std
