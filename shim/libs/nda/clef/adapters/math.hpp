#pragma once
#include "../clef.hpp"
namespace nda::clef {
#define SHIM_M(name)                                                                                                                                 \
  struct name##_math_impl {                                                                                                                          \
    template <typename... A> auto operator()(A const &...a) const {                                                                                  \
      using std::name;                                                                                                                               \
      return name(a...);                                                                                                                             \
    }                                                                                                                                                \
  };                                                                                                                                                 \
  using std::name;                                                                                                                                   \
  template <typename... A>                                                                                                                           \
    requires(nda::clef::is_clef_expression<A...>)                                                                                                    \
  auto name(A &&...a) {                                                                                                                              \
    return nda::clef::make_expr_call(name##_math_impl{}, std::forward<A>(a)...);                                                                     \
  }
  SHIM_M(abs) SHIM_M(cos) SHIM_M(sin) SHIM_M(tan) SHIM_M(exp) SHIM_M(log) SHIM_M(sqrt) SHIM_M(cosh) SHIM_M(sinh) SHIM_M(tanh) SHIM_M(pow) SHIM_M(conj) SHIM_M(real)
  SHIM_M(imag) SHIM_M(floor) SHIM_M(ceil) SHIM_M(acos) SHIM_M(asin) SHIM_M(atan)
#undef SHIM_M
} // namespace nda::clef
