#pragma once
#include "./nda.hpp"
namespace nda::blas {
  template <typename X, typename Y> auto dot(X const &x, Y const &y) {
    if (x.size() != y.size()) nda::detail::shim_fail("blas::dot: sizes differ");
    std::decay_t<decltype(x(0) * y(0))> r(0);
    for (long i = 0; i < long(x.size()); ++i) r += x(i) * y(i);
    return r;
  }
  template <typename X, typename Y> auto dotc(X const &x, Y const &y) {
    if (x.size() != y.size()) nda::detail::shim_fail("blas::dotc: sizes differ");
    std::decay_t<decltype(x(0) * y(0))> r(0);
    for (long i = 0; i < long(x.size()); ++i) r += nda::conj(x(i)) * y(i);
    return r;
  }
  template <typename X, typename Y> auto dot_generic(X const &x, Y const &y) { return dot(x, y); }
  template <typename X, typename Y> auto dotc_generic(X const &x, Y const &y) { return dotc(x, y); }
  // c = alpha a b + beta c ; as BLAS, c is not read when beta == 0
  template <typename S, typename A, typename B, typename C> void gemm(S alpha, A const &a, B const &b, S beta, C &&c) {
    auto p = matmul(a, b);
    nda::detail::check_shape(p.shape(), stdutil::make_std_array<long>(c.shape()), "gemm");
    for (long i = 0; i < p.shape()[0]; ++i)
      for (long j = 0; j < p.shape()[1]; ++j) c(i, j) = (beta == S(0) ? alpha * p(i, j) : alpha * p(i, j) + beta * c(i, j));
  }
  template <typename S, typename A, typename B, typename S2, typename C> void gemv(S alpha, A const &a, B const &b, S2 beta, C &&c) {
    auto p = matmul(a, b);
    nda::detail::check_shape(p.shape(), stdutil::make_std_array<long>(c.shape()), "gemv");
    for (long i = 0; i < p.shape()[0]; ++i) c(i) = (beta == S2(0) ? alpha * p(i) : alpha * p(i) + beta * c(i));
  }
  template <typename S, typename X, typename Y, typename M> void ger(S alpha, X const &x, Y const &y, M &&m) {
    if (long(x.size()) != m.shape()[0] or long(y.size()) != m.shape()[1]) nda::detail::shim_fail("blas::ger: sizes differ");
    for (long i = 0; i < m.shape()[0]; ++i)
      for (long j = 0; j < m.shape()[1]; ++j) m(i, j) += alpha * x(i) * y(j);
  }
  template <typename S, typename X> void scal(S a, X &&x) {
    for (long i = 0; i < long(x.size()); ++i) x(i) *= a;
  }
  template <typename X, typename Y> void swap(X &&x, Y &&y) {
    for (long i = 0; i < long(x.size()); ++i) std::swap(x(i), y(i));
  }
  template <typename X, typename Y> auto outer_product(X const &x, Y const &y) {
    using V = std::decay_t<decltype(get_first_element(x) * get_first_element(y))>;
    array<V, get_rank<X> + get_rank<Y>> r(stdutil::join(stdutil::make_std_array<long>(x.shape()), stdutil::make_std_array<long>(y.shape())));
    long k = 0;
    auto *p = r.data();
    for_each(x.shape(), [&](auto... i) { for_each(y.shape(), [&](auto... j) { p[k++] = x(i...) * y(j...); }); });
    return r;
  }
} // namespace nda::blas
namespace nda { using blas::dot; using blas::dotc; }
