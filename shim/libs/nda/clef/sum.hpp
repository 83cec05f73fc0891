#pragma once
#include "./clef.hpp"
#include <itertools/itertools.hpp>
namespace nda::clef {
  namespace detail {
    template <typename F, typename D> auto sum_f_domain_impl(F const &f, D const &d) {
      auto it = d.begin(), ite = d.end();
      auto res = [&] { return std::decay_t<decltype(f(*it))>(f(*it)); };
      auto r = res();
      ++it;
      for (; !(it == ite); ++it) r = r + f(*it);
      return r;
    }
  } // namespace detail
  template <typename F, typename D> auto sum(F const &f, D const &d)
    requires(!is_clef_expression<F>)
  {
    return detail::sum_f_domain_impl(f, d);
  }
  template <typename F, typename D0, typename D1, typename... D> auto sum(F const &f, D0 const &d0, D1 const &d1, D const &...d)
    requires(!is_clef_expression<F>)
  {
    return sum([&](auto const &x0) { return sum([&](auto &&...y) { return f(x0, y...); }, d1, d...); }, d0);
  }
  // sum(expr, k_ = domain, ...); lazy if expr has other placeholders
  namespace detail {
    struct sum_op {
      template <typename F, typename... D> auto operator()(F const &f, D const &...d) const { return sum(f, d...); }
    };
  } // namespace detail
  template <typename E, int... N, typename... D> auto sum(E const &e, pair<N, D> const &...d)
    requires(is_clef_expression<E>)
  {
    auto f = make_function(e, placeholder<N>{}...);
    if constexpr (is_lazy1<decltype(f)>) return expr<tags::function, detail::sum_op, decltype(f), std::decay_t<D>...>{tags::function{}, detail::sum_op{}, f, d.rhs...};
    else return sum(f, d.rhs...);
  }
} // namespace nda::clef
namespace nda::clef { using nda::clef::sum; }
