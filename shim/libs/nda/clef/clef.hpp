// Stand-in for nda's CLEF: compile-time lazy expressions.
#pragma once
#include <cmath>
#include <complex>
#include <functional>
#include <iostream>
#include <tuple>
#include <type_traits>
#include <utility>

namespace nda::clef {
  namespace tags {
    struct function {};
    struct subscript {};
    struct terminal {};
    struct if_else {};
    struct unary_op {};
    struct binary_op {};
  } // namespace tags

  template <typename Tag, typename... T> struct expr;
  template <int N> struct placeholder;
  template <typename Expr, int... Is> struct make_fun_impl;

  template <typename T> inline constexpr bool is_expr_v                  = false;
  template <typename Tag, typename... T> inline constexpr bool is_expr_v<expr<Tag, T...>> = true;
  template <typename T> inline constexpr bool is_ph_v = false;
  template <int N> inline constexpr bool is_ph_v<placeholder<N>> = true;
  template <typename T> inline constexpr bool is_fun_v = false;
  template <typename E, int... Is> inline constexpr bool is_fun_v<make_fun_impl<E, Is...>> = true;
  // set of placeholders in T, as a bit mask
  template <typename T> struct ph_set { static constexpr unsigned long value = 0; };
  template <typename T> struct ph_set<T const> : ph_set<T> {};
  template <typename T> struct ph_set<T &> : ph_set<T> {};
  template <typename T> struct ph_set<T &&> : ph_set<T> {};
  template <typename T> struct ph_set<std::reference_wrapper<T>> : ph_set<T> {};
  template <int N> struct ph_set<placeholder<N>> { static constexpr unsigned long value = 1ul << N; };
  template <typename Tag, typename... T> struct ph_set<expr<Tag, T...>> { static constexpr unsigned long value = (ph_set<T>::value | ... | 0ul); };
  template <typename E, int... Is> struct ph_set<make_fun_impl<E, Is...>> { static constexpr unsigned long value = ph_set<E>::value & ~((1ul << Is) | ... | 0ul); };

  template <typename T> inline constexpr bool is_lazy1 = (ph_set<std::decay_t<T>>::value != 0);
  template <typename... T> inline constexpr bool is_any_lazy = (is_lazy1<T> or ... or false);
  template <typename... T> inline constexpr bool is_lazy     = is_any_lazy<T...>;
  template <typename T> inline constexpr bool is_clef_expression1 = is_expr_v<std::decay_t<T>> or is_ph_v<std::decay_t<T>>;
  template <typename... T> inline constexpr bool is_clef_expression = (is_clef_expression1<T> or ... or false);
  template <typename T> inline constexpr bool is_function = is_fun_v<std::decay_t<T>>;
  template <typename T> struct force_copy_in_expr_impl : std::false_type {};
  template <typename T> inline constexpr bool force_copy_in_expr = force_copy_in_expr_impl<std::decay_t<T>>::value;

  // storage of a node: lvalues by reference (unless clef types or arithmetic), rvalues by value
  template <typename T> struct storage_impl { using type = std::decay_t<T>; };
  template <typename T>
    requires(!is_clef_expression1<T> and !std::is_arithmetic_v<std::decay_t<T>> and !force_copy_in_expr<T> and !is_function<T>)
  struct storage_impl<T &> { using type = std::reference_wrapper<T>; };
  template <typename T> using expr_storage_t = typename storage_impl<T>::type;

  template <int N, typename T> struct pair {
    T rhs;
    static constexpr int p = N;
  };

  // ---- operations
  template <typename Tag> struct operation;
  template <> struct operation<tags::function> {
    template <typename F, typename... A> decltype(auto) operator()(F &&f, A &&...a) const { return std::forward<F>(f)(std::forward<A>(a)...); }
  };
  template <> struct operation<tags::subscript> {
    template <typename F, typename... A> decltype(auto) operator()(F &&f, A &&...a) const { return std::forward<F>(f)[std::forward<A>(a)...]; }
  };
  template <> struct operation<tags::terminal> {
    template <typename T> T operator()(T &&x) const { return std::forward<T>(x); }
  };
  template <> struct operation<tags::if_else> {
    template <typename C, typename A, typename B> auto operator()(C const &c, A const &a, B const &b) const { return c ? a : b; }
  };

  template <typename T> decltype(auto) unwrap(T &&x) { return std::forward<T>(x); }
  template <typename T> T &unwrap(std::reference_wrapper<T> &x) { return x.get(); }
  template <typename T> T &unwrap(std::reference_wrapper<T> const &x) { return x.get(); }
  template <typename T> T &unwrap(std::reference_wrapper<T> &&x) { return x.get(); }

  // ---- eval
  template <typename T, typename... P> decltype(auto) eval(T const &x, P const &...p);
  namespace detail {
    template <int N> decltype(auto) find_ph() { return placeholder<N>{}; }
    template <int N, int M, typename U, typename... P> decltype(auto) find_ph(pair<M, U> const &p, P const &...rest) {
      if constexpr (N == M) return (p.rhs);
      else return find_ph<N>(rest...);
    }
    template <typename T> struct eval_impl {
      template <typename... P> static T const &invoke(T const &x, P const &...) { return x; }
    };
    template <typename T> struct eval_impl<std::reference_wrapper<T>> {
      template <typename... P> static decltype(auto) invoke(std::reference_wrapper<T> const &x, P const &...p) {
        if constexpr (is_lazy1<T>) return eval(x.get(), p...);
        else return (x.get());
      }
    };
    template <int N> struct eval_impl<placeholder<N>> {
      template <typename... P> static decltype(auto) invoke(placeholder<N> const &, P const &...p) { return find_ph<N>(p...); }
    };
    template <typename Tag, typename... T> struct eval_impl<expr<Tag, T...>> {
      template <size_t... Is, typename... P> static decltype(auto) imp(std::index_sequence<Is...>, expr<Tag, T...> const &e, P const &...p) {
        return op_dispatch(eval(std::get<Is>(e.childs), p...)...);
      }
      template <typename... P> static decltype(auto) invoke(expr<Tag, T...> const &e, P const &...p) { return imp(std::index_sequence_for<T...>{}, e, p...); }
      template <typename... X> static decltype(auto) op_dispatch(X &&...x) {
        if constexpr (is_any_lazy<X...>) return expr<Tag, expr_storage_t<X>...>{Tag{}, std::forward<X>(x)...};
        else return operation<Tag>()(std::forward<X>(x)...);
      }
    };
    template <typename E, int... Is> struct eval_impl<make_fun_impl<E, Is...>> {
      template <typename... P> static auto invoke(make_fun_impl<E, Is...> const &f, P const &...p) {
        auto e = eval(f.ex, p...);
        return make_fun_impl<decltype(e), Is...>{std::move(e)};
      }
    };
  } // namespace detail
  template <typename T, typename... P> decltype(auto) eval(T const &x, P const &...p) { return detail::eval_impl<T>::invoke(x, p...); }

  // ---- expression
  template <typename Tag, typename... T> struct expr {
    using childs_t = std::tuple<T...>;
    childs_t childs;
    expr(expr const &) = default;
    expr(expr &&x) noexcept : childs(std::move(x.childs)) {}
    expr &operator=(expr const &) = delete;
    template <typename... Args> expr(Tag, Args &&...args) : childs(std::forward<Args>(args)...) {}

    template <typename... Args> auto operator()(Args &&...args) const { return expr<tags::function, expr, expr_storage_t<Args>...>{tags::function(), *this, std::forward<Args>(args)...}; }
    template <typename... Args> auto operator[](Args &&...args) const { return expr<tags::subscript, expr, expr_storage_t<Args>...>{tags::subscript(), *this, std::forward<Args>(args)...}; }

    template <typename RHS> void operator<<(RHS &&rhs) const { assign(*this, std::forward<RHS>(rhs)); }
  };

  template <int N> struct placeholder {
    static constexpr int index = N;
    template <typename RHS> pair<N, RHS> operator=(RHS &&rhs) const { return {std::forward<RHS>(rhs)}; }
    template <typename... T> auto operator()(T &&...x) const { return expr<tags::function, placeholder, expr_storage_t<T>...>{tags::function{}, *this, std::forward<T>(x)...}; }
    template <typename... T> auto operator[](T &&...x) const { return expr<tags::subscript, placeholder, expr_storage_t<T>...>{tags::subscript{}, *this, std::forward<T>(x)...}; }
  };

  // ---- functions
  template <typename Expr, int... Is> struct make_fun_impl {
    Expr ex;
    template <typename... Args> decltype(auto) operator()(Args &&...args) const { return eval(ex, pair<Is, Args>{std::forward<Args>(args)}...); }
  };
  template <typename Expr, typename... Ph> auto make_function(Expr &&e, Ph...) { return make_fun_impl<std::decay_t<Expr>, Ph::index...>{std::forward<Expr>(e)}; }
  namespace literals = ::nda::clef;
  // x >> expr : partial function
  template <typename... Ph, typename RHS> auto operator>>(std::tuple<Ph...>, RHS &&rhs) { return make_function(std::forward<RHS>(rhs), Ph{}...); }
  template <typename... Ph> std::tuple<Ph...> var(Ph...) { return {}; }
  template <int N, typename RHS> auto operator>>(placeholder<N> p, RHS &&rhs) { return make_function(std::forward<RHS>(rhs), p); }

  // ---- making nodes
  template <typename Obj, typename... Args> auto make_expr_call(Obj &&obj, Args &&...args) {
    static_assert(is_any_lazy<Args...>);
    return expr<tags::function, expr_storage_t<Obj>, expr_storage_t<Args>...>{tags::function{}, std::forward<Obj>(obj), std::forward<Args>(args)...};
  }
  template <typename Obj, typename... Args> auto make_expr_subscript(Obj &&obj, Args &&...args) {
    static_assert(is_any_lazy<Args...>);
    return expr<tags::subscript, expr_storage_t<Obj>, expr_storage_t<Args>...>{tags::subscript{}, std::forward<Obj>(obj), std::forward<Args>(args)...};
  }
  template <typename T> auto make_expr(T &&x) { return expr<tags::terminal, expr_storage_t<T>>{tags::terminal{}, std::forward<T>(x)}; }
  template <typename T> auto make_expr_from_clone(T const &x) { return expr<tags::terminal, T>{tags::terminal{}, x}; }
  template <typename C, typename A, typename B> auto if_else(C &&c, A &&a, B &&b) {
    return expr<tags::if_else, expr_storage_t<C>, expr_storage_t<A>, expr_storage_t<B>>{tags::if_else{}, std::forward<C>(c), std::forward<A>(a), std::forward<B>(b)};
  }

  // ---- assignment:  A(i_,j_) << rhs,  A[i_] << rhs, A[i_](j_) << rhs
  template <typename T, typename F> void clef_auto_assign(std::reference_wrapper<T> r, F &&f);
  template <typename Tag, typename... C, typename F> void clef_auto_assign(expr<Tag, C...> const &e, F &&f);

  namespace detail {
    template <int N> placeholder<N> only_ph(placeholder<N> p) { return p; }
    template <typename RHS, typename... Ph> auto rhs_fun(RHS &&rhs, Ph const &...ph) {
      if constexpr (is_clef_expression1<RHS> or is_function<RHS>) return make_function(std::forward<RHS>(rhs), only_ph(ph)...);
      else return make_function(make_expr_from_clone(std::decay_t<RHS>(std::forward<RHS>(rhs))), only_ph(ph)...);
    }
  } // namespace detail

  template <typename F, typename... A, typename RHS> void assign(expr<tags::function, F, A...> const &ex, RHS &&rhs) {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
      clef_auto_assign(std::get<0>(ex.childs), detail::rhs_fun(std::forward<RHS>(rhs), std::get<Is + 1>(ex.childs)...));
    }(std::make_index_sequence<sizeof...(A)>{});
  }
  template <typename F, typename... A, typename RHS> void assign(expr<tags::subscript, F, A...> const &ex, RHS &&rhs) {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
      clef_auto_assign_subscript(std::get<0>(ex.childs), detail::rhs_fun(std::forward<RHS>(rhs), std::get<Is + 1>(ex.childs)...));
    }(std::make_index_sequence<sizeof...(A)>{});
  }
  template <typename T, typename F> void clef_auto_assign(std::reference_wrapper<T> r, F &&f) { clef_auto_assign(r.get(), std::forward<F>(f)); }
  template <typename T, typename F> void clef_auto_assign_subscript(std::reference_wrapper<T> r, F &&f) { clef_auto_assign_subscript(r.get(), std::forward<F>(f)); }
  template <typename Tag, typename... C, typename F> void clef_auto_assign(expr<Tag, C...> const &e, F &&f) { e << std::forward<F>(f); }
  template <typename Tag, typename... C, typename F> void clef_auto_assign_subscript(expr<Tag, C...> const &e, F &&f) { e << std::forward<F>(f); }

  // ---- operators
#define SHIM_BIN(NAME, OP)                                                                                                                           \
  namespace tags {                                                                                                                                   \
    struct NAME : binary_op {                                                                                                                        \
      static const char *name() { return #OP; }                                                                                                      \
    };                                                                                                                                               \
  }                                                                                                                                                  \
  template <> struct operation<tags::NAME> {                                                                                                         \
    template <typename L, typename R> decltype(auto) operator()(L &&l, R &&r) const { return std::forward<L>(l) OP std::forward<R>(r); }             \
  };                                                                                                                                                 \
  template <typename L, typename R>                                                                                                                  \
    requires(is_clef_expression<L, R>)                                                                                                               \
  auto operator OP(L &&l, R &&r) {                                                                                                                   \
    return expr<tags::NAME, expr_storage_t<L>, expr_storage_t<R>>{tags::NAME{}, std::forward<L>(l), std::forward<R>(r)};                             \
  }
  SHIM_BIN(plus, +)
  SHIM_BIN(minus, -)
  SHIM_BIN(multiplies, *)
  SHIM_BIN(divides, /)
  SHIM_BIN(greater, >)
  SHIM_BIN(less, <)
  SHIM_BIN(leq, <=)
  SHIM_BIN(geq, >=)
  SHIM_BIN(eq, ==)
#undef SHIM_BIN
  namespace tags {
    struct negate : unary_op {};
    struct loginot : unary_op {};
  } // namespace tags
  template <> struct operation<tags::negate> {
    template <typename L> decltype(auto) operator()(L &&l) const { return -std::forward<L>(l); }
  };
  template <> struct operation<tags::loginot> {
    template <typename L> decltype(auto) operator()(L &&l) const { return !std::forward<L>(l); }
  };
  template <typename L>
    requires(is_clef_expression<L>)
  auto operator-(L &&l) {
    return expr<tags::negate, expr_storage_t<L>>{tags::negate{}, std::forward<L>(l)};
  }
  template <typename L>
    requires(is_clef_expression<L>)
  auto operator!(L &&l) {
    return expr<tags::loginot, expr_storage_t<L>>{tags::loginot{}, std::forward<L>(l)};
  }

  template <typename T>
    requires(is_clef_expression<T>)
  std::ostream &operator<<(std::ostream &o, T const &) {
    return o << "<clef expr>";
  }

#define CLEF_MAKE_FNT_LAZY(name)                                                                                                                     \
  struct name##_lazy_impl {                                                                                                                          \
    template <typename... A> decltype(auto) operator()(A &&...a) const { return name(std::forward<A>(a)...); }                                       \
  };                                                                                                                                                 \
  template <typename... A>                                                                                                                           \
    requires(nda::clef::is_clef_expression<A...>)                                                                                                    \
  auto name(A &&...a) {                                                                                                                              \
    return nda::clef::make_expr_call(name##_lazy_impl{}, std::forward<A>(a)...);                                                                     \
  }
#define CLEF_IMPLEMENT_LAZY_METHOD(...)
#define CLEF_IMPLEMENT_LAZY_CALL(...)                                                                                                                \
  template <typename... Args>                                                                                                                        \
    requires(nda::clef::is_any_lazy<Args...>)                                                                                                        \
  auto operator()(Args &&...args) const & {                                                                                                          \
    return nda::clef::make_expr_call(*this, std::forward<Args>(args)...);                                                                            \
  }                                                                                                                                                  \
  template <typename... Args>                                                                                                                        \
    requires(nda::clef::is_any_lazy<Args...>)                                                                                                        \
  auto operator()(Args &&...args) & {                                                                                                                \
    return nda::clef::make_expr_call(*this, std::forward<Args>(args)...);                                                                            \
  }                                                                                                                                                  \
  template <typename... Args>                                                                                                                        \
    requires(nda::clef::is_any_lazy<Args...>)                                                                                                        \
  auto operator()(Args &&...args) && {                                                                                                               \
    return nda::clef::make_expr_call(std::move(*this), std::forward<Args>(args)...);                                                                 \
  }
} // namespace nda::clef
