// Stand-in for TRIQS/itertools (not installed here): same observable semantics for what TRIQS uses.
#pragma once
#include <array>
#include <cstddef>
#include <iterator>
#include <optional>
#include <ostream>
#include <ranges>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <vector>
#include <string>

namespace itertools {

  template <class Iter> struct sentinel_t {
    Iter it;
  };
  template <class Iter> sentinel_t<Iter> make_sentinel(Iter it) { return {std::move(it)}; }

  template <class Iter, class Value, class Tag = std::forward_iterator_tag, class Reference = Value &, class Difference = std::ptrdiff_t> struct iterator_facade {
    private:
    Iter &self() { return static_cast<Iter &>(*this); }
    Iter const &self() const { return static_cast<Iter const &>(*this); }

    public:
    using value_type        = std::remove_cv_t<Value>;
    using reference         = Reference;
    using pointer           = Value *;
    using difference_type   = Difference;
    using iterator_category = Tag;

    Iter &operator++() {
      self().increment();
      return self();
    }
    Iter operator++(int) {
      Iter c = self();
      self().increment();
      return c;
    }
    template <class U> bool operator==(U const &other) const { return self().equal(other); }
    template <class U> bool operator!=(U const &other) const { return !self().equal(other); }
    decltype(auto) operator*() const { return self().dereference(); }
    decltype(auto) operator->() const { return operator*(); }
  };

  // -------- range ---------
  struct range {
    private:
    long first_, last_, step_;

    public:
    range(long last = 0) noexcept : range(0, last, 1) {}
    range(long first, long last, long step = 1) : first_(first), last_(last), step_(step) {
      if (step_ == 0) throw std::runtime_error("A step of zero is not allowed");
    }
    [[nodiscard]] long first() const { return first_; }
    [[nodiscard]] long last() const { return last_; }
    [[nodiscard]] long step() const { return step_; }
    [[nodiscard]] long size() const {
      if (step_ > 0) return last_ > first_ ? (last_ - first_ + step_ - 1) / step_ : 0;
      return first_ > last_ ? (first_ - last_ + (-step_) - 1) / (-step_) : 0;
    }
    bool operator==(range const &) const = default;

    struct const_iterator {
      long pos = 0, last = 0, step = 1;
      using value_type        = long;
      using reference         = long;
      using pointer           = long const *;
      using difference_type   = std::ptrdiff_t;
      using iterator_category = std::forward_iterator_tag;
      long operator*() const { return pos; }
      const_iterator &operator++() {
        pos += step;
        return *this;
      }
      const_iterator operator++(int) {
        auto c = *this;
        pos += step;
        return c;
      }
      [[nodiscard]] bool atend() const { return step > 0 ? pos >= last : pos <= last; }
      bool operator==(const_iterator const &o) const { return pos == o.pos or (atend() and o.atend()); }
      bool operator==(std::default_sentinel_t) const { return atend(); }
    };
    using iterator = const_iterator;
    [[nodiscard]] const_iterator begin() const { return {first_, last_, step_}; }
    [[nodiscard]] const_iterator cbegin() const { return begin(); }
    [[nodiscard]] const_iterator end() const { return {last_, last_, step_}; }
    [[nodiscard]] const_iterator cend() const { return end(); }
    friend std::ostream &operator<<(std::ostream &o, range const &r) { return o << "range(" << r.first() << "," << r.last() << "," << r.step() << ")"; }
    friend range operator+(range const &r, long s) { return {r.first_ + s, r.last_ + s, r.step_}; }
  };

  namespace detail {
    template <typename X> struct box { // by value for rvalues, by reference for lvalues
      X x;
    };
    template <typename F> struct copyable_fn { // default constructible, assignable lambda
      std::optional<F> f;
      copyable_fn() = default;
      copyable_fn(F const &g) : f(g) {}
      copyable_fn(copyable_fn const &o) : f(o.f) {}
      copyable_fn &operator=(copyable_fn const &o) {
        if (this != &o) {
          f.reset();
          if (o.f) f.emplace(*o.f);
        }
        return *this;
      }
      template <typename... U> decltype(auto) operator()(U &&...u) const { return (*f)(std::forward<U>(u)...); }
    };
    template <typename It, typename End> bool at_end(It const &i, End const &e) { return i == e; }
    template <typename X> auto cbeg(X const &x) { using std::begin; return begin(x); }
    template <typename X> auto cen(X const &x) { using std::end; return end(x); }
    template <typename X> auto beg(X &x) { using std::begin; return begin(x); }
    template <typename X> auto en(X &x) { using std::end; return end(x); }
    template <typename X> long len(X const &x) {
      if constexpr (requires { x.size(); }) return long(x.size());
      else if constexpr (std::is_array_v<X>) return long(std::extent_v<X>);
      else { long n = 0; for (auto it = cbeg(x); !(it == cen(x)); ++it) ++n; return n; }
    }
  } // namespace detail

  // -------- transform ---------
  template <typename It, typename F> struct transform_iter {
    It it;
    mutable detail::copyable_fn<F> f;
    using reference         = decltype(std::declval<F &>()(*std::declval<It const &>()));
    using value_type        = std::decay_t<reference>;
    using pointer           = void;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    decltype(auto) operator*() const { return (*f.f)(*it); }
    transform_iter &operator++() {
      ++it;
      return *this;
    }
    transform_iter operator++(int) {
      auto c = *this;
      ++it;
      return c;
    }
    bool operator==(transform_iter const &o) const { return it == o.it; }
    template <typename E> bool operator==(sentinel_t<E> const &o) const { return it == o.it; }
    template <typename E>
      requires(std::is_same_v<E, It>)
    bool operator==(E const &o) const { return it == o; }
  };
  template <typename X, typename F> struct transformed {
    X x;
    F f;
    using It = decltype(detail::cbeg(std::declval<std::remove_reference_t<X> const &>()));
    using const_iterator = transform_iter<It, F>;
    using iterator       = const_iterator;
    [[nodiscard]] const_iterator begin() const { return {detail::cbeg(x), detail::copyable_fn<F>(f)}; }
    [[nodiscard]] const_iterator cbegin() const { return begin(); }
    [[nodiscard]] auto end() const {
      using E = decltype(detail::cen(x));
      if constexpr (std::is_same_v<E, It>) return const_iterator{detail::cen(x), detail::copyable_fn<F>(f)};
      else return sentinel_t<E>{detail::cen(x)};
    }
    [[nodiscard]] auto cend() const { return end(); }
    [[nodiscard]] long size() const { return detail::len(x); }
  };
  template <typename X, typename F> auto transform(X &&x, F f) { return transformed<std::conditional_t<std::is_lvalue_reference_v<X>, std::remove_reference_t<X> const &, std::decay_t<X>>, F>{std::forward<X>(x), std::move(f)}; }

  // -------- enumerate ---------
  template <typename It> struct enum_iter {
    It it;
    long i                  = 0;
    using reference         = std::tuple<long, decltype(*std::declval<It &>())>;
    using value_type        = reference;
    using pointer           = void;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    reference operator*() const { return reference{i, *it}; }
    enum_iter &operator++() {
      ++it;
      ++i;
      return *this;
    }
    enum_iter operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    bool operator==(enum_iter const &o) const { return it == o.it; }
    template <typename E> bool operator==(sentinel_t<E> const &o) const { return it == o.it; }
    template <typename E>
      requires(std::is_same_v<E, It>)
    bool operator==(E const &o) const { return it == o; }
  };
  template <typename X> struct enumerated {
    X x;
    auto begin() { return enum_iter<decltype(detail::beg(x))>{detail::beg(x)}; }
    auto end() { return sentinel_t<decltype(detail::en(x))>{detail::en(x)}; }
    auto begin() const { return enum_iter<decltype(detail::beg(x))>{detail::beg(x)}; }
    auto end() const { return sentinel_t<decltype(detail::en(x))>{detail::en(x)}; }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
    long size() const { return detail::len(x); }
  };
  template <typename X> auto enumerate(X &&x) { return enumerated<X>{std::forward<X>(x)}; }

  // -------- zip ---------
  template <typename... It> struct zip_iter {
    std::tuple<It...> its;
    using reference         = std::tuple<decltype(*std::declval<It &>())...>;
    using value_type        = reference;
    using pointer           = void;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    reference operator*() const {
      return std::apply([](auto const &...i) { return reference{*i...}; }, its);
    }
    zip_iter &operator++() {
      std::apply([](auto &...i) { (++i, ...); }, its);
      return *this;
    }
    zip_iter operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    bool operator==(zip_iter const &o) const { return eq(o.its, std::index_sequence_for<It...>{}); }
    template <typename... E> bool operator==(sentinel_t<std::tuple<E...>> const &o) const { return eq(o.it, std::index_sequence_for<It...>{}); }
    private:
    template <typename T, size_t... Is> bool eq(T const &t, std::index_sequence<Is...>) const { return ((std::get<Is>(its) == std::get<Is>(t)) or ...); }
  };
  template <typename... X> struct zipped {
    std::tuple<X...> xs;
    auto begin() {
      return std::apply([](auto &...x) { return zip_iter<decltype(detail::beg(x))...>{{detail::beg(x)...}}; }, xs);
    }
    auto end() {
      return std::apply([](auto &...x) { return sentinel_t<std::tuple<decltype(detail::en(x))...>>{{detail::en(x)...}}; }, xs);
    }
    auto begin() const {
      return std::apply([](auto &...x) { return zip_iter<decltype(detail::beg(x))...>{{detail::beg(x)...}}; }, xs);
    }
    auto end() const {
      return std::apply([](auto &...x) { return sentinel_t<std::tuple<decltype(detail::en(x))...>>{{detail::en(x)...}}; }, xs);
    }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
  };
  template <typename... X> auto zip(X &&...x) { return zipped<X...>{std::tuple<X...>{std::forward<X>(x)...}}; }

  // -------- product : last one runs fastest ---------
  template <typename... It> struct prod_iter {
    // (begin, current, end) triplets
    static constexpr size_t N = sizeof...(It);
    std::tuple<It...> b, c, e;
    bool done               = true;
    using reference         = std::tuple<decltype(*std::declval<It const &>())...>;
    using value_type        = reference;
    using pointer           = void;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    prod_iter()             = default;
    prod_iter(std::tuple<It...> bb, std::tuple<It...> ee, bool at_end) : b(bb), c(bb), e(ee), done(at_end) {
      if (!done) done = any_empty(std::index_sequence_for<It...>{});
    }
    reference operator*() const {
      return std::apply([](auto const &...i) { return reference{*i...}; }, c);
    }
    prod_iter &operator++() {
      inc<N - 1>();
      return *this;
    }
    prod_iter operator++(int) {
      auto r = *this;
      ++*this;
      return r;
    }
    bool operator==(prod_iter const &o) const { return (done and o.done) or (done == o.done and c == o.c); }

    private:
    template <size_t... Is> bool any_empty(std::index_sequence<Is...>) const { return ((std::get<Is>(b) == std::get<Is>(e)) or ...); }
    template <size_t I> void inc() {
      ++std::get<I>(c);
      if (std::get<I>(c) == std::get<I>(e)) {
        std::get<I>(c) = std::get<I>(b);
        if constexpr (I > 0) inc<I - 1>();
        else done = true;
      }
    }
  };
  template <typename... X> struct producted {
    std::tuple<X...> xs;
    using const_iterator = prod_iter<decltype(detail::cbeg(std::declval<std::remove_reference_t<X> const &>()))...>;
    using iterator       = const_iterator;
    [[nodiscard]] const_iterator begin() const { return mk(false); }
    [[nodiscard]] const_iterator cbegin() const { return mk(false); }
    [[nodiscard]] const_iterator end() const { return mk(true); }
    [[nodiscard]] const_iterator cend() const { return mk(true); }
    [[nodiscard]] long size() const {
      return std::apply([](auto const &...x) { return (detail::len(x) * ... * 1L); }, xs);
    }

    private:
    const_iterator mk(bool at_end) const {
      return std::apply([at_end](auto const &...x) { return const_iterator({detail::cbeg(x)...}, {detail::cen(x)...}, at_end); }, xs);
    }
  };
  template <typename... X> auto product(X &&...x) {
    return producted<std::conditional_t<std::is_lvalue_reference_v<X>, std::remove_reference_t<X> const &, std::decay_t<X>>...>{{std::forward<X>(x)...}};
  }
  template <typename... I>
    requires(std::is_integral_v<std::decay_t<I>> and ...)
  auto product_range(I... n) {
    return product(range(long(n))...);
  }
  template <typename I, size_t N> auto product_range(std::array<I, N> const &a) {
    return [&]<size_t... Is>(std::index_sequence<Is...>) { return product(range(long(a[Is]))...); }(std::make_index_sequence<N>{});
  }

  template <typename X> auto make_vector_from_range(X const &x) {
    std::vector<std::decay_t<decltype(*detail::cbeg(x))>> v;
    for (auto const &y : x) v.push_back(y);
    return v;
  }
  inline std::pair<std::ptrdiff_t, std::ptrdiff_t> chunk_range(long first, long last, long n_chunks, long rank) {
    auto c = (last - first) / n_chunks, r = (last - first) % n_chunks;
    auto s = first + c * rank + std::min(rank, r);
    return {s, s + c + (rank < r ? 1 : 0)};
  }
  template <typename F> void foreach(range const &r, F &&f) { for (auto i : r) f(i); }
} // namespace itertools

// a range can be copied with its iterators surviving
template <> inline constexpr bool std::ranges::enable_borrowed_range<itertools::range> = true;
template <typename X, typename F> inline constexpr bool std::ranges::enable_borrowed_range<itertools::transformed<X, F>> = true;
