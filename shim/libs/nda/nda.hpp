// Stand-in for TRIQS/nda (not installed here). Same observable semantics for the part TRIQS uses.
// Every element access and every shape is checked; uninitialised doubles are NaN.
#pragma once
#include "./macros.hpp"
#include "./clef/clef.hpp"
#include "./stdutil/array.hpp"
#include "./stdutil/complex.hpp"
#include <itertools/itertools.hpp>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <concepts>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numeric>
#include <ostream>
#include <random>
#include <span>
#include <stdexcept>
#include <string>
#include <vector>

namespace nda {
  using dcomplex = std::complex<double>;
  namespace detail { using ::nda::detail::shim_fail; }
  struct runtime_error : std::runtime_error {
    using std::runtime_error::runtime_error;
  };

  // ---------------- ranges ----------------
  struct range : itertools::range {
    using itertools::range::range;
    range(itertools::range const &r) : itertools::range(r) {}
    struct all_t {};
    static constexpr all_t all = {};
  };
  struct ellipsis : range::all_t {};

  // ---------------- scalars ----------------
  template <typename T> inline constexpr bool is_complex_v                    = false;
  template <typename T> inline constexpr bool is_complex_v<std::complex<T>>   = true;
  template <typename T> inline constexpr bool is_scalar_v                     = std::is_arithmetic_v<std::remove_cvref_t<T>> or is_complex_v<std::remove_cvref_t<T>>;
  template <typename T> inline constexpr bool is_scalar_or_convertible_v      = is_scalar_v<T>;
  template <typename T> inline constexpr bool is_double_or_complex_v          = std::is_same_v<std::remove_cvref_t<T>, double> or std::is_same_v<std::remove_cvref_t<T>, dcomplex>;
  template <typename T>
  concept Scalar = is_scalar_v<T>;
  template <typename T, typename... U> inline constexpr bool is_any_of = (std::is_same_v<T, U> or ...);

  // ---------------- layouts ----------------
  namespace detail {
    template <size_t N> constexpr uint64_t encode_impl(std::array<int, N> const &a) {
      uint64_t r = 0;
      for (size_t i = 0; i < N; ++i) r |= uint64_t(a[i]) << (4 * i);
      return r;
    }
  } // namespace detail
  template <size_t N> constexpr uint64_t encode(std::array<int, N> const &a) { return detail::encode_impl(a); }
  template <size_t N> constexpr std::array<int, N> decode(uint64_t b) {
    std::array<int, N> r{};
    for (size_t i = 0; i < N; ++i) r[i] = int((b >> (4 * i)) & 0xF);
    return r;
  }
  namespace permutations {
    template <int N> constexpr std::array<int, N> identity() {
      std::array<int, N> r{};
      for (int i = 0; i < N; ++i) r[i] = i;
      return r;
    }
    template <int N> constexpr std::array<int, N> reverse_identity() {
      std::array<int, N> r{};
      for (int i = 0; i < N; ++i) r[i] = N - 1 - i;
      return r;
    }
    template <int N> constexpr std::array<int, N> transposition(int a, int b) {
      auto r = identity<N>();
      r[a] = b;
      r[b] = a;
      return r;
    }
    template <int N> constexpr std::array<int, N> cycle(int p, int pos = N) {
      std::array<int, N> r{};
      for (int i = 0; i < N; ++i) r[i] = (i < pos ? (pos + i - p) % pos : i);
      return r;
    }
    template <size_t N> constexpr std::array<int, N> inverse(std::array<int, N> const &p) {
      std::array<int, N> r{};
      for (size_t i = 0; i < N; ++i) r[p[i]] = int(i);
      return r;
    }
  } // namespace permutations
  template <int N> constexpr uint64_t C_stride_order = encode(permutations::identity<N>());
  template <int N> constexpr uint64_t Fortran_stride_order = encode(permutations::reverse_identity<N>());

  enum class layout_prop_e : uint64_t { none = 0, strided_1d = 1, smallest_stride_is_one = 2, contiguous = 3 };

  template <int R, typename L> class idx_map;

  struct C_stride_layout;
  struct F_stride_layout;
  struct C_layout {
    template <int R> using mapping = idx_map<R, C_layout>;
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = C_layout;
    static constexpr bool contiguous = true;
    template <int R> static constexpr std::array<int, R> order() { return permutations::identity<R>(); }
  };
  struct C_stride_layout {
    template <int R> using mapping = idx_map<R, C_stride_layout>;
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = C_layout;
    static constexpr bool contiguous = false;
    template <int R> static constexpr std::array<int, R> order() { return permutations::identity<R>(); }
  };
  struct F_layout {
    template <int R> using mapping = idx_map<R, F_layout>;
    using with_lowest_guarantee_t = F_stride_layout;
    using contiguous_t            = F_layout;
    static constexpr bool contiguous = true;
    template <int R> static constexpr std::array<int, R> order() { return permutations::reverse_identity<R>(); }
  };
  struct F_stride_layout {
    template <int R> using mapping = idx_map<R, F_stride_layout>;
    using with_lowest_guarantee_t = F_stride_layout;
    using contiguous_t            = F_layout;
    static constexpr bool contiguous = false;
    template <int R> static constexpr std::array<int, R> order() { return permutations::reverse_identity<R>(); }
  };
  template <uint64_t StaticExtents, uint64_t StrideOrder, layout_prop_e P> struct basic_layout {
    template <int R> using mapping = idx_map<R, basic_layout>;
    using with_lowest_guarantee_t = basic_layout<StaticExtents, StrideOrder, layout_prop_e::none>;
    using contiguous_t            = basic_layout<StaticExtents, StrideOrder, layout_prop_e::contiguous>;
    static constexpr bool contiguous = (P == layout_prop_e::contiguous);
    template <int R> static constexpr std::array<int, R> order() { return decode<R>(StrideOrder); } // slowest first
  };

  template <int R, typename L> class idx_map {
    public:
    std::array<long, R> len{}, str{};
    static constexpr int rank() { return R; }
    static constexpr std::array<int, R> stride_order = L::template order<R>();
    idx_map() = default;
    template <typename I> explicit idx_map(std::array<I, R> const &l) {
      for (int i = 0; i < R; ++i) {
        len[i] = long(l[i]);
        if (len[i] < 0) detail::shim_fail("negative array extent");
      }
      auto o = L::template order<R>();
      long s = 1;
      for (int k = R - 1; k >= 0; --k) {
        str[o[k]] = s;
        s *= len[o[k]];
      }
    }
    idx_map(std::array<long, R> const &l, std::array<long, R> const &s) : len(l), str(s) {}
    template <typename L2> idx_map(idx_map<R, L2> const &o) : len(o.len), str(o.str) {}
    [[nodiscard]] std::array<long, R> const &lengths() const { return len; }
    [[nodiscard]] std::array<long, R> const &strides() const { return str; }
    [[nodiscard]] long size() const {
      long s = 1;
      for (auto x : len) s *= x;
      return s;
    }
    [[nodiscard]] long min_stride() const { return R == 0 ? 1 : *std::min_element(str.begin(), str.end()); }
    [[nodiscard]] bool is_contiguous() const { // in some order
      std::array<int, R> p{};
      for (int i = 0; i < R; ++i) p[i] = i;
      std::sort(p.begin(), p.end(), [&](int a, int b) { return str[a] < str[b]; });
      long s = 1;
      for (int i : p) {
        if (len[i] == 1) continue;
        if (str[i] != s) return false;
        s *= len[i];
      }
      return true;
    }
    [[nodiscard]] bool is_C_contiguous() const {
      long s = 1;
      for (int i = R - 1; i >= 0; --i) {
        if (len[i] != 1 and str[i] != s) return size() == 0;
        s *= len[i];
      }
      return true;
    }
    [[nodiscard]] bool is_stride_order_valid() const { return true; }
    template <typename L2> bool operator==(idx_map<R, L2> const &o) const { return len == o.len and str == o.str; }
  };

  // ---------------- concepts ----------------
  namespace detail {
    template <typename A> struct rank_impl {};
    template <typename A>
      requires requires(A const &a) { std::tuple_size<std::decay_t<decltype(a.shape())>>::value; }
    struct rank_impl<A> {
      static constexpr int value = std::tuple_size<std::decay_t<decltype(std::declval<A const &>().shape())>>::value;
    };
    template <typename T> struct is_std_arr : std::false_type {};
    template <typename T, size_t N> struct is_std_arr<std::array<T, N>> : std::true_type {};
    template <typename A, size_t... Is> auto call0(A const &a, std::index_sequence<Is...>) -> decltype(a((Is, 0L)...));
  } // namespace detail
  template <typename A>
  concept ArrayShaped = requires(A const &a) {
    a.shape();
    requires detail::is_std_arr<std::decay_t<decltype(a.shape())>>::value;
  };
  template <typename A> inline constexpr int get_rank = detail::rank_impl<std::remove_cvref_t<A>>::value;
  template <typename A>
  concept Array = ArrayShaped<std::remove_cvref_t<A>> and requires(std::remove_cvref_t<A> const &a) { detail::call0(a, std::make_index_sequence<get_rank<A>>{}); };
  template <typename A, int R>
  concept ArrayOfRank = Array<A> and (get_rank<A> == R);
  template <typename A>
  concept MemoryArray = Array<A> and requires(std::remove_cvref_t<A> const &a) {
    a.indexmap();
    a.storage();
    a.data();
  };
  template <typename A, int R>
  concept MemoryArrayOfRank = MemoryArray<A> and (get_rank<A> == R);
  template <typename A> inline constexpr bool is_ndarray_v = Array<A>;

  template <typename A> decltype(auto) get_first_element(A const &a) {
    return [&]<size_t... Is>(std::index_sequence<Is...>) -> decltype(auto) { return a((Is, 0L)...); }(std::make_index_sequence<get_rank<A>>{});
  }
  template <typename A> using get_value_t = std::decay_t<decltype(detail::call0(std::declval<std::remove_cvref_t<A> const &>(), std::make_index_sequence<get_rank<A>>{}))>;
  namespace detail {
    template <typename A> struct algebra_impl { static constexpr char value = 'N'; };
    template <typename A>
      requires(Array<A>)
    struct algebra_impl<A> { static constexpr char value = 'A'; };
  } // namespace detail
  template <typename A> inline constexpr char get_algebra = detail::algebra_impl<std::remove_cvref_t<A>>::value;
  template <typename A>
  concept Matrix = Array<A> and get_rank<A> == 2 and get_algebra<A> == 'M';
  template <typename A>
  concept Vector = Array<A> and get_rank<A> == 1;

  template <typename T = void> struct heap {};
  template <typename T = void> struct borrowed {};
  template <typename T> struct handle {
    T *p  = nullptr;
    long n = 0;
    [[nodiscard]] T *data() const { return p; }
    [[nodiscard]] long size() const { return n; }
  };

  template <typename T, int R, typename L, char Alg, typename C> class basic_array;
  template <typename T, int R, typename L = C_stride_layout, char Alg = 'A', typename AP = void, typename OP = void> class basic_array_view;
  namespace detail {
    template <typename T, int R, typename L, char Alg, typename C> struct algebra_impl<basic_array<T, R, L, Alg, C>> { static constexpr char value = Alg; };
    template <typename T, int R, typename L, char Alg, typename AP, typename OP> struct algebra_impl<basic_array_view<T, R, L, Alg, AP, OP>> { static constexpr char value = Alg; };
    template <typename A> inline constexpr bool is_own = false;
    template <typename T, int R, typename L, char Alg, typename C> inline constexpr bool is_own<basic_array<T, R, L, Alg, C>> = true;
    template <typename T, int R, typename L, char Alg, typename C> inline constexpr bool is_own<basic_array_view<T, R, L, Alg, C>> = true;
  } // namespace detail
  template <typename A> inline constexpr bool is_regular_v = false;
  template <typename T, int R, typename L, char Alg, typename C> inline constexpr bool is_regular_v<basic_array<T, R, L, Alg, C>> = true;
  template <typename A> inline constexpr bool is_view_v = false;
  template <typename T, int R, typename L, char Alg, typename AP, typename OP> inline constexpr bool is_view_v<basic_array_view<T, R, L, Alg, AP, OP>> = true;

  template <typename T, int R, typename L = C_layout, typename C = heap<>> using array = basic_array<T, R, L, 'A', C>;
  template <typename T, typename L = C_layout, typename C = heap<>> using matrix       = basic_array<T, 2, L, 'M', C>;
  template <typename T, typename C = heap<>> using vector                              = basic_array<T, 1, C_layout, 'V', C>;
  template <typename T, int R, typename L = C_stride_layout> using array_view          = basic_array_view<T, R, L, 'A'>;
  template <typename T, int R, typename L = C_stride_layout> using array_const_view    = basic_array_view<T const, R, L, 'A'>;
  template <typename T, int R, typename L = C_layout> using array_contiguous_view      = basic_array_view<T, R, L, 'A'>;
  template <typename T, int R, typename L = C_layout> using array_contiguous_const_view = basic_array_view<T const, R, L, 'A'>;
  template <typename T, typename L = C_stride_layout> using matrix_view                = basic_array_view<T, 2, L, 'M'>;
  template <typename T, typename L = C_stride_layout> using matrix_const_view          = basic_array_view<T const, 2, L, 'M'>;
  template <typename T, typename L = C_stride_layout> using vector_view                = basic_array_view<T, 1, L, 'V'>;
  template <typename T, typename L = C_stride_layout> using vector_const_view          = basic_array_view<T const, 1, L, 'V'>;
  template <typename T, long N> using stack_vector = basic_array<T, 1, C_layout, 'V', heap<>>;
  template <typename T, int... N> using stack_array = basic_array<T, sizeof...(N), C_layout, 'A', heap<>>;

  // ---------------- iteration ----------------
  namespace detail {
    template <int I, int R, typename F, typename... X> void for_each_rec(std::array<long, R> const &s, F &f, X... x) {
      if constexpr (I == R) f(x...);
      else
        for (long i = 0; i < s[I]; ++i) for_each_rec<I + 1, R>(s, f, x..., i);
    }
  } // namespace detail
  template <typename Int, size_t R, typename F> void for_each(std::array<Int, R> const &shape, F &&f) {
    detail::for_each_rec<0, int(R)>(stdutil::make_std_array<long>(shape), f);
  }

  namespace detail {
    // poison
    template <typename T> void poison(T *p, long n) {
      using U = std::remove_const_t<T>;
      if constexpr (std::is_floating_point_v<U>)
        for (long i = 0; i < n; ++i) p[i] = std::numeric_limits<U>::signaling_NaN();
      else if constexpr (std::is_integral_v<U> and !std::is_same_v<U, bool>)
        for (long i = 0; i < n; ++i) p[i] = U(0x5bd1e9955bd1e995ull);
    }
    // linear offsets in C order
    template <int R> struct odo {
      std::array<long, R> len, str, ix{};
      long off = 0;
      odo(std::array<long, R> const &l, std::array<long, R> const &s) : len(l), str(s) {}
      void next() {
        for (int k = R - 1; k >= 0; --k) {
          off += str[k];
          if (++ix[k] < len[k]) return;
          off -= str[k] * len[k];
          ix[k] = 0;
        }
      }
    };
    template <typename... A> inline constexpr int n_ints = ((std::is_convertible_v<A, long> ? 1 : 0) + ... + 0);
    template <typename A> inline constexpr bool is_all_or_ell = std::is_base_of_v<range::all_t, std::decay_t<A>>;
    template <typename A> inline constexpr bool is_ell        = std::is_same_v<ellipsis, std::decay_t<A>>;
    template <typename A> inline constexpr bool is_rg         = std::is_base_of_v<itertools::range, std::decay_t<A>>;
    template <typename A> inline constexpr bool is_index      = !is_rg<A> and !is_all_or_ell<A> and !clef::is_lazy1<A>;
    template <typename... A> inline constexpr int ell_count = (int(is_ell<A>) + ... + 0);
    template <int R, typename... A> inline constexpr int result_rank = R - (int(is_index<A>) + ... + 0);

    template <int R, int R2> struct slicer {
      std::array<long, R> const &len, &str;
      std::array<long, R2> l2{}, s2{};
      long off = 0;
      int k = 0, q = 0;
      void idx(long i) {
        if (i < 0 or i >= len[k]) shim_fail("index " + std::to_string(i) + " out of bounds in dimension " + std::to_string(k) + " of length " + std::to_string(len[k]));
        off += i * str[k++];
      }
      void all() {
        if constexpr (R2 > 0) {
          l2[q] = len[k];
          s2[q] = str[k];
        }
        ++q;
        ++k;
      }
      void rg(itertools::range const &r) {
        long n = r.size();
        if (n > 0 and (r.first() < 0 or r.first() >= len[k] or r.first() + (n - 1) * r.step() < 0 or r.first() + (n - 1) * r.step() >= len[k]))
          shim_fail("range(" + std::to_string(r.first()) + "," + std::to_string(r.last()) + ") out of bounds in dimension " + std::to_string(k) + " of length " + std::to_string(len[k]));
        if constexpr (R2 > 0) {
          l2[q] = n;
          s2[q] = str[k] * r.step();
        }
        if (n > 0) off += r.first() * str[k];
        ++q;
        ++k;
      }
      template <typename A> void arg(A const &a, int n_args) {
        if constexpr (is_ell<A>) {
          int n = R - (n_args - 1);
          for (int i = 0; i < n; ++i) all();
        } else if constexpr (is_all_or_ell<A>) all();
        else if constexpr (is_rg<A>) rg(a);
        else idx(static_cast<long>(a));
      }
    };
    template <char A, int R2> inline constexpr char slice_algebra = (A == 'M' ? (R2 == 2 ? 'M' : (R2 == 1 ? 'V' : 'A')) : (A == 'V' and R2 != 1 ? 'A' : A));

    template <typename Self, typename T, int R, typename L, char ResAlg, typename... Args>
    decltype(auto) call_impl(T *p, idx_map<R, L> const &im, Args const &...args) {
      constexpr int n = sizeof...(Args);
      if constexpr (n == 0) {
        return basic_array_view<T, R, L, ResAlg>(im, handle<T>{p, im.size()});
      } else {
        static_assert(ell_count<Args...> <= 1);
        static_assert(n == R or (ell_count<Args...> == 1 and n - 1 <= R), "incorrect number of arguments");
        constexpr int R2 = result_rank<R, Args...>;
        // ellipsis covering zero dimension and all ints -> element
        slicer<R, R2> s{im.len, im.str};
        (s.arg(args, n), ...);
        if constexpr (R2 == 0) return (p[s.off]);
        else {
          constexpr bool ident = (is_ell<Args> and ...);
          using L2             = std::conditional_t<ident, L, C_stride_layout>;
          return basic_array_view<T, R2, L2, slice_algebra<ResAlg, R2>>(idx_map<R2, L2>(s.l2, s.s2), handle<T>{p + s.off, 0});
        }
      }
    }
  } // namespace detail

  template <typename A> auto make_regular(A &&a);

  // copy any array-like rhs into (p,im)
  namespace detail {
    template <typename T, int R, typename L, typename RHS> void assign_from(T *p, idx_map<R, L> const &im, RHS const &rhs) {
      if (im.size() == 0) return;
      if constexpr (requires { rhs.indexmap(); rhs.data(); }) {
        using RT = std::remove_cvref_t<decltype(*rhs.data())>;
        auto const *q = rhs.data();
        auto const &ir = rhs.indexmap();
        long n = im.size();
        // through a temporary if they may overlap (deep-copy semantics independent of traversal order)
        odo<R> a(im.len, im.str), b(ir.lengths(), ir.strides());
        if constexpr (std::is_same_v<RT, T>) {
          if (q != p or !(im == ir)) {
            auto lo1 = p, hi1 = p; auto lo2 = q, hi2 = q;
            for (int k = 0; k < R; ++k) { hi1 += (im.len[k] - 1) * im.str[k]; hi2 += (ir.lengths()[k] - 1) * ir.strides()[k]; }
            bool overlap = !(std::max<T const *>(lo1, hi1) < std::min<T const *>(lo2, hi2) or std::max<T const *>(lo2, hi2) < std::min<T const *>(lo1, hi1));
            if (overlap) {
              std::vector<T> tmp;
              tmp.reserve(n);
              for (long i = 0; i < n; ++i, b.next()) tmp.push_back(q[b.off]);
              for (long i = 0; i < n; ++i, a.next()) p[a.off] = tmp[i];
              return;
            }
          }
        }
        for (long i = 0; i < n; ++i, a.next(), b.next()) {
          if constexpr (std::is_assignable_v<T &, RT const &>) p[a.off] = q[b.off];
          else p[a.off] = static_cast<T>(q[b.off]);
        }
      } else {
        odo<R> a(im.len, im.str);
        auto f = [&](auto... i) {
          using RT = decltype(rhs(i...));
          if constexpr (std::is_assignable_v<T &, RT>) p[a.off] = rhs(i...);
          else p[a.off] = T(rhs(i...));
          a.next();
        };
        nda::for_each(im.len, f);
      }
    }
    template <char Alg, typename T, int R, typename L, typename S> void assign_scalar(T *p, idx_map<R, L> const &im, S const &s) {
      odo<R> a(im.len, im.str);
      long n = im.size();
      for (long i = 0; i < n; ++i, a.next()) {
        if constexpr (Alg == 'M') {
          if constexpr (R == 2) p[a.off] = (a.ix[0] == a.ix[1] ? T(s) : T(0 * s));
        } else
          p[a.off] = s;
      }
    }
    template <typename A, typename B> void check_shape(A const &a, B const &b, const char *w) {
      if (a != b) {
        std::ostringstream o;
        o << "shape mismatch in " << w << ": " << a << " vs " << b;
        shim_fail(o.str());
      }
    }
  } // namespace detail

  // iterator over elements in C order
  template <typename T, int R> struct elem_iterator {
    T *p;
    detail::odo<R> o;
    long n;
    using iterator_category = std::forward_iterator_tag;
    using value_type        = std::remove_const_t<T>;
    using difference_type   = std::ptrdiff_t;
    using pointer           = T *;
    using reference         = T &;
    elem_iterator() : p(nullptr), o({}, {}), n(0) {}
    elem_iterator(T *p_, std::array<long, R> const &l, std::array<long, R> const &s, long n_) : p(p_), o(l, s), n(n_) {}
    T &operator*() const { return p[o.off]; }
    T *operator->() const { return &p[o.off]; }
    elem_iterator &operator++() {
      o.next();
      ++n;
      return *this;
    }
    elem_iterator operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    bool operator==(elem_iterator const &x) const { return n == x.n; }
    auto const &indices() const { return o.ix; }
  };

  template <typename A, typename F> auto map_elements(A const &a, F &&f);

#define SHIM_COMMON_METHODS                                                                                                                          \
  static constexpr int rank               = R;                                                                                                       \
  static constexpr char algebra           = Alg;                                                                                                     \
  static constexpr int iterator_rank      = R;                                                                                                       \
  using value_type                        = std::remove_const_t<T>;                                                                                  \
  using layout_policy_t                   = L;                                                                                                       \
  using layout_t                          = idx_map<R, L>;                                                                                           \
  using regular_type                      = basic_array<value_type, R, typename L::contiguous_t, Alg, heap<>>;                                        \
  using view_type                         = basic_array_view<T, R, L, Alg>;                                                                          \
  using const_view_type                   = basic_array_view<value_type const, R, L, Alg>;                                                           \
  [[nodiscard]] layout_t const &indexmap() const { return im; }                                                                                      \
  [[nodiscard]] std::array<long, R> const &shape() const { return im.len; }                                                                          \
  [[nodiscard]] long shape(int i) const { return im.len[i]; }                                                                                        \
  [[nodiscard]] long extent(int i) const { return im.len[i]; }                                                                                       \
  [[nodiscard]] long size() const { return im.size(); }                                                                                              \
  [[nodiscard]] bool empty() const { return im.size() == 0; }                                                                                        \
  [[nodiscard]] bool is_empty() const { return im.size() == 0; }                                                                                     \
  [[nodiscard]] bool is_contiguous() const { return im.is_contiguous(); }                                                                            \
  static constexpr bool is_stride_order_C() { return L::template order<R>() == permutations::identity<R>(); }                                        \
  static constexpr bool is_stride_order_Fortran() { return L::template order<R>() == permutations::reverse_identity<R>(); }

  // ---------------- the view ----------------
  template <typename T, int R, typename L, char Alg, typename AP, typename OP> class basic_array_view {
    idx_map<R, L> im;
    handle<T> st;

    public:
    SHIM_COMMON_METHODS
    using storage_t = handle<T>;
    basic_array_view() = default;
    basic_array_view(basic_array_view const &) = default;
    template <typename L2> basic_array_view(idx_map<R, L2> const &i, handle<T> s) : im(i), st(s) {}
    template <typename L2> basic_array_view(idx_map<R, L2> const &i, T *p) : im(i), st{p, i.size()} {}
    basic_array_view(std::array<long, R> const &shape, T *p) : im(shape), st{p, im.size()} {}
    template <typename A>
      requires(MemoryArrayOfRank<A, R> and !std::is_same_v<std::remove_cvref_t<A>, basic_array_view> and std::is_convertible_v<decltype(std::declval<A>().data()), T *>)
    basic_array_view(A &&a) : im(a.indexmap()), st{a.data(), a.size()} {
      if (L::contiguous and !im.is_contiguous()) detail::shim_fail("contiguous view of a non contiguous array");
    }
    template <size_t N>
    explicit basic_array_view(std::array<std::remove_const_t<T>, N> &a)
      requires(R == 1)
       : im(std::array<long, 1>{long(N)}), st{a.data(), long(N)} {}
    template <size_t N>
    explicit basic_array_view(std::array<std::remove_const_t<T>, N> const &a)
      requires(R == 1 and std::is_const_v<T>)
       : im(std::array<long, 1>{long(N)}), st{a.data(), long(N)} {}
    template <typename V>
      requires(R == 1 and !Array<V> and std::ranges::contiguous_range<V>)
    explicit basic_array_view(V &&a) : im(std::array<long, 1>{long(std::ranges::size(a))}), st{std::ranges::data(a), long(std::ranges::size(a))} {}

    [[nodiscard]] T *data() const { return st.p; }
    [[nodiscard]] handle<T> storage() const { return st; }
    void rebind(basic_array_view const &v) {
      im = v.im;
      st = v.st;
    }
    template <typename U, typename L2>
    void rebind(basic_array_view<U, R, L2, Alg> const &v)
      requires(std::is_convertible_v<U *, T *>)
    {
      im = v.indexmap();
      st = {v.data(), v.size()};
    }

    basic_array_view &operator=(basic_array_view const &o) {
      detail::check_shape(shape(), o.shape(), "view assignment");
      detail::assign_from(st.p, im, o);
      return *this;
    }
    template <typename RHS> basic_array_view &operator=(RHS const &rhs) {
      if constexpr (Array<RHS>) {
        detail::check_shape(shape(), rhs.shape(), "view assignment");
        detail::assign_from(st.p, im, rhs);
      } else if constexpr (requires { rhs.shim_invoke(*this); }) rhs.shim_invoke(*this);
      else if constexpr (std::ranges::contiguous_range<RHS> and R == 1 and not std::is_convertible_v<RHS, T>) {
        detail::check_shape(shape(), std::array<long, 1>{long(std::ranges::size(rhs))}, "view assignment");
        for (long i = 0; i < size(); ++i) (*this)(i) = std::ranges::data(rhs)[i];
      } else
        detail::assign_scalar<Alg>(st.p, im, rhs);
      return *this;
    }

    template <typename... A> decltype(auto) operator()(A &&...a) const {
      if constexpr (clef::is_any_lazy<A...>) return clef::make_expr_call(*this, std::forward<A>(a)...);
      else return detail::call_impl<basic_array_view, T, R, L, Alg>(st.p, im, a...);
    }
    template <typename... A> decltype(auto) operator[](A &&...a) const {
      if constexpr (clef::is_any_lazy<A...>) return clef::make_expr_subscript(*this, std::forward<A>(a)...);
      else return detail::call_impl<basic_array_view, T, R, L, Alg>(st.p, im, a...);
    }
    template <char ResAlg, bool SameAlg, typename Self, typename... A> static decltype(auto) call(Self &&self, A const &...a) {
      return detail::call_impl<basic_array_view, T, R, L, ResAlg>(self.data(), self.indexmap(), a...);
    }
    auto begin() const { return elem_iterator<T, R>(st.p, im.len, im.str, 0); }
    auto end() const { return elem_iterator<T, R>(st.p, im.len, im.str, im.size()); }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
    auto as_array_view() const { return basic_array_view<T, R, L, 'A'>(im, st); }
    template <typename X> auto &operator+=(X const &x) { return *this = *this + x; }
    template <typename X> auto &operator-=(X const &x) { return *this = *this - x; }
    template <typename X> auto &operator*=(X const &x) { return *this = *this * x; }
    template <typename X> auto &operator/=(X const &x) { return *this = *this / x; }
    friend void swap(basic_array_view &a, basic_array_view &b) {
      std::swap(a.im, b.im);
      std::swap(a.st, b.st);
    }
    friend void deep_swap(basic_array_view a, basic_array_view b) {
      auto t = make_regular(a);
      a      = b;
      b      = t;
    }
    static basic_array_view const &shim_self(basic_array_view const &x) { return x; }
  };

  // ---------------- the container ----------------
  template <typename T, int R, typename L, char Alg, typename C> class basic_array {
    idx_map<R, L> im;
    std::unique_ptr<T[]> st;
    void alloc() {
      long n = im.size();
      if (n > (1L << 34)) throw std::bad_alloc{};
      if constexpr (std::is_trivially_default_constructible_v<T>) {
        st.reset(new T[n]);
        detail::poison(st.get(), n);
      } else
        st.reset(new T[n]()); // complex<double>: zero as in nda
    }

    public:
    SHIM_COMMON_METHODS
    using storage_t = handle<T>;
    basic_array() requires(R != 0) { im = idx_map<R, L>(std::array<long, R>{}); }
    basic_array() requires(R == 0) { alloc(); }
    basic_array(basic_array const &o) : im(o.im) {
      alloc();
      detail::assign_from(st.get(), im, o);
    }
    basic_array(basic_array &&o) noexcept : im(o.im), st(std::move(o.st)) { o.im = idx_map<R, L>(std::array<long, R>{}); }
    template <typename... I>
      requires(sizeof...(I) == R and R > 0 and (std::is_convertible_v<I, long> and ...) and (std::is_integral_v<std::decay_t<I>> and ...))
    explicit basic_array(I... i) : im(std::array<long, R>{long(i)...}) {
      alloc();
    }
    template <typename I>
      requires(std::is_integral_v<I>)
    explicit basic_array(std::array<I, R> const &s) : im(s) {
      alloc();
    }
    explicit basic_array(idx_map<R, L> const &i) : im(i.lengths()) { alloc(); }
    basic_array(std::initializer_list<T> const &l)
      requires(R == 1)
       : im(std::array<long, 1>{long(l.size())}) {
      alloc();
      long i = 0;
      for (auto const &x : l) st[i++] = x;
    }
    basic_array(std::initializer_list<std::initializer_list<T>> const &l)
      requires(R == 2)
       : im(std::array<long, 2>{long(l.size()), l.size() ? long(l.begin()->size()) : 0}) {
      alloc();
      long i = 0;
      for (auto const &x : l) {
        long j = 0;
        if (long(x.size()) != im.len[1]) detail::shim_fail("ragged initializer list");
        for (auto const &y : x) (*this)(i, j++) = y;
        ++i;
      }
    }
    basic_array(std::initializer_list<std::initializer_list<std::initializer_list<T>>> const &l)
      requires(R == 3)
       : im(std::array<long, 3>{long(l.size()), long(l.begin()->size()), long(l.begin()->begin()->size())}) {
      alloc();
      long i = 0;
      for (auto const &x : l) {
        long j = 0;
        for (auto const &y : x) {
          long k = 0;
          for (auto const &z : y) (*this)(i, j, k++) = z;
          ++j;
        }
        ++i;
      }
    }
    template <typename A>
      requires(ArrayOfRank<A, R> and !std::is_same_v<std::remove_cvref_t<A>, basic_array> and std::is_convertible_v<get_value_t<A>, T>)
    basic_array(A const &a) : im(stdutil::make_std_array<long>(a.shape())) {
      alloc();
      detail::assign_from(st.get(), im, a);
    }
    template <typename A>
      requires(ArrayOfRank<A, R> and !std::is_same_v<std::remove_cvref_t<A>, basic_array> and !std::is_convertible_v<get_value_t<A>, T> and std::is_constructible_v<T, get_value_t<A>>)
    explicit basic_array(A const &a) : im(stdutil::make_std_array<long>(a.shape())) {
      alloc();
      detail::assign_from(st.get(), im, a);
    }
    template <typename A>
      requires(requires(A const &a, basic_array &b) { a.shim_invoke(b); })
    basic_array(A const &a) {
      im = idx_map<R, L>(std::array<long, R>{});
      a.shim_invoke(*this);
    }

    basic_array &operator=(basic_array const &o) {
      if (this == &o) return *this;
      im = o.im;
      alloc();
      detail::assign_from(st.get(), im, o);
      return *this;
    }
    basic_array &operator=(basic_array &&o) noexcept {
      auto s = std::move(o.st); // moved into itself the data is lost, as in nda and std::vector
      im   = o.im;
      st   = std::move(s);
      o.im = idx_map<R, L>(std::array<long, R>{});
      return *this;
    }
    template <typename RHS> basic_array &operator=(RHS const &rhs) {
      if constexpr (Array<RHS>) {
        basic_array tmp(idx_map<R, L>(stdutil::make_std_array<long>(rhs.shape())));
        detail::assign_from(tmp.st.get(), tmp.im, rhs);
        if (shape() == tmp.shape()) { // keep the memory: views of it stay valid, as in nda
          for (long i = 0; i < size(); ++i) st[i] = std::move(tmp.st[i]);
        } else
          *this = std::move(tmp);
      } else if constexpr (requires { rhs.shim_invoke(*this); }) rhs.shim_invoke(*this);
      else detail::assign_scalar<Alg>(st.get(), im, rhs);
      return *this;
    }

    template <typename I> void resize(std::array<I, R> const &s) {
      auto n = stdutil::make_std_array<long>(s);
      if (n == shape() and (st or size() == 0)) return;
      im = idx_map<R, L>(n);
      alloc();
    }
    template <typename... I>
      requires(sizeof...(I) == R and (std::is_convertible_v<I, long> and ...))
    void resize(I const &...i) {
      resize(std::array<long, R>{long(i)...});
    }

    [[nodiscard]] T *data() { return st.get(); }
    [[nodiscard]] T const *data() const { return st.get(); }
    [[nodiscard]] handle<T> storage() & { return {st.get(), size()}; }
    [[nodiscard]] handle<T> storage() && { return {st.get(), size()}; }
    [[nodiscard]] handle<T const> storage() const & { return {st.get(), size()}; }

    template <typename... A> decltype(auto) operator()(A &&...a) & {
      if constexpr (clef::is_any_lazy<A...>) return clef::make_expr_call(*this, std::forward<A>(a)...);
      else return detail::call_impl<basic_array, T, R, L, Alg>(st.get(), im, a...);
    }
    template <typename... A> decltype(auto) operator()(A &&...a) const & {
      if constexpr (clef::is_any_lazy<A...>) return clef::make_expr_call(*this, std::forward<A>(a)...);
      else return detail::call_impl<basic_array, T const, R, L, Alg>(st.get(), im, a...);
    }
    template <typename... A> decltype(auto) operator()(A &&...a) && {
      if constexpr (clef::is_any_lazy<A...>) return clef::make_expr_call(std::move(*this), std::forward<A>(a)...);
      else if constexpr (detail::result_rank<R, std::decay_t<A>...> == 0 and sizeof...(A) > 0) return T(detail::call_impl<basic_array, T, R, L, Alg>(st.get(), im, a...));
      else return detail::call_impl<basic_array, T, R, L, Alg>(st.get(), im, a...);
    }
    template <typename... A> decltype(auto) operator[](A &&...a) & {
      if constexpr (clef::is_any_lazy<A...>) return clef::make_expr_subscript(*this, std::forward<A>(a)...);
      else return detail::call_impl<basic_array, T, R, L, Alg>(st.get(), im, a...);
    }
    template <typename... A> decltype(auto) operator[](A &&...a) const & {
      if constexpr (clef::is_any_lazy<A...>) return clef::make_expr_subscript(*this, std::forward<A>(a)...);
      else return detail::call_impl<basic_array, T const, R, L, Alg>(st.get(), im, a...);
    }
    template <typename... A> decltype(auto) operator[](A &&...a) && {
      if constexpr (clef::is_any_lazy<A...>) return clef::make_expr_subscript(std::move(*this), std::forward<A>(a)...);
      else if constexpr (detail::result_rank<R, std::decay_t<A>...> == 0 and sizeof...(A) > 0) return T(detail::call_impl<basic_array, T, R, L, Alg>(st.get(), im, a...));
      else return detail::call_impl<basic_array, T, R, L, Alg>(st.get(), im, a...);
    }
    template <char ResAlg, bool SameAlg, typename Self, typename... A> static decltype(auto) call(Self &&self, A const &...a) {
      using P = std::remove_pointer_t<decltype(self.data())>;
      return detail::call_impl<basic_array, P, R, L, ResAlg>(self.data(), self.indexmap(), a...);
    }
    auto begin() { return elem_iterator<T, R>(st.get(), im.len, im.str, 0); }
    auto end() { return elem_iterator<T, R>(st.get(), im.len, im.str, im.size()); }
    auto begin() const { return elem_iterator<T const, R>(st.get(), im.len, im.str, 0); }
    auto end() const { return elem_iterator<T const, R>(st.get(), im.len, im.str, im.size()); }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
    auto as_array_view() { return basic_array_view<T, R, L, 'A'>(im, storage()); }
    auto as_array_view() const { return basic_array_view<T const, R, L, 'A'>(im, storage()); }
    template <typename X> basic_array &operator+=(X const &x) { return *this = *this + x; }
    template <typename X> basic_array &operator-=(X const &x) { return *this = *this - x; }
    template <typename X> basic_array &operator*=(X const &x) { return *this = *this * x; }
    template <typename X> basic_array &operator/=(X const &x) { return *this = *this / x; }

    template <typename I> static basic_array zeros(std::array<I, R> const &s) { return zeros(stdutil::make_std_array<long>(s)); }
    static basic_array zeros(std::array<long, R> const &s) {
      basic_array a(s);
      for (long i = 0; i < a.size(); ++i) a.st[i] = T(0);
      return a;
    }
    template <typename... I>
      requires(std::is_integral_v<I> and ...)
    static basic_array zeros(I... i) {
      return zeros(std::array<long, R>{long(i)...});
    }
    template <typename I> static basic_array ones(std::array<I, R> const &s) { return ones(stdutil::make_std_array<long>(s)); }
    static basic_array ones(std::array<long, R> const &s) {
      basic_array a(s);
      for (long i = 0; i < a.size(); ++i) a.st[i] = T(1);
      return a;
    }
    template <typename... I>
      requires(std::is_integral_v<I> and ...)
    static basic_array ones(I... i) {
      return ones(std::array<long, R>{long(i)...});
    }
    template <typename I> static basic_array rand(std::array<I, R> const &s) {
      static std::mt19937_64 g(42);
      std::uniform_real_distribution<double> d(0, 1);
      basic_array a(stdutil::make_std_array<long>(s));
      for (long i = 0; i < a.size(); ++i) {
        if constexpr (is_complex_v<T>) { double x = d(g), y = d(g); a.st[i] = T(x, y); }
        else a.st[i] = d(g);
      }
      return a;
    }
    template <typename... I>
      requires(std::is_integral_v<I> and ...)
    static basic_array rand(I... i) {
      return rand(std::array<long, R>{long(i)...});
    }
    friend void swap(basic_array &a, basic_array &b) noexcept {
      std::swap(a.im, b.im);
      std::swap(a.st, b.st);
    }
    friend void deep_swap(basic_array &a, basic_array &b) {
      auto t = a;
      a      = b;
      b      = t;
    }
  };
#undef SHIM_COMMON_METHODS

  // CTAD
  template <typename T, int R, typename L, char Alg, typename C> basic_array_view(basic_array<T, R, L, Alg, C> &) -> basic_array_view<T, R, L, Alg>;
  template <typename T, int R, typename L, char Alg, typename C> basic_array_view(basic_array<T, R, L, Alg, C> const &) -> basic_array_view<T const, R, L, Alg>;
  template <typename T, int R, typename L, char Alg, typename C> basic_array_view(basic_array<T, R, L, Alg, C> &&) -> basic_array_view<T, R, L, Alg>;
  template <typename T, int R, typename L, char Alg> basic_array_view(basic_array_view<T, R, L, Alg>) -> basic_array_view<T, R, L, Alg>;
  template <typename V>
    requires(!Array<V> and std::ranges::contiguous_range<V>)
  basic_array_view(V &&) -> basic_array_view<std::remove_reference_t<decltype(*std::ranges::data(std::declval<V &>()))>, 1, C_layout, 'V'>;
  template <typename A>
    requires(Array<A> and !is_view_v<std::remove_cvref_t<A>> and !is_regular_v<std::remove_cvref_t<A>>)
  basic_array(A const &) -> basic_array<get_value_t<A>, get_rank<A>, C_layout, get_algebra<A>, heap<>>;
  template <typename T, int R, typename L, char Alg> basic_array(basic_array_view<T, R, L, Alg>) -> basic_array<std::remove_const_t<T>, R, typename L::contiguous_t, Alg, heap<>>;

  // ---------------- make_regular ----------------
  template <typename A> auto make_regular(A &&a) {
    using U = std::remove_cvref_t<A>;
    if constexpr (is_regular_v<U>) return U(std::forward<A>(a));
    else if constexpr (is_view_v<U>) return typename U::regular_type(a);
    else if constexpr (Array<U>) return basic_array<get_value_t<U>, get_rank<U>, C_layout, get_algebra<U>, heap<>>(a);
    else if constexpr (requires { typename U::regular_type; }) return typename U::regular_type(std::forward<A>(a));
    else if constexpr (requires { typename U::regular_t; }) return typename U::regular_t(std::forward<A>(a));
    else return U(std::forward<A>(a));
  }
  template <typename A> using get_regular_t = decltype(make_regular(std::declval<A>()));

  // ---------------- lazily evaluated adapter ----------------
  template <int R, typename F> struct array_adapter {
    std::array<long, R> sh;
    F f;
    template <typename I> array_adapter(std::array<I, R> const &s, F ff) : sh(stdutil::make_std_array<long>(s)), f(std::move(ff)) {}
    [[nodiscard]] std::array<long, R> const &shape() const { return sh; }
    [[nodiscard]] long size() const { return stdutil::product(sh); }
    template <typename... I> auto operator()(I const &...i) const { return f(i...); }
  };
  template <typename I, size_t R, typename F> array_adapter(std::array<I, R> const &, F) -> array_adapter<int(R), F>;
  namespace detail {
    template <int R, typename F> struct algebra_impl<array_adapter<R, F>> { static constexpr char value = 'A'; };
  }

  // ---------------- elementwise ----------------
  template <typename A, typename F> auto map_elements(A const &a, F &&f) {
    using V = std::decay_t<decltype(f(get_first_element(a)))>;
    basic_array<V, get_rank<A>, C_layout, get_algebra<A>, heap<>> r(stdutil::make_std_array<long>(a.shape()));
    V *p = r.data();
    if constexpr (MemoryArray<A>) {
      detail::odo<get_rank<A>> o(a.indexmap().lengths(), a.indexmap().strides());
      auto const *q = a.data();
      long n        = r.size();
      for (long i = 0; i < n; ++i, o.next()) p[i] = f(q[o.off]);
    } else {
      long k = 0;
      for_each(a.shape(), [&](auto... i) { p[k++] = f(a(i...)); });
    }
    return r;
  }
  template <typename A, typename B, typename F> auto zip_elements(A const &a, B const &b, F &&f) {
    static_assert(get_rank<A> == get_rank<B>);
    detail::check_shape(stdutil::make_std_array<long>(a.shape()), stdutil::make_std_array<long>(b.shape()), "elementwise operation");
    using V            = std::decay_t<decltype(f(get_first_element(a), get_first_element(b)))>;
    constexpr char alg = (get_algebra<A> == get_algebra<B> ? get_algebra<A> : (get_algebra<A> == 'A' ? get_algebra<B> : get_algebra<A>));
    basic_array<V, get_rank<A>, C_layout, alg, heap<>> r(stdutil::make_std_array<long>(a.shape()));
    V *p = r.data();
    if constexpr (MemoryArray<A> and MemoryArray<B>) {
      detail::odo<get_rank<A>> o(a.indexmap().lengths(), a.indexmap().strides()), u(b.indexmap().lengths(), b.indexmap().strides());
      auto const *q = a.data();
      auto const *s = b.data();
      long n        = r.size();
      for (long i = 0; i < n; ++i, o.next(), u.next()) p[i] = f(q[o.off], s[u.off]);
    } else {
      long k = 0;
      for_each(a.shape(), [&](auto... i) { p[k++] = f(a(i...), b(i...)); });
    }
    return r;
  }
  namespace detail {
    template <typename F> struct mapped {
      F f;
      template <typename A> auto operator()(A const &a) const { return map_elements(a, f); }
      template <typename A, typename B> auto operator()(A const &a, B const &b) const { return zip_elements(a, b, f); }
    };
    // functions overloaded on scalars cannot be deduced: accept them as complex -> complex
  } // namespace detail
  template <typename F> auto map(F f) { return detail::mapped<F>{std::move(f)}; }

  namespace detail {
    template <typename X>
    concept Arr = Array<X> and get_algebra<X> != 'N';
    template <typename X>
    concept Scal = is_scalar_v<X> or (requires { typename std::remove_cvref_t<X>::shim_scalar_like; });
  } // namespace detail

  template <detail::Arr A> auto operator-(A const &a) {
    return map_elements(a, [](auto const &x) { return -x; });
  }
  template <detail::Arr A, detail::Arr B> auto operator+(A const &a, B const &b) {
    return zip_elements(a, b, [](auto const &x, auto const &y) { return x + y; });
  }
  template <detail::Arr A, detail::Arr B> auto operator-(A const &a, B const &b) {
    return zip_elements(a, b, [](auto const &x, auto const &y) { return x - y; });
  }
  namespace detail {
    template <typename A, typename S, typename F> auto with_identity(A const &a, S const &s, F f) {
      using V = std::decay_t<decltype(f(get_first_element(a), s))>;
      basic_array<V, 2, C_layout, 'M', heap<>> r(stdutil::make_std_array<long>(a.shape()));
      for (long i = 0; i < a.shape()[0]; ++i)
        for (long j = 0; j < a.shape()[1]; ++j) r(i, j) = f(a(i, j), i == j ? s : S(0));
      return r;
    }
  } // namespace detail
  template <detail::Arr A, detail::Scal S> auto operator+(A const &a, S const &s) {
    if constexpr (get_algebra<A> == 'M') return detail::with_identity(a, s, [](auto const &x, auto const &y) { return x + y; });
    else return map_elements(a, [&](auto const &x) { return x + s; });
  }
  template <detail::Scal S, detail::Arr A> auto operator+(S const &s, A const &a) { return a + s; }
  template <detail::Arr A, detail::Scal S> auto operator-(A const &a, S const &s) {
    if constexpr (get_algebra<A> == 'M') return detail::with_identity(a, s, [](auto const &x, auto const &y) { return x - y; });
    else return map_elements(a, [&](auto const &x) { return x - s; });
  }
  template <detail::Scal S, detail::Arr A> auto operator-(S const &s, A const &a) {
    if constexpr (get_algebra<A> == 'M') return detail::with_identity(a, s, [](auto const &x, auto const &y) { return y - x; });
    else return map_elements(a, [&](auto const &x) { return s - x; });
  }
  template <detail::Arr A, detail::Scal S> auto operator*(A const &a, S const &s) {
    return map_elements(a, [&](auto const &x) { return x * s; });
  }
  template <detail::Scal S, detail::Arr A> auto operator*(S const &s, A const &a) {
    return map_elements(a, [&](auto const &x) { return s * x; });
  }
  template <detail::Arr A, detail::Scal S> auto operator/(A const &a, S const &s) {
    return map_elements(a, [&](auto const &x) { return x / s; });
  }
  template <typename A, typename B> auto matmul(A const &a, B const &b) {
    using V = std::decay_t<decltype(get_first_element(a) * get_first_element(b))>;
    long n = a.shape()[0], m = a.shape()[1];
    if (b.shape()[0] != m) detail::check_shape(std::array<long, 1>{m}, std::array<long, 1>{b.shape()[0]}, "matrix product");
    if constexpr (get_rank<B> == 2) {
      long k = b.shape()[1];
      basic_array<V, 2, C_layout, 'M', heap<>> r(n, k);
      for (long i = 0; i < n; ++i)
        for (long j = 0; j < k; ++j) {
          V s(0);
          for (long l = 0; l < m; ++l) s = s + a(i, l) * b(l, j);
          r(i, j) = s;
        }
      return r;
    } else {
      basic_array<V, 1, C_layout, 'V', heap<>> r(n);
      for (long i = 0; i < n; ++i) {
        V s(0);
        for (long l = 0; l < m; ++l) s = s + a(i, l) * b(l);
        r(i) = s;
      }
      return r;
    }
  }
  template <detail::Arr A, detail::Arr B> auto operator*(A const &a, B const &b) {
    if constexpr (get_algebra<A> == 'M') {
      static_assert(get_algebra<B> != 'A' or get_rank<B> == 1, "matrix * array");
      return matmul(a, b);
    } else {
      static_assert(get_algebra<B> != 'M', "array * matrix");
      return zip_elements(a, b, [](auto const &x, auto const &y) { return x * y; });
    }
  }
  template <typename A> auto inverse(A const &a);
  template <detail::Arr A, detail::Arr B> auto operator/(A const &a, B const &b) {
    if constexpr (get_algebra<A> == 'M') return matmul(a, inverse(b));
    else return zip_elements(a, b, [](auto const &x, auto const &y) { return x / y; });
  }
  template <detail::Scal S, detail::Arr A> auto operator/(S const &s, A const &a) {
    if constexpr (get_algebra<A> == 'M') return s * inverse(a);
    else return map_elements(a, [&](auto const &x) { return s / x; });
  }
  template <detail::Arr A, detail::Arr B> bool operator==(A const &a, B const &b) {
    if (stdutil::make_std_array<long>(a.shape()) != stdutil::make_std_array<long>(b.shape())) return false;
    bool r = true;
    for_each(a.shape(), [&](auto... i) { r = r and (a(i...) == b(i...)); });
    return r;
  }
  template <detail::Arr A, detail::Arr B> bool operator!=(A const &a, B const &b) { return !(a == b); }

  // ---------------- functions ----------------
  template <typename T>
    requires(is_scalar_v<T>)
  T conj(T x) {
    if constexpr (is_complex_v<T>) return std::conj(x);
    else return x;
  }
  template <typename T>
    requires(is_scalar_v<T>)
  auto real(T x) {
    if constexpr (is_complex_v<T>) return x.real();
    else return x;
  }
  template <typename T>
    requires(is_scalar_v<T>)
  auto imag(T x) {
    if constexpr (is_complex_v<T>) return x.imag();
    else return T(0);
  }
  template <typename T>
    requires(is_scalar_v<T>)
  auto abs2(T x) { return std::norm(x); }
  template <detail::Arr A> auto conj(A const &a) {
    return map_elements(a, [](auto const &x) { return conj(x); });
  }
  template <detail::Arr A> auto real(A const &a) {
    return map_elements(a, [](auto const &x) { return real(x); });
  }
  template <detail::Arr A> auto imag(A const &a) {
    return map_elements(a, [](auto const &x) { return imag(x); });
  }
  template <detail::Arr A> auto abs2(A const &a) {
    return map_elements(a, [](auto const &x) { return abs2(x); });
  }
#define SHIM_F(name)                                                                                                                                 \
  template <detail::Arr A> auto name(A const &a) {                                                                                                   \
    return map_elements(a, [](auto const &x) {                                                                                                       \
      using std::name;                                                                                                                               \
      return name(x);                                                                                                                                \
    });                                                                                                                                              \
  }
  SHIM_F(abs) SHIM_F(floor) SHIM_F(ceil) SHIM_F(exp) SHIM_F(cos) SHIM_F(sin) SHIM_F(tan) SHIM_F(cosh) SHIM_F(sinh) SHIM_F(tanh) SHIM_F(sqrt) SHIM_F(log) SHIM_F(isnan) SHIM_F(round)
#undef SHIM_F
  template <detail::Arr A> auto pow(A const &a, double p) {
    return map_elements(a, [&](auto const &x) { return std::pow(x, p); });
  }
  template <typename A, typename F, typename R0> auto fold(F f, A const &a, R0 r0) {
    for_each(a.shape(), [&](auto... i) { r0 = f(r0, a(i...)); });
    return r0;
  }
  template <detail::Arr A> auto sum(A const &a) {
    using V = get_value_t<A>;
    if constexpr (is_scalar_v<V>) return fold([](auto const &x, auto const &y) { return V(x + y); }, a, V(0));
    else {
      auto it = a.begin();
      V r     = *it;
      for (++it; it != a.end(); ++it) r = r + *it;
      return r;
    }
  }
  template <detail::Arr A> auto product(A const &a) {
    using V = get_value_t<A>;
    return fold([](auto const &x, auto const &y) { return V(x * y); }, a, V(1));
  }
  template <detail::Arr A> auto max_element(A const &a) {
    if (a.size() == 0) detail::shim_fail("max_element of an empty array");
    return fold([](auto const &x, auto const &y) { return std::max(x, y); }, a, get_value_t<A>(get_first_element(a)));
  }
  template <detail::Arr A> auto min_element(A const &a) {
    if (a.size() == 0) detail::shim_fail("min_element of an empty array");
    return fold([](auto const &x, auto const &y) { return std::min(x, y); }, a, get_value_t<A>(get_first_element(a)));
  }
  template <detail::Arr A> bool any(A const &a) {
    return fold([](bool x, auto const &y) { return x or bool(y); }, a, false);
  }
  template <detail::Arr A> bool all(A const &a) {
    return fold([](bool x, auto const &y) { return x and bool(y); }, a, true);
  }
  template <detail::Arr A> double frobenius_norm(A const &a) {
    return std::sqrt(fold([](double x, auto const &y) { return x + std::norm(y); }, a, 0.0));
  }
  template <detail::Arr A> double norm(A const &a, double p = 2.0) {
    static_assert(get_rank<A> == 1);
    if (p == 2.0) return frobenius_norm(a);
    if (std::isinf(p)) return fold([](double x, auto const &y) { return std::max(x, double(std::abs(y))); }, a, 0.0);
    return std::pow(fold([&](double x, auto const &y) { return x + std::pow(std::abs(y), p); }, a, 0.0), 1 / p);
  }

  template <typename A> long first_dim(A const &a) { return a.shape()[0]; }
  template <typename A> long second_dim(A const &a) { return a.shape()[1]; }

  template <typename T, typename Int, size_t R> auto zeros(std::array<Int, R> const &s) {
    if constexpr (R == 0) return T{0};
    else return array<T, int(R)>::zeros(stdutil::make_std_array<long>(s));
  }
  template <typename T, typename... I>
    requires(std::is_integral_v<I> and ...)
  auto zeros(I... i) {
    return zeros<T>(std::array<long, sizeof...(I)>{long(i)...});
  }
  template <typename T, typename Int, size_t R> auto ones(std::array<Int, R> const &s) { return array<T, int(R)>::ones(stdutil::make_std_array<long>(s)); }
  template <typename T, typename... I>
    requires(std::is_integral_v<I> and ...)
  auto ones(I... i) {
    return ones<T>(std::array<long, sizeof...(I)>{long(i)...});
  }
  template <typename T = double> T rand() { return array<T, 1>::rand(1)(0); }
  template <typename T = double, typename Int, size_t R> auto rand(std::array<Int, R> const &s) { return array<T, int(R)>::rand(stdutil::make_std_array<long>(s)); }
  template <typename T = double, typename... I>
    requires((std::is_integral_v<I> and ...) and sizeof...(I) > 0)
  auto rand(I... i) {
    return rand<T>(std::array<long, sizeof...(I)>{long(i)...});
  }
  template <typename T = long> auto arange(long a, long b, long s = 1) {
    array<T, 1> r(itertools::range(a, b, s).size());
    long k = 0;
    for (auto x : itertools::range(a, b, s)) r(k++) = T(x);
    return r;
  }
  template <typename T = long> auto arange(long b) { return arange<T>(0, b); }
  template <typename T = double> auto linspace(double a, double b, long n) {
    array<T, 1> r(n);
    for (long i = 0; i < n; ++i) r(i) = a + (b - a) * i / (n - 1);
    return r;
  }
  template <typename T = double> auto eye(long n) {
    auto r = matrix<T>::zeros(n, n);
    for (long i = 0; i < n; ++i) r(i, i) = T(1);
    return r;
  }
  template <typename T = double, typename I> auto eye(std::array<I, 2> const &d) { return eye<T>(long(d[0])); }
  template <typename V> auto diag(V const &v) {
    using T = std::decay_t<decltype(v[0])>;
    long n  = long(v.size());
    auto r  = matrix<T>::zeros(n, n);
    for (long i = 0; i < n; ++i) r(i, i) = v[i];
    return r;
  }
  template <typename T> auto diag(std::initializer_list<T> const &v) { return diag(std::vector<T>(v)); }
  template <MemoryArray M> auto diagonal(M &m) {
    using T = std::remove_pointer_t<decltype(m.data())>;
    auto im = m.indexmap();
    return basic_array_view<T, 1, C_stride_layout, 'V'>(idx_map<1, C_stride_layout>({std::min(im.len[0], im.len[1])}, {im.str[0] + im.str[1]}), handle<T>{m.data(), 0});
  }
  template <detail::Arr M> auto trace(M const &m) {
    EXPECTS(m.shape()[0] == m.shape()[1]);
    get_value_t<M> r(0);
    for (long i = 0; i < m.shape()[0]; ++i) r = r + m(i, i);
    return r;
  }
  template <detail::Arr M> bool is_matrix_square(M const &m, bool = false) { return m.shape()[0] == m.shape()[1]; }
  template <detail::Arr M> bool is_matrix_diagonal(M const &m) {
    if (m.shape()[0] != m.shape()[1]) return false;
    for (long i = 0; i < m.shape()[0]; ++i)
      for (long j = 0; j < m.shape()[1]; ++j)
        if (i != j and m(i, j) != get_value_t<M>(0)) return false;
    return true;
  }

  // ---------------- layout transforms (views) ----------------
  namespace detail {
    template <char Alg, typename A, size_t R2> auto mk_view(A &&a, std::array<long, R2> const &l, std::array<long, R2> const &s) {
      using T = std::remove_pointer_t<decltype(a.data())>;
      return basic_array_view<T, int(R2), C_stride_layout, Alg>(idx_map<int(R2), C_stride_layout>(l, s), handle<T>{a.data(), 0});
    }
    template <typename A> decltype(auto) mem(A &&a) {
      if constexpr (MemoryArray<A>) return std::forward<A>(a);
      else return make_regular(a);
    }
  } // namespace detail
  // an rvalue container must not be viewed: return an owning copy instead
  namespace detail {
    template <typename A, typename V> auto own_if_needed(V const &v) {
      if constexpr (is_regular_v<std::remove_cvref_t<A>> and !std::is_lvalue_reference_v<A>) return make_regular(v);
      else return v;
    }
  } // namespace detail
  template <uint64_t P, typename A> auto permuted_indices_view(A &&a) {
    constexpr int R = get_rank<A>;
    constexpr auto p = decode<R>(P);
    std::array<long, R> l{}, s{};
    for (int i = 0; i < R; ++i) {
      l[p[i]] = a.indexmap().lengths()[i];
      s[p[i]] = a.indexmap().strides()[i];
    }
    return detail::own_if_needed<A>(detail::mk_view<get_algebra<A>>(a, l, s));
  }
  template <int I, int J, typename A> auto transposed_view(A &&a) {
    auto l = a.indexmap().lengths();
    auto s = a.indexmap().strides();
    std::swap(l[I], l[J]);
    std::swap(s[I], s[J]);
    return detail::own_if_needed<A>(detail::mk_view<get_algebra<A>>(a, l, s));
  }
  template <typename A, typename... I>
    requires((std::is_integral_v<I> and ...) and sizeof...(I) == size_t(get_rank<A>))
  auto transposed_view(A &&a, I... perm) {
    constexpr int R = get_rank<A>;
    std::array<int, R> p{int(perm)...};
    std::array<long, R> l{}, s{};
    for (int i = 0; i < R; ++i) {
      l[i] = a.indexmap().lengths()[p[i]];
      s[i] = a.indexmap().strides()[p[i]];
    }
    return detail::own_if_needed<A>(detail::mk_view<get_algebra<A>>(a, l, s));
  }
  template <typename A>
    requires(Array<A>)
  auto transpose(A &&a) {
    if constexpr (MemoryArray<A>) {
      constexpr int R = get_rank<A>;
      std::array<long, R> l{}, s{};
      for (int i = 0; i < R; ++i) {
        l[i] = a.indexmap().lengths()[R - 1 - i];
        s[i] = a.indexmap().strides()[R - 1 - i];
      }
      return detail::own_if_needed<A>(detail::mk_view<get_algebra<A>>(a, l, s));
    } else
      return make_regular(transpose(make_regular(a)));
  }
  template <typename A>
    requires(Array<A>)
  auto dagger(A const &a) {
    static_assert(get_rank<A> == 2);
    using V = get_value_t<A>;
    basic_array<V, 2, C_layout, get_algebra<A>, heap<>> r(a.shape()[1], a.shape()[0]);
    for (long i = 0; i < a.shape()[0]; ++i)
      for (long j = 0; j < a.shape()[1]; ++j) r(j, i) = conj(a(i, j));
    return r;
  }
  template <typename A, typename I, size_t R2> auto reshape(A &&a, std::array<I, R2> const &s0) {
    auto s = stdutil::make_std_array<long>(s0);
    using T = std::remove_pointer_t<decltype(a.data())>;
    if (stdutil::product(s) != a.size()) detail::shim_fail("reshape: sizes differ");
    if (!a.indexmap().is_C_contiguous()) detail::shim_fail("reshape: the array is not contiguous");
    constexpr char alg = (get_algebra<A> == 'M' ? (R2 == 2 ? 'M' : (R2 == 1 ? 'V' : 'A')) : (get_algebra<A> == 'V' and R2 != 1 ? 'A' : get_algebra<A>));
    return detail::own_if_needed<A>(basic_array_view<T, int(R2), C_layout, alg>(idx_map<int(R2), C_layout>(s), handle<T>{a.data(), a.size()}));
  }
  template <typename A, typename... I>
    requires(std::is_integral_v<I> and ...)
  auto reshape(A &&a, I... s) {
    return reshape(std::forward<A>(a), std::array<long, sizeof...(I)>{long(s)...});
  }
  template <typename A, typename... I> auto reshaped_view(A &&a, I... s) { return reshape(std::forward<A>(a), s...); }
  template <typename A> auto flatten(A &&a) { return reshape(std::forward<A>(a), std::array<long, 1>{a.size()}); }
  template <typename A> auto vec(A &&a) { return reshape(std::forward<A>(a), std::array<long, 1>{a.size()}); }
  template <int N, typename A> auto reinterpret_add_fast_dims_of_size_one(A &&a) {
    constexpr int R = get_rank<A>;
    auto l = stdutil::join(a.indexmap().lengths(), stdutil::make_initialized_array<N>(1L));
    auto s = stdutil::join(a.indexmap().strides(), stdutil::make_initialized_array<N>(1L));
    return detail::own_if_needed<A>(detail::mk_view<'A'>(a, l, s));
  }
  template <typename A>
    requires(MemoryArray<A>)
  auto make_matrix_view(A &&a) {
    static_assert(get_rank<A> == 2);
    return detail::mk_view<'M'>(a, a.indexmap().lengths(), a.indexmap().strides());
  }
  template <typename A>
    requires(MemoryArray<A>)
  auto make_array_view(A &&a) {
    return detail::mk_view<'A'>(a, a.indexmap().lengths(), a.indexmap().strides());
  }
  template <typename T, int R, typename L, char Alg, typename C> auto make_array_const_view(basic_array<T, R, L, Alg, C> const &a) { return basic_array_view<T const, R, C_stride_layout, 'A'>(a.indexmap(), handle<T const>{a.data(), a.size()}); }
  template <typename T, int R, typename L, char Alg> auto make_array_const_view(basic_array_view<T, R, L, Alg> const &a) { return basic_array_view<T const, R, C_stride_layout, 'A'>(a.indexmap(), handle<T const>{a.data(), a.size()}); }
  template <typename T, int R, typename L, char Alg, typename C> auto make_const_view(basic_array<T, R, L, Alg, C> const &a) { return basic_array_view<T const, R, L, Alg>(a.indexmap(), handle<T const>{a.data(), a.size()}); }
  template <typename T, int R, typename L, char Alg> auto make_const_view(basic_array_view<T, R, L, Alg> const &a) { return basic_array_view<T const, R, L, Alg>(a.indexmap(), handle<T const>{a.data(), a.size()}); }
  template <typename A> auto group_indices_view(A &&a) { return a; }

  // ---------------- linear algebra (small dense, pivoted) ----------------
  namespace detail {
    template <typename V> V lu_det_inverse(std::vector<V> &a, long n, std::vector<V> *inv) { // row-major, destroys a
      V det(1);
      std::vector<long> perm(n);
      if (inv) {
        inv->assign(n * n, V(0));
        for (long i = 0; i < n; ++i) (*inv)[i * n + i] = V(1);
      }
      for (long k = 0; k < n; ++k) {
        long p = k;
        for (long i = k + 1; i < n; ++i)
          if (std::abs(a[i * n + k]) > std::abs(a[p * n + k])) p = i;
        if (a[p * n + k] == V(0)) {
          if (inv) throw nda::runtime_error("nda::inverse: matrix is not invertible");
          return V(0);
        }
        if (p != k) {
          for (long j = 0; j < n; ++j) {
            std::swap(a[p * n + j], a[k * n + j]);
            if (inv) std::swap((*inv)[p * n + j], (*inv)[k * n + j]);
          }
          det = -det;
        }
        det *= a[k * n + k];
        for (long i = inv ? 0 : k + 1; i < n; ++i) {
          if (i == k) continue;
          V f = a[i * n + k] / a[k * n + k];
          if (f == V(0)) continue;
          for (long j = k; j < n; ++j) a[i * n + j] -= f * a[k * n + j];
          if (inv)
            for (long j = 0; j < n; ++j) (*inv)[i * n + j] -= f * (*inv)[k * n + j];
        }
      }
      if (inv)
        for (long i = 0; i < n; ++i)
          for (long j = 0; j < n; ++j) (*inv)[i * n + j] /= a[i * n + i];
      return det;
    }
    template <typename M> auto to_vec(M const &m) {
      using V = get_value_t<M>;
      using W = std::conditional_t<std::is_integral_v<V>, double, V>;
      if (m.shape()[0] != m.shape()[1]) shim_fail("square matrix expected");
      std::vector<W> v;
      v.reserve(m.shape()[0] * m.shape()[1]);
      for (long i = 0; i < m.shape()[0]; ++i)
        for (long j = 0; j < m.shape()[1]; ++j) v.push_back(W(m(i, j)));
      return v;
    }
  } // namespace detail
  template <typename M> auto determinant(M const &m) {
    auto v = detail::to_vec(m);
    return detail::lu_det_inverse(v, m.shape()[0], decltype(&v)(nullptr));
  }
  template <typename M> auto determinant_in_place(M &&m) { return determinant(m); }
  template <typename A> auto inverse(A const &a) {
    auto v = detail::to_vec(a);
    using V = typename decltype(v)::value_type;
    decltype(v) r;
    long n = a.shape()[0];
    detail::lu_det_inverse(v, n, &r);
    basic_array<V, 2, C_layout, get_algebra<A>, heap<>> res(n, n);
    for (long i = 0; i < n; ++i)
      for (long j = 0; j < n; ++j) res(i, j) = r[i * n + j];
    return res;
  }
  template <typename M> void inverse_in_place(M &&m) {
    auto r = inverse(m);
    for (long i = 0; i < m.shape()[0]; ++i)
      for (long j = 0; j < m.shape()[1]; ++j) m(i, j) = r(i, j);
  }

  // ---------------- printing ----------------
  template <detail::Arr A> std::ostream &operator<<(std::ostream &o, A const &a) {
    o << "\n[";
    if constexpr (get_rank<A> == 2) {
      for (long i = 0; i < a.shape()[0]; ++i) {
        o << (i == 0 ? "[" : " [");
        for (long j = 0; j < a.shape()[1]; ++j) o << (j ? "," : "") << a(i, j);
        o << "]" << (i == a.shape()[0] - 1 ? "" : "\n");
      }
    } else {
      bool f = true;
      for_each(a.shape(), [&](auto... i) {
        o << (f ? "" : ",") << a(i...);
        f = false;
      });
    }
    return o << "]";
  }

  // ---------------- clef assignment ----------------
  template <typename T, int R, typename L, char Alg, typename F> void clef_auto_assign(basic_array_view<T, R, L, Alg> a, F &&f) {
    for_each(a.shape(), [&](auto... i) {
      if constexpr (clef::is_function<std::decay_t<decltype(f(i...))>>) clef_auto_assign(a(i...), f(i...));
      else a(i...) = f(i...);
    });
  }
  template <typename T, int R, typename L, char Alg, typename C, typename F> void clef_auto_assign(basic_array<T, R, L, Alg, C> &a, F &&f) { clef_auto_assign(a(), f); }
  template <typename T, int R, typename L, char Alg, typename F> void clef_auto_assign_subscript(basic_array_view<T, R, L, Alg> a, F &&f) { clef_auto_assign(a, f); }
  template <typename T, int R, typename L, char Alg, typename C, typename F> void clef_auto_assign_subscript(basic_array<T, R, L, Alg, C> &a, F &&f) { clef_auto_assign(a(), f); }

  template <char OP, typename A> struct expr_unary;
  template <char OP, typename A, typename B> struct expr;
  namespace detail {
    template <char OP, typename A> struct algebra_impl<expr_unary<OP, A>> { static constexpr char value = get_algebra<A>; };
  }
} // namespace nda

// used unqualified in triqs/gfs
namespace triqs {
  using nda::MemoryArray;
}
