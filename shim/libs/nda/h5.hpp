#pragma once
#include "./nda.hpp"
#include <h5/h5.hpp>
namespace nda {
  template <MemoryArray A> void h5_write(h5::group g, std::string const &name, A const &a0) {
    using V = typename std::remove_cvref_t<A>::value_type;
    if constexpr (std::is_same_v<V, std::string>) {
      static_assert(get_rank<A> == 1);
      std::vector<std::string> v(a0.begin(), a0.end());
      h5::h5_write(g, name, v);
    } else if constexpr (is_scalar_v<V>) {
      basic_array<V, get_rank<A>, C_layout, 'A', heap<>> a(a0);
      std::vector<hsize_t> d(a.shape().begin(), a.shape().end());
      if constexpr (is_complex_v<V>) {
        d.push_back(2);
        h5::detail::write_native(g, name, reinterpret_cast<double const *>(a.data()), d, true);
      } else
        h5::detail::write_native(g, name, a.data(), d, false);
    } else {
      auto gr = g.create_group(name);
      std::array<long, get_rank<A>> sh = a0.shape();
      h5::h5_write(gr, "shape", sh);
      long k = 0;
      for (auto const &x : a0) h5_write(gr, std::to_string(k++), x);
    }
  }
  namespace detail {
    template <typename A> void h5_read_impl(h5::group g, std::string const &name, A &&a) {
      using V = typename std::remove_cvref_t<A>::value_type;
      constexpr int R = get_rank<A>;
      auto set_shape = [&](std::array<long, R> const &s) {
        if constexpr (is_regular_v<std::remove_cvref_t<A>>) a.resize(s);
        else if (s != a.shape()) throw std::runtime_error("nda::h5_read: shape mismatch for a view");
      };
      if constexpr (std::is_same_v<V, std::string>) {
        std::vector<std::string> v;
        h5::h5_read(g, name, v);
        set_shape({long(v.size())});
        for (long i = 0; i < long(v.size()); ++i) a(i) = v[i];
      } else if constexpr (is_scalar_v<V>) {
        auto ds = g.open_dataset(name);
        auto d  = h5::detail::dims_of(ds);
        bool c  = h5::detail::is_cplx(ds);
        if constexpr (!is_complex_v<V>) {
          if (c) throw std::runtime_error("nda::h5_read: reading complex data into a real array: " + name);
        }
        int r = int(d.size()) - (c ? 1 : 0);
        if (r != R) throw std::runtime_error("nda::h5_read: rank mismatch for " + name);
        std::array<long, R> s{};
        for (int i = 0; i < R; ++i) s[i] = long(d[i]);
        set_shape(s);
        basic_array<V, R, C_layout, 'A', heap<>> t(s);
        if (t.size() == 0) return;
        if constexpr (is_complex_v<V>) {
          if (c) h5::detail::read_native(ds, reinterpret_cast<double *>(t.data()), name);
          else {
            std::vector<double> v(t.size());
            h5::detail::read_native(ds, v.data(), name);
            for (long i = 0; i < t.size(); ++i) t.data()[i] = v[i];
          }
        } else
          h5::detail::read_native(ds, t.data(), name);
        a() = t;
      } else {
        auto gr = g.open_group(name);
        std::array<long, R> s{};
        h5::h5_read(gr, "shape", s);
        set_shape(s);
        long k = 0;
        for (auto &x : a) h5_read(gr, std::to_string(k++), x);
      }
    }
  } // namespace detail
  template <typename T, int R, typename L, char Alg, typename C> void h5_read(h5::group g, std::string const &name, basic_array<T, R, L, Alg, C> &a) { detail::h5_read_impl(g, name, a); }
  template <typename T, int R, typename L, char Alg> void h5_read(h5::group g, std::string const &name, basic_array_view<T, R, L, Alg> a) { detail::h5_read_impl(g, name, a); }
} // namespace nda
