// Stand-in for nda/sym_grp.hpp
#pragma once
#include "./nda.hpp"
#include <functional>
#include <tuple>
#include <vector>
namespace nda {
  struct operation {
    bool sgn = false, cc = false;
    template <typename T> T operator()(T const &x) const {
      T r = sgn ? T(-x) : x;
      return cc ? T(conj(r)) : r;
    }
  };
  inline operation operator*(operation const &x, operation const &y) { return {bool(x.sgn xor y.sgn), bool(x.cc xor y.cc)}; }

  template <typename F, typename A> class sym_grp {
    public:
    static constexpr int R = get_rank<A>;
    using arr_idx_t        = std::array<long, R>;
    using sym_class_t      = std::vector<std::pair<long, operation>>;

    private:
    std::vector<sym_class_t> classes;
    std::array<long, R> sh{};
    [[nodiscard]] bool inside(arr_idx_t const &x) const {
      for (int i = 0; i < R; ++i)
        if (x[i] < 0 or x[i] >= sh[i]) return false;
      return true;
    }
    [[nodiscard]] long lin(arr_idx_t const &x) const {
      long r = 0;
      for (int i = 0; i < R; ++i) r = r * sh[i] + x[i];
      return r;
    }
    [[nodiscard]] arr_idx_t unlin(long k) const {
      arr_idx_t x{};
      for (int i = R - 1; i >= 0; --i) {
        x[i] = k % sh[i];
        k /= sh[i];
      }
      return x;
    }
    void iterate(arr_idx_t const &x, std::vector<char> &seen, sym_class_t &c, std::vector<F> const &syms, operation const &op, long maxl, long excursion = 0) {
      for (auto const &f : syms) {
        auto [xp, opp] = f(x);
        auto o         = opp * op;
        if (inside(xp)) {
          if (!seen[lin(xp)]) {
            seen[lin(xp)] = 1;
            c.emplace_back(lin(xp), o);
            iterate(xp, seen, c, syms, o, maxl, 0);
          }
        } else if (excursion < maxl)
          iterate(xp, seen, c, syms, o, maxl, excursion + 1);
      }
    }

    public:
    sym_grp() = default;
    template <typename B> sym_grp(B const &x, std::vector<F> const &syms, long maxl = 0) : sh(stdutil::make_std_array<long>(x.shape())) {
      long n = stdutil::product(sh);
      std::vector<char> seen(n, 0);
      for (long k = 0; k < n; ++k)
        if (!seen[k]) {
          seen[k] = 1;
          sym_class_t c{{k, operation{}}};
          iterate(unlin(k), seen, c, syms, operation{}, maxl);
          classes.push_back(std::move(c));
        }
    }
    [[nodiscard]] auto const &get_sym_classes() const { return classes; }
    [[nodiscard]] long num_classes() const { return long(classes.size()); }
    template <typename B, typename H> void init(B &&x, H const &h, bool = false) const {
      for (auto const &c : classes) {
        auto v = h(unlin(c[0].first));
        for (auto const &[k, op] : c) at(x, k) = op(v);
      }
    }
    template <typename B> auto &at(B &&x, long k) const {
      return std::apply([&](auto... i) -> auto & { return x(i...); }, unlin(k));
    }
    template <typename B> std::pair<double, arr_idx_t> symmetrize(B &&x) const {
      double md = 0;
      arr_idx_t mi{};
      using V = get_value_t<A>;
      for (auto const &c : classes) {
        V ref = 0;
        for (auto const &[k, op] : c) ref += op(at(x, k));
        ref /= double(c.size());
        for (auto const &[k, op] : c) {
          V m      = op(ref);
          double d = std::abs(m - at(x, k));
          if (d > md) {
            md = d;
            mi = unlin(k);
          }
          at(x, k) = m;
        }
      }
      return {md, mi};
    }
  };
} // namespace nda
