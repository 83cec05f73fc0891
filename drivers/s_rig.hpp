// samples of several types and their statistics computed from the recorded stream in long double
#pragma once
#include "../lib/vmon.hpp"
#include <triqs/utility/view_tools.hpp>
#include <triqs/stat.hpp>
namespace srig {
  using vmon::kase;
  using cld = std::complex<long double>;
  using dcx = std::complex<double>;
  using fl  = std::vector<cld>;
  namespace st = triqs::stat;
  template <typename T> struct kind;
  template <> struct kind<double> {
    static constexpr const char *name = "double";
    static double gen(kase &c, double o, double s) { return o + s * c.normal(); }
    static double zero(kase &) { return 0; }
    static double like(double) { return 0; }
  };
  template <> struct kind<dcx> {
    static constexpr const char *name = "complex";
    static dcx gen(kase &c, double o, double s) { return {o + s * c.normal(), s * c.normal() - o}; }
    static dcx zero(kase &) { return 0; }
  };
  template <> struct kind<nda::array<double, 1>> {
    static constexpr const char *name = "array";
    static constexpr long n = 3;
    static nda::array<double, 1> gen(kase &c, double o, double s) { nda::array<double, 1> a(n); for (auto &x : a) x = o + s * c.normal(); return a; }
    static nda::array<double, 1> zero(kase &c) { nda::array<double, 1> a(n); for (auto &x : a) x = c.r(); return a; }
  };
  template <> struct kind<nda::array<dcx, 2>> {
    static constexpr const char *name = "complex_array";
    static nda::array<dcx, 2> gen(kase &c, double o, double s) { nda::array<dcx, 2> a(2, 3); for (auto &x : a) x = dcx{o + s * c.normal(), s * c.normal()}; return a; }
    static nda::array<dcx, 2> zero(kase &c) { nda::array<dcx, 2> a(2, 3); for (auto &x : a) x = c.r(); return a; }
  };
  inline fl flat(double x) { return {cld(x)}; }
  inline fl flat(dcx x) { return {cld(x)}; }
  template <typename A> requires(nda::MemoryArray<A>) fl flat(A const &a) { fl r; for (auto const &x : a) r.push_back(cld(dcx(x))); return r; }
  inline void near(kase &c, fl const &a, fl const &b, long double tol, const char *what) {
    c.check(a.size() == b.size(), "%s: %zu components instead of %zu", what, a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i)
      c.check(std::abs(a[i] - b[i]) <= tol, "%s, component %zu: (%.15Lg,%.15Lg) instead of (%.15Lg,%.15Lg)", what, i, a[i].real(), a[i].imag(), b[i].real(), b[i].imag());
  }
  inline fl mean_of(std::vector<fl> const &x, long from, long to) {
    fl m(x[from].size());
    for (long i = from; i < to; ++i) for (size_t k = 0; k < m.size(); ++k) m[k] += x[i][k];
    for (auto &y : m) y /= (long double)(to - from);
    return m;
  }
  // standard error of the mean of independent samples
  inline fl err_of(std::vector<fl> const &x) {
    long n = x.size();
    auto m = mean_of(x, 0, n);
    fl q(m.size());
    for (auto &y : x) for (size_t k = 0; k < m.size(); ++k) q[k] += std::norm(y[k] - m[k]);
    for (auto &y : q) y = std::sqrt(y.real() / ((long double)n * (n - 1)));
    return q;
  }
  // the complete blocks of 2^n samples
  inline std::vector<fl> blocks(std::vector<fl> const &x, int n) {
    std::vector<fl> r;
    long s = 1l << n;
    for (long i = 0; (i + 1) * s <= long(x.size()); ++i) r.push_back(mean_of(x, i * s, (i + 1) * s));
    return r;
  }
} // namespace srig
