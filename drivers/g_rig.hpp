// common part of the drivers of Green functions
#pragma once
#include "vmon.hpp"
#include <triqs/gfs.hpp>
#include <h5/h5.hpp>
namespace grig {
  using vmon::kase;
  namespace tg = triqs::gfs;
  namespace tmesh = triqs::mesh;
  namespace lat = triqs::lattice;
  using cd = std::complex<double>;
  using idx3 = std::array<long, 3>;
  using tmesh::Boson; using tmesh::Fermion; using tmesh::statistic_enum; using tmesh::closest_mesh_pt; using tmesh::matsubara_freq;
  using tg::gf; using tg::gf_view; using tg::gf_const_view;
  using vec = std::vector<cd>;
  static const double pi = std::acos(-1.0);
  constexpr auto all = nda::range::all;

  // the components of a value (scalar or array) in C order
  template <typename V> vec flat(V const &v) {
    if constexpr (std::is_convertible_v<V, cd>) return {cd(v)};
    else {
      auto a = nda::make_regular(v);
      vec r;
      constexpr int R = nda::get_rank<std::decay_t<decltype(a)>>;
      std::array<long, R> ix{};
      long n = 1;
      for (int q = 0; q < R; ++q) n *= a.extent(q);
      for (long k = 0; k < n; ++k) {
        long t = k;
        for (int q = R - 1; q >= 0; --q) { ix[q] = t % a.extent(q); t /= a.extent(q); }
        r.push_back(std::apply([&](auto... i) { return cd(a(i...)); }, ix));
      }
      return r;
    }
  }
  inline void axpy(vec &y, cd a, vec const &x) {
    if (y.empty()) y.resize(x.size());
    for (size_t i = 0; i < x.size(); ++i) y[i] += a * x[i];
  }
  inline vec scaled(cd a, vec x) { for (auto &v : x) v *= a; return x; }
  inline vec conjugated(vec x) { for (auto &v : x) v = std::conj(v); return x; }
  inline double norm(vec const &x) { double m = 0; for (auto &v : x) m = std::max(m, std::abs(v)); return m; }
  inline void same(kase &c, vec const &got, vec const &ref, double tol, const char *what) {
    ++vmon::S().counters["oracle_checks"];
    if (got.size() != ref.size()) c.check(false, "%s: %zu components instead of %zu", what, got.size(), ref.size());
    for (size_t i = 0; i < got.size(); ++i)
      if (!(std::abs(got[i] - ref[i]) <= tol)) c.check(false, "%s: component %zu is (%.15g,%.15g) instead of (%.15g,%.15g), tolerance %.2g", what, i, got[i].real(), got[i].imag(), ref[i].real(), ref[i].imag(), tol);
  }
  // random data
  template <typename A> void randomize(kase &c, A &&a) {
    if constexpr (nda::get_rank<std::decay_t<A>> == 1) {
      for (long i = 0; i < a.extent(0); ++i)
        if constexpr (std::is_same_v<typename std::decay_t<A>::value_type, double>) a(i) = c.r(-1, 1);
        else a(i) = cd(c.r(-1, 1), c.r(-1, 1));
    } else
      for (long i = 0; i < a.extent(0); ++i) randomize(c, a(i, nda::ellipsis{}));
  }
  template <typename T> auto shape_of(kase &c) {
    std::array<long, T::rank> s;
    for (auto &x : s) x = c.i(1, 3);
    if constexpr (T::is_matrix) s[1] = s[0];
    return s;
  }
  template <typename T, typename M> auto random_gf(kase &c, M const &m) {
    gf<M, T> g{m, shape_of<T>(c)};
    randomize(c, g.data());
    return g;
  }
  inline double any_beta(kase &c) { return c.pick(std::vector<double>{1, 10, 2.5, 40, 7.3, 0.5}); }
  inline statistic_enum any_stat(kase &c) { return c.chance(0.5) ? Fermion : Boson; }
  inline nda::matrix<double> any_units(kase &c) {
    double s = c.pick(std::vector<double>{1, 1, 2.5, 0.3}), h = std::sqrt(3.0) / 2;
    switch (c.i(0, 6)) {
      case 0: return nda::matrix<double>{{s}};
      case 1: return nda::matrix<double>{{s, 0.}, {0., s * 2}};
      case 2: return nda::matrix<double>{{s, 0.}, {0.5 * s, h * s}};
      case 3: return nda::matrix<double>{{s, 0., 0.}, {0., s, 0.}, {0., 0., s * 1.5}};
      case 4: return nda::matrix<double>{{0., s, s}, {s, 0., s}, {s, s, 0.}};
      case 5: return nda::matrix<double>{{s, 0., 0.}, {0.5 * s, h * s, 0.}, {0., 0., 2 * s}};
      default: return nda::matrix<double>{{s, 0.3 * s, 0.1}, {-0.2, s, 0.4}, {0.1 * s, 0.2, 1.2 * s}};
    }
  }
  inline idx3 any_dims(kase &c, int nd, int big = 5) {
    idx3 d{1, 1, 1};
    for (int i = 0; i < nd; ++i) d[i] = c.i(1, big);
    return d;
  }
  inline tmesh::brzone any_bz(kase &c, int big = 5) { lat::brillouin_zone bz{lat::bravais_lattice{any_units(c)}}; return {bz, any_dims(c, bz.ndim(), big)}; }
  inline tmesh::cyclat any_cl(kase &c, int big = 5) { lat::bravais_lattice bl{any_units(c)}; return {bl, any_dims(c, bl.ndim(), big)}; }
  inline tmesh::imfreq any_imfreq(kase &c, long big = 8) { return {any_beta(c), any_stat(c), c.i(1, big), c.chance(0.3) ? tmesh::imfreq::option::positive_frequencies_only : tmesh::imfreq::option::all_frequencies}; }
  inline tmesh::imtime any_imtime(kase &c, long big = 9) { return {any_beta(c), any_stat(c), c.i(2, big)}; }
  inline tmesh::refreq any_refreq(kase &c, long big = 9) { double a = c.r(-5, 2); return {a, a + c.r(0.5, 8), c.i(2, big)}; }
  inline tmesh::retime any_retime(kase &c, long big = 9) { double a = c.r(-5, 2); return {a, a + c.r(0.5, 8), c.i(2, big)}; }
  inline tmesh::legendre any_legendre(kase &c, long big = 9) { return {any_beta(c), any_stat(c), c.i(1, big)}; }
} // namespace grig
