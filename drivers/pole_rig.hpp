// sums of poles: analytic transforms and moments
#pragma once
#include "g_rig.hpp"
namespace grig {
// ---------- a sum of poles
struct poles {
  std::vector<cd> e; std::vector<vec> w; // weights: components of the target
  vec moment(int k) const { vec r(w[0].size()); for (size_t i = 0; i < e.size(); ++i) axpy(r, k == 0 ? 0. : std::pow(e[i], k - 1), w[i]); return r; }
  double wsum() const { double s = 0; for (auto &x : w) s += norm(x); return s; }
  double we(int k) const { double s = 0; for (size_t i = 0; i < e.size(); ++i) s += norm(w[i]) * std::pow(std::abs(e[i]), k); return s; }
  vec freq(cd z) const { vec r(w[0].size()); for (size_t i = 0; i < e.size(); ++i) axpy(r, 1. / (z - e[i]), w[i]); return r; }
  vec tau(double t, double beta, statistic_enum st) const {
    vec r(w[0].size());
    for (size_t i = 0; i < e.size(); ++i) {
      double b = e[i].real(), s = st == Fermion ? 1 : -1; // - e^{-b t} / (1 +- e^{-beta b})
      axpy(r, b >= 0 ? -std::exp(-b * t) / (1 + s * std::exp(-beta * b)) : -std::exp(b * (beta - t)) / (std::exp(beta * b) + s), w[i]);
    }
    return r;
  }
  vec time(double t) const { // retarded function; the mean of both sides at t = 0
    vec r(w[0].size());
    for (size_t i = 0; i < e.size(); ++i) axpy(r, (t == 0 ? 0.5 : t < 0 ? 0 : 1) * cd(0, -1) * std::exp(cd(0, -1) * e[i] * t), w[i]);
    return r;
  }
};
inline poles some_poles(kase &c, size_t n, double emax, bool real, bool boson, double eta = 0) {
  poles p;
  int np = c.i(1, 4);
  for (int i = 0; i < np; ++i) {
    double e = c.r(-emax, emax);
    if (boson && std::abs(e) < 0.3) e = e < 0 ? -0.4 : 0.4;
    p.e.push_back({e, eta ? -eta * c.r(1, 2) : 0.});
    vec w(n);
    for (auto &x : w) x = real ? cd(c.r(-1, 1)) : cd(c.r(-1, 1), c.r(-1, 1));
    p.w.push_back(w);
  }
  return p;
}
// fill row d of an array with components
template <typename A> void put(A &&a, long d, vec const &v) {
  using val = typename std::decay_t<A>::value_type;
  auto cast = [](cd x) { if constexpr (std::is_same_v<val, double>) return x.real(); else return x; };
  if constexpr (nda::get_rank<std::decay_t<A>> == 1) a(d) = cast(v[0]);
  else {
    auto row = a(d, nda::ellipsis{});
    size_t k = 0;
    for (auto &x : row) x = cast(v[k++]);
  }
}
template <typename G, typename F> void fill(G &&g, F const &f) { for (auto m : g.mesh()) put(g.data(), m.data_index(), f(m)); }
template <typename G> vec row(G const &g, long d) {
  if constexpr (nda::get_rank<std::decay_t<decltype(g.data())>> == 1) return {cd(g.data()(d))};
  else return flat(g.data()(d, nda::ellipsis{}));
}
template <int R, typename S> nda::array<cd, R> moments(poles const &p, int rows, S const &shape) {
  std::array<long, R> sh;
  sh[0] = rows;
  for (int i = 1; i < R; ++i) sh[i] = shape[i - 1];
  nda::array<cd, R> m(sh);
  for (int k = 0; k < rows; ++k) put(m, k, p.moment(k));
  return m;
}
template <typename S> size_t ncomp(S const &s) { size_t n = 1; for (auto x : s) n *= x; return n; }
template <typename T> std::array<long, T::rank> tshape(kase &c) { std::array<long, T::rank> s; for (auto &x : s) x = c.i(1, 3); if constexpr (T::is_matrix) { s[0] = c.i(1, 3); s[1] = c.chance(0.7) ? s[0] : c.i(1, 3); } return s; }
} // namespace grig
