// G05: tail moments and densities match the analytic Green function
#include "pole_rig.hpp"
using namespace grig;
using namespace triqs;
using tg::scalar_valued; using tg::matrix_valued; using tg::tensor_valued; using tg::prod; using tg::block_gf; using tg::gf_const_view;
using tmesh::imfreq; using tmesh::imtime; using tmesh::refreq; using tmesh::legendre; using tmesh::brzone;
#ifndef PART
#define PART 0
#endif
// a sum of poles with hermitian weights: a physical (matrix) function
static poles physical(kase &c, long n, double emax, bool boson) {
  poles p;
  int np = c.i(1, 4);
  bool pd = c.chance(0.5);
  for (int k = 0; k < np; ++k) {
    double e = c.r(-emax, emax);
    if (boson && std::abs(e) < 0.3) e = e < 0 ? -0.4 : 0.4;
    p.e.push_back(e);
    vec w(n * n), v(n);
    for (auto &x : v) x = cd(c.r(-1, 1), c.r(-1, 1));
    if (pd) { for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) w[i * n + j] = v[i] * std::conj(v[j]); }
    else for (long i = 0; i < n; ++i) for (long j = i; j < n; ++j) { cd z = i == j ? cd(c.r(-1, 1)) : cd(c.r(-1, 1), c.r(-1, 1)); w[i * n + j] = z; w[j * n + i] = std::conj(z); }
    p.w.push_back(w);
  }
  return p;
}
// <c^+_j c_i> = G_ij(0^-) up to the sign of fermions
static vec occupation(poles const &p, double beta, statistic_enum st) {
  vec r(p.w[0].size());
  for (size_t i = 0; i < p.e.size(); ++i) { double x = beta * p.e[i].real(), s = st == Fermion ? 1 : -1; axpy(r, x > 0 ? std::exp(-x) / (1 + s * std::exp(-x)) : 1 / (std::exp(x) + s), p.w[i]); }
  return r;
}
static vec transposed(vec const &v, long n) { vec r(n * n); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) r[i * n + j] = v[j * n + i]; return r; }
static vec hconj(vec const &v, long n) { return conjugated(transposed(v, n)); }
// ---------- fits
// the fitted moments against the exact ones; what the fit can reach: relative to the largest frequency of the mesh
template <typename A> void check_moments(kase &c, A const &tail, poles const &p, int known, double wmax, double tol, int upto, const char *what) {
  for (int k = 0; k < std::min<long>(upto, tail.extent(0)); ++k) {
    vec got;
    if constexpr (nda::get_rank<A> == 1) got = {cd(tail(k))}; else got = flat(tail(k, nda::ellipsis{}));
    same(c, got, p.moment(k), k < known ? 0 : tol * std::pow(wmax, k), what);
  }
}
template <typename T, typename M> void fill_f(gf<M, T> &g, poles const &p) { fill(g, [&](auto m) { return p.freq(cd(m.value())); }); }
template <typename T> void fit_iw(kase &c) {
  auto st = any_stat(c);
  double beta = c.pick(std::vector<double>{1, 5, 10}), emax = 1.5;
  long n_iw = c.i(beta > 5 ? 150 : 60, 250);
  auto sh = tshape<T>(c);
  bool herm = T::rank == 0 || (T::is_matrix && sh[0] == sh[T::rank - 1] && c.chance(0.5));
  auto p = herm && T::rank == 2 ? physical(c, sh[0], emax, st == Boson) : some_poles(c, ncomp(sh), emax, herm, st == Boson);
  imfreq m{beta, st, n_iw};
  gf<imfreq, T> g{m, sh};
  fill_f(g, p);
  int known = c.i(0, 4);
  double wmax = (2 * n_iw - (st == Fermion ? 1 : 2)) * pi / beta;
  auto km = moments<T::rank + 1>(p, known, sh);
  int order = -1;
  double frac = 0.2;
  if (c.chance(0.4)) { frac = c.r(0.15, 0.5); if (c.chance(0.5)) { order = c.i(std::max(3, known), 8); g.mesh().set_tail_fit_parameters(frac, 40, order); } else g.mesh().set_tail_fit_parameters(frac, c.i(20, 60)); }
  double first = wmax * (1 - frac), x = emax / first, tol = 1e-6 * p.wsum() * (1 + std::pow(x, 4) * 1e3);
  c.trace("%s beta %g n_iw %ld known %d order %d frac %g target %zu hermitian %d poles %zu", st == Fermion ? "fermion" : "boson", beta, n_iw, known, order, frac, ncomp(sh), herm, p.e.size());
  auto chk = [&](auto const &r, const char *what) {
    auto &[tail, err] = r;
    c.check(err >= 0 && err < 1e-5 * (1 + p.wsum()), "%s: the reported error is %g", what, err);
    c.check(tail.extent(0) > known || order >= 0, "%s: %ld moments", what, (long)tail.extent(0));
    if (order >= 0) c.check(tail.extent(0) == order + 1, "%s: %ld moments instead of %d", what, (long)tail.extent(0), order + 1);
    check_moments(c, tail, p, known, wmax, tol, 4, what);
    // what was asked for: the expansion reproduces the function on the tail
    for (auto w : g.mesh()) if (std::abs(cd(w.value())) > first) {
      auto v = tmesh::tail_eval(nda::array_const_view<cd, T::rank + 1>(tail), cd(w.value()));
      same(c, flat(v), p.freq(cd(w.value())), 1e-6 * p.wsum() + 10 * err, "the fitted expansion on the tail");
    }
    vmon::count("fits", 1);
  };
  if (known) { chk(tg::fit_tail(g, km), "fit_tail with known moments"); chk(tg::fit_tail(g(), km), "fit_tail of a view"); }
  else chk(tg::fit_tail(g), "fit_tail");
  if constexpr (T::rank == 0 || T::rank == 2) if (herm) {
    auto h = known ? tg::fit_hermitian_tail(g, km) : tg::fit_hermitian_tail(g);
    chk(h, "fit_hermitian_tail");
    for (long k = 0; k < h.first.extent(0); ++k) {
      vec v;
      if constexpr (T::rank == 0) v = {cd(h.first(k))}; else v = flat(h.first(k, nda::ellipsis{}));
      vec hv = T::rank == 0 ? conjugated(v) : hconj(v, sh[0]);
      same(c, v, hv, 1e-11 * (1 + norm(v)), "hermitian moments");
    }
  }
  // a second fit with another number of known moments on the same mesh, and a fit of a copy
  int k2 = c.i(0, 4);
  if (order < 0 || k2 <= order) {
    gf<imfreq, T> g2 = g;
    auto r2 = tg::fit_tail(g2, moments<T::rank + 1>(p, k2, sh));
    check_moments(c, r2.first, p, k2, wmax, tol, 4, "second fit");
  }
  if (frac == 0.2) { // not normalised
    auto r3 = tg::fit_tail_no_normalize(g);
    auto r4 = tg::fit_tail(g);
    c.check(r3.first.extent(0) == r4.first.extent(0), "number of moments");
    for (long k = 0; k < r3.first.extent(0); ++k) {
      vec a, b;
      if constexpr (T::rank == 0) a = {cd(r3.first(k))}, b = {cd(r4.first(k))}; else a = flat(r3.first(k, nda::ellipsis{})), b = flat(r4.first(k, nda::ellipsis{}));
      same(c, scaled(std::pow(std::abs(cd(m.w_max())), double(k)), a), b, 1e-10 * (1 + norm(b)), "moments rescaled by the largest frequency");
    }
  }
  c.nontrivial(vmon::hash_fmt("%d %g %ld %d %d %zu", (int)st, beta, n_iw, known, order, ncomp(sh)));
}
template <typename T> void fit_w(kase &c) {
  auto sh = tshape<T>(c);
  double emax = 1;
  auto p = some_poles(c, ncomp(sh), emax, false, false, c.chance(0.5) ? 0.1 : 0);
  double a = c.r(15, 60), b = c.chance(0.5) ? a : c.r(15, 60);
  refreq m{-a, b, c.i(400, 1500)};
  gf<refreq, T> g{m, sh};
  fill_f(g, p);
  int known = c.i(0, 4);
  auto km = moments<T::rank + 1>(p, known, sh);
  c.trace("refreq %g %g %ld known %d target %zu poles %zu", a, b, m.size(), known, ncomp(sh), p.e.size());
  auto [tail, err] = known ? tg::fit_tail(g, km) : tg::fit_tail(g);
  c.check(err >= 0 && err < 1e-5 * (1 + p.wsum()), "the reported error is %g", err);
  check_moments(c, tail, p, known, b, 2e-5 * p.wsum() * std::max(1., std::pow(a / b, 4)), 4, "fit_tail in real frequency");
  vmon::count("fits", 1);
  c.nontrivial(vmon::hash_fmt("%g %g %ld %d", a, b, m.size(), known));
}
// several variables, blocks
template <int> void fit_parts(kase &c) {
  double beta = c.pick(std::vector<double>{1, 5});
  auto st = any_stat(c);
  long n_iw = c.i(60, 120), n1 = c.i(1, 3), n2 = c.i(2, 4);
  imfreq m{beta, st, n_iw};
  imtime t1{beta, st, n1 + 1}, t2{beta, st, n2};
  ++n1;
  int N = c.i(0, 2), known = c.i(0, 4);
  std::vector<poles> ps;
  std::vector<long> n{n1, n2};
  for (long i = 0; i < n1 * n2; ++i) ps.push_back(some_poles(c, 4, 1, false, st == Boson));
  c.trace("position %d known %d n_iw %ld sizes %ld %ld", N, known, n_iw, n1, n2);
  nda::array<cd, 5> km(known, n1, n2, 2, 2);
  for (int k = 0; k < known; ++k) for (long i = 0; i < n1; ++i) for (long j = 0; j < n2; ++j) { vec v = ps[i * n2 + j].moment(k); for (int q = 0; q < 4; ++q) km(k, i, j, q / 2, q % 2) = v[q]; }
  auto chk = [&](auto const &g, auto NN) {
    constexpr int K = decltype(NN)::value;
    auto [tail, err] = known ? tg::fit_tail<K>(g, km) : tg::fit_tail<K>(g);
    c.check(tail.extent(1) == n1 && tail.extent(2) == n2 && tail.extent(3) == 2 && tail.extent(4) == 2, "shape of the moments");
    auto z = tg::make_zero_tail<K>(g, 7);
    c.check(z.extent(0) == 7 && z.extent(1) == n1 && z.extent(2) == n2 && z.extent(4) == 2, "shape of make_zero_tail");
    for (auto x : flat(z)) c.check(x == 0., "make_zero_tail");
    // every point as in a fit of this point alone
    for (long i = 0; i < n1; ++i) for (long j = 0; j < n2; ++j) {
      gf<imfreq, matrix_valued> s{m, {2, 2}};
      auto &p = ps[i * n2 + j];
      fill_f(s, p);
      auto ref = known ? tg::fit_tail(s, nda::array<cd, 3>(km(all, i, j, all, all))) : tg::fit_tail(s);
      c.check(ref.first.extent(0) == tail.extent(0), "number of moments");
      for (long k = 0; k < tail.extent(0); ++k) same(c, flat(tail(k, i, j, all, all)), flat(ref.first(k, all, all)), 1e-9 * (1 + norm(flat(ref.first(k, all, all)))), "moments of one point");
      check_moments(c, ref.first, p, known, std::abs(cd(m.w_max())), 1e-5 * p.wsum(), 4, "moments of one point");
    }
    vmon::count("fits", n1 * n2);
  };
  auto val = [&](auto &g, auto f) { for (auto w : m) for (auto a : t1) for (auto b : t2) { vec v = ps[a.data_index() * n2 + b.data_index()].freq(cd(w.value())); auto x = f(g, w, a, b); for (int q = 0; q < 4; ++q) x(q / 2, q % 2) = v[q]; } };
  if (N == 0) { gf<prod<imfreq, imtime, imtime>, matrix_valued> g{{m, t1, t2}, {2, 2}}; val(g, [](auto &g, auto w, auto a, auto b) { return g[w, a, b]; }); chk(g, std::integral_constant<int, 0>{}); }
  if (N == 1) { gf<prod<imtime, imfreq, imtime>, matrix_valued> g{{t1, m, t2}, {2, 2}}; val(g, [](auto &g, auto w, auto a, auto b) { return g[a, w, b]; }); chk(g, std::integral_constant<int, 1>{}); }
  if (N == 2) { gf<prod<imtime, imtime, imfreq>, matrix_valued> g{{t1, t2, m}, {2, 2}}; val(g, [](auto &g, auto w, auto a, auto b) { return g[a, b, w]; }); chk(g, std::integral_constant<int, 2>{}); }
  // blocks
  int nb = c.i(1, 3);
  std::vector<gf<imfreq, matrix_valued>> v;
  std::vector<nda::array<cd, 3>> kms;
  std::vector<poles> pb;
  for (int b = 0; b < nb; ++b) { long d = c.i(1, 3); auto p = physical(c, d, 1, st == Boson); gf<imfreq, matrix_valued> g{m, {d, d}}; fill_f(g, p); v.push_back(g); kms.push_back(moments<3>(p, known, g.target_shape())); pb.push_back(p); }
  block_gf<imfreq, matrix_valued> bg{v};
  for (bool herm : {false, true}) {
    auto r = herm ? (known ? tg::fit_hermitian_tail(bg, kms) : tg::fit_hermitian_tail(bg)) : known ? tg::fit_tail(bg, kms) : tg::fit_tail(bg);
    double worst = 0;
    for (int b = 0; b < nb; ++b) {
      auto one = herm ? (known ? tg::fit_hermitian_tail(v[b], kms[b]) : tg::fit_hermitian_tail(v[b])) : known ? tg::fit_tail(v[b], kms[b]) : tg::fit_tail(v[b]);
      worst = std::max(worst, one.second);
      same(c, flat(r.first[b]), flat(one.first), 0, "moments of one block");
      check_moments(c, one.first, pb[b], known, std::abs(cd(m.w_max())), 1e-5 * pb[b].wsum(), 4, "moments of one block");
    }
    c.check(r.second == worst, "error of the blocks %g %g", r.second, worst);
  }
  auto bz = tg::make_zero_tail(bg, 3);
  for (int b = 0; b < nb; ++b) c.check(bz[b].extent(0) == 3 && bz[b].extent(1) == v[b].target_shape()[0], "zero tail of a block");
  vmon::count("blocks", nb);
  c.nontrivial(vmon::hash_fmt("p%d %d %ld %ld %ld %d", N, known, n_iw, n1, n2, nb));
}
// ---------- windows and replacements
template <typename T> void window(kase &c) {
  auto st = any_stat(c);
  double beta = c.pick(std::vector<double>{1, 5});
  long n_iw = c.i(60, 150);
  auto sh = tshape<T>(c);
  imfreq m{beta, st, n_iw};
  auto p = some_poles(c, ncomp(sh), 1, false, st == Boson);
  gf<imfreq, T> g{m, sh};
  fill_f(g, p);
  auto exact = g;
  c.trace("%s beta %g n_iw %ld target %zu", st == Fermion ? "fermion" : "boson", beta, n_iw, ncomp(sh));
  auto tail = moments<T::rank + 1>(p, 10, sh);
  long n_min = c.i(n_iw / 2, n_iw - 1);
  auto noisy = g;
  for (auto w : m) for (auto &x : noisy.data()) { (void)w; x += cd(c.r(-1, 1), c.r(-1, 1)) * 0.0; break; }
  randomize(c, noisy.data());
  auto before = noisy;
  bool inwin = c.chance(0.4);
  double frac = c.chance(0.5) ? 0.2 : c.r(0.1, 0.5);
  if (inwin) {
    if (frac != 0.2) noisy.mesh().set_tail_fit_parameters(frac);
    n_min = m.last_index() - long(std::round(frac * m.size() / 2));
    tg::replace_by_tail_in_fit_window(noisy(), nda::array_const_view<cd, T::rank + 1>(tail));
  } else tg::replace_by_tail(noisy(), nda::array_const_view<cd, T::rank + 1>(tail), int(n_min));
  double x = 1 / std::abs(cd(m.to_value(n_min)));
  for (auto w : m) {
    long n = w.index();
    long nn = n >= 0 ? n : st == Fermion ? -n - 1 : -n; // the mirror image
    vec v = flat(noisy[w]), o = flat(before[w]);
    if (nn < n_min) same(c, v, o, 0, "a point below the tail was changed");
    else if (nn > n_min || n >= 0 || st == Fermion) same(c, v, p.freq(cd(w.value())), 1e-12 * p.wsum() + 4 * p.wsum() * std::pow(x, 11), "a point of the tail");
  }
  vmon::count("replacements", 1);
  c.nontrivial(vmon::hash_fmt("%d %g %ld %ld %d", (int)st, beta, n_iw, n_min, inwin));
}
template <int> void on_window(kase &c) {
  auto st = any_stat(c);
  double beta = c.pick(std::vector<double>{1, 5});
  long n_iw = c.i(100, 200), d = c.i(1, 3);
  auto p = physical(c, d, 1, st == Boson);
  imfreq m{beta, st, n_iw};
  gf<imfreq, matrix_valued> g{m, {d, d}};
  fill_f(g, p);
  int known = c.i(0, 3), order = c.i(std::max(3, known), 6);
  long n_max = c.chance(0.3) ? -1 : c.i(80, n_iw), nm = n_max == -1 ? m.last_index() : n_max, n_min = c.i(nm / 2, nm - 20);
  auto km = moments<3>(p, known, g.target_shape());
  // beyond the window the data is garbage
  for (auto w : m) { long nn = w.index() >= 0 ? w.index() : st == Fermion ? -w.index() - 1 : -w.index(); if (nn >= nm || nn < n_min - 2) for (long i = 0; i < d; ++i) for (long j = 0; j < d; ++j) g[w](i, j) += cd(c.r(-1, 1), c.r(-1, 1)); }
  c.trace("%s beta %g n_iw %ld window %ld %ld known %d order %d dim %ld", st == Fermion ? "fermion" : "boson", beta, n_iw, n_min, n_max, known, order, d);
  double wmax = 2 * nm * pi / beta;
  for (bool herm : {false, true}) {
    auto [tail, err] = herm ? tg::fit_hermitian_tail_on_window(g, n_min, n_max, km, 40, order) : tg::fit_tail_on_window(g, n_min, n_max, km, 40, order);
    c.check(tail.extent(0) == order + 1, "%ld moments instead of %d", (long)tail.extent(0), order + 1);
    c.check(err >= 0 && err < 1e-4 * (1 + p.wsum()), "reported error %g", err);
    check_moments(c, tail, p, known, wmax, 1e-4 * p.wsum(), 4, "fit on a window");
    vmon::count("fits", 1);
  }
  c.nontrivial(vmon::hash_fmt("%d %g %ld %ld %ld %d %d", (int)st, beta, n_iw, n_min, n_max, known, order));
}
template <int> void refusals(kase &c) {
  double beta = any_beta(c);
  auto st = any_stat(c);
  long n_iw = c.i(1, 40);
  imfreq m{beta, st, n_iw}, mp{beta, st, n_iw, imfreq::option::positive_frequencies_only};
  gf<imfreq, matrix_valued> g{m, {2, 2}}, gp{mp, {2, 2}}, gr{m, {2, 3}}, gr2{m, {3, 2}};
  randomize(c, g.data()); randomize(c, gp.data()); randomize(c, gr.data()); randomize(c, gr2.data());
  nda::array<cd, 3> k0(0, 2, 2), k12(11, 2, 2), z(4, 2, 2), zr(4, 2, 3), zr2(4, 3, 2), one(4, 2, 2);
  k12 = 0; z = 0; zr = 0; zr2 = 0; one = 0;
  one(0, 0, 0) = 1;
  c.trace("beta %g n_iw %ld %d", beta, n_iw, (int)st);
  c.throws([&] { (void)tg::fit_tail(gp); }, "fit on positive frequencies");
  c.throws([&] { (void)tg::fit_tail_on_window(gp, 0, int(n_iw), k0, 10, 3); }, "fit on a window of positive frequencies");
  c.throws([&] { (void)tg::fit_tail_on_window(g, 0, int(n_iw) + 5, k0, 10, 3); }, "fit on a window that exceeds the mesh");
  c.throws([&] { (void)tg::fit_hermitian_tail(gr); }, "hermitian fit of a rectangular target");
  c.throws([&] { (void)tg::density(gp, z); }, "density of positive frequencies");
  c.throws([&] { (void)tg::density(g, one); }, "density with a constant term");
  c.throws([&] { (void)tg::density(gr, zr); }, "density of a 2 x 3 target");
  c.throws([&] { (void)tg::density(gr2, zr2); }, "density of a 3 x 2 target");
  // all the moments of the fitter, and more, are known
  auto q = g;
  int order = c.i(2, 14);
  bool threw = false;
  try { q.mesh().set_tail_fit_parameters(0.5, 30, order); auto [t, e] = tg::fit_tail(q, k12); if (t.extent(0) == 11) same(c, flat(t), flat(k12), 0, "known moments"); } catch (std::exception const &) { threw = true; }
  // small meshes have too few points: the fit either works or refuses
  try { (void)tg::fit_tail(g); vmon::count("small_fits", 1); } catch (std::exception const &) { vmon::count("small_refused", 1); }
  if (n_iw <= 2) c.throws([&] { (void)tg::fit_tail(g); }, "fit without points");
  std::vector<nda::array<cd, 3>> few(1, z);
  block_gf<imfreq, matrix_valued> bg{std::vector<gf<imfreq, matrix_valued>>{g, g}};
  c.throws([&] { (void)tg::density(bg, few); }, "moments for too few blocks");
  vmon::count("refusals", 9 + threw);
  c.nontrivial(vmon::hash_fmt("%g %ld %d %d", beta, n_iw, (int)st, order));
}
// ---------- densities
template <int> void dens_iw(kase &c) {
  auto st = any_stat(c);
  double beta = c.pick(std::vector<double>{1, 5, 10, 2.5});
  long d = c.i(1, 4);
  bool given = c.chance(0.6);
  double emax = given ? 4 : 1.2;
  auto p = physical(c, d, emax, st == Boson);
  long n_iw = given ? c.i(1, 80) : c.i(80, 250);
  imfreq m{beta, st, n_iw};
  gf<imfreq, matrix_valued> g{m, {d, d}};
  fill_f(g, p);
  double wN = (2 * n_iw - (st == Fermion ? 0 : 1)) * pi / beta, C = p.we(3) + 4 * (p.we(0) + p.we(1) + p.we(2));
  double tol = 3 * C * 2 / beta * (std::pow(wN, -4) + beta / (6 * pi) * std::pow(wN, -3)) + 1e-11 * (1 + p.wsum() * (1 + 4 / beta)) + (given ? 0 : 1e-6 * p.wsum());
  c.trace("%s beta %g n_iw %ld dim %ld moments given %d poles %zu", st == Fermion ? "fermion" : "boson", beta, n_iw, d, given, p.e.size());
  int rows = given ? c.i(4, 6) : c.i(0, 3);
  auto km = moments<3>(p, rows, g.target_shape());
  vec ref = occupation(p, beta, st);
  auto n = rows ? tg::density(g, km) : tg::density(g);
  same(c, flat(n), ref, tol, "density of a Matsubara function, <c^+_j c_i>");
  if (d == 1) {
    gf<imfreq, scalar_valued> s{m};
    s.data() = g.data()(all, 0, 0);
    cd x = rows ? tg::density(s, nda::array<cd, 1>(km(all, 0, 0))) : tg::density(s);
    same(c, {x}, ref, tol, "density of a scalar Matsubara function");
  }
  if (rows) {
    block_gf<imfreq, matrix_valued> bg{std::vector<gf<imfreq, matrix_valued>>{g, g}};
    auto v = tg::density(bg, std::vector<nda::array<cd, 3>>{km, km});
    c.check(v.size() == 2, "number of blocks");
    for (auto &x : v) same(c, flat(x), flat(n), 0, "density of a block");
  }
  vmon::count("densities", 1);
  c.nontrivial(vmon::hash_fmt("%d %g %ld %ld %d", (int)st, beta, n_iw, d, rows));
}
// nodes and weights of Gauss-Legendre quadrature on [-1, 1]
static std::vector<std::pair<double, double>> gauss(int n) {
  std::vector<std::pair<double, double>> r;
  for (int i = 0; i < n; ++i) {
    double x = std::cos(pi * (i + 0.75) / (n + 0.5)), d = 1;
    for (int it = 0; it < 100; ++it) {
      double p0 = 1, p1 = x;
      for (int k = 2; k <= n; ++k) { double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
      d = n * (x * p1 - p0) / (x * x - 1);
      double dx = p1 / d;
      x -= dx;
      if (std::abs(dx) < 1e-15) break;
    }
    r.push_back({x, 2 / ((1 - x * x) * d * d)});
  }
  return r;
}
template <int> void dens_other(kase &c) {
  auto st = any_stat(c);
  double beta = c.pick(std::vector<double>{1, 5, 2.5}), emax = 2;
  long d = c.i(1, 4);
  auto p = physical(c, d, emax, st == Boson);
  c.trace("%s beta %g dim %ld poles %zu", st == Fermion ? "fermion" : "boson", beta, d, p.e.size());
  vec occ = transposed(occupation(p, beta, st), d); // <c^+_i c_j>
  if (st == Fermion || c.chance(0.7)) { // Legendre coefficients
    static auto q = gauss(120);
    long nl = c.i(40, 60);
    legendre m{beta, st, nl};
    gf<legendre, matrix_valued> g{m, {d, d}};
    g.data() = 0;
    for (auto [x, w] : q) {
      vec t = p.tau(beta * (x + 1) / 2, beta, st);
      double p0 = 1, p1 = x;
      for (long l = 0; l < nl; ++l) {
        double pl = l == 0 ? 1 : p1;
        if (l > 1) { pl = ((2 * l - 1) * x * p1 - (l - 1) * p0) / l; p0 = p1; p1 = pl; }
        for (long i = 0; i < d * d; ++i) g.data()(l, i / d, i % d) += std::sqrt(2. * l + 1) * beta / 2 * w * pl * t[i];
      }
    }
    same(c, flat(tg::density(g)), occ, 1e-9 * (1 + p.wsum() * (1 + 4 / beta)), "density of a Legendre function, <c^+_i c_j>");
    if (d == 1) { gf<legendre, scalar_valued> s{m}; s.data() = g.data()(all, 0, 0); same(c, {tg::density(s)}, occ, 1e-9 * (1 + p.wsum() * (1 + 4 / beta)), "density of a scalar Legendre function"); }
    vmon::count("densities", 1);
  }
  { // DLR
    tmesh::dlr_imtime m{beta, st, 6., 1e-11};
    gf<tmesh::dlr_imtime, matrix_valued> g{m, {d, d}};
    fill(g, [&](auto t) { return p.tau(double(t.value()), beta, st); });
    auto gc = tg::make_gf_dlr(g);
    same(c, flat(tg::density(gc)), occ, 1e-7 * (1 + p.wsum() * (1 + 4 / beta)), "density of a DLR function, <c^+_i c_j>");
    if (d == 1) {
      gf<tmesh::dlr_imtime, scalar_valued> s{m};
      s.data() = g.data()(all, 0, 0);
      same(c, {cd(tg::density(tg::make_gf_dlr(s)))}, occ, 1e-7 * (1 + p.wsum() * (1 + 4 / beta)), "density of a scalar DLR function");
    }
    vmon::count("densities", 1);
  }
  c.nontrivial(vmon::hash_fmt("o%d %g %ld %zu", (int)st, beta, d, p.e.size()));
}
template <int> void dens_w(kase &c) {
  long d = c.i(1, 3);
  int kind = c.i(0, 2);
  double a = c.r(3, 10), b = c.chance(0.2) ? 0 : c.chance(0.15) ? -c.r(0.1, 0.5) : c.r(0.5, 8);
  long n = c.i(3, kind == 0 ? 60 : 600);
  if (kind && n < 100) n += 100;
  refreq m{-a, b, n};
  gf<refreq, matrix_valued> g{m, {d, d}};
  double dw = (b + a) / (n - 1);
  c.trace("kind %d [%g, %g] %ld points dim %ld", kind, -a, b, n, d);
  auto set = [&](auto const &w, vec const &v) { for (long i = 0; i < d * d; ++i) g[w](i / d, i % d) = v[i]; };
  auto scal = [&](auto f, vec const &ref, double tol) { if (d == 1) { gf<refreq, scalar_valued> s{m}; s.data() = g.data()(all, 0, 0); same(c, {f(s)}, ref, tol, "scalar real frequency density"); } };
  double top = std::min(0., b);
  if (kind == 0) { // the spectral function is linear in the frequency: the trapezoidal rule is exact
    auto A0 = physical(c, d, 1, false).w[0], A1 = physical(c, d, 1, false).w[0];
    for (auto w : m) {
      vec v;
      axpy(v, cd(0, -pi), A0); axpy(v, cd(0, -pi) * w.value(), A1);
      vec h = physical(c, d, 1, false).w[0]; // a hermitian part does not count
      axpy(v, 1, h);
      set(w, v);
    }
    vec ref;
    axpy(ref, a + top, A0); axpy(ref, (top * top - a * a) / 2, A1);
    same(c, flat(tg::density(g)), ref, 1e-9 * (1 + a * a), "zero temperature density of a linear spectral function");
    scal([&](auto &s) { return tg::density(s); }, ref, 1e-9 * (1 + a * a));
    vmon::count("linear_spectra", 1);
  } else {
    auto p = physical(c, d, std::min(a, std::abs(b) + 1) * 0.6, false);
    double eta = c.r(3, 6) * dw;
    for (auto &e : p.e) e -= cd(0, eta);
    for (auto w : m) set(w, p.freq(w.value()));
    double slope = p.wsum() / (pi * eta * eta);
    auto lor = [&](double x, size_t i) { return eta / pi / ((x - p.e[i].real()) * (x - p.e[i].real()) + eta * eta); };
    if (kind == 1) {
      vec ref;
      for (size_t i = 0; i < p.e.size(); ++i) axpy(ref, (std::atan((top - p.e[i].real()) / eta) - std::atan((-a - p.e[i].real()) / eta)) / pi, p.w[i]);
      same(c, flat(tg::density(g)), ref, dw * dw * slope * 0.7 + 1e-10, "zero temperature density");
      scal([&](auto &s) { return tg::density(s); }, ref, dw * dw * slope * 0.7 + 1e-10);
    } else {
      double beta = c.r(0.2, 1.5) / dw;
      vec ref;
      double edge = 0;
      int f = 16;
      for (size_t i = 0; i < p.e.size(); ++i) {
        double s = 0;
        for (long k = 0; k < (n - 1) * f; ++k) { double x = -a + dw * (k + 0.5) / f; s += dw / f * lor(x, i) / (1 + std::exp(beta * x)); }
        axpy(ref, s, p.w[i]);
        edge += norm(p.w[i]) * dw * (lor(-a, i) + lor(b, i) / (1 + std::exp(beta * b)));
      }
      same(c, flat(tg::density(g, beta)), ref, edge + 0.2 * dw * dw * slope * (0.02 + std::exp(-2 * pi * eta / dw)) + 1e-4 * p.wsum() * std::exp(-2 * pi * pi / (beta * dw)) + 2e-4 * p.wsum(), "finite temperature density");
      scal([&](auto &s) { return tg::density(s, beta); }, ref, 2 * edge + 1e-3 * p.wsum());
    }
    vmon::count("lorentzian_spectra", 1);
  }
  vmon::count("densities", 1);
  c.nontrivial(vmon::hash_fmt("w%d %g %g %ld %ld", kind, a, b, n, d));
}
// the same function in several representations has one density matrix
template <int> void convention(kase &c) {
  double beta = 2;
  auto p = physical(c, 2, 1.5, false);
  p.w[0][1] += cd(0, 0.8); p.w[0][2] -= cd(0, 0.8);
  imfreq m{beta, Fermion, 60};
  gf<imfreq, matrix_valued> g{m, {2, 2}};
  fill_f(g, p);
  tmesh::dlr_imtime t{beta, Fermion, 6., 1e-11};
  gf<tmesh::dlr_imtime, matrix_valued> h{t, {2, 2}};
  fill(h, [&](auto x) { return p.tau(double(x.value()), beta, Fermion); });
  vec a = flat(tg::density(g, moments<3>(p, 4, g.target_shape()))), b = flat(tg::density(tg::make_gf_dlr(h)));
  c.nontrivial(c.index);
  vec d = a, dt = transposed(a, 2);
  axpy(d, -1, b); axpy(dt, -1, b);
  if (norm(d) > 1e-4 && norm(dt) < 1e-4) c.check(false, "the densities of gf<imfreq> and gf<dlr> are transposed matrices of each other");
  c.check(norm(d) < 1e-4, "the densities of gf<imfreq> and gf<dlr> differ");
}
#define P(n) if constexpr (PART == 0 || PART == n)
template <int> void parts() {
  P(1) {
    vmon::group("fit_iw", 40, 1200, [](kase &c) { switch (c.i(0, 2)) { case 0: fit_iw<scalar_valued>(c); break; case 1: fit_iw<matrix_valued>(c); break; default: fit_iw<tensor_valued<3>>(c); } });
    vmon::group("fit_w", 20, 600, [](kase &c) { switch (c.i(0, 2)) { case 0: fit_w<scalar_valued>(c); break; case 1: fit_w<matrix_valued>(c); break; default: fit_w<tensor_valued<3>>(c); } });
  }
  P(2) {
    vmon::group("fit_parts", 15, 400, fit_parts<0>);
  }
  P(3) {
    vmon::group("window", 100, 3000, [](kase &c) { switch (c.i(0, 2)) { case 0: window<scalar_valued>(c); break; case 1: window<matrix_valued>(c); break; default: window<tensor_valued<3>>(c); } });
    vmon::group("on_window", 25, 800, on_window<0>);
    vmon::group("refusals", 40, 1000, refusals<0>);
  }
  P(4) {
    vmon::group("density_iw", 200, 4000, dens_iw<0>);
    vmon::group("density_other", 60, 1000, dens_other<0>);
    vmon::group("density_w", 300, 6000, dens_w<0>);
    vmon::group("density_convention", 3, 10, convention<0>);
  }
}
void run() { parts<0>(); }
