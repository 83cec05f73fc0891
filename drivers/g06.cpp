// G06: changing the representation of a Green function preserves the function
#include "pole_rig.hpp"
#include <triqs/gfs/transform/partial_transform.hpp>
#include <triqs/gfs/transform/pade.hpp>
#include <triqs/utility/pade_approximants.hpp>
using namespace grig;
using namespace triqs;
using tg::scalar_valued; using tg::matrix_valued; using tg::tensor_valued; using tg::prod; using tg::block_gf; using tg::block2_gf;
using tmesh::imfreq; using tmesh::imtime; using tmesh::refreq; using tmesh::legendre; using tmesh::dlr; using tmesh::dlr_imtime; using tmesh::dlr_imfreq; using tmesh::cyclat;
#ifndef PART
#define PART 0
#endif
// nodes and weights of Gauss-Legendre quadrature, Legendre polynomials
static double leg(int l, double x) { double a = 1, b = x; if (l == 0) return 1; for (int n = 2; n <= l; ++n) { double d = ((2 * n - 1) * x * b - (n - 1) * a) / n; a = b; b = d; } return b; }
struct gauss {
  std::vector<double> x, w;
  explicit gauss(int n) {
    for (int i = 0; i < n; ++i) {
      double z = std::cos(pi * (i + 0.75) / (n + 0.5));
      for (int it = 0; it < 60; ++it) { double p = leg(n, z), d = n * (z * p - leg(n - 1, z)) / (z * z - 1); double dz = p / d; z -= dz; if (std::abs(dz) < 1e-15) break; }
      double d = n * (z * leg(n, z) - leg(n - 1, z)) / (z * z - 1);
      x.push_back(z); w.push_back(2 / ((1 - z * z) * d * d));
    }
  }
};
static gauss const &quad() { static gauss g(80); return g; }
// sqrt(2l+1) int_0^beta P_l(x(tau)) f(tau)
template <typename F> vec coefficient(int l, double beta, F const &f) {
  vec r;
  for (size_t i = 0; i < quad().x.size(); ++i) axpy(r, std::sqrt(2. * l + 1) * beta / 2 * quad().w[i] * leg(l, quad().x[i]), f(beta * (quad().x[i] + 1) / 2));
  return r;
}
// ---------- Legendre
template <typename T> void leg_direct(kase &c) {
  auto st = any_stat(c);
  double beta = c.pick(std::vector<double>{1, 2, 5, 10}), emax = std::min(4., 16 / beta);
  auto sh = tshape<T>(c);
  auto p = some_poles(c, ncomp(sh), emax, false, st == Boson);
  legendre ml{beta, st, 45};
  gf<legendre, T> gl{ml, sh};
  fill(gl, [&](auto m) { return coefficient(m.index(), beta, [&](double t) { return p.tau(t, beta, st); }); });
  imfreq mw{beta, st, c.i(1, 12), c.chance(0.3) ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies};
  imtime mt{beta, st, c.i(2, 40)};
  c.trace("%s beta %g target %zu poles %zu, %ld coefficients, %ld frequencies, %ld times", st == Fermion ? "fermion" : "boson", beta, ncomp(sh), p.e.size(), ml.size(), mw.size(), mt.size());
  double s = p.wsum() * (st == Boson ? 1 / (1 - std::exp(-0.3 * beta)) : 1);
  gf<imfreq, T> gw{mw, sh};
  gf<imtime, T> gt{mt, sh};
  randomize(c, gw.data()); randomize(c, gt.data());
  if (c.chance(0.5)) gw() = tg::legendre_to_imfreq(gl); else tg::legendre_matsubara_direct(gw, gl);
  if (c.chance(0.5)) gt() = tg::legendre_to_imtime(gl); else tg::legendre_matsubara_direct(gt, gl());
  for (auto w : mw) same(c, row(gw, w.data_index()), p.freq(cd(w.value())), 1e-9 * s, "Legendre to Matsubara");
  for (auto t : mt) same(c, row(gt, t.data_index()), p.tau(t.value(), beta, st), 1e-9 * s, "Legendre to imaginary time");
  vmon::count("legendre_points", mw.size() + mt.size());
  c.check(gw.mesh() == mw && gt.mesh() == mt, "the mesh changed");
  // the function itself evaluated at any time
  for (int k = 0; k < 4; ++k) { double t = c.r(0, beta); same(c, flat(gl(t)), p.tau(t, beta, st), 1e-9 * s, "evaluation of the Legendre function"); }
  // moments
  if constexpr (std::is_same_v<T, matrix_valued>) {
    int order = c.i(1, 4);
    auto t = tg::get_tail(gl, order);
    c.check(t.extent(0) == order, "order");
    double scale = 1;
    for (int k = 0; k < order; ++k) {
      same(c, flat(t(k, nda::ellipsis{})), p.moment(k), 1e-9 * s * scale, "moments from the Legendre coefficients");
      scale *= 2e3 / beta;
    }
  }
  c.nontrivial(vmon::hash_fmt("%d %g %ld %ld %zu %zu", (int)st, beta, mw.size(), mt.size(), ncomp(sh), p.e.size()));
}
template <typename T> void leg_random(kase &c) { // any coefficients: linear in them
  auto st = any_stat(c);
  double beta = any_beta(c);
  auto sh = tshape<T>(c);
  legendre ml{beta, st, c.i(1, 25)};
  gf<legendre, T> gl{ml, sh};
  randomize(c, gl.data());
  c.trace("%s beta %g target %zu, %ld coefficients", st == Fermion ? "fermion" : "boson", beta, ncomp(sh), ml.size());
  auto exact = [&](double t) { vec r(ncomp(sh)); for (auto m : ml) axpy(r, std::sqrt(2. * m.index() + 1) / beta * leg(m.index(), 2 * t / beta - 1), row(gl, m.data_index())); return r; };
  imtime mt{beta, st, c.i(2, 30)};
  imfreq mw{beta, st, c.i(1, 9)};
  gf<imtime, T> gt{mt, sh};
  gf<imfreq, T> gw{mw, sh};
  gt() = tg::legendre_to_imtime(gl);
  gw() = tg::legendre_to_imfreq(gl);
  double s = 26. * 26;
  for (auto t : mt) same(c, row(gt, t.data_index()), exact(t.value()), 1e-11 * s / beta, "Legendre series");
  for (auto w : mw) {
    vec r(ncomp(sh));
    for (size_t i = 0; i < quad().x.size(); ++i) { double t = beta * (quad().x[i] + 1) / 2; axpy(r, beta / 2 * quad().w[i] * std::exp(cd(w.value()) * t), exact(t)); }
    same(c, row(gw, w.data_index()), r, 1e-10 * s, "transform of the Legendre series");
  }
  // the way back from imaginary time is the quadrature with the points of the mesh; exact in the limit
  imtime mf{beta, st, 2001};
  gf<imtime, T> gf_{mf, sh};
  gf_() = tg::legendre_to_imtime(gl);
  gf<legendre, T> back{ml, sh};
  randomize(c, back.data());
  back() = tg::imtime_to_legendre(gf_);
  double L = ml.size();
  for (auto m : ml) same(c, row(back, m.data_index()), row(gl, m.data_index()), 1e-6 * std::pow(L + 1, 5) + 1e-10, "Legendre to time and back");
  { // coarse mesh: exactly the trapezoidal rule
    gf<imtime, T> h{mt, sh};
    randomize(c, h.data());
    gf<legendre, T> q{ml, sh};
    tg::legendre_matsubara_inverse(q, h);
    for (auto m : ml) {
      vec r(ncomp(sh));
      for (auto t : mt) axpy(r, (t.index() == 0 || t.index() == mt.size() - 1 ? 0.5 : 1.) * beta / (mt.size() - 1) * std::sqrt(2. * m.index() + 1) * leg(m.index(), 2 * t.value() / beta - 1), row(h, t.data_index()));
      same(c, row(q, m.data_index()), r, 1e-11 * 10 * beta, "quadrature");
    }
  }
  c.check(back.mesh() == ml, "the mesh changed");
  vmon::count("legendre_points", mt.size() + mw.size() + 2 * ml.size());
  c.nontrivial(vmon::hash_fmt("%d %g %ld %ld %zu", (int)st, beta, ml.size(), mt.size(), ncomp(sh)));
}
template <typename T> void leg_inverse(kase &c) {
  auto st = any_stat(c);
  double beta = c.pick(std::vector<double>{1, 2, 5, 10}), emax = std::min(3., 12 / beta);
  auto sh = tshape<T>(c);
  auto p = some_poles(c, ncomp(sh), emax, false, st == Boson);
  imfreq mw{beta, st, c.i(300, 500)};
  gf<imfreq, T> gw{mw, sh};
  fill(gw, [&](auto m) { return p.freq(cd(m.value())); });
  legendre ml{beta, st, c.i(1, 12)};
  c.trace("%s beta %g target %zu poles %zu, %ld frequencies, %ld coefficients", st == Fermion ? "fermion" : "boson", beta, ncomp(sh), p.e.size(), mw.size(), ml.size());
  gf<legendre, T> gl{ml, sh};
  randomize(c, gl.data());
  gl() = tg::imfreq_to_legendre(gw);
  double s = p.wsum() * beta * (st == Boson ? 1 / (1 - std::exp(-0.3 * beta)) : 1);
  for (auto m : ml) same(c, row(gl, m.data_index()), coefficient(m.index(), beta, [&](double t) { return p.tau(t, beta, st); }), 2e-6 * s, "Matsubara to Legendre");
  vmon::count("legendre_points", ml.size());
  c.nontrivial(vmon::hash_fmt("%d %g %ld %ld %zu", (int)st, beta, ml.size(), mw.size(), ncomp(sh)));
}
template <int> void leg_disc(kase &c) {
  auto st = any_stat(c);
  double beta = any_beta(c);
  long n1 = c.i(1, 3), n2 = c.i(1, 3);
  legendre ml{beta, st, c.i(1, 20)};
  gf<legendre> gl{ml, {n1, n2}};
  randomize(c, gl.data());
  c.trace("%s beta %g target %ldx%ld, %ld coefficients", st == Fermion ? "fermion" : "boson", beta, n1, n2, ml.size());
  if (c.chance(0.1)) { // refused
    nda::array<double, 2> d(n1, n2 + 1);
    d() = 1;
    auto before = gl;
    auto v = gl();
    c.throws([&] { tg::enforce_discontinuity(v, d); }, "a discontinuity of another shape");
    same(c, flat(gl.data()), flat(before.data()), 0, "after a refused call");
    return;
  }
  nda::array<double, 2> d(n1, n2);
  for (auto &x : d) x = c.r(-2, 2);
  auto before = gl;
  auto v = gl();
  if (st == Boson && ml.size() < 2) { c.throws([&] { tg::enforce_discontinuity(v, d); }, "no coefficient contributes"); return; }
  tg::enforce_discontinuity(v, d);
  double z = st == Fermion ? -1 : 1;
  // from the function: zeta G(beta) - G(0) is the moment of order one
  vec jump = scaled(z, flat(gl(beta)));
  axpy(jump, -1, flat(gl(0.0)));
  same(c, jump, flat(d), 1e-10 * (1 + 50 / beta), "the discontinuity after enforcing it");
  same(c, flat(tg::get_tail(gl, 2)(1, all, all)), flat(d), 1e-10 * (1 + 50 / beta), "the first moment after enforcing the discontinuity");
  // smallest change: along the vector of the constraint, nothing on the other coefficients
  vec lam;
  for (auto m : ml) {
    vec x = row(gl, m.data_index());
    axpy(x, -1, row(before, m.data_index()));
    bool contributes = (m.index() % 2 == 0) == (st == Fermion);
    if (!contributes) same(c, x, vec(n1 * n2), 0, "coefficients without discontinuity");
    else {
      vec y = scaled(1 / std::sqrt(2. * m.index() + 1), x);
      if (lam.empty()) lam = y;
      else same(c, y, lam, 1e-10 * (1 + norm(lam)), "the correction is along the constraint");
    }
  }
  auto once = gl;
  tg::enforce_discontinuity(v, d);
  same(c, flat(gl.data()), flat(once.data()), 1e-10 * (1 + norm(flat(once.data()))), "enforcing it twice");
  vmon::count("discontinuities", 1);
  c.nontrivial(vmon::hash_fmt("%d %g %ld %ld %ld", (int)st, beta, ml.size(), n1, n2));
}
// ---------- rebinning
template <int> void rebin(kase &c) {
  auto st = any_stat(c);
  double beta = any_beta(c);
  long n = c.i(2, 60), m = c.chance(0.1) ? n : c.i(2, n);
  long n1 = c.i(1, 3), n2 = c.i(1, 3);
  gf<imtime> g{{beta, st, n}, {n1, n2}};
  randomize(c, g.data());
  bool constant = c.chance(0.2);
  if (constant) for (long i = 0; i < n; ++i) g.data()(i, all, all) = g.data()(0, all, all);
  c.trace("%ld points to %ld%s, beta %g, %ldx%ld", n, m, constant ? ", constant" : "", beta, n1, n2);
  auto r = tg::rebinning_tau(g, m);
  c.check(r.mesh() == imtime(beta, st, m), "mesh");
  c.check(r.target_shape() == g.target_shape(), "shape");
  // every old point goes to the closest new one; the value is the mean
  std::vector<vec> sum(m, vec(n1 * n2));
  std::vector<long> cnt(m, 0);
  std::vector<char> tie(m, 0);
  for (long i = 0; i < n; ++i) {
    long num = 2 * i * (m - 1) + (n - 1), den = 2 * (n - 1); // floor(x + 1/2)
    long b = num / den;
    if (num % den == 0) { tie[b] = 1; if (b > 0) tie[b - 1] = 1; }
    axpy(sum[b], 1, row(g, i)), ++cnt[b];
  }
  for (long b = 0; b < m; ++b) {
    if (constant) { same(c, row(r, b), row(g, 0), 1e-13, "rebinning a constant"); continue; }
    if (tie[b]) continue;
    same(c, row(r, b), scaled(1. / cnt[b], sum[b]), 1e-13, "mean of the closest points");
    vmon::count("bins", 1);
  }
  if (m == n) same(c, flat(r.data()), flat(g.data()), 0, "the same mesh");
  c.nontrivial(vmon::hash_fmt("%ld %ld %g %ld %ld", n, m, beta, n1, n2));
}
// ---------- Pade
template <typename T> void pade_poles(kase &c) {
  auto st = any_stat(c);
  double beta = c.pick(std::vector<double>{5, 10, 20, 40});
  auto sh = tshape<T>(c);
  int np = c.i(1, 3);
  std::vector<double> e;
  for (int i = 0; i < np; ++i) e.push_back(-1.5 + 3. * (i + c.r(0.2, 0.8)) / np);
  poles p;
  for (double x : e) { vec w(ncomp(sh)); for (auto &y : w) y = c.r(0.3, 1) * std::exp(cd(0, c.chance(0.5) ? 0 : c.r(0, 2 * pi))); p.e.push_back(x); p.w.push_back(w); }
  int n = 2 * np + (c.chance(0.3) ? c.i(0, 4) : 0);
  imfreq mw{beta, st, n + c.i(0, 10), c.chance(0.3) ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies};
  if (st == Boson) for (auto &x : p.e) if (std::abs(x) < 0.2) x = 0.25;
  gf<imfreq, T> gw{mw, sh};
  fill(gw, [&](auto m) { return p.freq(cd(m.value())); });
  double eta = c.r(0.1, 0.5);
  refreq mr{c.r(-4, -1), c.r(1, 4), c.i(2, 30)};
  gf<refreq, T> gr{mr, sh};
  randomize(c, gr.data());
  c.trace("%s beta %g poles %d points %d of %ld target %zu offset %g", st == Fermion ? "fermion" : "boson", beta, np, n, mw.size(), ncomp(sh), eta);
  if (c.chance(0.1)) {
    gf<refreq, T> before = gr;
    int bad = c.pick(std::vector<int>{0, -1, (int)mw.last_index() + 2, 1000000});
    if constexpr (T::rank == 0) c.throws([&] { tg::pade(gr, gw, bad, eta); }, "wrong number of points");
    else c.throws([&] { tg::pade(gr, gw, bad, eta); }, "wrong number of points");
    same(c, flat(gr.data()), flat(before.data()), 0, "after a refused call");
    return;
  }
  tg::pade(gr, gw, n, eta);
  for (auto w : mr) same(c, row(gr, w.data_index()), p.freq(cd(w.value(), eta)), 2e-4 * p.wsum() / eta, "continuation of a rational function");
  vmon::count("pade_points", mr.size());
  c.check(gr.mesh() == mr, "the mesh changed");
  c.nontrivial(vmon::hash_fmt("%d %g %d %d %ld %zu", (int)st, beta, np, n, mw.size(), ncomp(sh)));
}
template <int> void pade_interpolates(kase &c) { // the approximant goes through its data
  int n = c.i(1, 12);
  nda::vector<cd> z(n), u(n);
  double beta = c.pick(std::vector<double>{5, 10, 40});
  bool herm = c.chance(0.5);
  poles p;
  int np = c.i((n + 1) / 2, 8);
  for (int i = 0; i < np; ++i) { p.e.push_back(c.r(-3, 3)); p.w.push_back({herm ? cd(c.r(0.1, 1)) : c.cplx()}); }
  long off = c.i(0, 3);
  for (int i = 0; i < n; ++i) {
    z(i) = cd(0, (2 * (i + off) + 1) * pi / beta);
    if (c.chance(0.05)) z(i) += c.r(-0.3, 0.3); // any points
    u(i) = p.freq(z(i))[0];
  }
  c.trace("%d points, %d poles, beta %g", n, np, beta);
  utility::pade_approximant PA(z, u);
  double umax = 0;
  for (int i = 0; i < n; ++i) umax = std::max(umax, std::abs(u(i)));
  for (int i = 0; i < n; ++i) same(c, {PA(z(i))}, {u(i)}, 1e-6 * umax, "the approximant at its points");
  auto PB = PA;
  cd e(c.r(-2, 2), c.r(0.1, 1));
  same(c, {PB(e)}, {PA(e)}, 0, "a copy");
  vmon::count("pade_points", n);
  c.nontrivial(vmon::hash_fmt("%d %d %g %ld %.17g", n, np, beta, off, p.e[0].real()));
}
// ---------- DLR
struct dpar { double beta, wmax, eps; statistic_enum st; };
static dpar any_dlr(kase &c) {
  dpar d{c.pick(std::vector<double>{1, 5, 10, 40}), c.pick(std::vector<double>{1, 2, 3}), c.pick(std::vector<double>{1e-8, 1e-10, 1e-12}), any_stat(c)};
  return d;
}
static dlr cached(dpar const &d) {
  static std::map<std::array<double, 4>, dlr> m;
  std::array<double, 4> k{d.beta, d.wmax, d.eps, double(d.st)};
  auto it = m.find(k);
  if (it == m.end()) it = m.emplace(k, dlr{d.beta, d.st, d.wmax, d.eps}).first;
  return it->second;
}
// what a coefficient function means, and a random one: the coefficients of a sum of poles
template <typename T> void dlr_rt(kase &c) {
  auto d = any_dlr(c);
  auto m = cached(d);
  auto sh = tshape<T>(c);
  auto p = some_poles(c, ncomp(sh), 0.9 * d.wmax, false, d.st == Boson);
  double s = p.wsum() * (d.st == Boson ? 1 + 2 / (1 - std::exp(-0.3 * d.beta)) : 1), tol = 1e3 * d.eps * s;
  c.trace("%s beta %g w_max %g eps %g rank %ld target %zu poles %zu", d.st == Fermion ? "fermion" : "boson", d.beta, d.wmax, d.eps, m.size(), ncomp(sh), p.e.size());
  dlr_imtime mt{m};
  dlr_imfreq mf{m};
  gf<dlr_imtime, T> gt{mt, sh};
  gf<dlr_imfreq, T> gw{mf, sh};
  fill(gt, [&](auto x) { return p.tau(x.value(), d.beta, d.st); });
  fill(gw, [&](auto x) { return p.freq(cd(x.value())); });
  auto A = tg::make_gf_dlr(gt), B = tg::make_gf_dlr(gw());
  c.check(A.mesh() == m && B.mesh() == m, "mesh of the coefficients");
  c.check(A.target_shape() == gt.target_shape() && B.target_shape() == gw.target_shape(), "shape of the coefficients");
  auto look = [&](auto const &g, const char *w1, const char *w2) {
    for (int k = 0; k < 6; ++k) {
      double t = k == 0 ? 0 : k == 1 ? d.beta : c.r(0, d.beta);
      same(c, flat(g(t)), p.tau(t, d.beta, d.st), tol, w1);
      matsubara_freq w{c.chance(0.5) ? c.i(-3, 3) : c.i(-200, 200), d.beta, d.st};
      same(c, flat(g(w)), p.freq(cd(w)), tol * d.beta, w2);
    }
    vmon::count("dlr_points", 12);
  };
  look(A, "from DLR times, at a time", "from DLR times, at a frequency");
  look(B, "from DLR frequencies, at a time", "from DLR frequencies, at a frequency");
  // back: the identity
  auto gt2 = tg::make_gf_dlr_imtime(A), gt3 = tg::make_gf_dlr_imtime(B());
  auto gw2 = tg::make_gf_dlr_imfreq(B), gw3 = tg::make_gf_dlr_imfreq(A());
  c.check(gt2.mesh() == mt && gt3.mesh() == mt && gw2.mesh() == mf && gw3.mesh() == mf, "mesh after the round trip");
  same(c, flat(gt2.data()), flat(gt.data()), 1e-10 * s, "times to coefficients and back");
  same(c, flat(gw2.data()), flat(gw.data()), 1e-10 * s * d.beta, "frequencies to coefficients and back");
  same(c, flat(gt3.data()), flat(gt.data()), tol, "frequencies to times");
  same(c, flat(gw3.data()), flat(gw.data()), tol * d.beta, "times to frequencies");
  // full meshes
  long nt = c.i(2, 40), nw = c.i(1, 15);
  auto it = tg::make_gf_imtime(A, nt);
  auto iw = tg::make_gf_imfreq(A(), nw);
  c.check(it.mesh() == imtime(d.beta, d.st, nt) && iw.mesh() == imfreq(d.beta, d.st, nw), "full meshes");
  for (auto t : it.mesh()) same(c, row(it, t.data_index()), p.tau(t.value(), d.beta, d.st), tol, "on the full mesh of times");
  for (auto w : iw.mesh()) same(c, row(iw, w.data_index()), p.freq(cd(w.value())), tol * d.beta, "on the full mesh of frequencies");
  // fit
  long nf = c.i(120, 300);
  gf<imtime, T> gtf{{d.beta, d.st, nf}, sh};
  double noise = c.chance(0.3) ? 1e-6 : 0;
  fill(gtf, [&](auto x) { vec v = p.tau(x.value(), d.beta, d.st); for (auto &y : v) y += noise * c.r(-1, 1); return v; });
  auto F = tg::fit_gf_dlr(gtf, d.wmax, d.eps);
  c.check(F.mesh() == m, "mesh of the fit");
  for (auto t : gtf.mesh()) same(c, flat(F(t.value())), p.tau(t.value(), d.beta, d.st), tol + 20 * noise, "the fit at its points");
  vmon::count("dlr_points", it.mesh().size() + iw.mesh().size() + nf);
  c.nontrivial(vmon::hash_fmt("%d %g %g %g %zu %ld %ld", (int)d.st, d.beta, d.wmax, d.eps, ncomp(sh), nt, nw));
}
// products, blocks
template <int> void dlr_parts(kase &c) {
  auto d = any_dlr(c);
  d.beta = c.pick(std::vector<double>{1, 5}); d.wmax = 1; d.eps = 1e-8;
  auto m = cached(d);
  dlr_imtime mt{m};
  dlr_imfreq mf{m};
  double tol = 1e3 * d.eps;
  c.trace("%s beta %g rank %ld", d.st == Fermion ? "fermion" : "boson", d.beta, m.size());
  auto cl = any_cl(c, 2);
  long n1 = c.i(1, 2), n2 = c.i(1, 3);
  std::vector<poles> ps;
  for (long i = 0; i < cl.size(); ++i) ps.push_back(some_poles(c, n1 * n2, 0.9, false, d.st == Boson));
  double s = 0;
  for (auto &p : ps) s = std::max(s, p.wsum() * (d.st == Boson ? 1 + 2 / (1 - std::exp(-0.3 * d.beta)) : 1));
  { // position 0
    gf<prod<dlr_imtime, cyclat>> g{{mt, cl}, {n1, n2}};
    for (auto [t, r] : g.mesh()) { vec v = ps[r.data_index()].tau(t.value(), d.beta, d.st); for (long q = 0; q < n1 * n2; ++q) g.data()(t.data_index(), r.data_index(), q / n2, q % n2) = v[q]; }
    auto a = tg::make_gf_dlr(g);
    static_assert(std::is_same_v<typename decltype(a)::mesh_t, prod<dlr, cyclat>>);
    auto w = tg::make_gf_imfreq(a, 4);
    auto w2 = tg::make_gf_dlr_imfreq(a());
    auto back = tg::make_gf_dlr_imtime(a);
    c.check(std::get<1>(w.mesh().components()) == cl && std::get<0>(w.mesh().components()) == imfreq(d.beta, d.st, 4), "meshes");
    for (auto [x, r] : w.mesh()) same(c, flat(w.data()(x.data_index(), r.data_index(), all, all)), ps[r.data_index()].freq(cd(x.value())), tol * s * d.beta, "first variable to frequencies");
    for (auto [x, r] : w2.mesh()) same(c, flat(w2.data()(x.data_index(), r.data_index(), all, all)), ps[r.data_index()].freq(cd(x.value())), tol * s * d.beta, "first variable to DLR frequencies");
    same(c, flat(back.data()), flat(g.data()), 1e-10 * s, "first variable, there and back");
  }
  { // position 1
    gf<prod<cyclat, dlr_imfreq>> g{{cl, mf}, {n1, n2}};
    for (auto [r, t] : g.mesh()) { vec v = ps[r.data_index()].freq(cd(t.value())); for (long q = 0; q < n1 * n2; ++q) g.data()(r.data_index(), t.data_index(), q / n2, q % n2) = v[q]; }
    auto a = tg::make_gf_dlr<1>(g());
    auto w = tg::make_gf_imtime<1>(a, 5);
    auto back = tg::make_gf_dlr_imfreq<1>(a);
    for (auto [r, x] : w.mesh()) same(c, flat(w.data()(r.data_index(), x.data_index(), all, all)), ps[r.data_index()].tau(x.value(), d.beta, d.st), tol * s, "second variable to times");
    same(c, flat(back.data()), flat(g.data()), 1e-10 * s * d.beta, "second variable, there and back");
    auto f = tg::fit_gf_dlr<1>(tg::make_gf_imtime<1>(a, 100), d.wmax, d.eps);
    auto w3 = tg::make_gf_imtime<1>(f, 5);
    same(c, flat(w3.data()), flat(w.data()), tol * s, "fit of the second variable");
  }
  { // both: products of two functions
    auto &p = ps[0], &q = ps.back();
    gf<prod<dlr_imtime, dlr_imtime>, scalar_valued> g{{mt, mt}};
    for (auto [x, y] : g.mesh()) g[x, y] = p.tau(x.value(), d.beta, d.st)[0] * q.tau(y.value(), d.beta, d.st)[0];
    auto a = tg::make_gf_dlr<0, 1>(g);
    static_assert(std::is_same_v<typename decltype(a)::mesh_t, prod<dlr, dlr>>);
    auto w = tg::make_gf_imfreq<0, 1>(a, 3);
    for (auto [x, y] : w.mesh()) same(c, {w[x, y]}, {p.freq(cd(x.value()))[0] * q.freq(cd(y.value()))[0]}, 10 * tol * s * s * d.beta * d.beta, "both variables");
    auto back = tg::make_gf_dlr_imtime<0, 1>(a);
    same(c, flat(back.data()), flat(g.data()), 1e-8 * s * s, "both variables, there and back");
  }
  { // blocks
    std::vector<gf<dlr_imtime>> bl;
    std::vector<std::string> names;
    for (long i = 0; i < std::min<long>(3, cl.size()); ++i) {
      gf<dlr_imtime> g{mt, {n1, n2}};
      fill(g, [&](auto x) { return ps[i].tau(x.value(), d.beta, d.st); });
      bl.push_back(g);
      names.push_back("b" + std::to_string(2 - i));
    }
    block_gf<dlr_imtime> b{names, bl};
    auto a = tg::make_gf_dlr(b);
    auto w = tg::make_gf_imfreq(a, 3);
    auto back = tg::make_gf_dlr_imtime(a);
    c.check(w.block_names() == names && back.block_names() == names, "block names");
    for (size_t i = 0; i < bl.size(); ++i) {
      for (auto x : w[i].mesh()) same(c, row(w[i], x.data_index()), ps[i].freq(cd(x.value())), tol * s * d.beta, "block");
      same(c, flat(back[i].data()), flat(bl[i].data()), 1e-10 * s, "block, there and back");
    }
    auto v = tg::make_gf_dlr(b());
    for (size_t i = 0; i < bl.size(); ++i) same(c, flat(v[i].data()), flat(a[i].data()), 0, "view of a block function");
  }
  vmon::count("dlr_points", 4);
  c.nontrivial(vmon::hash_fmt("%d %g %ld %ld %ld", (int)d.st, d.beta, cl.size(), n1, n2));
}
// a transform of one variable among others
template <int> void partial(kase &c) {
  auto st = any_stat(c);
  double beta = any_beta(c);
  long n_iw = c.i(1, 5), n1 = c.i(1, 3), n2 = c.i(1, 3);
  imfreq m{beta, st, n_iw};
  auto cl = any_cl(c, 3);
  c.trace("%ld frequencies, lattice of %ld, target %ldx%ld", m.size(), cl.size(), n1, n2);
  auto half = [&](auto const &g) { // any linear map of the variable: differences on a mesh with the same number of points
    refreq r{0, 1, g.mesh().size()};
    gf<refreq, tg::tensor_valued<1>> o{r, g.target_shape()};
    for (long i = 0; i < r.size(); ++i) o.data()(i, all) = g.data()(i, all) - (i ? 1.0 : 0.0) * g.data()(i ? i - 1 : 0, all);
    return o;
  };
  auto chk = [&](auto const &out, auto const &in, int N) {
    long L = m.size(), K = cl.size();
    for (long i = 0; i < L; ++i) for (long r = 0; r < K; ++r) {
      auto at = [&](auto const &a, long x, long y) { return flat(N == 0 ? nda::array<cd, 2>(a.data()(x, y, all, all)) : nda::array<cd, 2>(a.data()(y, x, all, all))); };
      vec ref = at(in, i, r);
      if (i) axpy(ref, -1, at(in, i - 1, r));
      same(c, at(out, i, r), ref, 1e-14, "partial transform");
    }
  };
  gf<prod<imfreq, cyclat>> a{{m, cl}, {n1, n2}};
  randomize(c, a.data());
  chk(tg::partial_transform<0>(gf_const_view<prod<imfreq, cyclat>, matrix_valued>{a}, half), a, 0);
  gf<prod<cyclat, imfreq>> b{{cl, m}, {n1, n2}};
  randomize(c, b.data());
  chk(tg::partial_transform<1>(gf_const_view<prod<cyclat, imfreq>, matrix_valued>{b}, half), b, 1);
  vmon::count("partial_transforms", 2);
  c.nontrivial(vmon::hash_fmt("%ld %ld %ld %ld", m.size(), cl.size(), n1, n2));
}
template <int> void parts() {
#define P(n) if constexpr (PART == 0 || PART == n)
  P(1) {
    vmon::group("legendre_poles_matrix", 80, 600, leg_direct<matrix_valued>);
    vmon::group("legendre_poles_scalar", 60, 400, leg_direct<scalar_valued>);
    vmon::group("legendre_poles_tensor", 30, 200, leg_direct<tensor_valued<3>>);
    vmon::group("discontinuity", 200, 3000, leg_disc<0>);
  }
  P(2) {
    vmon::group("legendre_series_matrix", 60, 500, leg_random<matrix_valued>);
    vmon::group("legendre_series_scalar", 60, 500, leg_random<scalar_valued>);
    vmon::group("legendre_inverse_matrix", 6, 40, leg_inverse<matrix_valued>);
    vmon::group("legendre_inverse_scalar", 8, 60, leg_inverse<scalar_valued>);
  }
  P(3) {
    vmon::group("pade_matrix", 100, 1500, pade_poles<matrix_valued>);
    vmon::group("pade_scalar", 150, 2000, pade_poles<scalar_valued>);
    vmon::group("pade_tensor", 60, 500, pade_poles<tensor_valued<3>>);
    vmon::group("pade_points", 300, 5000, pade_interpolates<0>);
    vmon::group("rebinning", 400, 5000, rebin<0>);
    vmon::group("partial_transform", 40, 400, partial<0>);
  }
  P(4) {
    vmon::group("dlr_matrix", 30, 300, dlr_rt<matrix_valued>);
    vmon::group("dlr_scalar", 30, 300, dlr_rt<scalar_valued>);
    vmon::group("dlr_tensor", 15, 100, dlr_rt<tensor_valued<1>>);
  }
  P(5) { vmon::group("dlr_parts", 10, 60, dlr_parts<0>); }
}
void run() { parts<0>(); }
