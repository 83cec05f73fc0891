// G04: Fourier transforms match the defining sums and are mutually inverse
#include "pole_rig.hpp"
using namespace grig;
using namespace triqs;
using tg::scalar_valued; using tg::matrix_valued; using tg::tensor_valued; using tg::scalar_real_valued; using tg::matrix_real_valued;
using tg::block_gf; using tg::block2_gf; using tg::make_gf_from_fourier; using tg::fourier; using tg::gf_const_view; using tg::prod;
using tmesh::imfreq; using tmesh::imtime; using tmesh::refreq; using tmesh::retime; using tmesh::brzone; using tmesh::cyclat;
#ifndef PART
#define PART 0
#endif
// a quarter of the functions live in a strided view of larger data
template <typename T, typename M> struct host {
  gf<M, T> g; nda::array<typename T::scalar_t, T::rank + 2> big; bool strided;
  host(kase &c, M const &m, std::array<long, T::rank> sh) : g{m, sh}, strided(c.chance(0.3)) {
    std::array<long, T::rank + 2> s;
    s[0] = g.data().extent(0);
    for (int i = 0; i < T::rank; ++i) s[i + 1] = sh[i];
    s[T::rank + 1] = 3;
    big = nda::array<typename T::scalar_t, T::rank + 2>(s);
    randomize(c, big);
  }
  gf_view<M, T> view() { if (!strided) return g(); return {g.mesh(), big(nda::ellipsis{}, 1)}; }
  gf_const_view<M, T> cview() { return view(); }
};
// sum over k != 0 of 1 / ((|k| - 1/2) W)^p
static double alias(int p, double W) {
  if (p < 2) return 1e300;
  double s = 0;
  for (int k = 1; k < 200; ++k) s += 2 / std::pow((k - 0.5) * W, p);
  return s + 2 / ((p - 1) * W * std::pow(199.5 * W, p - 1));
}
// ---------- imaginary time and Matsubara frequency, moments given
template <typename T> void mats(kase &c) {
  constexpr bool re = std::is_same_v<typename T::scalar_t, double>;
  using TC = typename T::complex_t;
  auto st = any_stat(c);
  double beta = any_beta(c), emax = c.pick(std::vector<double>{0.5, 2, 6});
  auto sh = tshape<T>(c);
  auto p = some_poles(c, ncomp(sh), emax, re, st == Boson);
  long n_iw = c.i(1, c.chance(0.2) ? 60 : 12), L = c.chance(0.4) ? 6 * n_iw : c.i(2 * n_iw, 8 * n_iw);
  imfreq wm{beta, st, n_iw};
  imtime tm{beta, st, L + 1};
  double M = p.we(0) + p.we(1) + p.we(2), round = 1e-11 * (1 + p.wsum() * (st == Boson ? 1 + 4 / beta : 1));
  c.trace("%s beta=%g n_iw=%ld n_tau=%ld target %zu poles %zu emax %g", st == Fermion ? "fermion" : "boson", beta, n_iw, L + 1, ncomp(sh), p.e.size(), emax);
  { // tau -> i omega
    host<T, imtime> in(c, tm, sh);
    fill(in.view(), [&](auto m) { return p.tau(m.value(), beta, st); });
    int rows = c.i(2, 6);
    auto mom = moments<T::rank + 1>(p, rows, sh);
    int q = std::min(rows, 4);
    double C = p.we(q - 1) + 4 * M, tol = 3 * C * alias(q, 2 * pi * L / beta) + round;
    vec before = flat(in.view().data());
    auto chk = [&](auto const &gw, const char *what) {
      c.check(gw.mesh() == wm, "mesh");
      same(c, flat(in.view().data()), before, 0, "the input");
      for (auto w : gw.mesh()) same(c, row(gw, w.data_index()), p.freq(w.value()), tol, what);
      vmon::count("transforms", 1);
    };
    switch (c.i(0, 3)) {
      case 0: chk(make_gf_from_fourier(in.cview(), wm, mom), "make_gf(tau -> iw)"); break;
      case 1: chk(make_gf_from_fourier(in.view(), wm, mom), "make_gf(view tau -> iw)"); break;
      case 2: if (!in.strided) { gf<imtime, T> g = in.g; chk(make_gf_from_fourier(g, wm, mom), "make_gf(gf tau -> iw)"); break; } [[fallthrough]];
      default: {
        host<TC, imfreq> out(c, wm, sh);
        auto v = out.view();
        vec rest;
        if (out.strided) rest = flat(out.big(nda::ellipsis{}, 0));
        v = fourier(in.cview(), mom);
        chk(v, "lazy(tau -> iw)");
        if (out.strided) same(c, flat(out.big(nda::ellipsis{}, 0)), rest, 0, "data beside the target of the assignment");
      }
    }
    // only positive frequencies as a target
    imfreq wp{beta, st, n_iw, imfreq::option::positive_frequencies_only};
    auto gp = make_gf_from_fourier(in.cview(), wp, mom);
    for (auto w : gp.mesh()) same(c, row(gp, w.data_index()), p.freq(w.value()), tol, "positive frequencies");
  }
  if constexpr (!re) { // i omega -> tau
    host<T, imfreq> in(c, wm, sh);
    fill(in.view(), [&](auto m) { return p.freq(cd(m.value())); });
    auto mom = moments<T::rank + 1>(p, c.i(4, 7), sh);
    double wN = (2 * n_iw + (st == Fermion ? 1 : 0)) * pi / beta, C = p.we(3) + 4 * M;
    double tol = 3 * C * 2 / beta * (std::pow(wN, -4) + beta / (6 * pi) * std::pow(wN, -3)) + round;
    auto chk = [&](auto const &gt, const char *what) {
      c.check(gt.mesh() == tm, "mesh");
      for (auto t : gt.mesh()) same(c, row(gt, t.data_index()), p.tau(t.value(), beta, st), tol, what);
      // the discontinuity is the first moment
      vec d = row(gt, L), z = row(gt, 0), m1 = p.moment(1), ref;
      axpy(ref, st == Fermion ? -1. : 1., z); axpy(ref, st == Fermion ? -1. : 1., m1);
      same(c, d, ref, 1e-12 * (1 + p.wsum() * 4 / beta), "discontinuity at tau = 0");
      vmon::count("transforms", 1);
    };
    switch (c.i(0, 2)) {
      case 0: chk(make_gf_from_fourier(in.cview(), tm, mom), "make_gf(iw -> tau)"); break;
      case 1: chk(make_gf_from_fourier(in.view(), tm, mom), "make_gf(view iw -> tau)"); break;
      default: { host<T, imtime> out(c, tm, sh); auto v = out.view(); v = fourier(in.cview(), mom); chk(v, "lazy(iw -> tau)"); }
    }
  }
  c.nontrivial(vmon::hash_fmt("m%d %g %ld %ld %zu", (int)st, beta, n_iw, L, p.e.size()));
}
// ---------- fitted moments
template <typename T> void fitted(kase &c) {
  constexpr bool re = std::is_same_v<typename T::scalar_t, double>;
  auto st = any_stat(c);
  double beta = c.pick(std::vector<double>{1, 4, 10}), emax = 1.2;
  auto sh = tshape<T>(c);
  auto p = some_poles(c, ncomp(sh), emax, re, st == Boson);
  long n_iw = beta > 5 ? c.i(80, 160) : c.i(40, 120);
  double M = p.we(0) + p.we(1) + p.we(2);
  imfreq wm{beta, st, n_iw};
  c.trace("%s beta=%g n_iw=%ld target %zu poles %zu", st == Fermion ? "fermion" : "boson", beta, n_iw, ncomp(sh), p.e.size());
  if constexpr (!re) {
    gf<imfreq, T> gw{wm, sh};
    fill(gw, [&](auto m) { return p.freq(cd(m.value())); });
    double wN = n_iw * 2 * pi / beta, C = p.we(3) + 4 * M, tol = 3 * C * 2 / beta * (std::pow(wN, -4) + beta / (6 * pi) * std::pow(wN, -3)) + 2e-7 * M;
    int how = c.i(0, 4);
    auto gt = how == 0 ? make_gf_from_fourier(gw) : how == 1 ? make_gf_from_fourier(gw, imtime{beta, st, 7 * n_iw}) : how == 2 ? make_gf_from_fourier(gw, int(4 * n_iw + 1))
       : make_gf_from_fourier(gw, imtime{beta, st, 6 * n_iw + 1}, moments<T::rank + 1>(p, c.i(1, 3), sh));
    c.check(gt.mesh().size() == (how == 1 ? 7 * n_iw : how == 2 ? 4 * n_iw + 1 : 6 * n_iw + 1), "number of times %ld", gt.mesh().size());
    c.check(gt.mesh().statistic() == st && gt.mesh().beta() == beta, "mesh");
    for (auto t : gt.mesh()) same(c, row(gt, t.data_index()), p.tau(t.value(), beta, st), tol, "iw -> tau, fitted moments");
    // and back
    auto gw2 = make_gf_from_fourier(gt, wm);
    for (auto w : gw2.mesh()) same(c, row(gw2, w.data_index()), row(gw, w.data_index()), 1e-5 * M + 30 * tol, "iw -> tau -> iw");
    vmon::count("transforms", 2);
  }
  { // tau -> iw with moments deduced from the derivatives
    long L = (beta > 5 ? 10 : 6) * n_iw;
    imtime tm{beta, st, L + 1};
    gf<imtime, T> gt{tm, sh};
    fill(gt, [&](auto m) { return p.tau(m.value(), beta, st); });
    // the documented check on noisy data compares the first two slopes
    auto slope = [&](long k) { double r = 0; vec a = row(gt, k), b = row(gt, 0), d = row(gt, L - k), e = row(gt, L); for (size_t i = 0; i < a.size(); ++i) r = std::max(r, std::abs(a[i] - b[i]) + std::abs(d[i] - e[i])); return r / k; };
    if (std::abs(slope(1) / slope(2) - 1) < 0.04) {
      double del = beta / L, tol = 3 * (p.we(3) + 4 * M) * alias(4, 2 * pi / del) + 1e-9 * (1 + M);
      bool dflt = L == 6 * n_iw && c.chance(0.5);
      auto gw = dflt ? make_gf_from_fourier(gt) : c.chance(0.3) ? make_gf_from_fourier(gt, int(n_iw)) : make_gf_from_fourier(gt, wm);
      c.check(gw.mesh() == wm, "default mesh");
      for (auto w : gw.mesh()) same(c, row(gw, w.data_index()), p.freq(w.value()), tol, "tau -> iw, fitted moments");
      vmon::count("transforms", 1);
      vmon::count("slopes_smooth", 1);
    }
  }
  if (double fine = beta * emax / c.r(0.03, 0.1); fine < 3000) { // a fine grid: all three estimated moments matter
    long n  = std::min(n_iw, 3l), L = std::max(long(fine), 10 * n);
    gf<imtime, T> gt{imtime{beta, st, L + 1}, sh};
    fill(gt, [&](auto m) { return p.tau(m.value(), beta, st); });
    double del = beta / L, tol = 0.03 * (p.we(3) + 4 * M) * alias(4, 2 * pi / del) + 1e-9 * (1 + M); // the grid is fine: the next order is close to exact
    double crude = M * alias(3, 2 * pi / del);
    auto slope = [&](long k) { double r = 0; vec a = row(gt, k), b = row(gt, 0), d = row(gt, L - k), e = row(gt, L); for (size_t i = 0; i < a.size(); ++i) r = std::max(r, std::abs(a[i] - b[i]) + std::abs(d[i] - e[i])); return r / k; };
    if (L >= 8 and std::abs(slope(1) / slope(2) - 1) < 0.04) {
      auto gw = make_gf_from_fourier(gt, imfreq{beta, st, n});
      for (auto w : gw.mesh()) same(c, row(gw, w.data_index()), p.freq(w.value()), tol, "tau -> iw, moments fitted on a fine grid");
      vmon::count("fine_grids", 1);
      if (crude > 5 * tol) vmon::count("fine_grids_sharp", 1);
    }
  }
  c.nontrivial(vmon::hash_fmt("f%d %g %ld %zu", (int)st, beta, n_iw, p.e.size()));
}
// ---------- small and awkward time meshes
template <int> void tiny(kase &c) {
  auto st = any_stat(c);
  double beta = any_beta(c);
  long nt = c.i(2, 12), n_iw = c.i(0, 2);
  int kind = c.i(0, 3);
  imtime tm{beta, st, nt};
  gf<imtime, matrix_valued> gt{tm, {1, 1}};
  if (kind == 1) gt.data() = 0.7;
  if (kind == 2) for (auto t : tm) gt[t] = 0.3 + 0.25 * t.value();
  if (kind == 3) randomize(c, gt.data());
  c.trace("%s beta=%g n_tau=%ld n_iw=%ld data kind %d", st == Fermion ? "fermion" : "boson", beta, nt, n_iw, kind);
  imfreq wm{beta, st, n_iw};
  if (wm.size() == 0 || wm.last_index() < 0) return;
  bool ok = nt - 1 >= 2 * (wm.last_index() + 1);
  try {
    auto gw = make_gf_from_fourier(gt, wm);
    c.check(ok, "a time mesh of %ld points was accepted for %ld frequencies", nt, n_iw);
    c.check(gw.mesh() == wm, "mesh");
    vec a = flat(gw.data());
    for (auto x : a) c.check(std::isfinite(x.real()) && std::isfinite(x.imag()), "not finite");
    if (kind == 0) same(c, a, vec(a.size()), 1e-12, "transform of zero");
    if (kind == 1) for (auto w : gw.mesh()) { // constant in imaginary time: a jump of 2 x 0.7 only for fermions
      cd ref = st == Fermion ? -2 * 0.7 / w.value() : w.index() == 0 ? cd(0.7 * beta) : cd(0);
      if (nt >= 9) same(c, row(gw, w.data_index()), {ref}, 1e-6, "transform of a constant");
    }
    vmon::count("tiny_transforms", 1);
  } catch (std::exception &e) {
    c.check(!ok, "refused: %.100s", e.what());
    vmon::count("tiny_refused", 1);
  }
  c.nontrivial(vmon::hash_fmt("y%d %g %ld %ld %d", (int)st, beta, nt, n_iw, kind));
}
// ---------- real time and real frequency
template <typename T> void realw(kase &c) {
  auto sh = tshape<T>(c);
  long L = c.i(2, c.chance(0.3) ? 400 : 60);
  double W = c.r(1, 20), dw = W / L, dt = 2 * pi / W;
  bool exact = c.chance(0.4);
  double w0 = exact ? c.r(-2 * W, W) : -W / 2 + dw * c.r(0, 1), t0 = exact ? -dt * c.r(0, 2 * L) : -dt * (L / 2) - (c.chance(0.5) ? 0 : dt * c.r(0.1, 0.9));
  refreq wm{w0, w0 + dw * (L - 1), L};
  retime tm{t0, t0 + dt * (L - 1), L};
  // the value of the step at t = 0 is defined as the mean: only if the point is exactly at zero
  for (auto t : tm) if (t.value() != 0 && std::abs(t.value()) < 0.05 * dt) { t0 -= 0.3 * dt; tm = retime{t0, t0 + dt * (L - 1), L}; break; }
  c.trace("L=%ld W=%g w0=%g t0=%g exact=%d target %zu", L, W, w0, t0, exact, ncomp(sh));
  if (exact) { // without moments: the discrete sums, and their inverse
    host<T, retime> in(c, tm, sh);
    randomize(c, in.view().data());
    auto gw = make_gf_from_fourier(in.cview(), wm);
    c.check(gw.mesh() == wm, "mesh");
    for (auto w : gw.mesh()) {
      if (L > 80 && !c.chance(60. / L)) continue;
      vec ref(ncomp(sh));
      for (auto t : tm) axpy(ref, dt * std::exp(cd(0, 1) * (w.value() * t.value())), row(in.view(), t.data_index()));
      same(c, row(gw, w.data_index()), ref, 1e-11 * dt * L * (1 + std::abs(w0 * t0)), "t -> omega, discrete sum");
    }
    host<T, retime> back(c, tm, sh);
    auto v = back.view();
    v = fourier(gw);
    for (auto t : tm) same(c, row(v, t.data_index()), row(in.view(), t.data_index()), 1e-11 * (1 + std::abs(w0 * t0)), "t -> omega -> t");
    for (auto t : tm) {
      if (L > 80 && !c.chance(60. / L)) continue;
      vec ref(ncomp(sh));
      for (auto w : wm) axpy(ref, dw / (2 * pi) * std::exp(-cd(0, 1) * (w.value() * t.value())), row(gw, w.data_index()));
      same(c, row(v, t.data_index()), ref, 1e-11 * L * (1 + std::abs(w0 * t0)), "omega -> t, discrete sum");
    }
    vmon::count("transforms", 2);
  } else { // a damped sum of poles
    double eta = c.r(6, 12) * dw;
    auto p = some_poles(c, ncomp(sh), W / 8, false, false, eta);
    int rows = c.i(3, 5);
    auto mom = moments<T::rank + 1>(p, rows, sh);
    double a = dw * std::sqrt(double(L)), m1 = norm(p.moment(1)), m2 = norm(p.moment(2)), C = p.we(2) + (m1 + m2 / a) * a * a, T_ = dt * L;
    // the window of times only holds the function up to exp(- eta t_max)
    double tmax = tm.t_max(), lost = p.wsum() * std::exp(-eta * tmax) * (dt + 1 / eta) + (m1 + m2 / a) * std::exp(-a * std::min(tmax, -t0)) * (dt + 1 / a);
    double tol = 4 * (C * alias(3, W) + lost) + 1e-10 * (1 + p.wsum()) * T_;
    host<T, retime> gt(c, tm, sh);
    fill(gt.view(), [&](auto t) { return p.time(t.value()); });
    auto gw = make_gf_from_fourier(gt.cview(), wm, mom);
    for (auto w : gw.mesh()) same(c, row(gw, w.data_index()), p.freq(w.value()), tol, "t -> omega, moments given");
    // inverse with the same moments: the identity
    auto gb = make_gf_from_fourier(gw, tm, mom);
    for (auto t : tm) same(c, row(gb, t.data_index()), row(gt.view(), t.data_index()), 1e-10 * (1 + p.wsum()), "t -> omega -> t, moments given");
    host<T, refreq> fw(c, wm, sh);
    fill(fw.view(), [&](auto w) { return p.freq(w.value()); });
    auto ft = make_gf_from_fourier(fw.cview(), tm, mom);
    double cut = std::min(-w0, w0 + dw * (L - 1)), tol2 = 4 * (C / (2 * pi) / std::pow(cut, 2) + lost + p.wsum() * std::exp(-eta * (T_ - std::max(tmax, -t0)))) + 1e-10 * (1 + p.wsum());
    for (auto t : tm)
      same(c, row(ft, t.data_index()), p.time(t.value()), tol2 + (std::abs(t.value()) < 1.5 * dt ? C / (cut * cut) : 0), "omega -> t, moments given");
    vmon::count("transforms", 3);
    if (tol < 0.2 * p.wsum() / eta) vmon::count("sharp_tolerance", 1);
  }
  c.nontrivial(vmon::hash_fmt("r%ld %g %d", L, W, exact));
}
// ---------- lattice and momentum
template <typename T> void lattk(kase &c) {
  auto k = any_bz(c, 5);
  auto r = make_adjoint_mesh(k);
  auto sh = tshape<T>(c);
  std::string ds;
  for (auto x : k.dims()) ds += std::to_string(x) + " ";
  c.trace("dims %s target %zu", ds.c_str(), ncomp(sh));
  c.check(make_adjoint_mesh(r) == k, "adjoint of the adjoint mesh");
  host<T, cyclat> in(c, r, sh);
  randomize(c, in.view().data());
  auto phase = [&](auto const &km, auto const &rm) { auto x = rm.index(); nda::vector<double> R = nda::zeros<double>(3); for (int i = 0; i < r.lattice().ndim(); ++i) R += double(x[i]) * r.lattice().units()(i, all); auto q = km.value(); double s = 0; for (int i = 0; i < 3; ++i) s += q(i) * R(i); return s; };
  gf<brzone, T> gk = c.chance(0.5) ? make_gf_from_fourier(in.cview()) : make_gf_from_fourier(in.cview(), k);
  for (auto km : gk.mesh()) {
    vec ref(ncomp(sh));
    for (auto rm : r) axpy(ref, std::exp(cd(0, phase(km, rm))), row(in.view(), rm.data_index()));
    same(c, row(gk, km.data_index()), ref, 1e-11 * r.size(), "r -> k");
  }
  host<T, cyclat> back(c, r, sh);
  auto v = back.view();
  v = fourier(gk);
  same(c, flat(v.data()), flat(in.view().data()), 1e-12 * r.size(), "r -> k -> r");
  host<T, brzone> kin(c, k, sh);
  randomize(c, kin.view().data());
  auto gr = make_gf_from_fourier(kin.cview());
  for (auto rm : gr.mesh()) {
    vec ref(ncomp(sh));
    for (auto km : k) axpy(ref, std::exp(cd(0, -phase(km, rm))) / double(k.size()), row(kin.view(), km.data_index()));
    same(c, row(gr, rm.data_index()), ref, 1e-11 * r.size(), "k -> r");
  }
  vmon::count("transforms", 3);
  // a mesh with another number of points is refused
  if (c.chance(0.5)) {
    idx3 d = r.dims();
    int i = c.i(0, r.lattice().ndim() - 1);
    d[i] += c.chance(0.5) && d[i] > 1 ? -1 : c.i(1, 3);
    bool refused = false;
    try { if (c.chance(0.5)) (void)make_gf_from_fourier(in.cview(), brzone{k.bz(), d}); else { gf<brzone, T> g{brzone{k.bz(), d}, sh}; g() = fourier(in.cview()); } } catch (triqs::runtime_error const &) { refused = true; }
    c.check(refused, "a mesh with other dimensions was accepted");
    vmon::count("refusals", 1);
  }
  c.nontrivial(vmon::hash_fmt("l%s %zu", ds.c_str(), ncomp(sh)));
}
// ---------- several variables: the transform acts on each slice
template <typename M> struct other; // the image of a mesh, with random moments or none
template <int N, typename T, typename... Ms> void multi(kase &c, Ms const &...ms) {
  using prod_t = prod<Ms...>;
  auto sh = tshape<T>(c);
  gf<prod_t, T> g{prod_t{ms...}, sh};
  randomize(c, g.data());
  auto const &m = std::get<N>(g.mesh());
  using M = std::decay_t<decltype(m)>;
  constexpr int NV = sizeof...(Ms);
  std::array<long, NV> n{long(ms.size())...};
  auto wantmesh = [&] { if constexpr (std::is_same_v<M, imfreq>) return make_adjoint_mesh(m, 2 * (m.last_index() + 1) + 1 + c.i(0, 9)); else return make_adjoint_mesh(m); }();
  size_t nc = ncomp(sh);
  constexpr bool mats_ = std::is_same_v<M, imfreq> || std::is_same_v<M, imtime>, real_ = std::is_same_v<M, refreq> || std::is_same_v<M, retime>;
  // moments (order, other variables in their order, target)
  constexpr int MR = NV + T::rank;
  std::array<long, MR> msh;
  msh[0] = c.i(mats_ ? 4 : 3, 5);
  { int q = 1; for (int i = 0; i < NV; ++i) if (i != N) msh[q++] = n[i]; for (auto x : sh) msh[q++] = x; }
  nda::array<cd, MR> mom(msh);
  randomize(c, mom);
  mom(0, nda::ellipsis{}) = 0;
  // without moments they are estimated from all the slices together: only sensible for smooth functions
  bool given = mats_ || (real_ && c.chance(0.6));
  auto one = [&]<typename G>(G const &gs, nda::array<cd, T::rank + 1> const &mo) {
    if constexpr (mats_ || real_) { if (given) return make_gf_from_fourier(gs, wantmesh, mo); }
    return make_gf_from_fourier(gs, wantmesh);
  };
  auto chk = [&](auto const &res, const char *what) {
    c.check(std::get<N>(res.mesh()) == wantmesh, "%s: mesh", what);
    std::array<long, NV> nn = n;
    nn[N] = wantmesh.size();
    for (int i = 0; i < NV; ++i) c.check(res.data().extent(i) == nn[i], "%s: extent %d", what, i);
    // all the slices
    long rest = 1;
    for (int i = 0; i < NV; ++i) if (i != N) rest *= n[i];
    vec din = flat(g.data()), dout = flat(res.data()), dm = flat(mom);
    for (long s = 0; s < rest; ++s) {
      std::array<long, NV> ix{};
      long t = s;
      for (int i = NV - 1; i >= 0; --i) if (i != N) { ix[i] = t % n[i]; t /= n[i]; }
      auto off = [&](std::array<long, NV> const &ext, long k) { long o = 0; for (int i = 0; i < NV; ++i) o = o * ext[i] + (i == N ? k : ix[i]); return o * long(nc); };
      gf<M, T> gs{m, sh};
      for (long k = 0; k < n[N]; ++k) { long o = off(n, k); put(gs.data(), k, vec(din.begin() + o, din.begin() + o + nc)); }
      std::array<long, T::rank + 1> m1;
      m1[0] = msh[0];
      for (int i = 0; i < T::rank; ++i) m1[i + 1] = sh[i];
      nda::array<cd, T::rank + 1> mo(m1);
      for (long k = 0; k < msh[0]; ++k) { long o = (k * rest + s) * nc; put(mo, k, vec(dm.begin() + o, dm.begin() + o + nc)); }
      auto ref = one(gs, mo);
      for (long k = 0; k < nn[N]; ++k) { long o = off(nn, k); same(c, vec(dout.begin() + o, dout.begin() + o + nc), row(ref, k), 1e-11 * (1 + n[N]), what); }
    }
    vmon::count("slices", rest);
  };
  c.trace("%d variables, transform %d, given %d, target %zu, sizes %ld %ld %ld", NV, N, given, nc, n[0], n[1], NV > 2 ? n[NV - 1] : 0);
  auto lazy = [&](auto const &ref) { auto r2 = ref; randomize(c, r2.data()); if constexpr (mats_ || real_) { if (given) { r2() = fourier<N>(g, mom); return r2; } } r2() = fourier<N>(g); return r2; };
  if constexpr (mats_ || real_) {
    if (given) { auto r = make_gf_from_fourier<N>(g, wantmesh, mom); chk(r, "several variables, moments given"); chk(lazy(r), "several variables, lazy"); goto done; }
  }
  { auto r = make_gf_from_fourier<N>(g, wantmesh); chk(r, "several variables"); chk(lazy(r), "several variables, lazy"); }
done:
  c.nontrivial(vmon::hash_fmt("v%d %d %d %ld %ld %zu %s", NV, N, given, n[0], n[1], nc, typeid(M).name()));
}
// two variables transformed at once
template <int> void pairs(kase &c) {
  auto k = any_bz(c, 3);
  auto w = any_refreq(c, 6);
  auto t = any_imtime(c, 3);
  gf<prod<brzone, imtime, refreq>, matrix_valued> g{{k, t, w}, {2, 2}};
  randomize(c, g.data());
  auto r = make_adjoint_mesh(k);
  auto tt = make_adjoint_mesh(w);
  c.trace("sizes %ld %ld %ld", k.size(), t.size(), w.size());
  auto a = make_gf_from_fourier<2>(make_gf_from_fourier<0>(g, r), tt);
  auto b = make_gf_from_fourier<0, 2>(g, r, tt);
  c.check(b.mesh() == a.mesh(), "mesh");
  same(c, flat(b.data()), flat(a.data()), 1e-12 * (1 + k.size() * w.size()), "two variables");
  auto b2 = make_gf_from_fourier<0, 2>(g);
  c.check(b2.mesh() == a.mesh(), "default mesh");
  same(c, flat(b2.data()), flat(a.data()), 1e-12 * (1 + k.size() * w.size()), "two variables, default meshes");
  auto b3 = make_gf_from_fourier<2, 0>(g(), tt, r);
  same(c, flat(b3.data()), flat(a.data()), 1e-12 * (1 + k.size() * w.size()), "two variables, other order");
  auto b4 = tg::make_gf_from_multi_fourier<0, 2>(gf_const_view{g});
  same(c, flat(b4.data()), flat(a.data()), 1e-12 * (1 + k.size() * w.size()), "make_gf_from_multi_fourier");
  auto back = make_gf_from_fourier<0, 2>(b, k, w);
  same(c, flat(back.data()), flat(g.data()), 1e-10 * (1 + k.size()), "two variables, back");
  // slices
  gf<prod<cyclat, imtime, refreq>, matrix_valued> h{{r, t, w}, {2, 2}};
  for (auto ti : t) for (auto wi : w) h[all, ti, wi] = fourier(g[all, ti, wi]);
  same(c, flat(h.data()), flat(make_gf_from_fourier<0>(g, r).data()), 1e-12 * (1 + k.size()), "slice by slice");
  vmon::count("pairs", 1);
  c.nontrivial(vmon::hash_fmt("p%ld %ld %ld", k.size(), t.size(), w.size()));
}
// ---------- linearity, moments given
template <typename T> void linear(kase &c) {
  auto st = any_stat(c);
  double beta = any_beta(c);
  long n_iw = c.i(1, 12), L = c.i(2 * n_iw, 7 * n_iw);
  imfreq wm{beta, st, n_iw};
  imtime tm{beta, st, L + 1};
  auto sh = tshape<T>(c);
  c.trace("%d beta %g n_iw %ld L %ld", (int)st, beta, n_iw, L);
  std::array<long, T::rank + 1> msh;
  msh[0] = 4;
  for (int i = 0; i < T::rank; ++i) msh[i + 1] = sh[i];
  cd x{c.r(-2, 2), c.r(-2, 2)}, y{c.r(-2, 2), c.r(-2, 2)};
  nda::array<cd, T::rank + 1> ma(msh), mb(msh);
  randomize(c, ma); randomize(c, mb);
  ma(0, nda::ellipsis{}) = 0; mb(0, nda::ellipsis{}) = 0;
  auto mc = nda::make_regular(x * ma + y * mb);
  auto go = [&](auto const &in, auto const &out, const char *what) {
    using M = std::decay_t<decltype(in)>;
    gf<M, T> a{in, sh}, b{in, sh};
    randomize(c, a.data()); randomize(c, b.data());
    gf<M, T> s{x * a + y * b};
    auto fa = make_gf_from_fourier(a, out, ma), fb = make_gf_from_fourier(b, out, mb), fs = make_gf_from_fourier(s, out, mc);
    vec ref = scaled(x, flat(fa.data()));
    axpy(ref, y, flat(fb.data()));
    same(c, flat(fs.data()), ref, 1e-11 * (1 + norm(ref)), what);
    vmon::count("linear", 1);
  };
  go(wm, tm, "linearity iw -> tau");
  go(tm, wm, "linearity tau -> iw");
  auto w = any_refreq(c, 30);
  go(w, make_adjoint_mesh(w), "linearity omega -> t");
  go(make_adjoint_mesh(w), make_adjoint_mesh(make_adjoint_mesh(w)), "linearity t -> omega");
  c.nontrivial(vmon::hash_fmt("i%d %g %ld %ld", (int)st, beta, n_iw, L));
}
// ---------- block functions
template <int> void blocks(kase &c) {
  auto st = any_stat(c);
  double beta = any_beta(c);
  long n_iw = c.i(1, 8);
  imfreq wm{beta, st, n_iw};
  imtime tm{beta, st, 6 * n_iw + 1};
  int nb = c.i(1, 4), n2 = c.i(1, 3);
  std::vector<std::string> names, names2;
  for (int i = 0; i < nb; ++i) names.push_back("b" + std::to_string(i));
  for (int i = 0; i < n2; ++i) names2.push_back("c" + std::to_string(i));
  c.trace("%d blocks beta %g n_iw %ld", nb, beta, n_iw);
  std::vector<poles> ps;
  auto mk = [&](auto const &m, auto f) {
    long n = c.i(1, 3);
    auto p = some_poles(c, n * n, 2, false, st == Boson);
    gf<std::decay_t<decltype(m)>, matrix_valued> g{m, {n, n}};
    fill(g, [&](auto const &x) { return f(p, x); });
    ps.push_back(p);
    return g;
  };
  auto ft = [&](poles const &p, auto const &x) { return p.tau(x.value(), beta, st); };
  auto ff = [&](poles const &p, auto const &x) { return p.freq(cd(x.value())); };
  auto eq = [&](auto const &got, auto const &ref, const char *what) { c.check(got.mesh() == ref.mesh(), "%s: mesh", what); same(c, flat(got.data()), flat(ref.data()), 1e-12 * (1 + norm(flat(ref.data()))), what); };
  std::vector<gf<imtime, matrix_valued>> vt;
  std::vector<gf<imfreq, matrix_valued>> vw;
  std::vector<nda::array<cd, 3>> mt, mw;
  for (int i = 0; i < nb; ++i) { vt.push_back(mk(tm, ft)); mt.push_back(moments<3>(ps.back(), 4, vt.back().target_shape())); }
  for (int i = 0; i < nb; ++i) { vw.push_back(mk(wm, ff)); mw.push_back(moments<3>(ps.back(), 4, vw.back().target_shape())); }
  block_gf<imtime, matrix_valued> bt{names, vt};
  block_gf<imfreq, matrix_valued> bw{names, vw};
  auto rw = make_gf_from_fourier(bt, wm, mt);
  auto rt = make_gf_from_fourier(bw, tm, mw);
  c.check(rw.block_names() == names && rt.block_names() == names, "block names");
  for (int i = 0; i < nb; ++i) {
    eq(rw[i], make_gf_from_fourier(vt[i], wm, mt[i]), "block tau -> iw with moments");
    eq(rt[i], make_gf_from_fourier(vw[i], tm, mw[i]), "block iw -> tau with moments");
  }
  // without moments
  auto rd = make_gf_from_fourier(bt, wm);
  for (int i = 0; i < nb; ++i) eq(rd[i], make_gf_from_fourier(vt[i], wm), "block tau -> iw");
  auto re = make_gf_from_fourier(bt());
  for (int i = 0; i < nb; ++i) eq(re[i], make_gf_from_fourier(vt[i]), "block view tau -> iw");
  block_gf<imfreq, matrix_valued> lz{wm, {}};
  { std::vector<gf<imfreq, matrix_valued>> v; for (int i = 0; i < nb; ++i) v.emplace_back(wm, vt[i].target_shape()); lz = block_gf<imfreq, matrix_valued>{names, v}; }
  lz() = fourier(bt);
  for (int i = 0; i < nb; ++i) eq(lz[i], rd[i], "lazy block tau -> iw");
  // two-index blocks
  std::vector<std::vector<gf<imtime, matrix_valued>>> vv;
  std::vector<std::vector<nda::array<cd, 3>>> mm;
  for (int i = 0; i < nb; ++i) { vv.emplace_back(); mm.emplace_back(); for (int j = 0; j < n2; ++j) { vv[i].push_back(mk(tm, ft)); mm[i].push_back(moments<3>(ps.back(), 4, vv[i][j].target_shape())); } }
  block2_gf<imtime, matrix_valued> b2{{names, names2}, vv};
  auto r2 = make_gf_from_fourier(b2, wm, mm);
  auto r3 = make_gf_from_fourier(b2, wm);
  c.check(r2.block_names() == b2.block_names() && r3.block_names() == b2.block_names(), "names of the two-index blocks");
  for (int i = 0; i < nb; ++i) for (int j = 0; j < n2; ++j) {
    eq(r2(i, j), make_gf_from_fourier(vv[i][j], wm, mm[i][j]), "block2 tau -> iw with moments");
    eq(r3(i, j), make_gf_from_fourier(vv[i][j], wm), "block2 tau -> iw");
  }
  auto l2 = r3;
  for (int i = 0; i < nb; ++i) for (int j = 0; j < n2; ++j) l2(i, j).data() = 0;
  l2() = fourier(b2);
  for (int i = 0; i < nb; ++i) for (int j = 0; j < n2; ++j) eq(l2(i, j), r3(i, j), "lazy block2 tau -> iw");
  auto few = mt;
  few.pop_back();
  c.throws([&] { (void)make_gf_from_fourier(bt, wm, few); }, "moments for too few blocks");
  auto fw2 = mm;
  fw2[0].pop_back();
  c.throws([&] { (void)make_gf_from_fourier(b2, wm, fw2); }, "moments for too few two-index blocks");
  vmon::count("blocks", nb * (n2 + 1));
  c.nontrivial(vmon::hash_fmt("b%d %d %ld %d", nb, n2, n_iw, (int)st));
}
// ---------- what is refused
template <int> void refused(kase &c) {
  auto st = any_stat(c);
  double beta = any_beta(c);
  long n_iw = c.i(1, 8);
  imfreq wm{beta, st, n_iw}, wp{beta, st, n_iw, imfreq::option::positive_frequencies_only};
  imtime tm{beta, st, 6 * n_iw + 1}, shrt{beta, st, c.i(2, 2 * n_iw)};
  gf<imfreq, matrix_valued> gw{wm, {2, 2}}, gp{wp, {2, 2}};
  gf<imtime, matrix_valued> gt{tm, {2, 2}}, gs{shrt, {2, 2}};
  randomize(c, gw.data()); randomize(c, gt.data()); randomize(c, gp.data()); randomize(c, gs.data());
  nda::array<cd, 3> m0(4, 2, 2), z(4, 2, 2), z3(3, 2, 2), e3(0, 2, 2);
  z = 0; z3 = 0; m0 = 0;
  m0(0, c.i(0, 1), c.i(0, 1)) = c.pick(std::vector<double>{1e-6, 1, -0.3});
  c.trace("%d beta %g n_iw %ld short %ld", (int)st, beta, n_iw, shrt.size());
  c.throws([&] { (void)make_gf_from_fourier(gp, tm, z); }, "positive frequencies only");
  c.throws([&] { (void)make_gf_from_fourier(gw, tm, m0); }, "a constant term (iw -> tau)");
  c.throws([&] { (void)make_gf_from_fourier(gt, wm, m0); }, "a constant term (tau -> iw)");
  c.throws([&] { (void)make_gf_from_fourier(gw, shrt, z); }, "too few times (iw -> tau)");
  c.throws([&] { (void)make_gf_from_fourier(gs, wm, z); }, "too few times (tau -> iw)");
  auto w = any_refreq(c);
  auto t = make_adjoint_mesh(w);
  gf<refreq, matrix_valued> fw{w, {2, 2}};
  gf<retime, matrix_valued> ft{t, {2, 2}};
  c.throws([&] { (void)make_gf_from_fourier(fw, retime{t.t_min(), t.t_max() * 1.001, t.size()}); }, "step of the time mesh");
  c.throws([&] { (void)make_gf_from_fourier(ft, refreq{w.w_min() - 0.01, w.w_max(), w.size()}); }, "step of the frequency mesh");
  c.throws([&] { (void)make_gf_from_fourier(fw, retime{t.t_min(), t.t_max() + t.delta(), t.size() + 1}); }, "size of the time mesh");
  c.throws([&] { (void)make_gf_from_fourier(ft, refreq{w.w_min(), w.w_max() + w.delta(), w.size() + 1}); }, "size of the frequency mesh");
  c.throws([&] { (void)make_gf_from_fourier(ft, w, m0); }, "a constant term (t -> omega)");
  c.throws([&] { (void)make_gf_from_fourier(fw, t, m0); }, "a constant term (omega -> t)");
  c.throws([&] { (void)make_gf_from_fourier(ft, w, nda::array<cd, 3>(z(nda::range(0, 2), all, all))); }, "two rows of moments (t -> omega)");
  // an empty array of moments is the same as none
  same(c, flat(make_gf_from_fourier(ft, w, e3).data()), flat(make_gf_from_fourier(ft, w).data()), 0, "empty moments");
  same(c, flat(make_gf_from_fourier(gt, wm, e3).data()), flat(make_gf_from_fourier(gt, wm).data()), 0, "empty moments");
  // the target of an assignment with other variables or another target shape
  gf<prod<imtime, imtime>, matrix_valued> g2{{tm, imtime{beta, st, 4}}, {2, 2}};
  nda::array<cd, 4> z4(4, 4, 2, 2);
  z4 = 0;
  gf<prod<imfreq, imtime>, matrix_valued> ok{{wm, imtime{beta, st, 4}}, {2, 2}}, b1{{wm, imtime{beta, st, 5}}, {2, 2}}, b2{{wm, imtime{beta, st, 4}}, {2, 3}}, b3{{wm, imtime{beta, st, 3}}, {2, 2}};
  ok() = fourier<0>(g2, z4);
  c.throws([&] { b1() = fourier<0>(g2, z4); }, "assignment to a function with more points of another variable");
  c.throws([&] { b3() = fourier<0>(g2, z4); }, "assignment to a function with fewer points of another variable");
  c.throws([&] { b2() = fourier<0>(g2, z4); }, "assignment to a function with another target");
  gf<imfreq, matrix_valued> b4{wm, {2, 3}}, b5{wm, {1, 1}};
  c.throws([&] { b4() = fourier(gt, z); }, "assignment to a function with a larger target");
  c.throws([&] { b5() = fourier(gt, z); }, "assignment to a function with a smaller target");
  // moments of another shape
  nda::array<cd, 3> z33(4, 3, 3), z11(4, 1, 1);
  z33 = 0; z11 = 0;
  c.throws([&] { (void)make_gf_from_fourier(gt, wm, z33); }, "moments of a larger target (tau -> iw)");
  c.throws([&] { (void)make_gf_from_fourier(gt, wm, z11); }, "moments of a smaller target (tau -> iw)");
  c.throws([&] { (void)make_gf_from_fourier(gw, tm, z11); }, "moments of a smaller target (iw -> tau)");
  c.throws([&] { (void)make_gf_from_fourier(ft, w, z11); }, "moments of a smaller target (t -> omega)");
  c.throws([&] { (void)make_gf_from_fourier(fw, t, z33); }, "moments of a larger target (omega -> t)");
  vmon::count("refusals", 22);
  c.nontrivial(vmon::hash_fmt("x%d %g %ld %ld", (int)st, beta, n_iw, w.size()));
}
// ---------- adjoint meshes
template <int> void adjoint(kase &c) {
  auto st = any_stat(c);
  double beta = any_beta(c);
  long n = c.i(1, 1000);
  imfreq wm{beta, st, n};
  auto tm = make_adjoint_mesh(wm);
  c.check(tm.size() == 6 * n + 1 && tm.beta() == beta && tm.statistic() == st, "times of %ld frequencies: %ld", n, tm.size());
  c.check(make_adjoint_mesh(tm) == wm, "frequencies -> times -> frequencies");
  long k = c.i(2, 500);
  c.check(make_adjoint_mesh(wm, k).size() == k && make_adjoint_mesh(tm, k).last_index() == k - 1, "explicit number of points");
  auto w = any_refreq(c, 500);
  for (bool sh : {false, true}) {
    auto t = make_adjoint_mesh(w, sh);
    long L = w.size();
    c.check(t.size() == L, "number of times");
    c.close(t.delta() * w.delta() * L, 2 * pi, 1e-12 * 2 * pi, "steps of the adjoint mesh");
    c.close(t.t_min(), -pi * (L - 1) / (L * w.delta()) + (sh ? pi / (L * w.delta()) : 0), 1e-12 * L / w.delta(), "first time");
    auto w2 = make_adjoint_mesh(t, sh);
    c.check(w2.size() == L, "number of frequencies");
    c.close(w2.delta(), w.delta(), 1e-12 * w.delta(), "step of the adjoint of the adjoint");
    c.close(w2.w_min(), -w.delta() * (L - 1) / 2 + (sh ? w.delta() / 2 : 0), 1e-12 * L * w.delta(), "first frequency");
  }
  vmon::count("adjoint", 1);
  c.nontrivial(vmon::hash_fmt("a%ld %g %ld", n, beta, w.size()));
}
#define P(n) if constexpr (PART == 0 || PART == n)
template <int> void parts() {
  P(1) {
    vmon::group("matsubara", 800, 12000, [](kase &c) { c.chance(0.5) ? mats<scalar_valued>(c) : mats<matrix_valued>(c); });
    vmon::group("matsubara_other", 250, 1500, [](kase &c) { switch (c.i(0, 2)) { case 0: mats<tensor_valued<3>>(c); break; case 1: mats<scalar_real_valued>(c); break; default: mats<matrix_real_valued>(c); } });
    vmon::group("tiny", 400, 3000, tiny<0>);
    vmon::group("adjoint", 100, 3000, adjoint<0>);
  }
  P(2) {
    vmon::group("fitted", 200, 2000, [](kase &c) { switch (c.i(0, 2)) { case 0: fitted<scalar_valued>(c); break; case 1: fitted<matrix_valued>(c); break; default: fitted<matrix_real_valued>(c); } });
    vmon::group("linear", 250, 2000, [](kase &c) { switch (c.i(0, 2)) { case 0: linear<scalar_valued>(c); break; case 1: linear<matrix_valued>(c); break; default: linear<tensor_valued<3>>(c); } });
  }
  P(3) {
    vmon::group("real", 250, 4000, [](kase &c) { switch (c.i(0, 2)) { case 0: realw<scalar_valued>(c); break; case 1: realw<matrix_valued>(c); break; default: realw<tensor_valued<3>>(c); } });
    vmon::group("lattice", 120, 1500, [](kase &c) { switch (c.i(0, 2)) { case 0: lattk<scalar_valued>(c); break; case 1: lattk<matrix_valued>(c); break; default: lattk<tensor_valued<3>>(c); } });
  }
  P(4) {
    vmon::group("multi2", 150, 3000, [](kase &c) {
      switch (c.i(0, 5)) {
        case 0: multi<0, matrix_valued>(c, any_bz(c, 3), any_imtime(c, 5)); break;
        case 1: multi<1, matrix_valued>(c, any_cl(c, 3), any_cl(c, 3)); break;
        case 2: multi<1, scalar_valued>(c, any_bz(c, 3), imfreq{any_beta(c), any_stat(c), c.i(1, 5)}); break;
        case 3: multi<0, matrix_valued>(c, imfreq{any_beta(c), any_stat(c), c.i(1, 5)}, any_bz(c, 3)); break;
        case 4: multi<1, matrix_valued>(c, any_refreq(c, 4), any_refreq(c, 12)); break;
        default: multi<0, tensor_valued<3>>(c, any_retime(c, 12), any_cl(c, 2)); break;
      }
    });
  }
  P(5) {
    vmon::group("multi3", 150, 3000, [](kase &c) {
      switch (c.i(0, 4)) {
        case 0: multi<2, matrix_valued>(c, any_bz(c, 3), any_imtime(c, 5), imfreq{any_beta(c), any_stat(c), c.i(1, 5)}); break;
        case 1: multi<2, scalar_valued>(c, any_refreq(c, 4), any_cl(c, 2), any_retime(c, 9)); break;
        case 2: multi<1, matrix_valued>(c, any_bz(c, 3), imfreq{any_beta(c), any_stat(c), c.i(1, 5)}, any_imtime(c, 4)); break;
        case 3: multi<2, matrix_valued>(c, any_imtime(c, 4), any_imtime(c, 5), any_cl(c, 3)); break;
        default: multi<2, scalar_valued>(c, any_bz(c, 2), any_bz(c, 2), imtime{any_beta(c), any_stat(c), c.i(13, 30)}); break;
      }
    });
  }
  P(6) {
    vmon::group("pairs", 80, 600, pairs<0>);
    vmon::group("blocks", 120, 2000, blocks<0>);
    vmon::group("refused", 80, 1000, refused<0>);
  }
}
void run() { parts<0>(); }
