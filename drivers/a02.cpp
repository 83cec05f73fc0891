// A02: thermal averages and atomic Green functions against traces over the dense space
#include "a_rig.hpp"
using ad::atom_diag;
namespace tgf = triqs::gfs;
namespace tmesh = triqs::mesh;

template <bool C> struct problem {
  model<C> m;
  atom_diag<C> a;
  std::vector<fock::F> sel;
  EM V;                  // eigenstates of the atom in the Fock basis (columns in flat order)
  std::vector<double> E;
  std::vector<std::pair<int, int>> where; // (subspace, inner) of a flat index
  EM W;                  // independent eigenstates in the Fock basis
  std::vector<double> e; // independent energies, ground state at zero
  tgf::gf_struct_t gfs;
  std::vector<std::pair<std::string, int>> blocks;
};
template <bool C> void build(kase &c, problem<C> &p, int nmax, bool small_scale = false) {
  // modes labelled (block, index)
  static const std::vector<std::string> names{"up", "dn", "a", "B", "0", ""};
  auto nm = names;
  c.shuffle(nm);
  int n = int(c.i(1, nmax)), k = 0;
  std::vector<fock::idx_t> labs;
  while (k < n) {
    int s = int(c.i(1, std::min(n - k, 3)));
    auto b = nm[p.blocks.size() % nm.size()];
    p.blocks.push_back({b, s});
    for (int i = 0; i < s; ++i) labs.push_back({b, long(i)});
    k += s;
    if (p.blocks.size() == nm.size()) break;
  }
  c.shuffle(labs);
  p.m.set_labels(c, labs);
  int mode = int(c.i(0, 3)); // auto, hyb, window, qn
  bool cons = mode >= 2;
  if (c.chance(0.15) && p.m.n >= 3) p.m.projected_h(c, cons); else p.m.random_h(c, cons);
  if (small_scale) {
    for (auto &t : p.m.H) t.coef *= 1.0;
  }
  auto all = [&](int lo, int hi) { for (fock::F f = 0; f < (fock::F(1) << p.m.n); ++f) { int q = __builtin_popcountll(f); if (q >= lo && q <= hi) p.sel.push_back(f); } };
  int lo = 0, hi = 64;
  if (mode == 2) { lo = int(c.i(0, p.m.n)); hi = int(c.i(lo, p.m.n)); }
  c.trace("%s; partition mode %d (%d..%d)", p.m.str().c_str(), mode, lo, hi);
  all(lo, hi);
  using op_t = typename model<C>::op_t;
  if (mode == 0) p.a = atom_diag<C>(p.m.h, p.m.fops);
  else if (mode == 1) {
    fock::expr e;
    if (p.m.n > 1) { e.push_back({1, {{true, 0}, {false, 1}}}); e.push_back({1, {{true, 1}, {false, 0}}}); }
    p.a = atom_diag<C>(p.m.h, p.m.op(e), p.m.fops);
  } else if (mode == 2) p.a = atom_diag<C>(p.m.h, p.m.fops, lo, hi);
  else {
    fock::expr e;
    for (int q = 0; q < p.m.n; ++q) e.push_back({1, {{true, q}, {false, q}}});
    p.a = atom_diag<C>(p.m.h, p.m.fops, std::vector<op_t>{p.m.op(e)});
  }
  int D = 1 << p.m.n, T = int(p.sel.size());
  EM H = p.m.dense(), Hs(T, T);
  for (int i = 0; i < T; ++i) for (int j = 0; j < T; ++j) Hs(i, j) = H(p.sel[i], p.sel[j]);
  Eigen::SelfAdjointEigenSolver<EM> es(Hs);
  p.W = EM::Zero(D, T);
  for (int i = 0; i < T; ++i) {
    p.e.push_back(es.eigenvalues()(i) - es.eigenvalues()(0));
    for (int j = 0; j < T; ++j) p.W(p.sel[j], i) = es.eigenvectors()(j, i);
  }
  p.V = EM::Zero(D, T);
  int flat = 0;
  for (int s = 0; s < p.a.n_subspaces(); ++s) {
    auto const &fs = p.a.get_fock_states(s);
    EM U = eview(p.a.get_unitary_matrix(s));
    for (int i = 0; i < int(fs.size()); ++i, ++flat) {
      c.check(flat < T, "more eigenstates than Fock states");
      p.E.push_back(p.a.get_eigenvalue(s, i));
      p.where.push_back({s, i});
      for (int j = 0; j < int(fs.size()); ++j) p.V(fs[j], flat) = U(j, i);
    }
  }
  c.check(flat == T, "%d eigenstates, %d Fock states", flat, T);
  // block structure of the Green functions: any subset of the blocks in any order
  for (auto &b : p.blocks) if (c.chance(0.8)) p.gfs.push_back({b.first, b.second});
  if (p.gfs.empty()) p.gfs.push_back({p.blocks[0].first, p.blocks[0].second});
  c.shuffle(p.gfs);
}
template <typename K> double rand_beta(K &c, double lo, double hi) { return std::exp(c.r(std::log(lo), std::log(hi))); }

template <bool C> fock::expr rexpr(kase &c, model<C> const &m, int kind) { // 0 conserving, 1 anything, 2 Hermitian, 3 diagonal
  fock::expr e;
  for (long t = c.i(1, 4); t > 0; --t) {
    long pd = c.i(0, 2), q = kind == 1 ? c.i(0, 2) : pd;
    fock::mono x;
    if (kind == 3) { int k = int(c.i(0, m.n - 1)); x = {{true, k}, {false, k}}; }
    else {
      for (long i = 0; i < pd; ++i) x.push_back({true, int(c.i(0, m.n - 1))});
      for (long i = 0; i < q; ++i) x.push_back({false, int(c.i(0, m.n - 1))});
    }
    cd z = c.r(-2, 2);
    if (C && kind != 3) z += cd(0, c.r(-2, 2));
    e.push_back({z, x});
  }
  if (kind == 2) { auto d = model<C>::dag(e); e.insert(e.end(), d.begin(), d.end()); }
  return e;
}

template <bool C> void t_thermal(kase &c) {
  problem<C> p;
  build(c, p, 5);
  auto &a     = p.a;
  double beta = rand_beta(c, 1e-3, 1e4);
  int T       = int(p.sel.size()), D = 1 << p.m.n;
  double emax = p.e.empty() ? 0 : p.e.back(), scale = 1 + mx(p.m.dense());
  double err  = std::min(1., beta * scale * 1e-13 * D); // relative error of a Boltzmann weight from the rounding of the energies
  if (err > 1e-6) { beta = 1e-6 / (scale * 1e-13 * D); err = 1e-6; }
  double Z = 0;
  for (double x : p.e) Z += std::exp(-beta * x);
  c.close(ad::partition_function(a, beta), Z, 1e-12 * T + err * T * 2, "partition function");
  auto dm = ad::atomic_density_matrix(a, beta);
  c.check(dm.size() == size_t(a.n_subspaces()), "blocks of the density matrix");
  EM R = EM::Zero(T, T);
  for (int s = 0; s < a.n_subspaces(); ++s) {
    c.check(dm[s].extent(0) == a.get_subspace_dim(s) && dm[s].extent(1) == a.get_subspace_dim(s), "shape of a block of the density matrix");
    R.block(a.flatten_subspace_index(s, 0), a.flatten_subspace_index(s, 0), a.get_subspace_dim(s), a.get_subspace_dim(s)) = eview(dm[s]);
  }
  EM rho = p.V * R * p.V.adjoint(), ref = EM::Zero(D, D);
  for (int i = 0; i < T; ++i) ref += (std::exp(-beta * p.e[i]) / Z) * p.W.col(i) * p.W.col(i).adjoint();
  double tol = 1e-10 + 4 * err * T;
  // mixing inside nearly degenerate levels changes the density matrix only by the change of the weights
  c.check(mx(rho - ref) < tol, "density matrix differs by %g at beta=%g", mx(rho - ref), beta);
  c.close(R.trace(), cd(1), 1e-12 * T, "trace of the density matrix");
  EM P = EM::Zero(D, D);
  for (auto f : p.sel) P(f, f) = 1;
  // expectation values with this density matrix and with a random block-diagonal one
  for (int rep = 0; rep < 5; ++rep) {
    int kind = int(c.i(0, 3));
    auto e   = rep == 0 ? p.m.H : rexpr(c, p.m, kind);
    auto O   = p.m.op(e);
    EM Od    = emat(e, p.m.n);
    c.close(cd(ad::trace_rho_op(dm, O, a)), (rho * Od).trace(), 1e-10 * (1 + mx(Od)) * D, "trace of rho times operator");
    c.close(cd(ad::trace_rho_op(dm, O, a)), (ref * P * Od).trace(), (1e-10 + 4 * err * T) * (1 + mx(Od)) * D, "thermal average");
    auto rm = dm;
    EM Rr   = EM::Zero(T, T);
    double some = c.pick(std::vector<double>{0., 0.3, 0.7, 1., 1.}); // all blocks hermitian, none or some of them
    for (int s = 0; s < a.n_subspaces(); ++s) {
      bool herm = c.chance(some);
      int d = a.get_subspace_dim(s);
      for (int i = 0; i < d; ++i)
        for (int j = 0; j < d; ++j) {
          cd z = c.r(-1, 1);
          if (C) z += cd(0, c.r(-1, 1));
          rm[s](i, j) = model<C>::sc(z);
        }
      if (herm) for (int i = 0; i < d; ++i) { rm[s](i, i) = std::real(rm[s](i, i)); for (int j = 0; j < i; ++j) rm[s](i, j) = model<C>::sc(std::conj(cd(rm[s](j, i)))); }
      Rr.block(a.flatten_subspace_index(s, 0), a.flatten_subspace_index(s, 0), d, d) = eview(rm[s]);
    }
    c.close(cd(ad::trace_rho_op(rm, O, a)), (p.V * Rr * p.V.adjoint() * Od).trace(), 1e-10 * (1 + mx(Od)) * D * D, "trace of a matrix times operator");
    vmon::count("traces", 3);
    // action on a state
    typename atom_diag<C>::full_hilbert_space_state_t st(D);
    EV sv = EV::Zero(T);
    for (int i = 0; i < D; ++i) {
      cd z = i < T && c.chance(0.8) ? c.r(-1, 1) : 0;
      if (C && i < T) z += cd(0, c.r(-1, 1));
      st(i) = model<C>::sc(z);
      if (i < T) sv(i) = z;
    }
    auto out = ad::act(O, st, a);
    EV oref  = p.V.adjoint() * (Od * (p.V * sv));
    c.check(out.size() == D, "size of op|state>");
    for (int i = 0; i < D; ++i) c.check(std::abs(cd(out(i)) - (i < T ? oref(i) : cd(0))) < 1e-10 * (1 + mx(Od)) * D, "component %d of op|state>: %g", i, std::abs(cd(out(i)) - (i < T ? oref(i) : cd(0))));
    vmon::count("actions", 1);
  }
  if (a.n_subspaces() > 0) {
    auto bad = dm;
    bad.pop_back();
    fock::expr ne{{1, {{true, 0}, {false, 0}}}};
    auto N0 = p.m.op(ne);
    c.throws([&] { (void)ad::trace_rho_op(bad, N0, a); }, "trace with a density matrix of the wrong number of blocks");
  }
  vmon::count("atoms", 1);
  c.nontrivial(std::hash<std::string>{}(p.m.str()) + std::hash<double>{}(beta));
}

template <bool C> void t_qn(kase &c) {
  problem<C> p;
  build(c, p, 5);
  auto &a = p.a;
  int T = int(p.sel.size());
  EM H  = p.m.dense();
  for (int rep = 0; rep < 6; ++rep) {
    fock::expr e;
    int k = int(c.i(0, 5));
    if (k == 0) for (int q = 0; q < p.m.n; ++q) e.push_back({1, {{true, q}, {false, q}}});
    else if (k == 1) e.push_back({1, {}});
    else if (k == 2) e = rexpr(c, p.m, 3);
    else if (k == 3) e = p.m.H;
    else if (k == 4) e = rexpr(c, p.m, 2);
    else { // a bond operator: current i(c+c - h.c.) or kinetic
      if (p.m.n < 2) continue;
      int x = int(c.i(0, p.m.n - 1)), y = int(c.i(0, p.m.n - 2));
      if (y >= x) ++y;
      cd z = C && c.chance(0.7) ? cd(0, 1) : cd(1);
      e.push_back({z, {{true, x}, {false, y}}});
      e.push_back({std::conj(z), {{true, y}, {false, x}}});
    }
    EM O        = emat(e, p.m.n);
    double comm = mx(O * H - H * O);
    auto op     = p.m.op(e);
    if (comm > 1e-4) {
      c.throws([&] { (void)ad::quantum_number_eigenvalues(op, a); }, "quantum_number_eigenvalues of an operator that does not commute with H");
      c.throws([&] { (void)ad::quantum_number_eigenvalues_checked(op, a); }, "quantum_number_eigenvalues_checked of an operator that does not commute with H");
      vmon::count("operators not commuting", 1);
      continue;
    }
    if (comm > 1e-13 * (1 + mx(O)) * (1 + mx(H))) continue;
    EM M = p.V.adjoint() * O * p.V;
    double off = 0;
    for (int i = 0; i < T; ++i) for (int j = 0; j < T; ++j) if (i != j) off += std::abs(M(i, j));
    auto cmp = [&](auto const &r, const char *w) {
      c.check(r.size() == size_t(a.n_subspaces()), "%s: number of lists", w);
      for (int i = 0; i < T; ++i) {
        auto [s, k] = p.where[i];
        c.check(r[s].size() == size_t(a.get_subspace_dim(s)), "%s: size of list %d", w, s);
        c.check(std::abs(r[s][k] - M(i, i).real()) < 1e-10 * (1 + mx(O)), "%s of state %d in subspace %d is %g, expected %g", w, k, s, r[s][k], M(i, i).real());
        vmon::count("quantum numbers", 1);
      }
    };
    try {
      cmp(ad::quantum_number_eigenvalues(op, a), "quantum_number_eigenvalues");
    } catch (triqs::runtime_error const &) { c.check(mx(O) * mx(H) > 1e3, "quantum_number_eigenvalues refused an operator that commutes with H"); continue; }
    if (off > 1e-9) {
      c.throws([&] { (void)ad::quantum_number_eigenvalues_checked(op, a); }, "quantum_number_eigenvalues_checked of an operator that is not diagonal in the eigenbasis");
      vmon::count("operators not diagonal", 1);
    } else if (off < 1e-12) {
      cmp(ad::quantum_number_eigenvalues_checked(op, a), "quantum_number_eigenvalues_checked");
    }
  }
  vmon::count("atoms", 1);
  c.nontrivial(std::hash<std::string>{}(p.m.str()));
}

struct pole_t { double w; cd r; };
// G_ab as a list of poles from eigenstates in the columns of X
inline std::vector<pole_t> lehmann(EM const &X, std::vector<double> const &e, std::vector<double> const &wt, std::vector<char> const &excl, EM const &ca, EM const &cbd) {
  EM A = X.adjoint() * ca * X, B = X.adjoint() * cbd * X;
  std::vector<pole_t> r;
  int T = int(e.size());
  for (int i = 0; i < T; ++i)
    for (int j = 0; j < T; ++j) {
      if (excl[i] || excl[j]) continue;
      cd z = (wt[i] + wt[j]) * A(i, j) * B(j, i);
      if (std::abs(z) > 1e-18) r.push_back({e[j] - e[i], z});
    }
  return r;
}
inline double g_tau1(double p, double tau, double beta) { return p > 0 ? -std::exp(-tau * p) / (1 + std::exp(-beta * p)) : -std::exp((beta - tau) * p) / (1 + std::exp(beta * p)); }

// Legendre coefficients of -exp(-tau p)/(1+exp(-beta p)) by quadrature on intervals graded towards both ends
struct gauss {
  std::vector<long double> x, w;
  explicit gauss(int n) : x(n), w(n) {
    for (int i = 0; i < n; ++i) {
      long double z = cosl(M_PIl * (i + 0.75L) / (n + 0.5L)), pp = 0;
      for (int it = 0; it < 100; ++it) {
        long double p1 = 1, p2 = 0;
        for (int j = 0; j < n; ++j) { long double p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); }
        pp = n * (z * p1 - p2) / (z * z - 1);
        long double dz = p1 / pp;
        z -= dz;
        if (fabsl(dz) < 1e-19L) break;
      }
      x[i] = z;
      w[i] = 2 / ((1 - z * z) * pp * pp);
    }
  }
};
inline std::vector<double> g_l1(double p, double beta, int nl) {
  static const gauss G(40);
  std::vector<long double> cut{0};
  for (int k = 20; k >= 1; --k) cut.push_back(std::ldexp(1.0L, -k));
  for (int k = 2; k <= 20; ++k) cut.push_back(1 - std::ldexp(1.0L, -k));
  cut.push_back(1);
  std::vector<long double> r(nl);
  for (size_t i = 0; i + 1 < cut.size(); ++i)
    for (size_t q = 0; q < G.x.size(); ++q) {
      long double h = (cut[i + 1] - cut[i]) / 2, u = cut[i] + h * (1 + G.x[q]), t = u * beta, wt = h * G.w[q] * beta;
      long double g = p > 0 ? -expl(-t * p) / (1 + expl(-(long double)beta * p)) : -expl((beta - t) * p) / (1 + expl((long double)beta * p));
      long double z = 2 * u - 1, p0 = 1, p1 = z;
      for (int l = 0; l < nl; ++l) {
        r[l] += wt * g * p0 * sqrtl(2 * l + 1);
        long double p2 = ((2 * l + 3) * z * p1 - (l + 1) * p0) / (l + 2);
        p0 = p1; p1 = p2;
      }
    }
  return {r.begin(), r.end()};
}

template <bool C> void t_gf(kase &c) {
  problem<C> p;
  build(c, p, 4);
  auto &a = p.a;
  int T = int(p.sel.size()), D = 1 << p.m.n;
  double scale = 1 + mx(p.m.dense());
  double beta  = rand_beta(c, 1e-2, 1e5);
  beta         = std::min(beta, 1e-8 / (1e-14 * scale)); // energies have rounding errors
  double err   = std::min(1., beta * scale * 1e-14);
  // excluded states
  std::vector<char> excl(T, 0), none(T, 0);
  ad::excluded_states_t ex;
  bool with_ex = c.chance(0.4);
  if (with_ex)
    for (int i = 0; i < T; ++i)
      if (c.chance(0.2)) { excl[i] = 1; ex.push_back(p.where[i]); if (c.chance(0.1)) ex.push_back(p.where[i]); }
  c.shuffle(ex);
  c.trace("beta=%.17g, %zu excluded", beta, ex.size());
  double Z = 0;
  for (double x : p.E) Z += std::exp(-beta * x);
  std::vector<double> wt, wt2;
  for (double x : p.E) wt.push_back(std::exp(-beta * x) / Z);
  for (double x : p.e) wt2.push_back(std::exp(-beta * x) / Z);
  auto lm = ad::atomic_g_lehmann(a, beta, p.gfs, ex);
  c.check(lm.size() == p.gfs.size(), "blocks of the Lehmann representation");
  int n_tau = int(c.i(2, 9)), n_iw = int(c.i(1, 5)), n_w = int(c.i(2, 6));
  double w0 = c.r(-3, 0) * scale, w1 = c.r(0.1, 3) * scale, eta = c.chance(0.2) ? 1e-3 : c.r(0.05, 0.5);
  bool positive = c.chance(0.3);
  tmesh::imtime mt(beta, triqs::mesh::Fermion, n_tau);
  tmesh::imfreq mw(beta, triqs::mesh::Fermion, n_iw, positive ? tmesh::imfreq::option::positive_frequencies_only : tmesh::imfreq::option::all_frequencies);
  tmesh::refreq mr(w0, w1, n_w);
  auto gt1 = ad::atomic_g_tau(a, beta, p.gfs, n_tau, ex), gt2 = ad::atomic_g_tau<C>(lm, p.gfs, mt);
  auto gw1 = ad::atomic_g_iw(a, beta, p.gfs, n_iw, ex), gw2 = ad::atomic_g_iw<C>(lm, p.gfs, mw);
  auto gr1 = ad::atomic_g_w(a, beta, p.gfs, {w0, w1}, n_w, eta, ex), gr2 = ad::atomic_g_w<C>(lm, p.gfs, mr, eta);
  double extol = 1e-12 * T * T;
  for (size_t b = 0; b < p.gfs.size(); ++b) {
    auto [name, size] = p.gfs[b];
    c.check(gt1[b].target_shape()[0] == size && gt2.block_names()[b] == name && gw1.block_names()[b] == name && gr2.block_names()[b] == name, "block %zu", b);
    for (int i = 0; i < size; ++i)
      for (int j = 0; j < size; ++j) {
        int ma = int(p.m.fops[{name, long(i)}]), mb = int(p.m.fops[{name, long(j)}]);
        EM ca = emat({{1, {{false, ma}}}}, p.m.n), cb = emat({{1, {{true, mb}}}}, p.m.n);
        auto pl = lehmann(p.V, p.E, wt, excl, ca, cb);
        std::vector<pole_t> ind;
        if (!with_ex) ind = lehmann(p.W, p.e, wt2, none, ca, cb);
        // the list itself
        cd sr = 0, sp = 0, rr = 0, rp = 0;
        for (auto [w, r] : lm[b](i, j)) { sr += r; sp += r * w; c.check(std::isfinite(w), "pole"); }
        for (auto [w, r] : pl) { rr += r; rp += r * w; }
        c.close(sr, rr, extol, "sum of the residues");
        c.close(sp, rp, extol * scale, "first moment of the residues");
        if (!with_ex && i == j && p.sel.size() == size_t(D)) c.close(sr, cd(1), extol, "normalisation of the spectral function");
        auto cmp = [&](cd x, auto const &f, double tol, const char *what, double at) {
          cd y = 0;
          for (auto [w, r] : pl) y += r * f(w);
          c.check(std::abs(x - y) < tol, "%s of block %zu (%d,%d) at %g is (%g,%g), Lehmann sum (%g,%g)", what, b, i, j, at, x.real(), x.imag(), y.real(), y.imag());
          if (!with_ex) {
            cd z = 0;
            for (auto [w, r] : ind) z += r * f(w);
            c.check(std::abs(x - z) < tol * 10 + 100 * err * T, "%s of block %zu (%d,%d) at %g is (%g,%g), independent Lehmann sum (%g,%g)", what, b, i, j, at, x.real(), x.imag(), z.real(), z.imag());
          }
          vmon::count("values", 1);
        };
        for (auto *g : {&gt1, &gt2}) {
          int k = 0;
          c.check((*g)[b].mesh().size() == n_tau, "tau mesh");
          for (auto t : (*g)[b].mesh()) {
            double tau = beta * k++ / (n_tau - 1);
            cmp((*g)[b][t](i, j), [&](double w) { return g_tau1(w, tau, beta); }, 1e-11 * T * T + 10 * err, "G(tau)", tau);
          }
        }
        for (auto *g : {&gw1, &gw2})
          for (auto w : (*g)[b].mesh()) {
            long nn = w.index();
            cd z(0, (2 * nn + 1) * M_PI / beta);
            cmp((*g)[b][w](i, j), [&](double x) { return 1. / (z - x); }, 1e-12 * T * T * beta + beta * err, "G(iw)", z.imag());
          }
        c.check(gw1[b].mesh().size() == 2 * n_iw && gw2[b].mesh().size() == (positive ? n_iw : 2 * n_iw), "frequency mesh");
        for (auto *g : {&gr1, &gr2}) {
          int k = 0;
          c.check((*g)[b].mesh().size() == n_w, "w mesh");
          for (auto w : (*g)[b].mesh()) {
            cd z(w0 + (w1 - w0) * k++ / (n_w - 1), eta);
            cmp((*g)[b][w](i, j), [&](double x) { return 1. / (z - x); }, 1e-12 * T * T / eta * (1 + scale / eta), "G(w)", z.real());
          }
        }
      }
  }
  vmon::count("atoms", 1);
  c.nontrivial(std::hash<std::string>{}(p.m.str()) + std::hash<double>{}(beta));
}

template <bool C> void t_gl(kase &c) {
  problem<C> p;
  build(c, p, 3);
  auto &a      = p.a;
  int T        = int(p.sel.size());
  double scale = 1 + mx(p.m.dense());
  double beta  = rand_beta(c, 1e-1, 1e4);
  beta         = std::min(beta, 1e4 / scale);
  int nl       = int(c.i(1, 30));
  c.trace("beta=%.17g n_l=%d", beta, nl);
  double Z = 0;
  for (double x : p.E) Z += std::exp(-beta * x);
  std::vector<double> wt;
  for (double x : p.E) wt.push_back(std::exp(-beta * x) / Z);
  std::vector<char> excl(T, 0);
  ad::excluded_states_t ex;
  if (c.chance(0.3))
    for (int i = 0; i < T; ++i) if (c.chance(0.2)) { excl[i] = 1; ex.push_back(p.where[i]); }
  auto lm = ad::atomic_g_lehmann(a, beta, p.gfs, ex);
  auto g1 = ad::atomic_g_l(a, beta, p.gfs, nl, ex);
  auto g2 = ad::atomic_g_l<C>(lm, p.gfs, tmesh::legendre(beta, triqs::mesh::Fermion, nl));
  std::map<double, std::vector<double>> cache;
  for (size_t b = 0; b < p.gfs.size(); ++b) {
    auto [name, size] = p.gfs[b];
    for (int i = 0; i < size; ++i)
      for (int j = 0; j < size; ++j) {
        int ma = int(p.m.fops[{name, long(i)}]), mb = int(p.m.fops[{name, long(j)}]);
        auto pl = lehmann(p.V, p.E, wt, excl, emat({{1, {{false, ma}}}}, p.m.n), emat({{1, {{true, mb}}}}, p.m.n));
        std::vector<cd> ref(nl);
        for (auto [w, r] : pl) {
          if (std::abs(r) < 1e-15) continue;
          auto it = cache.find(w);
          if (it == cache.end()) it = cache.insert({w, g_l1(w, beta, nl)}).first;
          for (int l = 0; l < nl; ++l) ref[l] += r * it->second[l];
        }
        for (auto *g : {&g1, &g2}) {
          int l = 0;
          c.check((*g)[b].mesh().size() == nl, "Legendre mesh");
          for (auto x : (*g)[b].mesh()) {
            cd y = (*g)[b][x](i, j);
            c.check(std::abs(y - ref[l]) < 1e-9 * beta * T, "G_l of block %zu (%d,%d), l=%d is (%.12g,%.12g), quadrature of the Lehmann sum (%.12g,%.12g), largest energy %g", b, i, j, l, y.real(), y.imag(), ref[l].real(), ref[l].imag(), p.e.back());
            ++l;
            vmon::count("Legendre coefficients", 1);
          }
        }
      }
  }
  c.nontrivial(std::hash<std::string>{}(p.m.str()) + std::hash<double>{}(beta));
}

void run() {
  vmon::group("thermal_real", 150, 3000, t_thermal<false>);
  vmon::group("thermal_complex", 150, 3000, t_thermal<true>);
  vmon::group("qn_real", 150, 3000, t_qn<false>);
  vmon::group("qn_complex", 250, 5000, t_qn<true>);
  vmon::group("gf_real", 120, 2500, t_gf<false>);
  vmon::group("gf_complex", 120, 2500, t_gf<true>);
  vmon::group("gl_real", 80, 1500, t_gl<false>);
  vmon::group("gl_complex", 80, 1500, t_gl<true>);
}
