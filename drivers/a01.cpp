// A01: atom_diag against dense diagonalisation, for every way of partitioning
#include "a_rig.hpp"
#include <h5/h5.hpp>
#include <unistd.h>

template <bool C> using atom_t = ad::atom_diag<C>;

template <bool C> dense_ref check_atom(kase &c, model<C> const &m, atom_t<C> const &a, std::vector<fock::F> const &selected, std::vector<int> const *expected_qn_of_state) {
  EM H       = m.dense();
  int D      = 1 << m.n;
  double hsc = 1 + mx(H);
  double tol = 1e-11 * hsc * (1 + D);
  c.check(a.get_full_hilbert_space_dim() == D, "full dimension %d", a.get_full_hilbert_space_dim());
  c.check(int(a.get_fops().size()) == m.n, "fops size");
  c.check(a.get_fops() == m.fops, "the operator set differs from the one given");
  int ns = a.n_subspaces();
  // tiling
  std::vector<int> where(D, -1);
  long total = 0;
  for (int s = 0; s < ns; ++s) {
    auto const &fs = a.get_fock_states(s);
    c.check(int(fs.size()) == a.get_subspace_dim(s) && !fs.empty(), "subspace %d has %zu Fock states, dimension %d", s, fs.size(), a.get_subspace_dim(s));
    c.check(a.flatten_subspace_index(s, 0) == total, "flat index of subspace %d is %d, not %ld", s, a.flatten_subspace_index(s, 0), total);
    auto rg = a.index_range_of_subspace(s);
    c.check(rg.first() == total && rg.last() == total + long(fs.size()), "index range of subspace %d", s);
    for (auto f : fs) {
      c.check(f < fock::F(D) && where[f] == -1, "Fock state %lu of subspace %d out of range or listed twice", (unsigned long)f, s);
      where[f] = s;
    }
    total += long(fs.size());
  }
  c.check(total == long(selected.size()), "%ld states in subspaces, %zu selected", total, selected.size());
  for (auto f : selected) c.check(where[f] != -1, "Fock state %lu is in no subspace", (unsigned long)f);
  c.check(a.get_subspace_dims().size() == size_t(ns) && a.get_fock_states().size() == size_t(ns) && a.get_unitary_matrices().size() == size_t(ns) && a.get_eigensystems().size() == size_t(ns) && a.get_energies().size() == size_t(ns), "sizes of the lists");
  // H does not connect subspaces
  for (auto f : selected)
    for (auto g : selected)
      if (where[f] != where[g]) c.check(std::abs(H(g, f)) <= tol, "H connects subspace %d (state %lu) and %d (state %lu): %g", where[f], (unsigned long)f, where[g], (unsigned long)g, std::abs(H(g, f)));
  // spectra
  dense_ref ref;
  ref.V = EM::Zero(D, total);
  EM Hs(total, total);
  for (long i = 0; i < total; ++i)
    for (long j = 0; j < total; ++j) Hs(i, j) = H(selected[i], selected[j]);
  Eigen::SelfAdjointEigenSolver<EM> es(Hs);
  std::vector<double> all, mine;
  for (long i = 0; i < total; ++i) all.push_back(es.eigenvalues()(i));
  ref.gs = all.empty() ? 0 : all[0];
  if (ns) c.close(a.get_gs_energy(), ref.gs, tol, "ground state energy");
  double low = -1e300;
  for (int s = 0; s < ns; ++s) {
    int d          = a.get_subspace_dim(s);
    auto const &fs = a.get_fock_states(s);
    EM U           = eview(a.get_unitary_matrix(s));
    c.check(U.rows() == d && U.cols() == d, "shape of U");
    c.check(mx(U - eview(a.get_unitary_matrices()[s])) == 0 && mx(U - eview(a.get_eigensystems()[s].unitary_matrix)) == 0, "accessors of U differ");
    c.check(mx(U.adjoint() * U - EM::Identity(d, d)) < 1e-10, "U of subspace %d is not unitary", s);
    EM Hb(d, d), Eb = EM::Zero(d, d);
    for (int i = 0; i < d; ++i)
      for (int j = 0; j < d; ++j) Hb(i, j) = H(fs[i], fs[j]);
    for (int i = 0; i < d; ++i) {
      double e = a.get_eigenvalue(s, i);
      c.check(e == a.get_energies()[s][i] && e == a.get_eigensystems()[s].eigenvalues(i), "accessors of the energies differ");
      c.check(std::isfinite(e) && e > -tol, "energy %g below the ground state", e);
      if (i) c.check(e >= a.get_eigenvalue(s, i - 1) - tol, "energies of subspace %d are not ascending", s);
      Eb(i, i) = e + ref.gs;
      mine.push_back(e + ref.gs);
      ref.E.push_back(e);
      for (int k = 0; k < d; ++k) ref.V(fs[k], a.flatten_subspace_index(s, i)) = U(k, i);
    }
    c.check(mx(U * Eb * U.adjoint() - Hb) < tol, "U E U+ differs from H in subspace %d by %g", s, mx(U * Eb * U.adjoint() - Hb));
    c.check(a.get_eigenvalue(s, 0) >= low - tol - 1e-8, "subspaces are not ordered by their lowest energy");
    low = std::max(low, a.get_eigenvalue(s, 0));
  }
  std::sort(mine.begin(), mine.end());
  for (long i = 0; i < total; ++i) c.check(std::abs(mine[i] - all[i]) < tol, "eigenvalue %ld of the union of blocks is %.15g, dense %.15g", i, mine[i], all[i]);
  if (ns) { double mn = *std::min_element(ref.E.begin(), ref.E.end()); c.check(std::abs(mn) < tol, "lowest energy is %g, not 0", mn); }
  // c, c+
  for (int k = 0; k < m.n; ++k)
    for (int dg = 0; dg < 2; ++dg) {
      EM O = ref.V.adjoint() * emat({{1, {{bool(dg), k}}}}, m.n) * ref.V;
      for (int s = 0; s < ns; ++s) {
        long to        = dg ? a.cdag_connection(k, s) : a.c_connection(k, s);
        auto const &M  = dg ? a.cdag_matrix(k, s) : a.c_matrix(k, s);
        c.check(to >= -1 && to < ns, "connection %ld out of range", to);
        long s0 = a.flatten_subspace_index(s, 0), d = a.get_subspace_dim(s);
        EM col = O.middleCols(s0, d);
        if (to == -1) {
          c.check(mx(col) < 1e-10, "%s%d on subspace %d is not zero but has no connection", dg ? "c+" : "c", k, s);
          c.check(M.extent(0) * M.extent(1) == 0, "matrix without connection");
          vmon::count("zero blocks", 1);
          continue;
        }
        bool any = false;
        for (auto f : a.get_fock_states(s)) {
          fock::F g = f; int sg = 1;
          if (fock::act1({bool(dg), k}, g, sg) && where[g] != -1) { any = true; c.check(where[g] == to, "%s%d connects subspace %d to %d, the object says %ld", dg ? "c+" : "c", k, s, where[g], to); }
        }
        c.check(any, "connection of %s%d from %d to %ld without any matrix element", dg ? "c+" : "c", k, s, to);
        long t0 = a.flatten_subspace_index(int(to), 0), dt = a.get_subspace_dim(int(to));
        c.check(M.extent(0) == dt && M.extent(1) == d, "shape %ldx%ld of the block of %s%d from %d", M.extent(0), M.extent(1), dg ? "c+" : "c", k, s);
        EM diff = col;
        diff.middleRows(t0, dt) -= eview(M);
        c.check(mx(diff) < 1e-10, "block of %s%d from subspace %d differs from the dense one by %g", dg ? "c+" : "c", k, s, mx(diff));
        vmon::count("operator blocks", 1);
      }
    }
  // vacuum
  EV vac = EV::Zero(D);
  long vs = -1;
  if (D > 0 && where[0] >= 0) { vs = where[0]; EV x = ref.V.adjoint().col(0); for (long i = 0; i < total; ++i) vac(i) = x(i); }
  auto const &av = a.get_vacuum_state();
  c.check(av.size() == D, "size of the vacuum vector");
  for (int i = 0; i < D; ++i) c.check(std::abs(cd(av(i)) - vac(i)) < 1e-10, "component %d of the vacuum", i);
  c.check(a.get_vacuum_subspace_index() == vs, "vacuum subspace %ld, expected %ld", a.get_vacuum_subspace_index(), vs);
  // quantum numbers
  if (!expected_qn_of_state) c.check(a.get_quantum_numbers().empty(), "quantum numbers of an automatic partition");
  return ref;
}

template <bool C> fock::expr rand_expr(kase &c, model<C> const &m, bool conserving) {
  fock::expr e;
  for (long t = c.i(1, 4); t > 0 && m.n > 0; --t) {
    fock::mono x;
    long p = c.i(0, 2), q = conserving ? p : c.i(0, 2);
    for (long i = 0; i < p; ++i) x.push_back({true, int(c.i(0, m.n - 1))});
    for (long i = 0; i < q; ++i) x.push_back({false, int(c.i(0, m.n - 1))});
    cd z = c.r(-2, 2);
    if (C) z += cd(0, c.r(-2, 2));
    e.push_back({z, x});
  }
  return e;
}

template <bool C> void check_ops(kase &c, model<C> const &m, atom_t<C> const &a, dense_ref const &ref) {
  int ns = a.n_subspaces();
  for (int rep = 0; rep < 4; ++rep) {
    auto e = rep == 0 ? m.H : rand_expr(c, m, rep % 2);
    auto O = m.op(e);
    // the monomials of the normal ordered operator decide whether every subspace is mapped to one subspace
    std::vector<long> target(ns, -1);
    bool ok  = true;
    auto pos = [&](auto const &ix) { return int(m.fops[ix]); };
    EM dense = ref.V.adjoint() * emat(e, m.n) * ref.V;
    for (auto const &t : O) {
      triqs::operators::many_body_operator_generic<typename model<C>::S> mono(1.0, t.monomial);
      EM dm = ref.V.adjoint() * emat(fock::from_op(mono, pos), m.n) * ref.V;
      for (int s = 0; s < ns; ++s) {
        long s0 = a.flatten_subspace_index(s, 0), d = a.get_subspace_dim(s);
        auto [b, M] = a.get_matrix_element_of_monomial(t.monomial, s);
        EM rest = dm.middleCols(s0, d);
        if (b != -1) {
          c.check(b >= 0 && b < ns, "monomial connects to %d", b);
          c.check(M.extent(0) == a.get_subspace_dim(b) && M.extent(1) == d, "shape of the matrix of a monomial");
          rest.middleRows(a.flatten_subspace_index(b, 0), a.get_subspace_dim(b)) -= eview(M);
          if (target[s] == -1) target[s] = b; else if (target[s] != b) ok = false;
        }
        c.check(mx(rest) < 1e-9, "matrix of a monomial on subspace %d differs by %g (to %d)", s, mx(rest), b);
        vmon::count("monomial blocks", 1);
      }
    }
    if (!ok) {
      c.throws([&] { (void)a.get_op_mat(O); }, "get_op_mat with monomials leading to different subspaces");
      vmon::count("operators refused", 1);
      continue;
    }
    auto om = a.get_op_mat(O);
    c.check(om.n_blocks() == ns, "number of blocks of get_op_mat");
    EM sum = EM::Zero(dense.rows(), dense.cols());
    for (int s = 0; s < ns; ++s) {
      long b = om.connection(s);
      c.check(b == target[s], "connection of get_op_mat: %ld, expected %ld", b, target[s]);
      if (b == -1) continue;
      sum.block(a.flatten_subspace_index(int(b), 0), a.flatten_subspace_index(s, 0), a.get_subspace_dim(int(b)), a.get_subspace_dim(s)) += eview(om.block_mat[s]);
    }
    c.check(mx(sum - dense) < 1e-10 * (1 + mx(dense)) * (1 + double(O.get_monomials().size())), "get_op_mat differs from the dense matrix by %g", mx(sum - dense));
    vmon::count("operator matrices", 1);
  }
}

template <bool C> std::vector<fock::F> sel(model<C> const &m, int lo = 0, int hi = 64) {
  std::vector<fock::F> r;
  for (fock::F f = 0; f < (fock::F(1) << m.n); ++f) { int k = __builtin_popcountll(f); if (k >= lo && k <= hi) r.push_back(f); }
  return r;
}
template <bool C> model<C> make(kase &c, int nmax, bool cons) {
  model<C> m;
  int n = int(c.i(c.chance(0.02) ? 0 : 1, nmax));
  m.set_labels(c, fock::rand_labels(c, n));
  if (c.chance(0.15)) m.projected_h(c, cons); else m.random_h(c, cons);
  c.trace("%s", m.str().c_str());
  return m;
}
template <bool C> void roundtrip(kase &c, atom_t<C> const &a, atom_t<C> &used) {
  std::string f = "a01_" + std::to_string(getpid()) + ".h5";
  atom_t<C> fresh;
  {
    h5::file file(f, 'w');
    h5_write(h5::group(file), "a", a);
  }
  {
    h5::file file(f, 'r');
    h5_read(h5::group(file), "a", fresh);
    h5_read(h5::group(file), "a", used);
  }
  unlink(f.c_str());
  auto x = fingerprint(a), y = fingerprint(fresh), z = fingerprint(used);
  c.check(x == y, "reading into a fresh atom_diag changes it");
  c.check(x == z, "reading into a used atom_diag leaves a different object");
  c.check(fresh.get_h_atomic() == a.get_h_atomic() && used.get_h_atomic() == a.get_h_atomic(), "Hamiltonian after the HDF5 round trip");
  c.check(fresh.get_fops() == a.get_fops() && used.get_fops() == a.get_fops(), "operator set after the HDF5 round trip");
  c.check(fresh == a && used == a, "operator== after the HDF5 round trip");
  vmon::count("round trips", 1);
}

template <bool C> void t_auto(kase &c) {
  auto m = make<C>(c, 5, false);
  atom_t<C> a(m.h, m.fops);
  c.check(a.get_h_atomic() == m.h, "stored Hamiltonian");
  auto ref = check_atom<C>(c, m, a, sel(m), nullptr);
  check_ops<C>(c, m, a, ref);
  vmon::count("atoms", 1);
  vmon::count("subspaces", a.n_subspaces());
  c.nontrivial(std::hash<std::string>{}(m.str()));
}
template <bool C> void t_proj(kase &c) {
  model<C> m;
  m.set_labels(c, fock::rand_labels(c, int(c.i(3, 6))));
  m.projected_h(c, c.chance(0.5));
  c.trace("%s", m.str().c_str());
  atom_t<C> a(m.h, m.fops);
  auto ref = check_atom<C>(c, m, a, sel(m), nullptr);
  vmon::count("atoms", 1);
  c.nontrivial(std::hash<std::string>{}(m.str()));
}
template <bool C> void t_chain(kase &c) {
  model<C> m;
  m.set_labels(c, fock::rand_labels(c, int(c.i(6, 7))));
  m.chain_h(c);
  c.trace("%s", m.str().c_str());
  atom_t<C> a(m.h, m.fops);
  check_atom<C>(c, m, a, sel(m), nullptr);
  vmon::count("atoms", 1);
  c.nontrivial(std::hash<std::string>{}(m.str()));
}
template <bool C> void t_hyb(kase &c) {
  auto m = make<C>(c, 4, false);
  auto e = rand_expr(c, m, c.chance(0.7));
  auto d = model<C>::dag(e);
  e.insert(e.end(), d.begin(), d.end());
  auto hyb = m.op(e);
  atom_t<C> a(m.h, hyb, m.fops);
  auto ref = check_atom<C>(c, m, a, sel(m), nullptr);
  EM hd    = emat(e, m.n);
  std::vector<int> where(1 << m.n, -1);
  for (int s = 0; s < a.n_subspaces(); ++s) for (auto f : a.get_fock_states(s)) where[f] = s;
  for (auto f : sel(m)) for (auto g : sel(m))
    if (where[f] != where[g]) c.check(std::abs(hd(f, g)) < 1e-10, "the hybridisation connects subspaces %d and %d", where[f], where[g]);
  check_ops<C>(c, m, a, ref);
  vmon::count("atoms", 1);
  c.nontrivial(std::hash<std::string>{}(m.str()));
}
template <bool C> void t_window(kase &c) {
  auto m = make<C>(c, 5, true);
  int lo = int(c.i(0, m.n)), hi = int(c.i(lo, m.n + 1));
  c.trace("particle numbers %d..%d", lo, hi);
  atom_t<C> a(m.h, m.fops, lo, hi);
  auto ref = check_atom<C>(c, m, a, sel(m, lo, hi), nullptr);
  check_ops<C>(c, m, a, ref);
  vmon::count("atoms", 1);
  vmon::count("windows", 1);
  c.nontrivial(std::hash<std::string>{}(m.str()) + lo * 31 + hi);
}
template <bool C> void t_qn(kase &c) {
  auto m = make<C>(c, 5, true);
  // diagonal operators sum_k w_k n_k that commute with H: each conserved combination of weights
  EM H  = m.dense();
  int D = 1 << m.n;
  std::vector<fock::expr> qn;
  std::vector<std::vector<double>> w;
  auto conserved = [&](std::vector<double> const &x) {
    auto q = [&](int f) { double r = 0; for (int k = 0; k < m.n; ++k) if (f >> k & 1) r += x[k]; return r; };
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) if (std::abs(H(i, j)) > 1e-14 && std::abs(q(i) - q(j)) > 1e-9) return false;
    return true;
  };
  w.push_back(std::vector<double>(m.n, 1));
  for (int t = 0; t < 12 && w.size() < 4; ++t) {
    std::vector<double> x(m.n);
    for (auto &y : x) y = c.chance(0.2) ? c.pick(std::vector<double>{0.5, -0.5, 0.25, 2}) : double(c.i(0, 1));
    if (conserved(x)) w.push_back(x);
  }
  c.shuffle(w);
  if (w.size() > 1 && c.chance(0.3)) w.pop_back();
  std::vector<typename model<C>::op_t> ops;
  for (auto const &x : w) {
    fock::expr e;
    for (int k = 0; k < m.n; ++k) if (x[k] != 0) e.push_back({x[k], {{true, k}, {false, k}}});
    ops.push_back(m.op(e));
    c.trace("qn with %zu terms", e.size());
  }
  atom_t<C> a(m.h, m.fops, ops);
  std::vector<int> dummy;
  auto ref = check_atom<C>(c, m, a, sel(m), &dummy);
  auto const &q = a.get_quantum_numbers();
  c.check(q.size() == size_t(a.n_subspaces()), "number of quantum number lists");
  std::set<std::vector<long>> seen;
  for (int s = 0; s < a.n_subspaces(); ++s) {
    c.check(q[s].size() == w.size(), "quantum numbers of subspace %d", s);
    for (size_t i = 0; i < w.size(); ++i)
      for (auto f : a.get_fock_states(s)) {
        double x = 0;
        for (int k = 0; k < m.n; ++k) if (f >> k & 1) x += w[i][k];
        c.check(std::abs(x - q[s][i]) < 1e-9, "quantum number %zu of subspace %d is %g, its Fock state %lu has %g", i, s, q[s][i], (unsigned long)f, x);
        vmon::count("quantum numbers", 1);
      }
    std::vector<long> key;
    for (double x : q[s]) key.push_back(std::lround(x * 1e6));
    c.check(seen.insert(key).second, "two subspaces have the same quantum numbers");
  }
  check_ops<C>(c, m, a, ref);
  vmon::count("atoms", 1);
  c.nontrivial(std::hash<std::string>{}(m.str()));
}
template <bool C> atom_t<C> any_atom(kase &c, int nmax) {
  model<C> m; // monomials of more than four operators cannot be stored
  m.set_labels(c, fock::rand_labels(c, int(c.i(1, nmax))));
  m.random_h(c, true);
  c.trace("%s", m.str().c_str());
  switch (c.i(0, 2)) {
    case 0: return atom_t<C>(m.h, m.fops);
    case 1: { int lo = int(c.i(0, m.n)); return atom_t<C>(m.h, m.fops, lo, int(c.i(lo, m.n))); }
    default: {
      fock::expr e;
      for (int k = 0; k < m.n; ++k) e.push_back({1, {{true, k}, {false, k}}});
      return atom_t<C>(m.h, m.fops, std::vector<typename model<C>::op_t>{m.op(e)});
    }
  }
}
template <bool C> void t_h5(kase &c) {
  auto a = any_atom<C>(c, 4);
  auto b = any_atom<C>(c, 4);
  auto cp = a;
  c.check(fingerprint(cp) == fingerprint(a) && cp == a, "copy differs");
  roundtrip<C>(c, a, b);
  std::ostringstream os;
  os << a << a.get_op_mat(a.get_h_atomic());
  c.check(os.str().size() > 10, "printing");
  cp = b;
  c.check(fingerprint(cp) == fingerprint(a), "assignment differs");
  c.nontrivial(c.u64());
}

void run() {
  vmon::group("auto_real", 130, 2500, t_auto<false>);
  vmon::group("auto_complex", 130, 2500, t_auto<true>);
  vmon::group("proj_real", 150, 4000, t_proj<false>);
  vmon::group("proj_complex", 150, 4000, t_proj<true>);
  vmon::group("hyb_real", 60, 1200, t_hyb<false>);
  vmon::group("hyb_complex", 60, 1200, t_hyb<true>);
  vmon::group("window_real", 80, 1500, t_window<false>);
  vmon::group("window_complex", 80, 1500, t_window<true>);
  vmon::group("qn_real", 80, 1500, t_qn<false>);
  vmon::group("qn_complex", 80, 1500, t_qn<true>);
  vmon::group("h5_real", 60, 800, t_h5<false>);
  vmon::group("h5_complex", 60, 800, t_h5<true>);
}
