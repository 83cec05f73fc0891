// Random atomic problems and their dense reference (Jordan-Wigner matrices, Eigen's Hermitian solver).
#pragma once
#include <vmon.hpp>
#include <eigen3/Eigen/Dense>
#define FOCK_WITH_TRIQS
#include "fock.hpp"
#include <triqs/atom_diag/atom_diag.hpp>
#include <triqs/atom_diag/functions.hpp>
#include <triqs/atom_diag/gf.hpp>
using vmon::kase;
using cd  = std::complex<double>;
using EM  = Eigen::MatrixXcd;
using EV  = Eigen::VectorXcd;
namespace ad = triqs::atom_diag;
namespace hs = triqs::hilbert_space;

inline EM emat(fock::expr const &e, int n) {
  auto d = fock::dense(e, n);
  EM r(d.n, d.n);
  for (int i = 0; i < d.n; ++i)
    for (int j = 0; j < d.n; ++j) r(i, j) = d(i, j);
  return r;
}
template <typename M> EM eview(M const &m) {
  EM r(m.extent(0), m.extent(1));
  for (long i = 0; i < m.extent(0); ++i)
    for (long j = 0; j < m.extent(1); ++j) r(i, j) = m(i, j);
  return r;
}
inline double mx(EM const &m) {
  double r = 0;
  for (Eigen::Index i = 0; i < m.size(); ++i) { double x = std::abs(m.data()[i]); if (!(x <= r)) r = x; }
  return r;
}

template <bool C> struct model {
  using S    = std::conditional_t<C, cd, double>;
  using op_t = triqs::operators::many_body_operator_generic<S>;
  int n;                       // modes
  std::vector<fock::idx_t> lab; // label of mode k (k = linear index in fops)
  hs::fundamental_operator_set fops;
  fock::expr H;                // products in any order
  op_t h;
  bool conserving = true;      // commutes with N
  static S sc(cd x) { if constexpr (C) return x; else return x.real(); }
  op_t op(fock::expr const &e) const {
    op_t r{};
    for (auto const &t : e) {
      op_t p{S(1)};
      for (auto const &o : t.m) {
        op_t x = op_t::make_canonical(o.dag, lab[o.mode]);
        p      = p * x;
      }
      r += sc(t.coef) * p;
    }
    return r;
  }
  static fock::expr dag(fock::expr const &e) {
    fock::expr r;
    for (auto t : e) {
      t.coef = std::conj(t.coef);
      std::reverse(t.m.begin(), t.m.end());
      for (auto &o : t.m) o.dag = !o.dag;
      r.push_back(t);
    }
    return r;
  }
  void set_labels(kase &c, std::vector<fock::idx_t> const &l) {
    n    = int(l.size());
    fops = {};
    for (auto const &x : l) fops.insert_from_indices_t(x);
    lab.resize(n);
    for (auto const &x : l) lab[fops[x]] = x;
  }
  cd coef(kase &c, int style) {
    if (style == 0) return double(c.pick(std::vector<int>{-2, -1, 1, 1, 2, 3}));
    if (style == 1) return c.r(0.1, 2) * (c.chance(0.5) ? 1 : -1);
    double s = std::pow(10., c.r(-2, 2));
    return s * c.r(0.2, 2) * (c.chance(0.5) ? 1 : -1);
  }
  // adds t and its Hermitian conjugate
  void add(kase &c, fock::mono m, int style) {
    cd x = coef(c, style);
    if (C && c.chance(0.6)) x *= c.chance(0.4) ? cd(0, 1) : std::polar(1., c.r(-3, 3));
    fock::expr e{{x, m}}, d = dag(e);
    H.push_back(e[0]);
    H.push_back(d[0]);
    for (auto const &o : m) conserving_count += o.dag ? 1 : -1;
    if (conserving_count != 0) conserving = false;
    conserving_count = 0;
  }
  int conserving_count = 0;
  void diag(kase &c, fock::mono m, int style) { H.push_back({coef(c, style), m}); }
  std::string kind;
  int style = 0;
  void random_h(kase &c, bool need_conserving) {
    auto cdg = [](int a) { return fock::cop{true, a}; };
    auto cc  = [](int a) { return fock::cop{false, a}; };
    style    = int(c.i(0, 2));
    int k    = int(c.i(0, need_conserving ? 4 : 7));
    if (n == 0) k = 5;
    auto md   = [&] { return int(c.i(0, n - 1)); };
    auto dens = [&](double p) {
      for (int a = 0; a < n; ++a) if (c.chance(p)) diag(c, {cdg(a), cc(a)}, style);
      for (int a = 0; a < n; ++a)
        for (int b = a + 1; b < n; ++b) if (c.chance(p)) diag(c, {cdg(a), cc(a), cdg(b), cc(b)}, style);
    };
    auto hop = [&](int m) { for (; m > 0; --m) { int a = md(), b = md(); if (a != b) add(c, {cdg(a), cc(b)}, style); } };
    auto quart = [&](int m) {
      for (; m > 0 && n >= 2; --m) {
        fock::mono x{cdg(md()), cdg(md()), cc(md()), cc(md())};
        if (x[0].mode != x[1].mode && x[2].mode != x[3].mode) add(c, x, style);
      }
    };
    auto chop = [&](int m) { // correlated hopping n_a c+_b c_d
      for (; m > 0 && n >= 3; --m) {
        int a = md(), b = md(), d = md();
        if (a != b && b != d && a != d) add(c, {cdg(a), cc(a), cdg(b), cc(d)}, style);
      }
    };
    switch (k) {
      case 0: kind = "density"; dens(0.6); break;
      case 1: kind = "hop+density"; hop(int(c.i(1, n))); dens(0.4); break;
      case 2: kind = "quartic"; quart(int(c.i(1, 3))); dens(0.3); break;
      case 3: kind = "correlated hopping"; chop(int(c.i(1, 3))); hop(int(c.i(0, 1))); dens(0.3); break;
      case 4: kind = "all conserving"; hop(n); quart(4); chop(2); dens(0.5); break;
      case 5: kind = "constant"; if (c.chance(0.5)) H.push_back({coef(c, style), {}}); break;
      case 6: kind = "pairing"; for (int m = int(c.i(1, 3)); m > 0; --m) { int a = md(), b = md(); if (a != b) add(c, {cdg(a), cdg(b)}, style); } hop(int(c.i(0, 2))); dens(0.4); break;
      default: kind = "odd"; add(c, {cdg(md())}, style); if (c.chance(0.5)) hop(1); dens(0.4); break;
    }
    if (c.chance(0.2)) H.push_back({coef(c, style), {}}); // energy shift
    h = op(H);
  }
  // few matrix elements between single Fock states: a hop, double hop or pair term times projectors on the occupation of other modes
  void projected_h(kase &c, bool need_conserving) {
    style = int(c.i(0, 1));
    kind  = "projected";
    for (long t = c.i(1, 4); t > 0; --t) {
      std::vector<int> p(n);
      for (int k = 0; k < n; ++k) p[k] = k;
      c.shuffle(p);
      size_t nd = 1, na = 1;
      if (n >= 4 && c.chance(0.4)) nd = na = 2;
      if (!need_conserving && c.chance(0.3)) { nd = 2; na = 0; }
      if (size_t(n) < nd + na) continue;
      fock::mono core;
      for (size_t k = 0; k < nd; ++k) core.push_back({true, p[k]});
      for (size_t k = 0; k < na; ++k) core.push_back({false, p[nd + k]});
      fock::expr e{{coef(c, style), core}};
      if (C && c.chance(0.5)) e[0].coef *= cd(0, 1);
      for (size_t k = nd + na; k < size_t(n); ++k) {
        int what = int(c.i(0, 2)); // occupied, empty, any
        fock::expr r;
        for (auto &x : e) {
          auto y = x;
          y.m.insert(y.m.end(), {{true, p[k]}, {false, p[k]}});
          if (what == 0) r.push_back(y);
          if (what == 1) { r.push_back(x); y.coef = -y.coef; r.push_back(y); }
          if (what == 2) r.push_back(x);
        }
        e = r;
      }
      auto d = dag(e);
      H.insert(H.end(), e.begin(), e.end());
      H.insert(H.end(), d.begin(), d.end());
      if (nd != na) conserving = false;
    }
    h = op(H);
  }
  // a merge made for one operator has to trigger further merges for operators of lower index: n_b (a+ d+ e f + h.c.) and a
  // hop g-h (or an odd term of g) that is allowed only if a, d are occupied and b, e, f empty
  void chain_h(kase &c) {
    kind = "chain";
    std::vector<int> p(n);
    for (int k = 0; k < n; ++k) p[k] = k;
    c.shuffle(p);
    int a = p[0], b = p[1], d = p[2], e = p[3], f = p[4];
    auto both = [&](fock::expr const &x) { auto y = dag(x); H.insert(H.end(), x.begin(), x.end()); H.insert(H.end(), y.begin(), y.end()); };
    both({{coef(c, 1), {{true, a}, {true, d}, {false, e}, {false, f}, {true, b}, {false, b}}}});
    fock::expr x{{coef(c, 1), n >= 7 ? fock::mono{{true, p[5]}, {false, p[6]}} : fock::mono{{true, p[5]}}}};
    for (int k : {a, d}) for (auto &y : x) y.m.insert(y.m.end(), {{true, k}, {false, k}});
    for (int k : {b, e, f}) {
      fock::expr r;
      for (auto y : x) { r.push_back(y); y.coef = -y.coef; y.m.insert(y.m.end(), {{true, k}, {false, k}}); r.push_back(y); }
      x = r;
    }
    both(x);
    h          = op(H);
    conserving = n >= 7;
  }
  std::string str() const {
    std::string s = kind + (C ? " complex" : " real") + " n=" + std::to_string(n) + ":";
    char b[64];
    for (auto const &t : H) {
      snprintf(b, sizeof b, " +(%.6g,%.6g)", t.coef.real(), t.coef.imag());
      s += b;
      for (auto const &o : t.m) s += (o.dag ? " c+" : " c") + std::to_string(o.mode);
    }
    return s;
  }
  EM dense() const { return emat(H, n); }
};
// a partition function of Fock states, as numbered by an integer-valued diagonal operator sum_k w_k n_k
struct dense_ref {
  EM V;                 // columns: eigenstates in the Fock basis, in the order of the flat index
  std::vector<double> E; // energies (ground state of the selected space at zero)
  double gs;
};
// Everything observable of an atom, as a string of numbers: used to compare reloaded objects
template <bool C> std::vector<double> fingerprint(ad::atom_diag<C> const &a) {
  std::vector<double> r;
  auto put = [&](double x) { r.push_back(x); };
  auto putm = [&](auto const &m) { put(m.extent(0)); put(m.extent(1)); for (long i = 0; i < m.extent(0); ++i) for (long j = 0; j < m.extent(1); ++j) { put(std::real(m(i, j))); put(std::imag(m(i, j))); } };
  put(a.get_full_hilbert_space_dim());
  put(a.n_subspaces());
  put(a.get_gs_energy());
  put(a.get_vacuum_subspace_index());
  auto const &v = a.get_vacuum_state();
  put(v.size());
  for (auto x : v) { put(std::real(x)); put(std::imag(x)); }
  int nf = a.get_fops().size();
  put(nf);
  for (int s = 0; s < a.n_subspaces(); ++s) {
    put(a.get_subspace_dim(s));
    put(a.flatten_subspace_index(s, 0));
    for (auto f : a.get_fock_states(s)) put(double(f));
    for (int i = 0; i < a.get_subspace_dim(s); ++i) put(a.get_eigenvalue(s, i));
    putm(a.get_unitary_matrix(s));
    for (int k = 0; k < nf; ++k) {
      put(a.c_connection(k, s));
      put(a.cdag_connection(k, s));
      putm(a.c_matrix(k, s));
      putm(a.cdag_matrix(k, s));
    }
  }
  auto const &q = a.get_quantum_numbers();
  put(q.size());
  for (auto const &x : q) { put(x.size()); for (double y : x) put(y); }
  return r;
}
