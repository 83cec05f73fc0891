// H04: space_partition driven with arbitrary sparse matrices (model of the documented StateVector / operator concepts)
#include <vmon.hpp>
#include <functional>
#include <complex>
#include <triqs/hilbert_space/space_partition.hpp>
#include "h04_oracle.hpp"
using vmon::kase;

// --- minimal model of the state vector concept (map based or dense) ---
template <typename T, bool Map> struct mstate {
  using value_type = T;
  int n            = 0;
  std::map<uint64_t, T> a;
  int size() const { return n; }
  T &operator()(uint64_t i) { if (i >= uint64_t(n)) throw vmon::failure{"state amplitude index out of range"}; return a[i]; }
  T operator()(uint64_t i) const { if (i >= uint64_t(n)) throw vmon::failure{"state amplitude index out of range"}; auto it = a.find(i); return it == a.end() ? T(0) : it->second; }
  mstate &operator+=(mstate const &o) { for (auto &[k, v] : o.a) a[k] += v; return *this; }
  mstate &operator-=(mstate const &o) { for (auto &[k, v] : o.a) a[k] -= v; return *this; }
  mstate &operator*=(T x) { for (auto &[k, v] : a) v *= x; return *this; }
  mstate &operator/=(T x) { for (auto &[k, v] : a) v /= x; return *this; }
  friend mstate operator+(mstate x, mstate const &y) { return x += y; }
  friend mstate operator-(mstate x, mstate const &y) { return x -= y; }
  friend mstate operator*(mstate x, T y) { return x *= y; }
  friend mstate operator*(T y, mstate x) { return x *= y; }
  friend mstate make_zero_state(mstate const &s) { return mstate{s.n, {}}; }
  template <typename F> friend void foreach (mstate const &s, F f) {
    if (Map) { for (auto &[k, v] : s.a) if (std::abs(v) > 1e-300) f(int(k), v); } // iteration over stored amplitudes
    else for (int k = 0; k < s.n; ++k) f(k, s(k)); // dense: zeros are visited too
  }
};
template <typename T> using edges = std::map<std::pair<int, int>, T>; // (from,to) -> value
template <typename T, bool Map> struct mop {
  edges<T> e;
  mutable long calls = 0;
  bool is_empty() const { return e.empty(); }
  mstate<T, Map> operator()(mstate<T, Map> const &s) const {
    mstate<T, Map> r{s.n, {}};
    for (auto &[ij, v] : e) { T x = s(ij.first); if (x != T(0)) r(ij.second) += v * x; }
    return r;
  }
};
template <typename T> T rnd(kase &c);
template <> double rnd<double>(kase &c) { double x = c.chance(0.1) ? c.r(1e-6, 1e-3) : c.r(0.1, 2); return c.chance(0.5) ? x : -x; }
template <> std::complex<double> rnd<std::complex<double>>(kase &c) {
  if (c.chance(0.3)) return {0, rnd<double>(c)};
  if (c.chance(0.3)) return {rnd<double>(c), 0};
  return {rnd<double>(c), rnd<double>(c)};
}
inline double cj(double x) { return x; }
inline std::complex<double> cj(std::complex<double> x) { return std::conj(x); }
template <typename T> T tiny(kase &c);
template <> double tiny<double>(kase &c) { return c.chance(0.5) ? 0.0 : c.r(-1e-16, 1e-16); }
template <> std::complex<double> tiny<std::complex<double>>(kase &c) { return c.chance(0.5) ? std::complex<double>{0, 0} : std::complex<double>{0, c.r(-1e-16, 1e-16)}; }

template <typename T> void link(kase &c, edges<T> &e, int i, int j) { // Hermitian
  if (i == j) { e[{i, i}] = T(std::real(rnd<T>(c)) + 0.01); return; }
  T v = rnd<T>(c);
  e[{i, j}] = v;
  e[{j, i}] = cj(v);
}
template <typename T> edges<T> rand_graph(kase &c, int n) {
  edges<T> e;
  int kind = int(c.i(0, 6));
  c.trace("H kind=%d", kind);
  std::vector<int> perm(n);
  std::iota(perm.begin(), perm.end(), 0);
  c.shuffle(perm);
  auto L = [&](int a, int b) { if (n) link(c, e, perm[a % n], perm[b % n]); };
  switch (kind) {
    case 0: break;                                                       // zero Hamiltonian
    case 1: for (int k = 0; k < n; ++k) if (c.chance(0.7)) L(k, k); break; // diagonal
    case 2: for (int k = 0; k + 1 < n; ++k) L(k, k + 1); break;          // one long chain in scrambled order
    case 3: { int s = int(c.i(2, 6)); for (int k = 0; k < n; ++k) if (k % s) L(k, k - 1); break; } // chains
    case 4: { int s = int(c.i(2, 6)); for (int k = 0; k < n; ++k) if (k % s) L(k, k - k % s); break; } // stars
    default: { long m = c.i(0, n); for (long k = 0; k < m; ++k) L(int(c.i(0, n - 1)), int(c.i(0, n - 1))); } // random sparse
  }
  // explicit zeros and rounding-size entries do not connect anything
  for (int k = 0; k < int(c.i(0, 4)); ++k) { int i = int(c.i(0, n - 1)), j = int(c.i(0, n - 1)); if (!e.count({i, j})) { T t = tiny<T>(c); e[{i, j}] = t; e[{j, i}] = cj(t); } }
  return e;
}
template <typename T> edges<T> nonzero(edges<T> const &e) {
  edges<T> r;
  for (auto &[k, v] : e) if (std::abs(v) > 1e-14) r[k] = v;
  return r;
}
template <typename SP, typename T> void check_partition(kase &c, SP &sp, ref::uf const &u, int n, const char *when) {
  std::set<uint32_t> used;
  std::map<int, uint32_t> lab;
  for (int k = 0; k < n; ++k) {
    auto l = sp.lookup_basis_state(k);
    used.insert(l);
    int root = u.find(k);
    auto it  = lab.find(root);
    if (it == lab.end()) {
      for (auto &[r, x] : lab) c.check(x != l, "%s: basis states %d and %d are in one subspace but are not connected", when, r, k);
      lab[root] = l;
    } else c.check(it->second == l, "%s: connected basis states %d and %d are in different subspaces %u, %u", when, root, k, it->second, l);
  }
  c.eq(size_t(sp.n_subspaces()), lab.size(), std::string(when) + ": number of subspaces");
  for (auto l : used) c.check(l < sp.n_subspaces(), "%s: subspace number %u out of range", when, l);
  std::vector<int> seen(n, 0);
  foreach (sp, [&](uint32_t k, uint32_t l) { if (k < uint32_t(n)) ++seen[k]; c.check(l == sp.lookup_basis_state(k), "%s: foreach and lookup differ at %u", when, k); });
  for (int k = 0; k < n; ++k) c.check(seen[k] == 1, "%s: foreach visited state %d %d times", when, k, seen[k]);
  vmon::count("partitions_checked");
  vmon::count("subspaces_seen", long(lab.size()));
}
template <typename M, typename T> void check_elements(kase &c, M const &m, edges<T> const &e, const char *what) {
  c.eq(m.size(), e.size(), std::string(what) + ": number of stored matrix elements");
  for (auto &[ij, v] : e) {
    auto it = m.find({uint32_t(ij.first), uint32_t(ij.second)});
    c.check(it != m.end(), "%s: element %d->%d missing", what, ij.first, ij.second);
    c.check(std::abs(it->second - v) < 1e-13 * (1 + std::abs(v)), "%s: element %d->%d has the wrong value", what, ij.first, ij.second);
  }
}
template <typename T, bool Map> void one(kase &c) {
  using st_t = mstate<T, Map>;
  using op_t = mop<T, Map>;
  using SP   = triqs::hilbert_space::space_partition<st_t, op_t>;
  int n      = int(c.chance(0.1) ? c.i(1, 3) : c.i(2, 40));
  c.trace("n=%d map=%d cplx=%d", n, Map, int(sizeof(T) > 8));
  op_t H{rand_graph<T>(c, n)};
  bool hyb = c.chance(0.25), store = c.chance(0.7);
  op_t Y;
  if (hyb) Y.e = rand_graph<T>(c, n);
  st_t st{n, {}};
  if (c.chance(0.3)) for (int k = 0; k < n; ++k) st(k) = rnd<T>(c); // the sample state's amplitudes must not matter
  SP sp = hyb ? SP(st, H, store, Y) : SP(st, H, store);
  auto he = nonzero(H.e);
  auto all = he;
  ref::uf u(n);
  for (auto &[ij, v] : he) u.join(ij.first, ij.second);
  if (hyb) for (auto &[ij, v] : nonzero(Y.e)) { u.join(ij.first, ij.second); all[ij] = v; }
  check_partition<SP, T>(c, sp, u, n, "phase I");
  if (store && !hyb) check_elements(c, sp.get_matrix_elements(), he, "Hamiltonian");
  if (store && hyb) c.eq(sp.get_matrix_elements().size(), all.size(), "stored elements of H and Hyb");
  if (!store) c.eq(sp.get_matrix_elements().size(), size_t(0), "no element is stored when not asked for");
  auto mappings = [&](SP &s, op_t const &o, bool diag) {
    std::set<std::pair<uint32_t, uint32_t>> w;
    for (auto &[ij, v] : nonzero(o.e)) {
      uint32_t a = s.lookup_basis_state(ij.first), b = s.lookup_basis_state(ij.second);
      if (!diag || a == b) w.insert({a, b});
    }
    auto g = s.find_mappings(o, diag);
    c.check(g == w, "find_mappings: %zu connections, expected %zu", g.size(), w.size());
    vmon::count("mappings_checked");
  };
  mappings(sp, H, c.chance(0.5));
  // Phase II with one or several pairs of conjugate operators
  int npairs = int(c.i(1, 4));
  SP copy(sp);
  ref::uf u0 = u;
  for (int p = 0; p < npairs; ++p) {
    edges<T> up;
    int kind = int(c.i(0, 5));
    c.trace("pair kind=%d", kind);
    if (kind == 0) { int nb = 1; while ((2 << nb) <= n) ++nb; int b = int(c.i(0, nb - 1)); for (int k = 0; k < n; ++k) if (!(k >> b & 1) && (k | 1 << b) < n) up[{k, k | 1 << b}] = rnd<T>(c); } // c+ like
    else if (kind == 1) { for (int k = 0; k + 1 < n; ++k) up[{k, k + 1}] = rnd<T>(c); } // ladder: a class is both lower and upper
    else if (kind == 2) { for (long k = c.i(0, 3); k > 0; --k) up[{int(c.i(0, n - 1)), int(c.i(0, n - 1))}] = rnd<T>(c); }
    else { for (long k = c.i(0, n); k > 0; --k) { int i = int(c.i(0, n - 1)), j = int(c.i(0, n - 1)); up[{i, j}] = rnd<T>(c); } }
    for (int k = 0; k < int(c.i(0, 2)); ++k) { int i = int(c.i(0, n - 1)), j = int(c.i(0, n - 1)); if (!up.count({i, j})) up[{i, j}] = tiny<T>(c); }
    edges<T> dn;
    for (auto &[ij, v] : up) dn[{ij.second, ij.first}] = cj(v);
    op_t Cd{up}, C{dn};
    bool st2 = c.chance(0.7);
    auto [ecd, ec] = sp.merge_subspaces(Cd, C, st2);
    auto nu = nonzero(up), nd = nonzero(dn);
    ref::close_under(u, std::vector<edges<T> const *>{&nu, &nd});
    check_partition<SP, T>(c, sp, u, n, "phase II");
    if (st2) { check_elements(c, ecd, nu, "Cd"); check_elements(c, ec, nd, "C"); }
    else c.check(ecd.empty() && ec.empty(), "elements stored though not asked for");
    // every subspace is mapped into at most one
    for (auto *o : {&Cd, &C}) {
      std::map<uint32_t, uint32_t> to;
      for (auto &[a, b] : sp.find_mappings(*o)) { c.check(!to.count(a), "subspace %u is mapped into two subspaces", a); to[a] = b; }
    }
    mappings(sp, Cd, c.chance(0.3));
    vmon::count("merges");
  }
  check_partition<SP, T>(c, copy, u0, n, "copy taken before the merges"); // a copy is independent
  c.nontrivial(vmon::mix(n * 1000 + sp.n_subspaces()));
}
void run() {
  vmon::group("graph_real_map", 800, 20000, one<double, true>);
  vmon::group("graph_real_dense", 400, 10000, one<double, false>);
  vmon::group("graph_complex_map", 400, 10000, one<std::complex<double>, true>);
}
