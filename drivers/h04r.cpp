// H04: space_partition with real many-body Hamiltonians, states and imperative operators
#include <vmon.hpp>
#include <functional>
#define FOCK_WITH_TRIQS
#include "fock.hpp"
#include "h04_oracle.hpp"
#include <triqs/hilbert_space/imperative_operator.hpp>
#include <triqs/hilbert_space/state.hpp>
#include <triqs/hilbert_space/space_partition.hpp>
using vmon::kase;
using namespace triqs::operators;
namespace hs = triqs::hilbert_space;
using fock::cd;
using fock::F;
template <typename S> S scal(kase &c);
template <> double scal<double>(kase &c) { return c.r(0.2, 2) * (c.chance(0.5) ? 1 : -1); }
template <> cd scal<cd>(kase &c) { return {scal<double>(c), c.chance(0.3) ? 0.0 : scal<double>(c)}; }

template <typename S, bool Map> void one(kase &c) {
  using op_t = many_body_operator_generic<S>;
  int n      = int(c.i(1, 5));
  auto lab   = fock::rand_labels(c, n);
  hs::fundamental_operator_set f(lab);
  auto C = [&](int i) { return op_t::make_canonical(false, lab[i]); };
  auto D = [&](int i) { return op_t::make_canonical(true, lab[i]); };
  auto R = [&]() { return int(c.i(0, n - 1)); };
  auto herm = [&](int terms, bool pairing) {
    op_t h;
    for (int k = 0; k < terms; ++k) {
      int kind = int(c.i(0, pairing ? 6 : 4));
      int i = R(), j = R(), p = R(), q = R();
      op_t t;
      S x = scal<S>(c);
      c.trace("%d(%d%d%d%d)", kind, i, j, p, q);
      switch (kind) {
        case 0: t = D(i) * C(i); break;
        case 1: t = x * D(i) * C(j); break;
        case 2: t = D(i) * C(i) * D(j) * C(j); break;
        case 3: t = x * D(i) * D(j) * C(p) * C(q); break;
        case 4: t = x * (op_t(S(1)) - D(i) * C(i)) * D(p) * C(q); break; // correlated hopping
        case 5: t = x * D(i) * D(j); break;
        default: t = x * D(i) * C(j) * D(p); break;
      }
      h += t + dagger(t);
    }
    return h;
  };
  c.trace("n=%d", n);
  auto h     = herm(int(c.i(0, 4)), c.chance(0.2));
  bool hyb   = c.chance(0.3);
  auto y     = hyb ? herm(int(c.i(1, 2)), false) : op_t{};
  using hil  = hs::hilbert_space;
  using st_t = hs::state<hil, S, Map>;
  using io_t = hs::imperative_operator<hil, S, false>;
  using SP   = hs::space_partition<st_t, io_t>;
  hil H(f);
  st_t st(H);
  io_t ih(h, f), iy(y, f);
  SP sp = hyb ? SP(st, ih, true, iy) : SP(st, ih);
  int N = H.size();
  auto elems = [&](op_t const &o) {
    auto m = fock::dense(fock::from_op(o, [&](fock::idx_t const &x) { return f[x]; }), n);
    std::map<std::pair<int, int>, cd> e;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (std::abs(m(j, i)) > 1e-12) e[{i, j}] = m(j, i);
    return e;
  };
  auto eh = elems(h), ey = elems(y);
  ref::uf u(N);
  for (auto &[ij, v] : eh) u.join(ij.first, ij.second);
  for (auto &[ij, v] : ey) u.join(ij.first, ij.second);
  auto chk = [&](const char *when) {
    std::map<int, uint32_t> l;
    std::set<uint32_t> used;
    for (int k = 0; k < N; ++k) {
      auto x  = sp.lookup_basis_state(k);
      auto it = l.find(u.find(k));
      if (it == l.end()) { c.check(!used.count(x), "%s: unconnected states share subspace %u", when, x); l[u.find(k)] = x; used.insert(x); }
      else c.check(it->second == x, "%s: connected state %d is in subspace %u, expected %u", when, k, x, it->second);
    }
    c.eq(size_t(sp.n_subspaces()), l.size(), std::string(when) + ": number of subspaces");
    c.check(used.empty() || *used.rbegin() + 1 == used.size(), "%s: subspaces are not consecutively numbered", when);
    vmon::count("partitions_checked");
  };
  auto me = [&](auto const &m, auto const &e, const char *what) {
    c.eq(m.size(), e.size(), std::string(what) + ": number of matrix elements");
    for (auto &[ij, v] : e) { auto it = m.find({uint32_t(ij.first), uint32_t(ij.second)}); c.check(it != m.end() && std::abs(cd(it->second) - v) < 1e-12, "%s: element %d->%d", what, ij.first, ij.second); }
  };
  chk("phase I");
  if (!hyb) me(sp.get_matrix_elements(), eh, "Hamiltonian");
  std::vector<int> order(n);
  for (int k = 0; k < n; ++k) order[k] = k;
  c.shuffle(order);
  for (int q : order) {
    op_t up = D(q);
    if (c.chance(0.15)) up = scal<S>(c) * D(q) + scal<S>(c) * D(R()); // a creation operator in another basis
    if (c.chance(0.1)) up = scal<S>(c) * D(q) * C(R());
    io_t iu(up, f), id(dagger(up), f);
    auto [a, b] = sp.merge_subspaces(iu, id, true);
    auto ea = elems(up), eb = elems(dagger(up));
    ref::close_under(u, std::vector<std::map<std::pair<int, int>, cd> const *>{&ea, &eb});
    chk("phase II");
    me(a, ea, "creation operator");
    me(b, eb, "annihilation operator");
    std::set<std::pair<uint32_t, uint32_t>> w;
    for (auto &[ij, v] : ea) w.insert({sp.lookup_basis_state(ij.first), sp.lookup_basis_state(ij.second)});
    c.check(sp.find_mappings(iu) == w, "find_mappings of the creation operator");
    std::set<uint32_t> from;
    for (auto &x : w) c.check(from.insert(x.first).second, "subspace %u is mapped into two subspaces", x.first);
    vmon::count("merges");
  }
  c.nontrivial(sp.n_subspaces());
}
void run() {
  vmon::group("fermions_real_map", 300, 8000, one<double, true>);
  vmon::group("fermions_real_dense", 150, 4000, one<double, false>);
  vmon::group("fermions_complex_map", 200, 6000, one<cd, true>);
}
