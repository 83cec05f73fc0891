// H02: imperative operators on states of full and partial Hilbert spaces against the Jordan-Wigner action
#include <vmon.hpp>
#define FOCK_WITH_TRIQS
#include "fock.hpp"
#include <triqs/hilbert_space/imperative_operator.hpp>
#include <triqs/hilbert_space/state.hpp>
#include <triqs/hilbert_space/hilbert_space.hpp>
using vmon::kase;
using namespace triqs::operators;
namespace hs = triqs::hilbert_space;
using fock::cd;
using fock::F;

template <typename S> S scal(kase &c);
template <> double scal<double>(kase &c) { return c.r(-2, 2); }
template <> cd scal<cd>(kase &c) { return {c.r(-2, 2), c.r(-2, 2)}; }
inline double nrm(cd x) { return std::abs(x); }

// random operator as a list of products, together with the triqs operator; many modes possible
template <typename S> std::pair<many_body_operator_generic<S>, fock::expr> rand_op(kase &c, std::vector<fock::idx_t> const &lab, long nterms, std::vector<int> const &modes) {
  many_body_operator_generic<S> o;
  fock::expr e;
  for (long k = 0; k < nterms; ++k) {
    S x = scal<S>(c);
    many_body_operator_generic<S> t(x);
    fock::mono m;
    for (long u = c.i(0, 5); u > 0; --u) {
      int q  = c.pick(modes);
      bool d = c.chance(0.5);
      t *= many_body_operator_generic<S>::make_canonical(d, lab[q]);
      m.push_back({d, q});
    }
    o += t;
    e.push_back({cd(x), m});
  }
  return {o, e};
}
template <typename St> fock::vec to_vec(St const &st) {
  fock::vec v;
  auto const &h = st.get_hilbert();
  foreach (st, [&](int i, auto a) { if (std::abs(cd(a)) != 0) v[h.get_fock_state(i)] += cd(a); });
  return v;
}
inline double dist(fock::vec a, fock::vec const &b) {
  for (auto &[f, x] : b) a[f] -= x;
  double m = 0;
  for (auto &[f, x] : a) { double d = std::abs(x); if (!(d <= m)) m = d; }
  return m;
}
template <typename S> hs::fundamental_operator_set make_fops(kase &c, std::vector<fock::idx_t> const &lab) {
  hs::fundamental_operator_set f;
  for (auto &l : lab) f.insert_from_indices_t(l);
  return f;
}
// ----- full space, up to 8 modes
template <typename S, bool Map> void full(kase &c) {
  int n    = int(c.i(1, 7));
  auto lab = fock::rand_labels(c, n); // in random (unsorted) order: mode order is that of the set, not of the labels
  auto fo  = make_fops<S>(c, lab);
  hs::hilbert_space H(fo);
  using st_t = hs::state<hs::hilbert_space, S, Map>;
  using op_t = hs::imperative_operator<hs::hilbert_space, S, false>;
  std::vector<int> modes;
  for (int k = 0; k < n; ++k) modes.push_back(k);
  auto [o, e] = rand_op<S>(c, lab, c.chance(0.05) ? 0 : c.i(1, 6), modes);
  op_t op(o, fo);
  c.check(op.is_empty() == o.is_zero(), "is_empty of an imperative operator");
  st_t st(H), st2(H);
  long nz = c.chance(0.05) ? 0 : c.i(1 << (n - 1), 2 << n);
  for (long k = 0; k < nz; ++k) st(c.i(0, H.size() - 1)) = scal<S>(c);
  for (long k = 0; k < 3; ++k) st2(c.i(0, H.size() - 1)) = scal<S>(c);
  auto v = to_vec(st), v2 = to_vec(st2);
  std::ostringstream os; os << o;
  c.trace("n=%d %s on %s%zu amplitudes", n, os.str().c_str(), Map ? "map " : "dense ", v.size());
  auto r = op(st);
  c.check(dist(to_vec(r), fock::act(e, v)) < 1e-11, "operator action on a state of the full space differs from the matrix by %g", dist(to_vec(r), fock::act(e, v)));
  c.check(dist(to_vec(st), v) == 0, "the operator changed its argument");
  vmon::count("actions");
  // a basis state constructor
  F b = c.i(0, H.size() - 1);
  st_t bs(H, b);
  c.check(dist(to_vec(op(bs)), fock::act(e, {{b, 1}})) < 1e-11, "operator action on a basis state");
  // linear algebra of states
  S x = scal<S>(c), y = scal<S>(c);
  auto lin = st * x + y * st2 - st2;
  fock::vec w;
  for (auto &[f, a] : v) w[f] += a * cd(x);
  for (auto &[f, a] : v2) w[f] += a * (cd(y) - 1.0);
  c.check(dist(to_vec(lin), w) < 1e-12, "linear combination of states");
  lin /= x; lin -= st; for (auto &[f, a] : w) a /= cd(x);
  for (auto &[f, a] : v) w[f] -= a;
  c.check(dist(to_vec(lin), w) < 1e-9, "in-place operations on states");
  cd dp = 0;
  for (auto &[f, a] : v) if (auto it = v2.find(f); it != v2.end()) dp += std::conj(a) * it->second;
  c.close(cd(dot_product(st, st2)), dp, 1e-12, "scalar product");
  c.close(cd(dot_product(st, op(st2))), [&] { cd t = 0; auto u = fock::act(e, v2); for (auto &[f, a] : v) if (auto it = u.find(f); it != u.end()) t += std::conj(a) * it->second; return t; }(), 1e-10, "matrix element");
  auto z = make_zero_state(st);
  c.check(to_vec(z).empty() && z.size() == H.size(), "make_zero_state");
  // partial space and projections
  hs::sub_hilbert_space P(3);
  std::vector<F> fs;
  for (F f = 0; f < F(H.size()); ++f) if (c.chance(0.4)) fs.push_back(f);
  c.shuffle(fs);
  for (auto f : fs) P.add_fock_state(f);
  using sst = hs::state<hs::sub_hilbert_space, S, Map>;
  auto pr = project<sst>(st, P);
  fock::vec pv;
  for (auto f : fs) if (v.count(f)) pv[f] = v[f];
  c.check(dist(to_vec(pr), pv) == 0, "projection on a partial space");
  auto back = project<hs::state<hs::hilbert_space, S, !Map>>(pr, H);
  c.check(dist(to_vec(back), pv) == 0, "embedding of a partial space");
  vmon::count("projections");
  // coefficient update
  auto op2 = op;
  op2.update([](S &q) { q *= S(2); });
  for (auto &t : e) t.coef *= 2.0;
  c.check(dist(to_vec(op2(st)), fock::act(e, v)) < 1e-11, "action after update of the coefficients");
  if (!v.empty() && !o.is_zero()) c.nontrivial();
}
// ----- partial spaces with a connection map
template <typename S, bool Map> void partial(kase &c) {
  int n    = int(c.i(2, 6));
  auto lab = fock::rand_labels(c, n);
  auto fo  = make_fops<S>(c, lab);
  std::vector<int> modes;
  for (int k = 0; k < n; ++k) modes.push_back(k);
  // subspaces of fixed particle number (in scrambled order); operators that change N by one fixed amount
  std::vector<int> order(n + 1);
  for (int k = 0; k <= n; ++k) order[k] = k;
  c.shuffle(order);
  std::vector<int> where(n + 1);
  std::vector<hs::sub_hilbert_space> sp;
  for (int k = 0; k <= n; ++k) {
    where[order[k]] = k;
    sp.emplace_back(k);
    std::vector<F> fs;
    for (F f = 0; f < (F(1) << n); ++f) if (__builtin_popcountll(f) == order[k]) fs.push_back(f);
    c.shuffle(fs);
    for (auto f : fs) sp.back().add_fock_state(f);
  }
  int dn = int(c.i(-2, 2));
  many_body_operator_generic<S> o;
  fock::expr e;
  for (long k = c.i(1, 5); k > 0; --k) {
    std::vector<bool> dag;
    for (int u = 0; u < std::abs(dn); ++u) dag.push_back(dn > 0);
    for (long u = c.i(0, 2); u > 0; --u) { dag.push_back(true); dag.push_back(false); }
    c.shuffle(dag);
    S x = scal<S>(c);
    many_body_operator_generic<S> t(x);
    fock::mono m;
    for (bool d : dag) { int q = c.pick(modes); t *= many_body_operator_generic<S>::make_canonical(d, lab[q]); m.push_back({d, q}); }
    o += t;
    e.push_back({cd(x), m});
  }
  std::vector<int> map(n + 1, -1);
  for (int k = 0; k <= n; ++k) { int t = order[k] + dn; if (t >= 0 && t <= n) map[k] = where[t]; }
  hs::imperative_operator<hs::sub_hilbert_space, S, true> op(o, fo, map, &sp);
  int from = int(c.i(0, n));
  using st_t = hs::state<hs::sub_hilbert_space, S, Map>;
  st_t st(sp[from]);
  for (long k = c.i(1, 5); k > 0; --k) st(c.i(0, sp[from].size() - 1)) = scal<S>(c);
  auto v = to_vec(st);
  c.trace("n=%d dn=%d from N=%d", n, dn, order[from]);
  if (map[from] < 0) {
    auto w = fock::act(e, v);
    c.check(w.empty(), "internal");
    vmon::count("no_target_subspace");
  } else {
    auto r = op(st);
    c.check(&r.get_hilbert() == &sp[map[from]], "the image lives in the wrong subspace");
    c.check(dist(to_vec(r), fock::act(e, v)) < 1e-11, "operator action between subspaces differs from the matrix by %g", dist(to_vec(r), fock::act(e, v)));
    vmon::count("actions_with_map");
    c.nontrivial(order[from]);
  }
}
// ----- up to 64 modes: signs
template <typename S> void wide(kase &c) {
  int n    = int(c.chance(0.3) ? 64 : c.i(9, 63));
  std::vector<fock::idx_t> lab;
  for (int k = 0; k < n; ++k) lab.push_back({std::string(k % 2 ? "up" : "dn"), long(k * 37 % 101)});
  auto fo = make_fops<S>(c, lab);
  std::vector<int> modes;
  for (int k = 0; k < n; ++k) modes.push_back(k);
  auto [o, e] = rand_op<S>(c, lab, c.i(1, 4), modes);
  // a start set and its closure under the operator, as a partial space
  std::set<F> S0;
  F mask = n == 64 ? ~F(0) : (F(1) << n) - 1;
  for (int k = 0; k < 12; ++k) {
    F f = c.u64() & mask;
    if (c.chance(0.3)) f = mask & ~(F(1) << c.i(0, n - 1)); // nearly full
    // help the first products to act: set the bits needed
    if (c.chance(0.7)) for (auto &q : c.pick(e).m) { if (q.dag) f &= ~(F(1) << q.mode); else f |= F(1) << q.mode; }
    S0.insert(f);
  }
  std::vector<F> start(S0.begin(), S0.end());
  for (auto f : start) for (auto &[g, x] : fock::act(e, {{f, 1}})) S0.insert(g);
  // images of normal ordered terms may visit states whose total amplitude cancels: include images of every normal ordered term
  auto ne = fock::from_op(o, [&](fock::idx_t const &x) { return fo[x]; });
  for (auto f : start) for (auto &t : ne) { F g = f; int s = 1; if (fock::act(t.m, g, s)) S0.insert(g); }
  hs::sub_hilbert_space P(0);
  for (auto f : S0) P.add_fock_state(f);
  hs::imperative_operator<hs::sub_hilbert_space, S, false> op(o, fo);
  c.trace("n=%d terms=%zu", n, e.size());
  long hit = 0;
  for (auto f : start) {
    hs::state<hs::sub_hilbert_space, S, true> st(P, P.get_state_index(f));
    auto w = fock::act(e, {{f, 1}});
    auto g = to_vec(op(st));
    double d = dist(g, w);
    c.check(d < 1e-11, "action on state %llx of %d modes differs by %g", (unsigned long long)f, n, d);
    hit += !w.empty();
    vmon::count("wide_actions");
  }
  if (hit) c.nontrivial(hit);
}
void run() {
  vmon::group("full_real_map", 200, 6000, full<double, true>);
  vmon::group("full_real_dense", 150, 6000, full<double, false>);
  vmon::group("full_complex_map", 150, 6000, full<cd, true>);
  vmon::group("full_complex_dense", 100, 4000, full<cd, false>);
  vmon::group("partial_real_map", 200, 6000, partial<double, true>);
  vmon::group("partial_complex_dense", 200, 6000, partial<cd, false>);
  vmon::group("wide_real", 150, 5000, wide<double>);
  vmon::group("wide_complex", 100, 3000, wide<cd>);
}
