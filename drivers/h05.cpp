// H05: coefficient extraction inverts the construction of operators
#include <vmon.hpp>
#define FOCK_WITH_TRIQS
#include "fock.hpp"
#include <triqs/operators/util/extractors.hpp>
using vmon::kase;
using namespace triqs::operators;
namespace hs = triqs::hilbert_space;
namespace ut = triqs::operators::utils;
using fock::cd;
using fock::idx_t;
using triqs::utility::real_or_complex;

template <typename S> S scal(kase &c);
template <> double scal<double>(kase &c) { return c.r(0.1, 2) * (c.chance(0.5) ? 1 : -1); }
template <> cd scal<cd>(kase &c) { return {scal<double>(c), scal<double>(c)}; }
template <> real_or_complex scal<real_or_complex>(kase &c) { return c.chance(0.6) ? real_or_complex(scal<double>(c)) : real_or_complex(scal<cd>(c)); }
template <typename S> using op_t = many_body_operator_generic<S>;
template <typename S> op_t<S> C(idx_t const &i) { return op_t<S>::make_canonical(false, i); }
template <typename S> op_t<S> D(idx_t const &i) { return op_t<S>::make_canonical(true, i); }

// something that is neither of the wanted form
template <typename S> op_t<S> junk(kase &c, std::vector<idx_t> const &l, int exclude) {
  while (true) {
    int k  = int(c.i(0, 7));
    auto i = c.pick(l), j = c.pick(l), p = c.pick(l), q = c.pick(l);
    op_t<S> r;
    if (k == 0) r = op_t<S>(scal<S>(c));
    if (k == 1) r = C<S>(i);
    if (k == 2) r = D<S>(i) * D<S>(j);
    if (k == 3) r = C<S>(i) * C<S>(j);
    if (k == 4 && exclude != 2) r = D<S>(i) * C<S>(j);
    if (k == 5 && exclude != 4) r = D<S>(i) * D<S>(j) * C<S>(p) * C<S>(q);
    if (k == 6) r = D<S>(i) * D<S>(j) * D<S>(p) * C<S>(q);
    if (k == 7) { auto s = c.pick(l), t = c.pick(l); r = D<S>(i) * D<S>(j) * D<S>(p) * C<S>(q) * C<S>(s) * C<S>(t); }
    if (!r.is_zero()) { c.trace("junk%d", k); return r; }
  }
}
template <typename S> double diff(op_t<S> const &a, op_t<S> const &b) {
  double m = 0;
  for (auto const &t : a - b) m = std::max(m, std::abs(fock::num(t.coef)));
  return m;
}
template <typename S> void quad(kase &c) {
  int n    = int(c.i(1, 6));
  auto lab = fock::rand_labels(c, n);
  std::map<std::tuple<idx_t, idx_t>, S> ref;
  op_t<S> h;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (c.chance(0.5)) { S x = scal<S>(c); ref[{lab[i], lab[j]}] = x; h += x * D<S>(lab[i]) * C<S>(lab[j]); }
  c.trace("n=%d terms=%zu", n, ref.size());
  auto cmp = [&](auto const &d, const char *what) {
    c.eq(d.size(), ref.size(), std::string(what) + ": number of coefficients");
    for (auto &[k, x] : ref) { auto it = d.find(k); c.check(it != d.end() && std::abs(fock::num(it->second) - fock::num(x)) < 1e-14, "%s: wrong or missing coefficient", what); }
  };
  auto d = ut::extract_h_dict(h);
  cmp(d, "extract_h_dict");
  op_t<S> back;
  for (auto &[k, x] : d) back += x * D<S>(std::get<0>(k)) * C<S>(std::get<1>(k));
  c.check(back == h, "operator rebuilt from its quadratic coefficients differs");
  // junk is refused or ignored
  auto bad = h + junk<S>(c, lab, 2);
  c.throws([&] { ut::extract_h_dict(bad); }, "quadratic extraction of another operator");
  cmp(ut::extract_h_dict(bad, true), "extract_h_dict ignoring junk");
  // matrices
  hs::fundamental_operator_set f(lab);
  auto m = ut::dict_to_matrix<cd>(ut::dict2_t<real_or_complex>([&] { ut::dict2_t<real_or_complex> r; for (auto &[k, x] : d) r[k] = real_or_complex(fock::num(x)); return r; }()), f);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    auto it = ref.find({lab[i], lab[j]});
    c.close(cd(m(i, j)), it == ref.end() ? cd(0) : fock::num(it->second), 1e-14, "dict_to_matrix element");
  }
  if (!ref.empty()) {
    hs::fundamental_operator_set part(std::vector<idx_t>{});
    c.throws([&] { ut::dict_to_matrix<cd>(ut::dict2_t<cd>{{std::make_tuple(lab[0], lab[0]), cd(1)}}, part); }, "dict_to_matrix with a key outside the set");
  }
  auto q = ut::quadratic_terms(h + op_t<S>(S(2.0)) );
  c.check(q == h, "quadratic_terms");
  vmon::count("extractions", 4);
  if (n > 1 && ref.size() > 1) c.nontrivial();
}
template <typename S> void dens(kase &c) {
  int n    = int(c.i(2, 6));
  auto lab = fock::rand_labels(c, n);
  std::map<std::tuple<idx_t, idx_t>, S> ref;
  op_t<S> h;
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (c.chance(0.6)) {
    S x = scal<S>(c);
    ref[{lab[i], lab[j]}] = x; ref[{lab[j], lab[i]}] = x;
    h += x * D<S>(lab[i]) * C<S>(lab[i]) * D<S>(lab[j]) * C<S>(lab[j]);
  }
  c.trace("n=%d terms=%zu", n, ref.size());
  auto cmp = [&](auto const &d, const char *what) {
    c.eq(d.size(), ref.size(), std::string(what) + ": number of coefficients");
    for (auto &[k, x] : ref) { auto it = d.find(k); c.check(it != d.end() && std::abs(fock::num(it->second) - fock::num(x)) < 1e-14, "%s: wrong or missing coefficient", what); }
  };
  auto d = ut::extract_U_dict2(h);
  cmp(d, "extract_U_dict2");
  op_t<S> back;
  for (auto &[k, x] : d) back += (S(0.5) * x) * D<S>(std::get<0>(k)) * C<S>(std::get<0>(k)) * D<S>(std::get<1>(k)) * C<S>(std::get<1>(k));
  c.check(diff(back, h) < 1e-13, "operator rebuilt from its density-density coefficients differs");
  auto j = junk<S>(c, lab, 4);
  c.throws([&] { ut::extract_U_dict2(h + j); }, "density-density extraction of another operator");
  cmp(ut::extract_U_dict2(h + j, true), "extract_U_dict2 ignoring junk");
  if (n >= 4) { // a quartic term that is not density-density
    std::vector<int> p{0, 1, 2, 3};
    c.shuffle(p);
    auto t = D<S>(lab[p[0]]) * D<S>(lab[p[1]]) * C<S>(lab[p[2]]) * C<S>(lab[c.chance(0.5) ? p[3] : p[0]]);
    c.throws([&] { ut::extract_U_dict2(h + scal<S>(c) * t); }, "density-density extraction of an exchange or correlated hopping term");
    cmp(ut::extract_U_dict2(h + scal<S>(c) * t, true), "extract_U_dict2 ignoring exchange");
  }
  vmon::count("extractions", 3);
  if (!ref.empty()) c.nontrivial();
}
template <typename S> void quartic(kase &c) {
  int n    = int(c.i(2, 5));
  auto lab = fock::rand_labels(c, n);
  op_t<S> h;
  for (long k = c.i(1, 8); k > 0; --k) h += scal<S>(c) * D<S>(c.pick(lab)) * D<S>(c.pick(lab)) * C<S>(c.pick(lab)) * C<S>(c.pick(lab));
  std::ostringstream os; os << h;
  c.trace("n=%d %s", n, os.str().c_str());
  auto d = ut::extract_U_dict4(h);
  // h = 1/2 sum U_ijkl c+_i c+_j c_l c_k and U has the antisymmetry of the form
  auto rebuild = [&](auto const &d) { op_t<S> b; for (auto &[k, x] : d) { auto &[i, j, kk, l] = k; b += (S(0.5) * x) * D<S>(i) * D<S>(j) * C<S>(l) * C<S>(kk); } return b; };
  c.check(diff(rebuild(d), h) < 1e-12, "operator rebuilt from its quartic coefficients differs by %g", diff(rebuild(d), h));
  for (auto &[key, x] : d) {
    auto &[i, j, k, l] = key;
    auto u = [&](idx_t a, idx_t b, idx_t e, idx_t f) { auto it = d.find({a, b, e, f}); return it == d.end() ? cd(0) : fock::num(it->second); };
    c.check(std::abs(u(j, i, l, k) - fock::num(x)) < 1e-14 && std::abs(u(j, i, k, l) + fock::num(x)) < 1e-14, "the quartic coefficients are not antisymmetrised");
  }
  if (!h.is_zero()) c.check(!d.empty(), "no coefficient extracted");
  auto j = junk<S>(c, lab, 4);
  c.throws([&] { ut::extract_U_dict4(h + j); }, "quartic extraction of another operator");
  c.check(diff(rebuild(ut::extract_U_dict4(h + j, true)), h) < 1e-12, "extract_U_dict4 ignoring junk");
  hs::fundamental_operator_set f(lab);
  auto m = ut::dict_to_matrix<cd>([&] { ut::dict4_t<real_or_complex> r; for (auto &[k, x] : d) r[k] = real_or_complex(fock::num(x)); return r; }(), f);
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int e = 0; e < n; ++e) for (int g = 0; g < n; ++g) {
    auto it = d.find({lab[a], lab[b], lab[e], lab[g]});
    c.close(cd(m(a, b, e, g)), it == d.end() ? cd(0) : fock::num(it->second), 1e-14, "tensor element");
  }
  auto all = h + op_t<S>(S(1.5)) + scal<S>(c) * D<S>(lab[0]) * C<S>(lab[1]);
  c.check(ut::quartic_terms(all) == h, "quartic_terms");
  c.check(ut::filter_op(all, 0) == op_t<S>(S(1.5)), "filter_op(0)");
  c.check((ut::quartic_terms(all) + ut::quadratic_terms(all) + ut::filter_op(all, 0)) == all, "filtered parts do not add up");
  vmon::count("extractions", 4);
  if (!h.is_zero()) c.nontrivial();
}
template <typename S> void blocks(kase &c) {
  hs::gf_struct_t gs;
  for (long k = 0, n = c.i(1, 3); k < n; ++k) gs.emplace_back(std::vector<std::string>{"up", "down", "a"}[k], c.i(1, 3));
  nda::array<nda::matrix<S>, 1> m(gs.size());
  op_t<S> h;
  for (size_t b = 0; b < gs.size(); ++b) {
    auto [name, n] = gs[b];
    m(b) = nda::zeros<S>(n, n);
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (c.chance(0.7)) { m(b)(i, j) = scal<S>(c); h += m(b)(i, j) * D<S>({name, i}) * C<S>({name, j}); }
  }
  c.trace("blocks=%zu n0=%ld", gs.size(), long(gs[0].second));
  auto cmp = [&](auto const &r, const char *what) {
    c.eq(size_t(r.size()), gs.size(), std::string(what) + ": number of blocks");
    for (size_t b = 0; b < gs.size(); ++b) for (long i = 0; i < gs[b].second; ++i) for (long j = 0; j < gs[b].second; ++j) c.close(cd(r(b)(i, j)), cd(m(b)(i, j)), 1e-14, std::string(what) + ": matrix element");
  };
  cmp(ut::block_matrix_from_op(h, gs), "block_matrix_from_op");
  std::vector<idx_t> lab;
  for (auto &[b, n] : gs) for (long i = 0; i < n; ++i) lab.push_back({b, i});
  auto j = junk<S>(c, lab, 2);
  if (gs.size() > 1 && c.chance(0.3)) { j = D<S>({gs[0].first, 0l}) * C<S>({gs[1].first, 0l}); c.trace("interblock"); }
  c.throws([&] { ut::block_matrix_from_op(h + j, gs); }, "block matrix of an operator with other terms");
  cmp(ut::block_matrix_from_op(h + j, gs, true), "block_matrix_from_op ignoring other terms");
  // blocks and indices outside the structure are refused
  auto [nm, sz] = gs[c.i(0, long(gs.size()) - 1)];
  long out = c.chance(0.5) ? sz + c.i(0, 2) : -1 - c.i(0, 1);
  auto o1  = c.chance(0.5) ? D<S>({nm, 0l}) * C<S>({nm, out}) : D<S>({nm, out}) * C<S>({nm, 0l});
  if (c.chance(0.4)) o1 = D<S>({std::string("nowhere"), 0l}) * C<S>({std::string("nowhere"), 0l});
  c.throws([&] { ut::block_matrix_from_op(h + o1, gs); }, "block matrix of an operator outside the block structure");
  vmon::count("extractions", 3);
  c.nontrivial();
}
void op_from_blocks(kase &c) {
  using S = real_or_complex;
  hs::gf_struct_t gs;
  for (long k = 0, n = c.i(1, 3); k < n; ++k) gs.emplace_back(std::vector<std::string>{"up", "down", "a"}[k], c.i(1, 3));
  nda::array<nda::matrix<S>, 1> m(gs.size());
  op_t<S> h;
  for (size_t b = 0; b < gs.size(); ++b) {
    auto [name, n] = gs[b];
    m(b) = nda::zeros<S>(n, n);
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (c.chance(0.7)) { m(b)(i, j) = scal<S>(c); h += m(b)(i, j) * D<S>({name, i}) * C<S>({name, j}); }
  }
  c.check(ut::op_from_block_matrix(m, gs) == h, "op_from_block_matrix differs from the direct sum");
  auto r = ut::block_matrix_from_op(ut::op_from_block_matrix(m, gs), gs);
  for (size_t b = 0; b < gs.size(); ++b) for (long i = 0; i < gs[b].second; ++i) for (long j = 0; j < gs[b].second; ++j) c.close(fock::num(r(b)(i, j)), fock::num(m(b)(i, j)), 1e-14, "block matrix round trip");
  c.trace("blocks=%zu", gs.size());
  c.nontrivial(c.u64());
}
void run() {
  vmon::group("quadratic_rc", 150, 4000, quad<real_or_complex>);
  vmon::group("quadratic_complex", 80, 2000, quad<cd>);
  vmon::group("density_rc", 150, 4000, dens<real_or_complex>);
  vmon::group("density_real", 80, 2000, dens<double>);
  vmon::group("quartic_rc", 150, 4000, quartic<real_or_complex>);
  vmon::group("quartic_complex", 80, 2000, quartic<cd>);
  vmon::group("block_real", 100, 2000, blocks<double>);
  vmon::group("block_complex", 100, 2000, blocks<cd>);
  vmon::group("op_from_blocks", 80, 2000, op_from_blocks);
}
