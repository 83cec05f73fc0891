// H01: operator algebra against dense Jordan-Wigner matrices, normal form, dagger, HDF5
#include <vmon.hpp>
#define FOCK_WITH_TRIQS
#include "fock.hpp"
#include <h5/h5.hpp>
using vmon::kase;
using namespace triqs::operators;
using fock::cd;
using fock::mat;
using triqs::utility::real_or_complex;

template <typename S> S scal(kase &c);
template <> double scal<double>(kase &c) { static const std::vector<double> v{1, -1, 2, 0.5, -0.5, 0, 3, 0.25, -2}; return c.pick(v); } // exactly representable: cancellations are exact
template <> cd scal<cd>(kase &c) { return {scal<double>(c), scal<double>(c)}; }
template <> real_or_complex scal<real_or_complex>(kase &c) { return c.chance(0.6) ? real_or_complex(scal<double>(c)) : real_or_complex(scal<cd>(c)); }

template <typename S> struct world {
  using op_t = many_body_operator_generic<S>;
  int n;
  std::vector<fock::idx_t> lab;
  std::map<fock::idx_t, int> pos;
  kase &c;
  world(kase &c_) : n(int(c_.i(1, 4))), lab(fock::rand_labels(c_, n)), c(c_) { for (int k = 0; k < n; ++k) pos[lab[k]] = k; }
  struct pair { op_t o; mat m; };
  mat of(op_t const &o) { return fock::dense(fock::from_op(o, [&](fock::idx_t const &x) { return pos.at(x); }), n); }
  pair leaf() {
    int k = int(c.i(0, n - 1));
    bool d = c.chance(0.5);
    c.trace("%s%d", d ? "c+" : "c", k);
    return {op_t::make_canonical(d, lab[k]), fock::dense({{1, {{d, k}}}}, n)};
  }
  pair tree(int depth) {
    if (depth == 0 || c.chance(0.1)) return leaf();
    int what = int(c.i(0, 15));
    auto s   = [&]() { return scal<S>(c); };
    auto I   = mat::id(1 << n);
    if (what < 5) { auto a = tree(depth - 1), b = tree(depth - 1); c.trace("*"); return {a.o * b.o, a.m * b.m}; }
    if (what < 7) { auto a = tree(depth - 1), b = tree(depth - 1); c.trace("+"); return {a.o + b.o, a.m + b.m}; }
    if (what < 9) { auto a = tree(depth - 1), b = tree(depth - 1); c.trace("-"); return {a.o - b.o, a.m - b.m}; }
    auto a = tree(depth - 1);
    auto x = s();
    cd y   = fock::num(x);
    switch (what) {
      case 9: c.trace("*s"); return {c.chance(0.5) ? op_t(a.o * x) : op_t(x * a.o), y * a.m};
      case 10: c.trace("+s"); return {c.chance(0.5) ? op_t(a.o + x) : op_t(x + a.o), a.m + y * I};
      case 11: c.trace("s-"); if (c.chance(0.5)) return {x - a.o, y * I - a.m}; return {a.o - x, a.m - y * I};
      case 12: c.trace("neg"); return {-a.o, cd(-1) * a.m};
      case 13: c.trace("dag"); return {dagger(a.o), a.m.dagger()};
      case 14: if (y == cd(0)) return a; c.trace("/s"); return {a.o / x, (cd(1) / y) * a.m};
      default: c.trace("op(s)"); return {op_t(x), y * I};
    }
  }
  // normal form: creation operators first in increasing index order, then annihilation operators in decreasing order, no zero coefficient
  void normal(op_t const &o, const char *what) {
    std::set<std::vector<std::pair<bool, fock::idx_t>>> seen;
    for (auto const &t : o) {
      std::vector<std::pair<bool, fock::idx_t>> key;
      for (auto const &x : t.monomial) key.emplace_back(x.dagger, x.indices);
      c.check(seen.insert(key).second, "%s: a monomial appears twice", what);
      c.check(std::abs(fock::num(t.coef)) > 1e-15, "%s: a zero term is kept", what);
      for (size_t k = 1; k < key.size(); ++k) {
        auto &a = key[k - 1], &b = key[k];
        bool ok = a.first != b.first ? a.first : (a.first ? a.second < b.second : b.second < a.second);
        c.check(ok, "%s: monomial is not normal ordered", what);
      }
      vmon::count("monomials_checked");
    }
  }
  void same(op_t const &o, mat const &m, const char *what) {
    normal(o, what);
    double scale = 1 + m.maxabs();
    double d     = of(o).dist(m);
    c.check(d <= 1e-11 * scale, "%s: operator differs from its matrix by %g", what, d);
    if (m.maxabs() < 1e-13) c.check(o.is_zero(), "%s: a vanishing operator is not zero", what);
    if (o.is_zero()) c.check(m.maxabs() <= 1e-11 * scale, "%s: dropped a nonvanishing operator", what);
  }
};
template <typename S> S conj_s(S x) { using triqs::utility::conj; return conj(x); }
template <typename S> void algebra(kase &c) {
  world<S> w(c);
  using op_t = many_body_operator_generic<S>;
  c.trace("modes=%d", w.n);
  auto a = w.tree(int(c.i(1, 4)));
  w.same(a.o, a.m, "expression");
  auto b = w.tree(int(c.i(1, 3)));
  w.same(b.o, b.m, "expression");
  // equal by the relations <=> equal objects
  c.check(((a.o * b.o) == (a.o * b.o)) && (a.o == a.o), "an operator differs from itself");
  bool eqm = (a.m - b.m).maxabs() < 1e-12;
  c.check((a.o == b.o) == eqm, "operator== says %d, matrices say %d", int(a.o == b.o), int(eqm));
  w.same(dagger(a.o * b.o), b.m.dagger() * a.m.dagger(), "dagger of a product");
  c.check(dagger(dagger(a.o)) == a.o, "dagger is not an involution");
  w.same(real(a.o) , [&] { fock::expr e; for (auto t : fock::from_op(a.o, [&](fock::idx_t const &x) { return w.pos.at(x); })) { t.coef = t.coef.real(); e.push_back(t); } return fock::dense(e, w.n); }(), "real part");
  w.same(imag(a.o) , [&] { fock::expr e; for (auto t : fock::from_op(a.o, [&](fock::idx_t const &x) { return w.pos.at(x); })) { t.coef = t.coef.imag(); e.push_back(t); } return fock::dense(e, w.n); }(), "imaginary part");
  // compound and self-aliasing updates
  auto x = a;
  for (long k = c.i(1, 6); k > 0; --k) {
    int what = int(c.i(0, 9));
    S s      = scal<S>(c);
    cd y     = fock::num(s);
    if (x.m.maxabs() > 1e6) break;
    switch (what) {
      case 0: c.trace("+=b"); x.o += b.o; x.m += b.m; break;
      case 1: c.trace("-=b"); x.o -= b.o; x.m -= b.m; break;
      case 2: c.trace("*=b"); x.o *= b.o; x.m = x.m * b.m; break;
      case 3: c.trace("+=self"); x.o += x.o; x.m = cd(2) * x.m; break;
      case 4: c.trace("-=self"); x.o -= x.o; x.m = mat(x.m.n); break;
      case 5: c.trace("*=self"); x.o *= x.o; x.m = x.m * x.m; break;
      case 6: c.trace("*=s"); x.o *= s; x.m *= y; break;
      case 7: c.trace("+=s"); x.o += s; x.m += y * mat::id(x.m.n); break;
      case 8: c.trace("-=s"); x.o -= s; x.m -= y * mat::id(x.m.n); break;
      case 9: { c.trace("=self"); auto &al = x.o; x.o = al; break; }
    }
    w.same(x.o, x.m, "in-place update");
    vmon::count("inplace_updates");
  }
  w.same(b.o, b.m, "operand of in-place updates"); // untouched
  // (anti)commutators of the basic operators
  int i = int(c.i(0, w.n - 1)), j = int(c.i(0, w.n - 1));
  auto ci = op_t::make_canonical(false, w.lab[i]), cj = op_t::make_canonical(false, w.lab[j]), dj = op_t::make_canonical(true, w.lab[j]);
  c.check(ci * dj + dj * ci == op_t(S(i == j ? 1.0 : 0.0)), "{c_%d, c+_%d}", i, j);
  c.check((ci * cj + cj * ci).is_zero(), "{c_%d, c_%d}", i, j);
  // fundamental set contains exactly the indices used
  auto f = x.o.make_fundamental_operator_set();
  std::set<fock::idx_t> used;
  for (auto const &t : x.o) for (auto const &q : t.monomial) used.insert(q.indices);
  c.eq(size_t(f.size()), used.size(), "size of the minimal fundamental set");
  for (auto &u : used) c.check(f.has_indices(u), "minimal fundamental set misses an index");
  c.check(is_op_hermitian(x.o + dagger(x.o), 1e-12), "A + A^+ is not recognised as Hermitian");
  { // the assertion used by tests: equal up to the precision passes, a larger deviation does not
    auto close = [&](auto const &p, auto const &q, double eps) { try { triqs::operators::assert_operators_are_close(p, q, eps); return true; } catch (triqs::runtime_error const &) { return false; } };
    c.check(close(x.o, x.o, 1e-12), "an operator is not close to itself");
    op_t y = x.o + 0.5 * ci;
    c.check(not close(x.o, y, 0.1) and not close(y, x.o, 0.1), "different operators are close");
    c.check(close(x.o, y, 0.6), "operators within the precision are not close");
  }
  c.check(is_op_hermitian(x.o, 1e-10) == ((x.m - x.m.dagger()).maxabs() < 1e-10), "is_op_hermitian");
  c.nontrivial(0);
  if (a.o.is_zero() && b.o.is_zero()) c.nontriv = false;
}
// products of many operators on more modes: normal ordering of long monomials (matrix action on random states)
void longprod(kase &c) {
  int n    = int(c.i(3, 7));
  auto lab = fock::rand_labels(c, n);
  std::map<fock::idx_t, int> pos;
  for (int k = 0; k < n; ++k) pos[lab[k]] = k;
  fock::mono m;
  many_body_operator o(1.0);
  long len = c.i(4, 9);
  for (long k = 0; k < len; ++k) {
    int q = int(c.i(0, n - 1));
    bool d = c.chance(0.5);
    m.push_back({d, q});
    c.trace("%s%d", d ? "c+" : "c", q);
    o *= many_body_operator::make_canonical(d, lab[q]);
  }
  auto e = fock::from_op(o, [&](fock::idx_t const &x) { return pos.at(x); });
  for (fock::F f = 0; f < (fock::F(1) << n); ++f) {
    auto u = fock::act(e, {{f, 1}}), v = fock::act(fock::expr{{1, m}}, {{f, 1}});
    for (auto &[g, x] : v) u[g] -= x;
    for (auto &[g, x] : u) c.check(std::abs(x) < 1e-12, "normal ordering of a product of %ld operators is wrong on state %llu", len, (unsigned long long)f);
  }
  vmon::count("long_products");
  c.nontrivial();
}
void hdf5(kase &c) {
  int n    = int(c.i(1, 6));
  auto lab = fock::rand_labels(c, n);
  if (c.chance(0.3)) lab[0] = {long(c.chance(0.5) ? 1 : -1) * (c.chance(0.5) ? 3000000000L : 2147483647L)}; // beyond the range of int
  many_body_operator o;
  for (long k = c.i(0, 8); k > 0; --k) {
    fock::mono m;
    long q = c.i(0, 2);
    many_body_operator t(scal<real_or_complex>(c));
    for (long u = 0; u < 2 * q; ++u) t *= many_body_operator::make_canonical(u < q, lab[c.i(0, n - 1)]);
    o += t;
  }
  std::ostringstream os;
  os << o;
  c.trace("%s", os.str().c_str());
  std::string fn = "h01.h5";
  many_body_operator r, used = many_body_operator::make_canonical(true, lab[0]) * 3.0 + 1.0;
  { h5::file f(fn, 'w'); h5_write(f, "op", o); }
  { h5::file f(fn, 'r'); h5_read(f, "op", r); h5_read(f, "op", used); }
  for (auto *x : {&r, &used}) {
    c.check(*x == o, "operator read back differs");
    auto i = x->begin();
    auto j = o.begin();
    for (; j != o.end(); ++i, ++j) {
      c.check(i != x->end(), "fewer monomials read back");
      c.check((*i).monomial == (*j).monomial, "a monomial changed in HDF5");
      c.check(fock::num((*i).coef) == fock::num((*j).coef) && (*i).coef.is_real() == (*j).coef.is_real(), "a coefficient changed in HDF5");
    }
    c.check(!(i != x->end()), "more monomials read back");
  }
  vmon::count("hdf5_roundtrips");
  c.nontrivial();
}
void run() {
  vmon::group("algebra_rc", 500, 20000, algebra<real_or_complex>);
  vmon::group("algebra_real", 250, 8000, algebra<double>);
  vmon::group("algebra_complex", 250, 8000, algebra<cd>);
  vmon::group("long_products", 300, 8000, longprod);
  vmon::group("hdf5", 200, 4000, hdf5);
}
