// G08: what is written to HDF5 is read back equal
#include "g_rig.hpp"
#include <triqs/gfs/gf_sym_grp.hpp>
#include <triqs/lattice/tight_binding.hpp>
#include <triqs/utility/time_pt.hpp>
#include <triqs/operators/many_body_operator.hpp>
#include <triqs/hilbert_space/hilbert_space.hpp>
#include <triqs/stat/histograms.hpp>
#include <triqs/stat/accumulator.hpp>
#include <unistd.h>
using namespace grig;
using namespace triqs;
using tg::scalar_valued; using tg::matrix_valued; using tg::tensor_valued; using tg::prod; using tg::block_gf; using tg::block2_gf; using tg::block_gf_view;
using tmesh::imfreq; using tmesh::imtime; using tmesh::refreq; using tmesh::retime; using tmesh::legendre; using tmesh::brzone; using tmesh::cyclat; using tmesh::dlr; using tmesh::dlr_imtime; using tmesh::dlr_imfreq; using tmesh::discrete;
#ifndef PART
#define PART 0
#endif
using any_op = operators::many_body_operator;
// ---- how to make, compare
template <typename T> struct io;
template <typename M> M any_mesh(kase &c) {
  if constexpr (std::is_same_v<M, imfreq>) return {any_beta(c), any_stat(c), c.i(1, 6)};
  else if constexpr (std::is_same_v<M, imtime>) return any_imtime(c);
  else if constexpr (std::is_same_v<M, refreq>) return any_refreq(c);
  else if constexpr (std::is_same_v<M, retime>) return any_retime(c);
  else if constexpr (std::is_same_v<M, legendre>) return any_legendre(c);
  else if constexpr (std::is_same_v<M, discrete>) return {c.i(1, 9)};
  else if constexpr (std::is_same_v<M, brzone>) return any_bz(c, 3);
  else if constexpr (std::is_same_v<M, cyclat>) return any_cl(c, 3);
  else if constexpr (std::is_same_v<M, dlr> || std::is_same_v<M, dlr_imtime> || std::is_same_v<M, dlr_imfreq>) return M{c.pick(std::vector<double>{1, 5}), any_stat(c), c.pick(std::vector<double>{1, 2}), c.pick(std::vector<double>{1e-6, 1e-8})};
  else return [&]<typename... K>(prod<K...> const *) { return prod<K...>{any_mesh<K>(c)...}; }((M *)nullptr);
}
template <typename M, typename T> struct io<gf<M, T>> {
  static gf<M, T> make(kase &c) { return random_gf<T>(c, any_mesh<M>(c)); }
  static void equal(kase &c, gf<M, T> const &a, gf<M, T> const &b, const char *what) {
    c.check(a.mesh() == b.mesh(), "%s: the mesh differs", what);
    c.check(a.target_shape() == b.target_shape(), "%s: the target shape differs", what);
    c.check(a.data().shape() == b.data().shape(), "%s: the shape of the data differs", what);
    same(c, flat(a.data()), flat(b.data()), 0, what);
    // and is used as one: the points of one mesh are points of the other
    if constexpr (tg::n_variables<M> == 1) { for (auto m : a.mesh()) same(c, flat(b[m]), flat(a[m]), 0, what); }
    else for (auto m : a.mesh()) { same(c, flat(b[m]), flat(a[m]), 0, what); }
  }
};
template <typename M, typename T> struct io<block_gf<M, T>> {
  static block_gf<M, T> make(kase &c) {
    int n = c.i(0, 4);
    std::vector<std::string> names;
    std::vector<gf<M, T>> v;
    for (int i = 0; i < n; ++i) {
      std::string s = c.pick(std::vector<std::string>{"up", "dn", "up_0", "a b", "0", "block", "data", "mesh", "é", "x.y", "A"});
      if (std::find(names.begin(), names.end(), s) != names.end()) s += "#" + std::to_string(i);
      names.push_back(s);
      v.push_back(io<gf<M, T>>::make(c));
    }
    return {names, v};
  }
  static void equal(kase &c, block_gf<M, T> const &a, block_gf<M, T> const &b, const char *what) {
    c.check(a.block_names() == b.block_names(), "%s: the block names differ", what);
    c.check(a.size() == b.size(), "%s: the number of blocks differs", what);
    for (int i = 0; i < a.size(); ++i) io<gf<M, T>>::equal(c, a[i], b[i], what);
  }
};
template <typename M, typename T> struct io<block2_gf<M, T>> {
  static block2_gf<M, T> make(kase &c) {
    int n1 = c.i(1, 3), n2 = c.i(1, 3);
    std::vector<std::string> s1, s2;
    for (int i = 0; i < n1; ++i) s1.push_back(c.pick(std::vector<std::string>{"up", "dn", "a_b", "0"}) + (c.chance(0.8) ? std::to_string(i) : "_" + std::to_string(i)));
    for (int i = 0; i < n2; ++i) s2.push_back(c.pick(std::vector<std::string>{"up", "dn", "b_c", "c"}) + std::to_string(i));
    std::vector<std::vector<gf<M, T>>> v(n1);
    for (auto &x : v) for (int j = 0; j < n2; ++j) x.push_back(io<gf<M, T>>::make(c));
    return {{s1, s2}, v};
  }
  static void equal(kase &c, block2_gf<M, T> const &a, block2_gf<M, T> const &b, const char *what) {
    c.check(a.block_names() == b.block_names(), "%s: the block names differ", what);
    c.check(a.size1() == b.size1() && a.size2() == b.size2(), "%s: the number of blocks differs", what);
    for (int i = 0; i < a.size1(); ++i) for (int j = 0; j < a.size2(); ++j) io<gf<M, T>>::equal(c, a(i, j), b(i, j), what);
  }
};
template <> struct io<lat::bravais_lattice> {
  static lat::bravais_lattice make(kase &c) {
    auto u = any_units(c);
    if (c.chance(0.4)) return lat::bravais_lattice{u};
    std::vector<nda::vector<double>> pos;
    std::vector<std::string> names;
    int n = c.i(1, 4);
    for (int i = 0; i < n; ++i) { pos.push_back(nda::vector<double>{c.r(-1, 1), c.r(-1, 1), c.r(-1, 1)}); names.push_back(c.pick(std::vector<std::string>{"", "s", "d_xy", "atom 1"})); }
    return lat::bravais_lattice{u, pos, names};
  }
  static void equal(kase &c, lat::bravais_lattice a, lat::bravais_lattice b, const char *what) {
    c.check(a == b, "%s: lattices compare different", what);
    c.check(a.ndim() == b.ndim() && a.n_orbitals() == b.n_orbitals() && a.orbital_names() == b.orbital_names(), "%s: dimension or names differ", what);
    c.check(a.orbital_positions().size() == b.orbital_positions().size(), "%s: number of positions", what);
    for (size_t i = 0; i < a.orbital_positions().size(); ++i) same(c, flat(a.orbital_positions()[i]), flat(b.orbital_positions()[i]), 0, what);
    same(c, flat(a.units()), flat(b.units()), 0, what);
    nda::vector<double> x{0.3, -0.2, 0.7};
    same(c, flat(a.lattice_to_real_coordinates(x)), flat(b.lattice_to_real_coordinates(x)), 0, what);
    same(c, flat(a.real_to_lattice_coordinates(x)), flat(b.real_to_lattice_coordinates(x)), 0, what);
  }
};
template <> struct io<lat::brillouin_zone> {
  static lat::brillouin_zone make(kase &c) { return c.chance(0.1) ? lat::brillouin_zone{} : lat::brillouin_zone{io<lat::bravais_lattice>::make(c)}; }
  static void equal(kase &c, lat::brillouin_zone const &a, lat::brillouin_zone const &b, const char *what) {
    c.check(a == b, "%s: zones compare different", what);
    same(c, flat(a.units()), flat(b.units()), 0, what);
    same(c, flat(a.reciprocal_matrix_inv()), flat(b.reciprocal_matrix_inv()), 0, what);
    io<lat::bravais_lattice>::equal(c, a.lattice(), b.lattice(), what);
  }
};
template <> struct io<lat::tight_binding> {
  static lat::tight_binding make(kase &c) {
    auto bl = io<lat::bravais_lattice>::make(c);
    long n = bl.n_orbitals();
    std::vector<nda::vector<long>> d;
    std::vector<nda::matrix<cd>> m;
    int k = c.i(1, 3);
    std::set<std::vector<long>> seen;
    for (int i = 0; i < k; ++i) {
      nda::vector<long> r(bl.ndim()), mr(bl.ndim());
      for (long q = 0; q < r.size(); ++q) { r(q) = c.i(-2, 2); mr(q) = -r(q); }
      if (seen.count({r.begin(), r.end()})) continue;
      seen.insert({r.begin(), r.end()});
      seen.insert({mr.begin(), mr.end()});
      nda::matrix<cd> h(n, n);
      randomize(c, h);
      bool zero = true;
      for (auto x : r) zero = zero && x == 0;
      if (zero) { d.push_back(r); m.push_back(nda::matrix<cd>(h + nda::dagger(h))); }
      else { d.push_back(r); m.push_back(h); d.push_back(mr); m.push_back(nda::matrix<cd>(nda::dagger(h))); }
    }
    return {bl, d, m};
  }
  static void equal(kase &c, lat::tight_binding const &a, lat::tight_binding const &b, const char *what) {
    c.check(a == b, "%s: models compare different", what);
    io<lat::bravais_lattice>::equal(c, a.lattice(), b.lattice(), what);
    c.check(a.displ_vec().size() == b.displ_vec().size(), "%s: number of hoppings", what);
    for (size_t i = 0; i < a.displ_vec().size(); ++i) { same(c, flat(a.displ_vec()[i]), flat(b.displ_vec()[i]), 0, what); same(c, flat(a.overlap_mat_vec()[i]), flat(b.overlap_mat_vec()[i]), 0, what); }
    nda::vector<double> k{0.13, -0.4, 0.27};
    same(c, flat(a.fourier(k)), flat(b.fourier(k)), 0, what);
  }
};
template <> struct io<utility::time_pt> {
  static utility::time_pt make(kase &c) { double b = any_beta(c); utility::time_segment s{b}; return c.chance(0.2) ? s.get_upper_pt() : c.chance(0.2) ? s.get_lower_pt() : s.make_time_pt(c.r(0, b)); }
  static void equal(kase &c, utility::time_pt const &a, utility::time_pt const &b, const char *what) {
    c.check(a == b && double(a) == double(b), "%s: %.17g instead of %.17g", what, double(b), double(a));
    c.check(double(a - b) == 0 && double(-a) == double(-b), "%s: arithmetic", what);
  }
};
template <> struct io<any_op> {
  static any_op make(kase &c) {
    any_op o;
    int n = c.i(0, 5);
    auto ix = [&] { return hilbert_space::indices_t{c.pick(std::vector<std::string>{"up", "dn", ""}), c.i(0, 3)}; };
    for (int i = 0; i < n; ++i) {
      any_op t = c.chance(0.5) ? any_op(c.r(-1, 1)) : any_op(operators::real_or_complex(c.cplx()));
      int k = c.i(0, 2);
      for (int q = 0; q < k; ++q) t = t * operators::many_body_operator::make_canonical(true, ix());
      k = c.i(0, 2);
      for (int q = 0; q < k; ++q) t = t * operators::many_body_operator::make_canonical(false, ix());
      o += t;
    }
    return o;
  }
  static void equal(kase &c, any_op const &a, any_op const &b, const char *what) {
    c.check((a - b).is_zero() && (b - a).is_zero(), "%s: operators differ", what);
    c.check(std::distance(a.begin(), a.end()) == std::distance(b.begin(), b.end()), "%s: number of monomials", what);
    c.check(a.make_fundamental_operator_set() == b.make_fundamental_operator_set(), "%s: operator sets", what);
    std::ostringstream x, y;
    x << a; y << b;
    c.check(x.str() == y.str(), "%s: prints %s instead of %s", what, y.str().c_str(), x.str().c_str());
  }
};
template <> struct io<hilbert_space::hilbert_space> {
  static hilbert_space::hilbert_space make(kase &c) { hilbert_space::fundamental_operator_set f; int n = c.i(0, 6); for (int i = 0; i < n; ++i) f.insert(i); return hilbert_space::hilbert_space{f}; }
  static void equal(kase &c, hilbert_space::hilbert_space const &a, hilbert_space::hilbert_space const &b, const char *what) { c.check(a == b && a.size() == b.size(), "%s: size", what); for (int i = 0; i < a.size(); ++i) c.check(b.get_fock_state(i) == a.get_fock_state(i) && b.has_state(i), "%s: states", what); }
};
template <> struct io<hilbert_space::sub_hilbert_space> {
  static hilbert_space::sub_hilbert_space make(kase &c) { hilbert_space::sub_hilbert_space s{(int)c.i(0, 20)}; std::set<uint64_t> seen; int n = c.i(0, 10); for (int i = 0; i < n; ++i) { uint64_t f = c.u64() & 1023; if (seen.insert(f).second) s.add_fock_state(f); } return s; }
  static void equal(kase &c, hilbert_space::sub_hilbert_space const &a, hilbert_space::sub_hilbert_space const &b, const char *what) {
    c.check(a == b && a.size() == b.size() && a.get_index() == b.get_index() && a.get_all_fock_states() == b.get_all_fock_states(), "%s: subspaces", what);
    for (auto f : a.get_all_fock_states()) c.check(b.has_state(f) && b.get_state_index(f) == a.get_state_index(f), "%s: index of a state", what);
    for (int k = 0; k < 5; ++k) { uint64_t f = c.u64() & 1023; c.check(a.has_state(f) == b.has_state(f), "%s: membership", what); }
  }
};
template <> struct io<stat::histogram> {
  static stat::histogram make(kase &c) { double a = c.r(-3, 1); stat::histogram h{a, a + c.r(0.5, 4), (long)c.i(2, 9)}; int n = c.i(0, 30); for (int i = 0; i < n; ++i) h << c.r(-4, 6); return h; }
  static void equal(kase &c, stat::histogram a, stat::histogram b, const char *what) {
    c.check(a == b && a.n_data_pts() == b.n_data_pts() && a.n_lost_pts() == b.n_lost_pts() && a.limits() == b.limits() && a.size() == b.size(), "%s: histograms", what);
    double x = c.r(-4, 6);
    a << x; b << x;
    same(c, flat(a.data()), flat(b.data()), 0, what);
  }
};
// ---- the history: several objects in one file, some overwritten, then read by fresh and used objects
template <typename T> void trip(kase &c) {
  std::string fn = "g08_" + std::to_string(getpid()) + ".h5";
  int n = c.i(1, 3);
  std::vector<T> v;
  std::vector<std::string> names;
  auto wr = [&](h5::group g, std::string const &nm, T const &x) { if (c.chance(0.5)) h5_write(g, nm, x); else h5::write(g, nm, x); };
  {
    h5::file f(fn, 'w');
    auto g = h5::group(f).create_group("sub");
    for (int i = 0; i < n; ++i) {
      v.push_back(io<T>::make(c));
      names.push_back("x" + std::to_string(i));
      wr(c.chance(0.5) ? g : h5::group(f), names[i], v[i]);
    }
    // all of them in the top group in the end; overwriting
    for (int i = 0; i < n; ++i) {
      if (c.chance(0.3)) { auto other = io<T>::make(c); wr(f, names[i], other); }
      wr(f, names[i], v[i]);
    }
  }
  c.trace("%d objects", n);
  h5::file f(fn, 'r');
  for (int i = n - 1; i >= 0; --i) {
    auto y = h5::read<T>(f, names[i]);
    io<T>::equal(c, v[i], y, "read into a new object");
    if constexpr (requires(T x) { h5_read(h5::group(f), names[i], x); }) {
      T u = io<T>::make(c); // used
      h5_read(f, names[i], u);
      io<T>::equal(c, v[i], u, "read into a used object");
      h5_read(f, names[c.i(0, n - 1)], u);
      h5_read(f, names[i], u);
      io<T>::equal(c, v[i], u, "read three times");
    }
    vmon::count("objects", 1);
  }
  c.throws([&] { auto y = h5::read<T>(f, "nothing"); }, "reading a name that is not there");
  c.nontrivial(vmon::hash_fmt("%ld %ld", (long)c.index, (long)n));
}
// views: the data of the original are written through, another shape is refused
template <int> void views(kase &c) {
  auto g = io<gf<imfreq>>::make(c);
  { h5::file f("v.h5", 'w'); h5_write(f, "view", g()); h5_write(f, "cview", gf_const_view<imfreq, matrix_valued>(g)); h5_write(f, "slice", tg::slice_target(g, nda::range(0, 1), all)); h5_write(f, "scalar", tg::slice_target_to_scalar(g, 0, 0)); }
  h5::file f("v.h5", 'r');
  c.trace("%ld frequencies, target %ldx%ld", g.mesh().size(), g.target_shape()[0], g.target_shape()[1]);
  io<gf<imfreq>>::equal(c, g, h5::read<gf<imfreq>>(f, "view"), "written from a view");
  io<gf<imfreq>>::equal(c, g, h5::read<gf<imfreq>>(f, "cview"), "written from a const view");
  auto s = h5::read<gf<imfreq>>(f, "slice");
  auto ref = gf<imfreq>{tg::slice_target(g, nda::range(0, 1), all)};
  io<gf<imfreq>>::equal(c, ref, s, "written from a slice");
  auto s0 = h5::read<gf<imfreq, scalar_valued>>(f, "scalar");
  for (auto w : g.mesh()) same(c, {cd(s0[w])}, {cd(g[w](0, 0))}, 0, "written from a scalar slice");
  // into a view
  gf<imfreq> h{g.mesh(), g.target_shape()};
  randomize(c, h.data());
  auto v = h();
  h5_read(f, "view", v);
  io<gf<imfreq>>::equal(c, g, h, "read into a view");
  gf<imfreq> big{g.mesh(), {g.target_shape()[0] + 1, g.target_shape()[1]}};
  randomize(c, big.data());
  auto old = big;
  auto vb = big();
  c.throws([&] { h5_read(f, "view", vb); }, "reading into a view of another shape");
  same(c, flat(big.data()), flat(old.data()), 0, "after the refusal");
  vmon::count("objects", 6);
  c.nontrivial(vmon::hash_fmt("%ld %ld", g.mesh().size(), (long)g.target_shape()[0]));
}
// names that cannot both be stored
template <int> void names(kase &c) {
  auto g = [&] { return io<gf<imfreq>>::make(c); };
  auto check1 = [&](std::vector<std::string> nm) {
    std::vector<gf<imfreq>> v;
    for (size_t i = 0; i < nm.size(); ++i) v.push_back(g());
    block_gf<imfreq> b{nm, v};
    h5::file f("n.h5", 'w');
    bool ok = true;
    try { h5_write(f, "b", b); } catch (std::exception const &) { ok = false; }
    vmon::count(ok ? "names_written" : "names_refused", 1);
    if (ok) io<block_gf<imfreq>>::equal(c, b, h5::read<block_gf<imfreq>>(f, "b"), "block function with special names");
  };
  auto pool = std::vector<std::string>{"a", "b", "a_b", "b_c", "c", "block_names", "block", "names1", "block_names1", "data"};
  int n = c.i(1, 3);
  std::vector<std::string> nm;
  for (int i = 0; i < n; ++i) nm.push_back(c.pick(pool));
  check1(nm);
  std::vector<std::string> n1, n2;
  int k1 = c.i(1, 3), k2 = c.i(1, 3);
  for (int i = 0; i < k1; ++i) n1.push_back(c.pick(pool));
  for (int i = 0; i < k2; ++i) n2.push_back(c.pick(pool));
  std::string t;
  for (auto &x : nm) t += x + " ";
  t += "/ ";
  for (auto &x : n1) t += x + " ";
  t += "x ";
  for (auto &x : n2) t += x + " ";
  c.trace("%s", t.c_str());
  std::vector<std::vector<gf<imfreq>>> v(k1);
  for (auto &x : v) for (int j = 0; j < k2; ++j) x.push_back(g());
  block2_gf<imfreq> b{{n1, n2}, v};
  h5::file f("n.h5", 'w');
  bool ok = true;
  try { h5_write(f, "b", b); } catch (std::exception const &) { ok = false; }
  vmon::count(ok ? "names_written" : "names_refused", 1);
  if (ok) io<block2_gf<imfreq>>::equal(c, b, h5::read<block2_gf<imfreq>>(f, "b"), "double block function with special names");
  std::set<std::string> keys;
  for (auto &x : n1) for (auto &y : n2) keys.insert(x + "_" + y);
  bool fine = long(keys.size()) == k1 * k2 && !keys.count("block_names1") && !keys.count("block_names2");
  if (fine) c.check(ok || keys.count("block_names"), "unambiguous names are refused");
  c.nontrivial(vmon::hash_str(t.c_str()));
}
// structure of block functions, old and new
template <int> void structure(kase &c) {
  tg::gf_struct_t s, r;
  std::vector<std::pair<std::string, std::vector<long>>> old;
  int n = c.i(1, 4);
  for (int i = 0; i < n; ++i) { std::string nm = c.pick(std::vector<std::string>{"up", "dn", "a b"}) + std::to_string(i); long k = c.i(1, 5); s.push_back({nm, k}); }
  { h5::file f("s.h5", 'w'); h5::write(f, "s", s); }
  h5::file f("s.h5", 'r');
  if (c.chance(0.5)) r.push_back({"old", 3});
  tg::h5_read_gf_struct(f, "s", r);
  c.check(r == s, "structure read back");
  c.trace("%d blocks", n);
  vmon::count("objects", 1);
  c.nontrivial(vmon::hash_fmt("%d %ld %ld", n, s[0].second, s.back().second));
}
// ---- reading another type is refused
struct slot { std::string name, family; std::function<void(kase &, h5::group, std::string)> write; std::function<void(h5::group, std::string)> read; };
template <typename T> struct tag {};
template <typename T> slot make_slot(std::string name, std::string family) {
  return {name, family, [](kase &c, h5::group g, std::string n) { if constexpr (requires { io<T>::make(c); }) { auto x = io<T>::make(c); h5_write(g, n, x); } else if constexpr (std::is_same_v<T, stat::accumulator<double>>) { stat::accumulator<double> a{0., 4, 4, 2}; for (int i = 0; i < 9; ++i) a << c.r(); h5_write(g, n, a); } else if constexpr (std::is_same_v<T, nda::array<double, 1>>) { nda::array<double, 1> a(4); randomize(c, a); h5_write(g, n, a); } else if constexpr (std::is_same_v<T, std::string>) h5_write(g, n, std::string("text")); else { auto m = any_mesh<T>(c); h5_write(g, n, m); } },
          [](h5::group g, std::string n) { [[maybe_unused]] auto y = h5::read<T>(g, n); }};
}
template <int> std::vector<slot> all_slots() {
  std::vector<slot> s;
#define MS(T) s.push_back(make_slot<T>("mesh " #T, "mesh"));
#define OS(...) s.push_back(make_slot<__VA_ARGS__>(#__VA_ARGS__, ""));
  MS(imfreq) MS(imtime) MS(refreq) MS(retime) MS(legendre) MS(dlr) MS(dlr_imtime) MS(dlr_imfreq) MS(brzone) MS(cyclat) MS(discrete)
  s.push_back(make_slot<prod<imfreq, brzone>>("mesh prod<imfreq,brzone>", "mesh"));
  s.push_back(make_slot<prod<brzone, imfreq>>("mesh prod<brzone,imfreq>", "mesh"));
  s.push_back(make_slot<prod<imfreq, imfreq>>("mesh prod<imfreq,imfreq>", "mesh"));
  OS(gf<imfreq>) OS(gf<imfreq, scalar_valued>) OS(gf<imtime>) OS(gf<refreq>) OS(gf<legendre>) OS(gf<brzone>) OS(gf<dlr>) OS(gf<imfreq, tensor_valued<3>>) OS(gf<prod<brzone, imfreq>>) OS(gf<prod<imfreq, brzone>>)
  OS(block_gf<imfreq>) OS(block2_gf<imfreq>) OS(block_gf<imtime>)
  OS(lat::bravais_lattice) OS(lat::brillouin_zone) OS(lat::tight_binding) OS(utility::time_pt) OS(any_op) OS(hilbert_space::hilbert_space) OS(hilbert_space::sub_hilbert_space) OS(stat::histogram) OS(stat::accumulator<double>)
  OS(nda::array<double, 1>) OS(std::string)
  return s;
}
template <int> void wrong_type(kase &c) {
  auto S = all_slots<0>();
  auto &a = S[c.index % S.size()];
  { h5::file f("w.h5", 'w'); a.write(c, f, "x"); }
  c.trace("written: %s", a.name.c_str());
  h5::file f("w.h5", 'r');
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  a.read(f, "x");
  for (auto &b : S) {
    if (b.name == a.name) continue;
    // a histogram is an array with attributes: it may be read as an array
    if (a.name == "stat::histogram" && b.name == "nda::array<double, 1>") continue;
    // a block function without blocks or with blocks of the right type has only names
    bool threw = false;
    try { b.read(f, "x"); } catch (std::exception const &) { threw = true; }
    if (!threw && a.name.substr(0, 6) == "block_" && b.name.substr(0, 6) == "block_") { vmon::count("empty_blocks", 1); continue; }
    c.check(threw, "%s is read as %s", a.name.c_str(), b.name.c_str());
    vmon::count("pairs_of_types", 1);
  }
  c.nontrivial(vmon::hash_fmt("%s %ld", a.name.c_str(), (long)c.index));
}
template <int> void parts() {
#define P(n) if constexpr (PART == 0 || PART == n)
#define TR(name, q, ...) vmon::group(name, q, q * 12, trip<__VA_ARGS__>)
  P(1) { TR("gf_imfreq", 40, gf<imfreq>); TR("gf_imfreq_scalar", 30, gf<imfreq, scalar_valued>); TR("gf_imtime_real", 30, gf<imtime, tg::matrix_real_valued>); TR("gf_refreq_tensor", 20, gf<refreq, tensor_valued<3>>); TR("gf_retime", 20, gf<retime>); TR("gf_legendre", 20, gf<legendre>); TR("gf_legendre_real_scalar", 20, gf<legendre, tg::scalar_real_valued>); }
  P(2) { TR("gf_brzone", 20, gf<brzone>); TR("gf_cyclat_scalar", 20, gf<cyclat, scalar_valued>); TR("gf_dlr", 10, gf<dlr>); TR("gf_dlr_imtime", 8, gf<dlr_imtime>); TR("gf_dlr_imfreq", 8, gf<dlr_imfreq>); TR("gf_discrete", 20, gf<discrete>); TR("gf_2_variables", 15, gf<prod<brzone, imfreq>>); TR("gf_3_variables", 10, gf<prod<imfreq, cyclat, imtime>, scalar_valued>); }
  P(3) { TR("block", 40, block_gf<imfreq>); TR("block_real_time", 30, block_gf<imtime, tg::matrix_real_valued>); TR("block_2_variables", 15, block_gf<prod<brzone, imfreq>>); TR("block2", 30, block2_gf<imfreq>); TR("block2_scalar", 30, block2_gf<legendre, scalar_valued>); vmon::group("names", 80, 1500, names<0>); vmon::group("views", 60, 800, views<0>); vmon::group("structure", 40, 400, structure<0>); }
  P(4) { TR("bravais", 80, lat::bravais_lattice); TR("brillouin", 80, lat::brillouin_zone); TR("tight_binding", 80, lat::tight_binding); TR("time_pt", 80, utility::time_pt); TR("operators", 120, any_op); TR("hilbert_space", 30, hilbert_space::hilbert_space); TR("sub_hilbert_space", 60, hilbert_space::sub_hilbert_space); TR("histogram", 60, stat::histogram); }
  P(5) { vmon::group("wrong_type", 38, 380, wrong_type<0>); }
}
void run() { parts<0>(); }
