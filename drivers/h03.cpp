// H03: fundamental operator sets and Hilbert spaces as bijections, with HDF5
#include <vmon.hpp>
#define FOCK_WITH_TRIQS
#include "fock.hpp"
#include <triqs/hilbert_space/hilbert_space.hpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
#include <triqs/hilbert_space/state.hpp>
#include <h5/h5.hpp>
using vmon::kase;
namespace hs = triqs::hilbert_space;
using fock::F;
using fock::idx_t;

void check_fops(kase &c, hs::fundamental_operator_set const &f, std::vector<idx_t> const &ref, const char *what) {
  c.eq(size_t(f.size()), ref.size(), std::string(what) + ": size");
  c.check(f.data() == ref, "%s: data() is not the list of index tuples", what);
  c.check(hs::fundamental_operator_set::data_t(f) == ref, "%s: conversion to a list", what);
  for (size_t k = 0; k < ref.size(); ++k) {
    c.check(f.has_indices(ref[k]), "%s: has_indices", what);
    c.eq(f[ref[k]], int(k), std::string(what) + ": position of an index tuple");
  }
  size_t k = 0;
  for (auto const &x : f) {
    c.check(k < ref.size() && x.index == ref[k] && x.linear_index == int(k), "%s: iteration", what);
    ++k;
  }
  c.eq(k, ref.size(), std::string(what) + ": iteration length");
  vmon::count("sets_checked");
}
void fops(kase &c) {
  int n    = int(c.i(0, 12));
  auto lab = fock::rand_labels(c, n);
  auto other = fock::rand_labels(c, 6);
  std::vector<idx_t> ref;
  hs::fundamental_operator_set f;
  for (auto &l : lab) {
    f.insert_from_indices_t(l);
    ref.push_back(l);
    if (c.chance(0.4)) f.insert_from_indices_t(c.pick(ref)); // inserting again must change nothing
  }
  c.trace("n=%d", n);
  check_fops(c, f, ref, "set");
  for (auto &o : other)
    if (std::find(ref.begin(), ref.end(), o) == ref.end()) {
      c.check(!f.has_indices(o), "has_indices of a foreign tuple");
      c.throws([&] { (void)f[o]; }, "position of a foreign tuple");
      vmon::count("foreign_lookups");
    }
  hs::fundamental_operator_set g(ref), h;
  c.check(g == f, "sets with the same tuples compare different");
  if (n > 1) {
    auto sw = ref;
    std::swap(sw[0], sw[n - 1]);
    c.check(!(hs::fundamental_operator_set(sw) == f), "sets with another order compare equal");
  }
  auto cp = f;
  cp.insert_from_indices_t({std::string("zz"), 99l, std::string("new")});
  check_fops(c, f, ref, "original of a copy");
  {
    h5::file file("h03.h5", 'w');
    auto gr = h5::group(file).create_group("x");
    h5_write_attribute(gr, "f", f);
  }
  {
    h5::file file("h03.h5", 'r');
    auto gr = h5::group(file).open_group("x");
    h5_read_attribute(gr, "f", h);
    hs::fundamental_operator_set used(lab);
    used.insert(77l);
    h5_read_attribute(gr, "f", used);
    c.check(used == h, "reading into a used set");
  }
  // empty index lists cannot be told apart from none in the file format; the labels used here are never empty
  check_fops(c, h, ref, "set read from HDF5");
  if (n) c.nontrivial(vmon::hash_str(n ? std::to_string(c.u64()) : ""));
}
void fops_constructors(kase &c) {
  {
    std::vector<int> v;
    std::vector<idx_t> ref;
    for (long k = c.i(0, 4); k > 0; --k) v.push_back(int(c.i(0, 4)));
    for (long i = 0; i < long(v.size()); ++i) for (long j = 0; j < v[i]; ++j) ref.push_back({i, j});
    check_fops(c, hs::fundamental_operator_set(v), ref, "from sizes");
    c.trace("sizes %zu", ref.size());
  }
  {
    std::set<std::string> s;
    std::vector<idx_t> ref;
    for (long k = c.i(0, 5); k > 0; --k) s.insert("x" + std::to_string(c.i(0, 20)));
    for (auto &x : s) ref.push_back({x});
    check_fops(c, hs::fundamental_operator_set(s), ref, "from a set");
  }
  {
    hs::gf_struct_t gs;
    std::vector<idx_t> ref;
    for (long k = c.i(0, 4); k > 0; --k) gs.emplace_back("b" + std::to_string(k * 7 % 5), c.i(1, 4));
    for (auto &[b, m] : gs) for (long i = 0; i < m; ++i) ref.push_back({b, i});
    check_fops(c, hs::fundamental_operator_set(gs), ref, "from a block structure");
    c.trace("gf_struct %zu", ref.size());
    if (ref.size() > 1) c.nontrivial();
  }
}
void full(kase &c) {
  int n    = int(c.i(0, 10));
  auto lab = fock::rand_labels(c, n);
  hs::fundamental_operator_set f(lab);
  hs::hilbert_space H(f), E;
  c.trace("n=%d", n);
  c.eq(E.size(), 0, "empty space");
  c.eq(H.size(), 1 << n, "dimension");
  for (int k = 0; k < H.size(); ++k) {
    c.check(H.has_state(k) && H.get_fock_state(k) == F(k) && H.get_state_index(F(k)) == k, "state %d is not its own index", k);
  }
  for (F x : {F(H.size()), F(H.size()) + 5, F(1) << 40, ~F(0)}) {
    c.check(!H.has_state(x), "foreign state is a member");
    c.throws([&] { H.get_state_index(x); }, "index of a foreign state");
  }
  c.throws([&] { H.get_fock_state(H.size()); }, "state beyond the dimension");
  std::set<idx_t> ind;
  F want = 0;
  for (int k = 0; k < n; ++k) if (c.chance(0.5)) { ind.insert(lab[k]); want |= F(1) << k; }
  c.eq(H.get_fock_state(f, ind), want, "Fock state from its occupied modes");
  auto K = H;
  c.check(K == H && !(K != H), "a copy differs");
  if (n) c.check(!(hs::hilbert_space(hs::fundamental_operator_set(std::vector<idx_t>(lab.begin() + 1, lab.end()))) == H), "spaces of different size are equal");
  { h5::file file("h03.h5", 'w'); h5_write(file, "H", H); }
  { h5::file file("h03.h5", 'r'); h5_read(file, "H", E); }
  c.check(E == H && E.size() == H.size(), "space read from HDF5 differs");
  vmon::count("spaces_checked");
  if (n) c.nontrivial(want);
}
void wide_state(kase &c) { // occupied-mode sets of wide systems (a full space of fewer than 31 modes is needed for its integer dimension)
  int n = int(c.i(17, 30));
  std::vector<idx_t> lab;
  for (int k = 0; k < n; ++k) lab.push_back({long(k)});
  hs::fundamental_operator_set f(lab);
  hs::hilbert_space H(f);
  c.eq(long(H.size()), 1l << n, "dimension of a wide space");
  for (int t = 0; t < 20; ++t) {
    std::set<idx_t> ind;
    F want = 0;
    for (int k = 0; k < n; ++k) if (c.chance(0.5)) { ind.insert(lab[k]); want |= F(1) << k; }
    c.eq(H.get_fock_state(f, ind), want, "Fock state from its occupied modes");
    c.check(H.has_state(want) && F(H.get_state_index(want)) == want && H.get_fock_state(int(want)) == want, "index of a wide Fock state");
  }
  c.trace("n=%d", n);
  c.nontrivial(c.u64());
}
void partial(kase &c) {
  int n = int(c.i(1, 64));
  F mask = n == 64 ? ~F(0) : (F(1) << n) - 1;
  std::vector<F> fs;
  std::set<F> seen;
  for (long k = c.i(0, 40); k > 0; --k) { F x = c.u64() & mask; if (seen.insert(x).second) fs.push_back(x); }
  hs::sub_hilbert_space P(int(c.i(-1, 9)));
  for (auto x : fs) P.add_fock_state(x);
  c.trace("n=%d size=%zu index=%d", n, fs.size(), P.get_index());
  auto chk = [&](hs::sub_hilbert_space const &Q, const char *what) {
    c.eq(Q.size(), int(fs.size()), std::string(what) + ": dimension");
    c.check(Q.get_all_fock_states() == fs, "%s: list of states", what);
    for (int k = 0; k < int(fs.size()); ++k) c.check(Q.get_fock_state(k) == fs[k] && Q.get_state_index(fs[k]) == k && Q.has_state(fs[k]), "%s: state number %d", what, k);
    for (int k = 0; k < 20; ++k) { F x = c.u64() & mask; c.check(Q.has_state(x) == bool(seen.count(x)), "%s: membership of a random state", what); }
    vmon::count("partial_spaces_checked");
  };
  chk(P, "space");
  hs::sub_hilbert_space R, U(5);
  U.add_fock_state(3); U.add_fock_state(1);
  { h5::file file("h03.h5", 'w'); h5_write(file, "P", P); }
  { h5::file file("h03.h5", 'r'); h5_read(file, "P", R); h5_read(file, "P", U); }
  chk(R, "read from HDF5");
  chk(U, "read from HDF5 into a used space");
  c.check(R == P && U == P && !(R != P), "space read from HDF5 compares different");
  auto Q = P;
  c.check(Q == P, "copy differs");
  Q.set_index(P.get_index() + 1);
  c.check(Q != P && Q.get_index() == P.get_index() + 1, "spaces with different numbers compare equal");
  Q = P;
  F x = c.u64() & mask;
  if (!seen.count(x)) { Q.add_fock_state(x); c.check(Q != P && Q.get_state_index(x) == P.size(), "adding a state"); chk(P, "original of a copy"); }
  if (fs.size() > 1) c.nontrivial(fs[0]);
}
void run() {
  vmon::group("operator_set", 300, 6000, fops);
  vmon::group("operator_set_constructors", 150, 2000, fops_constructors);
  vmon::group("full_space", 100, 1000, full);
  vmon::group("wide_fock_state", 40, 400, wide_state);
  vmon::group("partial_space", 300, 6000, partial);
}
