// The comparison of Green functions and operators: a difference beyond the precision is reported, and nothing else.
#include "vmon.hpp"
#include <triqs/test_tools/gfs.hpp>
#include <triqs/test_tools/many_body_operator.hpp>
#include <limits>
using namespace triqs::gfs;
using namespace triqs::mesh;
using triqs::operators::c;
using triqs::operators::c_dag;

namespace {
  const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();
  struct knob { double delta = 0; bool differ = false; };
  // a change of one number, and whether it has to be reported
  knob change(vmon::kase &k, double prec) {
    knob r;
    switch (k.i(0, 5)) {
      case 0: r = {0, false}; break;
      case 1: r = {prec * .9, false}; break;
      case 2: r = {prec * 1.1, true}; break;
      case 3: r = {k.r(.1, 10), true}; break;
      case 4: r = {NaN, true}; break;
      case 5: r = {INF, true}; break;
    }
    return r;
  }
  template <typename G> void fill(vmon::kase &k, G &&g) {
    for (auto &x : g.data()) {
      if constexpr (nda::is_complex_v<std::decay_t<decltype(x)>>) x = k.cplx();
      else x = k.r(-1, 1);
    }
  }
  template <typename G> void shift(vmon::kase &k, G &&g, double d) {
    long n = g.data().size(), p = k.chance(.3) ? 0 : k.chance(.3) ? n - 1 : k.i(0, n - 1), q = 0;
    double s = k.chance(.5) ? 1 : -1;
    bool im = k.chance(.5);
    for (auto &x : g.data())
      if (q++ == p) {
        if constexpr (nda::is_complex_v<std::decay_t<decltype(x)>>) x += im ? std::complex<double>(0, s * d) : std::complex<double>(s * d, 0);
        else x += s * d;
      }
  }
  imfreq mesh(vmon::kase &k, imfreq const *) { return {k.chance(.5) ? 10.0 : 2.5, k.chance(.5) ? Fermion : Boson, k.i(2, 5)}; }
  imtime mesh(vmon::kase &k, imtime const *) { return {k.chance(.5) ? 10.0 : 2.5, k.chance(.5) ? Fermion : Boson, k.i(2, 6)}; }
  refreq mesh(vmon::kase &k, refreq const *) { return {k.chance(.5) ? -1.0 : -2.5, 3.0, k.i(2, 6)}; }
  legendre mesh(vmon::kase &k, legendre const *) { return {k.chance(.5) ? 10.0 : 2.5, k.chance(.5) ? Fermion : Boson, k.i(2, 5)}; }
  template <typename A, typename B> prod<A, B> mesh(vmon::kase &k, prod<A, B> const *) { return {mesh(k, (A *)nullptr), mesh(k, (B *)nullptr)}; }
  template <typename T> auto shape(vmon::kase &k) {
    if constexpr (T::rank == 0) return std::array<long, 0>{};
    else { std::array<long, T::rank> s; for (auto &x : s) x = k.i(1, 3); return s; }
  }
  template <typename F> bool reported(F f) { bool r = !bool(f()); vmon::count("comparisons", 1); return r; }

  template <typename M, typename T> void one(vmon::kase &k) {
    double prec = k.chance(.3) ? 1e-6 : std::pow(10.0, -k.r(1, 9));
    auto m = mesh(k, (M *)nullptr);
    auto s = shape<T>(k);
    gf<M, T> a{m, s};
    fill(k, a);
    auto b = a;
    auto ch = change(k, prec);
    shift(k, b, ch.delta);
    k.trace("precision %g change %g", prec, ch.delta);
    gf_view<M, T> bv = b;
    gf_const_view<M, T> bc = b;
    k.check(reported([&] { return test_gfs_are_close(a, b, prec); }) == ch.differ, "function and function");
    k.check(reported([&] { return test_gfs_are_close(b, a, prec); }) == ch.differ, "exchanged");
    k.check(reported([&] { return test_gfs_are_close(a, bv, prec); }) == ch.differ, "function and view");
    k.check(reported([&] { return test_gfs_are_close(bc, a, prec); }) == ch.differ, "constant view");
    k.check(!reported([&] { return test_gfs_are_close(a, a, 0); }), "equal to itself");
    if (std::abs(ch.delta) > 1e-5 || std::isnan(ch.delta)) k.check(reported([&] { return test_gfs_are_close(a, b); }), "default precision");
    auto m2 = mesh(k, (M *)nullptr);
    gf<M, T> d{m2, s};
    if (m2 != m) {
      d.data() = 0; a.data() = 0;
      k.check(reported([&] { return test_gfs_are_close(a, d, 1e30); }), "other mesh");
    }
    if constexpr (T::rank > 0) {
      auto s2 = s;
      s2[k.i(0, T::rank - 1)] += k.i(1, 2);
      gf<M, T> e{m, s2};
      e.data() = 0; a.data() = 0;
      k.check(reported([&] { return test_gfs_are_close(a, e, 1e30); }), "other target shape");
      k.check(reported([&] { return test_gfs_are_close(e, a, 1e30); }), "other target shape");
    }
    k.nontrivial(vmon::hash_fmt("%ld %g %g", long(a.data().size()), prec, ch.delta));
  }

  template <typename M, typename T> void blocks(vmon::kase &k) {
    double prec = std::pow(10.0, -k.r(1, 9));
    int n = k.i(1, 4);
    std::vector<std::string> names;
    std::vector<gf<M, T>> v;
    for (int i = 0; i < n; ++i) {
      names.push_back("b" + std::to_string(i));
      v.emplace_back(mesh(k, (M *)nullptr), shape<T>(k));
      fill(k, v.back());
    }
    auto a = make_block_gf(names, v);
    auto b = a;
    auto ch = change(k, prec);
    shift(k, b[k.i(0, n - 1)], ch.delta);
    k.trace("%d blocks precision %g change %g", n, prec, ch.delta);
    auto t = [&](auto const &x, auto const &y) { return reported([&] { return test_block_gfs_are_close(x, y, prec); }); };
    k.check(t(a, b) == ch.differ, "blocks");
    k.check(t(b, a) == ch.differ, "blocks exchanged");
    block_gf_const_view<M, T> bv = b;
    k.check(t(a, bv) == ch.differ, "view of blocks");
    auto names2 = names;
    names2[k.i(0, n - 1)] += k.chance(.5) ? "x" : " ";
    k.check(t(a, make_block_gf(names2, v)), "other name");
    auto v2 = v; auto n2 = names;
    if (k.chance(.5)) { v2.push_back(v.back()); n2.push_back("z"); } else { v2.pop_back(); n2.pop_back(); }
    if (n2.size()) { auto e = make_block_gf(n2, v2); k.check(t(a, e) && t(e, a), "other number of blocks"); }
    if (n > 1) {
      auto n3 = names; std::swap(n3[0], n3[n - 1]);
      k.check(t(a, make_block_gf(n3, v)), "names in another order");
    }
    k.nontrivial(vmon::hash_fmt("%d %g %g", n, prec, ch.delta));
  }

  template <typename M, typename T> void blocks2(vmon::kase &k) {
    double prec = std::pow(10.0, -k.r(1, 9));
    int n1 = k.i(1, 3), n2 = k.i(1, 3);
    std::vector<std::string> na, nb;
    for (int i = 0; i < n1; ++i) na.push_back("a" + std::to_string(i));
    for (int i = 0; i < n2; ++i) nb.push_back("b" + std::to_string(i));
    std::vector<std::vector<gf<M, T>>> v(n1);
    for (auto &r : v)
      for (int j = 0; j < n2; ++j) { r.emplace_back(mesh(k, (M *)nullptr), shape<T>(k)); fill(k, r.back()); }
    block2_gf<M, T> a({na, nb}, v), b = a;
    auto ch = change(k, prec);
    int i = k.i(0, n1 - 1), j = k.i(0, n2 - 1);
    shift(k, b(i, j), ch.delta);
    k.trace("%d x %d blocks, (%d,%d), precision %g change %g", n1, n2, i, j, prec, ch.delta);
    auto t = [&](auto const &x, auto const &y) { return reported([&] { return test_block2_gfs_are_close(x, y, prec); }); };
    k.check(t(a, b) == ch.differ, "blocks");
    k.check(t(b, a) == ch.differ, "blocks exchanged");
    auto na2 = na, nb2 = nb;
    (k.chance(.5) ? na2[k.i(0, n1 - 1)] : nb2[k.i(0, n2 - 1)]) += "x";
    k.check(t(a, block2_gf<M, T>({na2, nb2}, v)), "other name");
    if (n1 != n2) { // as many blocks, arranged otherwise
      std::vector<std::vector<gf<M, T>>> w(n2);
      for (int q = 0; q < n2; ++q) for (int p = 0; p < n1; ++p) w[q].push_back(v[p][q]);
      k.check(t(a, block2_gf<M, T>({nb, na}, w)), "transposed");
    }
    k.nontrivial(vmon::hash_fmt("%d %d %g %g", n1, n2, prec, ch.delta));
  }

  void operators_close(vmon::kase &k) {
    double prec = std::pow(10.0, -k.r(1, 9));
    using op_t = triqs::operators::many_body_operator;
    op_t a, b;
    int n = k.i(0, 5), p = k.i(0, 5);
    auto ch = change(k, prec);
    if (!std::isfinite(ch.delta)) ch = {.5, true};
    auto term = [&](int q) { op_t r{1.0}; for (int j = 0; j < 3; ++j) if ((q >> j) & 1) r *= (q & 8) ? c_dag("x", j) : c("x", j); return r; };
    for (int i = 0; i < n; ++i) { double x = k.r(-2, 2); auto t = term(k.i(0, 15)); a += x * t; b += x * t; }
    b += (k.chance(.5) ? ch.delta : -ch.delta) * term(p);
    k.trace("%d terms precision %g change %g", n, prec, ch.delta);
    k.check(reported([&] { return test_operators_are_close(a, b, prec); }) == ch.differ, "operators");
    k.check(reported([&] { return test_operators_are_close(b, a, prec); }) == ch.differ, "operators exchanged");
    k.check(!reported([&] { return test_operators_are_close(a, a, 1e-14); }), "equal to itself");
    k.nontrivial(vmon::hash_fmt("%d %d %g %g", n, p, prec, ch.delta));
  }
} // namespace

void run() {
  vmon::group("imfreq_matrix", 300, 4000, one<imfreq, matrix_valued>);
  vmon::group("imtime_real", 300, 4000, one<imtime, matrix_real_valued>);
  vmon::group("refreq_scalar", 300, 4000, one<refreq, scalar_valued>);
  vmon::group("legendre_tensor", 300, 4000, one<legendre, tensor_valued<3>>);
  vmon::group("product", 300, 4000, one<prod<imfreq, refreq>, matrix_valued>);
  vmon::group("blocks", 300, 4000, blocks<imfreq, matrix_valued>);
  vmon::group("blocks_scalar", 200, 3000, blocks<imtime, scalar_real_valued>);
  vmon::group("blocks2", 300, 4000, blocks2<imfreq, matrix_valued>);
  vmon::group("operators", 500, 8000, operators_close);
}
