// G03: Green-function containers: copies own, views alias, algebra is point by point
#include "g_rig.hpp"
using namespace grig;
using namespace triqs;
using tg::scalar_valued; using tg::matrix_valued; using tg::tensor_valued; using tg::scalar_real_valued; using tg::matrix_real_valued; using tg::tensor_real_valued;
using tg::block_gf; using tg::block_gf_view; using tg::block_gf_const_view; using tg::block2_gf;
#ifndef PART
#define PART 0
#endif
// ---------- the oracle: one point of a function is a list of components
struct pt { vec v; long n; }; // n > 0 : n x n matrix, n = 0 : components
static pt add(pt a, pt const &b, double s = 1) { for (size_t i = 0; i < a.v.size(); ++i) a.v[i] += s * b.v[i]; return a; }
static pt scale(pt a, cd s) { for (auto &x : a.v) x *= s; return a; }
static pt inv(pt const &a) {
  if (!a.n) { pt r = a; for (auto &x : r.v) x = 1.0 / x; return r; }
  long n = a.n; vec m = a.v, r(n * n);
  for (long i = 0; i < n; ++i) r[i * n + i] = 1;
  for (long k = 0; k < n; ++k) {
    long p = k;
    for (long i = k; i < n; ++i) if (std::abs(m[i * n + k]) > std::abs(m[p * n + k])) p = i;
    for (long j = 0; j < n; ++j) { std::swap(m[k * n + j], m[p * n + j]); std::swap(r[k * n + j], r[p * n + j]); }
    cd d = m[k * n + k];
    for (long j = 0; j < n; ++j) { m[k * n + j] /= d; r[k * n + j] /= d; }
    for (long i = 0; i < n; ++i) if (i != k) { cd f = m[i * n + k]; for (long j = 0; j < n; ++j) { m[i * n + j] -= f * m[k * n + j]; r[i * n + j] -= f * r[k * n + j]; } }
  }
  return {r, n};
}
static pt mul(pt const &a, pt const &b) {
  pt r = a;
  if (!a.n) { for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = a.v[i] * b.v[i]; return r; }
  long n = a.n;
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) { cd s = 0; for (long k = 0; k < n; ++k) s += a.v[i * n + k] * b.v[k * n + j]; r.v[i * n + j] = s; }
  return r;
}
// all the points of a function, in the order of the mesh
template <typename G> std::vector<pt> points(G const &g) {
  vec f = flat(g.data());
  long w = 1, n = 0;
  for (auto x : g.target_shape()) w *= x;
  if constexpr (G::target_t::is_matrix) n = g.target_shape()[0];
  std::vector<pt> r;
  for (size_t i = 0; i < f.size() / w; ++i) r.push_back({vec(f.begin() + i * w, f.begin() + (i + 1) * w), n});
  return r;
}
static vec join(std::vector<pt> const &p) { vec r; for (auto &x : p) r.insert(r.end(), x.v.begin(), x.v.end()); return r; }
// the same shape with another function; well conditioned (for divisions)
template <typename G> G partner(kase &c, G const &g) {
  G h = g;
  randomize(c, h.data());
  constexpr bool re = std::is_same_v<typename G::scalar_t, double>;
  if constexpr (G::target_t::is_matrix) {
    for (auto m : h.mesh()) for (long i = 0; i < h.target_shape()[0]; ++i) if constexpr (G::arity == 1) h[m](i, i) += typename G::scalar_t(5);
      else h[m](i, i) += typename G::scalar_t(5);
  } else {
    auto *p = h.data().data();
    for (long i = 0; i < h.data().size(); ++i) if (std::abs(p[i]) < 0.2) p[i] = 0.7;
  }
  (void)re;
  return h;
}
// every elementary operation and some nested ones
template <typename M, typename T> void algebra(kase &c, M const &m) {
  using G = gf<M, T>;
  constexpr bool mat = T::is_matrix, re = T::is_real;
  G a = partner(c, random_gf<T>(c, m)), b = partner(c, a), d = partner(c, a);
  auto A = points(a), B = points(b), D = points(d);
  using S = std::conditional_t<re, double, cd>;
  S s, t;
  if constexpr (re) { s = c.r(0.3, 2); t = c.r(-2, -0.3); } else { s = cd(c.r(0.3, 2), c.r(-1, 1)); t = cd(c.r(-2, -0.3), c.r(-1, 1)); }
  int op = c.i(0, 21);
  std::vector<pt> R(A.size());
  for (size_t i = 0; i < A.size(); ++i) {
    auto &x = A[i], &y = B[i], &z = D[i];
    switch (op) {
      case 0: R[i] = add(x, y); break;
      case 1: R[i] = add(x, y, -1); break;
      case 2: R[i] = mul(x, y); break;
      case 3: R[i] = mul(x, inv(y)); break;
      case 4: R[i] = scale(x, s); break;
      case 5: R[i] = scale(x, t); break;
      case 6: R[i] = scale(x, 1.0 / cd(s)); break;
      case 7: R[i] = scale(inv(x), s); break;
      case 8: R[i] = scale(x, -1); break;
      case 9: R[i] = add(add(scale(x, s), scale(y, t)), z, -1); break;
      case 10: R[i] = mul(add(x, y), z); break;
      case 11: R[i] = add(mul(x, y), mul(y, x), -1); break;
      case 12: R[i] = mul(x, inv(add(y, z))); break;
      case 13: R[i] = scale(inv(add(x, scale(y, s), -1)), 1); break;
      case 14: R[i] = add(x, y); break;                   // +=
      case 15: R[i] = add(x, y, -1); break;               // -=
      case 16: R[i] = mul(x, y); break;                   // *=
      case 17: R[i] = mul(x, inv(y)); break;              // /=
      case 18: R[i] = scale(x, s); break;                 // *= scalar
      case 19: R[i] = scale(x, 1.0 / cd(s)); break;       // /= scalar
      case 20: R[i] = add(scale(x, 2), mul(x, y)); break; // aliasing with itself
      default: R[i] = add(mul(mul(x, y), x), scale(mul(z, z), t)); break;
    }
  }
  vec ref = join(R);
  double sc = std::max(1.0, norm(ref)), tol = 1e-11 * sc;
  if (op == 13 && !(sc < 1e6)) return;
  bool prodlike = op == 2 || op == 3 || (op >= 10 && op <= 12) || op == 16 || op == 17 || op >= 20;
  if constexpr (std::is_same_v<M, tmesh::imtime>) if (prodlike && m.statistic() == Fermion) { c.nontrivial(vmon::hash_str("skip")); return; }
  int how = c.i(0, 4);
  c.trace("operation %d, target %s, destination %d", op, mat ? "matrix" : T::rank ? "tensor" : "scalar", how);
  vec fb = flat(b.data()), fd = flat(d.data()), fa = flat(a.data());
  auto finish = [&](auto const &expr) {
    c.check(expr.mesh() == m, "mesh of the expression");
    switch (how) {
      case 0: { G r{expr}; same(c, flat(r.data()), ref, tol, "gf from an expression"); c.check(r.mesh() == m, "mesh"); break; }
      case 1: { G r; r = expr; same(c, flat(r.data()), ref, tol, "assignment of an expression to an empty gf"); c.check(r.mesh() == m, "mesh"); break; }
      case 2: { G r = partner(c, a); auto v = r(); v = expr; same(c, flat(r.data()), ref, tol, "assignment of an expression to a view"); break; }
      case 3: { a = expr; same(c, flat(a.data()), ref, tol, "assignment of an expression to one of its operands"); fa = flat(a.data()); break; }
      default: { auto v = a(); v = expr; same(c, flat(a.data()), ref, tol, "assignment of an expression to a view of one of its operands"); fa = flat(a.data()); break; }
    }
  };
  bool views = c.chance(0.3);
  auto go = [&](auto const &x, auto const &y, auto const &z) {
    switch (op) {
      case 0: finish(x + y); break;
      case 1: finish(x - y); break;
      case 2: finish(x * y); break;
      case 3: finish(x / y); break;
      case 4: finish(s * x); break;
      case 5: finish(x * t); break;
      case 6: finish(x / s); break;
      case 7: finish(s / x); break;
      case 8: finish(-x); break;
      case 9: finish(s * x + y * t - z); break;
      case 10: finish((x + y) * z); break;
      case 11: finish(x * y - y * x); break;
      case 12: finish(x / (y + z)); break;
      case 13: finish(1.0 / (x - s * y)); break;
      case 20: finish(2.0 * x + x * y); break;
      case 21: finish(x * y * x + z * z * t); break;
    }
  };
  if (op >= 14 && op <= 19) {
    auto inpl = [&](auto &x) {
      switch (op) {
        case 14: x += b; break;
        case 15: x -= b; break;
        case 16: x *= b; break;
        case 17: x /= b; break;
        case 18: x *= s; break;
        default: x /= s;
      }
    };
    if (how % 2) { auto v = a(); inpl(v); } else inpl(a);
    same(c, flat(a.data()), ref, tol, "in place operation");
    fa = flat(a.data());
    c.check(a.mesh() == m, "mesh");
  } else if (views) go(a(), b(), std::as_const(d)());
  else go(a, b, d);
  same(c, flat(b.data()), fb, 0, "right operand unchanged");
  same(c, flat(d.data()), fd, 0, "third operand unchanged");
  same(c, flat(a.data()), fa, 0, "left operand unchanged");
  c.nontrivial(op * 8 + how + 200 * views + 400 * T::rank);
}
template <typename F> void with_mesh(kase &c, F f) {
  switch (c.i(0, 6)) {
    case 0: f(any_imfreq(c)); break;
    case 1: f(any_refreq(c)); break;
    case 2: f(any_imtime(c)); break;
    case 3: f(any_bz(c, 3)); break;
    case 4: f(tmesh::prod{any_bz(c, 3), any_imfreq(c, 3)}); break;
    case 5: f(any_legendre(c)); break;
    default: f(tmesh::prod{any_imfreq(c, 3), any_imfreq(c, 3), any_retime(c, 4)});
  }
}
// ---------- products and quotients of functions of imaginary time; refusal of different meshes
template <typename M> void mismatch(kase &c, M const &m1, M const &m2, bool timelike) {
  auto a = partner(c, random_gf<scalar_valued>(c, m1)), b = partner(c, random_gf<scalar_valued>(c, m2));
  vec fa = flat(a.data()), fb = flat(b.data());
  c.throws([&] { gf<M, scalar_valued> r{a + b}; }, "sum on different meshes");
  c.throws([&] { a -= b; }, "in place difference on different meshes");
  c.throws([&] { auto v = a(); v = b; }, "assignment to a view on a different mesh");
  if (!timelike) c.throws([&] { gf<M, scalar_valued> r{a * b}; }, "product on different meshes");
  if (!timelike) c.throws([&] { a /= b; }, "in place quotient on different meshes");
  same(c, flat(a.data()), fa, 0, "operand after a refused operation");
  same(c, flat(b.data()), fb, 0, "operand after a refused operation");
  a = b; // allowed: the container takes the mesh
  c.check(a.mesh() == m2, "assignment of a gf on another mesh"); same(c, flat(a.data()), fb, 0, "assignment of a gf on another mesh");
  c.nontrivial(vmon::hash_str(typeid(M).name()));
}
template <typename M> void timeproduct(kase &c, M const &m1, M const &m2) { // same beta and points
  auto a = partner(c, random_gf<matrix_valued>(c, m1));
  gf<M, matrix_valued> b{m2, a.target_shape()};
  b = partner(c, b);
  auto A = points(a), B = points(b);
  for (auto s : {0, 1}) {
    vec ref;
    for (size_t i = 0; i < A.size(); ++i) { auto p = mul(A[i], s ? inv(B[i]) : B[i]); ref.insert(ref.end(), p.v.begin(), p.v.end()); }
    gf<M, matrix_valued> r;
    if (s) r = a / b; else r = a * b;
    auto st = m1.statistic() == m2.statistic() ? Boson : Fermion;
    c.check(r.mesh().statistic() == st, "statistic of a product");
    c.check(r.mesh().beta() == m1.beta() && r.mesh().size() == m1.size(), "mesh of a product");
    for (auto t : r.mesh()) c.close(t.value(), m1[t.data_index()].value(), 1e-13 * m1.beta(), "point of the mesh of a product");
    same(c, flat(r.data()), ref, 1e-11 * std::max(1.0, norm(ref)), s ? "quotient in imaginary time" : "product in imaginary time");
  }
  c.nontrivial(m1.size() * 4 + 2 * (m1.statistic() == Boson) + (m2.statistic() == Boson));
}
template <int> void meshes_of_expressions(kase &c) {
  double beta = any_beta(c);
  switch (c.i(0, 9)) {
    case 0: { long n = c.i(2, 9); timeproduct(c, tmesh::imtime{beta, any_stat(c), n}, tmesh::imtime{beta, any_stat(c), n}); break; }
    case 1: { double w = c.r(1, 10), e = c.pick(std::vector<double>{1e-6, 1e-10}); timeproduct(c, tmesh::dlr_imtime{beta, any_stat(c), w, e}, tmesh::dlr_imtime{beta, any_stat(c), w, e}); break; }
    case 2: { // different DLR meshes, in most cases of the same size
      double w = c.r(1, 10), e = 1e-8;
      tmesh::dlr_imtime m1{beta, Fermion, w, e}, m2{beta, Fermion, w * (1 + c.pick(std::vector<double>{1e-9, 1e-3, 0.02, 0.3})), e};
      mismatch(c, m1, m2, false);
      break;
    }
    case 3: { long n = c.i(2, 9); mismatch(c, tmesh::imtime{beta, Fermion, n}, tmesh::imtime{beta, Boson, n}, true); break; }
    case 4: { long n = c.i(2, 9); mismatch(c, tmesh::imtime{beta, Fermion, n}, tmesh::imtime{beta * (c.chance(0.5) ? 2 : 1 + 1e-8), Fermion, n}, false); break; }
    case 5: { long n = c.i(2, 9); auto k = c.i(0, 2); mismatch(c, tmesh::imfreq{beta, Fermion, n}, k == 0 ? tmesh::imfreq{beta, Boson, n} : k == 1 ? tmesh::imfreq{beta, Fermion, n + 1} : tmesh::imfreq{beta * 1.5, Fermion, n}, false); break; }
    case 6: { long n = c.i(2, 9); auto k = c.i(0, 2); mismatch(c, tmesh::refreq{-1, 2, n}, k == 0 ? tmesh::refreq{-1.5, 2, n} : k == 1 ? tmesh::refreq{-1, 2, n + 1} : tmesh::refreq{-1, 3, n}, false); break; }
    case 7: {
      auto u = any_units(c), u2 = u;
      u2(0, 0) *= 1.25; if (std::abs(u(0, 0)) < 0.1) u2(0, 1) *= 1.25;
      auto bz = lat::brillouin_zone{lat::bravais_lattice{u}}, bz2 = lat::brillouin_zone{lat::bravais_lattice{u2}};
      auto d = any_dims(c, bz.ndim(), 4), d2 = d; d2[0]++;
      if (c.chance(0.5)) mismatch(c, tmesh::brzone{bz, d}, tmesh::brzone{bz2, d}, false); else mismatch(c, tmesh::brzone{bz, d}, tmesh::brzone{bz, d2}, false);
      break;
    }
    case 8: { auto bz = any_bz(c, 3); long n = c.i(2, 5); mismatch(c, tmesh::prod{bz, tmesh::imfreq{beta, Fermion, n}}, tmesh::prod{bz, tmesh::imfreq{beta, Boson, n}}, false); break; }
    default: { // product meshes with imaginary times
      auto bz = any_bz(c, 2); long n = c.i(2, 5);
      auto s1 = any_stat(c), s2 = any_stat(c);
      tmesh::prod m1{bz, tmesh::imtime{beta, s1, n}}, m2{bz, tmesh::imtime{beta, s2, n}};
      using M = decltype(m1);
      auto a = random_gf<scalar_valued>(c, m1), b = random_gf<scalar_valued>(c, m2);
      gf<M, scalar_valued> r; r = a * b;
      c.check(std::get<1>(r.mesh()).statistic() == (s1 == s2 ? Boson : Fermion) && std::get<0>(r.mesh()) == bz, "mesh of a product of functions of (k,tau)");
      vec x = flat(a.data()), y = flat(b.data());
      for (size_t i = 0; i < x.size(); ++i) x[i] *= y[i];
      same(c, flat(r.data()), x, 1e-14, "product of functions of (k,tau)");
      c.nontrivial(n * 4 + 2 * (s1 == Boson) + (s2 == Boson));
    }
  }
  // shapes
  auto m = any_imfreq(c);
  gf<tmesh::imfreq, matrix_valued> p{m, std::array<long, 2>{2, 2}}, q{m, std::array<long, 2>{3, 3}};
  c.throws([&] { gf<tmesh::imfreq, matrix_valued> r; r = p + q; }, "sum of different target shapes");
}

// ---------- ownership and aliasing
template <typename V, typename G, typename F> void aliases(kase &c, V &v, G &g, F &&where, const char *what) { // where(flat index in v) -> flat index in g
  long n = 1;
  for (auto x : v.data().shape()) n *= x;
  std::vector<typename G::scalar_t *> addr;
  // addresses of the elements of the view in C order
  auto &d = v.data();
  auto sh = d.shape();
  constexpr int R = std::decay_t<decltype(d)>::rank;
  std::array<long, R> ix{};
  for (long k = 0; k < n; ++k) {
    long q = k;
    for (int i = R - 1; i >= 0; --i) { ix[i] = q % sh[i]; q /= sh[i]; }
    addr.push_back(const_cast<typename G::scalar_t *>(std::apply([&](auto... i) { return &d(i...); }, ix)));
  }
  auto *base = g.data().data();
  for (long k = 0; k < n; ++k)
    if (addr[k] != base + where(k)) c.check(false, "%s: element %ld of the view does not refer to element %ld of the original", what, k, long(where(k)));
  ++vmon::S().counters["aliasing_checks"];
}
template <typename M, typename T> void ownership(kase &c, M const &m) {
  using G = gf<M, T>;
  G g = random_gf<T>(c, m);
  vec f0 = flat(g.data());
  std::vector<G> copies;
  copies.push_back(g);
  copies.push_back(G{g()});
  copies.push_back(G{std::as_const(g)()});
  { G x; x = g; copies.push_back(x); }
  { G x; x = g(); copies.push_back(x); }
  { G x = random_gf<T>(c, m); x = std::as_const(g)(); copies.push_back(std::move(x)); }
  { auto v = g(); auto w = v; copies.push_back(G{w}); }
  { G y = g; G x{std::move(y)}; copies.push_back(x); y = g; G z = random_gf<T>(c, m); z = std::move(y); copies.push_back(z); }
  for (auto &x : copies) { c.check(x.mesh() == m, "mesh of a copy"); same(c, flat(x.data()), f0, 0, "copy"); }
  auto v = g();
  tg::gf_const_view<M, T> cv = g;
  tg::gf_const_view<M, T> cv2 = v;
  auto v2 = v;
  auto id = [](long k) { return k; };
  aliases(c, v, g, id, "view");
  aliases(c, v2, g, id, "copy of a view");
  aliases(c, cv, g, id, "const view");
  aliases(c, cv2, g, id, "const view of a view");
  // write through the view: every view sees it, no copy does
  long n = g.data().size();
  if (n) {
    long k = c.i(0, n - 1);
    typename G::scalar_t val(7.5);
    switch (c.i(0, 3)) {
      case 0: v.data().data()[k] = val; break;
      case 1: v2.data().data()[k] = val; break;
      case 2: g.data().data()[k] = val; break;
      default: { long w = 1; for (auto x : g.target_shape()) w *= x; auto p = *std::next(g.mesh().begin(), k / w);
        if constexpr (T::rank == 0) v[p] = val; else if constexpr (T::rank == 2) v[p]((k % w) / g.target_shape()[1], k % g.target_shape()[1]) = val; else g.data().data()[k] = val; }
    }
    vec f = f0; f[k] = 7.5;
    same(c, flat(g.data()), f, 0, "original after a write through a view");
    same(c, flat(v2.data()), f, 0, "second view after a write");
    same(c, flat(cv.data()), f, 0, "const view after a write");
    for (auto &x : copies) same(c, flat(x.data()), f0, 0, "copy after a write to the original");
    randomize(c, copies[0].data());
    same(c, flat(g.data()), f, 0, "original after a write to a copy");
    for (size_t i = 1; i < copies.size(); ++i) same(c, flat(copies[i].data()), f0, 0, "other copy after a write to a copy");
    // rebind and assignment of views
    vec f1 = flat(copies[0].data());
    v2.rebind(copies[0]());
    same(c, flat(v2.data()), f1, 0, "rebound view");
    aliases(c, v2, copies[0], id, "rebound view");
    same(c, flat(g.data()), f, 0, "original after rebinding a view");
    v = v2; // copies the data
    same(c, flat(g.data()), f1, 0, "original after assigning a view to a view");
    aliases(c, v, g, id, "view after an assignment");
    tg::gf_const_view<M, T> cv3 = copies[1];
    cv3.rebind(g());
    aliases(c, cv3, g, id, "rebound const view");
  }
  c.nontrivial(vmon::hash_str(typeid(G).name()) + n);
}
// functions on two meshes with the same number of points: what is assigned, rebound or swapped brings its mesh along
template <typename T> void other_meshes(kase &c) {
  auto st = any_stat(c);
  double beta = any_beta(c);
  long n = c.i(2, 6);
  bool stat = c.chance(0.5);
  tmesh::imtime a{beta, st, n}, b{stat ? beta : 2 * beta, stat ? (st == Fermion ? Boson : Fermion) : st, n};
  using G = gf<tmesh::imtime, T>;
  auto g = random_gf<T>(c, a), h = random_gf<T>(c, b);
  vec fg = flat(g.data()), fh = flat(h.data());
  auto id = [](long x) { return x; };
  auto is = [&](auto const &x, auto const &m, vec const &f, const char *what) { c.check(x.mesh() == m, "mesh of a %s", what); same(c, flat(x.data()), f, 0, what); };
  { auto v = g(); v.rebind(h()); is(v, b, fh, "rebound view"); aliases(c, v, h, id, "rebound view"); }
  { tg::gf_const_view<tmesh::imtime, T> v = g; v.rebind(h()); is(v, b, fh, "rebound const view"); aliases(c, v, h, id, "rebound const view"); v.rebind(std::as_const(g)()); is(v, a, fg, "const view rebound again"); }
  { G x = h; x = g; is(x, a, fg, "assigned function"); x = h(); is(x, b, fh, "function assigned from a view"); x = std::as_const(g)(); is(x, a, fg, "function assigned from a const view"); G y = h; x = std::move(y); is(x, b, fh, "function assigned by a move"); }
  { G x = h; x = 2 * g; is(x, a, scaled(2, fg), "function assigned from an expression"); }
  { using std::swap; G x = g, y = h; swap(x, y); is(x, b, fh, "swapped function"); is(y, a, fg, "swapped function"); }
  { using std::swap; G x = g, y = h; auto v = x(), w = y(); swap(v, w); is(v, b, fh, "swapped view"); is(w, a, fg, "swapped view"); aliases(c, v, y, id, "swapped view"); is(x, a, fg, "function below a swapped view"); }
  is(g, a, fg, "source"); is(h, b, fh, "source");
  using B = block_gf<tmesh::imtime, T>;
  B p{std::vector<std::string>{"a", "b"}, std::vector<G>{g, g}}, q{std::vector<std::string>{"c", "d"}, std::vector<G>{h, h}};
  auto blocks = [&](auto const &x, bool first, const char *what) { for (int i = 0; i < 2; ++i) is(x[i], first ? a : b, first ? fg : fh, what); c.check(x.block_names() == (first ? p : q).block_names(), "names of a %s", what); };
  { auto v = p(); v.rebind(q()); blocks(v, false, "rebound block view"); }
  { block_gf_const_view<tmesh::imtime, T> v = p; v.rebind(q); blocks(v, false, "rebound const block view"); }
  { B x = p; x = q; blocks(x, false, "assigned block function"); x = p(); blocks(x, true, "block function assigned from a view"); }
  vmon::count("other_meshes");
  c.nontrivial(vmon::hash_fmt("om %d %g %ld %d %zu", int(st), beta, n, stat, fg.size()));
}
// partial evaluation, slices of the target, positive frequencies, reinterpretations
template <int> void slices(kase &c) {
  switch (c.i(0, 6)) {
    case 0: { // g[k, all] and g[all, w]
      tmesh::prod m{any_bz(c, 3), any_imfreq(c, 3)};
      auto g = random_gf<matrix_valued>(c, m);
      long nw = std::get<1>(m).size(), W = g.target_shape()[0] * g.target_shape()[1];
      auto k = *std::next(std::get<0>(m).begin(), c.i(0, std::get<0>(m).size() - 1));
      auto w = *std::next(std::get<1>(m).begin(), c.i(0, nw - 1));
      long ki = k.data_index(), wi = w.data_index();
      auto gw = g[k, all]; auto gk = g[all, w];
      c.check(gw.mesh() == std::get<1>(m) && gk.mesh() == std::get<0>(m), "mesh of a slice");
      aliases(c, gw, g, [&](long x) { return ki * nw * W + x; }, "g[k, all]");
      aliases(c, gk, g, [&](long x) { return (x / W) * nw * W + wi * W + x % W; }, "g[all, w]");
      auto cgk = std::as_const(g)[all, w];
      static_assert(decltype(cgk)::is_const);
      aliases(c, cgk, g, [&](long x) { return (x / W) * nw * W + wi * W + x % W; }, "const g[all, w]");
      vec f = flat(g.data());
      auto src = random_gf<scalar_valued>(c, std::get<0>(m));
      long a = c.i(0, g.target_shape()[0] - 1), b = c.i(0, g.target_shape()[1] - 1);
      auto sl = tg::slice_target_to_scalar(gk, a, b);
      aliases(c, sl, g, [&](long x) { return x * nw * W + wi * W + a * g.target_shape()[1] + b; }, "slice of the target of a slice of the mesh");
      sl = src;
      for (long i = 0; i < src.data().size(); ++i) f[i * nw * W + wi * W + a * g.target_shape()[1] + b] = src.data()(i);
      same(c, flat(g.data()), f, 0, "original after an assignment to a slice");
      auto v = c.cplx(); gw = v; // scalar: multiple of the unit matrix
      for (long i = 0; i < nw; ++i) for (long p = 0; p < W; ++p) f[ki * nw * W + i * W + p] = p / g.target_shape()[1] == p % g.target_shape()[1] ? v : cd(0);
      same(c, flat(g.data()), f, 0, "original after the assignment of a scalar to a slice");
      c.nontrivial(1000 + nw * 10 + W); break;
    }
    case 1: { // three variables
      tmesh::prod m{any_imfreq(c, 2), any_refreq(c, 3), any_imtime(c, 4)};
      auto g = random_gf<scalar_valued>(c, m);
      long n1 = std::get<1>(m).size(), n2 = std::get<2>(m).size();
      auto x = *std::next(std::get<0>(m).begin(), c.i(0, std::get<0>(m).size() - 1)); auto y = *std::next(std::get<1>(m).begin(), c.i(0, n1 - 1)); auto z = *std::next(std::get<2>(m).begin(), c.i(0, n2 - 1));
      long i = x.data_index(), j = y.data_index(), k = z.data_index();
      { auto v = g[x, all, all]; c.check(std::get<0>(v.mesh()) == std::get<1>(m) && std::get<1>(v.mesh()) == std::get<2>(m), "mesh of g[x, all, all]"); aliases(c, v, g, [&](long q) { return i * n1 * n2 + q; }, "g[x, all, all]"); }
      { auto v = g[all, y, all]; c.check(std::get<0>(v.mesh()) == std::get<0>(m) && std::get<1>(v.mesh()) == std::get<2>(m), "mesh of g[all, y, all]"); aliases(c, v, g, [&](long q) { return (q / n2) * n1 * n2 + j * n2 + q % n2; }, "g[all, y, all]"); }
      { auto v = g[all, all, z]; c.check(std::get<0>(v.mesh()) == std::get<0>(m) && std::get<1>(v.mesh()) == std::get<1>(m), "mesh of g[all, all, z]"); aliases(c, v, g, [&](long q) { return q * n2 + k; }, "g[all, all, z]"); }
      { auto v = g[x, y, all]; c.check(v.mesh() == std::get<2>(m), "mesh of g[x, y, all]"); aliases(c, v, g, [&](long q) { return (i * n1 + j) * n2 + q; }, "g[x, y, all]"); }
      { auto v = g[x, all, z]; c.check(v.mesh() == std::get<1>(m), "mesh of g[x, all, z]"); aliases(c, v, g, [&](long q) { return (i * n1 + q) * n2 + k; }, "g[x, all, z]"); }
      { auto v = g[all, y, z]; c.check(v.mesh() == std::get<0>(m), "mesh of g[all, y, z]"); aliases(c, v, g, [&](long q) { return (q * n1 + j) * n2 + k; }, "g[all, y, z]");
        auto u = g[all, all, z]; auto uu = u[all, y]; aliases(c, uu, g, [&](long q) { return (q * n1 + j) * n2 + k; }, "slice of a slice"); }
      c.check(&g[x, y, z] == &g.data()(i, j, k), "g[x, y, z]");
      c.check(&g[std::make_tuple(x, y, z)] == &g.data()(i, j, k), "g[tuple]");
      c.nontrivial(2000 + n1 * 10 + n2); break;
    }
    case 2: { // slices of the target
      auto m = any_imfreq(c);
      gf<tmesh::imfreq, matrix_valued> g{m, std::array<long, 2>{c.i(1, 4), c.i(1, 4)}};
      randomize(c, g.data());
      long N = g.target_shape()[0], P = g.target_shape()[1], a = c.i(0, N - 1), b = c.i(a, N - 1), p = c.i(0, P - 1), q = c.i(p, P - 1);
      auto v = tg::slice_target(g, nda::range(a, b + 1), nda::range(p, q + 1));
      c.check(v.mesh() == m && v.target_shape()[0] == b - a + 1 && v.target_shape()[1] == q - p + 1, "shape of a slice of the target");
      long nc = q - p + 1, nr = b - a + 1;
      aliases(c, v, g, [&](long x) { long w = x / (nr * nc), r = x % (nr * nc); return w * N * P + (a + r / nc) * P + p + r % nc; }, "slice_target");
      auto s = tg::slice_target_to_scalar(v, nr - 1, 0);
      aliases(c, s, g, [&](long x) { return x * N * P + b * P + p; }, "slice_target_to_scalar of a slice_target");
      auto cs = tg::slice_target_to_scalar(std::as_const(g), a, q);
      aliases(c, cs, g, [&](long x) { return x * N * P + a * P + q; }, "const slice_target_to_scalar");
      auto h = random_gf<scalar_valued>(c, m);
      vec f = flat(g.data());
      switch (c.i(0, 3)) {
        case 0: s = h; for (long w = 0; w < m.size(); ++w) f[w * N * P + b * P + p] = h.data()(w); break;
        case 1: s += h; for (long w = 0; w < m.size(); ++w) f[w * N * P + b * P + p] += h.data()(w); break;
        case 2: s = cs * h; { vec o = f; for (long w = 0; w < m.size(); ++w) f[w * N * P + b * P + p] = o[w * N * P + a * P + q] * cd(h.data()(w)); } break;
        default: s *= 2.0; for (long w = 0; w < m.size(); ++w) f[w * N * P + b * P + p] *= 2;
      }
      same(c, flat(g.data()), f, 1e-14, "original after a change of a slice of the target");
      c.nontrivial(3000 + N * 10 + P); break;
    }
    case 3: { // tensors
      auto m = any_refreq(c);
      auto g = random_gf<tensor_valued<4>>(c, m);
      auto sh = g.target_shape();
      long i = c.i(0, sh[0] - 1), j = c.i(0, sh[1] - 1), k = c.i(0, sh[2] - 1), l = c.i(0, sh[3] - 1), W = sh[0] * sh[1] * sh[2] * sh[3];
      auto s = tg::slice_target_to_scalar(g, i, j, k, l);
      aliases(c, s, g, [&](long x) { return x * W + ((i * sh[1] + j) * sh[2] + k) * sh[3] + l; }, "element of a tensor valued function");
      auto t = tg::slice_target(g, i, all, k, all);
      aliases(c, t, g, [&](long x) { long w = x / (sh[1] * sh[3]), r = x % (sh[1] * sh[3]); return w * W + ((i * sh[1] + r / sh[3]) * sh[2] + k) * sh[3] + r % sh[3]; }, "matrix slice of a tensor valued function");
      c.nontrivial(4000 + W); break;
    }
    case 4: { // positive frequencies
      tmesh::imfreq m{any_beta(c), any_stat(c), c.i(1, 9)};
      auto g = random_gf<matrix_valued>(c, m);
      auto v = tg::positive_freq_view(g);
      long W = g.target_shape()[0] * g.target_shape()[1], first = -m.first_index();
      c.check(v.mesh().positive_only() && v.mesh().beta() == m.beta() && v.mesh().statistic() == m.statistic() && v.mesh().size() == m.last_index() + 1 && v.mesh().last_index() == m.last_index(), "mesh of the positive frequencies");
      aliases(c, v, g, [&](long x) { return first * W + x; }, "positive_freq_view");
      for (auto w : v.mesh()) same(c, flat(v[w]), flat(g[w.index()]), 0, "positive frequency");
      auto vv = tg::positive_freq_view(v);
      aliases(c, vv, g, [&](long x) { return first * W + x; }, "positive_freq_view of itself");
      // unfold: G(-i w) = conj G(i w)
      auto u = tg::make_gf_from_real_gf(tg::make_const_view(gf{v}));
      c.check(u.mesh() == m, "mesh of the unfolded function");
      for (auto w : m) same(c, flat(u[w]), m.statistic() == Fermion && w.index() < 0 ? conjugated(flat(g[-w.index() - 1])) : w.index() < 0 ? conjugated(flat(g[-w.index()])) : flat(g[w.index()]), 0, "unfolded function");
      c.throws([&] { tg::make_gf_from_real_gf(tg::make_const_view(g)); }, "unfolding of a function on all frequencies");
      auto cvp = tg::positive_freq_view(std::as_const(g)());
      aliases(c, cvp, g, [&](long x) { return first * W + x; }, "positive_freq_view of a const view");
      c.nontrivial(5000 + m.size()); break;
    }
    case 5: { // scalar as 1x1 matrix
      auto m = any_imtime(c);
      auto g = random_gf<scalar_valued>(c, m);
      auto v = tg::reinterpret_scalar_valued_gf_as_matrix_valued(g);
      c.check(v.mesh() == m && v.target_shape()[0] == 1 && v.target_shape()[1] == 1, "shape of the reinterpretation");
      aliases(c, v, g, [](long x) { return x; }, "reinterpretation as a matrix");
      vec f = flat(g.data());
      long k = c.i(0, m.size() - 1);
      v.data()(k, 0, 0) = 3; f[k] = 3;
      same(c, flat(g.data()), f, 0, "write through the reinterpretation");
      c.nontrivial(6000 + m.size()); break;
    }
    default: { // apply_on_data: the lambda decides which part is seen
      auto m = any_legendre(c);
      auto g = random_gf<matrix_valued>(c, m);
      long n = g.target_shape()[0];
      auto tr = g.apply_on_data([](auto &&d) { return nda::transposed_view(d, 0, 2, 1); });
      aliases(c, tr, g, [&](long x) { long w = x / (n * n), r = x % (n * n); return w * n * n + (r % n) * n + r / n; }, "transposed view of the data");
      gf old = g;
      tr = old; // transposes g
      for (auto l : m) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) c.check(g[l](i, j) == old[l](j, i), "assignment to a transposed view");
      c.nontrivial(7000 + n);
    }
  }
}
// ---------- functions of a gf
template <typename M> void functions(kase &c, M const &m) {
  auto g = partner(c, random_gf<matrix_valued>(c, m));
  auto A = points(g);
  long n = g.target_shape()[0];
  vec f = flat(g.data());
  auto all_of = [&](auto fn) { vec r; for (auto &x : A) { auto p = fn(x); r.insert(r.end(), p.v.begin(), p.v.end()); } return r; };
  vec iv = all_of([](pt const &p) { return inv(p); });
  { auto r = inverse(g); c.check(r.mesh() == m, "mesh"); same(c, flat(r.data()), iv, 1e-11 * std::max(1.0, norm(iv)), "inverse"); }
  { auto r = inverse(g()); same(c, flat(r.data()), iv, 1e-11 * std::max(1.0, norm(iv)), "inverse of a view"); }
  { auto r = inverse(tg::make_const_view(g)); same(c, flat(r.data()), iv, 1e-11 * std::max(1.0, norm(iv)), "inverse of a const view"); }
  same(c, flat(g.data()), f, 0, "operand of inverse");
  { auto r = g; tg::invert_in_place(r()); same(c, flat(r.data()), iv, 1e-11 * std::max(1.0, norm(iv)), "invert_in_place"); }
  vec tr = all_of([](pt p) { pt q = p; for (long i = 0; i < p.n; ++i) for (long j = 0; j < p.n; ++j) q.v[j * p.n + i] = p.v[i * p.n + j]; return q; });
  if constexpr (gf<M, matrix_valued>::arity == 1) { auto r = tg::transpose(g()); same(c, flat(r.data()), tr, 0, "transpose"); randomize(c, r.data()); same(c, flat(g.data()), f, 0, "operand of transpose"); }
  { auto r = tg::conj(g); c.check(r.mesh() == m, "mesh"); same(c, flat(r.data()), conjugated(f), 0, "conj"); }
  { auto r = tg::conj(g()); same(c, flat(r.data()), conjugated(f), 0, "conj of a view"); }
  vec re = f, im = f;
  for (auto &x : re) x = x.real();
  for (auto &x : im) x = x.imag();
  { auto r = tg::real(g); static_assert(std::is_same_v<std::decay_t<decltype(r)>, gf<M, matrix_real_valued>>); c.check(r.mesh() == m, "mesh"); same(c, flat(r.data()), re, 0, "real part"); c.check(tg::is_gf_real(gf<M, matrix_valued>{m, nda::array<cd, gf<M, matrix_valued>::data_rank>(r.data())}), "the real part is real"); }
  { auto r = tg::imag(g()); same(c, flat(r.data()), im, 0, "imaginary part"); }
  // is_gf_real: decided by the largest imaginary part
  {
    auto r = g;
    auto *p = r.data().data();
    double tolr = c.pick(std::vector<double>{1e-13, 1e-8, 1e-2});
    for (long i = 0; i < r.data().size(); ++i) p[i] = cd(p[i].real(), 0.5 * tolr * c.r(-1, 1));
    c.check(tg::is_gf_real(r, tolr), "real function within the tolerance");
    long k = c.i(0, r.data().size() - 1);
    p[k] = cd(p[k].real(), (c.chance(0.5) ? 2 : -2) * tolr);
    c.check(!tg::is_gf_real(r, tolr), "imaginary part of element %ld ignored", k);
  }
  if constexpr (gf<M, matrix_valued>::arity == 1) {
    nda::matrix<cd> L(n, n), R(n, n);
    randomize(c, nda::array_view<cd, 2>(L)); randomize(c, nda::array_view<cd, 2>(R));
    pt l{flat(L), n}, r{flat(R), n};
    { auto x = g * R; same(c, flat(x.data()), all_of([&](pt const &p) { return mul(p, r); }), 1e-12 * 20, "gf * matrix"); }
    { auto x = L * g; same(c, flat(x.data()), all_of([&](pt const &p) { return mul(l, p); }), 1e-12 * 20, "matrix * gf"); }
    { auto x = L * g * R; same(c, flat(x.data()), all_of([&](pt const &p) { return mul(mul(l, p), r); }), 1e-12 * 100, "matrix * gf * matrix"); }
    same(c, flat(g.data()), f, 0, "operand of a product with a matrix");
    // L G R with other dimensions
    long q = c.i(1, 4), s = c.i(1, 4);
    nda::matrix<cd> L2(q, n), R2(n, s);
    randomize(c, nda::array_view<cd, 2>(L2)); randomize(c, nda::array_view<cd, 2>(R2));
    gf<M, matrix_valued> x{m, std::array<long, 2>{q, s}};
    randomize(c, x.data());
    auto xv = x();
    tg::set_from_L_G_R(xv, L2, g, R2);
    vec ref;
    for (auto &p : A) for (long i = 0; i < q; ++i) for (long j = 0; j < s; ++j) { cd z = 0; for (long a = 0; a < n; ++a) for (long b = 0; b < n; ++b) z += L2(i, a) * p.v[a * n + b] * R2(b, j); ref.push_back(z); }
    same(c, flat(x.data()), ref, 1e-12 * 100, "set_from_L_G_R");
    c.nontrivial(n * 100 + q * 10 + s);
  } else c.nontrivial(n);
  // flattening
  auto flatten = [&](auto N) {
    constexpr int K = decltype(N)::value;
    auto t = random_gf<tensor_valued<3>>(c, m);
    auto fl = tg::flatten_gf_2d<K>(t);
    auto const &mk = tg::get_mesh<K>(t);
    c.check(fl.mesh() == mk, "mesh of the flattened function");
    long cols = t.data().size() / mk.size();
    c.check(fl.target_shape()[0] == cols, "size of the flattened function");
    vec ft = flat(t.data()), ff = flat(fl.data());
    // dimension K of t as rows
    long before = 1, after = 1;
    for (int i = 0; i < t.data_rank; ++i) (i < K ? before : after) *= i == K ? 1 : t.data().shape()[i];
    // the other dimensions in the original order
      for (long r = 0; r < mk.size(); ++r) for (long x = 0; x < before; ++x) for (long y = 0; y < after; ++y)
        if (ff[r * cols + x * after + y] != ft[(x * mk.size() + r) * after + y]) c.check(false, "flattened element (%ld, %ld)", r, x * after + y);
    for (long r = 0; r < mk.size(); ++r) { // every row has the same content
      std::multiset<std::pair<double, double>> a, b;
      for (long x = 0; x < before; ++x) for (long y = 0; y < after; ++y) { a.insert({ff[r * cols + x * after + y].real(), ff[r * cols + x * after + y].imag()}); auto z = ft[(x * mk.size() + r) * after + y]; b.insert({z.real(), z.imag()}); }
      c.check(a == b, "content of row %ld of the flattened function", r);
    }
    auto u = t; randomize(c, u.data());
    tg::unflatten_gf_2d<K>(u, fl);
    same(c, flat(u.data()), ft, 0, "unflattened function");
    ++vmon::S().counters["flattenings"];
  };
  flatten(std::integral_constant<int, 0>{});
  if constexpr (gf<M, matrix_valued>::arity > 1) flatten(std::integral_constant<int, 1>{});
  if constexpr (gf<M, matrix_valued>::arity > 2) flatten(std::integral_constant<int, 2>{});
}
// ---------- lazy expressions
static cd vp(auto const &p) { return cd(p.value()); }
template <int> void lazy(kase &c) {
  nda::clef::placeholder<0> x_; nda::clef::placeholder<1> y_; nda::clef::placeholder<2> i_; nda::clef::placeholder<3> j_;
  cd a(c.r(-1, 1), c.r(-1, 1)); double b = c.r(3, 5);
  auto one = [&](auto const &m) {
    using M = std::decay_t<decltype(m)>;
    auto h = random_gf<scalar_valued>(c, m);
    vec fh = flat(h.data());
    gf<M, scalar_valued> g{m};
    long k = 0;
    auto expect = [&](auto fn, const char *what) { k = 0; for (auto p : m) { cd r = fn(cd(p.value()), fh[k]); cd got = g.data()(k); if (!(std::abs(got - r) <= 1e-13 * (1 + std::abs(r)))) c.check(false, "%s at point %ld: (%g,%g) instead of (%g,%g)", what, k, got.real(), got.imag(), r.real(), r.imag()); ++k; } ++vmon::S().counters["lazy_assignments"]; };
    cd off(20, b);
    g(x_) << 1.0 / (x_ + off); expect([&](cd z, cd) { return 1.0 / (z + off); }, "g(x_) << 1/(x_ + a)");
    g[x_] << 1.0 / (x_ + off) + a; expect([&](cd z, cd) { return 1.0 / (z + off) + a; }, "g[x_] << 1/(x_ + a) + b");
    g[x_] << h[x_] * x_ - a; expect([&](cd z, cd v) { return v * z - a; }, "g[x_] << h[x_] * x_ - a");
    g[x_] << h[x_]; g[x_] << g[x_] * 2.0 + h[x_]; expect([&](cd, cd v) { return 3.0 * v; }, "g[x_] << 2 g[x_] + h[x_]");
    g() = h; { auto v = g(); v[x_] << a - v[x_]; } expect([&](cd, cd v) { return a - v; }, "v[x_] << a - v[x_]");
    same(c, flat(h.data()), fh, 0, "operand of a lazy expression");
    // matrix valued, with lazy indices and matrix expressions
    gf<M, matrix_valued> gm{m, std::array<long, 2>{2, 2}};
    gm[x_](i_, j_) << 1.0 / (x_ + off) + i_ * 3.0 + j_;
    for (auto p : m) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) c.check(std::abs(gm[p](i, j) - (1.0 / (cd(p.value()) + off) + i * 3.0 + double(j))) < 1e-13, "g[x_](i_, j_) << expression");
    gm[x_] << x_ + a; // a multiple of the unit matrix
    for (auto p : m) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) c.check(std::abs(gm[p](i, j) - (i == j ? cd(p.value()) + a : cd(0))) < 1e-13, "scalar expression assigned to a matrix valued function");
    gf<M, matrix_valued> hm{m, std::array<long, 2>{2, 2}}; hm = partner(c, hm);
    gm[x_] << hm[x_] * hm[x_] - 1.0 / hm[x_];
    auto H = points(hm); vec fm = flat(gm.data());
    for (size_t i = 0; i < H.size(); ++i) { auto r = add(mul(H[i], H[i]), inv(H[i]), -1); for (int q = 0; q < 4; ++q) c.check(std::abs(fm[4 * i + q] - r.v[q]) < 1e-11 * 50, "matrix expression at point %zu", i); }
    auto s = tg::slice_target_to_scalar(gm, 0, 1);
    s[x_] << a;
    for (size_t i = 0; i < H.size(); ++i) c.check(gm.data()(long(i), 0, 1) == a && gm.data()(long(i), 1, 0) == fm[4 * i + 2] && gm.data()(long(i), 0, 0) == fm[4 * i], "lazy assignment to a slice");
    c.nontrivial(vmon::hash_str(typeid(M).name()) + m.size());
  };
  switch (c.i(0, 4)) {
    case 0: one(any_imfreq(c)); break;
    case 1: one(any_refreq(c)); break;
    case 2: one(any_imtime(c)); break;
    case 3: one(any_retime(c)); break;
    default: {
      tmesh::prod m{any_imfreq(c, 4), any_refreq(c, 5)};
      gf<decltype(m), scalar_valued> g{m}, h = random_gf<scalar_valued>(c, m);
      auto q = random_gf<scalar_valued>(c, std::get<1>(m));
      cd off(20, b);
      g[x_, y_] << h[x_, y_] / (x_ + off) + q[y_] * y_;
      for (auto [x, y] : m) c.check(std::abs(g[x, y] - (h[x, y] / (cd(x.value()) + off) + q[y] * y.value())) < 1e-12 * 50, "g[x_, y_] << expression");
      g(x_, y_) << x_ + a * y_;
      for (auto [x, y] : m) c.check(std::abs(g[x, y] - (cd(x.value()) + a * y.value())) < 1e-12, "g(x_, y_) << expression");
      gf<decltype(m), scalar_valued> r{m};
      r[x_, y_] << g[x_, y_];
      same(c, flat(r.data()), flat(g.data()), 0, "copy by a lazy expression");
      // one variable fixed
      auto x0 = *std::next(std::get<0>(m).begin(), c.i(0, std::get<0>(m).size() - 1));
      auto sl = g[x0, all];
      sl[y_] << q[y_] - y_;
      for (auto [x, y] : m) { cd want = x.data_index() == x0.data_index() ? q[y] - y.value() : r[x, y]; c.check(std::abs(g[x, y] - want) < 1e-12, "lazy assignment to g[x, all]"); }
      // tensor product of functions
      auto p = random_gf<scalar_valued>(c, std::get<0>(m));
      g[x_, y_] << p[x_] * q[y_];
      for (auto [x, y] : m) c.check(std::abs(g[x, y] - p[x] * q[y]) < 1e-14, "outer product");
      // a gf valued target assigned point by point
      gf<tmesh::imfreq, matrix_valued> gm{std::get<0>(m), std::array<long, 2>{2, 2}};
      auto v = nda::matrix<cd>{{a, 1.0}, {0.5, b}};
      gm[x_] << v * p[x_];
      for (auto x : gm.mesh()) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) c.check(std::abs(gm[x](i, j) - v(i, j) * p[x]) < 1e-13, "matrix times scalar function");
      c.nontrivial(99 + m.size());
    }
  }
}
// ---------- Matsubara symmetries
template <typename T> vec adjoint(vec const &v, std::array<long, T::rank> sh, bool transpose) {
  vec r = conjugated(v);
  if (!transpose || T::rank == 0) return r;
  vec q = r;
  if constexpr (T::rank == 2) { for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) q[i * sh[1] + j] = r[j * sh[1] + i]; }
  if constexpr (T::rank == 4)
    for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) for (long k = 0; k < sh[2]; ++k) for (long l = 0; l < sh[3]; ++l) q[((i * sh[1] + j) * sh[2] + k) * sh[3] + l] = r[((k * sh[1] + l) * sh[2] + i) * sh[3] + j];
  return q;
}
template <typename T, typename M> void hermiticity(kase &c, M const &m) {
  constexpr bool freq = std::is_same_v<M, tmesh::imfreq>;
  std::array<long, T::rank> sh;
  if constexpr (T::rank == 2) { long n = c.i(1, 3); sh = {n, n}; }
  if constexpr (T::rank == 4) { long n = c.i(1, 2), k = c.i(1, 2); sh = {n, k, n, k}; }
  gf<M, T> g{m, sh};
  randomize(c, g.data());
  long L = m.size();
  auto at = [&](auto const &h, long k) { vec r; if constexpr (T::rank == 0) r = {h.data()(k)}; else r = flat(h.data()(k, nda::ellipsis{})); return r; };
  auto mirror = [&](long k) { return freq ? L - 1 - k : k; };
  for (bool tau : {false, true}) {
    if (tau && !freq) continue;
    auto sym = g;
    if (tau) { if constexpr (freq) sym = tg::make_real_in_tau(g); } else sym = tg::make_hermitian(g);
    c.check(sym.mesh() == m, "mesh of the symmetrised function");
    auto test = [&](auto const &h, double tol) { if (tau) { if constexpr (freq) return tg::is_gf_real_in_tau(h, tol); else return true; } else return tg::is_gf_hermitian(h, tol); };
    for (long k = 0; k < L; ++k) {
      vec r = at(g, k);
      vec o = adjoint<T>(at(g, mirror(k)), sh, !tau);
      for (size_t i = 0; i < r.size(); ++i) r[i] = 0.5 * (r[i] + o[i]);
      same(c, at(sym, k), r, 1e-15, tau ? "make_real_in_tau" : "make_hermitian");
    }
    c.check(test(sym, 1e-14), "the symmetrised function has the symmetry");
    { auto twice = sym; if (tau) { if constexpr (freq) twice = tg::make_real_in_tau(sym()); } else twice = tg::make_hermitian(sym()); same(c, flat(twice.data()), flat(sym.data()), 1e-15, "symmetrising twice"); }
    // a violation in one element at one frequency
    double tol = c.pick(std::vector<double>{1e-12, 1e-6, 1e-2});
    long k = c.i(0, L - 1);
    auto bad = sym;
    long W = bad.data().size() / L, e = c.i(0, W - 1);
    auto &z = bad.data().data()[k * W + e];
    cd d = std::polar(1.0, c.r(-3, 3));
    // points which are their own partner only see the part of the change that breaks the symmetry
    auto self = [&] { vec u(W); u[e] = d; vec v = adjoint<T>(u, sh, !tau); return mirror(k) == k ? std::max(std::abs(v[e] - u[e]), v[e] == cd(0) ? 1.0 : 0.0) : 1.0; }();
    if (self > 0.1) {
      z += d * (3 * tol / self);
      c.check(!test(bad, tol), "violation of %g at point %ld, element %ld not seen", 3 * tol, k, e);
      z -= d * (2.7 * tol / self);
      c.check(test(bad, tol), "violation below the tolerance reported");
      ++vmon::S().counters["violations_planted"];
    }
  }
  same(c, flat(g.data()), flat(gf{g()}.data()), 0, "argument unchanged");
  c.nontrivial(T::rank * 1000 + L * 2 + freq);
}
template <int> void symmetries(kase &c) {
  tmesh::imfreq mf{any_beta(c), any_stat(c), c.i(1, 7)};
  auto mt = any_imtime(c);
  switch (c.i(0, 5)) {
    case 0: hermiticity<scalar_valued>(c, mf); break;
    case 1: hermiticity<matrix_valued>(c, mf); break;
    case 2: hermiticity<tensor_valued<4>>(c, mf); break;
    case 3: hermiticity<scalar_valued>(c, mt); break;
    case 4: hermiticity<matrix_valued>(c, mt); break;
    default: hermiticity<tensor_valued<4>>(c, mt);
  }
  // positive frequencies only: nothing to check
  tmesh::imfreq mp{2, Fermion, 4, tmesh::imfreq::option::positive_frequencies_only};
  auto gp = random_gf<matrix_valued>(c, mp);
  c.check(tg::is_gf_hermitian(gp) && tg::is_gf_real_in_tau(gp), "positive frequencies only");
  same(c, flat(tg::make_hermitian(gp).data()), flat(gp.data()), 0, "make_hermitian of positive frequencies");
}
// ---------- block functions
template <int> void blocks(kase &c) {
  auto m = any_imfreq(c);
  using G = gf<tmesh::imfreq, matrix_valued>;
  using B = block_gf<tmesh::imfreq, matrix_valued>;
  int nb = c.i(1, 4);
  std::vector<std::string> names;
  std::vector<G> v;
  tg::gf_struct_t st;
  for (int i = 0; i < nb; ++i) {
    std::string s;
    for (int k = c.i(1, 6); k--;) s += "abz_0 1-"[c.i(0, 7)];
    names.push_back(s + std::to_string(i));
    long n = c.i(1, 3);
    st.push_back({names.back(), n});
    G x{m, std::array<long, 2>{n, n}};
    v.push_back(partner(c, x));
  }
  B b{names, v};
  auto check = [&](auto const &x, std::vector<vec> const &ref, double tol, const char *what) {
    c.check(x.size() == nb && x.block_names() == names, "%s: structure", what);
    for (int i = 0; i < nb; ++i) { c.check(x[i].mesh() == m, "%s: mesh of block %d", what, i); same(c, flat(x[i].data()), ref[i], tol, what); }
  };
  auto data = [&](auto const &x) { std::vector<vec> r; for (int i = 0; i < nb; ++i) r.push_back(flat(x[i].data())); return r; };
  auto f = data(v);
  check(b, f, 0, "block function");
  { B e{m, st}; c.check(e.block_names() == names, "names from a structure"); for (int i = 0; i < nb; ++i) c.check(e[i].target_shape()[0] == st[i].second && e[i].mesh() == m, "block of a structure"); std::vector<int> sz; for (auto &s : st) sz.push_back(s.second); c.check(e.block_sizes() == sz, "block_sizes"); }
  c.throws([&] { B e(std::vector<std::string>(nb + 1, "x"), v); }, "names and blocks of different number");
  // iteration
  { int k = 0; for (auto &x : b) { c.check(&x == &b[k], "iteration"); ++k; } c.eq(k, nb, "number of blocks visited"); k = 0; for (auto const &x : std::as_const(b)) { c.check(&x == &b[k], "const iteration"); ++k; } c.eq(k, nb, "number of blocks visited");
    k = 0; for (auto it = b.cbegin(); it != b.cend() && k <= nb; ++it, ++k) same(c, flat((*it).data()), f[k], 0, "cbegin/cend"); c.eq(k, nb, "number of blocks visited with cbegin/cend"); }
  // copies and views
  B cp = b, cp2{b()}, cp3; cp3 = b();
  B cp4; cp4 = std::as_const(b)();
  auto view = b(); block_gf_view<tmesh::imfreq, matrix_valued> view2 = view; block_gf_const_view<tmesh::imfreq, matrix_valued> cview = b;
  int w = c.i(0, nb - 1);
  long k = c.i(0, b[w].data().size() - 1);
  auto id = [](long q) { return q; };
  for (int i = 0; i < nb; ++i) { aliases(c, view[i], b[i], id, "block of a view"); aliases(c, view2[i], b[i], id, "block of a copy of a view"); auto cv = cview[i]; aliases(c, cv, b[i], id, "block of a const view"); }
  auto f2 = f; f2[w][k] = 9;
  switch (c.i(0, 2)) { case 0: b[w].data().data()[k] = 9; break; case 1: view[w].data().data()[k] = 9; break; default: view2[w].data().data()[k] = 9; }
  check(b, f2, 0, "write through a block view"); check(view2, f2, 0, "block view after a write"); check(cview, f2, 0, "const block view after a write");
  check(cp, f, 0, "copy"); check(cp2, f, 0, "copy of a view"); check(cp3, f, 0, "assigned copy"); check(cp4, f, 0, "assigned copy of a const view");
  view = cp; check(b, f, 0, "assignment to a block view");
  view2.rebind(cp()); for (int i = 0; i < nb; ++i) aliases(c, view2[i], cp[i], id, "block of a rebound view");
  cview.rebind(cp2); for (int i = 0; i < nb; ++i) { auto cv = cview[i]; aliases(c, cv, cp2[i], id, "block of a rebound const view"); }
  // arithmetic
  B d = b;
  for (auto &x : d) x = partner(c, x);
  auto fd = data(d);
  cd s(c.r(0.5, 2), c.r(-1, 1));
  auto per = [&](auto fn) { std::vector<vec> r; for (int i = 0; i < nb; ++i) { auto X = points(b[i]), Y = points(d[i]); for (size_t q = 0; q < X.size(); ++q) X[q] = fn(X[q], Y[q]); r.push_back(join(X)); } return r; };
  int op = c.i(0, 9);
  std::vector<vec> ref;
  B r;
  switch (op) {
    case 0: r = b + d; ref = per([](pt x, pt y) { return add(x, y); }); break;
    case 1: r = B{b - d}; ref = per([](pt x, pt y) { return add(x, y, -1); }); break;
    case 2: r = b * d; ref = per([](pt x, pt y) { return mul(x, y); }); break;
    case 3: r = b / d; ref = per([](pt x, pt y) { return mul(x, inv(y)); }); break;
    case 4: r = s * b; ref = per([&](pt x, pt) { return scale(x, s); }); break;
    case 5: r = b / s; ref = per([&](pt x, pt) { return scale(x, 1.0 / s); }); break;
    case 6: r = -b; ref = per([&](pt x, pt) { return scale(x, -1); }); break;
    case 7: r = 2.0 * b - d * s; ref = per([&](pt x, pt y) { return add(scale(x, 2), y, -1).v.empty() ? x : [&] { pt q = scale(x, 2); for (size_t i = 0; i < q.v.size(); ++i) q.v[i] -= s * y.v[i]; return q; }(); }); break;
    case 8: r = b; r += d; r *= s; ref = per([&](pt x, pt y) { return scale(add(x, y), s); }); break;
    default: r = b; { auto rv = r(); rv -= d; rv = rv + b; } ref = per([&](pt x, pt y) { return add(add(x, y, -1), x); });
  }
  check(r, ref, 1e-11 * 50, "block arithmetic");
  check(b, f, 0, "left block operand"); check(d, fd, 0, "right block operand");
  { B e = b; e() = s; for (int i = 0; i < nb; ++i) for (auto p : m) for (long x = 0; x < st[i].second; ++x) for (long y = 0; y < st[i].second; ++y) c.check(e[i][p](x, y) == (x == y ? s : cd(0)), "scalar assigned to a block view"); }
  // map
  { auto q = tg::map_block_gf([](auto const &x) { return G{2.0 * x}; }, b); static_assert(std::is_same_v<decltype(q), B>); auto t = f; for (auto &x : t) x = scaled(2, x); check(q, t, 1e-14, "map to functions"); }
  { auto q = tg::map_block_gf([](auto const &x) { return x.target_shape()[0]; }, b); for (int i = 0; i < nb; ++i) c.eq(q[i], st[i].second, "map to numbers"); }
  { auto q = tg::map_block_gf([](auto &&x) { return tg::slice_target(x, nda::range(0, 1), nda::range(0, 1)); }, b); c.check(q.block_names() == names, "names of a map"); for (int i = 0; i < nb; ++i) { long W = st[i].second * st[i].second; aliases(c, q[i], b[i], [W](long x) { return x * W; }, "map to views"); } }
  { auto q = inverse(b); check(q, per([](pt x, pt) { return inv(x); }), 1e-11 * 50, "inverse of a block function"); auto q2 = inverse(b()); check(q2, per([](pt x, pt) { return inv(x); }), 1e-11 * 50, "inverse of a block view"); }
  { auto q = tg::real(b); auto t = f; for (auto &x : t) for (auto &z : x) z = z.real(); check(q, t, 0, "real part of a block function"); auto q2 = tg::imag(b); t = f; for (auto &x : t) for (auto &z : x) z = z.imag(); check(q2, t, 0, "imaginary part of a block function"); c.check(!tg::is_gf_real(b) || [&] { for (auto &x : t) if (norm(x) > 1e-13) return false; return true; }(), "is_gf_real of a block function"); }
  if (!m.positive_only()) {
    auto h = tg::make_hermitian(b); c.check(tg::is_gf_hermitian(h) && h.block_names() == names, "hermitian block function");
    for (int i = 0; i < nb; ++i) same(c, flat(h[i].data()), flat(tg::make_hermitian(b[i]).data()), 0, "make_hermitian of a block function");
    auto t = tg::make_real_in_tau(b); c.check(tg::is_gf_real_in_tau(t), "block function real in tau");
    for (int i = 0; i < nb; ++i) same(c, flat(t[i].data()), flat(tg::make_real_in_tau(b[i]).data()), 0, "make_real_in_tau of a block function");
    double dev = c.pick(std::vector<double>{1e-8, 1e-4, 1e-1});
    auto mark = [&](auto &q) { q[w].data().data()[c.i(0, q[w].data().size() - 1)] += dev * cd(0.6, 0.8); };
    mark(h); c.check(!tg::is_gf_hermitian(h), "violation in block %d", w);
    c.check(!tg::is_gf_hermitian(h, dev / 4) && tg::is_gf_hermitian(h, dev * 4), "hermitian within a tolerance, deviation %g in block %d", dev, w);
    c.check(!tg::is_gf_real_in_tau(t, -1.), "nothing is within a negative tolerance");
    mark(t); c.check(!tg::is_gf_real_in_tau(t) && !tg::is_gf_real_in_tau(t, dev / 4) && tg::is_gf_real_in_tau(t, dev * 4), "real in tau within a tolerance, deviation %g in block %d", dev, w);
    B r{tg::real(b) * cd(1)}; c.check(tg::is_gf_real(r), "real block function"); mark(r); c.check(!tg::is_gf_real(r) && !tg::is_gf_real(r, dev / 4) && tg::is_gf_real(r, dev * 4), "real within a tolerance, deviation %g in block %d", dev, w);
    h[w].data().data()[c.i(0, h[w].data().size() - 1)] += cd(1, 2); c.check(!tg::is_gf_hermitian(h, 0.2), "violation in block %d", w);
  }
  // lazy
  { nda::clef::placeholder<0> x_; nda::clef::placeholder<1> b_; B e = b; e[b_][x_] << d[b_][x_] * 2.0; auto t = fd; for (auto &x : t) x = scaled(2, x); check(e, t, 1e-13, "e[b_][x_] << 2 d[b_][x_]"); e(b_)(x_) << x_ * s; for (int i = 0; i < nb; ++i) for (auto p : m) for (long x = 0; x < st[i].second; ++x) for (long y = 0; y < st[i].second; ++y) c.check(std::abs(e[i][p](x, y) - (x == y ? p.value() * s : cd(0))) < 1e-12, "e(b_)(x_) << x_ * s"); }
  // structures which do not match
  { std::vector<G> few(v.begin(), v.end() - 1); std::vector<std::string> fn(names.begin(), names.end() - 1); B sm{fn, few}; auto bv = b(); auto sv = sm();
    c.throws([&] { bv = sm; }, "block view assigned from fewer blocks"); c.throws([&] { bv = sv; }, "block view assigned from a view with fewer blocks"); c.throws([&] { sv = bv; }, "block view assigned from a view with more blocks");
    c.throws([&] { B q; q = b + sm; }, "sum of different numbers of blocks"); c.throws([&] { B q; q = sm * b; }, "product of different numbers of blocks"); check(b, f, 0, "block function after refused operations"); }
  c.nontrivial(nb * 10 + op + m.size() * 100);
}
template <int> void blocks2(kase &c) {
  auto m = any_imtime(c);
  using G = gf<tmesh::imtime, scalar_real_valued>;
  using B = block2_gf<tmesh::imtime, scalar_real_valued>;
  long n1 = c.i(1, 3), n2 = c.i(1, 3);
  std::vector<std::string> N1, N2;
  for (long i = 0; i < n1; ++i) N1.push_back("u" + std::to_string(c.i(0, 9)) + std::string(i, 'x'));
  for (long i = 0; i < n2; ++i) N2.push_back(std::string(i, 'y') + "d");
  std::vector<std::vector<G>> v;
  for (long i = 0; i < n1; ++i) { v.emplace_back(); for (long j = 0; j < n2; ++j) v.back().push_back(random_gf<scalar_real_valued>(c, m)); }
  B b = tg::make_block2_gf(N1, N2, v);
  auto data = [&](auto const &x) { std::vector<vec> r; for (long i = 0; i < n1; ++i) for (long j = 0; j < n2; ++j) r.push_back(flat(x(i, j).data())); return r; };
  auto check = [&](auto const &x, std::vector<vec> const &ref, double tol, const char *what) {
    c.check(x.size1() == n1 && x.size2() == n2 && x.size() == n1 * n2 && x.block_names() == std::vector<std::vector<std::string>>{N1, N2}, "%s: structure", what);
    for (long i = 0; i < n1; ++i) for (long j = 0; j < n2; ++j) { c.check(x(i, j).mesh() == m, "mesh"); same(c, flat(x(i, j).data()), ref[i * n2 + j], tol, what); }
  };
  auto f = data(b);
  for (long i = 0; i < n1; ++i) for (long j = 0; j < n2; ++j) same(c, f[i * n2 + j], flat(v[i][j].data()), 0, "block (i, j)");
  B cp = b, cp2{b()}, cp3; cp3 = b; B cp4; cp4 = b();
  auto view = b();
  tg::block_gf_const_view<tmesh::imtime, scalar_real_valued, 2> cview = b;
  long i = c.i(0, n1 - 1), j = c.i(0, n2 - 1), k = c.i(0, m.size() - 1);
  for (long p = 0; p < n1; ++p) for (long q = 0; q < n2; ++q) { aliases(c, view(p, q), b(p, q), [](long x) { return x; }, "block of a view"); auto cv = cview(p, q); aliases(c, cv, b(p, q), [](long x) { return x; }, "block of a const view"); }
  auto f2 = f; f2[i * n2 + j][k] = 4;
  if (c.chance(0.5)) view(i, j).data()(k) = 4; else b(i, j).data()(k) = 4;
  check(b, f2, 0, "after a write"); check(view, f2, 0, "view after a write"); check(cp, f, 0, "copy"); check(cp2, f, 0, "copy of a view"); check(cp3, f, 0, "assigned copy"); check(cp4, f, 0, "assigned from a view");
  view = cp; check(b, f, 0, "assignment to a view");
  long q = 0;
  for (auto &x : b) { c.check(&x == &b(q / n2, q % n2), "iteration over block %ld", q); ++q; }
  c.eq(q, n1 * n2, "number of blocks visited");
  q = 0;
  for (auto it = b.cbegin(); it != b.cend() && q <= n1 * n2; ++it, ++q) same(c, flat((*it).data()), f[q], 0, "cbegin/cend");
  c.eq(q, n1 * n2, "number of blocks visited with cbegin/cend");
  B d = b;
  for (auto &x : d) { randomize(c, x.data()); for (long z = 0; z < m.size(); ++z) x.data()(z) += 3; }
  auto fd = data(d);
  double s = c.r(0.5, 2);
  B r; if (c.chance(0.5)) r = B{int(c.i(1, 4)), int(c.i(1, 4)), random_gf<scalar_real_valued>(c, any_imtime(c))}; std::vector<vec> ref = f;
  int op = c.i(0, 4);
  if (m.statistic() == Fermion && op == 1) op = 0;
  for (size_t x = 0; x < f.size(); ++x) for (size_t y = 0; y < f[x].size(); ++y) { cd A = f[x][y], D = fd[x][y]; ref[x][y] = op == 0 ? A + D : op == 1 ? A * D : op == 2 ? s * A - D : op == 3 ? A / s : (A + D) * s; }
  switch (op) { case 0: r = b + d; break; case 1: r = b * d; break; case 2: r = B{s * b - d}; { auto rv = r(); rv = -r; } r = s * b - d; break; case 3: r = b; r /= s; break; default: r = b; { auto rv = r(); rv += d; rv *= s; } }
  check(r, ref, 1e-13 * 10, "arithmetic of two-dimensional block functions");
  { auto w = tg::map_block_gf([](auto const &x) { return G{x * 2.0}; }, b); auto t = f; for (auto &x : t) x = scaled(2, x); check(w, t, 1e-15, "map"); }
  { auto w = tg::map_block_gf([](auto const &x) { return x.data()(0); }, b); for (long a = 0; a < n1; ++a) for (long e = 0; e < n2; ++e) c.check(cd(w[a][e]) == f[a * n2 + e][0], "map to numbers"); }
  c.throws([&] { tg::make_block2_gf(N2.size() == N1.size() ? std::vector<std::string>{"a", "b", "c", "d"} : N2, N2.size() == N1.size() ? N2 : N1, v); }, "names and blocks which do not match");
  if (n1 != n2) { // the transposed structure has as many blocks
    std::vector<std::vector<G>> vt;
    for (long e = 0; e < n2; ++e) { vt.emplace_back(); for (long a = 0; a < n1; ++a) vt.back().push_back(v[a][e]); }
    B bt = tg::make_block2_gf(N2, N1, vt); auto bv = b(); auto tv = bt();
    c.throws([&] { bv = bt; }, "assignment of the transposed block structure"); c.throws([&] { bv = tv; }, "assignment of a view of the transposed block structure"); c.throws([&] { B x; x = b + bt; }, "sum with the transposed block structure");
  }
  // functions without any block
  { B e, e2; e2 = e; e = B{}; c.check(e2.size() == 0, "empty block function"); long z = 0; for (auto &x : e2) { (void)x; ++z; } c.eq(z, 0l, "blocks of an empty function"); e2 = b; check(e2, f, 0, "assignment to an empty block function"); }
  c.nontrivial(n1 * 10 + n2 + 100 * op);
}
// the groups are compiled in parts, in parallel
#define P(n) if constexpr (PART == 0 || PART == n)
template <int> void parts() {
  P(1) vmon::group("algebra_scalar", 1500, 30000, [](kase &c) { with_mesh(c, [&](auto const &m) { algebra<std::decay_t<decltype(m)>, scalar_valued>(c, m); }); });
  P(2) vmon::group("algebra_matrix", 1500, 30000, [](kase &c) { with_mesh(c, [&](auto const &m) { algebra<std::decay_t<decltype(m)>, matrix_valued>(c, m); }); });
  P(3) vmon::group("algebra_real", 600, 12000, [](kase &c) { algebra<tmesh::imtime, scalar_real_valued>(c, any_imtime(c)); algebra<tmesh::imtime, matrix_real_valued>(c, any_imtime(c)); });
  P(3) vmon::group("algebra_tensor", 600, 12000, [](kase &c) { algebra<tmesh::imfreq, tensor_valued<3>>(c, any_imfreq(c)); algebra<tmesh::refreq, tensor_valued<1>>(c, any_refreq(c)); });
  P(4) vmon::group("functions", 600, 12000, [](kase &c) { with_mesh(c, [&](auto const &m) { functions(c, m); }); });
  P(4) vmon::group("lazy", 800, 15000, [](kase &c) { lazy<0>(c); });
  P(5) vmon::group("expression_meshes", 800, 15000, [](kase &c) { meshes_of_expressions<0>(c); });
  P(5) vmon::group("symmetries", 1500, 30000, [](kase &c) { symmetries<0>(c); });
  P(6) vmon::group("ownership", 800, 15000, [](kase &c) { with_mesh(c, [&](auto const &m) { ownership<std::decay_t<decltype(m)>, matrix_valued>(c, m); }); ownership<tmesh::imfreq, scalar_valued>(c, any_imfreq(c)); ownership<tmesh::imtime, tensor_real_valued<3>>(c, any_imtime(c)); });
  P(6) vmon::group("other_meshes", 300, 5000, [](kase &c) { switch (c.i(0, 2)) { case 0: other_meshes<scalar_valued>(c); break; case 1: other_meshes<matrix_valued>(c); break; default: other_meshes<tensor_real_valued<3>>(c); } });
  P(6) vmon::group("slices", 2000, 40000, [](kase &c) { slices<0>(c); });
  P(7) vmon::group("blocks", 600, 12000, [](kase &c) { blocks<0>(c); });
  P(8) vmon::group("blocks2", 600, 12000, [](kase &c) { blocks2<0>(c); });
}
void run() { parts<0>(); }
