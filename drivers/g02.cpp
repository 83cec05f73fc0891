// G02: evaluation of Green functions
#include "g_rig.hpp"
using namespace grig;
using namespace triqs;
// weights of the evaluation at x on one mesh: data index -> weight (the oracle)
using weights = std::vector<std::pair<long, cd>>;
template <typename M> weights lin(M const &m, double x) {
  long n = m.size();
  double a = m[0].value(), b = m[n - 1].value(), t = (x - a) / (b - a) * (n - 1);
  long i = std::clamp(long(std::floor(t)), 0l, n - 2);
  return {{i, 1 - (t - i)}, {i + 1, t - i}};
}
static weights w_legendre(tmesh::legendre const &m, double tau) {
  weights w;
  double x = 2 * tau / m.beta() - 1, p0 = 1, p1 = x;
  for (long l = 0; l < m.size(); ++l) {
    w.push_back({l, std::sqrt(2 * l + 1.0) / m.beta() * p0});
    double p2 = ((2 * l + 3) * x * p1 - (l + 1) * p0) / (l + 2);
    p0 = p1; p1 = p2;
  }
  return w;
}
static long fold3(idx3 x, idx3 d) { for (int i = 0; i < 3; ++i) x[i] = ((x[i] % d[i]) + d[i]) % d[i]; return x[0] * d[1] * d[2] + x[1] * d[2] + x[2]; }
static weights w_bz(idx3 d, std::array<double, 3> f) { // f in units of the mesh vectors
  weights w;
  for (int b = 0; b < 8; ++b) {
    idx3 ix;
    double p = 1;
    for (int i = 0; i < 3; ++i) {
      double fl = std::floor(f[i]);
      ix[i] = long(fl) + ((b >> i) & 1);
      p *= (b >> i) & 1 ? f[i] - fl : 1 - (f[i] - fl);
    }
    w.push_back({fold3(ix, d), p});
  }
  return w;
}
// data slice of a gf with one variable
template <typename G> vec datum(G const &g, long n) {
  if constexpr (std::decay_t<G>::target_rank == 0) return {cd(g.data()(n))};
  else return flat(g.data()(n, nda::ellipsis{}));
}
template <typename G> vec datum(G const &g, long n, long k) {
  if constexpr (std::decay_t<G>::target_rank == 0) return {cd(g.data()(n, k))};
  else return flat(g.data()(n, k, nda::ellipsis{}));
}
template <typename G> vec datum(G const &g, long n, long k, long l) {
  if constexpr (std::decay_t<G>::target_rank == 0) return {cd(g.data()(n, k, l))};
  else return flat(g.data()(n, k, l, nda::ellipsis{}));
}
template <typename G> vec ev(G const &g, weights const &w) { vec r; for (auto &[i, x] : w) axpy(r, x, datum(g, i)); return r; }
template <typename G> vec ev(G const &g, weights const &w, weights const &u) { vec r; for (auto &[i, x] : w) for (auto &[j, y] : u) axpy(r, x * y, datum(g, i, j)); return r; }
template <typename G> vec ev(G const &g, weights const &w, weights const &u, weights const &v) { vec r; for (auto &[i, x] : w) for (auto &[j, y] : u) for (auto &[k, z] : v) axpy(r, x * y * z, datum(g, i, j, k)); return r; }
static std::array<double, 3> units_of(tmesh::brzone const &m, nda::vector<double> const &k) {
  // components along the mesh vectors: f_i = d_i (a_i.k)/(2 pi)
  auto A = m.bz().lattice().units();
  std::array<double, 3> f;
  for (int i = 0; i < 3; ++i) { double s = 0; for (int q = 0; q < 3; ++q) s += A(i, q) * k(q); f[i] = s / (2 * pi) * m.dims()[i]; }
  return f;
}
template <typename F> void with_targets(kase &c, F const &f) {
  switch (c.i(0, 7)) {
    case 0: return f.template operator()<tg::scalar_valued>();
    case 1: return f.template operator()<tg::scalar_real_valued>();
    case 2: return f.template operator()<tg::matrix_valued>();
    case 3: return f.template operator()<tg::matrix_real_valued>();
    case 4: return f.template operator()<tg::tensor_valued<1>>();
    case 5: return f.template operator()<tg::tensor_valued<3>>();
    case 6: return f.template operator()<tg::tensor_real_valued<4>>();
    default: return f.template operator()<tg::matrix_valued>();
  }
}
// evaluation must be the same for a gf, a view, a const view and a strided view
template <typename G, typename... X> vec value(kase &c, G const &g, X const &...x) {
  auto v = flat(g(x...));
  G copy = g;
  typename G::view_type view = copy;
  typename G::const_view_type cview = g;
  c.check(flat(view(x...)) == v and flat(cview(x...)) == v, "a view evaluates to another value than the function");
  vmon::count("evaluations");
  return v;
}
template <typename M> double any_x(kase &c, M const &m) {
  long n = m.size();
  double a = m[0].value(), b = m[n - 1].value();
  double x = c.chance(0.2) ? m[c.i(0, n - 1)].value() : c.chance(0.1) ? a : c.chance(0.1) ? b : c.r(a, b);
  return std::clamp(x, a, b);
}
#if PART == 1
template <typename M> void linear(kase &c, M const &m) {
  c.trace("%s [%g,%g] %ld", typeid(M).name(), m[0].value(), m[m.size() - 1].value(), m.size());
  with_targets(c, [&]<typename T>() {
    auto g = random_gf<T>(c, m);
    for (auto const &p : m) {
      auto d = datum(g, p.data_index());
      c.check(flat(g[p]) == d and flat(g[p.index()]) == d and flat(g[closest_mesh_pt(p.value())]) == d, "g[x] is not the datum of point %ld", p.index());
      same(c, value(c, g, p), d, 1e-12 * m.size(), "g(mesh point)");
      same(c, value(c, g, p.value()), d, 1e-12 * m.size(), "g(value of a mesh point)");
      same(c, flat(g(closest_mesh_pt(p.value()))), d, 0, "g(closest point)");
    }
    for (int k = 0; k < 20; ++k) {
      double x = any_x(c, m);
      same(c, value(c, g, x), ev(g, lin(m, x)), 1e-11 * m.size(), "linear interpolation");
    }
  });
  c.nontrivial();
}
static void linear_case(kase &c) {
  long big = c.pick(std::vector<long>{2, 3, 10, 200});
  switch (c.i(0, 2)) {
    case 0: return linear(c, any_imtime(c, big));
    case 1: return linear(c, any_refreq(c, big));
    default: return linear(c, any_retime(c, big));
  }
}
static void imfreq_case(kase &c) {
  auto m = any_imfreq(c, c.pick(std::vector<long>{1, 3, 30}));
  c.trace("beta %g stat %d n %ld pos %d", m.beta(), int(m.statistic()), m.last_index() + 1, m.positive_only());
  with_targets(c, [&]<typename T>() {
    if constexpr (not T::is_real and T::rank < 3) { // evaluation needs complex data
      auto g = random_gf<T>(c, m);
      int f = m.statistic() == Fermion ? 1 : 0;
      for (auto const &p : m) {
        auto d = datum(g, p.data_index());
        c.check(flat(g[p]) == d and flat(g[p.index()]) == d and flat(g[p.value()]) == d and flat(g[closest_mesh_pt(p.value())]) == d, "g[w] is not the datum of frequency %ld", p.index());
        c.check(value(c, g, p) == d and value(c, g, p.value()) == d and value(c, g, int(p.index())) == d, "g(w) is not the datum of frequency %ld", p.index());
        if (m.positive_only()) {
          auto w = -p.value();
          if (!m.is_index_valid(w.n)) c.check(value(c, g, w) == conjugated(d), "g(w) of a positive-only mesh is not the conjugate of g(-w)");
          vmon::count("mirror_values");
        }
      }
      if (m.positive_only())
        for (long n : {m.last_index() + 1, -m.last_index() - 1 - f, m.last_index() + 1000}) c.throws([&] { g(matsubara_freq{n, m.beta(), m.statistic()}); }, "evaluation outside a positive-only mesh");
    }
  });
  c.nontrivial();
}
// outside of the grid: the tail
static void tail_case(kase &c) {
  double beta = c.pick(std::vector<double>{5, 20, 50});
  auto st = any_stat(c);
  long n = c.pick(std::vector<long>{200, 400});
  tmesh::imfreq m{beta, st, n};
  std::array<double, 3> e, a;
  for (auto &x : e) x = c.r(-2, 2);
  for (auto &x : a) x = c.r(-1, 1);
  c.trace("beta %g stat %d n %ld poles %g %g %g", beta, int(st), n, e[0], e[1], e[2]);
  auto f = [&](cd w) { cd s = 0; for (int i = 0; i < 3; ++i) s += a[i] / (w - e[i]); return s; };
  gf<tmesh::imfreq, tg::matrix_valued> g{m, {2, 2}};
  gf<tmesh::imfreq, tg::scalar_valued> s{m};
  for (auto w : m) {
    g[w](0, 0) = f(w); g[w](0, 1) = cd(0, 1) * f(w); g[w](1, 0) = 2.0 * f(w); g[w](1, 1) = 0.5 + f(w);
    s[w] = f(w);
    if (st == Boson and w.n == 0) { g[w](0, 0) = 1; s[w] = 1; }
  }
  for (long k : {n, n + 1, 2 * n, 10 * n, -n - 1, -2 * n, -1000 * n}) {
    matsubara_freq w{k, beta, st};
    cd x = f(w);
    double tol = 1e-5 * std::abs(x) + 1e-7;
    same(c, value(c, g, w), {x, cd(0, 1) * x, 2.0 * x, 0.5 + x}, 2 * tol, "value outside of the grid");
    same(c, value(c, s, w), {x}, tol, "value of a scalar function outside of the grid");
    vmon::count("tail_values");
  }
  c.nontrivial();
}
static void legendre_case(kase &c) {
  auto m = any_legendre(c, c.pick(std::vector<long>{1, 5, 60}));
  c.trace("beta %g n %ld", m.beta(), m.size());
  with_targets(c, [&]<typename T>() {
    auto g = random_gf<T>(c, m);
    for (auto const &p : m) c.check(flat(g[p]) == datum(g, p.data_index()) and flat(g[p.index()]) == datum(g, p.data_index()), "g[l] is not the datum");
    for (int k = 0; k < 15; ++k) {
      double tau = c.chance(0.1) ? 0 : c.chance(0.1) ? m.beta() : c.r(0, m.beta());
      same(c, value(c, g, tau), ev(g, w_legendre(m, tau)), 1e-11 * m.size() * m.size() / m.beta(), "Legendre expansion");
    }
  });
  c.nontrivial();
}
static void dlr_case(kase &c) {
  double beta = c.pick(std::vector<double>{1, 5, 20}), wmax = c.pick(std::vector<double>{1, 3});
  auto st = any_stat(c);
  tmesh::dlr m{beta, st, wmax, 1e-8};
  c.trace("%g %g %d", beta, wmax, int(st));
  with_targets(c, [&]<typename T>() {
    auto g = random_gf<T>(c, m);
    auto d = m.dlr_freq();
    for (auto const &p : m) c.check(flat(g[p]) == datum(g, p.data_index()) and flat(g[p.index()]) == datum(g, p.data_index()), "g[l] is not the datum");
    for (int k = 0; k < 8; ++k) {
      double tau = c.chance(0.1) ? 0 : c.chance(0.1) ? beta : c.r(0, beta);
      weights w;
      for (long l = 0; l < m.size(); ++l) { double e = d[l] / beta; w.push_back({l, e > 0 ? -std::exp(-e * tau) / (1 + std::exp(-beta * e)) : -std::exp(e * (beta - tau)) / (1 + std::exp(beta * e))}); }
      same(c, value(c, g, tau), ev(g, w), 1e-11 * m.size(), "DLR expansion in time");
    }
    if constexpr (not T::is_real)
      for (int k = 0; k < 8; ++k) {
        matsubara_freq iw{c.i(-50, 50), beta, st};
        // integral of exp(i w tau) over the basis function
        weights w;
        for (long l = 0; l < m.size(); ++l) {
          double e = d[l] / beta;
          cd x;
          if (st == Fermion) x = 1.0 / (cd(iw) - e);
          else if (iw.n == 0) x = std::abs(beta * e) < 1e-7 ? -beta / 2 : -std::tanh(beta * e / 2) / e;
          else x = std::tanh(beta * e / 2) / (cd(iw) - e);
          w.push_back({l, x});
        }
        same(c, value(c, g, iw), ev(g, w), 1e-11 * m.size() * beta, "DLR expansion in frequency");
      }
  });
  c.nontrivial();
}
#endif
#if PART == 2
static void brzone_case(kase &c) {
  auto m = any_bz(c, c.pick(std::vector<int>{2, 4, 6}));
  auto d = m.dims();
  auto B = m.bz().units();
  int nd = m.bz().ndim();
  c.trace("dims %ld %ld %ld nd %d", d[0], d[1], d[2], nd);
  with_targets(c, [&]<typename T>() {
    auto g = random_gf<T>(c, m);
    for (int k = 0; k < 10; ++k) {
      auto p = m[c.i(0, m.size() - 1)];
      auto dd = datum(g, p.data_index());
      c.check(flat(g[p]) == dd and flat(g[p.index()]) == dd, "g[k] is not the datum");
      same(c, value(c, g, p), dd, 1e-11, "g(mesh point)");
      idx3 far;
      for (int i = 0; i < 3; ++i) far[i] = p.index()[i] + d[i] * c.i(-3, 3);
      same(c, value(c, g, far), dd, 0, "g(index) with a translated index");
      same(c, flat(g[closest_mesh_pt(p.value())]), dd, 0, "g[closest point]");
      // expressions
      auto q = m[c.i(0, m.size() - 1)];
      idx3 s, t, u;
      for (int i = 0; i < 3; ++i) { s[i] = p.index()[i] + q.index()[i]; t[i] = p.index()[i] - q.index()[i]; u[i] = -p.index()[i]; }
      same(c, flat(g[p + q]), datum(g, fold3(s, d)), 0, "g[k+q]"); same(c, flat(g[p - q]), datum(g, fold3(t, d)), 0, "g[k-q]"); same(c, flat(g[-p]), datum(g, fold3(u, d)), 0, "g[-k]");
      same(c, flat(g(p + q)), datum(g, fold3(s, d)), 1e-11, "g(k+q)"); same(c, flat(g(p - q)), datum(g, fold3(t, d)), 1e-11, "g(k-q)"); same(c, flat(g(-p)), datum(g, fold3(u, d)), 1e-11, "g(-k)");
    }
    for (int k = 0; k < 15; ++k) {
      nda::vector<double> x(3), y(3);
      x() = 0;
      for (int i = 0; i < nd; ++i) { double w = c.r(-2, 2); for (int q = 0; q < 3; ++q) x(q) += w * B(i, q); }
      y = x;
      for (int i = 0; i < nd; ++i) { long w = c.i(-3, 3); for (int q = 0; q < 3; ++q) y(q) += double(w) * B(i, q); }
      auto v = value(c, g, x);
      same(c, v, ev(g, w_bz(d, units_of(m, x))), 1e-9, "multilinear interpolation");
      same(c, value(c, g, y), v, 1e-9, "a translation by a reciprocal vector");
      same(c, flat(g(std::array<double, 3>{x(0), x(1), x(2)})), v, 1e-12, "evaluation at an array");
    }
  });
  c.nontrivial();
}
static void cyclat_case(kase &c) {
  auto m = any_cl(c);
  auto d = m.dims();
  c.trace("dims %ld %ld %ld", d[0], d[1], d[2]);
  with_targets(c, [&]<typename T>() {
    auto g = random_gf<T>(c, m);
    for (auto const &p : m) {
      auto dd = datum(g, p.data_index());
      idx3 far;
      for (int i = 0; i < 3; ++i) far[i] = p.index()[i] + d[i] * c.i(-3, 3);
      lat::bravais_lattice::point_t site{far, &m.lattice()};
      c.check(flat(g[p]) == dd and flat(g[p.index()]) == dd and flat(g[closest_mesh_pt(site)]) == dd, "g[r] is not the datum");
      c.check(value(c, g, p) == dd and value(c, g, far) == dd and value(c, g, site) == dd and value(c, g, p.index()) == dd, "g(r) is not periodic");
    }
  });
  c.nontrivial();
}
#endif
#if PART == 3
// ---- several variables: each variable by its own rule, in any order, and partially
template <typename M> struct pt { M const *m; weights w; };
static void prod_case(kase &c) {
  auto t = any_imtime(c, 6);
  auto f = any_refreq(c, 6);
  auto k = any_bz(c, 3);
  auto l = any_legendre(c, 5);
  auto w = any_imfreq(c, 4);
  auto r = any_cl(c, 3);
  auto kd = k.dims();
  double tau = any_x(c, t), om = any_x(c, f), tl = c.r(0, l.beta());
  nda::vector<double> kk(3);
  kk() = 0;
  for (int i = 0; i < k.bz().ndim(); ++i) { double x = c.r(-2, 2); for (int q = 0; q < 3; ++q) kk(q) += x * k.bz().units()(i, q); }
  auto wt = lin(t, tau), wf = lin(f, om), wk = w_bz(kd, units_of(k, kk)), wl = w_legendre(l, tl);
  long n = w[c.i(0, w.size() - 1)].index();
  weights ww{{w.to_data_index(n), 1}};
  idx3 R{c.i(-4, 4), c.i(-4, 4), c.i(-4, 4)};
  weights wr{{fold3(R, r.dims()), 1}};
  matsubara_freq iw = w(n).value();
  c.trace("sizes %ld %ld %ld %ld %ld %ld", t.size(), f.size(), k.size(), l.size(), w.size(), r.size());
  double tol = 1e-9;
  auto with2 = [&]<typename T>() {
    {
      auto g = random_gf<T>(c, tmesh::prod(t, k));
      auto ref = ev(g, wt, wk);
      same(c, value(c, g, tau, kk), ref, tol, "g(tau,k)");
      auto gk = g(tau, all); // function of k
      auto gt = g(all, kk);
      same(c, flat(gk(kk)), ref, tol, "g(tau,_)(k)"); same(c, flat(gt(tau)), ref, tol, "g(_,k)(tau)");
      auto pk = k[c.i(0, k.size() - 1)];
      auto ptm = t[c.i(0, t.size() - 1)];
      auto d = datum(g, ptm.data_index(), pk.data_index());
      c.check(flat(g[ptm, pk]) == d and flat(g[ptm.index(), pk.index()]) == d and flat(g[std::tuple(ptm, pk)]) == d and flat(g[closest_mesh_pt(ptm.value()), pk]) == d, "g[tau,k] is not the datum");
      same(c, flat(g(ptm, pk)), d, tol, "g(tau,k) at mesh points"); same(c, flat(g[ptm, all][pk]), d, 0, "g[tau,_][k]"); same(c, flat(g[all, pk][ptm]), d, 0, "g[_,k][tau]");
      same(c, flat(g(ptm, kk)), ev(g, {{ptm.data_index(), 1}}, wk), tol, "g(mesh point, value)");
      same(c, flat(g(closest_mesh_pt(ptm.value()), kk)), ev(g, {{ptm.data_index(), 1}}, wk), tol, "g(closest point, value)");
      vmon::count("partial_evaluations", 6);
    }
    {
      auto g = random_gf<T>(c, tmesh::prod(r, f));
      auto ref = ev(g, wr, wf);
      same(c, value(c, g, R, om), ref, tol, "g(R,omega)"); same(c, flat(g(R, all)(om)), ref, tol, "g(R,_)(omega)"); same(c, flat(g(all, om)(R)), ref, tol, "g(_,omega)(R)");
    }
    if constexpr (not T::is_real and T::rank < 4) {
      auto g = random_gf<T>(c, tmesh::prod(w, t));
      auto ref = ev(g, ww, wt);
      same(c, value(c, g, iw, tau), ref, tol, "g(iw,tau)"); same(c, flat(g(n, tau)), ref, tol, "g(n,tau)"); same(c, flat(g(w(n), tau)), ref, tol, "g(point,tau)");
      same(c, flat(g(all, tau)(iw)), ref, tol, "g(_,tau)(iw)");
      if (!w.positive_only())
        for (long out : {w.last_index() + 1, w.first_index() - 1, 1000l}) {
          auto v = value(c, g, matsubara_freq{out, w.beta(), w.statistic()}, tau);
          same(c, v, vec(ref.size()), 0, "value at a frequency outside of the grid");
          same(c, flat(g(out, tau)), vec(ref.size()), 0, "value at an index outside of the grid");
        }
    }
    {
      auto g = random_gf<T>(c, tmesh::prod(l, t));
      same(c, value(c, g, tl, tau), ev(g, wl, wt), tol, "g(legendre,tau)");
    }
  };
  with_targets(c, with2);
  // three variables
  switch (c.i(0, 2)) {
    case 0: {
      auto g = random_gf<tg::scalar_valued>(c, tmesh::prod(t, w, k));
      auto ref = ev(g, wt, ww, wk);
      same(c, value(c, g, tau, iw, kk), ref, tol, "g(tau,iw,k)");
      same(c, flat(g(tau, all, kk)(iw)), ref, tol, "g(tau,_,k)(iw)"); same(c, flat(g(all, iw, all)(tau, kk)), ref, tol, "g(_,iw,_)(tau,k)");
      same(c, flat(g(tau, all, all)(iw, kk)), ref, tol, "g(tau,_,_)(iw,k)"); same(c, flat(g(all, all, kk)(tau, iw)), ref, tol, "g(_,_,k)(tau,iw)");
      same(c, flat(g[all, n, all](tau, kk)), ref, tol, "g[_,n,_](tau,k)");
      break;
    }
    case 1: {
      auto g = random_gf<tg::matrix_valued>(c, tmesh::prod(f, r, t));
      auto ref = ev(g, wf, wr, wt);
      same(c, value(c, g, om, R, tau), ref, tol, "g(omega,R,tau)");
      same(c, flat(g(all, R, tau)(om)), ref, tol, "g(_,R,tau)(omega)"); same(c, flat(g(all, R, all)(om, tau)), ref, tol, "g(_,R,_)(omega,tau)");
      break;
    }
    default: {
      auto g = random_gf<tg::scalar_real_valued>(c, tmesh::prod(t, t, t));
      double a = any_x(c, t), b = any_x(c, t);
      auto ref = ev(g, wt, lin(t, a), lin(t, b));
      same(c, value(c, g, tau, a, b), ref, tol, "g(tau,tau,tau)");
      same(c, flat(g(tau, all, b)(a)), ref, tol, "g(tau,_,tau)(tau)"); same(c, flat(g(all, a, all)(tau, b)), ref, tol, "g(_,tau,_)");
    }
  }
  c.nontrivial();
}
#endif
void run() {
#if PART == 1
  vmon::group("linear", 500, 20000, linear_case);
  vmon::group("imfreq", 400, 20000, imfreq_case);
  vmon::group("tail", 20, 400, tail_case);
  vmon::group("legendre", 250, 8000, legendre_case);
  vmon::group("dlr", 60, 1500, dlr_case);
#elif PART == 2
  vmon::group("brzone", 250, 8000, brzone_case);
  vmon::group("cyclat", 150, 4000, cyclat_case);
#else
  vmon::group("prod", 200, 8000, prod_case);
#endif
}
