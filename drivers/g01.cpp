// G01: meshes
#include "vmon.hpp"
#include <triqs/gfs.hpp>
#include <triqs/mesh/adjoint.hpp>
#include <h5/h5.hpp>
namespace tmesh = triqs::mesh;
namespace lat = triqs::lattice;
using vmon::kase;
using tmesh::statistic_enum;
using cd = std::complex<double>;
using idx3 = std::array<long, 3>;
using tmesh::closest_mesh_pt;
static const double pi = std::acos(-1.0);

// ---- things common to all meshes with an integer index
template <typename M> void common(kase &c, M const &m, long first, long size, bool identity_index = true) {
  c.check(m.size() == size, "size %ld instead of %ld", m.size(), size);
  long n = 0;
  for (auto const &p : m) {
    c.check(n < size, "iteration gives more than the %ld points", size);
    c.check(p.data_index() == n, "point %ld of the iteration has data index %ld", n, p.data_index());
    c.check(p.mesh_hash() == m.mesh_hash(), "point %ld has another mesh hash", n);
    long ix = m.to_index(n);
    c.check(ix == first + n, "to_index(%ld) = %ld instead of %ld", n, ix, first + n);
    c.check(m.is_index_valid(ix), "index %ld is called invalid", ix);
    c.check(m.to_data_index(ix) == n, "to_data_index(%ld) = %ld", ix, m.to_data_index(ix));
    auto q = m[n];
    auto r = m(ix);
    if (identity_index) c.check(p.index() == ix and q.index() == ix and r.index() == ix, "index of a point: %ld %ld %ld instead of %ld", p.index(), q.index(), r.index(), ix);
    c.check(q.data_index() == n and r.data_index() == n and q.mesh_hash() == m.mesh_hash() and r.mesh_hash() == m.mesh_hash(), "m[%ld] or m(%ld) is another point", n, ix);
    ++n;
  }
  c.check(n == size, "iteration gives %ld points instead of %ld", n, size);
  for (long d : {1l, 2l, 3l, 1000l, 1l << 40}) c.check(!m.is_index_valid(first - d) and !m.is_index_valid(first + size - 1 + d), "an index %ld outside the mesh is called valid", d);
  vmon::count("points_checked", size);
}
// round trip through HDF5 into a fresh and a used object, another type refused
template <typename M, typename W> void h5trip(kase &c, M const &m, M used, W const &wrong) {
  { h5::file f("m.h5", 'w'); h5_write(f, "m", m); h5_write(f, "w", wrong); }
  h5::file f("m.h5", 'r');
  M fresh{};
  h5_read(f, "m", fresh);
  c.check(fresh == m and !(fresh != m), "a mesh read back from HDF5 is different");
  c.check(fresh.size() == m.size() and fresh.mesh_hash() == m.mesh_hash(), "a mesh read back has another size or hash");
  h5_read(f, "m", used);
  c.check(used == m and used.size() == m.size() and used.mesh_hash() == m.mesh_hash(), "a mesh read back into a used object is different");
  M other = m;
  c.throws([&] { h5_read(f, "w", other); }, "reading a mesh of another type");
  c.check(other == m, "a failed read changed the mesh");
  vmon::count("hdf5_round_trips");
}
template <typename M> void equality(kase &c, M const &a, M const &b, bool same, const char *what) {
  c.check((a == b) == same and (a != b) == !same and (b == a) == same, "meshes that differ in %s compare %s", what, same ? "different" : "equal");
  vmon::count("equality_tests");
  if (same) c.check(a.mesh_hash() == b.mesh_hash(), "equal meshes have different hashes");
}
static double any_beta(kase &c) { return c.pick(std::vector<double>{1, 10, 0.1, 100, 2.5, 40, 7.3, 1e-3, 1e4}); }
static statistic_enum any_stat(kase &c) { return c.chance(0.5) ? tmesh::Fermion : tmesh::Boson; }

// ---- imaginary frequencies
static void imfreq_case(kase &c) {
  double beta = any_beta(c);
  auto st     = any_stat(c);
  bool pos    = c.chance(0.4);
  long n      = c.pick(std::vector<long>{1, 2, 3, 10, 33, 100, 1025});
  auto opt    = pos ? tmesh::imfreq::option::positive_frequencies_only : tmesh::imfreq::option::all_frequencies;
  c.trace("beta %g stat %d pos %d n %ld", beta, int(st), pos, n);
  tmesh::imfreq m;
  if (c.chance(0.3)) {
    // window: the largest frequency index whose frequency does not exceed the window (half a bin of margin)
    double wmax = (2 * (n - 1) + (st == tmesh::Fermion ? 1 : 0) + c.r(0.1, 1.9)) * pi / beta;
    m = tmesh::imfreq{beta, st, tmesh::energy_t{wmax}, opt};
    c.trace("window %g", wmax);
    // the documentation only says that the mesh matches the window: it must not exceed it, nor miss more than the last two frequencies in it
    double last = std::imag(cd(m.index_to_freq(m.last_index()))), later = std::imag(cd(m.index_to_freq(m.last_index() + 3)));
    c.check((m.size() == 0 or last <= wmax) and wmax < later, "a mesh built for the window %.17g ends at %.17g", wmax, last);
    n = m.last_index() + 1;
    if (n < 1) return;
    vmon::count("energy_windows");
  } else m = tmesh::imfreq{beta, st, n, opt};
  int f      = st == tmesh::Fermion ? 1 : 0;
  long first = pos ? 0 : -(n - 1) - f;
  common(c, m, first, n - 1 - first + 1);
  c.check(m.first_index() == first and m.last_index() == n - 1 and m.positive_only() == pos and m.beta() == beta and m.statistic() == st, "accessors of an imaginary frequency mesh");
  double prev = -1e300;
  for (auto const &w : m) {
    double e = (2 * w.index() + f) * pi / beta;
    c.close(cd(w), cd(0, e), 4e-16 * std::abs(e), "value of a Matsubara point");
    c.check(cd(w.value()) == cd(w) and cd(m.to_value(w.index())) == cd(w) and cd(m.index_to_freq(w.index())) == cd(w), "values of the same Matsubara point differ");
    c.check(std::imag(cd(w)) > prev, "the frequencies do not grow");
    prev = std::imag(cd(w));
    c.check(m.to_data_index(w.value()) == w.data_index() and m.to_data_index(closest_mesh_pt(w.value())) == w.data_index() and m.to_index(closest_mesh_pt(w.value())) == w.index(), "look-up of a frequency");
    c.check(m[closest_mesh_pt(w.value())].index() == w.index(), "closest point of a frequency");
  }
  c.close(cd(m.w_max()), cd(0, (2 * n - 2 + f) * pi / beta), 1e-13 * n / beta, "largest frequency");
  auto p = m.get_positive_freq();
  c.check(p.positive_only() and p.first_index() == 0 and p.last_index() == m.last_index() and p.beta() == beta and p.statistic() == st, "positive part of a mesh");
  for (auto const &w : p) c.check(cd(w) == cd(m.index_to_freq(w.index())), "the positive part has other frequencies");
  equality(c, m, tmesh::imfreq{beta, st, n, opt}, true, "nothing");
  equality(c, m, tmesh::imfreq{beta * 2, st, n, opt}, false, "beta");
  equality(c, m, tmesh::imfreq{beta, st == tmesh::Fermion ? tmesh::Boson : tmesh::Fermion, n, opt}, false, "statistic");
  equality(c, m, tmesh::imfreq{beta, st, n + 1, opt}, false, "size");
  equality(c, m, p, pos, "frequencies kept");
  h5trip(c, m, tmesh::imfreq{3.3, any_stat(c), 7}, tmesh::imtime{beta, st, n});
  auto a = tmesh::make_adjoint_mesh(m);
  c.check(a.beta() == beta and a.statistic() == st and a.size() >= 2 * n + 1, "adjoint of a frequency mesh: %ld times for %ld frequencies", a.size(), n);
  auto b = tmesh::make_adjoint_mesh(a);
  c.check(b == tmesh::imfreq(beta, st, n), "the adjoint of the adjoint of a Matsubara mesh is another mesh");
  long nt = c.i(2, 50), nw = c.i(1, 50);
  auto t2 = tmesh::make_adjoint_mesh(m, nt);
  c.check(t2 == tmesh::imtime(beta, st, nt), "adjoint with a given number of times");
  c.check(tmesh::make_adjoint_mesh(t2, nw) == tmesh::imfreq(beta, st, nw), "adjoint with a given number of frequencies");
  c.nontrivial();
}
// ---- arithmetic of Matsubara frequencies
static void matsubara_case(kase &c) {
  double beta = any_beta(c);
  long big    = c.pick(std::vector<long>{3, 100, 1000000, 1l << 40});
  auto mk = [&](auto st) { return tmesh::matsubara_freq{c.i(-big, big), beta, st}; };
  auto num = [](tmesh::matsubara_freq const &w) { return 2 * w.n + (w.statistic == tmesh::Fermion ? 1 : 0); };
  auto x = mk(any_stat(c)), y = mk(any_stat(c));
  c.trace("%g: %ld%c %ld%c", beta, x.n, "bf"[x.statistic], y.n, "bf"[y.statistic]);
  auto is = [&](tmesh::matsubara_freq const &w, long k, const char *what) {
    c.check(num(w) == k and w.beta == beta, "%s: %ld pi/beta instead of %ld", what, num(w), k);
    double e = double(k) * pi / beta;
    c.close(cd(w), cd(0, e), 4e-16 * std::abs(e), what);
    vmon::count("matsubara_operations");
  };
  is(x, num(x), "value");
  is(x + y, num(x) + num(y), "sum");
  is(x - y, num(x) - num(y), "difference");
  is(-x, -num(x), "opposite");
  is(x - x, 0, "x - x");
  is(x + (-x), 0, "x + (-x)");
  is(x - (-y), num(x) + num(y), "x - (-y)");
  is((x + y) - y, num(x), "(x + y) - y");
  cd X = x, Y = y;
  auto rel = [&](cd a, cd b, const char *what) { c.close(a, b, 1e-14 * (std::abs(b) + 1e-300), what); };
  rel(x * y, X * Y, "product");
  if (num(y) != 0) rel(x / y, X / Y, "quotient");
  double d = c.r(0.5, 2);
  cd z(c.r(-1, 1), c.r(-1, 1));
  rel(x + d, X + d, "frequency + number"); rel(d + x, X + d, "number + frequency");
  rel(x - d, X - d, "frequency - number"); rel(d - x, d - X, "number - frequency");
  rel(x * d, X * d, "frequency * number"); rel(d * x, X * d, "number * frequency");
  rel(x / d, X / d, "frequency / number"); if (num(x)) rel(d / x, d / X, "number / frequency");
  rel(x + z, X + z, "frequency + complex"); rel(z - x, z - X, "complex - frequency"); rel(x * z, X * z, "frequency * complex");
  if (num(x)) rel(z / x, z / X, "complex / frequency");
  c.check(kronecker(x, y) == (x.n == y.n) and kronecker(x) == (x.n == 0), "kronecker of frequencies");
  // points of a mesh are frequencies
  tmesh::imfreq m{beta, x.statistic, 20};
  auto p = m[c.i(0, m.size() - 1)];
  auto q = tmesh::imfreq{beta, y.statistic, 20}(c.i(0, 19));
  is(p + q, num(p) + num(q), "sum of mesh points"); is(p - q, num(p) - num(q), "difference of mesh points"); is(-p, -num(p), "opposite of a mesh point");
  is(p - y, num(p) - num(y), "point - frequency");
  rel(p * q, cd(p) * cd(q), "product of mesh points");
  if (num(q)) rel(p / q, cd(p) / cd(q), "quotient of mesh points");
  rel(1 / (p + z), 1. / (cd(p) + z), "1/(point + complex)");
  c.nontrivial();
}
// ---- linear meshes
template <typename M> void linear_checks(kase &c, M const &m, double a, double b, long n) {
  common(c, m, 0, n);
  double scale = std::max(std::abs(a), std::abs(b)), prev = -1e300, step = n > 1 ? (b - a) / (n - 1) : 0;
  for (auto const &p : m) {
    double e = n == 1 ? a : double((long double)a + ((long double)b - a) * p.index() / (n - 1));
    c.close(p.value(), e, 4e-16 * scale, "value of a point");
    c.check(double(p) == p.value() and m.to_value(p.index()) == p.value() and m[p.data_index()].value() == p.value() and m(p.index()).value() == p.value(), "values of the same point differ");
    if (b > a) c.check(p.value() > prev, "the values do not grow strictly at %ld: %.17g then %.17g", p.index(), prev, p.value());
    prev = p.value();
    c.check(p.value() + 1.5 == p + 1.5 and 2.0 * p == 2.0 * p.value() and p - p == 0.0 and 1.5 - p == 1.5 - p.value() and p * p == p.value() * p.value() and p / 2.0 == p.value() / 2.0, "arithmetic of a mesh point");
  }
  if (n == 0) return;
  c.check(m[0].value() == a and (n == 1 or m[n - 1].value() == b), "the ends of the mesh are %.17g and %.17g instead of %.17g and %.17g", m[0].value(), m[n - 1].value(), a, b);
  c.close(m.delta(), step, 1e-15 * scale, "step");
  if (n > 1 and b > a) c.close(m.delta_inv() * m.delta(), 1, 1e-14, "inverse step");
  c.check(m.first_index() == 0 and m.last_index() == n - 1, "first and last index");
  // closest point
  for (int k = 0; k < 30; ++k) {
    double x = c.chance(0.3) ? m[c.i(0, n - 1)].value() : c.chance(0.1) ? a : c.chance(0.1) ? b : c.r(a, b);
    if (c.chance(0.1) and n > 1) x = 0.5 * (m[0].value() + m[1].value());
    x = std::clamp(x, a, n == 1 ? a : b);
    long i = m.to_index(closest_mesh_pt(x));
    c.check(i >= 0 and i < n, "closest point of %.17g has index %ld (size %ld)", x, i, n);
    double dmin = 1e300;
    for (long j = std::max(0l, i - 2); j <= std::min(n - 1, i + 2); ++j) dmin = std::min(dmin, std::abs(m[j].value() - x));
    c.check(std::abs(m[i].value() - x) <= dmin + 4e-15 * scale and std::abs(m[i].value() - x) <= 0.5 * step + 4e-15 * scale, "closest point of %.17g is %.17g (step %g)", x, m[i].value(), step);
    c.check(m[closest_mesh_pt(x)].index() == i and m.to_data_index(closest_mesh_pt(x)) == i, "different answers for the closest point");
    vmon::count("closest_points");
  }
}
static void linear_case(kase &c) {
  long n      = c.pick(std::vector<long>{1, 2, 3, 4, 10, 11, 100, 1001, 10001});
  double beta = any_beta(c);
  auto st     = any_stat(c);
  {
    tmesh::imtime m{beta, st, n};
    c.trace("imtime %g %d %ld", beta, int(st), n);
    linear_checks(c, m, 0, beta, n);
    c.check(m.beta() == beta and m.statistic() == st, "beta or statistic of a time mesh");
    equality(c, m, tmesh::imtime{beta, st, n}, true, "nothing");
    equality(c, m, tmesh::imtime{beta + 1, st, n}, false, "beta");
    equality(c, m, tmesh::imtime{beta, st == tmesh::Boson ? tmesh::Fermion : tmesh::Boson, n}, false, "statistic");
    equality(c, m, tmesh::imtime{beta, st, n + 1}, false, "size");
    h5trip(c, m, tmesh::imtime{1.5, any_stat(c), 9}, tmesh::imfreq{beta, st, 4});
  }
  double a = c.pick(std::vector<double>{0, -1, -10, 0.5, -1e5, 1e-4, 3}), w = c.pick(std::vector<double>{1, 2, 20, 0.1, 1e4, 1e-2});
  double b = c.chance(0.05) ? a : a + w;
  if (a == b) n = 1;
  c.trace("[%g,%g]", a, b);
  tmesh::refreq f{a, b, n};
  tmesh::retime t{a, b, n};
  linear_checks(c, f, a, b, n);
  linear_checks(c, t, a, b, n);
  c.check(f.w_min() == a and f.w_max() == b and t.t_min() == a and t.t_max() == b, "limits of a mesh");
  c.check(tmesh::refreq(std::pair{a, b}, int(n)) == f and tmesh::retime(std::pair{a, b}, int(n)) == t, "mesh built from a window");
  equality(c, f, tmesh::refreq{a, b, n}, true, "nothing"); equality(c, t, tmesh::retime{a, b, n}, true, "nothing");
  equality(c, f, tmesh::refreq{a - 1, b, n}, false, "left end"); equality(c, t, tmesh::retime{a, b + 1, n}, false, "right end");
  equality(c, f, tmesh::refreq{a, b, n + 1}, false, "size"); equality(c, t, tmesh::retime{a, b, n + 1}, false, "size");
  h5trip(c, f, tmesh::refreq{-3, 3, 5}, t);
  h5trip(c, t, tmesh::retime{-3, 3, 5}, f);
  // adjoints: N points with dt*dw = 2 pi/N, centred on zero or half a bin up
  if (n > 1) {
    for (bool half : {false, true}) {
      auto check_adj = [&](auto const &adj, auto const &m) {
        c.check(adj.size() == n, "the adjoint has %ld points instead of %ld", adj.size(), n);
        double d = 2 * pi / (n * m.delta());
        c.close(adj.delta(), d, 1e-12 * d * n, "step of the adjoint mesh");
        c.close(adj[0].value() + adj[n - 1].value(), half ? d : 0, 1e-12 * d * n, "centre of the adjoint mesh");
      };
      check_adj(tmesh::make_adjoint_mesh(f, half), f);
      check_adj(tmesh::make_adjoint_mesh(t, half), t);
    }
    // a symmetric mesh is the adjoint of its adjoint
    tmesh::refreq s{-w, w, n};
    auto s2 = tmesh::make_adjoint_mesh(tmesh::make_adjoint_mesh(s));
    c.close(s2.w_min(), -w * (1), 1e-12 * w, "adjoint of the adjoint"); c.close(s2.w_max(), w, 1e-12 * w, "adjoint of the adjoint");
  }
  c.nontrivial();
}
// ---- discrete and Legendre
static void small_case(kase &c) {
  long n = c.i(0, 40);
  double beta = any_beta(c);
  auto st = any_stat(c);
  c.trace("%ld %g %d", n, beta, int(st));
  tmesh::discrete d{n};
  common(c, d, 0, n);
  equality(c, d, tmesh::discrete{n}, true, "nothing"); equality(c, d, tmesh::discrete{n + 1}, false, "size");
  h5trip(c, d, tmesh::discrete{3}, tmesh::legendre{1, st, 4});
  tmesh::legendre l{beta, st, n};
  common(c, l, 0, n);
  c.check(l.beta() == beta and l.statistic() == st, "accessors of a Legendre mesh");
  equality(c, l, tmesh::legendre{beta, st, n}, true, "nothing"); equality(c, l, tmesh::legendre{beta, st, n + 1}, false, "size");
  equality(c, l, tmesh::legendre{beta + 1, st, n}, false, "beta");
  equality(c, l, tmesh::legendre{beta, st == tmesh::Boson ? tmesh::Fermion : tmesh::Boson, n}, false, "statistic");
  h5trip(c, l, tmesh::legendre{1.5, st, 4}, d);
  c.nontrivial();
}
// ---- DLR
template <typename M> void dlr_equality(kase &c, double beta, statistic_enum st, double wmax, double eps) {
  M m{beta, st, wmax, eps};
  equality(c, m, M{beta, st, wmax, eps}, true, "nothing");
  equality(c, m, M{beta, st == tmesh::Boson ? tmesh::Fermion : tmesh::Boson, wmax, eps}, false, "statistic");
  equality(c, m, M{beta * 2, st, wmax, eps}, false, "beta");
  equality(c, m, M{beta, st, wmax * 1.5, eps}, false, "cutoff");
  equality(c, m, M{beta, st, wmax, eps * 0.1}, false, "accuracy");
  equality(c, m, M{wmax, st, beta, eps}, beta == wmax, "temperature and cutoff exchanged");
  equality(c, m, M{beta * 2, st, wmax / 2, eps}, false, "temperature and cutoff at the same product");
}
static void dlr_case(kase &c) {
  double beta = c.pick(std::vector<double>{1, 4, 10, 2.5}), wmax = c.pick(std::vector<double>{1, 2, 5, 4}), eps = c.pick(std::vector<double>{1e-6, 1e-8, 1e-10});
  auto st = any_stat(c);
  c.trace("%g %g %g %d", beta, wmax, eps, int(st));
  tmesh::dlr d{beta, st, wmax, eps};
  tmesh::dlr_imtime t{beta, st, wmax, eps};
  tmesh::dlr_imfreq w{beta, st, wmax, eps};
  long n = d.dlr_freq().size();
  common(c, d, 0, n);
  common(c, t, 0, n);
  common(c, w, 0, n, false);
  double prev = -1e300;
  for (auto const &p : d) { c.check(p.value() == d.dlr_freq()[p.index()] and p.value() > prev and std::abs(p.value()) <= beta * wmax * (1 + 1e-12), "DLR frequency %ld is %g", p.index(), p.value()); prev = p.value(); }
  prev = -1e300;
  for (auto const &p : t) { c.check(p.value() >= 0 and p.value() <= beta and p.value() > prev, "DLR times do not grow in [0,beta]: %.17g then %.17g", prev, p.value()); prev = p.value(); c.check(t.to_value(p.index()) == p.value(), "to_value of a DLR time"); }
  long pn = LONG_MIN;
  for (auto const &p : w) { c.check(p.index() > pn, "DLR Matsubara indices do not grow"); pn = p.index(); c.check(p.beta == beta and p.statistic == st and cd(p) == cd(w.to_value(p.data_index())), "DLR Matsubara point"); }
  auto [wa, wb] = w.min_max_frequencies();
  c.check(wa.n == w[0].index() and wb.n == w[n - 1].index(), "smallest and largest frequency");
  for (auto const &x : {d}) c.check(x.beta() == beta and x.statistic() == st and x.w_max() == wmax and x.eps() == eps, "parameters of a DLR mesh");
  dlr_equality<tmesh::dlr>(c, beta, st, wmax, eps); dlr_equality<tmesh::dlr_imtime>(c, beta, st, wmax, eps); dlr_equality<tmesh::dlr_imfreq>(c, beta, st, wmax, eps);
  c.check(tmesh::dlr{t} == d and tmesh::dlr{w} == d and tmesh::dlr_imtime{d} == t and tmesh::dlr_imtime{w} == t and tmesh::dlr_imfreq{d} == w and tmesh::dlr_imfreq{t} == w, "conversion between DLR meshes");
  c.check(tmesh::make_adjoint_mesh(t) == w and tmesh::make_adjoint_mesh(w) == t, "adjoint of a DLR mesh");
  tmesh::dlr used{2, tmesh::Boson, 2, 1e-6};
  h5trip(c, d, used, t); h5trip(c, t, tmesh::dlr_imtime{used}, w); h5trip(c, w, tmesh::dlr_imfreq{used}, d);
  c.nontrivial();
}
// ---- lattices
static nda::matrix<double> any_units(kase &c, int &kind) {
  kind = int(c.i(0, 6));
  double s = c.pick(std::vector<double>{1, 1, 2.5, 0.3});
  double h = std::sqrt(3.0) / 2;
  nda::matrix<double> u;
  switch (kind) {
    case 0: u = nda::matrix<double>{{s}}; break;
    case 1: u = nda::matrix<double>{{s, 0.}, {0., s * 2}}; break;
    case 2: u = nda::matrix<double>{{s, 0.}, {0.5 * s, h * s}}; break;
    case 3: u = nda::matrix<double>{{s, 0., 0.}, {0., s, 0.}, {0., 0., s * 1.5}}; break;
    case 4: u = nda::matrix<double>{{0., s, s}, {s, 0., s}, {s, s, 0.}}; break;
    case 5: u = nda::matrix<double>{{s, 0., 0.}, {0.5 * s, h * s, 0.}, {0., 0., 2 * s}}; break;
    default: u = nda::matrix<double>{{s, 0.3 * s, 0.1}, {-0.2, s, 0.4}, {0.1 * s, 0.2, 1.2 * s}};
  }
  return u;
}
static idx3 any_dims(kase &c, int nd) {
  idx3 d{1, 1, 1};
  for (int i = 0; i < nd; ++i) d[i] = c.pick(std::vector<long>{1, 2, 3, 4, 5, 7, 8});
  return d;
}
static std::string str(idx3 const &i) { return "(" + std::to_string(i[0]) + "," + std::to_string(i[1]) + "," + std::to_string(i[2]) + ")"; }
template <typename M> void lattice_common(kase &c, M const &m, idx3 const &d) {
  long size = d[0] * d[1] * d[2];
  c.check(m.size() == size and m.dims() == d, "size %ld instead of %ld", m.size(), size);
  long n = 0;
  for (auto const &p : m) {
    c.check(n < size, "iteration gives more than %ld points", size);
    idx3 e{n / (d[1] * d[2]), (n / d[2]) % d[1], n % d[2]};
    c.check(p.data_index() == n and p.index() == e and p.mesh_hash() == m.mesh_hash(), "point %ld of the iteration has index %s, data index %ld", n, str(p.index()).c_str(), p.data_index());
    c.check(m.to_index(n) == e and m.to_data_index(e) == n and m.is_index_valid(e), "conversions of index %s", str(e).c_str());
    c.check(m[n].index() == e and m(e).data_index() == n and m(e).index() == e and m[n].data_index() == n, "m[..] or m(..) of %s", str(e).c_str());
    idx3 far;
    for (int i = 0; i < 3; ++i) far[i] = e[i] + d[i] * c.i(-3, 3);
    c.check(m.index_modulo(far) == e, "index %s is folded to %s instead of %s", str(far).c_str(), str(m.index_modulo(far)).c_str(), str(e).c_str());
    if (far != e) c.check(!m.is_index_valid(far), "index %s outside of the mesh is called valid", str(far).c_str());
    ++n;
  }
  c.check(n == size, "iteration gives %ld points instead of %ld", n, size);
  for (int i = 0; i < 3; ++i) for (long x : {-1l, d[i], -1000l, 1000l}) { idx3 e{0, 0, 0}; e[i] = x; c.check(!m.is_index_valid(e), "index %s is called valid", str(e).c_str()); }
  vmon::count("points_checked", size);
}
static void cyclat_case(kase &c) {
  int kind;
  lat::bravais_lattice bl{any_units(c, kind)};
  auto d = any_dims(c, bl.ndim());
  c.trace("kind %d dims %s", kind, str(d).c_str());
  tmesh::cyclat m{bl, d};
  lattice_common(c, m, d);
  auto U = bl.units();
  for (auto const &p : m) {
    nda::vector<double> r(p.value());
    for (int k = 0; k < 3; ++k) {
      double e = 0;
      for (int i = 0; i < 3; ++i) e += p.index()[i] * U(i, k);
      c.close(r(k), e, 1e-13, "position of a lattice point");
      c.close(p[k], e, 1e-13, "component of a lattice point");
      c.close(nda::vector<double>(m.to_value(p.index()))(k), e, 1e-13, "value of a lattice index");
    }
    // the closest point of a translated site is the site itself
    idx3 far;
    for (int i = 0; i < 3; ++i) far[i] = p.index()[i] + d[i] * c.i(-2, 2);
    lat::bravais_lattice::point_t site{far, &bl};
    c.check(m.to_index(closest_mesh_pt(site)) == p.index() and m.to_data_index(closest_mesh_pt(site)) == p.data_index() and m[closest_mesh_pt(site)].index() == p.index(), "the closest point of site %s is %s", str(far).c_str(), str(m.to_index(closest_mesh_pt(site))).c_str());
    vmon::count("closest_points");
  }
  equality(c, m, tmesh::cyclat{bl, d}, true, "nothing");
  for (int i = 0; i < 3; ++i) { auto e = d; ++e[i]; equality(c, m, tmesh::cyclat{bl, e}, false, "a dimension"); }
  { auto e = idx3{d[2], d[0], d[1]}; equality(c, m, tmesh::cyclat{bl, e}, e == d, "the order of the dimensions"); }
  { nda::matrix<double> V = bl.units()(nda::range(bl.ndim()), nda::range(bl.ndim())); V *= 2; equality(c, m, tmesh::cyclat{lat::bravais_lattice{V}, d}, false, "the lattice constant"); }
  if (bl.ndim() == 2) { nda::matrix<double> V{{U(1, 0), U(1, 1)}, {U(0, 0), U(0, 1)}}; equality(c, m, tmesh::cyclat{lat::bravais_lattice{V}, d}, false, "the order of the unit vectors"); }
  nda::matrix<long> pm{{d[0], 0, 0}, {0, d[1], 0}, {0, 0, d[2]}};
  c.check(tmesh::cyclat(bl, pm) == m, "mesh built with a periodization matrix");
  pm(0, 1) = 1;
  c.throws([&] { tmesh::cyclat{bl, pm}; }, "a non-diagonal periodization matrix");
  long L = c.i(1, 6);
  idx3 e{L, bl.ndim() > 1 ? L : 1, bl.ndim() > 2 ? L : 1};
  c.check(tmesh::cyclat(bl, L).dims() == e and tmesh::brzone(lat::brillouin_zone{bl}, L).dims() == e, "mesh of a given linear size");
  c.check(tmesh::cyclat(2l, 3l, 4l).dims() == idx3{2, 3, 4}, "cubic mesh");
  h5trip(c, m, tmesh::cyclat{2l, 3l, 4l}, tmesh::discrete{4});
  auto k = tmesh::make_adjoint_mesh(m);
  c.check(k == tmesh::brzone(lat::brillouin_zone{bl}, d) and tmesh::make_adjoint_mesh(k) == m, "adjoint of a lattice mesh");
  c.nontrivial();
}
static void brzone_case(kase &c) {
  int kind;
  lat::bravais_lattice bl{any_units(c, kind)};
  lat::brillouin_zone bz{bl};
  auto d = any_dims(c, bl.ndim());
  c.trace("kind %d dims %s", kind, str(d).c_str());
  tmesh::brzone m{bz, d};
  lattice_common(c, m, d);
  // reciprocal vectors: B_i . a_j = 2 pi delta_ij
  auto A = bl.units();
  auto B = bz.units();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += B(i, k) * A(j, k); c.close(s, i == j ? 2 * pi : 0, 1e-12, "reciprocal vectors"); }
  auto val = [&](idx3 const &ix, int k) { double e = 0; for (int i = 0; i < 3; ++i) e += double(ix[i]) / d[i] * B(i, k); return e; };
  for (auto const &p : m) for (int k = 0; k < 3; ++k) {
    c.close(p.value()(k), val(p.index(), k), 1e-12, "momentum of a point"); c.close(p[k], val(p.index(), k), 1e-12, "component of a momentum");
    c.close(nda::vector<double>(p)(k), val(p.index(), k), 1e-12, "momentum"); c.close(m.to_value(p.index())(k), val(p.index(), k), 1e-12, "to_value");
  }
  // closest point: brute force over all points and translations
  auto dist = [&](nda::vector<double> const &k, idx3 const &ix) {
    double best = 1e300;
    for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) for (int e = -2; e <= 2; ++e) {
      double s = 0;
      for (int q = 0; q < 3; ++q) { double x = k(q) - val(ix, q) - a * B(0, q) - b * B(1, q) - e * B(2, q); s += x * x; }
      best = std::min(best, s);
    }
    return std::sqrt(best);
  };
  for (int rep = 0; rep < (m.size() > 60 ? 3 : 10); ++rep) {
    nda::vector<double> k(3);
    k() = 0;
    bool on = c.chance(0.3);
    idx3 ix0{c.i(0, d[0] - 1), c.i(0, d[1] - 1), c.i(0, d[2] - 1)};
    std::array<long, 3> tr{c.i(-3, 3), c.i(-3, 3), c.i(-3, 3)};
    for (int i = 0; i < bl.ndim(); ++i) {
      double x = on ? double(ix0[i]) / d[i] : c.r(0, 1);
      for (int q = 0; q < 3; ++q) k(q) += (x + tr[i]) * B(i, q);
    }
    auto got = m.to_index(closest_mesh_pt(k));
    c.check(m.is_index_valid(got), "the closest point is outside of the mesh");
    c.check(m.to_data_index(closest_mesh_pt(k)) == m.to_data_index(got) and m[closest_mesh_pt(k)].index() == got, "different answers for the closest point");
    // fold k for the brute force
    nda::vector<double> kf = k;
    for (int i = 0; i < bl.ndim(); ++i) for (int q = 0; q < 3; ++q) kf(q) -= tr[i] * B(i, q);
    double dg = dist(kf, got), dm = 1e300;
    idx3 bi{};
    for (auto const &p : m) { double x = dist(kf, p.index()); if (x < dm) { dm = x; bi = p.index(); } }
    c.check(dg <= dm + 1e-9, "closest point of (%.10g,%.10g,%.10g): %s at distance %g, but %s is at %g", k(0), k(1), k(2), str(got).c_str(), dg, str(bi).c_str(), dm);
    vmon::count("closest_points");
  }
  // algebra of points
  auto p = m[c.i(0, m.size() - 1)], q = m[c.i(0, m.size() - 1)];
  auto fold = [&](idx3 x) { for (int i = 0; i < 3; ++i) x[i] = ((x[i] % d[i]) + d[i]) % d[i]; return x[0] * d[1] * d[2] + x[1] * d[2] + x[2]; };
  auto is = [&](auto const &ex, long a, long b, const char *what) {
    idx3 e;
    for (int i = 0; i < 3; ++i) e[i] = a * p.index()[i] + b * q.index()[i];
    c.check(ex.index() == e and ex.mesh_hash() == m.mesh_hash(), "index of %s is %s instead of %s", what, str(ex.index()).c_str(), str(e).c_str());
    c.check(m.to_data_index(ex) == fold(e), "data index of %s", what);
    auto v = nda::vector<double>(ex.value());
    for (int k = 0; k < 3; ++k) c.close(v(k), a * val(p.index(), k) + b * val(q.index(), k), 1e-11, what);
    c.check(m.to_data_index(closest_mesh_pt(v)) == fold(e), "closest point of the value of %s", what);
    c.check(m.to_index(closest_mesh_pt(ex)) == m.to_index(fold(e)), "closest point of %s", what);
    vmon::count("momentum_expressions");
  };
  is(p + q, 1, 1, "p + q"); is(p - q, 1, -1, "p - q"); is(-p, -1, 0, "-p"); is(3l * p, 3, 0, "3 p"); is(-2l * q, 0, -2, "-2 q");
  is(p + q + q, 1, 2, "p + q + q"); is(p - (q - p), 2, -1, "p - (q - p)"); is(-(p + q), -1, -1, "-(p + q)"); is(2l * (p - q), 2, -2, "2 (p - q)"); is(-p - q, -1, -1, "-p - q");
  equality(c, m, tmesh::brzone{bz, d}, true, "nothing");
  for (int i = 0; i < 3; ++i) { auto e = d; ++e[i]; equality(c, m, tmesh::brzone{bz, e}, false, "a dimension"); }
  { auto e = idx3{d[2], d[0], d[1]}; equality(c, m, tmesh::brzone{bz, e}, e == d, "the order of the dimensions"); }
  { nda::matrix<double> V = A(nda::range(bl.ndim()), nda::range(bl.ndim())); V *= 2; equality(c, m, tmesh::brzone{lat::brillouin_zone{lat::bravais_lattice{V}}, d}, false, "the lattice constant"); }
  if (bl.ndim() == 2) { nda::matrix<double> V{{A(1, 0), A(1, 1)}, {A(0, 0), A(0, 1)}}; equality(c, m, tmesh::brzone{lat::brillouin_zone{lat::bravais_lattice{V}}, d}, false, "the order of the unit vectors"); }
  nda::matrix<long> pm{{d[0], 0, 0}, {0, d[1], 0}, {0, 0, d[2]}};
  c.check(tmesh::brzone(bz, pm) == m, "mesh built with a periodization matrix");
  pm(2, 1) = 1;
  c.throws([&] { tmesh::brzone{bz, pm}; }, "a non-diagonal periodization matrix");
  h5trip(c, m, tmesh::brzone{lat::brillouin_zone{lat::bravais_lattice{}}, idx3{2, 3, 4}}, tmesh::discrete{4});
  c.nontrivial();
}
// ---- products
static void prod_case(kase &c) {
  tmesh::imfreq a{any_beta(c), any_stat(c), c.i(1, 5), c.chance(0.5) ? tmesh::imfreq::option::positive_frequencies_only : tmesh::imfreq::option::all_frequencies};
  tmesh::imtime b{any_beta(c), any_stat(c), c.i(2, 6)};
  int kind;
  lat::brillouin_zone bz{lat::bravais_lattice{any_units(c, kind)}};
  tmesh::brzone k{bz, any_dims(c, bz.ndim())};
  c.trace("%ld %ld %s", a.size(), b.size(), str(k.dims()).c_str());
  auto m = a * b * k;
  static_assert(std::is_same_v<decltype(m), tmesh::prod<tmesh::imfreq, tmesh::imtime, tmesh::brzone>>);
  c.check(m == a * (b * k) and m == tmesh::prod(a, b, k) and m == tmesh::prod(std::tuple(a, b, k)), "products built in different ways");
  c.check(m.size() == a.size() * b.size() * k.size() and m.size_of_components() == std::array<long, 3>{a.size(), b.size(), k.size()}, "size of a product");
  long n = 0;
  for (auto const &p : m) {
    long i = n / (b.size() * k.size()), j = (n / k.size()) % b.size(), l = n % k.size();
    c.check(i < a.size(), "too many points");
    c.check(p.data_index() == std::tuple(i, j, l), "data index of point %ld of a product", n);
    auto ix = std::tuple(a.to_index(i), b.to_index(j), k.to_index(l));
    c.check(p.index() == ix and m.to_index({i, j, l}) == ix and m.to_data_index(ix) == std::tuple(i, j, l), "index of point %ld of a product", n);
    c.check(m.is_index_valid(std::get<0>(ix), std::get<1>(ix), std::get<2>(ix)), "a point of a product is called invalid");
    c.check(!m.is_index_valid(a.last_index() + 1, std::get<1>(ix), std::get<2>(ix)) and !m.is_index_valid(std::get<0>(ix), -1, std::get<2>(ix)) and !m.is_index_valid(std::get<0>(ix), std::get<1>(ix), idx3{0, 0, -1}), "an index outside a product is called valid");
    auto const &[x, y, z] = p.as_tuple();
    c.check(cd(x) == cd(a[i]) and y.value() == b[j].value() and z.index() == k[l].index(), "components of a product point");
    for (auto const &q : {m[{i, j, l}], m(ix)}) c.check(q.index() == ix and q.data_index() == std::tuple(i, j, l) and q.mesh_hash() == p.mesh_hash(), "m[..] or m(..) of a product");
    c.check(p.mesh_hash() == a.mesh_hash() + b.mesh_hash() + k.mesh_hash(), "hash of a product point");
    ++n;
  }
  c.check(n == m.size(), "iteration over a product gives %ld of %ld points", n, m.size());
  vmon::count("points_checked", n);
  c.check(!(m == tmesh::prod(a, tmesh::imtime{b.beta(), b.statistic(), b.size() + 1}, k)) and m != tmesh::prod(tmesh::imfreq{a.beta() * 2, a.statistic(), 3}, b, k), "different products compare equal");
  { h5::file f("m.h5", 'w'); h5_write(f, "m", m); h5_write(f, "w", a); }
  h5::file f("m.h5", 'r');
  decltype(m) fresh, used{tmesh::imfreq{1, tmesh::Fermion, 2}, tmesh::imtime{2, tmesh::Boson, 4}, k};
  h5_read(f, "m", fresh); h5_read(f, "m", used);
  c.check(fresh == m and used == m, "a product read back from HDF5 is different");
  c.throws([&] { h5_read(f, "w", used); }, "reading a mesh of another type");
  auto mm = b * b;
  c.check(mm.size() == b.size() * b.size(), "square of a mesh");
  c.nontrivial();
}
static void default_case(kase &c) {
  c.trace("default %ld", c.index);
  auto one = [&](auto m, const char *what) {
    using M = decltype(m);
    c.check(m.size() == 0, "a default %s has %ld points", what, m.size());
    for (auto const &p : m) { (void)p; c.check(false, "a default %s has a point", what); }
    c.check(m == M{} and !(m != M{}), "two default meshes (%s) differ", what);
  };
  one(tmesh::imfreq{}, "imfreq"); one(tmesh::imtime{}, "imtime"); one(tmesh::refreq{}, "refreq"); one(tmesh::retime{}, "retime"); one(tmesh::legendre{}, "legendre");
  one(tmesh::discrete{}, "discrete"); one(tmesh::dlr{}, "dlr"); one(tmesh::dlr_imtime{}, "dlr_imtime"); one(tmesh::dlr_imfreq{}, "dlr_imfreq"); one(tmesh::brzone{}, "brzone");
  c.check(tmesh::brzone{} != tmesh::brzone(lat::brillouin_zone{lat::bravais_lattice{}}, 3l) and tmesh::dlr{} != tmesh::dlr(1, tmesh::Fermion, 2, 1e-6), "a default mesh equals a real one");
  c.nontrivial();
}
void run() {
  vmon::group("imfreq", 600, 20000, imfreq_case);
  vmon::group("matsubara", 4000, 200000, matsubara_case);
  vmon::group("linear", 300, 8000, linear_case);
  vmon::group("small", 200, 2000, small_case);
  vmon::group("dlr", 25, 400, dlr_case);
  vmon::group("dlr_index", 2, 2, [](kase &c) {
    tmesh::dlr_imfreq w{10, c.index ? tmesh::Boson : tmesh::Fermion, 2, 1e-8};
    bool ok = true;
    for (auto const &p : w) ok = ok and w.is_index_valid(p.index()) and w.to_data_index(p.index()) == p.data_index();
    c.check(ok, "the index of a point of a DLR Matsubara mesh is not an index of its mesh");
    c.nontrivial();
  });
  vmon::group("cyclat", 300, 10000, cyclat_case);
  vmon::group("brzone", 250, 10000, brzone_case);
  vmon::group("prod", 150, 4000, prod_case);
  vmon::group("default", 1, 1, default_case);
}
