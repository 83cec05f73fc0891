// L01: lattice geometry and tight-binding bands
#include "g_rig.hpp"
#include <triqs/lattice/tight_binding.hpp>
#include <triqs/lattice/grid_generator.hpp>
#include <set>
using namespace grig;
namespace triqs::lattice { // defined in tight_binding.cpp, wrapped for python
  nda::array<cd, 3> hopping_stack(tight_binding const &TB, nda::array_const_view<double, 2> k_stack);
  nda::array<double, 2> energies_on_bz_path(tight_binding const &TB, k_t const &K1, k_t const &K2, int n_pts);
  nda::array<cd, 3> energy_matrix_on_bz_path(tight_binding const &TB, k_t const &K1, k_t const &K2, int n_pts);
  nda::array<double, 2> energies_on_bz_grid(tight_binding const &TB, int n_pts);
} // namespace triqs::lattice
using dvec = std::vector<double>;
using vecd = nda::vector<double>;
using mat = std::vector<vec>; // rows
dvec toV(vecd const &v) { return {v.begin(), v.end()}; }
vecd fromV(dvec const &v) { vecd r(v.size()); for (size_t i = 0; i < v.size(); ++i) r(i) = v[i]; return r; }
// random cell vectors, well conditioned
nda::matrix<double> random_units(kase &c, int d) {
  if (c.chance(0.3)) { auto u = any_units(c); if (u.extent(0) == d) return u; }
  double s = c.pick(dvec{1, 1, 3.7, 0.2, 1e-3, 100});
  while (true) {
    nda::matrix<double> u(d, d);
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) u(i, j) = c.r(-1, 1);
    double det = d == 1 ? u(0, 0) : d == 2 ? u(0, 0) * u(1, 1) - u(0, 1) * u(1, 0) :
       u(0, 0) * (u(1, 1) * u(2, 2) - u(1, 2) * u(2, 1)) - u(0, 1) * (u(1, 0) * u(2, 2) - u(1, 2) * u(2, 0)) + u(0, 2) * (u(1, 0) * u(2, 1) - u(1, 1) * u(2, 0));
    if (std::abs(det) < 0.1) continue;
    u *= s;
    return u;
  }
}
double big(nda::matrix<double> const &u) { double m = 0; for (auto x : u) m = std::max(m, std::abs(x)); return m; }
lat::bravais_lattice any_lattice(kase &c, int d, int n) {
  std::vector<vecd> pos;
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) { vecd p(3); for (auto &x : p) x = c.r(); pos.push_back(p); names.push_back(std::string(1, char('a' + i))); }
  if (n == 1 && c.chance(0.5)) return {random_units(c, d)};
  if (c.chance(0.5)) return {random_units(c, d), pos};
  return {random_units(c, d), pos, names};
}
void coordinates(kase &c) {
  int d = c.i(1, 3), n = c.i(1, 4);
  auto u = random_units(c, d);
  double scale = big(u);
  std::vector<vecd> pos(n, vecd{0.1, 0.2, 0.3});
  lat::bravais_lattice bl{u, pos};
  lat::brillouin_zone bz{bl};
  c.trace("d=%d orbitals=%d", d, n);
  c.check(bl.ndim() == d && bz.ndim() == d && bl.n_orbitals() == n, "dimension or number of orbitals");
  c.check(bz.lattice() == bl && lat::bravais_lattice(bz) == bl, "lattice of the zone");
  c.check(bl.units().extent(0) == 3 && bz.units().extent(0) == 3 && bl.units().extent(1) == 3 && bz.units().extent(1) == 3, "shape of the units");
  for (int i = 0; i < d; ++i) for (int j = 0; j < 3; ++j) c.check(bl.units()(i, j) == (j < d ? u(i, j) : 0), "the units changed");
  // duality, also for the completed directions, which are orthogonal to the given ones
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double s = 0, o = 0, r = 0;
      for (int q = 0; q < 3; ++q) { s += bl.units()(i, q) * bz.units()(j, q); o += bl.units()(i, q) * bl.units()(j, q); r += bz.units()(i, q) * bz.reciprocal_matrix_inv()(q, j); }
      c.close(s, i == j ? 2 * pi : 0, 1e-10, "a_i . b_j");
      c.close(r, i == j ? 1 : 0, 1e-10, "reciprocal matrix times its inverse");
      if (i != j && (i >= d || j >= d)) c.close(o, 0, 1e-10 * scale, "completed direction is not orthogonal");
      if (i == j && i >= d) c.close(o, 1, 1e-10, "completed direction is not of length one");
      if (i >= d && j < d) c.close(bz.units()(j, 0) * bl.units()(i, 0) + bz.units()(j, 1) * bl.units()(i, 1) + bz.units()(j, 2) * bl.units()(i, 2), 0, 1e-10, "reciprocal vector out of the plane");
    }
  for (int rep = 0; rep < 4; ++rep) {
    int len = c.chance(0.5) ? 3 : d;
    vecd x(len);
    for (int i = 0; i < len; ++i) x(i) = i < d ? c.r(-3, 3) : 0;
    bool ints = c.chance(0.3);
    idx3 xi{};
    for (int i = 0; i < d; ++i) if (ints) { xi[i] = c.i(-5, 5); x(i) = double(xi[i]); }
    auto check = [&](auto const &B, double sc, const char *what) {
      dvec ref(3, 0.0);
      for (int j = 0; j < 3; ++j) for (int i = 0; i < d; ++i) ref[j] += x(i) * B.units()(i, j);
      vecd r = B.lattice_to_real_coordinates(x);
      c.check(r.size() == 3, "%s: %ld Cartesian coordinates", what, long(r.size()));
      for (int j = 0; j < 3; ++j) c.close(r(j), ref[j], 1e-12 * 10 * sc, what);
      // back, from as many components as the lattice needs or from all three
      vecd back = B.real_to_lattice_coordinates(r);
      c.check(back.size() == 3, "%s: %ld lattice coordinates", what, long(back.size()));
      for (int i = 0; i < 3; ++i) c.close(back(i), i < d ? x(i) : 0, 1e-9, "coordinates after the way back");
      vecd back2 = B.real_to_lattice_coordinates(vecd(r(nda::range(d))));
      for (int i = 0; i < 3; ++i) c.close(back2(i), i < d ? x(i) : 0, 1e-9, "coordinates after the way back with d components");
    };
    check(bl, scale, "Cartesian position");
    double ks = 0;
    for (auto y : bz.units()) ks = std::max(ks, std::abs(y));
    check(bz, ks, "Cartesian momentum");
    if (ints) { // the real form of an integer point
      lat::bravais_lattice::point_t p{xi, &bl};
      auto q = vecd(p);
      vecd ref = bl.lattice_to_real_coordinates(x);
      for (int j = 0; j < 3; ++j) { c.close(q(j), ref(j), 1e-12 * 10 * scale, "lattice point"); c.close(p[j], ref(j), 1e-12 * 10 * scale, "component of a lattice point"); }
      c.check(p.index() == xi, "index of a lattice point");
      c.check(&p.lattice() == &bl, "lattice of a lattice point");
    }
  }
  c.check(bl == lat::bravais_lattice(u, pos), "equal lattices differ");
  auto u2 = u;
  u2(0, 0) += scale;
  bool sing = false;
  try { lat::bravais_lattice bl2{u2, pos}; c.check(bl != bl2, "different lattices are equal"); lat::brillouin_zone bz2{bl2}; c.check(bz != bz2, "different zones are equal"); } catch (triqs::runtime_error const &) { sing = true; }
  if (!sing && d > 1) c.nontrivial(vmon::hash_fmt("c%d %d %g %g", d, n, u(0, 0), u(1, 0)));
  else c.nontrivial(vmon::hash_fmt("c%d %d %g", d, n, u(0, 0)));
}
void points(kase &c) {
  int d = c.i(1, 3);
  auto bl = any_lattice(c, d, c.i(1, 2));
  using P = lat::bravais_lattice::point_t;
  idx3 a{}, b{};
  for (int i = 0; i < d; ++i) { a[i] = c.i(-9, 9); b[i] = c.i(-9, 9); }
  P p{a, &bl}, q{b, &bl};
  double tol = 1e-10 * big(bl.units());
  vecd ra = bl.lattice_to_real_coordinates(a), rb = bl.lattice_to_real_coordinates(b);
  bool cached = c.chance(0.5);
  if (cached) { (void)p[0]; (void)q[0]; }
  auto s = p + q, m = p - q, n = -p;
  P cp = p;
  for (int i = 0; i < 3; ++i) {
    c.check(s.index()[i] == a[i] + b[i] && m.index()[i] == a[i] - b[i] && n.index()[i] == -a[i], "index of a sum, difference or opposite of lattice points");
    c.close(s[i], ra(i) + rb(i), tol, "sum of lattice points");
    c.close(m[i], ra(i) - rb(i), tol, "difference of lattice points");
    c.close(n[i], -ra(i), tol, "opposite of a lattice point");
    c.close(cp[i], ra(i), tol, "copy of a lattice point");
  }
  cp = q;
  for (int i = 0; i < 3; ++i) c.close(cp[i], rb(i), tol, "assigned lattice point");
  c.nontrivial(vmon::hash_fmt("p%d %ld %ld %ld", d, a[0], b[0], a[1]));
}
// ---- a model and its own Bloch sums
struct model {
  int d, n;
  lat::bravais_lattice bl;
  std::vector<nda::vector<long>> R;
  std::vector<nda::matrix<cd>> t;
  lat::tight_binding make() const { return {bl, R, t}; }
  mat at(dvec const &k) const {
    mat h(n, vec(n, 0));
    for (size_t j = 0; j < R.size(); ++j) {
      double ph = 0;
      for (int q = 0; q < d; ++q) ph += k[q] * double(R[j](q));
      cd e = std::polar(1.0, 2 * pi * (ph - std::round(ph)));
      for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) h[a][b] += e * t[j](a, b);
    }
    return h;
  }
  double size() const { double s = 0; for (auto &m : t) { double x = 0; for (auto y : m) x += std::abs(y); s += x; } return std::max(s, 1.0); }
};
model any_model(kase &c, int nmax = 4, bool allow_empty = true) {
  int d = c.i(1, 3), n = c.i(1, nmax);
  model m{d, n, any_lattice(c, d, n), {}, {}};
  std::set<std::vector<long>> seen;
  int k = c.i(allow_empty && c.chance(0.05) ? 0 : 1, 5);
  bool real = c.chance(0.3);
  for (int i = 0; i < k; ++i) {
    nda::vector<long> r(d), mr(d);
    bool zero = true;
    for (int q = 0; q < d; ++q) { r(q) = c.i(-3, 3); if (i == 0 && c.chance(0.3)) r(q) = 0; mr(q) = -r(q); zero = zero && r(q) == 0; }
    if (seen.count({r.begin(), r.end()})) continue;
    seen.insert({r.begin(), r.end()});
    seen.insert({mr.begin(), mr.end()});
    nda::matrix<cd> h(n, n);
    randomize(c, h);
    if (real) for (auto &x : h) x = x.real();
    if (zero) { m.R.push_back(r); m.t.push_back(nda::matrix<cd>(h + nda::dagger(h))); continue; }
    m.R.push_back(r); m.t.push_back(h);
    m.R.push_back(mr); m.t.push_back(nda::matrix<cd>(nda::dagger(h)));
  }
  std::vector<int> perm(m.R.size());
  for (size_t i = 0; i < perm.size(); ++i) perm[i] = int(i);
  c.shuffle(perm);
  auto R = m.R; auto t = m.t;
  for (size_t i = 0; i < perm.size(); ++i) { m.R[i] = R[perm[i]]; m.t[i] = t[perm[i]]; }
  c.trace("model: d=%d orbitals=%d hoppings=%zu", d, n, m.R.size());
  return m;
}
vec flatm(mat const &h) { vec r; for (auto &x : h) r.insert(r.end(), x.begin(), x.end()); return r; }
// the numbers are the sorted eigenvalues of h: power sums up to the order of the matrix
void spectrum(kase &c, dvec const &e, mat const &h, double tol, const char *what) {
  size_t n = h.size();
  c.check(e.size() == n, "%s: %zu eigenvalues of a matrix of size %zu", what, e.size(), n);
  for (size_t i = 0; i + 1 < n; ++i) c.check(e[i] <= e[i + 1] + tol, "%s: eigenvalues are not sorted: %.15g before %.15g", what, e[i], e[i + 1]);
  mat p = h;
  double sc = 1;
  for (size_t q = 1; q <= n; ++q) {
    cd tr = 0;
    double s = 0;
    for (size_t i = 0; i < n; ++i) { tr += p[i][i]; s += std::pow(e[i], double(q)); }
    for (auto x : e) sc = std::max(sc, std::pow(std::abs(x), double(q)));
    if (!(std::abs(tr - s) <= tol * 10 * sc)) c.check(false, "%s: sum of the powers %zu of the eigenvalues is %.15g, trace is %.15g", what, q, s, tr.real());
    mat np(n, vec(n, 0));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t l = 0; l < n; ++l) np[i][j] += p[i][l] * h[l][j];
    p = np;
  }
  ++vmon::S().counters["oracle_checks"];
}
dvec any_k(kase &c, int len) {
  dvec k(len);
  for (auto &x : k) x = c.chance(0.2) ? c.pick(dvec{0, 0.5, -0.5, 1, 0.25}) : c.r(-1.5, 1.5);
  return k;
}
void bands(kase &c) {
  auto m = any_model(c);
  auto tb = m.make();
  double tol = 1e-11 * m.size();
  c.check(tb.n_orbitals() == m.n && tb.lattice() == m.bl && tb.displ_vec().size() == m.R.size() && tb.overlap_mat_vec().size() == m.t.size(), "the model does not hold what it was made of");
  c.check(tb == m.make() and not(tb != m.make()), "a model differs from one with the same parts");
  if (not m.R.empty()) { // any other part makes another model
    auto h = m; h.t[0] *= 2; if (m.R.size() > 1) for (size_t j = 1; j < h.R.size(); ++j) if (h.R[j] == nda::vector<long>(-h.R[0])) h.t[j] *= 2;
    double top = 0; for (auto x : m.t[0]) top = std::max(top, std::abs(x));
    if (top > 0) c.check(tb != h.make() and not(tb == h.make()), "models with other hoppings are equal");
    auto r = m; for (auto &R : r.R) R *= 2;
    bool moved = r.R != m.R;
    if (moved) c.check(tb != r.make() and not(tb == r.make()), "models with other displacements are equal");
    auto u = nda::matrix<double>(m.bl.units()(nda::range(m.d), nda::range(m.d))); u *= 2;
    std::vector<vecd> pos(m.n, vecd{0, 0, 0});
    auto l = m; l.bl = lat::bravais_lattice{u, pos};
    c.check(tb != l.make() and not(tb == l.make()), "models on other lattices are equal");
    auto f = m; f.R.clear(); f.t.clear();
    c.check(tb != f.make(), "a model without hoppings equals one with hoppings");
    vmon::count("comparisons", 5);
  }
  size_t pos = 0;
  foreach (tb, [&](auto const &R, auto const &t) {
    c.check(pos < m.R.size() && R == m.R[pos] && t == m.t[pos], "hopping %zu", pos);
    ++pos;
  });
  c.check(pos == m.R.size(), "foreach called for %zu hoppings", pos);
  // one k; more components than dimensions are ignored
  auto one = [&](dvec const &k) {
    auto h = tb.fourier(fromV(k));
    c.check(h.extent(0) == m.n && h.extent(1) == m.n, "shape of t(k)");
    auto ref = m.at(k);
    same(c, flat(h), flatm(ref), tol, "t(k)");
    for (int a = 0; a < m.n; ++a) for (int b = 0; b < m.n; ++b) if (std::abs(h(a, b) - std::conj(h(b, a))) > tol) c.check(false, "t(k) is not hermitian at (%d,%d)", a, b);
    auto e = tb.dispersion(fromV(k));
    spectrum(c, dvec(e.begin(), e.end()), ref, 1e-10 * m.size(), "dispersion");
    return toV(vecd(e));
  };
  int len = c.chance(0.5) ? 3 : m.d;
  dvec k = any_k(c, len);
  auto e = one(k);
  dvec k2 = k;
  for (int q = 0; q < m.d; ++q) k2[q] += c.i(-2, 2);
  auto e2 = one(k2);
  for (size_t i = 0; i < e.size(); ++i) c.close(e2[i], e[i], 1e-10 * m.size(), "dispersion one reciprocal vector further");
  // many k at once
  int nk = c.i(1, 6);
  nda::array<double, 2> ks(nk, len);
  std::vector<dvec> kv;
  for (int i = 0; i < nk; ++i) { kv.push_back(any_k(c, len)); for (int q = 0; q < len; ++q) ks(i, q) = kv[i][q]; }
  auto hs = tb.fourier(ks);
  auto es = tb.dispersion(ks);
  c.check(hs.extent(0) == nk && hs.extent(1) == m.n && hs.extent(2) == m.n && es.extent(0) == nk && es.extent(1) == m.n, "shape of t(k) or energies for an array of k");
  for (int i = 0; i < nk; ++i) {
    same(c, flat(hs(i, all, all)), flatm(m.at(kv[i])), tol, "t(k) of an array of k");
    spectrum(c, toV(vecd(es(i, all))), m.at(kv[i]), 1e-10 * m.size(), "dispersion of an array of k");
  }
  // as columns of a stack
  nda::array<double, 2> kt(len, nk);
  for (int i = 0; i < nk; ++i) for (int q = 0; q < len; ++q) kt(q, i) = kv[i][q];
  auto st = lat::hopping_stack(tb, kt);
  c.check(st.extent(0) == m.n && st.extent(2) == nk, "shape of the stack");
  for (int i = 0; i < nk; ++i) same(c, flat(st(all, all, i)), flatm(m.at(kv[i])), tol, "hopping_stack");
  // strided input
  nda::array<double, 2> wide(2 * nk, len + 1);
  wide = 7;
  for (int i = 0; i < nk; ++i) for (int q = 0; q < len; ++q) wide(2 * i, q) = kv[i][q];
  auto hw = tb.fourier(wide(nda::range(0, 2 * nk, 2), nda::range(len)));
  same(c, flat(hw), flat(hs), tol, "t(k) of a strided view of k");
  c.nontrivial(vmon::hash_fmt("b%d %d %zu %g", m.d, m.n, m.R.size(), k[0]));
}
void on_mesh(kase &c) {
  auto m = any_model(c, 3);
  auto tb = m.make();
  lat::brillouin_zone bz{m.bl};
  double tol = 1e-10 * m.size();
  auto check = [&](auto const &mesh, auto const &h, auto const &e, idx3 dims) {
    c.check(h.mesh() == mesh && e.mesh() == mesh, "mesh of the result");
    c.check(h.target_shape() == std::array<long, 2>{m.n, m.n} && e.target_shape() == std::array<long, 1>{m.n}, "target shape of the result");
    c.check(mesh.size() == size_t(dims[0] * dims[1] * dims[2]), "size of the mesh: %ld, expected %ld", long(mesh.size()), dims[0] * dims[1] * dims[2]);
    for (auto k : mesh) {
      auto ix = k.index();
      dvec kl{double(ix[0]) / dims[0], double(ix[1]) / dims[1], double(ix[2]) / dims[2]};
      auto ref = m.at(kl);
      same(c, flat(h[k]), flatm(ref), tol, "t(k) on the mesh");
      spectrum(c, toV(vecd(e[k])), ref, 10 * tol, "dispersion on the mesh");
      // the Cartesian value is the same momentum
      auto kc = k.value();
      for (size_t j = 0; j < m.R.size(); ++j) {
        vecd r = m.bl.lattice_to_real_coordinates(m.R[j]);
        double ph = 0, ph2 = 0;
        for (int q = 0; q < 3; ++q) ph += r(q) * kc(q);
        for (int q = 0; q < m.d; ++q) ph2 += 2 * pi * kl[q] * m.R[j](q);
        c.close(std::abs(std::polar(1.0, ph) - std::polar(1.0, ph2)), 0, 1e-9, "phase exp(i k R) from Cartesian k and R");
      }
    }
  };
  if (c.chance(0.5)) {
    int n = c.i(1, m.d == 3 ? 4 : 6);
    tmesh::brzone mesh{bz, n};
    idx3 dims{n, m.d > 1 ? n : 1, m.d > 2 ? n : 1};
    auto h = tb.fourier(n);
    auto e = tb.dispersion(n);
    check(mesh, h, e, dims);
    c.trace("n_l=%d", n);
  } else {
    nda::vector<long> dv(m.d);
    idx3 dims{1, 1, 1};
    for (int q = 0; q < m.d; ++q) { dims[q] = c.i(1, 5); }
    tmesh::brzone mesh{bz, dims};
    c.trace("dims %ld %ld %ld", dims[0], dims[1], dims[2]);
    auto h = tb.fourier(mesh);
    auto e = tb.dispersion(mesh);
    check(mesh, h, e, dims);
  }
  c.nontrivial(vmon::hash_fmt("m%d %d %zu %g", m.d, m.n, m.R.size(), m.bl.units()(0, 0)));
}
void paths(kase &c) {
  auto m = any_model(c);
  auto tb = m.make();
  int len = c.chance(0.5) ? 3 : m.d, n = c.i(1, 8);
  auto k1 = any_k(c, len), k2 = any_k(c, len);
  auto e = lat::energies_on_bz_path(tb, fromV(k1), fromV(k2), n);
  auto h = lat::energy_matrix_on_bz_path(tb, fromV(k1), fromV(k2), n);
  c.check(e.extent(0) == m.n && e.extent(1) == n && h.extent(0) == m.n && h.extent(1) == m.n && h.extent(2) == n, "shape of the energies on a path");
  for (int i = 0; i < n; ++i) {
    dvec k(len);
    for (int q = 0; q < len; ++q) k[q] = k1[q] + (k2[q] - k1[q]) * i / n;
    auto ref = m.at(k);
    same(c, flat(h(all, all, i)), flatm(ref), 1e-11 * m.size(), "t(k) on a path");
    spectrum(c, toV(vecd(e(all, i))), ref, 1e-10 * m.size(), "energies on a path");
  }
  int g = c.i(1, m.d == 3 ? 3 : 5);
  auto eg = lat::energies_on_bz_grid(tb, g);
  long size = 1;
  for (int q = 0; q < m.d; ++q) size *= g;
  c.check(eg.extent(0) == m.n && eg.extent(1) == size, "shape of the energies on a grid");
  for (long i = 0; i < size; ++i) {
    dvec k(3, 0.0);
    long t = i;
    for (int q = 0; q < m.d; ++q) { k[q] = (t % g + 0.5) / g; t /= g; }
    spectrum(c, toV(vecd(eg(all, i))), m.at(k), 1e-10 * m.size(), "energies on a grid");
  }
  c.nontrivial(vmon::hash_fmt("path%d %d %d %g", m.d, m.n, n, k1[0]));
}
void grids(kase &c) {
  int d = c.i(1, 3), n = c.i(0, d == 3 ? 6 : 12);
  lat::grid_generator g(d, n);
  long size = 1;
  for (int q = 0; q < d; ++q) size *= n;
  c.check(g.size() == size, "size of the grid: %d, expected %ld", g.size(), size);
  std::set<std::vector<long>> seen;
  long i = 0;
  for (; g; ++g, ++i) {
    c.check(g.index() == i, "index %d at point %ld", g.index(), i);
    c.check(i < size, "more points than the size of the grid (%ld)", size);
    auto p = *g;
    std::vector<long> cell;
    for (int q = 0; q < d; ++q) {
      double x = p(q) * n - 0.5;
      c.close(x, std::round(x), 1e-9, "the point is not in the middle of its cell");
      c.check(std::round(x) >= 0 && std::round(x) < n, "point out of the unit cube");
      cell.push_back(std::lround(x));
    }
    c.check(seen.insert(cell).second, "a cell visited twice");
  }
  c.check(i == size, "%ld points in a grid of %ld", i, size);
  c.nontrivial(vmon::hash_fmt("g%d %d", d, n));
}
// histogram of samples against the reported density: cumulated weights, with the samples next to a border on either side
void cumulated(kase &c, dvec const &rho, double lo, double de, std::vector<std::pair<double, double>> s, double total, const char *what) {
  std::sort(s.begin(), s.end());
  double got = 0, slack = 1e-9 * std::max(1.0, std::max(std::abs(lo), de * rho.size()));
  for (size_t b = 0; b < rho.size(); ++b) {
    c.check(rho[b] >= -1e-12, "%s: negative density", what);
    got += rho[b] * de;
    double edge = lo + de * double(b + 1), below = 0, above = 0;
    for (auto [e, w] : s) { if (e < edge - slack) below += w; if (e <= edge + slack) above += w; }
    if (b + 1 == rho.size()) below = above = total;
    if (!(got >= below - 1e-9 * total && got <= above + 1e-9 * total)) c.check(false, "%s: weight below %.15g is %.15g, between %.15g and %.15g expected", what, edge, got, below, above);
  }
}
void densities(kase &c) {
  auto m = any_model(c, 3);
  bool flat_band = c.chance(0.1) || m.R.empty();
  if (flat_band) { // all energies equal
    double e0 = c.chance(0.5) ? 0 : c.r(-2, 2);
    m.R.assign(1, nda::vector<long>(m.d)); m.R[0] = 0;
    m.t.assign(1, nda::matrix<cd>(m.n, m.n)); m.t[0]() = 0;
    for (int a = 0; a < m.n; ++a) m.t[0](a, a) = e0;
  }
  auto tb = m.make();
  int nk = c.i(1, m.d == 1 ? 12 : m.d == 2 ? 6 : 4), ne = c.i(1, 12);
  c.trace("nk=%d ne=%d flat=%d", nk, ne, int(flat_band));
  auto [eps, rho] = lat::dos(tb, nk, ne);
  c.check(eps.size() == ne && rho.extent(0) == ne && rho.extent(1) == m.n, "shape of the density of states");
  // energies of the same k points, power sums to check the energies themselves are in spectrum()
  auto eg = lat::energies_on_bz_grid(tb, nk);
  std::vector<std::pair<double, double>> s;
  double lo = 1e300, hi = -1e300;
  for (auto x : eg) { lo = std::min(lo, x); hi = std::max(hi, x); s.push_back({x, 1.0 / double(eg.extent(1))}); }
  double de = ne > 1 ? (eps(ne - 1) - eps(0)) / (ne - 1) : 0;
  if (ne == 1) { double t = 0; for (int a = 0; a < m.n; ++a) t += rho(0, a); c.check(t > 0 && std::isfinite(t), "density of a single bin"); de = m.n / t; }
  double width = hi - lo;
  c.check(de > 0 && std::isfinite(de), "width of the bins: %g", de);
  for (int i = 0; i < ne; ++i) { c.check(std::isfinite(eps(i)), "energy of a bin"); c.close(eps(i), eps(0) + i * de, 1e-9 * (1 + std::abs(eps(i))), "the bins are not equidistant"); }
  for (int a = 0; a < m.n; ++a) {
    double t = 0, first = 0, second = 0;
    for (int i = 0; i < ne; ++i) { c.check(rho(i, a) >= 0, "negative density"); t += rho(i, a) * de; first += eps(i) * rho(i, a) * de; second += eps(i) * eps(i) * rho(i, a) * de; }
    c.close(t, 1, 1e-9, "integral of the density of one orbital");
    // moments of the orbital: <h_aa> and <(h h)_aa>, within the width of a bin
    double h1 = 0, h2 = 0;
    long nn = 0;
    lat::grid_generator g(m.d, nk);
    for (; g; ++g, ++nn) { auto p = *g; auto h = m.at({p(0), p(1), p(2)}); h1 += h[a][a].real(); for (int b = 0; b < m.n; ++b) h2 += std::norm(h[a][b]); }
    double half = de / 2, emax = std::max(std::abs(lo), std::abs(hi)) + half;
    c.check(std::abs(first - h1 / nn) <= half * (1 + 1e-6) + 1e-9, "first moment of orbital %d: %.12g instead of %.12g, bins of %.3g", a, first, h1 / nn, de);
    c.check(std::abs(second - h2 / nn) <= 2 * emax * half * (1 + 1e-6) + 1e-9, "second moment of orbital %d: %.12g instead of %.12g, bins of %.3g", a, second, h2 / nn, de);
  }
  double edge = eps(0) - de / 2;
  c.check(edge <= lo + 1e-9 * (1 + std::abs(lo)) && edge + ne * de >= hi - 1e-9 * (1 + std::abs(hi)), "the bins do not cover the band");
  if (width > 1e-9) c.check(edge >= lo - 1e-9 * (1 + std::abs(lo)) && edge + ne * de <= hi + 1e-9 * (1 + std::abs(hi)), "weight out of the band");
  dvec tot(ne, 0.0);
  for (int i = 0; i < ne; ++i) for (int a = 0; a < m.n; ++a) tot[i] += rho(i, a);
  cumulated(c, tot, edge, de, s, m.n, "density of states");
  c.nontrivial(vmon::hash_fmt("d%d %d %d %d %g", m.d, m.n, nk, ne, lo));
}
void patches(kase &c) {
  model m = any_model(c, 1, false);
  for (int tries = 0; m.d != 2; ++tries) m = any_model(c, 1, false);
  auto tb = m.make();
  int nt = c.i(1, 4), ne = c.i(2, 10), nd = c.i(1, 6);
  nda::array<double, 2> tri(3 * nt, 2);
  for (auto &x : tri) x = c.r(-0.5, 0.5);
  bool flat_band = c.chance(0.1);
  if (flat_band) {
    m.R.assign(1, nda::vector<long>(2)); m.R[0] = 0;
    m.t.assign(1, nda::matrix<cd>(1, 1)); m.t[0]() = c.r(-1, 1);
    tb = m.make();
  }
  // the centres of nd^2 congruent triangles
  std::vector<std::pair<double, double>> s;
  double area = 0, lo = 1e300, hi = -1e300;
  for (int t = 0; t < nt; ++t) {
    dvec a{tri(3 * t, 0), tri(3 * t, 1)}, b{tri(3 * t + 1, 0), tri(3 * t + 1, 1)}, e{tri(3 * t + 2, 0), tri(3 * t + 2, 1)};
    double A = 0.5 * std::abs((b[0] - a[0]) * (e[1] - a[1]) - (b[1] - a[1]) * (e[0] - a[0]));
    area += A;
    for (int i = 0; i < nd; ++i)
      for (int j = 0; j < nd - i; ++j)
        for (int up = 0; up < (j < nd - i - 1 ? 2 : 1); ++up) {
          double x = (i + (up + 1) / 3.0) / nd, y = (j + (up + 1) / 3.0) / nd;
          double en = m.at({a[0] + x * (b[0] - a[0]) + y * (e[0] - a[0]), a[1] + x * (b[1] - a[1]) + y * (e[1] - a[1])})[0][0].real();
          s.push_back({en, A / (nd * nd)});
          lo = std::min(lo, en); hi = std::max(hi, en);
        }
  }
  c.trace("triangles=%d ne=%d nd=%d flat=%d", nt, ne, nd, int(flat_band));
  auto [eps, rho] = lat::dos_patch(tb, tri, ne, nd);
  c.check(eps.size() == ne && rho.size() == ne, "shape of the density of states of a patch");
  double de = (hi - lo) / ne, t = 0;
  if (hi - lo > 1e-6) {
    for (int i = 0; i < ne; ++i) { t += rho(i) * de; c.check(eps(i) >= lo - 1e-9 && eps(i) <= hi + 1e-9 && (i == 0 || eps(i) > eps(i - 1)), "energies of the bins"); }
    c.check(std::abs(t - area) <= 1e-9 * (1 + area), "integral of the density of a patch: %.15g, area %.15g", t, area);
    cumulated(c, toV(vecd(rho)), lo, de, s, area, "density of states of a patch");
  } else {
    double tot = 0;
    for (int i = 0; i < ne; ++i) { c.check(std::isfinite(eps(i)) && std::isfinite(rho(i)) && rho(i) >= 0, "density of a flat patch"); tot += rho(i) > 0; }
    c.check(tot >= 1, "density of a flat patch is zero");
  }
  c.nontrivial(vmon::hash_fmt("t%d %d %d %g", nt, ne, nd, lo));
}
template <typename F> void refused(kase &c, F f, const char *what) {
  bool thrown = false;
  try { f(); } catch (std::exception const &) { thrown = true; }
  c.check(thrown, "accepted: %s", what);
}
void rejected(kase &c) {
  int kind = c.i(0, 13);
  auto m = any_model(c, 3, false);
  auto pick = [&] { return c.i(0, int(m.R.size()) - 1); };
  c.trace("kind %d", kind);
  auto tb = m.make();
  auto k = fromV(any_k(c, 3));
  switch (kind) {
    case 0: m.t.pop_back(); refused(c, [&] { m.make(); }, "fewer matrices than displacements"); break;
    case 1: m.R.push_back(m.R[0]); refused(c, [&] { m.make(); }, "more displacements than matrices"); break;
    case 2: { int i = pick(); m.R[i] = nda::vector<long>(m.d + 1); m.R[i]() = 0; refused(c, [&] { m.make(); }, "displacement of another dimension"); break; }
    case 3: { int i = pick(); m.t[i] = nda::matrix<cd>(m.n + 1, m.n); m.t[i]() = 0; refused(c, [&] { m.make(); }, "matrix with more rows"); break; }
    case 4: { int i = pick(); m.t[i] = nda::matrix<cd>(m.n, m.n + 1); m.t[i]() = 0; refused(c, [&] { m.make(); }, "matrix with more columns"); break; }
    case 5: { // one matrix is not the conjugate of the opposite one
      int i = pick(), a = c.i(0, m.n - 1), b = c.i(0, m.n - 1);
      bool zero = true;
      for (auto x : m.R[i]) zero = zero && x == 0;
      m.t[i](a, b) += zero && a == b ? cd(0, c.pick(dvec{1, 1e-6, 1e-10})) : cd(c.pick(dvec{1, 1e-6, 1e-10}), 0);
      if (zero && a != b) m.t[i](a, b) += cd(0, 1e-6);
      refused(c, [&] { m.make(); }, "non-hermitian hopping");
      break;
    }
    case 6: { // the opposite displacement is missing
      nda::vector<long> r(m.d);
      r() = 0;
      r(c.i(0, m.d - 1)) = 7;
      nda::matrix<cd> h(m.n, m.n);
      randomize(c, h);
      m.R.push_back(r); m.t.push_back(h);
      refused(c, [&] { m.make(); }, "hopping without its opposite");
      break;
    }
    case 7: { // dependent vectors
      int d = c.i(2, 3);
      nda::matrix<double> u(d, d);
      randomize(c, u);
      double f = c.r(-2, 2);
      u(d - 1, all) = f * u(0, all);
      refused(c, [&] { lat::bravais_lattice{u}; }, "linearly dependent vectors");
      break;
    }
    case 8: { nda::matrix<double> u(1, 1); u(0, 0) = 0; refused(c, [&] { lat::bravais_lattice{u}; }, "a zero vector in one dimension"); break; }
    case 9: { nda::matrix<double> u(4, 4); u() = 0; for (int i = 0; i < 4; ++i) u(i, i) = 1; refused(c, [&] { lat::bravais_lattice{u}; }, "four dimensions"); break; }
    case 10: { int d = c.i(2, 3); nda::matrix<double> u(d, d - 1); randomize(c, u); refused(c, [&] { lat::bravais_lattice{u}; }, "units which are not square"); break; }
    case 11: { nda::matrix<double> u(0, 0); refused(c, [&] { lat::bravais_lattice{u}; }, "no dimension"); break; }
    case 12: refused(c, [&] { lat::dos(tb, 0, 5); }, "density of states without k points"); break;
    case 13: {
      nda::array<double, 2> tri(3, 2);
      randomize(c, tri);
      if (m.d != 2) refused(c, [&] { lat::dos_patch(tb, tri, 4, 2); }, "patch of a lattice which is not two dimensional");
      else refused(c, [&] { nda::array<double, 2> t3(3, 3); t3 = 0; lat::dos_patch(tb, t3, 4, 2); }, "triangles with three coordinates");
      break;
    }
  }
  c.nontrivial(vmon::hash_fmt("r%d %d %d %zu %g", kind, m.d, m.n, m.R.size(), k(0)));
}
void run() {
  vmon::group("coordinates", 4 * 300, 6000, coordinates);
  vmon::group("points", 4 * 100, 2000, points);
  vmon::group("bands", 4 * 200, 4000, bands);
  vmon::group("on_mesh", 4 * 120, 2000, on_mesh);
  vmon::group("paths", 4 * 120, 2000, paths);
  vmon::group("grids", 60, 400, grids);
  vmon::group("densities", 4 * 150, 3000, densities);
  vmon::group("patches", 4 * 100, 2000, patches);
  vmon::group("rejected", 4 * 140, 2000, rejected);
}
