// G03: the in-place operators kept for old python code (constant added to or subtracted from a function, matrix inverse of the data)
#include "g_rig.hpp"
#include <triqs/gfs/legacy_for_python_api.hpp>
using namespace grig;
using tg::scalar_valued; using tg::matrix_valued;
static tmesh::imfreq mesh_of(kase &c, tmesh::imfreq *) { return {c.r(0.5, 20), c.chance(0.5) ? Fermion : Boson, c.i(1, 6)}; }
static tmesh::refreq mesh_of(kase &c, tmesh::refreq *) { double a = c.r(-3, 0); return {a, a + c.r(0.1, 5), c.i(2, 9)}; }
// data inside a larger array, to see writes outside and other strides
template <typename M, bool sc> void one(kase &c) {
  using T = std::conditional_t<sc, scalar_valued, matrix_valued>;
  auto m = mesh_of(c, (M *)nullptr);
  long L = m.size(), n1 = sc ? 1 : c.i(1, 3), n2 = sc ? 1 : c.chance(0.7) ? n1 : c.i(1, 3);
  nda::array<cd, 4> big(L, n1 + 1, n2 + 1, 2);
  for (auto &x : big) x = c.cplx();
  nda::array<cd, 4> before = big;
  auto view = [&] { if constexpr (sc) return gf_view<M, T>{m, big(all, 1, 0, 1)}; else return gf_view<M, T>{m, big(all, nda::range(1, n1 + 1), nda::range(0, n2), 1)}; }();
  bool minus = c.chance(0.5), matrix = not sc and c.chance(0.5);
  double s = minus ? -1 : 1;
  cd z = c.cplx();
  nda::matrix<cd> mat(n1, n2);
  for (auto &x : mat) x = c.cplx();
  c.trace("%s %ld x %ld %s %s", sc ? "scalar" : "matrix", n1, n2, minus ? "-=" : "+=", matrix ? "matrix" : "number");
  bool refused = false, must = false;
  try {
    if constexpr (sc) { if (minus) tg::operator-=(view, z); else tg::operator+=(view, z); }
    else if (matrix) {
      if (c.chance(0.2)) { mat.resize(n1 + 1, n2); mat() = 1; must = true; }
      if (minus) tg::operator-=(view, mat); else tg::operator+=(view, mat);
    } else {
      must = n1 != n2;
      if (minus) tg::operator-=(view, z); else tg::operator+=(view, z);
    }
  } catch (triqs::runtime_error const &) { refused = true; }
  c.check(refused == must, refused ? "refused" : "another shape was accepted");
  for (long l = 0; l < L; ++l)
    for (long i = 0; i <= n1; ++i)
      for (long j = 0; j <= n2; ++j)
        for (long k = 0; k < 2; ++k) {
          cd ref = before(l, i, j, k);
          if (not must and k == 1 and i >= 1 and j < n2) {
            if (matrix) ref += s * mat(i - 1, j);
            else if (sc or i - 1 == j) ref += s * z;
          }
          c.close(big(l, i, j, k), ref, 1e-13, "element of the data");
        }
  // the inverse of all matrices of the data
  if constexpr (not sc) {
    nda::array<cd, 3> a(L, n1, n2);
    for (auto &x : a) x = c.cplx();
    for (long l = 0; l < L; ++l) for (long i = 0; i < std::min(n1, n2); ++i) a(l, i, i) += 6;
    auto b = a;
    bool no = false;
    try { tg::_gf_invert_data_in_place(b); } catch (triqs::runtime_error const &) { no = true; }
    c.check(no == (n1 != n2), "inverse of %ld x %ld matrices", n1, n2);
    if (not no)
      for (long l = 0; l < L; ++l) for (long i = 0; i < n1; ++i) for (long j = 0; j < n1; ++j) {
        cd p = 0;
        for (long q = 0; q < n1; ++q) p += a(l, i, q) * b(l, q, j);
        c.close(p, i == j ? 1 : 0, 1e-12, "product with the inverse");
      }
  }
  c.nontrivial(vmon::hash_fmt("%d %ld %ld %ld %d %d %d", sc, L, n1, n2, minus, matrix, must));
}
void run() {
  vmon::group("legacy", 800, 8000, [](kase &c) { switch (c.i(0, 3)) { case 0: one<tmesh::imfreq, true>(c); break; case 1: one<tmesh::imfreq, false>(c); break; case 2: one<tmesh::refreq, true>(c); break; default: one<tmesh::refreq, false>(c); } });
}
