// Independent reference for fermionic algebra: Jordan-Wigner action of products of c, c+ on Fock states.
// |f> = c+_{i0} c+_{i1} ... |0> with i0 < i1 < ... the occupied modes.
#pragma once
#include <complex>
#include <cstdint>
#include <map>
#include <vector>
namespace fock {
  using cd = std::complex<double>;
  using F  = uint64_t;
  struct cop {
    bool dag;
    int mode;
    bool operator==(cop const &) const = default;
  };
  using mono = std::vector<cop>;
  struct term {
    cd coef;
    mono m;
  };
  using expr = std::vector<term>; // sum of (not normal ordered) products
  using vec  = std::map<F, cd>;

  inline bool act1(cop const &o, F &f, int &sign) {
    F bit = F(1) << o.mode;
    if (bool(f & bit) == o.dag) return false;
    if (__builtin_popcountll(f & (bit - 1)) & 1) sign = -sign;
    f ^= bit;
    return true;
  }
  inline bool act(mono const &m, F &f, int &sign) {
    for (auto it = m.rbegin(); it != m.rend(); ++it)
      if (!act1(*it, f, sign)) return false;
    return true;
  }
  inline vec act(expr const &e, vec const &v) {
    vec r;
    for (auto const &t : e)
      for (auto const &[f, a] : v) {
        F g   = f;
        int s = 1;
        if (act(t.m, g, s)) r[g] += t.coef * a * double(s);
      }
    return r;
  }
  // dense square matrices
  struct mat {
    int n = 0;
    std::vector<cd> a;
    mat() = default;
    explicit mat(int n_) : n(n_), a(size_t(n_) * n_) {}
    cd &operator()(int i, int j) { return a[size_t(i) * n + j]; }
    cd operator()(int i, int j) const { return a[size_t(i) * n + j]; }
    static mat id(int n) { mat r(n); for (int i = 0; i < n; ++i) r(i, i) = 1; return r; }
    mat &operator+=(mat const &o) { for (size_t k = 0; k < a.size(); ++k) a[k] += o.a[k]; return *this; }
    mat &operator-=(mat const &o) { for (size_t k = 0; k < a.size(); ++k) a[k] -= o.a[k]; return *this; }
    mat &operator*=(cd x) { for (auto &v : a) v *= x; return *this; }
    friend mat operator+(mat x, mat const &y) { return x += y; }
    friend mat operator-(mat x, mat const &y) { return x -= y; }
    friend mat operator*(cd y, mat x) { return x *= y; }
    friend mat operator*(mat const &x, mat const &y) {
      mat r(x.n);
      for (int i = 0; i < x.n; ++i)
        for (int k = 0; k < x.n; ++k) {
          cd v = x(i, k);
          if (v == cd(0)) continue;
          for (int j = 0; j < x.n; ++j) r(i, j) += v * y(k, j);
        }
      return r;
    }
    mat dagger() const { mat r(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r(i, j) = std::conj((*this)(j, i)); return r; }
    cd trace() const { cd t = 0; for (int i = 0; i < n; ++i) t += (*this)(i, i); return t; }
    double maxabs() const { double m = 0; for (auto &v : a) m = std::max(m, std::abs(v)); return m; }
    double dist(mat const &o) const { double m = 0; for (size_t k = 0; k < a.size(); ++k) { double d = std::abs(a[k] - o.a[k]); if (!(d <= m)) m = d; } return m; }
  };
  inline mat dense(expr const &e, int nmodes) {
    mat r(1 << nmodes);
    for (auto const &t : e)
      for (F f = 0; f < F(r.n); ++f) {
        F g   = f;
        int s = 1;
        if (act(t.m, g, s)) r(int(g), int(f)) += t.coef * double(s);
      }
    return r;
  }
} // namespace fock

#ifdef FOCK_WITH_TRIQS
#include <triqs/operators/many_body_operator.hpp>
#include <triqs/hilbert_space/fundamental_operator_set.hpp>
namespace fock {
  using idx_t = triqs::hilbert_space::indices_t;
  inline cd num(double x) { return x; }
  inline cd num(cd x) { return x; }
  inline cd num(triqs::utility::real_or_complex const &x) { return cd(x); }
  template <typename S, typename Pos> expr from_op(triqs::operators::many_body_operator_generic<S> const &op, Pos const &pos) {
    expr e;
    for (auto const &t : op) {
      term x{num(t.coef), {}};
      for (auto const &o : t.monomial) x.m.push_back({o.dagger, pos(o.indices)});
      e.push_back(x);
    }
    return e;
  }
  // random index labels: integers (negative and large too), strings and mixtures
  template <typename K> std::vector<idx_t> rand_labels(K &c, int n) {
    std::vector<idx_t> v;
    int kind = int(c.i(0, 4));
    while (int(v.size()) < n) {
      idx_t x;
      auto in  = [&]() -> long { return c.i(-3, 20); };
      auto st  = [&]() -> std::string { static const std::vector<std::string> s{"up", "down", "dn", "a", "b", "", "up_0", "0", "1", "10", "eg", "i1", "s"}; return c.pick(s); };
      switch (kind) {
        case 0: x = {in()}; break;
        case 1: x = {st(), in()}; break;
        case 2: x = {st()}; if (c.chance(0.5)) x.push_back(st()); break;
        case 3: x = {in(), in()}; break;
        default:
          for (long k = c.i(1, 3); k > 0; --k) { if (c.chance(0.5)) x.push_back(in()); else x.push_back(st()); }
      }
      if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x);
    }
    return v;
  }
} // namespace fock
#endif
