// Reference for det_manip: the lists of accepted rows/columns, everything else recomputed from scratch in long double
#pragma once
#include <vmon.hpp>
#include <triqs/det_manip/det_manip.hpp>
#include <triqs/det_manip.hpp>
#include <h5/h5.hpp>
namespace drig {
  using vmon::kase;
  using ld = long double;
  using C  = std::complex<ld>;
  template <typename V> C wide(V const &v) { if constexpr (std::is_floating_point_v<V>) return {ld(v), 0}; else return {ld(v.real()), ld(v.imag())}; }
  inline double unit(uint64_t h) { return double(vmon::mix(h) >> 11) * 0x1.0p-53 * 2 - 1; }
  inline uint64_t bits(double x) { uint64_t r; memcpy(&r, &x, 8); return r; }

  // ---- the functions
  struct k_real { // random matrix
    uint64_t salt = 0; double eps = 0;
    double operator()(double x, double y) const { return unit(bits(x) * 3 + bits(y) * 7919 + salt) + eps * x * y; }
    static double X(kase &c) { return c.r(); } static double Y(kase &c) { return c.r(); }
    static constexpr bool h5 = true;
  };
  struct k_cplx {
    uint64_t salt = 0; double eps = 0;
    std::complex<double> operator()(double x, long y) const { uint64_t h = bits(x) * 5 + uint64_t(y) * 104729 + salt; return {unit(h) + eps * x, unit(h ^ 0x5bd1e995)}; }
    static double X(kase &c) { return c.r(); } static long Y(kase &c) { return c.i(0, 1L << 40); }
    static constexpr bool h5 = true;
  };
  struct pt { double tau = 0; int s = 0; std::string tag; bool operator==(pt const &) const = default; };
  struct k_qmc { // an antiperiodic propagator, two flavours, arguments that own memory
    uint64_t salt = 0; double eps = 0;
    double operator()(pt const &a, pt const &b) const {
      if (a.tag.size() != 30 or b.tag.size() != 31) abort(); // a torn argument
      double d = a.tau - b.tau, sg = 1;
      if (d < 0) { d += 1; sg = -1; }
      uint64_t h = salt + uint64_t(a.s * 2 + b.s);
      return sg * (std::exp(-3 * d * (1.5 + unit(h))) + 0.3 * std::cos(9 * d + unit(h + 9))) + (a.s == b.s ? 0.2 : -0.1) + 0.3 * unit(bits(a.tau) ^ bits(b.tau)) + eps * d;
    }
    static pt X(kase &c) { return {c.r(), int(c.i(0, 1)), std::string(30, char('a' + c.i(0, 25)))}; }
    static pt Y(kase &c) { return {c.r(), int(c.i(0, 1)), std::string(31, char('a' + c.i(0, 25)))}; }
    static constexpr bool h5 = false;
  };

  struct lu_t { std::vector<std::vector<C>> m, inv; C det{1}; ld cond = 1; bool singular = false; };
  inline lu_t analyse(std::vector<std::vector<C>> m) {
    lu_t r; r.m = m;
    int n = m.size();
    std::vector<std::vector<C>> v(n, std::vector<C>(n));
    for (int i = 0; i < n; ++i) v[i][i] = 1;
    ld norm = 0;
    for (auto &x : m) { ld s = 0; for (auto &y : x) s += std::abs(y); norm = std::max(norm, s); }
    for (int k = 0; k < n; ++k) {
      int p = k;
      for (int i = k; i < n; ++i) if (std::abs(m[i][k]) > std::abs(m[p][k])) p = i;
      if (std::abs(m[p][k]) <= 1e-17L * norm) { r.singular = true; r.det = 0; r.cond = INFINITY; return r; }
      if (p != k) { std::swap(m[p], m[k]); std::swap(v[p], v[k]); r.det = -r.det; }
      r.det *= m[k][k];
      C q = C(1) / m[k][k];
      for (int j = 0; j < n; ++j) { m[k][j] *= q; v[k][j] *= q; }
      for (int i = 0; i < n; ++i) {
        if (i == k) continue;
        C f = m[i][k];
        if (f == C(0)) continue;
        for (int j = 0; j < n; ++j) { m[i][j] -= f * m[k][j]; v[i][j] -= f * v[k][j]; }
      }
    }
    r.inv = v;
    ld ni = 0;
    for (auto &x : v) { ld s = 0; for (auto &y : x) s += std::abs(y); ni = std::max(ni, s); }
    r.cond = n ? norm * ni : 1;
    return r;
  }

  // what a manager should be
  template <typename K> struct model {
    using dm = triqs::det_manip::det_manip<K>;
    using X = typename dm::x_type; using Y = typename dm::y_type; using V = typename dm::value_type;
    K f;
    std::vector<X> x; std::vector<Y> y;
    lu_t now;
    lu_t of(std::vector<X> const &a, std::vector<Y> const &b) const {
      std::vector<std::vector<C>> m(a.size(), std::vector<C>(a.size()));
      for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) m[i][j] = wide(f(a[i], b[j]));
      return analyse(m);
    }
    void update() { now = of(x, y); }

    void verify(kase &c, dm &d, const char *when, bool pending = false) const {
      int n = x.size();
      vmon::count("states_verified");
      c.check(d.size() == n, "%s: size is %ld, not %d", when, d.size(), n);
      auto gx = d.get_x(); auto gy = d.get_y();
      c.check(gx == x, "%s: rows are not the accepted ones", when);
      c.check(gy == y, "%s: columns are not the accepted ones", when);
      for (int i = 0; i < n; ++i) c.check(d.get_x(i) == x[i] and d.get_y(i) == y[i], "%s: get_x/get_y(%d) wrong", when, i);
      if (now.singular) return;
      auto det = wide(d.determinant());
      ld tol = 1e-7L * std::min<ld>(1e3L, 1 + now.cond / 1e3L);
      c.check(std::abs(det - now.det) <= tol * std::abs(now.det), "%s: determinant is %.15Lg%+.15Lgi, not %.15Lg%+.15Lgi", when, det.real(), det.imag(), now.det.real(), now.det.imag());
      ld s = 0;
      for (auto &r : now.inv) for (auto &v : r) s = std::max(s, std::abs(v));
      auto full = d.inverse_matrix(); auto mat = d.matrix();
      c.check(first_dim(full) == n and second_dim(full) == n and first_dim(mat) == n, "%s: wrong shape of the matrices", when);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
          auto v = wide(d.inverse_matrix(i, j));
          c.check(std::abs(v - now.inv[i][j]) <= tol * s, "%s: inverse(%d,%d) is %.15Lg%+.15Lgi, not %.15Lg%+.15Lgi (n=%d)", when, i, j, v.real(), v.imag(), now.inv[i][j].real(), now.inv[i][j].imag(), n);
          c.check(wide(full(i, j)) == v, "%s: inverse_matrix() and inverse_matrix(i,j) disagree", when);
          c.check(wide(mat(i, j)) == now.m[i][j], "%s: matrix()(%d,%d) is not f(x_i,y_j)", when, i, j);
        }
      // internal order: some permutation of the same data, and foreach visits each (i,j) once with M^-1_ji
      auto const &xi = d.get_x_internal_order(); auto const &yi = d.get_y_internal_order();
      auto in = d.inverse_matrix_internal_order();
      c.check(int(xi.size()) == n and int(yi.size()) == n and first_dim(in) == n and second_dim(in) == n, "%s: internal order arrays have the wrong size", when);
      for (auto &v : xi) c.check(std::count(xi.begin(), xi.end(), v) == std::count(x.begin(), x.end(), v), "%s: internal rows are not a permutation", when);
      for (auto &v : yi) c.check(std::count(yi.begin(), yi.end(), v) == std::count(y.begin(), y.end(), v), "%s: internal columns are not a permutation", when);
      int visits = 0;
      foreach (d, [&](X const &a, Y const &b, auto const &m) {
        ++visits;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
          if (x[i] == a and y[j] == b) c.check(std::abs(wide(m) - now.inv[j][i]) <= tol * s, "%s: foreach passes a wrong element for row %d, column %d", when, i, j);
      });
      c.check(visits == n * n, "%s: foreach visits %d elements of %d", when, visits, n * n);
      for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) c.check(wide(in(j, i)) == wide(d.inverse_matrix_internal_order(j, i)), "%s: internal inverse matrices disagree", when);
      c.check(d.get_function().salt == f.salt, "%s: another function", when);
    }
  };

  enum { OP_INS, OP_REM, OP_COL, OP_ROW, OP_CR, OP_INSK, OP_REMK, OP_REFILL, OP_N };
  inline const char *op_name(int o) { static const char *n[] = {"insert", "remove", "change_col", "change_row", "change_col_row", "insert_k", "remove_k", "refill"}; return n[o]; }

  template <typename K> struct rig {
    using M = model<K>; using dm = typename M::dm; using X = typename M::X; using Y = typename M::Y; using V = typename M::V;
    dm d; M ref;
    bool pending = false; int pending_op = 0;
    M next;              // the model if the pending operation is completed
    bool may_complete = false;
    rig(dm dd, M r) : d(std::move(dd)), ref(std::move(r)) {}
    struct copied {};
    rig(copied, dm const &dd, M const &r) : d(dd), ref(r) {}

    static std::vector<long> positions(kase &c, int k, int n) { std::vector<long> p(n); for (int i = 0; i < n; ++i) p[i] = i; c.shuffle(p); p.resize(k); return p; }
    static X newx(kase &c, std::vector<X> const &x) { if (!x.empty() and c.chance(0.03)) return x[c.i(0, x.size() - 1)]; return K::X(c); }
    static Y newy(kase &c, std::vector<Y> const &y) { if (!y.empty() and c.chance(0.03)) return y[c.i(0, y.size() - 1)]; return K::Y(c); }

    // perform a try and compare its ratio; leaves it pending. direct: use the short cut instead and return
    void attempt(kase &c, int nmax, bool allow_direct) {
      int n = ref.x.size();
      next = ref;
      int op;
      for (;;) {
        op = int(c.i(0, OP_N - 1));
        if (op == OP_INS and n >= nmax) continue;
        if ((op == OP_REM or op == OP_COL or op == OP_ROW or op == OP_CR) and n == 0) continue;
        if (op == OP_REMK and n < 2) continue;
        if (op == OP_INSK and n + 1 > nmax) continue;
        if (op == OP_REFILL and !c.chance(0.3)) continue;
        break;
      }
      std::vector<long> pi, pj; std::vector<X> vx; std::vector<Y> vy;
      int k = 1;
      if (op == OP_INSK) k = int(c.i(1, std::min(4, nmax - n)));
      if (op == OP_REMK) k = int(c.i(1, std::min(4, n)));
      if (op == OP_INS) { pi = {c.i(0, n)}; pj = {c.i(0, n)}; }
      else if (op == OP_INSK) { pi = positions(c, k, n + k); pj = positions(c, k, n + k); }
      else if (op != OP_REFILL) { pi = positions(c, k, n); pj = positions(c, k, n); }
      bool at_end = false;
      if (op == OP_INS and c.chance(0.2)) { pi = pj = {n}; at_end = true; }
      if (op == OP_REM and c.chance(0.2)) { pi = pj = {n - 1}; at_end = true; }
      if (op == OP_INSK and k == 2 and c.chance(0.2)) { pi = pj = {n, n + 1}; at_end = true; }
      if (op == OP_REMK and k == 2 and c.chance(0.2)) { pi = pj = {n - 1, n - 2}; at_end = true; }
      if (op == OP_INS or op == OP_INSK or op == OP_COL or op == OP_ROW or op == OP_CR)
        for (int l = 0; l < k; ++l) { vx.push_back(newx(c, ref.x)); vy.push_back(newy(c, ref.y)); }
      auto &x = next.x; auto &y = next.y;
      auto ins = [&](auto &list, std::vector<long> p, auto val) { // positions in the final list
        std::vector<int> o(p.size()); for (size_t l = 0; l < o.size(); ++l) o[l] = l;
        std::sort(o.begin(), o.end(), [&](int a, int b) { return p[a] < p[b]; });
        for (int l : o) list.insert(list.begin() + p[l], val[l]);
      };
      auto rem = [&](auto &list, std::vector<long> p) { std::sort(p.begin(), p.end()); for (int l = int(p.size()) - 1; l >= 0; --l) list.erase(list.begin() + p[l]); };
      switch (op) {
        case OP_INS: case OP_INSK: ins(x, pi, vx); ins(y, pj, vy); break;
        case OP_REM: case OP_REMK: rem(x, pi); rem(y, pj); break;
        case OP_COL: y[pj[0]] = vy[0]; break;
        case OP_ROW: x[pi[0]] = vx[0]; break;
        case OP_CR: x[pi[0]] = vx[0]; y[pj[0]] = vy[0]; break;
        case OP_REFILL: {
          int m = int(c.i(0, nmax)); x.clear(); y.clear();
          for (int l = 0; l < m; ++l) { x.push_back(newx(c, x)); y.push_back(newy(c, y)); }
        }
      }
      next.update();
      C ratio = next.now.det / ref.now.det;
      may_complete = !next.now.singular and next.now.cond < 1e4L and std::abs(ratio) > 1e-4L and std::abs(next.now.det) > 1e-200L;
      bool direct = allow_direct and may_complete and op != OP_REFILL and c.chance(0.15);
      c.trace("%s%s k=%d n=%d i=%ld j=%ld%s;", direct ? "!" : "", op_name(op), k, n, pi.empty() ? -1L : pi[0], pj.empty() ? -1L : pj[0], at_end ? " end" : "");
      vmon::count(op_name(op));
      V r = 0; bool from_function = false;
      if (direct) {
        switch (op) {
          case OP_INS: r = at_end ? d.insert_at_end(vx[0], vy[0]) : d.insert(pi[0], pj[0], vx[0], vy[0]); break;
          case OP_REM: r = at_end ? d.remove_at_end() : d.remove(pi[0], pj[0]); break;
          case OP_COL: r = d.change_col(pj[0], vy[0]); break;
          case OP_ROW: r = d.change_row(pi[0], vx[0]); break;
          case OP_CR: r = d.change_one_row_and_one_col(pi[0], pj[0], vx[0], vy[0]); break;
          case OP_INSK:
            if (k == 2) r = at_end ? d.insert2_at_end(vx[0], vx[1], vy[0], vy[1]) : d.insert2(pi[0], pi[1], pj[0], pj[1], vx[0], vx[1], vy[0], vy[1]);
            else { r = d.try_insert_k(pi, pj, vx, vy); d.complete_operation(); }
            break;
          case OP_REMK:
            if (k == 2) r = at_end ? d.remove2_at_end() : d.remove2(pi[0], pi[1], pj[0], pj[1]);
            else { r = d.try_remove_k(pi, pj); d.complete_operation(); }
        }
      } else
        switch (op) {
          case OP_INS:
            if (c.chance(0.1)) {
              from_function = true;
              r = d.try_insert_from_function(pi[0], pj[0], [&](X const &a) { return ref.f(a, vy[0]); }, [&](Y const &b) { return ref.f(vx[0], b); }, ref.f(vx[0], vy[0]));
            } else
              r = d.try_insert(pi[0], pj[0], vx[0], vy[0]);
            break;
          case OP_REM: r = d.try_remove(pi[0], pj[0]); break;
          case OP_COL: r = d.try_change_col(pj[0], vy[0]); break;
          case OP_ROW: r = d.try_change_row(pi[0], vx[0]); break;
          case OP_CR: r = d.try_change_col_row(pi[0], pj[0], vx[0], vy[0]); break;
          case OP_INSK: r = k == 2 and c.chance(0.5) ? d.try_insert2(pi[0], pi[1], pj[0], pj[1], vx[0], vx[1], vy[0], vy[1]) : d.try_insert_k(pi, pj, vx, vy); break;
          case OP_REMK: r = k == 2 and c.chance(0.5) ? d.try_remove2(pi[0], pi[1], pj[0], pj[1]) : d.try_remove_k(pi, pj); break;
          case OP_REFILL: r = d.try_refill(x, y); break;
        }
      auto w = wide(r);
      // rounding of the ratio: products of k x k elements of M^-1, B, C
      ld scale = std::abs(ratio) + 1e-3L + (op == OP_REFILL ? 0.0L : 1e-4L * ref.now.cond);
      c.check(std::abs(w - ratio) <= 1e-6L * scale, "%s (k=%d, n=%d): ratio is %.15Lg%+.15Lgi, not %.15Lg%+.15Lgi", op_name(op), k, n, w.real(), w.imag(), ratio.real(), ratio.imag());
      if (from_function) may_complete = false; // completing does not know x and y
      pending = !direct; pending_op = op;
      if (direct) ref = next;
    }
    void finish(kase &c, double p_complete) {
      if (!pending) return;
      pending = false;
      if (may_complete and c.chance(p_complete)) { c.trace("ok;"); d.complete_operation(); ref = next; vmon::count("completed"); }
      else { c.trace("no;"); d.reject_last_try(); vmon::count("rejected"); }
    }
    // operations without a try
    void plain(kase &c) {
      int n = ref.x.size();
      using R = typename dm::RollDirection;
      switch (c.i(0, 6)) {
        case 0: if (n) { long i = c.i(0, n - 1), j = c.i(0, n - 1); c.trace("swap_row %ld %ld;", i, j); d.swap_row(i, j); std::swap(ref.x[i], ref.x[j]); } break;
        case 1: if (n) { long i = c.i(0, n - 1), j = c.i(0, n - 1); c.trace("swap_col %ld %ld;", i, j); d.swap_col(i, j); std::swap(ref.y[i], ref.y[j]); } break;
        case 2: {
          auto w = c.i(0, 4);
          c.trace("roll %ld;", w);
          auto old = ref.now.det;
          int s = d.roll_matrix(w == 0 ? dm::None : w == 1 ? dm::Up : w == 2 ? dm::Down : w == 3 ? dm::Left : dm::Right);
          if (n) {
            if (w == 1) std::rotate(ref.x.begin(), ref.x.begin() + 1, ref.x.end());
            if (w == 2) std::rotate(ref.x.begin(), ref.x.end() - 1, ref.x.end());
            if (w == 3) std::rotate(ref.y.begin(), ref.y.begin() + 1, ref.y.end());
            if (w == 4) std::rotate(ref.y.begin(), ref.y.end() - 1, ref.y.end());
          }
          ref.update();
          c.check(std::abs(ref.now.det - ld(s) * old) <= 1e-9L * std::abs(old), "roll_matrix(%ld) of size %d returns %d", w, n, s);
          break;
        }
        case 3: c.trace("regenerate;"); d.regenerate(); break;
        case 4: { long m = c.i(0, 20), k = c.i(1, 4); c.trace("reserve %ld %ld;", m, k); d.reserve(m, k); break; }
        case 5: if (c.chance(0.3)) { c.trace("clear;"); d.clear(); ref.x.clear(); ref.y.clear(); } break;
        case 6: { long m = c.i(0, 5); c.trace("check every %ld;", m); d.set_n_operations_before_check(m); break; }
      }
      ref.update();
    }
  };

  template <typename K> rig<K> make(kase &c, int nmax) {
    K f; f.salt = c.u64();
    using M = model<K>;
    M m; m.f = f;
    if (c.chance(0.5)) {
      long cap = c.pick(std::vector<long>{0, 1, 2, 5, 30});
      c.trace("capacity %ld;", cap);
      m.update();
      return {typename M::dm(f, cap), m};
    }
    int n = int(c.i(0, nmax));
    do {
      m.x.clear(); m.y.clear();
      for (int i = 0; i < n; ++i) { m.x.push_back(K::X(c)); m.y.push_back(K::Y(c)); }
      m.update();
    } while (m.now.singular or m.now.cond > 1e4L);
    c.trace("from %d;", n);
    return {typename M::dm(f, m.x, m.y), m};
  }
} // namespace drig
