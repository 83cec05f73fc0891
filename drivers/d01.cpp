// D01: histories of det_manip operations against the matrix rebuilt from scratch
#include "d_rig.hpp"
using namespace drig;
template <typename K> void history(kase &c) {
  int nmax = int(c.pick(std::vector<int>{2, 4, 7, 12}));
  auto g = make<K>(c, nmax);
  if (c.chance(0.4)) g.d.set_n_operations_before_check(c.i(0, 10));
  g.ref.verify(c, g.d, "start");
  int steps = int(c.i(5, 60));
  double p = c.pick(std::vector<double>{0.3, 0.8, 1.0});
  for (int s = 0; s < steps; ++s) {
    if (c.chance(0.25)) { g.plain(c); g.ref.verify(c, g.d, "after a direct operation"); continue; }
    g.attempt(c, nmax, true);
    if (g.pending and c.chance(0.3)) g.ref.verify(c, g.d, "during a try");
    if (g.pending and c.chance(0.05)) { // a second try is refused
      c.throws([&] { g.d.try_insert(0, 0, K::X(c), K::Y(c)); }, "try_insert during a try");
    }
    g.finish(c, p);
    g.ref.verify(c, g.d, op_name(g.pending_op));
  }
  c.nontrivial(vmon::mix(g.ref.f.salt + steps));
}
// sizes that make the storage grow several times
template <typename K> void growth(kase &c) {
  K f; f.salt = c.u64();
  rig<K> g{typename rig<K>::dm(f, c.i(0, 3)), {}};
  g.ref.f = f; g.ref.update();
  int target = int(c.i(15, 45));
  for (int tries = 0; int(g.ref.x.size()) < target and tries < 400; ++tries) {
    int n = g.ref.x.size();
    g.attempt(c, std::max(n, 4) + 4, true);
    if (g.pending_op == OP_REFILL or g.pending_op == OP_REM or g.pending_op == OP_REMK) g.finish(c, n > 20 ? 0.2 : 0.0);
    else g.finish(c, 1);
    if (c.chance(0.15)) g.ref.verify(c, g.d, "growth");
  }
  g.ref.verify(c, g.d, "after growth");
  c.nontrivial(vmon::mix(f.salt));
}
struct k_drift { // a function whose values are changed from outside
  uint64_t salt = 0; std::shared_ptr<double> eps = std::make_shared<double>(0);
  double operator()(double x, double y) const { return unit(bits(x) * 3 + bits(y) * 7919 + salt) + *eps * (0.5 + x * y); }
};
// the periodic check: a deviation above precision_error is an error at the latest after n+1 operations, one far below is not
void drift(kase &c) {
  k_drift f; f.salt = c.u64();
  int n = int(c.i(3, 8)), every = int(c.i(0, 12));
  model<k_drift> m; m.f = f;
  do {
    m.x.clear(); m.y.clear();
    for (int i = 0; i < n; ++i) { m.x.push_back(c.r()); m.y.push_back(c.r()); }
    m.update();
  } while (m.now.singular or m.now.cond > 200);
  triqs::det_manip::det_manip<k_drift> d(f, m.x, m.y);
  d.set_n_operations_before_check(every);
  d.set_precision_warning(c.chance(0.5) ? 1e-6 : 1e-9);
  bool big = c.chance(0.5);
  if (c.chance(0.3)) d.set_precision_error(1e-7);
  *f.eps = big ? 0.02 : 1e-13;
  c.trace("n=%d every %d %s", n, every, big ? "big" : "tiny");
  std::streambuf *old = std::cerr.rdbuf(nullptr);
  bool thrown = false; int at = -1;
  try {
    for (int s = 0; s < 3 * every + 5; ++s) {
      at = s;
      int i = int(c.i(0, n - 1)), j = int(c.i(0, n - 1));
      d.try_change_col_row(i, j, m.x[i], m.y[j]);
      d.complete_operation();
    }
  } catch (std::exception const &) { thrown = true; }
  std::cerr.rdbuf(old);
  // with a change of all elements the check cannot miss, unless the sequence of changes itself repaired every row and column
  if (!big) c.check(!thrown, "a deviation at the level of rounding is reported as an error (operation %d)", at);
  if (big) c.check(thrown and at <= every, "a deviation of 2%% of all elements was not reported by the check after %d operations (n=%d)", every, n);
  c.nontrivial(vmon::mix(f.salt));
  vmon::count(big ? "drift_reported" : "drift_tolerated");
}
// a singular matrix has no determinant manager state: it is reported, never silently used
void singular(kase &c) {
  k_real f; f.salt = c.u64();
  int n = int(c.i(1, 6));
  auto g = make<k_real>(c, n + 1);
  // all tries that lead to a singular matrix have ratio ~ 0 and can be rejected
  int m = g.ref.x.size();
  if (m >= 2) {
    int i = int(c.i(0, m - 1)), j = (i + 1) % m;
    auto r = g.d.try_change_row(i, g.ref.x[j]);
    c.check(std::abs(r) < 1e-7 * double(g.ref.now.cond), "change_row to an equal row has ratio %g", r);
    g.d.reject_last_try();
    r = g.d.try_change_col(i, g.ref.y[j]);
    c.check(std::abs(r) < 1e-7 * double(g.ref.now.cond), "change_col to an equal column has ratio %g", r);
    g.d.reject_last_try();
    g.ref.verify(c, g.d, "after rejected singular tries");
    // below the threshold, determinant() goes through regenerate
    g.d.set_singular_threshold(1e300);
    c.throws([&] { (void)g.d.determinant(); }, "determinant below the singular threshold");
    g.d.set_singular_threshold(-1);
    g.ref.verify(c, g.d, "after a refused determinant");
    c.nontrivial(vmon::mix(g.ref.f.salt));
  }
}
void run() {
  vmon::group("real", 1500, 20000, history<k_real>);
  vmon::group("complex", 900, 15000, history<k_cplx>);
  vmon::group("qmc", 900, 15000, history<k_qmc>);
  vmon::group("growth_real", 15, 600, growth<k_real>);
  vmon::group("growth_qmc", 10, 600, growth<k_qmc>);
  vmon::group("growth_complex", 10, 600, growth<k_cplx>);
  vmon::group("drift", 150, 3000, drift);
  vmon::group("singular", 150, 3000, singular);
}
