// D02: pools of determinant managers that are copied, moved, swapped, stored, reloaded and resized between operations
#include "d_rig.hpp"
using namespace drig;
template <typename K> void pool(kase &c) {
  using R  = rig<K>;
  using dm = typename R::dm;
  int nmax = int(c.pick(std::vector<int>{3, 6, 10}));
  std::vector<std::unique_ptr<R>> g;
  int np = int(c.i(1, 3));
  for (int i = 0; i < np; ++i) { g.push_back(std::make_unique<R>(make<K>(c, nmax))); if (c.chance(0.3)) g.back()->d.set_n_operations_before_check(c.i(0, 5)); }
  int steps = int(c.i(10, 60));
  auto all  = [&](const char *w) { for (size_t i = 0; i < g.size(); ++i) if (!g[i]->pending) { c.trace("v%zu ", i); g[i]->ref.verify(c, g[i]->d, w); } };
  uint64_t fp = 0;
  for (int s = 0; s < steps; ++s) {
    int a = int(c.i(0, g.size() - 1)), b = int(c.i(0, g.size() - 1));
    R &A = *g[a];
    c.trace("[%d]", a);
    switch (c.i(0, 9)) {
      default: // an operation, which may stay pending for a while
        if (A.pending) { A.finish(c, 0.8); A.ref.verify(c, A.d, op_name(A.pending_op)); }
        else if (c.chance(0.2)) { A.plain(c); A.ref.verify(c, A.d, "plain"); }
        else { A.attempt(c, nmax, true); if (c.chance(0.7)) A.finish(c, 0.8); if (!A.pending) A.ref.verify(c, A.d, op_name(A.pending_op)); }
        break;
      case 0: { // copy, possibly in the middle of a try
        c.trace("copy to %zu;", g.size());
        vmon::count(A.pending ? "copied_during_try" : "copied");
        double st = A.d.get_singular_threshold(), pw = A.d.get_precision_warning(), pe = A.d.get_precision_error(), no = A.d.get_n_operations_before_check();
        auto B = std::make_unique<R>(typename R::copied{}, A.d, A.ref);
        c.check(B->d.get_singular_threshold() == st and B->d.get_precision_warning() == pw and B->d.get_precision_error() == pe and B->d.get_n_operations_before_check() == no, "thresholds of the copy");
        B->pending = A.pending; B->pending_op = A.pending_op; B->next = A.next; B->may_complete = A.may_complete;
        if (!B->pending) B->ref.verify(c, B->d, "copy");
        if (g.size() < 5) g.push_back(std::move(B));
        else { int k = int(c.i(0, g.size() - 1)); g[k] = std::move(B); }
        all("after a copy");
        break;
      }
      case 1: { // move construction
        if (A.pending) break;
        c.trace("move;");
        vmon::count("moved");
        if (c.chance(0.3)) A.d.set_singular_threshold(1e-250);
        if (c.chance(0.3)) A.d.set_precision_error(1e-4);
        if (c.chance(0.3)) A.d.set_precision_warning(1e-7);
        double st = A.d.get_singular_threshold(), pw = A.d.get_precision_warning(), pe = A.d.get_precision_error(), no = A.d.get_n_operations_before_check();
        auto B = std::make_unique<R>(std::move(A.d), A.ref);
        c.check(B->d.get_singular_threshold() == st and B->d.get_precision_warning() == pw and B->d.get_precision_error() == pe and B->d.get_n_operations_before_check() == no, "the thresholds are not moved: %g %g %g", B->d.get_singular_threshold(), B->d.get_precision_warning(), B->d.get_precision_error());
        B->ref.verify(c, B->d, "moved");
        g[a] = std::move(B);
        all("after a move");
        break;
      }
      case 2: case 3: { // swap or move assignment
        R &B = *g[b];
        if (a == b or A.pending or B.pending) break;
        bool sw = c.chance(0.5);
        c.trace("%s %d;", sw ? "swap" : "assign from", b);
        vmon::count(sw ? "swapped" : "move_assigned");
        if (c.chance(0.3)) A.d.set_singular_threshold(1e-250);
        if (c.chance(0.3)) B.d.set_precision_error(1e-4);
        double sa = A.d.get_singular_threshold(), sb = B.d.get_singular_threshold(), ea = A.d.get_precision_error(), eb = B.d.get_precision_error(), wb = B.d.get_precision_warning();
        if (sw) {
          swap(A.d, B.d);
          std::swap(A.ref, B.ref);
          c.check(A.d.get_singular_threshold() == sb and B.d.get_singular_threshold() == sa and A.d.get_precision_error() == eb and B.d.get_precision_error() == ea, "the thresholds are not swapped");
        } else {
          A.d = std::move(B.d);
          A.ref = B.ref;
          c.check(A.d.get_singular_threshold() == sb and A.d.get_precision_error() == eb and A.d.get_precision_warning() == wb, "the thresholds are not moved");
          g.erase(g.begin() + b); // a moved-from object can only be destroyed
        }
        all("after a swap");
        break;
      }
      case 4: if constexpr (K::h5) { // HDF5, into a fresh or a used object
        if (A.pending) break;
        vmon::count("stored");
        if (c.chance(0.3)) A.d.set_singular_threshold(1e-250);
        { h5::file f("d02.h5", 'w'); h5_write(f, "d", A.d); }
        A.ref.verify(c, A.d, "stored");
        std::unique_ptr<R> B;
        if (c.chance(0.5) or g.size() < 2 or a == b) {
          long cap = c.pick(std::vector<long>{0, 1, 3, 30});
          c.trace("reload fresh %ld;", cap);
          B = std::make_unique<R>(dm(A.ref.f, cap), A.ref);
          h5::file f("d02.h5", 'r'); h5_read(f, "d", B->d);
        } else { // the function is not stored: it is that of the target
          c.trace("reload into a used one;");
          auto t = make<K>(c, nmax);
          B = std::make_unique<R>(dm(A.ref.f, t.ref.x, t.ref.y), A.ref);
          auto old = B->ref; B->ref.x = t.ref.x; B->ref.y = t.ref.y; B->ref.update();
          if (!B->ref.now.singular and B->ref.now.cond < 1e4L)
            for (int q = int(c.i(0, 4)); q > 0; --q) { B->attempt(c, nmax, false); B->finish(c, q == 1 and c.chance(0.3) ? 0 : 0.8); }
          if (c.chance(0.2) and !B->ref.now.singular and B->ref.now.cond < 1e4L) B->attempt(c, nmax, false); // with a pending try, which is forgotten
          h5::file f("d02.h5", 'r'); h5_read(f, "d", B->d);
          B->ref = old; B->pending = false;
        }
        c.check(B->d.get_singular_threshold() == A.d.get_singular_threshold() and B->d.get_n_operations_before_check() == A.d.get_n_operations_before_check(), "thresholds are not reloaded");
        B->ref.verify(c, B->d, "reloaded");
        g[a] = std::move(B);
        all("after a reload");
      } break;
      case 5: { if (A.pending) break; long m = c.i(0, 25), k = c.i(1, 4); c.trace("reserve %ld %ld;", m, k); A.d.reserve(m, k); A.ref.verify(c, A.d, "reserve"); break; }
      case 6: if (c.chance(0.3)) { c.trace("clear;"); A.d.clear(); A.pending = false; A.ref.x.clear(); A.ref.y.clear(); A.ref.update(); A.ref.verify(c, A.d, "clear"); } break;
    }
    fp = fp * 31 + g[0]->ref.x.size();
  }
  for (auto &p : g) { p->finish(c, 0.8); p->ref.verify(c, p->d, "end"); }
  c.nontrivial(vmon::mix(fp ^ g[0]->ref.f.salt));
}
void run() {
  vmon::group("pool_real", 700, 25000, pool<k_real>);
  vmon::group("pool_complex", 500, 20000, pool<k_cplx>);
  vmon::group("pool_qmc", 500, 20000, pool<k_qmc>);
}
