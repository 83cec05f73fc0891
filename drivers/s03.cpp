// S03: every point given to a histogram is in one bin or lost
#ifdef S03_MPI
#define VMON_MPI
#endif
#include "s_rig.hpp"
using namespace srig;
struct ref {
  double a = 0, b = 0;
  long n = 0;
  std::vector<double> d;
  unsigned long long in = 0, lost = 0;
  ref() = default;
  ref(double a, double b, long n) : a(a), b(b), n(n), d(n) {}
  double h() const { return (b - a) / (n - 1); }
  void same(kase &c, st::histogram const &g, const char *when) const {
    c.check(long(g.size()) == n and g.data().size() == n, "%s: %zu bins instead of %ld", when, g.size(), n);
    c.check(g.limits() == std::make_pair(a, b), "%s: limits %g %g", when, g.limits().first, g.limits().second);
    c.check(g.n_data_pts() == in and g.n_lost_pts() == lost, "%s: %llu points and %llu lost instead of %llu and %llu", when, g.n_data_pts(), g.n_lost_pts(), in, lost);
    for (long k = 0; k < n; ++k) c.check(g.data()(k) == d[k], "%s: bin %ld holds %g instead of %g", when, k, g.data()(k), d[k]);
    for (long k = 0; k < n and n > 1; ++k) c.close(g.mesh_point(k), a + k * h(), 1e-13 * (std::abs(a) + std::abs(b)), "position of a bin");
    vmon::count("histograms_compared");
  }
  // add x to g; the bin is taken from g only where two bins are equally near
  void add(kase &c, st::histogram &g, double x) {
    std::vector<double> before(g.data().begin(), g.data().end());
    g << x;
    vmon::count("points");
    if (!(x >= a && x <= b) || n == 0) { ++lost; vmon::count("points_lost"); }
    else {
      ++in;
      if (n == 1) d[0] += 1;
      else {
        long double t = ((long double)x - a) / ((long double)b - a) * (n - 1);
        long lo = long(std::floor(t + 0.5L - 1e-9L)), up = long(std::floor(t + 0.5L + 1e-9L));
        lo = std::clamp(lo, 0l, n - 1); up = std::clamp(up, 0l, n - 1);
        long k = lo;
        if (lo != up and g.data()(up) != before[up]) k = up;
        d[k] += 1;
      }
    }
    c.check(g.n_data_pts() == in and g.n_lost_pts() == lost, "after %.17g: %llu points and %llu lost instead of %llu and %llu", x, g.n_data_pts(), g.n_lost_pts(), in, lost);
    double diff = 0;
    for (long k = 0; k < n; ++k) { if (g.data()(k) != d[k]) c.check(false, "%.17g is not counted in the nearest bin: bin %ld of [%g,%g] with %ld bins holds %g instead of %g", x, k, a, b, n, g.data()(k), d[k]); diff += g.data()(k); }
    c.check(diff == double(in), "the bins hold %g of %llu points", diff, in);
  }
};
static std::pair<st::histogram, ref> make(kase &c) {
  if (c.chance(0.3)) {
    int a = int(c.i(-20, 20)), b = a + int(c.i(1, 30));
    c.trace("int [%d,%d]", a, b);
    return {st::histogram(a, b), ref(a, b, b - a + 1)};
  }
  double a = c.pick(std::vector<double>{0, 0, -1, 0.1, -1e5, 1e-5}), w = c.pick(std::vector<double>{1, 2, 0.3, 1e-3, 1e6, 3.14159});
  long n = c.pick(std::vector<long>{1, 2, 3, 10, 11, 100, 1000});
  c.trace("[%g,%g] %ld", a, a + w, n);
  return {st::histogram(a, a + w, n), ref(a, a + w, n)};
}
static double point(kase &c, ref const &r) {
  double inf = std::numeric_limits<double>::infinity(), w = r.b - r.a;
  switch (c.i(0, 12)) {
    default: return c.r(r.a, r.b);
    case 0: return r.a;
    case 1: return r.b;
    case 2: return std::nextafter(r.a, c.chance(0.5) ? inf : -inf);
    case 3: return std::nextafter(r.b, c.chance(0.5) ? inf : -inf);
    case 4: return c.r(r.a - w, r.b + w);
    case 5: return r.n > 1 ? r.a + r.h() * (c.i(0, r.n - 1) + 0.5) : r.a; // an edge, or half a bin outside
    case 6: return r.n > 1 ? r.a + r.h() * c.i(0, r.n - 1) : r.b;
    case 7: return c.pick(std::vector<double>{inf, -inf, std::nan(""), -std::nan(""), 0.0, -0.0, 1e300, -1e300, 5e-324, 1e18, -1e18});
    case 8: return c.r(-1e10, 1e10);
    case 9: return std::floor(c.r(r.a, r.b)) + 0.5;
  }
}
#ifndef S03_MPI
void life(kase &c) {
  auto [g, r] = make(c);
  r.same(c, g, "new");
  int steps = int(c.i(1, 40));
  for (int s = 0; s < steps; ++s) {
    switch (c.i(0, 9)) {
      default: { long n = c.i(1, 20); for (long k = 0; k < n; ++k) r.add(c, g, point(c, r)); break; }
      case 0: if (c.chance(0.3)) { c.trace("clear"); g.clear(); std::fill(r.d.begin(), r.d.end(), 0); r.in = r.lost = 0; } break;
      case 1: {
        c.trace("copy");
        auto b  = g;
        auto rb = r;
        c.check(b == g and !(b != g), "the copy is not equal");
        rb.add(c, b, point(c, rb));
        c.check(!(b == g) and b != g, "a histogram with one more point is equal");
        r.same(c, g, "after the copy was changed");
        rb.same(c, b, "copy");
        if (c.chance(0.5)) { g = std::move(b); r = rb; }
        break;
      }
      case 2: {
        c.trace("file");
        { h5::file f("h.h5", 'w'); h5_write(f, "h", g); }
        auto [b, rb] = make(c);
        for (int k = 0; k < 3; ++k) rb.add(c, b, point(c, rb));
        if (c.chance(0.5)) b = st::histogram{};
        { h5::file f("h.h5", 'r'); h5_read(f, "h", b); }
        r.same(c, b, "reloaded");
        c.check(b == g, "the reloaded histogram is not equal");
        g = b;
        break;
      }
      case 3: {
        c.trace("sum");
        auto b  = g;
        auto rb = r;
        b.clear();
        std::fill(rb.d.begin(), rb.d.end(), 0);
        rb.in = rb.lost = 0;
        for (long k = c.i(0, 9); k > 0; --k) rb.add(c, b, point(c, rb));
        auto s2 = g + b;
        auto rs = r;
        for (long k = 0; k < r.n; ++k) rs.d[k] += rb.d[k];
        rs.in += rb.in; rs.lost += rb.lost;
        rs.same(c, s2, "sum");
        r.same(c, g, "first summand");
        rb.same(c, b, "second summand");
        auto other = st::histogram(r.a, r.b + 1, r.n), more = st::histogram(r.a, r.b, r.n + 1);
        c.throws([&] { (void)(g + other); }, "sum of histograms with other limits");
        c.throws([&] { (void)(g + more); }, "sum of histograms with other bins");
        g = s2; r = rs;
        break;
      }
    }
    r.same(c, g, "after");
  }
  if (r.in > 0) {
    auto p = pdf(g), q = cdf(g);
    double sum = 0;
    for (long k = 0; k < r.n; ++k) {
      sum += r.d[k];
      c.close(p.data()(k), r.d[k] / r.in, 1e-13, "pdf");
      c.close(q.data()(k), sum / r.in, 1e-12, "cdf");
      if (r.n > 1) { c.close(p.mesh_point(k), g.mesh_point(k), 0, "pdf mesh"); c.close(q.mesh_point(k), g.mesh_point(k), 0, "cdf mesh"); }
    }
    c.close(q.data()(r.n - 1), 1, 1e-12, "end of the cdf");
    r.same(c, g, "after pdf and cdf");
    if (r.n > 1) {
      std::stringstream o;
      o.precision(17);
      o << g;
      double x, y, z, w;
      long k = 0;
      while (o >> x >> y >> z >> w) { c.close(x, g.mesh_point(k), 1e-9 * (std::abs(r.a) + std::abs(r.b)), "printed position"); c.check(y == r.d[k], "printed count"); c.close(w, q.data()(k), 1e-12, "printed cdf"); ++k; }
      c.check(k == r.n, "%ld of %ld bins are printed", k, r.n);
    }
  }
  c.nontrivial(r.in * 1000 + r.lost);
}
// edges that are exact numbers: the bin n is [n h - h/2, n h + h/2[
void exact(kase &c) {
  long n = c.i(2, 60);
  double h = std::ldexp(1.0, int(c.i(-4, 4))), a = h * c.i(-30, 30), b = a + h * (n - 1);
  c.trace("a %g h %g n %ld", a, h, n);
  st::histogram g(a, b, n);
  long k = c.i(0, n - 2);
  g << a + h * (k + 0.5);
  c.check(g.data()(k + 1) == 1 and g.data()(k) == 0, "the upper edge of bin %ld does not belong to the next one", k);
  g << std::nextafter(a + h * (k + 0.5), -1e300);
  c.check(g.data()(k) == 1 or std::abs(a) > 0, "a point below the upper edge of bin %ld", k);
  c.check(g.n_data_pts() == 2, "points");
  c.throws([&] { st::histogram x(b, a, n); }, "limits in the wrong order");
  c.throws([&] { st::histogram x(a, a, n); }, "no range");
  c.throws([&] { st::histogram x(3, 3); }, "no integer range");
  // an empty one
  st::histogram e, e2;
  for (double x : {0.0, 1.0, -1.0, std::nan("")}) e << x;
  c.check(e.n_data_pts() == 0 and e.n_lost_pts() == 4 and e.size() == 0, "points given to a histogram without bins: %llu %llu", e.n_data_pts(), e.n_lost_pts());
  c.check(e2 == st::histogram{}, "two empty histograms differ");
  c.check(e2 != g, "an empty histogram is equal to a full one");
  c.nontrivial();
}
#else
void ranks(kase &c) {
  mpi::communicator world;
  int rank = world.rank(), size = world.size();
  auto [g0, r0] = make(c);
  std::vector<st::histogram> g(size, g0);
  std::vector<ref> r(size, r0);
  for (int k = 0; k < size; ++k) for (long m = c.i(0, 40); m > 0; --m) r[k].add(c, g[k], point(c, r[k]));
  ref sum = r0;
  for (auto &x : r) { for (long k = 0; k < r0.n; ++k) sum.d[k] += x.d[k]; sum.in += x.in; sum.lost += x.lost; }
  int root = int(c.i(0, size - 1));
  auto a = mpi::reduce(g[rank], world, root);
  if (rank == root) sum.same(c, a, "reduced");
  auto b = mpi::all_reduce(g[rank], world);
  sum.same(c, b, "reduced to all");
  b << point(c, r0);
  r[rank].same(c, g[rank], "own data");
  auto [h, rh] = make(c);
  if (c.chance(0.3)) h = st::histogram{};
  if (rank == root) h = g[root];
  mpi::broadcast(h, world, root);
  r[root].same(c, h, "broadcast");
  r[root].add(c, h, c.r(r[root].a, r[root].b));
  c.nontrivial(sum.in);
}
#endif
void run() {
#ifdef S03_MPI
  vmon::group("ranks", 600, 10000, ranks);
#else
  vmon::group("life", 1200, 60000, life);
  vmon::group("exact", 1000, 20000, exact);
#endif
}
