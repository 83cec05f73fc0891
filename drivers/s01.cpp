// S01: accumulators against the statistics of the recorded stream
#ifdef S01_MPI
#define VMON_MPI
#endif
#include "s_rig.hpp"
using namespace srig;
template <typename T> struct ref {
  std::vector<fl> x;
  long maxlog, maxlin, cap;
  double scale = 0;
  long nlin() const { return maxlin == 0 ? 0 : x.empty() || maxlin == 1 ? 1 : (long(x.size()) + cap - 1) / cap; }
  long nlog() const { if (maxlog == 0) return 0; long n = 1; while ((2l << (n - 1)) <= long(x.size())) ++n; return maxlog > 0 ? std::min(n, maxlog) : n; }
  void add(T const &s) {
    if (maxlin > 1 and !x.empty() and long(x.size()) == cap * maxlin) cap *= 2;
    x.push_back(flat(s));
    for (auto &y : x.back()) scale = std::max(scale, double(std::abs(y)));
  }
  void verify(kase &c, st::accumulator<T> const &a, const char *when) {
    long N = x.size();
    long double tol = 1e-11L * scale + 1e-300L;
    c.check(long(a.data_input_count()) == N, "%s: %ld data counted instead of %ld", when, long(a.data_input_count()), N);
    c.check(a.n_log_bins_max() == maxlog, "%s: n_log_bins_max is %d instead of %ld", when, a.n_log_bins_max(), maxlog);
    c.check(a.n_lin_bins_max() == maxlin, "%s: n_lin_bins_max is %d instead of %ld", when, a.n_lin_bins_max(), maxlin);
    c.check(a.lin_bin_capacity() == cap, "%s: capacity %d instead of %ld with %ld data", when, a.lin_bin_capacity(), cap, N);
    c.check(a.n_lin_bins() == nlin(), "%s: %d linear bins instead of %ld with %ld data", when, a.n_lin_bins(), nlin(), N);
    c.check(a.n_log_bins() == nlog(), "%s: %d log bins instead of %ld with %ld data", when, a.n_log_bins(), nlog(), N);
    auto const &b = a.linear_bins();
    c.check(long(b.size()) == nlin(), "%s: %zu bins", when, b.size());
    for (long k = 0; k < nlin(); ++k) {
      if (N == 0) { for (auto y : flat(b[0])) c.check(y == cld{}, "%s: the first bin is not zero", when); break; }
      long from = maxlin == 1 ? 0 : k * cap, to = maxlin == 1 ? N : std::min(N, from + cap);
      near(c, flat(b[k]), mean_of(x, from, to), tol, "linear bin");
    }
    auto [err, cnt] = a.log_bin_errors();
    c.check(long(err.size()) == nlog() and long(cnt.size()) == nlog(), "%s: %zu errors and %zu counts for %ld bins", when, err.size(), cnt.size(), nlog());
    for (long n = 0; n < nlog(); ++n) {
      c.check(cnt[n] == N >> n, "%s: bin %ld has %ld data instead of %ld", when, n, cnt[n], N >> n);
      auto bl = blocks(x, n);
      if (bl.size() < 2) { for (auto y : flat(err[n])) c.check(y == cld{}, "%s: error of a single block", when); continue; }
      near(c, flat(err[n]), err_of(bl), 1e-7L * scale, "error bar");
    }
    vmon::count("states_compared");
  }
};
template <typename T> static T scaled(T const &x) { return x; }
template <typename T> void feed(kase &c, st::accumulator<T> &a, ref<T> &r, double off, double sc, T &prev, double rho) {
  T s = kind<T>::gen(c, off, sc);
  if (rho > 0) s = T(rho * prev + std::sqrt(1 - rho * rho) * s);
  prev = s;
  r.add(s);
  switch (c.i(0, 3)) {
    default: a << s; break;
    case 1:
      if constexpr (nda::MemoryArray<T>) a << s();
      else a << T(s);
      break;
    case 2:
      if constexpr (nda::MemoryArray<T>) a << (2 * s - s);
      else a << s;
      break;
  }
}
template <typename T> std::pair<st::accumulator<T>, ref<T>> make(kase &c, int maxcap = 6) {
  int ml = c.pick(std::vector<int>{0, 1, 2, 3, 4, 6, -1, -1, -3}), nl = c.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 7, 10, -1, -2}), cap = int(c.i(1, maxcap));
  c.trace("%s log %d lin %d cap %d", kind<T>::name, ml, nl, cap);
  auto z = kind<T>::zero(c);
  return {st::accumulator<T>{z, ml, nl, cap}, ref<T>{{}, ml, nl, cap}};
}
template <typename T> void stream(kase &c) {
  auto [a, r] = make<T>(c);
  double off = c.pick(std::vector<double>{0, 0, 1, -100}), sc = c.pick(std::vector<double>{1, 1, 1e-3, 1e5}), rho = c.chance(0.3) ? c.r(0.3, 0.99) : 0;
  T prev = kind<T>::gen(c, off, sc);
  r.verify(c, a, "no data");
  int steps = int(c.i(1, 60));
  for (int s = 0; s < steps; ++s) {
    switch (c.i(0, 11)) {
      default: { long n = c.chance(0.7) ? c.i(1, 3) : c.i(1, 70); c.trace("+%ld", n); for (long k = 0; k < n; ++k) feed(c, a, r, off, sc, prev, rho); break; }
      case 0: { // manual compression
        int f = c.pick(std::vector<int>{-1, 0, 1, 2, 2, 3, 5, 8});
        c.trace("compress %d", f);
        a.compress_linear_bins(f);
        if (r.maxlin != 0 and f >= 2 and r.cap < 100000) r.cap *= f;
        else if (r.maxlin != 0 and f >= 2) return;
        vmon::count("compressed");
        break;
      }
      case 1: { // the copy goes on by itself
        auto b  = a;
        auto rb = r;
        feed(c, b, rb, off, sc, prev, rho);
        r.verify(c, a, "after the copy was changed");
        rb.verify(c, b, "copy");
        if (c.chance(0.5)) { a = std::move(b); r = rb; } else if (c.chance(0.5)) { a = b; r = rb; }
        vmon::count("copied");
        break;
      }
      case 2: { // to a file and back, into a new or a used object
        std::string fn = "acc.h5";
        { h5::file f(fn, 'w'); h5_write(f, "a", a); }
        auto [b, rb] = make<T>(c);
        for (long k = c.i(0, 20); k > 0; --k) feed(c, b, rb, off, sc, prev, 0);
        if (c.chance(0.5)) b = st::accumulator<T>{};
        { h5::file f(fn, 'r'); h5_read(f, "a", b); }
        r.verify(c, b, "reloaded");
        a = std::move(b);
        vmon::count("reloaded");
        break;
      }
    }
    r.verify(c, a, "after");
  }
  auto [e, n] = a.log_bin_errors();
  if (r.maxlog != 0 and r.x.size() > 4)
    for (size_t k = 1; k < e.size(); ++k) {
      if (n[k] < 2) continue;
      auto t = flat(nda::make_regular(st::tau_estimate_from_errors(e[k], e[0])));
      auto ek = err_of(blocks(r.x, k)), e0 = err_of(r.x);
      for (size_t i = 0; i < t.size(); ++i) {
        auto q = ek[i] / e0[i];
        if (e0[i].real() > 1e-6 * r.scale) c.check(std::abs(t[i] - 0.5L * (q * q - 1.0L)) < 1e-6L * (1 + std::abs(t[i])), "correlation time of bin %zu: %Lg instead of %Lg", k, t[i].real(), (0.5L * (q * q - 1.0L)).real());
      }
    }
  vmon::count("samples_fed", r.x.size());
  c.nontrivial(r.x.size() > 5 ? r.x.size() : 0);
}
#ifndef S01_MPI
// a stream of equal samples longer than 2^31 is entered in the middle through a file
void huge(kase &c) {
  int top = int(c.i(29, 33)), max = c.pick(std::vector<int>{-1, top, top + 1, top + 2, 40});
  int full = max > 0 ? std::min(top, max - 1) : top; // partial sums that exist
  long count = (1l << top) - 1;
  double v = c.r(-2, 2);
  c.trace("2^%d-1 samples, max %d", top, max);
  {
    h5::file f("h.h5", 'w');
    h5::group g(f);
    auto a = g.create_group("a");
    h5_write(a, "count", count);
    auto l = a.create_group("log_bins");
    std::vector<double> Q(full, 0.0), M(full, v), acc(full);
    std::vector<int> n(full, 1);
    if (max > 0 and top > max - 1) { h5_write(g, "skip", 1); }
    for (int k = 0; k < full; ++k) acc[k] = v * double(1ull << k);
    h5_write(l, "Qk", Q);
    h5_write(l, "Mk", M);
    h5_write(l, "acc", acc);
    h5_write(l, "acc_count", n);
    h5_write(l, "count", count);
    h5_write(l, "max_n_bins", max);
    auto m = a.create_group("lin_bins");
    h5_write(m, "bins", std::vector<double>{v, v});
    h5_write(m, "bin_capacity", 1l << (top - 1));
    h5_write(m, "last_bin_count", (1l << (top - 1)) - 1);
    h5_write(m, "max_n_bins", 2l);
  }
  st::accumulator<double> a{0.0, max, 2, 1};
  { h5::file f("h.h5", 'r'); h5_read(f, "a", a); }
  if (max > 0 and top >= max) { // no further bin: the partial sums are those of max - 1 levels
    return;
  }
  a << v;
  c.check(a.data_input_count() == count + 1, "count");
  c.check(a.n_log_bins() == top + 1, "%d log bins with 2^%d samples", a.n_log_bins(), top);
  a << v << v;
  auto [e, n] = a.log_bin_errors();
  for (int k = 0; k <= top; ++k) {
    c.check(n[k] == (count + 3) >> k, "bin %d counts %ld", k, n[k]);
    c.check(e[k] < 1e-9, "bin %d of a constant stream has the error %g", k, e[k]);
  }
  c.check(a.n_lin_bins() == 2, "linear bins %d", a.n_lin_bins());
  for (auto y : a.linear_bins()) c.close(y, v, 1e-12, "linear bin of a constant stream");
  a << v;
  for (auto y : a.linear_bins()) c.close(y, v, 1e-12, "linear bin of a constant stream");
  c.nontrivial(top * 100 + max);
}
#else
template <typename T> void ranks(kase &c) {
  mpi::communicator world;
  int rank = world.rank(), size = world.size();
  int ml = c.pick(std::vector<int>{1, 2, 3, 5, -1, -1});
  c.trace("%s log %d", kind<T>::name, ml);
  bool some = false;
  std::vector<ref<T>> r(size, ref<T>{{}, ml, 0, 1});
  std::vector<st::accumulator<T>> a(size, st::accumulator<T>{kind<T>::zero(c), ml, 0, 1});
  for (int k = 0; k < size; ++k) {
    long n = c.chance(0.15) ? 0 : c.chance(0.5) ? c.i(1, 9) : c.i(1, 150);
    double off = c.r(-1, 1), sc = c.r(0.1, 3);
    T prev = kind<T>::gen(c, off, sc);
    for (long i = 0; i < n; ++i) feed(c, a[k], r[k], off, sc, prev, 0.3);
    c.trace("%ld", n);
    some |= n > 0;
  }
  auto [e, n] = a[rank].log_bin_errors_all_reduce(world);
  long nb = 0;
  for (auto &x : r) nb = std::max(nb, x.nlog());
  c.check(long(e.size()) == nb and long(n.size()) == nb, "%zu errors and %zu counts instead of %ld", e.size(), n.size(), nb);
  double scale = 0;
  for (auto &x : r) scale = std::max(scale, x.scale);
  for (long k = 0; k < nb; ++k) {
    std::vector<fl> all;
    for (auto &x : r) { auto b = blocks(x.x, k); all.insert(all.end(), b.begin(), b.end()); }
    c.check(n[k] == long(all.size()), "bin %ld counts %ld blocks instead of %zu", k, n[k], all.size());
    if (all.size() < 2) { for (auto y : flat(e[k])) c.check(y == cld{}, "error of a single block"); }
    else near(c, flat(e[k]), err_of(all), 1e-9L * scale, "error over all ranks");
  }
  r[rank].verify(c, a[rank], "after the reduction");
  c.nontrivial(nb);
}
#endif
void run() {
#ifdef S01_MPI
  vmon::group("ranks<double>", 300, 6000, ranks<double>);
  vmon::group("ranks<complex>", 150, 3000, ranks<dcx>);
  vmon::group("ranks<array>", 150, 3000, ranks<nda::array<double, 1>>);
  vmon::group("ranks<complex_array>", 150, 3000, ranks<nda::array<dcx, 2>>);
#else
  vmon::group("stream<double>", 600, 20000, stream<double>);
  vmon::group("stream<complex>", 400, 10000, stream<dcx>);
  vmon::group("stream<array>", 400, 10000, stream<nda::array<double, 1>>);
  vmon::group("stream<complex_array>", 250, 6000, stream<nda::array<dcx, 2>>);
  vmon::group("huge", 40, 400, huge);
#endif
}
