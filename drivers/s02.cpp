// S02: means, errors and jackknife estimates against the textbook formulas in long double
#ifdef S02_MPI
#define VMON_MPI
#endif
#include "s_rig.hpp"
using namespace srig;
struct jk { fl avg, err, m, direct; };
// f acts on one value of each series, component by component
template <typename F> static jk reference(F f, std::vector<std::vector<fl>> const &s) {
  long n = s[0].size(), dim = 0;
  for (auto &x : s) dim = std::max<long>(dim, x[0].size());
  auto eval = [&](auto get) {
    fl r(dim);
    for (long k = 0; k < dim; ++k) { std::vector<cld> a; for (size_t i = 0; i < s.size(); ++i) a.push_back(get(i, s[i][0].size() == 1 ? 0 : k)); r[k] = f(a); }
    return r;
  };
  std::vector<fl> sum;
  for (auto &x : s) { sum.push_back(mean_of(x, 0, n)); for (auto &y : sum.back()) y *= (long double)n; }
  jk r;
  r.direct = eval([&](int i, long k) { return sum[i][k] / (long double)n; });
  std::vector<fl> v;
  for (long j = 0; j < n; ++j) v.push_back(eval([&](int i, long k) { return (sum[i][k] - s[i][j][k]) / (long double)(n - 1); }));
  r.m   = mean_of(v, 0, n);
  r.err = fl(dim);
  for (auto &y : v) for (long k = 0; k < dim; ++k) r.err[k] += std::norm(y[k] - r.m[k]);
  for (auto &y : r.err) y = std::sqrt(y.real() * (n - 1) / n);
  for (long k = 0; k < dim; ++k) r.avg.push_back((long double)n * r.direct[k] - (long double)(n - 1) * r.m[k]);
  return r;
}
template <typename Tu> static void compare(kase &c, Tu const &t, jk const &r, long n, const char *what) {
  long double sc = 1e-280L;
  for (auto &y : r.direct) sc = std::max(sc, std::abs(y));
  for (auto &y : r.m) sc = std::max(sc, std::abs(y));
  c.trace("%s", what);
  near(c, flat(std::get<3>(t)), r.direct, 1e-9L * sc, "f of the averages");
  near(c, flat(std::get<2>(t)), r.m, 1e-9L * sc, "jackknife average");
  near(c, flat(std::get<0>(t)), r.avg, 1e-9L * sc * n, "average without bias");
  near(c, flat(std::get<1>(t)), r.err, 1e-8L * sc, "jackknife error");
  vmon::count("jackknifes");
}
template <typename T> static std::vector<T> series(kase &c, long n, double off, std::vector<T> const *with = nullptr) {
  std::vector<T> r;
  for (long i = 0; i < n; ++i) {
    T x = kind<T>::gen(c, off, 1);
    if (with) x = T(0.5 * x + 0.5 * (*with)[i]);
    r.push_back(x);
  }
  return r;
}
template <typename T> static std::vector<fl> flats(std::vector<T> const &v) { std::vector<fl> r; for (auto &x : v) r.push_back(flat(x)); return r; }
template <typename T> static void sub(kase &c, fl const &m, std::vector<fl> const &x, T const &mean, const char *w) {
  long double sc = 1e-300L;
  for (auto &y : x) for (auto &z : y) sc = std::max(sc, std::abs(z));
  near(c, flat(mean), m, 1e-12L * sc, w);
}
template <typename T> static auto acc(std::vector<T> const &v, long cap) {
  st::accumulator<T> a{v[0], 0, -1, int(cap)};
  for (auto &x : v) a << x;
  return a;
}
#ifndef S02_MPI
template <typename T> void one(kase &c) {
  long n = c.pick(std::vector<long>{2, 2, 3, 5, 10, 37, 200});
  double off = c.pick(std::vector<double>{3, 5, 10, 1000});
  c.trace("%s n %ld off %g", kind<T>::name, n, off);
  auto a = series<T>(c, n, off), b = series<T>(c, n, off, c.chance(0.5) ? &a : nullptr);
  auto fa = flats(a), fb = flats(b);
  sub(c, mean_of(fa, 0, n), fa, st::mean(a), "mean");
  if constexpr (!nda::MemoryArray<T>) { // arrays do not compile in mean_and_err
    auto [m, e] = st::mean_and_err(a);
    sub(c, mean_of(fa, 0, n), fa, m, "mean");
    sub(c, err_of(fa), fa, e, "error of the mean");
    nda::array<T, 1> w(n);
    for (long i = 0; i < n; ++i) w(i) = a[i];
    sub(c, mean_of(fa, 0, n), fa, st::mean(w), "mean of an array");
    auto [m2, e2] = st::mean_and_err(w);
    sub(c, err_of(fa), fa, e2, "error of the mean of an array");
    compare(c, st::jackknife([](auto const &x) { return x * x; }, w), reference([](auto const &x) { return x[0] * x[0]; }, {fa}), n, "array series");
  }
  compare(c, st::jackknife([](auto const &x) { return x; }, a), reference([](auto const &x) { return x[0]; }, {fa}), n, "identity");
  compare(c, st::jackknife([](auto const &x, auto const &y) { return x / y; }, a, b), reference([](auto const &x) { return x[0] / x[1]; }, {fa, fb}), n, "ratio");
  compare(c, st::jackknife([](auto const &x, auto const &y) { return x * x - 2 * x * y; }, a, b), reference([](auto const &x) { return x[0] * x[0] - 2.0L * x[0] * x[1]; }, {fa, fb}), n, "polynomial");
  compare(c, st::jackknife([](auto const &x) { using std::exp; using nda::exp; return nda::make_regular(exp(0.001 * x)); }, a), reference([](auto const &x) { return std::exp(0.001L * x[0]); }, {fa}), n, "exp");
  if constexpr (nda::MemoryArray<T>) { // a sign common to all components
    auto s  = series<double>(c, n, 2);
    auto fs = flats(s);
    compare(c, st::jackknife([](auto const &x, double y) { return x / y; }, a, s), reference([](auto const &x) { return x[0] / x[1]; }, {fa, fs}), n, "sign");
    auto cap = c.i(1, 4);
    if ((n + cap - 1) / cap >= 2) {
      auto A = acc(a, cap);
      std::vector<fl> bl;
      for (auto &x : A.linear_bins()) bl.push_back(flat(x));
      compare(c, st::jackknife([](auto const &x) { return x * x; }, A), reference([](auto const &x) { return x[0] * x[0]; }, {bl}), bl.size(), "accumulator");
    }
  } else {
    auto s = series<double>(c, n, 2);
    auto fs = flats(s);
    compare(c, st::jackknife([](auto x, double y, auto z) { return x * z / y; }, a, s, b), reference([](auto const &x) { return x[0] * x[2] / x[1]; }, {fa, fs, fb}), n, "three series");
    auto cap = c.i(1, 4);
    if ((n + cap - 1) / cap >= 2) {
      auto A = acc(a, cap), B = acc(b, cap);
      std::vector<fl> bl, b2;
      for (long k = 0; k * cap < n; ++k) { bl.push_back(mean_of(fa, k * cap, std::min(n, k * cap + cap))); b2.push_back(mean_of(fb, k * cap, std::min(n, k * cap + cap))); }
      compare(c, st::jackknife([](auto x, auto y) { return x / y; }, A, B), reference([](auto const &x) { return x[0] / x[1]; }, {bl, b2}), bl.size(), "accumulators");
    }
  }
  auto d = series<T>(c, n + 1, off);
  c.throws([&] { st::jackknife([](auto const &x, auto const &y) { return nda::make_regular(x + y); }, a, d); }, "series of different sizes");
  c.throws([&] { st::jackknife([](auto const &x) { return nda::make_regular(x); }, std::vector<T>{}); }, "a series without data");
  c.throws([&] { st::accumulator<T> off{a[0], 3, 0}; off << a[0]; st::jackknife([](auto const &x) { return nda::make_regular(x); }, off); }, "an accumulator without linear bins");
  c.nontrivial(uint64_t(std::abs(fa[0][0]) * 1e6));
}
#else
template <typename T> void ranks(kase &c) {
  mpi::communicator world;
  int rank = world.rank(), size = world.size();
  double off = c.pick(std::vector<double>{3, 5, 10, 1000});
  std::vector<std::vector<T>> a(size), b(size);
  std::vector<fl> fa, fb;
  long n = 0;
  bool equal = c.chance(0.3);
  long n0 = c.i(1, 30);
  for (int k = 0; k < size; ++k) {
    long m = equal ? n0 : c.chance(0.3) ? 1 : c.i(1, 30);
    c.trace("%ld", m);
    a[k] = series<T>(c, m, off);
    b[k] = series<T>(c, m, off, c.chance(0.5) ? &a[k] : nullptr);
    for (auto &x : a[k]) fa.push_back(flat(x));
    for (auto &x : b[k]) fb.push_back(flat(x));
    n += m;
  }
  sub(c, mean_of(fa, 0, n), fa, st::mean_mpi(world, a[rank]), "mean over all ranks");
  if constexpr (!nda::MemoryArray<T>) {
    auto [m, e] = st::mean_and_err_mpi(world, a[rank]);
    sub(c, mean_of(fa, 0, n), fa, m, "mean over all ranks");
    if (n > 1) sub(c, err_of(fa), fa, e, "error over all ranks");
  }
  auto t1 = st::jackknife_mpi(world, [](auto const &x) { return x * x; }, a[rank]);
  auto t2 = st::jackknife_mpi(world, [](auto const &x, auto const &y) { return x / y; }, a[rank], b[rank]);
  auto A  = acc(a[rank], 1);
  auto t3 = st::jackknife_mpi(world, [](auto const &x) { return x * x; }, A);
  if (rank == 0 and n > 1) {
    compare(c, t1, reference([](auto const &x) { return x[0] * x[0]; }, {fa}), n, "square");
    compare(c, t2, reference([](auto const &x) { return x[0] / x[1]; }, {fa, fb}), n, "ratio");
    compare(c, t3, reference([](auto const &x) { return x[0] * x[0]; }, {fa}), n, "accumulator");
  }
  c.nontrivial(n);
}
#endif
void run() {
#ifdef S02_MPI
  vmon::group("ranks<double>", 300, 5000, ranks<double>);
  vmon::group("ranks<complex>", 200, 3000, ranks<dcx>);
  vmon::group("ranks<array>", 200, 3000, ranks<nda::array<double, 1>>);
  vmon::group("ranks<complex_array>", 200, 3000, ranks<nda::array<dcx, 2>>);
#else
  vmon::group("one<double>", 400, 8000, one<double>);
  vmon::group("one<complex>", 300, 5000, one<dcx>);
  vmon::group("one<array>", 300, 5000, one<nda::array<double, 1>>);
  vmon::group("one<complex_array>", 200, 4000, one<nda::array<dcx, 2>>);
#endif
}
