// U05: discretised imaginary times, against 128-bit integer arithmetic modulo 2^64-1
#include <vmon.hpp>
#include <triqs/utility/time_pt.hpp>
#include <triqs/mc_tools/random_generator.hpp>
using vmon::kase;
using triqs::utility::time_pt;
using triqs::utility::time_segment;
using u64 = uint64_t;
using u128 = unsigned __int128;
static const u64 M = ~u64(0);
static u64 gen_n(kase &c) {
  switch (c.i(0, 7)) {
    case 0: return u64(c.i(0, 3));
    case 1: return M - u64(c.i(0, 3));
    case 2: return (u64(1) << c.i(0, 63)) + u64(c.i(0, 2)) - 1;
    case 3: return u64(c.u64() % 1000000);
    case 4: return M / 2 + u64(c.i(0, 4)) - 2;
    default: return c.u64();
  }
}
// the integer of a time point is only observable through comparisons: every result is compared with a point built from the expected integer
static void is(kase &c, time_pt const &p, u64 n, double beta, const char *what) {
  vmon::count("time_points_compared");
  time_pt e(n, beta);
  c.check(p == e && !(p < e) && !(p > e) && p <= e && p >= e && !(p != e), "%s: not the point %lu of beta %g but %.17g", what, n, beta, double(p));
  c.check(double(p) == double(e), "%s: double value %.17g instead of %.17g", what, double(p), double(e));
  c.check(double(p) >= 0 && double(p) <= beta, "%s: %.17g outside of [0,%.17g]", what, double(p), beta);
}
struct edge_rng { // uniform or extreme integers of [0,n)
  kase &c;
  int mode;
  u64 last = 0;
  u64 operator()(u64 n) { return last = mode == 0 ? 0 : mode == 1 ? n - 1 : c.u64() % n; }
};
static void arith(kase &c) {
  double beta = c.chance(0.2) ? c.pick(std::vector<double>{1, 10, 1e-6, 1e6}) : std::exp(c.r(-5, 8));
  time_segment seg(beta);
  u64 a = gen_n(c), b = c.chance(0.1) ? a : (c.chance(0.1) ? M - a : (c.chance(0.1) ? M - a + u64(c.i(-2, 2)) : gen_n(c)));
  c.trace("beta %.17g a %lu b %lu", beta, a, b);
  time_pt A(a, beta), B(b, beta);
  is(c, A, a, beta, "construction");
  long double va = (long double)(a) / (long double)(M) * beta;
  c.check(std::abs((long double)(double(A)) - va) <= 1e-15L * va, "value of point %lu is %.17g instead of %.17Lg", a, double(A), va);
  is(c, A + B, u64((u128(a) + b) % M), beta, "a+b"); is(c, B + A, u64((u128(a) + b) % M), beta, "b+a");
  u64 d = u64((u128(a) + M - b) % M);
  is(c, A - B, d, beta, "a-b"); is(c, B - A, u64((u128(b) + M - a) % M), beta, "b-a");
  is(c, (A - B) + B, a % M, beta, "(a-b)+b"); is(c, (A + B) - B, a % M, beta, "(a+b)-b");
  is(c, (-A) + A, 0, beta, "-a+a"); is(c, (-A) + B, u64((u128(b) + M - a) % M), beta, "-a+b"); is(c, B - (-A), u64((u128(a) + b) % M), beta, "b-(-a)");
  c.check(A + B < seg.get_upper_pt() && A - B < seg.get_upper_pt() && A - B >= seg.get_lower_pt(), "sum or difference outside of [0,beta)");
  u64 e = gen_n(c);
  time_pt E(e, beta);
  is(c, (A + B) + E, u64((u128(a) + b + e) % M), beta, "(a+b)+c"); is(c, A + (B + E), u64((u128(a) + b + e) % M), beta, "a+(b+c)"); is(c, A - (B - E), u64((u128(a) + e + M - b) % M), beta, "a-(b-c)");
  // order
  c.check((A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A == B) == (a == b) && (A != B) == (a != b), "order of %lu and %lu", a, b);
  if (a < b) c.check(double(A) <= double(B), "order of the double values");
  if (double(A) < double(B)) c.check(A < B, "order of points against their double values");
  c.check(std::abs(A * B - double(A) * double(B)) == 0 && (double(B) == 0 || A / B == double(A) / double(B)), "products decay to double");
  c.check(A + 1.5 == double(A) + 1.5 && 1.5 - A == 1.5 - double(A) && A * 2. == double(A) * 2 && A / 3. == double(A) / 3 && A - .5 == double(A) - .5 && 2. + A == 2 + double(A) && 3. * A == 3 * double(A), "operations with doubles");
  // integers
  u64 k = u64(c.i(1, 1000));
  is(c, div_by_int(A, k), a / k, beta, "div_by_int"); if (a <= M / k) is(c, mult_by_int(A, k), a * k, beta, "mult_by_int"); if (b) c.eq(floor_div(A, B), size_t(a / b), "floor_div");
  is(c, seg.get_lower_pt(), 0, beta, "lower point"); is(c, seg.get_upper_pt(), M, beta, "upper point"); is(c, seg.get_epsilon(), 1, beta, "epsilon");
  c.check(double(seg.get_upper_pt()) == beta && double(seg.get_lower_pt()) == 0, "end points");
  c.check(double(time_pt()) == 0 && time_pt() == seg.get_lower_pt(), "default point");
  { // copies
    time_pt x(A), y;
    y = B; x = y; y = A;
    is(c, x, b, beta, "assigned"); is(c, y, a, beta, "assigned");
  }
  if (c.chance(0.03)) {
    h5::file f("u05.h5", 'w');
    h5::group g(f);
    h5_write(g, "t", A);
    time_pt r;
    h5_read(g, "t", r);
    is(c, r, a, beta, "read from HDF5"); is(c, r + B, u64((u128(a) + b) % M), beta, "sum with a point read from HDF5");
    vmon::count("hdf5_round_trips");
  }
  c.nontrivial(a ^ (b * 31));
}
static void from_double(kase &c) {
  double beta = c.chance(0.3) ? c.pick(std::vector<double>{1, 10, 1e-6, 1e6, 3}) : std::exp(c.r(-5, 8));
  time_segment seg(beta);
  double x = c.chance(0.15) ? beta : c.chance(0.15) ? std::nextafter(beta, 0) : c.chance(0.1) ? 0 : c.chance(0.1) ? 1e-310 : beta * (c.chance(0.8) ? c.r() : std::exp(c.r(-60, 0)));
  if (x > beta) x = beta;
  c.trace("beta %a x %a", beta, x);
  auto p = seg.make_time_pt(x);
  vmon::count("points_from_double");
  long double eps = (long double)beta / M;
  c.check(std::abs((long double)double(p) - x) <= eps + 4e-16L * x, "make_time_pt(%.17g) is %.17g for beta %.17g", x, double(p), beta);
  c.check(p >= seg.get_lower_pt() && p <= seg.get_upper_pt() && double(p) <= beta, "make_time_pt outside of the segment");
  double y = std::min(beta, beta * c.r());
  auto q = seg.make_time_pt(y);
  c.check((x <= y) ? p <= q : p >= q, "make_time_pt is not monotone");
  c.nontrivial(c.u64());
}
template <typename R> static void random_in(kase &c, R &rng, const char *nm) {
  double beta = std::exp(c.r(-3, 6));
  time_segment seg(beta);
  u64 a = gen_n(c), b = gen_n(c);
  if (a > b) std::swap(a, b);
  if (a == b) { if (a == 0) b = 1; else --a; }
  c.trace("%s beta %g [%lu,%lu)", nm, beta, a, b);
  time_pt A(a, beta), B(b, beta);
  for (int k = 0; k < 20; ++k) {
    auto r = seg.get_random_pt(rng);
    c.check(r >= seg.get_lower_pt() && r < seg.get_upper_pt() && double(r) >= 0 && double(r) <= beta, "random point %.17g outside of [0,%.17g)", double(r), beta);
    r = seg.get_random_pt(rng, B);
    c.check(r < B && double(r) <= double(B), "random point %.17g not below %.17g", double(r), double(B));
    r = seg.get_random_pt(rng, A, B);
    c.check(r >= A && r < B, "random point %.17g not in [%.17g,%.17g)", double(r), double(A), double(B));
    vmon::count("random_points", 3);
    if constexpr (std::is_same_v<R, edge_rng>) {
      is(c, r, rng.last + a, beta, "random point of an interval");
      r = seg.get_random_pt(rng, B); is(c, r, rng.last, beta, "random point below a point");
      r = seg.get_random_pt(rng); is(c, r, rng.last, beta, "random point");
    }
  }
  c.nontrivial(c.u64());
}
static void random_pts(kase &c) {
  edge_rng e{c, int(c.i(0, 3))};
  random_in(c, e, "edge");
}
static void random_triqs(kase &c) {
  triqs::mc_tools::random_generator g("mt19937", int(c.i(1, 100000)));
  double beta = 7;
  random_in(c, g, "mt19937");
  // spread: the quarters of the segment are hit alike
  time_segment seg(beta);
  std::vector<long> h(4);
  for (int k = 0; k < 4000; ++k) ++h[std::min(3, int(4 * double(seg.get_random_pt(g)) / beta))];
  for (auto x : h) c.check(std::abs(x - 1000) < 250, "a quarter of the segment is hit %ld times of 4000", x);
}
void run() {
  vmon::group("arithmetic", 20000, 600000, arith);
  vmon::group("from_double", 8000, 200000, from_double);
  vmon::group("random_points", 500, 10000, random_pts);
  vmon::group("random_points_triqs", 100, 2000, random_triqs);
}
