// M03: random number streams
#include <vmon.hpp>
#include <random>
#include <float.h>
#include <memory>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <triqs/mc_tools/random_generator.hpp>
#include <triqs/mc_tools/MersenneRNG.hpp>
using vmon::kase;
using triqs::mc_tools::random_generator;

// the seeding by a 69069 congruential sequence that the generator "" documents in its state initialisation
struct lcg_words {
  uint32_t x;
  using result_type = uint32_t;
  template <typename It> void generate(It b, It e) const {
    uint32_t y = x;
    for (; b != e; ++b) { *b = y; y *= 69069u; }
  }
};
inline std::mt19937 ref_mt(uint64_t seed) { lcg_words s{uint32_t(seed) | 1u}; std::mt19937 g; g.seed(s); return g; }

std::function<double()> reference(std::string const &name, uint32_t seed) {
  if (name == "") { auto g = std::make_shared<std::mt19937>(ref_mt(seed)); return [g] { return DBL_EPSILON + (double((*g)()) / 0xFFFFFFFFu) * (1 - 2 * DBL_EPSILON); }; }
  if (name == "mt19937") { auto g = std::make_shared<std::mt19937>(seed); return [g] { return double((*g)()) / 4294967296.0; }; }
  if (name == "mt11213b") { auto g = std::make_shared<boost::random::mt11213b>(seed); return [g] { return double((*g)()) / 4294967296.0; }; }
  if (name == "ranlux3") { auto g = std::make_shared<boost::random::ranlux3>(seed); double d = double((g->max)() - (g->min)()) + 1; return [g, d] { return double((*g)() - (g->min)()) / d; }; }
#define LF(N) if (name == "lagged_fibonacci" #N) { auto g = std::make_shared<boost::random::lagged_fibonacci##N>(seed); return [g] { return (*g)(); }; }
  LF(607) LF(1279) LF(2281) LF(3217) LF(4423) LF(9689) LF(19937) LF(23209) LF(44497)
  return {};
}
std::vector<std::string> names() { auto v = triqs::mc_tools::random_generator_names_list(); v.push_back(""); return v; }
uint32_t rseed(kase &c) { switch (c.i(0, 5)) { case 0: return uint32_t(c.i(0, 3)); case 1: return uint32_t(0xFFFFFFFFu - c.i(0, 3)); case 2: return uint32_t(34788 + 928374 * c.i(0, 100)); default: return uint32_t(c.u64()); } }

void stream(kase &c) {
  auto nm   = names();
  auto name = nm[c.index % nm.size()];
  auto seed = rseed(c);
  c.trace("%s seed %u", name.c_str(), seed);
  auto ref = reference(name, seed);
  c.check(bool(ref), "generator %s has no reference here", name.c_str());
  auto g = std::make_unique<random_generator>(name, seed);
  c.eq(g->name(), name, "name()");
  long n = 0, target = c.i(2500, 5000);
  auto tol = [](double w) { return 4e-16 * std::abs(w); };
  while (n < target) {
    int what = int(c.i(0, 9));
    long reps = c.i(1, 50);
    if (what == 8) { // a moved-to generator continues the stream
      auto h = std::make_unique<random_generator>(std::move(*g));
      c.check(h->name() == name, "name of a moved generator");
      g = std::move(h);
      vmon::count("moves");
      continue;
    }
    if (what == 9) { random_generator h("mt19937", 1); for (int k = 0; k < int(c.i(0, 1200)); ++k) h(); h = std::move(*g); *g = std::move(h); vmon::count("moves"); continue; }
    for (long k = 0; k < reps; ++k) {
      double u = -1;
      switch (what) {
        case 0: case 1: u = ref(); c.close((*g)(), u, tol(u), "value in [0,1) number " + std::to_string(n)); break;
        case 2: { u = ref(); double b = c.r(0.1, 100); double x = (*g)(b); c.close(x, b * u, tol(b), "value in [0,b) number " + std::to_string(n)); c.check(x >= 0 && x < b, "value %.17g outside [0,%.17g)", x, b); break; }
        case 3: { u = ref(); double a = c.r(-100, 100), b = a + c.r(0.1, 100); double x = (*g)(a, b); c.close(x, a + (b - a) * u, 1e-13, "value in [a,b) number " + std::to_string(n)); c.check(x >= a && x < b, "value %.17g outside [%.17g,%.17g)", x, a, b); break; }
        case 4: { u = ref(); int N = int(c.i(2, 1000)); int x = (*g)(N); c.eq(x, int(std::floor(N * u)), "integer in [0,N) number " + std::to_string(n)); c.check(x >= 0 && x < N, "integer %d outside [0,%d)", x, N); break; }
        case 5: { u = ref(); unsigned long N = c.chance(0.5) ? (1ul << c.i(1, 52)) : (unsigned long)(c.i(2, 4000000000l)); unsigned long x = (*g)(N); c.check(x == (unsigned long)std::floor(double(N) * u), "large integer number %ld", n); c.check(x < N, "large integer out of range"); break; }
        case 6: { double p = g->preview(), q = g->preview(); u = ref(); c.close(p, u, tol(u), "preview"); c.close(q, u, tol(u), "second preview"); c.close((*g)(), u, tol(u), "value after a preview"); break; }
        default: c.eq((*g)(1), 0, "integer in [0,1)"); continue; // consumes nothing
      }
      ++n;
      c.check(u >= 0 && u < 1, "internal: reference %g", u);
      vmon::count("values_compared");
    }
  }
  c.nontrivial(vmon::mix(seed));
}
void two(kase &c) {
  auto nm   = names();
  auto name = nm[c.index % nm.size()];
  auto s1 = rseed(c), s2 = rseed(c);
  c.trace("%s seeds %u %u", name.c_str(), s1, s2);
  random_generator a(name, s1), b(name, s1), d(name, s2);
  bool diff = false;
  for (int k = 0; k < 2200; ++k) {
    double x = a(), y = b(), z = d();
    c.check(x == y, "two generators with the same name and seed differ at %d", k);
    c.check(x >= 0 && x < 1, "value %.17g outside [0,1)", x);
    diff |= x != z;
  }
  // "" forces the lowest bit of the seed to one; boost engines reduce some seeds (0 for lagged Fibonacci and ranlux)
  bool must = name == "" ? (s1 | 1) != (s2 | 1) : (name.substr(0, 2) == "mt" ? s1 != s2 : (s1 != s2 && s1 > 3 && s2 > 3 && s1 < 2000000000u && s2 < 2000000000u));
  if (must) { c.check(diff, "seeds %u and %u give the same stream", s1, s2); vmon::count("different_seeds"); }
  c.nontrivial(vmon::mix(s1));
}
void randmt(kase &c) { // the Mersenne Twister class itself: seeding, reseeding at any point
  using RandMT = triqs::mc_tools::RandomGenerators::RandMT;
  std::unique_ptr<RandMT> g;
  uint64_t seed = 1;
  if (c.chance(0.3)) { g = std::make_unique<RandMT>(); c.trace("default"); }
  else { seed = rseed(c); g = std::make_unique<RandMT>(seed); c.trace("seed %lu", seed); }
  auto r = ref_mt(seed);
  long total = 0;
  for (int part = 0; part < int(c.i(1, 4)); ++part) {
    long n = c.pick(std::vector<long>{0, 1, 5, 227, 396, 397, 623, 624, 625, 1247, 1248, 1249, 2000});
    for (long k = 0; k < n; ++k) {
      bool dbl = c.chance(0.3);
      uint32_t w = r();
      if (dbl) c.close(g->eval(), double(w) / 0xFFFFFFFFu, 1e-16, "eval() number " + std::to_string(k));
      else if (c.chance(0.3)) { double x = (*g)(); c.close(x, DBL_EPSILON + double(w) / 0xFFFFFFFFu * (1 - 2 * DBL_EPSILON), 3e-16, "call number " + std::to_string(k)); c.check(x > 0 && x < 1, "value outside (0,1)"); }
      else { auto x = g->randomMT(); c.check(x == w, "word %ld after seeding with %lu is %lu, expected %u", k, seed, (unsigned long)x, w); }
      ++total;
    }
    vmon::count("words_compared", n);
    if (c.chance(0.8)) { seed = rseed(c); g->seedMT(seed); r = ref_mt(seed); c.trace("%ld then reseed %lu", n, seed); }
    else if (c.chance(0.5)) { g = std::make_unique<RandMT>(*g); r = ref_mt(seed); c.trace("%ld then copy", n); } // a copy starts again from the seed
  }
  if (total > 300) c.nontrivial(seed);
}
void uniform(kase &c) { // distribution: chi2 of one- and two-dimensional occupation, integer counts, serial correlation
  auto nm   = names();
  auto name = nm[c.index % nm.size()];
  auto seed = uint32_t(c.i(4, 1000000000));
  c.trace("%s seed %u", name.c_str(), seed);
  random_generator g(name, seed);
  const int B = 64, N = 40000;
  std::vector<double> h(B), h2(16 * 16), hi(7);
  double s = 0, sc = 0, prev = g();
  for (int k = 0; k < N; ++k) {
    double x = g();
    ++h[int(x * B)];
    if (k % 2 == 0) ++h2[int(prev * 16) * 16 + int(x * 16)];
    s += x - 0.5;
    sc += (x - 0.5) * (prev - 0.5);
    prev = x;
  }
  for (int k = 0; k < 7000; ++k) { int x = g(7); c.check(x >= 0 && x < 7, "integer out of range"); ++hi[x]; }
  auto chi = [](std::vector<double> const &v, double n) { double e = n / v.size(), t = 0; for (double x : v) t += (x - e) * (x - e) / e; return (t - (v.size() - 1)) / std::sqrt(2.0 * (v.size() - 1)); };
  c.check(std::abs(chi(h, N)) < 7, "occupation of [0,1) is not uniform: %.2f sigma", chi(h, N));
  c.check(std::abs(chi(h2, N / 2)) < 7, "occupation of pairs is not uniform: %.2f sigma", chi(h2, N / 2));
  c.check(std::abs(chi(hi, 7000)) < 8, "integers are not uniform: %.2f sigma", chi(hi, 7000));
  c.check(std::abs(s) < 7 * std::sqrt(N / 12.0), "mean is off by %.2f sigma", s / std::sqrt(N / 12.0));
  c.check(std::abs(sc) < 7 * std::sqrt(double(N)) / 12, "successive values are correlated: %.2f sigma", sc / (std::sqrt(double(N)) / 12));
  vmon::count("values_in_distribution_tests", 2 * N);
  c.nontrivial(seed);
}
void misc(kase &c) {
  random_generator d, e("mt19937", 198);
  auto ref = reference("mt19937", 198);
  for (int k = 0; k < 2500; ++k) { double x = d(); c.check(x == e(), "default constructed generator differs from mt19937 with seed 198"); c.close(x, ref(), 1e-16, "default generator"); }
  auto l = triqs::mc_tools::random_generator_names_list();
  std::string s;
  for (auto &x : l) { s += (s.empty() ? "" : ",") + x; random_generator g(x, 1); c.check(bool(reference(x, 1)), "unknown name %s", x.c_str()); }
  c.eq(triqs::mc_tools::random_generator_names(","), s, "list of names");
  std::string bad = "mt1993" + std::to_string(c.i(0, 6));
  c.throws([&] { random_generator g(bad, 3); }, "unknown generator name");
  c.throws([&] { random_generator g("MT19937", 3); }, "unknown generator name");
  c.trace("names %s", s.c_str());
  c.nontrivial();
}
void run() {
  vmon::group("stream", 130, 2600, stream);
  vmon::group("reproducible", 78, 1300, two);
  vmon::group("mersenne_twister", 200, 4000, randmt);
  vmon::group("uniformity", 26, 260, uniform);
  vmon::group("names", 2, 4, misc);
}
