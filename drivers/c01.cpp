// C01: objects shared read-only between threads, and objects used by one thread each
#include <atomic>
#include <thread>
#include <dlfcn.h>
#include <fftw3.h>
#include "pole_rig.hpp"
using namespace grig;
using namespace triqs;
#ifndef PART
#define PART 0
#endif
// ---------- the rig: tasks run by threads on one object (or on copies of it), compared with the same tasks run one after the other on an equal object
template <typename Obj> struct task { const char *name; std::function<void(Obj const &, kase &, vec &)> f; };
template <typename Obj> using tasks = std::vector<task<Obj>>;
static void push(vec &out, vec const &v) { out.insert(out.end(), v.begin(), v.end()); }
static void push(vec &out, double x) { out.emplace_back(x); }
static void push(vec &out, cd x) { out.emplace_back(x); }
static void text(vec &out, std::string const &s) { uint64_t h = vmon::hash_str(s); out.emplace_back(double(h >> 32), double(h & 0xffffffff)); }
static std::atomic<long> plan_overlaps{0}, planner_calls{0};
template <typename Obj> void guarded(task<Obj> const &t, Obj const &o, uint64_t seed, vec &out) {
  kase k{t.name, long(seed)};
  try { t.f(o, k, out); } catch (vmon::failure const &) { throw; } catch (std::exception const &e) { out.emplace_back(-12345.678, 0); }
}
template <typename Obj, typename Make> void share(kase &c, Make make, tasks<Obj> const &ts) {
  uint64_t seed = c.u64() >> 20;
  auto fresh = [&] { kase k{"object", long(seed)}; return std::unique_ptr<Obj>(make(k)); };
  auto a = fresh();
  int nt = int(c.i(2, 4)), mode = std::is_copy_constructible_v<Obj> ? int(c.i(0, 2)) : 0; // 0: shared, 1: copies made before, 2: copies made by the threads
  struct job { size_t t; uint64_t seed; long spin; uint32_t begin = 0, end = 0; vec out; };
  std::vector<std::vector<job>> jobs(nt);
  size_t favourite = c.i(0, long(ts.size()) - 1);
  // the first cases of a process: every thread does everything in the same order, so that what a process computes once is first asked for by several threads
  bool everything = c.index < 8 || c.chance(0.1);
  if (everything)
    for (int k = 0; k < nt; ++k)
      for (size_t t = 0; t < ts.size(); ++t) jobs[k].push_back({t, uint64_t(c.i(0, 1 << 30)), 0});
  else for (int k = 0; k < nt; ++k)
    for (long n = c.i(1, 4); n > 0; --n) jobs[k].push_back({c.chance(0.4) ? favourite : size_t(c.i(0, long(ts.size()) - 1)), uint64_t(c.i(0, 1 << 30)), c.chance(0.5) ? 0 : c.i(0, 3000)});
  std::string log;
  for (auto &v : jobs) { log += "["; for (auto &j : v) log += std::string(ts[j.t].name) + ","; log += "] "; }
  c.trace("%d threads, %s: %s", nt, mode == 0 ? "one object" : mode == 1 ? "copies" : "copies made by the threads", log.c_str());
  std::vector<std::unique_ptr<Obj>> copies(nt);
  if constexpr (std::is_copy_constructible_v<Obj>) if (mode == 1) for (auto &x : copies) x = std::make_unique<Obj>(*a);
  std::atomic<uint32_t> ticket{0};
  std::atomic<int> ready{0};
  plan_overlaps = 0;
  std::vector<std::string> died(nt);
  std::vector<std::thread> th;
  for (int k = 0; k < nt; ++k)
    th.emplace_back([&, k] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
      try {
        std::unique_ptr<Obj> mine;
        if constexpr (std::is_copy_constructible_v<Obj>) if (mode == 2) mine = std::make_unique<Obj>(*a);
        Obj const &o = mode == 0 ? *a : mode == 1 ? *copies[k] : *mine;
        for (auto &j : jobs[k]) {
          for (volatile long s = 0; s < j.spin; s = s + 1) {}
          j.begin = ticket.fetch_add(1, std::memory_order_relaxed);
          guarded(ts[j.t], o, j.seed, j.out);
          j.end = ticket.fetch_add(1, std::memory_order_relaxed);
        }
      } catch (std::exception const &e) { died[k] = e.what(); } catch (...) { died[k] = "an exception"; }
    });
  for (auto &t : th) t.join();
  for (auto &d : died) c.check(d.empty(), "a thread stopped: %s", d.c_str());
  auto b = fresh();
  long overlap = 0, n = 0;
  uint64_t order = 0;
  for (int k = 0; k < nt; ++k)
    for (auto &j : jobs[k]) {
      vec ref;
      guarded(ts[j.t], *b, j.seed, ref);
      double s = 1;
      for (auto &x : ref) if (std::isfinite(std::abs(x))) s = std::max(s, std::abs(x));
      ++n;
      c.check(ref.size() == j.out.size(), "%s: %zu values in a thread, %zu alone", ts[j.t].name, j.out.size(), ref.size());
      for (size_t i = 0; i < ref.size(); ++i)
        if (!(std::abs(ref[i] - j.out[i]) <= 1e-8 * s) && !(std::isnan(ref[i].real()) && std::isnan(j.out[i].real()))) c.check(false, "%s: value %zu is (%.15g,%.15g) in a thread, (%.15g,%.15g) alone", ts[j.t].name, i, j.out[i].real(), j.out[i].imag(), ref[i].real(), ref[i].imag());
      for (int q = k + 1; q < nt; ++q) for (auto &l : jobs[q]) if (j.begin < l.end && l.begin < j.end) ++overlap;
      order = vmon::mix(order ^ (uint64_t(j.begin) << 32 | j.end));
    }
  c.check(plan_overlaps == 0, "FFTW plans were created or destroyed by %ld threads at once, which FFTW does not allow", plan_overlaps.load() + 1);
  vmon::count("calls_in_threads", n);
  vmon::count("pairs_of_overlapping_calls", overlap);
  vmon::count("threads", nt);
  if (overlap) c.nontrivial(order); // a distinct interleaving
}

// every process starts with another group
struct group_t { const char *name; long quick, thorough; void (*f)(kase &); };
static void groups(std::vector<group_t> v) {
  auto &s = vmon::S();
  size_t step = std::max<size_t>(1, v.size() / std::max(1l, s.nshards));
  std::rotate(v.begin(), v.begin() + (s.shard * step) % v.size(), v.end());
  for (auto &g : v) vmon::group(g.name, g.quick, g.thorough, g.f);
}

// ---------- FFTW: only execution is thread-safe, unless the planner was made so
static std::atomic<int> planning{0};
static std::atomic<bool> planner_safe{false};
struct planner_guard {
  planner_guard() { planner_calls.fetch_add(1, std::memory_order_relaxed); if (planning.fetch_add(1, std::memory_order_relaxed) > 0 && !planner_safe) plan_overlaps.fetch_add(1, std::memory_order_relaxed); for (volatile int i = 0; i < 4000; i = i + 1) {} std::this_thread::yield(); }
  ~planner_guard() { planning.fetch_sub(1, std::memory_order_relaxed); }
};
template <typename F> static F real_fn(const char *n) { return F(dlsym(RTLD_NEXT, n)); }
#if PART == 2
extern "C" {
fftw_plan fftw_plan_many_dft(int rank, const int *n, int howmany, fftw_complex *in, const int *inembed, int istride, int idist, fftw_complex *out, const int *onembed, int ostride, int odist, int sign, unsigned flags) {
  static auto f = real_fn<fftw_plan (*)(int, const int *, int, fftw_complex *, const int *, int, int, fftw_complex *, const int *, int, int, int, unsigned)>("fftw_plan_many_dft");
  planner_guard g;
  return f(rank, n, howmany, in, inembed, istride, idist, out, onembed, ostride, odist, sign, flags);
}
fftw_plan fftw_plan_dft(int rank, const int *n, fftw_complex *in, fftw_complex *out, int sign, unsigned flags) {
  static auto f = real_fn<fftw_plan (*)(int, const int *, fftw_complex *, fftw_complex *, int, unsigned)>("fftw_plan_dft");
  planner_guard g;
  return f(rank, n, in, out, sign, flags);
}
fftw_plan fftw_plan_dft_1d(int n, fftw_complex *in, fftw_complex *out, int sign, unsigned flags) {
  static auto f = real_fn<fftw_plan (*)(int, fftw_complex *, fftw_complex *, int, unsigned)>("fftw_plan_dft_1d");
  planner_guard g;
  return f(n, in, out, sign, flags);
}
void fftw_destroy_plan(fftw_plan p) {
  static auto f = real_fn<void (*)(fftw_plan)>("fftw_destroy_plan");
  planner_guard g;
  f(p);
}
void fftw_make_planner_thread_safe(void) { planner_safe = true; auto f = real_fn<void (*)()>("fftw_make_planner_thread_safe"); if (f) f(); }
}
#endif
template <typename G> vec data_of(G const &g) { return flat(nda::make_regular(g.data())); }
using tg::scalar_valued; using tg::matrix_valued; using tg::tensor_valued; using tg::prod; using tg::block_gf;

#if PART == 1
// ---------- meshes, points and evaluation
struct bz_points {
  tmesh::brzone m; std::vector<tmesh::brzone::mesh_point_t> p;
  explicit bz_points(kase &k) : m(any_bz(k, 4)) { for (auto x : m) if (p.size() < 4) p.push_back(x); }
  bz_points(bz_points const &x) : m(x.m), p(x.p) {}
};
void points_bz(kase &c) {
  share<bz_points>(c, [](kase &k) { return new bz_points{k}; }, {
    {"value", [](auto &o, kase &k, vec &out) { auto &p = o.p[k.i(0, o.p.size() - 1)]; auto const &v = p.value(); for (int i = 0; i < 3; ++i) push(out, v(i)); }},
    {"component", [](auto &o, kase &k, vec &out) { auto &p = o.p[k.i(0, o.p.size() - 1)]; for (int i = 0; i < 3; ++i) push(out, p[i]); }},
    {"copy", [](auto &o, kase &k, vec &out) { auto p = o.p[k.i(0, o.p.size() - 1)]; for (int i = 0; i < 3; ++i) push(out, p[i]); }},
    {"print", [](auto &o, kase &k, vec &out) { std::ostringstream s; s << o.p[k.i(0, o.p.size() - 1)]; text(out, s.str()); }},
    {"convert", [](auto &o, kase &k, vec &out) { nda::vector<double> v = o.p[k.i(0, o.p.size() - 1)]; push(out, flat(v)); }},
    {"iterate", [](auto &o, kase &, vec &out) { for (auto p : o.m) { push(out, flat(p.value())); push(out, double(p.data_index())); } }},
    {"to_value", [](auto &o, kase &k, vec &out) { auto n = k.i(0, o.m.size() - 1); push(out, flat(o.m.to_value(o.m.to_index(n)))); push(out, flat(o.m[n].value())); }},
    {"closest", [](auto &o, kase &k, vec &out) { auto n = k.i(0, o.m.size() - 1); nda::vector<double> v = o.m.to_value(o.m.to_index(n)); push(out, double(o.m.to_data_index(closest_mesh_pt(v)))); }},
    {"arithmetic", [](auto &o, kase &k, vec &out) { auto &p = o.p[k.i(0, o.p.size() - 1)], &q = o.p[k.i(0, o.p.size() - 1)]; push(out, double(o.m.to_data_index(p + q))); push(out, double(o.m.to_data_index(-p))); push(out, double(o.m.mesh_hash() == p.mesh_hash())); }}});
}
struct cl_points {
  tmesh::cyclat m; std::vector<tmesh::cyclat::mesh_point_t> p; std::vector<lat::bravais_lattice::point_t> r;
  explicit cl_points(kase &k) : m(any_cl(k, 4)) { for (auto x : m) if (p.size() < 4) { p.push_back(x); r.push_back(lat::bravais_lattice::point_t{x.index(), &m.lattice()}); } }
  cl_points(cl_points const &x) : m(x.m), p(x.p), r(x.r) {}
};
void points_cl(kase &c) {
  share<cl_points>(c, [](kase &k) { return new cl_points{k}; }, {
    {"lattice point", [](auto &o, kase &k, vec &out) { auto &p = o.r[k.i(0, o.r.size() - 1)]; for (int i = 0; i < 3; ++i) push(out, p[i]); }},
    {"copy of a lattice point", [](auto &o, kase &k, vec &out) { auto p = o.r[k.i(0, o.r.size() - 1)]; for (int i = 0; i < 3; ++i) push(out, p[i]); }},
    {"sum of lattice points", [](auto &o, kase &k, vec &out) { auto p = o.r[k.i(0, o.r.size() - 1)] + o.r[k.i(0, o.r.size() - 1)]; for (int i = 0; i < 3; ++i) push(out, p[i]); }},
    {"print", [](auto &o, kase &k, vec &out) { std::ostringstream s; s << o.r[k.i(0, o.r.size() - 1)]; text(out, s.str()); }},
    {"mesh point", [](auto &o, kase &k, vec &out) { auto &p = o.p[k.i(0, o.p.size() - 1)]; for (auto x : p.value().index()) push(out, double(x)); for (int i = 0; i < 3; ++i) push(out, p.value()[i]); }},
    {"iterate", [](auto &o, kase &, vec &out) { for (auto p : o.m) { push(out, double(p.data_index())); push(out, p.value()[0]); } }},
    {"to_value", [](auto &o, kase &k, vec &out) { auto n = k.i(0, o.m.size() - 1); auto v = o.m.to_value(o.m.to_index(n)); push(out, v[1]); push(out, double(o.m.to_data_index(o.m.index_modulo(v.index())))); }},
    {"lattice", [](auto &o, kase &, vec &out) { push(out, flat(o.m.lattice().units())); push(out, double(o.m.lattice().ndim())); }}});
}
// common tasks on a const Green function
template <typename G> tasks<G> general() {
  return {
    {"copy", [](G const &g, kase &k, vec &out) { auto h = g; h *= k.r(1, 2); push(out, data_of(h)); }},
    {"sum", [](G const &g, kase &k, vec &out) { G h{g + k.r(1, 2) * g}; push(out, data_of(h)); }},
    {"view", [](G const &g, kase &, vec &out) { auto v = g(); push(out, data_of(v)); push(out, double(v.mesh() == g.mesh())); }},
    {"assign", [](G const &g, kase &, vec &out) { G h{}; h = g; h() = g() * 2; h() += g; push(out, data_of(h)); }},
    {"real part", [](G const &g, kase &, vec &out) { push(out, double(tg::is_gf_real(g))); auto h = tg::real(g); push(out, data_of(h)); auto h2 = tg::imag(g); push(out, data_of(h2)); }},
    {"print", [](G const &g, kase &, vec &out) { std::ostringstream s; s << g.mesh(); text(out, s.str()); }},
    {"points", [](G const &g, kase &, vec &out) { for (auto m : g.mesh()) push(out, flat(nda::make_regular(g[m]))); }},
    {"loop", [](G const &g, kase &k, vec &out) { auto h = g; double x = k.r(); for (auto m : h.mesh()) h[m] = x * g[m]; push(out, data_of(h)); }}};
}
template <typename G> tasks<G> with(tasks<G> t) { auto r = general<G>(); for (auto &x : t) r.push_back(x); return r; }
template <typename G> void one_gf(kase &c, std::function<G(kase &)> make, tasks<G> t) { share<G>(c, [&](kase &k) { return new G(make(k)); }, with<G>(t)); }
void gf_freq(kase &c) {
  using G = gf<tmesh::imfreq, matrix_valued>;
  one_gf<G>(c, [](kase &k) { return random_gf<matrix_valued>(k, any_imfreq(k)); }, {
    {"evaluate", [](G const &g, kase &k, vec &out) { push(out, flat(nda::make_regular(g(k.i(g.mesh().first_index(), g.mesh().last_index()))))); push(out, flat(nda::make_regular(g(matsubara_freq{k.i(g.mesh().first_index(), g.mesh().last_index()), g.mesh().beta(), g.mesh().statistic()})))); }},
    {"inverse", [](G const &g, kase &, vec &out) { G h = tg::inverse(g); push(out, data_of(h)); }},
    {"product", [](G const &g, kase &, vec &out) { G h{g * g}; push(out, data_of(h)); }},
    {"transpose", [](G const &g, kase &, vec &out) { auto q = g; auto h = tg::transpose(q()); push(out, data_of(h)); auto d = tg::conj(g); push(out, data_of(d)); }},
    {"slice", [](G const &g, kase &, vec &out) { auto s = tg::slice_target(g, nda::range(0, 1), nda::range(0, 1)); push(out, data_of(s)); auto z = tg::slice_target_to_scalar(g, 0, 0); push(out, data_of(z)); }},
    {"positive", [](G const &g, kase &, vec &out) { auto h = tg::positive_freq_view(g()); push(out, data_of(h)); }},
    {"symmetrized", [](G const &g, kase &, vec &out) { push(out, double(tg::is_gf_hermitian(g))); if (!g.mesh().positive_only()) { auto h = tg::make_hermitian(g); push(out, data_of(h)); auto r = tg::make_real_in_tau(g); push(out, data_of(r)); } }}});
}
void gf_time(kase &c) {
  using G = gf<tmesh::imtime, matrix_valued>;
  one_gf<G>(c, [](kase &k) { return random_gf<matrix_valued>(k, any_imtime(k)); }, {
    {"evaluate", [](G const &g, kase &k, vec &out) { for (int i = 0; i < 4; ++i) push(out, flat(nda::make_regular(g(k.r() * g.mesh().beta())))); }},
    {"closest", [](G const &g, kase &k, vec &out) { push(out, flat(nda::make_regular(g[closest_mesh_pt(k.r() * g.mesh().beta())]))); }},
    {"rebin", [](G const &g, kase &k, vec &out) { auto h = tg::rebinning_tau(g, k.i(2, g.mesh().size())); push(out, data_of(h)); }}});
}
void gf_real(kase &c) {
  using G = gf<tmesh::refreq, tensor_valued<3>>;
  one_gf<G>(c, [](kase &k) { return random_gf<tensor_valued<3>>(k, any_refreq(k)); }, {
    {"evaluate", [](G const &g, kase &k, vec &out) { for (int i = 0; i < 4; ++i) push(out, flat(nda::make_regular(g(k.r(g.mesh().w_min(), g.mesh().w_max()))))); }},
    {"closest", [](G const &g, kase &k, vec &out) { push(out, flat(nda::make_regular(g[closest_mesh_pt(k.r(g.mesh().w_min(), g.mesh().w_max()))]))); }}});
}
void gf_k(kase &c) {
  using G = gf<tmesh::brzone, matrix_valued>;
  one_gf<G>(c, [](kase &k) { return random_gf<matrix_valued>(k, any_bz(k, 4)); }, {
    {"evaluate", [](G const &g, kase &k, vec &out) { nda::vector<double> v{k.r(-4, 4), k.r(-4, 4), k.r(-4, 4)}; push(out, flat(nda::make_regular(g(v)))); }},
    {"closest", [](G const &g, kase &k, vec &out) { nda::vector<double> v = g.mesh().to_value(g.mesh().to_index(k.i(0, g.mesh().size() - 1))); push(out, flat(nda::make_regular(g[closest_mesh_pt(v)]))); }},
    {"at points", [](G const &g, kase &, vec &out) { for (auto k : g.mesh()) { push(out, flat(nda::make_regular(g(k)))); push(out, flat(nda::make_regular(g(-k)))); } }}});
}
void gf_r(kase &c) {
  using G = gf<tmesh::cyclat, scalar_valued>;
  one_gf<G>(c, [](kase &k) { return random_gf<scalar_valued>(k, any_cl(k, 4)); }, {
    {"evaluate", [](G const &g, kase &k, vec &out) { auto p = *g.mesh().begin(); push(out, g(p)); push(out, g[p]); idx3 x{k.i(-9, 9), k.i(-9, 9), k.i(-9, 9)}; push(out, g[g.mesh().index_modulo(x)]); }}});
}
void gf_prod(kase &c) {
  using G = gf<prod<tmesh::brzone, tmesh::imfreq>, matrix_valued>;
  one_gf<G>(c, [](kase &k) { return random_gf<matrix_valued>(k, prod{any_bz(k, 3), tmesh::imfreq{2, Fermion, 3}}); }, {
    {"evaluate", [](G const &g, kase &k, vec &out) { nda::vector<double> v{k.r(-4, 4), k.r(-4, 4), k.r(-4, 4)}; push(out, flat(nda::make_regular(g(v, k.i(-3, 2))))); }},
    {"one variable", [](G const &g, kase &k, vec &out) { auto h = g[all, k.i(-3, 2)]; push(out, data_of(h)); auto p = *std::get<0>(g.mesh().components()).begin(); auto q = g[p, all]; push(out, data_of(q)); }},
    {"sum over k", [](G const &g, kase &, vec &out) { nda::matrix<cd> s(g.target_shape()); s() = 0; for (auto [k, w] : g.mesh()) s += g[k, w] * w; push(out, flat(s)); }}});
}
void gf_block(kase &c) {
  using G = block_gf<tmesh::imfreq, matrix_valued>;
  share<G>(c, [](kase &k) { auto m = any_imfreq(k); std::vector<gf<tmesh::imfreq, matrix_valued>> v; std::vector<std::string> n; for (long b = k.i(1, 3); b > 0; --b) { v.push_back(random_gf<matrix_valued>(k, m)); n.push_back("b" + std::to_string(b)); } return new G{n, v}; }, {
    {"blocks", [](G const &g, kase &, vec &out) { for (auto const &x : g) push(out, data_of(x)); for (auto &n : g.block_names()) text(out, n); }},
    {"copy", [](G const &g, kase &, vec &out) { auto h = g; h *= 2; for (auto const &x : h) push(out, data_of(x)); }},
    {"sum", [](G const &g, kase &, vec &out) { G h{g + g}; for (auto const &x : h) push(out, data_of(x)); }},
    {"map", [](G const &g, kase &, vec &out) { auto h = tg::map_block_gf([](auto const &x) { return tg::inverse(x); }, g); for (auto const &x : h) push(out, data_of(x)); }},
    {"view", [](G const &g, kase &, vec &out) { auto v = g(); for (int b = 0; b < v.size(); ++b) push(out, data_of(v[b])); }}});
}
void run() {
  groups({{"points_bz", 120, 2000, points_bz},
          {"points_cl", 120, 2000, points_cl},
          {"gf_freq", 60, 1000, gf_freq},
          {"gf_time", 60, 1000, gf_time},
          {"gf_real", 60, 1000, gf_real},
          {"gf_k", 60, 1000, gf_k},
          {"gf_r", 60, 1000, gf_r},
          {"gf_prod", 60, 1000, gf_prod},
          {"gf_block", 60, 1000, gf_block}});
}
#endif

#if PART == 2
#include <gmp.h>
extern "C" void __gmpf_set_default_prec(mp_bitcnt_t n) { // leaves time to other threads
  static auto f = real_fn<void (*)(mp_bitcnt_t)>("__gmpf_set_default_prec");
  f(n);
  for (volatile int i = 0; i < 3000; i = i + 1) {}
  std::this_thread::yield();
}
#include <triqs/gfs/transform/pade.hpp>
#include <triqs/utility/pade_approximants.hpp>
// ---------- transforms and tail fits: the mesh caches what its fits need
using tmesh::imfreq; using tmesh::imtime; using tmesh::refreq; using tmesh::retime; using tmesh::legendre; using tmesh::dlr;
void tails(kase &c) {
  using G = gf<imfreq, matrix_valued>;
  share<G>(c, [](kase &k) {
    double beta = k.pick(std::vector<double>{2, 5, 10});
    imfreq m{beta, Fermion, k.i(60, 120)};
    if (k.chance(0.3)) m.set_tail_fit_parameters(k.r(0.2, 0.5), 20, k.chance(0.5) ? std::optional<int>{int(k.i(3, 5))} : std::optional<int>{});
    auto *g = new G{m, {2, 2}};
    std::vector<cd> e{k.r(-1, 1), k.r(-1, 1)}; // hermitian weights, sum 1
    double t = k.r(0.2, 1.3), co = std::cos(t), si = std::sin(t);
    for (auto w : g->mesh()) {
      cd a = 1. / (cd(w) - e[0]), b = 1. / (cd(w) - e[1]);
      (*g)[w](0, 0) = co * co * a + si * si * b; (*g)[w](1, 1) = si * si * a + co * co * b; (*g)[w](0, 1) = (*g)[w](1, 0) = co * si * (a - b);
    }
    return g; }, {
    {"fit_tail", [](G const &g, kase &, vec &out) { auto [t, e] = tg::fit_tail(g); push(out, flat(t(nda::range(0, 3), nda::ellipsis{}))); }},
    {"fit_tail with moments", [](G const &g, kase &k, vec &out) { nda::array<cd, 3> km(k.i(1, 2), 2, 2); km() = 0; if (km.extent(0) > 1) { km(1, 0, 0) = 1; km(1, 1, 1) = 1; } auto [t, e] = tg::fit_tail(g, km); push(out, flat(t(nda::range(0, 3), nda::ellipsis{}))); }},
    {"fit_hermitian_tail", [](G const &g, kase &, vec &out) { auto [t, e] = tg::fit_hermitian_tail(g); push(out, flat(t(nda::range(0, 3), nda::ellipsis{}))); }},
    {"density", [](G const &g, kase &, vec &out) { push(out, flat(tg::density(g))); }},
    {"fit of another function", [](G const &g, kase &, vec &out) { G h = g; h *= 2; auto [t, e] = tg::fit_tail(h); push(out, flat(t(nda::range(0, 3), nda::ellipsis{}))); }},
    {"fourier", [](G const &g, kase &, vec &out) { auto h = tg::make_gf_from_fourier(g, tmesh::make_adjoint_mesh(g.mesh(), 6 * g.mesh().last_index() + 13)); push(out, data_of(h)); }},
    {"back and forth", [](G const &g, kase &k, vec &out) { auto h = tg::make_gf_from_fourier(g); auto b = tg::make_gf_from_fourier(h, imfreq{g.mesh().beta(), Fermion, k.i(3, 9)}); push(out, data_of(b)); }},
    {"own mesh", [](G const &g, kase &, vec &out) { G h{imfreq{g.mesh().beta(), Fermion, 80}, {2, 2}}; for (auto w : h.mesh()) { h[w] = 0; h[w](0, 0) = 1. / (cd(w) - 0.3); h[w](1, 1) = 1. / (cd(w) + 0.7); } auto [t, e] = tg::fit_tail(h); push(out, flat(t(nda::range(0, 3), nda::ellipsis{}))); push(out, flat(tg::density(h))); }}});
}
void fourier_time(kase &c) {
  using G = gf<imtime, matrix_valued>;
  share<G>(c, [](kase &k) { double beta = 5; imtime m{beta, Fermion, 61}; auto *g = new G{m, {2, 2}}; auto p = some_poles(k, 4, 2, false, false); fill(*g, [&](auto t) { return p.tau(double(t), beta, Fermion); }); return g; }, {
    {"fourier", [](G const &g, kase &k, vec &out) { auto h = tg::make_gf_from_fourier(g, imfreq{g.mesh().beta(), Fermion, k.i(2, 9)}); push(out, data_of(h)); }},
    {"default fourier", [](G const &g, kase &, vec &out) { auto h = tg::make_gf_from_fourier(g); push(out, data_of(h)); }},
    {"assigned", [](G const &g, kase &k, vec &out) { gf<imfreq, matrix_valued> h{imfreq{g.mesh().beta(), Fermion, k.i(2, 9)}, {2, 2}}; h() = tg::fourier(g); push(out, data_of(h)); }},
    {"legendre", [](G const &g, kase &k, vec &out) { gf<legendre, matrix_valued> h{legendre{g.mesh().beta(), Fermion, k.i(2, 12)}, {2, 2}}; h() = tg::imtime_to_legendre(g); push(out, data_of(h)); gf<imtime, matrix_valued> q{imtime{g.mesh().beta(), Fermion, 7}, {2, 2}}; q() = tg::legendre_to_imtime(h); push(out, data_of(q)); gf<imfreq, matrix_valued> w{imfreq{g.mesh().beta(), Fermion, 5}, {2, 2}}; w() = tg::legendre_to_imfreq(h); push(out, data_of(w)); push(out, flat(tg::density(h))); }}});
}
void fourier_real(kase &c) {
  using G = gf<retime, scalar_valued>;
  share<G>(c, [](kase &k) { retime m{-10, 10, k.i(11, 61)}; auto *g = new G{m}; double a = k.r(0.3, 1), b = k.r(-1, 1); for (auto t : g->mesh()) (*g)[t] = std::exp(-a * double(t) * double(t)) * std::exp(cd(0, b) * double(t)); return g; }, {
    {"fourier", [](G const &g, kase &, vec &out) { auto h = tg::make_gf_from_fourier(g); push(out, data_of(h)); auto b = tg::make_gf_from_fourier(h); push(out, data_of(b)); }},
    {"evaluate", [](G const &g, kase &k, vec &out) { push(out, g(k.r(-10, 10))); }},
    {"tail in frequency", [](G const &g, kase &k, vec &out) { gf<refreq, scalar_valued> h{refreq{-40, 40, 401}}; double e = k.r(-1, 1); for (auto w : h.mesh()) h[w] = 1. / (cd(w, 0.5) - e); auto [t, er] = tg::fit_tail(h); push(out, flat(t(nda::range(0, 3)))); }}});
}
void fourier_k(kase &c) {
  using G = gf<prod<tmesh::brzone, imfreq>, scalar_valued>;
  share<G>(c, [](kase &k) { auto bz = any_bz(k, 4); auto *g = new G{{bz, imfreq{3, Fermion, 30}}}; for (auto [q, w] : g->mesh()) (*g)[q, w] = 1. / (cd(w) - 0.4 * std::cos(q.index()[0] * 1.1)); return g; }, {
    {"k to r", [](G const &g, kase &, vec &out) { auto h = tg::make_gf_from_fourier<0>(g); push(out, data_of(h)); }},
    {"w to tau", [](G const &g, kase &, vec &out) { auto h = tg::make_gf_from_fourier<1>(g); push(out, data_of(h)); }},
    {"both", [](G const &g, kase &, vec &out) { auto h = tg::make_gf_from_fourier<0, 1>(g); push(out, data_of(h)); }},
    {"tail", [](G const &g, kase &, vec &out) { auto [t, e] = tg::fit_tail<1>(g); push(out, flat(t(nda::range(0, 3), nda::ellipsis{}))); }},
    {"one function", [](G const &g, kase &, vec &out) { auto s = g[*std::get<0>(g.mesh().components()).begin(), all]; auto [t, e] = tg::fit_tail(s); push(out, flat(t(nda::range(0, 3)))); }}});
}
void dlr_all(kase &c) {
  using G = gf<dlr, scalar_valued>;
  share<G>(c, [](kase &k) { dlr m{4, Fermion, 5, 1e-8}; auto *g = new G{m}; randomize(k, g->data()); return g; }, {
    {"evaluate in time", [](G const &g, kase &k, vec &out) { push(out, g(k.r(0, 4))); }},
    {"evaluate in frequency", [](G const &g, kase &k, vec &out) { push(out, g(matsubara_freq{k.i(-20, 20), 4, Fermion})); }},
    {"nodes", [](G const &g, kase &, vec &out) { auto h = tg::make_gf_dlr_imtime(g); push(out, data_of(h)); auto f = tg::make_gf_dlr_imfreq(g); push(out, data_of(f)); }},
    {"and back", [](G const &g, kase &, vec &out) { auto h = tg::make_gf_dlr(tg::make_gf_dlr_imtime(g)); push(out, h(1.3)); push(out, g(1.3)); }},
    {"functions", [](G const &g, kase &, vec &out) { auto h = tg::make_gf_imtime(g, 9); push(out, data_of(h)); auto f = tg::make_gf_imfreq(g, 5); push(out, data_of(f)); push(out, tg::density(g)); }},
    {"fit", [](G const &g, kase &, vec &out) { auto h = tg::fit_gf_dlr(tg::make_gf_imtime(g, 41), 5., 1e-8); push(out, data_of(h).size() * 1.); }},
    {"own mesh", [](G const &, kase &k, vec &out) { dlr m{k.pick(std::vector<double>{1, 3}), Fermion, 4, 1e-6}; for (auto p : m) push(out, double(p.value())); tmesh::dlr_imfreq f{m}; push(out, double(f.size())); }}});
}
void pade_all(kase &c) {
  using G = gf<imfreq, scalar_valued>;
  auto prec = mpf_get_default_prec();
  struct restore { mp_bitcnt_t p; ~restore() { mpf_set_default_prec(p); } } r{prec};
  share<G>(c, [](kase &k) { auto *g = new G{imfreq{10, Fermion, 40}}; double e = k.r(-1, 1), a = k.r(0.2, 0.8); for (auto w : g->mesh()) (*g)[w] = a / (cd(w) - e) + (1 - a) / (cd(w) + 0.7 * e + 0.1) ; return g; }, {
    {"pade", [](G const &g, kase &, vec &out) { gf<refreq, scalar_valued> r{refreq{-3, 3, 11}}; tg::pade(r, g, 20, 0.2); push(out, data_of(r)); }},
    {"approximant", [](G const &g, kase &k, vec &out) { // the precision of the numbers shows in the coefficients of a function which is no sum of poles
      int n = int(k.i(24, 36)); nda::vector<cd> z(n), u(n); for (int i = 0; i < n; ++i) { z(i) = cd(0, (2 * i + 1) * pi / 10); u(i) = g.data()(40 + i % 40) + std::exp(-0.1 * i) * 0.3; }
      utility::pade_approximant p{z, u}; for (int i = 0; i < 5; ++i) push(out, p(cd(-2 + i, 0.7))); }},
    {"refused", [](G const &g, kase &, vec &out) { nda::vector<cd> z(3), u(3); z = cd(1, 1); u = g.data()(0); try { utility::pade_approximant p{z, u}; push(out, p(2)); } catch (triqs::runtime_error const &) { push(out, 17.); } }}});
  c.check(mpf_get_default_prec() == prec, "the default precision of GMP was %lu and is %lu after the Pade approximants", prec, mpf_get_default_prec());
}
void run() {
  groups({{"tails", 100, 2000, tails},
          {"fourier_time", 50, 1000, fourier_time},
          {"fourier_real", 60, 1000, fourier_real},
          {"fourier_k", 50, 1000, fourier_k},
          {"dlr_all", 40, 600, dlr_all},
          {"pade_all", 60, 1000, pade_all}});
  vmon::count("fftw_planner_calls", planner_calls.load());
}
#endif

#if PART == 3
#include "d_rig.hpp"
#define FOCK_WITH_TRIQS
#include "a_rig.hpp"
#include <triqs/hilbert_space/space_partition.hpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
#include <triqs/hilbert_space/state.hpp>
// ---------- operators, Hilbert spaces, atoms, determinants
using op_c = triqs::operators::many_body_operator_generic<cd>;
using op_r = triqs::operators::many_body_operator_generic<double>;
static std::string str(op_c const &o) { std::ostringstream s; s.precision(12); s << o; return s.str(); }
static void push_op(vec &out, op_c const &o) { for (auto const &x : o) { uint64_t h = vmon::hash_str("m"); for (auto const &q : x.monomial) { std::ostringstream s; s << q.dagger; for (auto const &i : q.indices) s << i << ","; h = vmon::mix(h ^ vmon::hash_str(s.str())); } out.emplace_back(double(h >> 40), 0); out.emplace_back(x.coef); } }
static op_c random_op(kase &k, int n, long terms) {
  op_c o{};
  for (; terms > 0; --terms) {
    op_c t{cd(k.r(-1, 1), k.r(-1, 1))};
    for (long u = k.i(1, 3); u > 0; --u) t *= op_c::make_canonical(true, {"a", int(k.i(0, n - 1))}) * op_c::make_canonical(false, {"a", int(k.i(0, n - 1))});
    o += t;
  }
  return o;
}
void operators_(kase &c) {
  share<op_c>(c, [](kase &k) { return new op_c{random_op(k, 4, k.i(2, 8))}; }, {
    {"product", [](op_c const &o, kase &, vec &out) { push_op(out, o * o); }},
    {"commutator", [](op_c const &o, kase &k, vec &out) { auto p = random_op(k, 4, 3); push_op(out, o * p - p * o); }},
    {"dagger", [](op_c const &o, kase &, vec &out) { push_op(out, dagger(o)); push_op(out, o + dagger(o)); }},
    {"scaled", [](op_c const &o, kase &k, vec &out) { auto p = o; p *= k.r(1, 2); p += o; p -= 0.5 * o; push_op(out, p); }},
    {"print", [](op_c const &o, kase &, vec &out) { text(out, str(o)); push(out, double(o.is_zero())); push(out, double(o == dagger(o))); }},
    {"parts", [](op_c const &o, kase &, vec &out) { push_op(out, op_c(real(o))); push_op(out, op_c(imag(o))); }},
    {"own", [](op_c const &, kase &k, vec &out) { push_op(out, random_op(k, 3, 6)); }}});
}
struct space {
  hs::fundamental_operator_set fops; hs::hilbert_space H; hs::sub_hilbert_space P; op_c o;
  using op_t = hs::imperative_operator<hs::hilbert_space, cd, false>;
  using st_t = hs::state<hs::hilbert_space, cd, true>;
  std::unique_ptr<op_t> op; std::unique_ptr<st_t> st;
  explicit space(kase &k) : P(0) {
    int n = int(k.i(2, 5));
    for (int i = 0; i < n; ++i) fops.insert("a", i);
    H = hs::hilbert_space(fops);
    o = random_op(k, n, 5);
    o += dagger(o);
    for (uint64_t f = 0; f < H.size(); ++f) if (k.chance(0.5)) P.add_fock_state(f);
    op = std::make_unique<op_t>(o, fops);
    st = std::make_unique<st_t>(H);
    for (int i = 0; i < 4; ++i) (*st)(k.i(0, H.size() - 1)) = cd(k.r(-1, 1), k.r(-1, 1));
  }
  template <typename S> static void push_state(vec &out, S const &s) { std::map<long, cd> m; foreach (s, [&](int i, auto a) { m[i] = a; }); for (auto &[i, a] : m) if (std::abs(a) > 1e-10) { push(out, double(i)); push(out, a); } }
};
void hilbert(kase &c) {
  share<space>(c, [](kase &k) { return new space{k}; }, {
    {"act", [](space const &s, kase &, vec &out) { auto r = (*s.op)(*s.st); space::push_state(out, (*s.op)(r)); }},
    {"act on a basis state", [](space const &s, kase &k, vec &out) { space::st_t b(s.H, uint64_t(k.i(0, s.H.size() - 1))); space::push_state(out, (*s.op)(b)); }},
    {"linear", [](space const &s, kase &k, vec &out) { auto r = *s.st * k.r() + *s.st; r -= 0.3 * *s.st; space::push_state(out, r); push(out, dot_product(*s.st, r)); }},
    {"new operator", [](space const &s, kase &k, vec &out) { space::op_t p(random_op(k, 2, 3), s.fops); space::push_state(out, p(*s.st)); }},
    {"indices", [](space const &s, kase &, vec &out) { for (auto const &i : s.fops) push(out, double(i.linear_index)); push(out, double(s.fops.has_indices({"a", 1}))); push(out, double(s.H.get_state_index(1))); for (auto f : s.P.get_all_fock_states()) push(out, double(s.P.get_state_index(f))); }},
    {"projection", [](space const &s, kase &, vec &out) { auto p = project<hs::state<hs::sub_hilbert_space, cd, true>>(*s.st, s.P); space::push_state(out, p); }},
    {"partition", [](space const &s, kase &, vec &out) { hs::space_partition<space::st_t, space::op_t> sp(*s.st, *s.op, false); push(out, double(sp.n_subspaces())); for (long i = 0; i < long(s.H.size()); ++i) push(out, double(sp.lookup_basis_state(i))); }}});
}
using atom_t = ad::atom_diag<false>;
struct atom_obj { atom_t a; tg::gf_struct_t st; long n; };
void atoms(kase &c) {
  share<atom_obj>(c, [](kase &k) {
    int n = int(k.i(2, 4));
    op_r h{};
    hs::fundamental_operator_set f;
    auto cd_ = [](int i) { return op_r::make_canonical(true, {"a", i}); }; auto c_ = [](int i) { return op_r::make_canonical(false, {"a", i}); };
    for (int i = 0; i < n; ++i) { f.insert("a", i); h += k.r(-1, 1) * (cd_(i) * c_(i)); for (int j = 0; j < i; ++j) { h += k.r(0, 2) * (cd_(i) * c_(i) * cd_(j) * c_(j)); if (k.chance(0.5)) { double t = k.r(); h += t * (cd_(i) * c_(j) + cd_(j) * c_(i)); } } }
    return new atom_obj{atom_t{h, f}, {{"a", n}}, n}; }, {
    {"energies", [](atom_obj const &o, kase &, vec &out) { for (auto &v : o.a.get_energies()) for (double e : v) push(out, e); push(out, o.a.get_gs_energy()); push(out, double(o.a.n_subspaces())); }},
    {"matrix elements", [](atom_obj const &o, kase &k, vec &out) { auto m = o.a.get_op_mat(op_r::make_canonical(true, {"a", int(k.i(0, o.n - 1))}) * op_r::make_canonical(false, {"a", int(k.i(0, o.n - 1))})); push(out, double(m.n_blocks())); for (auto x : m.connection) push(out, double(x)); for (auto const &b : m.block_mat) { double s = 0; for (auto x : b) s += x * x; push(out, s); } }},
    {"thermal", [](atom_obj const &o, kase &k, vec &out) { double beta = k.r(0.1, 5); push(out, ad::partition_function(o.a, beta)); auto rho = ad::atomic_density_matrix(o.a, beta); push(out, ad::trace_rho_op(rho, op_r::make_canonical(true, {"a", 0}) * op_r::make_canonical(false, {"a", 0}), o.a)); }},
    {"green function", [](atom_obj const &o, kase &k, vec &out) { double beta = k.r(0.5, 5); auto g = ad::atomic_g_tau(o.a, beta, o.st, 5); push(out, data_of(g[0])); auto w = ad::atomic_g_iw(o.a, beta, o.st, 3); push(out, data_of(w[0])); }},
    {"legendre and real frequency", [](atom_obj const &o, kase &k, vec &out) { double beta = k.r(0.5, 5); auto g = ad::atomic_g_l(o.a, beta, o.st, 4); push(out, data_of(g[0])); auto w = ad::atomic_g_w(o.a, beta, o.st, {-2., 2.}, 5, 0.2); push(out, data_of(w[0])); }},
    {"numbers", [](atom_obj const &o, kase &, vec &out) { op_r n{}; for (int i = 0; i < o.n; ++i) n += op_r::make_canonical(true, {"a", i}) * op_r::make_canonical(false, {"a", i}); for (auto &v : ad::quantum_number_eigenvalues(n, o.a)) for (auto x : v) push(out, double(x)); }},
    {"act", [](atom_obj const &o, kase &k, vec &out) { auto st = ad::act(op_r::make_canonical(true, {"a", int(k.i(0, o.n - 1))}), o.a.get_vacuum_state(), o.a); double s = 0; for (auto x : st) s += std::abs(x); push(out, s); }},
    {"print", [](atom_obj const &o, kase &, vec &out) { std::ostringstream s; s << o.a; push(out, double(s.str().size() > 0)); }},
    {"own", [](atom_obj const &o, kase &k, vec &out) { double u = k.r(1, 2); atom_t a{u * (op_r::make_canonical(true, {"a", 0}) * op_r::make_canonical(false, {"a", 0})), o.a.get_fops()}; for (auto &v : a.get_energies()) for (double e : v) push(out, e); }}});
}
void dets(kase &c) {
  using D = triqs::det_manip::det_manip<drig::k_cplx>;
  share<D>(c, [](kase &k) { auto *d = new D{drig::k_cplx{k.u64(), 0.1}, k.i(1, 12)}; for (long n = k.i(1, 6); n > 0; --n) { long s = d->size(); auto r = d->try_insert(k.i(0, s), k.i(0, s), drig::k_cplx::X(k), drig::k_cplx::Y(k)); if (std::abs(r) > 1e-3) d->complete_operation(); else d->reject_last_try(); } return d; }, {
    {"read", [](D const &d, kase &, vec &out) { push(out, flat(d.inverse_matrix())); push(out, flat(d.matrix())); push(out, double(d.size())); for (double x : d.get_x()) push(out, x); for (long y : d.get_y()) push(out, double(y)); }},
    {"elements", [](D const &d, kase &k, vec &out) { if (d.size()) { long i = k.i(0, d.size() - 1), j = k.i(0, d.size() - 1); push(out, d.inverse_matrix(int(i), int(j))); push(out, d.get_x(i)); push(out, double(d.get_y(j))); } }},
    {"own updates", [](D const &d, kase &k, vec &out) { D e = d; for (long n = k.i(2, 8); n > 0; --n) { long s = e.size(); cd r; if (s > 0 && k.chance(0.4)) r = e.try_remove(k.i(0, s - 1), k.i(0, s - 1)); else r = e.try_insert(k.i(0, s), k.i(0, s), drig::k_cplx::X(k), drig::k_cplx::Y(k)); if (std::abs(r) > 1e-2 && std::abs(r) < 1e2) { e.complete_operation(); push(out, r); } else e.reject_last_try(); } push(out, double(e.size())); }},
    {"own object", [](D const &, kase &k, vec &out) { D e{drig::k_cplx{k.u64(), 0.}, 2}; for (int n = 0; n < 4; ++n) push(out, e.insert(0, 0, drig::k_cplx::X(k), drig::k_cplx::Y(k))); push(out, e.determinant()); }}});
}
void run() {
  groups({{"operators", 100, 1500, operators_},
          {"hilbert", 100, 1500, hilbert},
          {"atoms", 80, 1000, atoms},
          {"dets", 80, 1000, dets}});
}
#endif

#if PART == 4
#include <triqs/lattice/tight_binding.hpp>
#include <triqs/lattice/grid_generator.hpp>
#include <triqs/stat/accumulator.hpp>
#include <triqs/stat/jackknife.hpp>
#include <triqs/stat/histograms.hpp>
#include <triqs/mc_tools/random_generator.hpp>
#include <triqs/mc_tools/mc_move_set.hpp>
#include <triqs/gfs/gf_sym_grp.hpp>
#include <triqs/utility/legendre.hpp>
#include <triqs/utility/time_pt.hpp>
#include <triqs/utility/exceptions.hpp>
// ---------- lattices, statistics, random numbers, symmetries
namespace triqs::lattice {
  nda::array<cd, 3> hopping_stack(tight_binding const &TB, nda::array_const_view<double, 2> k_stack);
  nda::array<double, 2> energies_on_bz_path(tight_binding const &TB, k_t const &K1, k_t const &K2, int n_pts);
} // namespace triqs::lattice
void bands(kase &c) {
  using TB = lat::tight_binding;
  share<TB>(c, [](kase &k) {
    int d = int(k.i(1, 3)), n = int(k.i(1, 2));
    nda::matrix<double> u(d, d); u() = 0; for (int i = 0; i < d; ++i) u(i, i) = k.r(0.5, 2);
    std::vector<nda::vector<double>> pos(n, nda::vector<double>{0.1, 0.2, 0.3});
    std::vector<nda::vector<long>> R; std::vector<nda::matrix<cd>> t;
    for (int i = 0; i < d; ++i) for (int s : {-1, 1}) { nda::vector<long> r(d); r() = 0; r(i) = s; R.push_back(r); nda::matrix<cd> m(n, n); m() = 0; for (int q = 0; q < n; ++q) m(q, q) = 0.3 + 0.1 * i; t.push_back(m); }
    return new TB{lat::bravais_lattice{u, pos}, R, t}; }, {
    {"fourier", [](TB const &o, kase &k, vec &out) { nda::vector<double> q(o.lattice().ndim()); for (auto &x : q) x = k.r(); push(out, flat(o.fourier(q))); push(out, flat(o.dispersion(q))); }},
    {"mesh", [](TB const &o, kase &k, vec &out) { auto h = o.fourier(int(k.i(1, 4))); push(out, data_of(h)); auto e = o.dispersion(int(k.i(1, 4))); push(out, data_of(e)); }},
    {"given mesh", [](TB const &o, kase &, vec &out) { tmesh::brzone m{lat::brillouin_zone{o.lattice()}, 3}; auto h = o.fourier(m); push(out, data_of(h)); }},
    {"dos", [](TB const &o, kase &, vec &out) { auto [e, r] = lat::dos(o, 5, 6); push(out, flat(e)); push(out, flat(r)); }},
    {"path", [](TB const &o, kase &k, vec &out) { nda::vector<double> a(o.lattice().ndim()), b(o.lattice().ndim()); for (auto &x : a) x = k.r(); for (auto &x : b) x = k.r(); push(out, flat(lat::energies_on_bz_path(o, a, b, 4))); }},
    {"copy", [](TB const &o, kase &, vec &out) { auto p = o; push(out, double(p == o)); push(out, double(p.n_orbitals())); for (auto const &m : p.overlap_mat_vec()) push(out, flat(m)); }},
    {"lattice", [](TB const &o, kase &, vec &out) { auto const &bl = o.lattice(); push(out, flat(bl.units())); lat::brillouin_zone bz{bl}; push(out, flat(bz.units())); std::ostringstream s; s << bl; text(out, s.str()); }},
    {"grid", [](TB const &o, kase &k, vec &out) { lat::grid_generator g(o.lattice().ndim(), k.i(2, 4)); for (; g; ++g) push(out, flat(nda::make_regular(*g))); }}});
}
void statistics(kase &c) {
  using A = stat::accumulator<cd>;
  share<A>(c, [](kase &k) { auto *a = new A{cd{0}, int(k.i(2, 6)), int(k.i(4, 12)), int(k.i(1, 3))}; for (long n = k.i(30, 200); n > 0; --n) *a << cd(k.r(-1, 1), k.r(-1, 1)); return a; }, {
    {"errors", [](A const &a, kase &, vec &out) { auto [e, n] = a.log_bin_errors(); for (auto x : e) push(out, cd(x)); for (auto x : n) push(out, double(x)); }},
    {"linear bins", [](A const &a, kase &, vec &out) { for (auto x : a.linear_bins()) push(out, x); push(out, double(a.n_lin_bins())); }},
    {"mean and error", [](A const &a, kase &, vec &out) { push(out, stat::mean(a.linear_bins())); auto [m, e] = stat::mean_and_err(a.linear_bins()); push(out, m); push(out, cd(e)); }},
    {"jackknife", [](A const &a, kase &, vec &out) { auto [m, e, n, b] = stat::jackknife([](auto const &x) { return x * x; }, a); push(out, cd(m)); push(out, cd(e)); push(out, cd(n)); }},
    {"own", [](A const &a, kase &k, vec &out) { A b = a; for (long n = k.i(1, 60); n > 0; --n) b << cd(k.r(-1, 1), k.r()); auto [e, n] = b.log_bin_errors(); for (auto x : e) push(out, cd(x)); }},
    {"histogram", [](A const &, kase &k, vec &out) { stat::histogram h(0, k.i(3, 9)); for (long n = k.i(5, 40); n > 0; --n) h << k.r(-2, 12); auto p = pdf(h); auto q = cdf(h); for (auto x : q.data()) push(out, x); for (auto x : h.data()) push(out, x); push(out, double(h.n_lost_pts())); for (auto x : p.data()) push(out, x); }}});
}
void random_(kase &c) {
  using R = mc_tools::random_generator;
  struct names { std::vector<std::string> n; };
  share<names>(c, [](kase &) { std::vector<std::string> v{""}; std::string s = mc_tools::random_generator_names(), w; std::istringstream is(s); std::vector<std::string> known{"mt19937", "mt11213b", "lagged_fibonacci607", "ranlux3", "lagged_fibonacci19937"}; for (auto &x : known) if (s.find(x) != std::string::npos) v.push_back(x); return new names{v}; }, {
    {"stream", [](names const &o, kase &k, vec &out) { R r(k.pick(o.n), uint32_t(k.i(1, 1 << 20))); for (int i = 0; i < 600; ++i) push(out, r()); for (int i = 0; i < 50; ++i) push(out, double(r(int(k.i(1, 1000))))); }},
    {"list of names", [](names const &, kase &, vec &out) { text(out, mc_tools::random_generator_names()); }},
    {"times", [](names const &, kase &k, vec &out) { R r("", uint32_t(k.i(1, 1000))); utility::time_segment s(k.r(1, 9)); for (int i = 0; i < 20; ++i) { auto t = s.get_random_pt(r), u = s.get_random_pt(r); push(out, double(t - u)); push(out, double(t > u)); } }},
    {"moves", [](names const &, kase &k, vec &out) { // one chain per thread
       R r("", uint32_t(k.i(1, 1000)));
       struct mv { double *x; R *r; double old = 0; double attempt() { old = *x; double n = (*r)(); *x = n; return std::exp(old - n); } double accept() { return 1; } void reject() { *x = old; } };
       double x = 0.5; mc_tools::move_set<double> ms{r}; ms.add(mv{&x, &r}, "a", 1.0); ms.add(mv{&x, &r}, "b", 2.5);
       for (int i = 0; i < 60; ++i) { double q = std::abs(ms.attempt()); if (q > r()) ms.accept(); else ms.reject(); push(out, x); } }},
    {"legendre", [](names const &, kase &k, vec &out) { utility::legendre_generator g; g.reset(k.r(-1, 1)); for (int l = 0; l < 20; ++l) push(out, g.next()); for (int l = 0; l < 6; ++l) { push(out, utility::legendre_T(int(k.i(-9, 9)), l)); push(out, utility::legendre_t(l, 1)); push(out, utility::mod_cyl_bessel_i(l, k.r(0, 4))); } }},
    {"exceptions", [](names const &, kase &k, vec &out) { try { TRIQS_RUNTIME_ERROR << "number " << k.i(0, 99); } catch (triqs::runtime_error const &e) { text(out, e.what()); } }}});
}
void symmetry(kase &c) {
  using G = gf<tmesh::imfreq, matrix_valued>;
  using idx_t = std::tuple<long, std::array<long, 2>, nda::operation>;
  using F = std::function<idx_t(long const &, std::array<long, 2> const &)>;
  struct obj { G g; tg::sym_grp<F, G> grp; };
  share<obj>(c, [](kase &k) {
    tmesh::imfreq m{2, Fermion, k.i(1, 4)};
    G g{m, {2, 2}}; randomize(k, g.data());
    std::vector<F> l{[](long const &n, std::array<long, 2> const &i) { return idx_t{-n - 1, {i[1], i[0]}, nda::operation{false, true}}; }, [](long const &n, std::array<long, 2> const &i) { return idx_t{n, {1 - i[0], 1 - i[1]}, nda::operation{false, false}}; }};
    return new obj{g, tg::sym_grp<F, G>{g, l}}; }, {
    {"symmetrize", [](obj const &o, kase &, vec &out) { G h = o.g; auto r = o.grp.symmetrize(h); push(out, data_of(h)); push(out, double(std::get<0>(r))); }},
    {"classes", [](obj const &o, kase &, vec &out) { push(out, double(o.grp.num_classes())); }},
    {"initialise", [](obj const &o, kase &, vec &out) { G h = o.g; o.grp.init(h, std::function<cd(long const &, std::array<long, 2> const &)>{[](long const &n, std::array<long, 2> const &i) { return cd(n, i[0] + 2. * i[1]); }}); push(out, data_of(h)); }},
    {"own group", [](obj const &, kase &k, vec &out) { tmesh::imfreq m{2, Fermion, k.i(1, 3)}; G g{m, {2, 2}}; randomize(k, g.data()); std::vector<F> l{[](long const &n, std::array<long, 2> const &i) { return idx_t{-n - 1, i, nda::operation{false, true}}; }}; tg::sym_grp<F, G> grp{g, l}; push(out, double(grp.num_classes())); grp.symmetrize(g); push(out, data_of(g)); }}});
}
void run() {
  groups({{"bands", 80, 1000, bands},
          {"statistics", 100, 1500, statistics},
          {"random", 60, 1000, random_},
          {"symmetry", 60, 800, symmetry}});
}
#endif
