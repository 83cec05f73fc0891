// P01: parallel operations, run on several processes; the decisions are the same on all of them, the data differ by rank
#define VMON_MPI
#include "g_rig.hpp"
#include <triqs/stat/histograms.hpp>
#include <triqs/utility/view_tools.hpp>
#include <triqs/stat/accumulator.hpp>
#include <triqs/stat/jackknife.hpp>
#include <triqs/mc_tools.hpp>
#include <triqs/atom_diag/atom_diag.hpp>
#include <random>
#include <unistd.h>
#ifndef PART
#define PART 0
#endif
using namespace grig;
namespace st = triqs::stat;
using tg::scalar_valued; using tg::scalar_real_valued; using tg::matrix_valued; using tg::matrix_real_valued; using tg::tensor_valued; using tg::tensor_real_valued; using tg::prod; using tg::block_gf; using tg::block2_gf;
using tmesh::imfreq; using tmesh::imtime; using tmesh::refreq; using tmesh::retime; using tmesh::legendre; using tmesh::brzone; using tmesh::cyclat; using tmesh::dlr; using tmesh::dlr_imtime;
// the ranks reach the operations at different times
struct skew {
  std::mt19937_64 e;
  skew(kase &c) : e(c.u64() + 77 * mpi::communicator{}.rank()) {}
  void operator()() { if (e() % 4 == 0) usleep(unsigned(e() % 400)); }
};
// communicators: the world, and parts of it with the ranks reversed
struct comm {
  mpi::communicator c;
  std::vector<int> world_rank; // of the ranks of c
  int me;
};
comm any_comm(kase &k) {
  mpi::communicator w;
  int n = w.size(), r = w.rank();
  if (k.chance(0.5)) { comm x{w, {}, r}; for (int i = 0; i < n; ++i) x.world_rank.push_back(i); return x; }
  bool rev = k.chance(0.5);
  std::vector<int> color;
  for (int i = 0; i < n; ++i) color.push_back(int(k.i(0, 1)));
  comm x{w.split(color[r], rev ? n - r : r), {}, 0};
  for (int i = 0; i < n; ++i) { int j = rev ? n - 1 - i : i; if (color[j] == color[r]) x.world_rank.push_back(j); }
  for (size_t i = 0; i < x.world_rank.size(); ++i) if (x.world_rank[i] == r) x.me = int(i);
  k.check(x.c.rank() == x.me && x.c.size() == int(x.world_rank.size()), "communicator");
  vmon::count("sub_communicators");
  return x;
}
// the size of a part differs from rank to rank: take the root modulo the size
int any_root(kase &k, comm const &x) { return int(k.i(0, 1000) % x.c.size()); }
// what rank r holds
template <typename A> void fill(A &&a, uint64_t seed, int r) {
  std::mt19937_64 e(seed * 1000003 + r);
  std::uniform_real_distribution<double> d(-2, 2);
  auto put = [&](auto &x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) x = d(e); else { double a1 = d(e), b1 = d(e); x = cd(a1, b1); } };
  nda::for_each(a.shape(), [&](auto... i) { put(a(i...)); });
}
struct op_t { MPI_Op op; const char *name; };
template <bool Real> op_t any_op(kase &c) {
  if (c.chance(0.6)) return {MPI_SUM, "sum"};
  if (!Real) return {MPI_PROD, "prod"};
  return c.pick(std::vector<op_t>{{MPI_MAX, "max"}, {MPI_MIN, "min"}, {MPI_PROD, "prod"}});
}
void combine(vec &a, vec const &b, op_t o) {
  if (a.empty()) { a = b; return; }
  for (size_t i = 0; i < a.size(); ++i)
    if (o.op == MPI_SUM) a[i] += b[i];
    else if (o.op == MPI_PROD) a[i] *= b[i];
    else if (o.op == MPI_MAX) a[i] = std::max(a[i].real(), b[i].real());
    else a[i] = std::min(a[i].real(), b[i].real());
}
template <typename M> M some_mesh(kase &c) {
  if constexpr (std::is_same_v<M, imfreq>) return {any_beta(c), any_stat(c), c.i(1, 6), c.chance(0.3) ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies};
  else if constexpr (std::is_same_v<M, imtime>) return any_imtime(c);
  else if constexpr (std::is_same_v<M, refreq>) return any_refreq(c);
  else if constexpr (std::is_same_v<M, retime>) return any_retime(c);
  else if constexpr (std::is_same_v<M, legendre>) return any_legendre(c);
  else if constexpr (std::is_same_v<M, brzone>) return any_bz(c, 3);
  else if constexpr (std::is_same_v<M, cyclat>) return any_cl(c, 3);
  else if constexpr (std::is_same_v<M, dlr> || std::is_same_v<M, dlr_imtime>) return M{5, any_stat(c), 2, 1e-6};
  else return [&]<typename... K>(prod<K...> const *) { return prod<K...>{some_mesh<K>(c)...}; }((M *)nullptr);
}
template <typename M, typename T> void gfs_(kase &c) {
  using G = gf<M, T>;
  constexpr bool R = std::is_same_v<typename T::scalar_t, double>;
  auto x = any_comm(c);
  skew wait(c);
  auto m = some_mesh<M>(c), m2 = some_mesh<M>(c);
  auto sh = shape_of<T>(c), sh2 = shape_of<T>(c);
  auto seed = c.u64();
  int root = any_root(c, x);
  auto held = [&](int r) { G g{m, sh}; fill(g.data(), seed, r); return g; };
  G g = held(x.world_rank[x.me]);
  auto own = flat(g.data());
  auto o = any_op<R>(c);
  vec ref;
  for (int r : x.world_rank) combine(ref, flat(held(r).data()), o);
  double tol = 1e-13 * std::pow(3.0, x.c.size());
  int what = int(c.i(0, 9));
  c.trace("operation %d root %d op %s", what, root, o.name);
  auto check = [&](auto const &h, const char *w) {
    c.check(h.mesh() == m, "%s: mesh of the result", w);
    c.check(h.target_shape() == g.target_shape(), "%s: shape of the result", w);
    same(c, flat(h.data()), ref, tol, w);
  };
  wait();
  bool changed = false;
  switch (what) {
    case 0: { G h = mpi::all_reduce(g, x.c, o.op); check(h, "all_reduce, constructed"); break; }
    case 1: { G h{m2, sh2}; h = mpi::all_reduce(g, x.c, o.op); check(h, "all_reduce, assigned"); break; }
    case 2: { G h{m2, sh2}; h = mpi::reduce(g, x.c, root, false, o.op); if (x.me == root) check(h, "reduce, assigned on the root"); break; }
    case 3: { G h = mpi::reduce(g(), x.c, root, false, o.op); if (x.me == root) check(h, "reduce of a view, on the root"); break; }
    case 4: { G h{m, sh}; h() = mpi::all_reduce(g, x.c, o.op); check(h, "all_reduce into a view"); break; }
    case 5: { G h{m, sh}; h() = mpi::reduce(gf_const_view<M, T>{g}, x.c, root, false, o.op); if (x.me == root) check(h, "reduce into a view, on the root"); break; }
    case 6: g = mpi::all_reduce(g, x.c, o.op); check(g, "all_reduce onto itself"); changed = true; break;
    case 7: { // copies made before are not touched
      G k = g;
      g() = mpi::all_reduce(k(), x.c, o.op);
      check(g, "all_reduce of a copy into a view");
      same(c, flat(k.data()), own, 0, "copy");
      changed = true;
      break;
    }
    case 8: case 9: { // broadcast: only the data travel, the mesh is the same everywhere
      auto src = held(x.world_rank[root]);
      if (what == 8) mpi::broadcast(g, x.c, root);
      else { auto v = g(); mpi::broadcast(v, x.c, root); }
      same(c, flat(g.data()), flat(src.data()), 0, "broadcast");
      c.check(g.mesh() == m, "broadcast: mesh");
      changed = true;
      break;
    }
  }
  if (!changed) same(c, flat(g.data()), own, 0, "own data after the operation");
  // the result is usable
  if (what == 0) { G h = mpi::all_reduce(g, x.c, o.op); h = h + g; vec s = ref; axpy(s, 1, own); same(c, flat(h.data()), s, tol, "sum of the result and the own function"); }
  vmon::count("operations");
  c.nontrivial(vmon::hash_fmt("%d %d %d %d %s %ld", what, root, x.c.size(), x.me, o.name, long(g.data().size())));
}
template <typename M, typename T> void blocks(kase &c) {
  using G = gf<M, T>;
  using B = block_gf<M, T>;
  auto x = any_comm(c);
  skew wait(c);
  int n = int(c.i(1, 4)), root = any_root(c, x);
  auto seed = c.u64();
  std::vector<std::string> names;
  std::vector<G> shape;
  for (int i = 0; i < n; ++i) { names.push_back(std::string(1 + i % 2, char('u' + i))); shape.emplace_back(some_mesh<M>(c), shape_of<T>(c)); }
  auto held = [&](int r) { auto v = shape; for (int i = 0; i < n; ++i) fill(v[i].data(), seed + i, r); return B{names, v}; };
  B b = held(x.world_rank[x.me]);
  std::vector<vec> ref(n), own(n);
  for (int r : x.world_rank) { auto h = held(r); for (int i = 0; i < n; ++i) axpy(ref[i], 1, flat(h[i].data())); }
  for (int i = 0; i < n; ++i) own[i] = flat(b[i].data());
  auto check = [&](auto const &h, const char *w) {
    c.check(h.size() == n, "%s: %d blocks", w, int(h.size()));
    c.check(h.block_names() == names, "%s: names of the blocks", w);
    for (int i = 0; i < n; ++i) { c.check(h[i].mesh() == shape[i].mesh(), "%s: mesh of block %d", w, i); same(c, flat(h[i].data()), ref[i], 1e-12, w); }
  };
  int what = int(c.i(0, 6));
  c.trace("block operation %d root %d of %d blocks", what, root, n);
  bool changed = false;
  wait();
  switch (what) {
    case 0: { B h = mpi::all_reduce(b, x.c); check(h, "all_reduce of blocks, constructed"); break; }
    case 1: { B h; h = mpi::all_reduce(b(), x.c); check(h, "all_reduce of a view of blocks"); break; }
    case 2: { B h; h = mpi::reduce(b, x.c, root); if (x.me == root) check(h, "reduce of blocks, on the root"); break; }
    case 3: { auto h = b; h() = mpi::all_reduce(b, x.c); check(h, "all_reduce into a view of blocks"); break; }
    case 4: b = mpi::all_reduce(b, x.c); check(b, "all_reduce of blocks onto itself"); changed = true; break;
    case 5: case 6: {
      auto src = held(x.world_rank[root]);
      if (what == 5) mpi::broadcast(b, x.c, root);
      else { auto v = b(); mpi::broadcast(v, x.c, root); }
      c.check(b.size() == n && b.block_names() == names, "blocks after a broadcast");
      for (int i = 0; i < n; ++i) same(c, flat(b[i].data()), flat(src[i].data()), 0, "broadcast of blocks");
      changed = true;
      break;
    }
  }
  if (!changed) for (int i = 0; i < n; ++i) same(c, flat(b[i].data()), own[i], 0, "own blocks after the operation");
  vmon::count("operations");
  c.nontrivial(vmon::hash_fmt("b%d %d %d %d %d", what, root, x.c.size(), x.me, n));
}
template <typename M, typename T> void blocks2(kase &c) {
  using G = gf<M, T>;
  using B = block2_gf<M, T>;
  auto x = any_comm(c);
  skew wait(c);
  int n = int(c.i(1, 3)), p = int(c.i(1, 3)), root = any_root(c, x);
  auto seed = c.u64();
  std::vector<std::vector<std::string>> names(2);
  for (int i = 0; i < n; ++i) names[0].push_back("a" + std::to_string(i));
  for (int i = 0; i < p; ++i) names[1].push_back("b" + std::to_string(i));
  std::vector<std::vector<G>> shape(n);
  for (auto &s : shape) for (int j = 0; j < p; ++j) s.emplace_back(some_mesh<M>(c), shape_of<T>(c));
  auto held = [&](int r) { auto v = shape; for (int i = 0; i < n; ++i) for (int j = 0; j < p; ++j) fill(v[i][j].data(), seed + 10 * i + j, r); return B{names, v}; };
  B b = held(x.world_rank[x.me]);
  auto ref = [&](int i, int j) { vec s; for (int r : x.world_rank) axpy(s, 1, flat(held(r)(i, j).data())); return s; };
  auto check = [&](auto const &h, const char *w) {
    c.check(h.size1() == n && h.size2() == p, "%s: %d times %d blocks", w, int(h.size1()), int(h.size2()));
    c.check(h.block_names() == names, "%s: names of the blocks", w);
    for (int i = 0; i < n; ++i) for (int j = 0; j < p; ++j) { c.check(h(i, j).mesh() == shape[i][j].mesh(), "%s: mesh of a block", w); same(c, flat(h(i, j).data()), ref(i, j), 1e-12, w); }
  };
  int what = int(c.i(0, 5));
  c.trace("block2 operation %d root %d of %d x %d blocks", what, root, n, p);
  wait();
  switch (what) {
    // containers of blocks with two indices are reduced through views only
    case 0: { auto h = b; h() = mpi::all_reduce(b(), x.c); check(h, "all_reduce of a view of blocks"); break; }
    case 1: { auto h = b; h() = mpi::reduce(b, x.c, root); if (x.me == root) check(h, "reduce of blocks, on the root"); break; }
    case 2: b() = mpi::all_reduce(b, x.c); check(b, "all_reduce of blocks onto itself"); break;
    case 3: { auto h = b; h() = mpi::all_reduce(b, x.c); check(h, "all_reduce into a view of blocks"); break; }
    case 4: case 5: {
      auto src = held(x.world_rank[root]);
      if (what == 4) mpi::broadcast(b, x.c, root);
      else { auto v = b(); mpi::broadcast(v, x.c, root); }
      for (int i = 0; i < n; ++i) for (int j = 0; j < p; ++j) same(c, flat(b(i, j).data()), flat(src(i, j).data()), 0, "broadcast of blocks");
      break;
    }
  }
  vmon::count("operations");
  c.nontrivial(vmon::hash_fmt("bb%d %d %d %d %d %d", what, root, x.c.size(), x.me, n, p));
}
template <int> void histograms(kase &c) {
  auto x = any_comm(c);
  skew wait(c);
  double a = c.r(-5, 5), b = a + c.r(0.5, 4);
  int nb = int(c.i(2, 12)), root = any_root(c, x);
  std::vector<std::vector<double>> pts(mpi::communicator{}.size());
  for (auto &p : pts) for (long k = c.i(0, 50); k > 0; --k) p.push_back(c.r(a - 1, b + 1));
  auto of = [&](std::vector<int> const &rs) { st::histogram h(a, b, nb); for (int r : rs) for (auto y : pts[r]) h << y; return h; };
  auto h = of({x.world_rank[x.me]});
  auto all = of(x.world_rank);
  wait();
  auto equal = [&](st::histogram const &u, st::histogram const &v, const char *w) {
    c.check(u.size() == v.size() && u.limits() == v.limits(), "%s: bins", w);
    c.check(u.n_data_pts() == v.n_data_pts() && u.n_lost_pts() == v.n_lost_pts(), "%s: %llu points and %llu lost instead of %llu and %llu", w, u.n_data_pts(), u.n_lost_pts(), v.n_data_pts(), v.n_lost_pts());
    for (long k = 0; k < u.size(); ++k) c.check(u.data()(k) == v.data()(k), "%s: bin %ld", w, k);
  };
  auto r1 = mpi::reduce(h, x.c, root);
  if (x.me == root) equal(r1, all, "reduced histogram");
  wait();
  auto r2 = mpi::all_reduce(h, x.c);
  equal(r2, all, "histogram reduced to all");
  wait();
  st::histogram t(c.r(-1, 0), c.r(0.5, 3), int(c.i(2, 9)));
  t << 0.25;
  if (x.me == root) t = h;
  mpi::broadcast(t, x.c, root);
  auto tr = of({x.world_rank[root]});
  equal(t, tr, "broadcast histogram");
  c.check(t == tr, "the broadcast histogram is not equal to that of the root");
  for (int k = 0; k < 10; ++k) { double y = c.r(a - 0.3, b + 0.3); t << y; tr << y; } // filled further on all ranks
  equal(t, tr, "broadcast histogram filled further");
  for (long k = 0; k < t.size(); ++k) c.close(t.mesh_point(k), tr.mesh_point(k), 0, "mesh point of a broadcast histogram");
  equal(h, of({x.world_rank[x.me]}), "own histogram");
  vmon::count("operations", 3);
  c.nontrivial(vmon::hash_fmt("h%d %d %d %llu", root, x.c.size(), x.me, all.n_data_pts()));
}
// the accumulators of all ranks give the statistics of all the data
template <typename T> void accumulators(kase &c) {
  auto x = any_comm(c);
  skew wait(c);
  int w = mpi::communicator{}.size();
  bool lin_only = c.chance(0.3);
  int cap = lin_only ? 1 : int(c.pick(std::vector<int>{1, 2, 5}));
  long L = c.i(1, 6) * cap;
  std::vector<std::vector<T>> data(w);
  auto gen = [&] { if constexpr (std::is_same_v<T, double>) return c.normal(); else { double a = c.normal(); return T(a, c.normal()); } };
  bool equal_len = c.chance(0.5);
  for (auto &d : data) { long n = equal_len ? 4 * L : c.i(1, 8) * L; for (long k = 0; k < n; ++k) d.push_back(T(gen()) + T(1.5)); }
  st::accumulator<T> acc{T(0), -1, -1, cap};
  for (auto y : data[x.world_rank[x.me]]) acc << y;
  // all linear bins of this communicator
  std::vector<T> bins, all;
  for (int r : x.world_rank) { for (size_t k = 0; k + cap <= data[r].size(); k += cap) { T s = 0; for (int q = 0; q < cap; ++q) s += data[r][k + q]; bins.push_back(s / double(cap)); } all.insert(all.end(), data[r].begin(), data[r].end()); }
  c.trace("ranks %d bins %zu", x.c.size(), bins.size());
  wait();
  T mean = 0;
  for (auto y : bins) mean += y;
  mean /= double(bins.size());
  auto m = st::mean_mpi(x.c, acc.linear_bins());
  c.check(std::abs(T(m) - mean) < 1e-11, "mean over the ranks");
  double var = 0;
  for (auto y : bins) var += std::norm(y - mean);
  wait();
  auto [m2, e2] = st::mean_and_err_mpi(x.c, acc.linear_bins());
  c.check(std::abs(T(m2) - mean) < 1e-11, "mean over the ranks, with error");
  if (bins.size() > 1) c.close(std::abs(e2), std::sqrt(var / double(bins.size()) / double(bins.size() - 1)), 1e-10, "error over the ranks");
  wait();
  auto [err, cnt] = acc.log_bin_errors_all_reduce(x.c);
  size_t longest = 0;
  for (int r : x.world_rank) longest = std::max(longest, data[r].size());
  long nlog = 0;
  while ((longest >> nlog) > 0) ++nlog;
  c.check(long(err.size()) == nlog && cnt.size() == err.size(), "%zu logarithmic bins instead of %ld", err.size(), nlog);
  for (long k = 0; k < nlog; ++k) {
    std::vector<T> b;
    long width = 1l << k;
    for (int r : x.world_rank) for (size_t q = 0; q + width <= data[r].size(); q += width) { T s = 0; for (long i = 0; i < width; ++i) s += data[r][q + i]; b.push_back(s / double(width)); }
    c.check(cnt[k] == long(b.size()), "logarithmic bin %ld: %ld data instead of %zu", k, cnt[k], b.size());
    T mu = 0;
    for (auto y : b) mu += y;
    if (!b.empty()) mu /= double(b.size());
    double v = 0;
    for (auto y : b) v += std::norm(y - mu);
    double ref = b.size() > 1 ? std::sqrt(v / double(b.size()) / double(b.size() - 1)) : 0;
    c.close(std::abs(err[k]), ref, 1e-9, "error of a logarithmic bin over the ranks");
  }
  vmon::count("operations", 3);
  c.nontrivial(vmon::hash_fmt("s%d %d %zu %d", x.c.size(), x.me, bins.size(), cap));
}
// ---- Monte Carlo: every rank its own chain, the results collected over a communicator
struct step_move {
  triqs::mc_tools::random_generator *rng;
  double *state;
  double p;
  long *prop, *acc;
  double attempt() { ++*prop; return p; }
  double accept() { ++*acc; *state += 1; return 1; }
  void reject() {}
};
struct count_measure {
  gf<imfreq, scalar_valued> *g, *result;
  double *state, *z;
  long *collected, *n;
  void accumulate(double s) { *z += s; ++*n; g->data()(*n % g->data().extent(0)) += s * *state; }
  void collect_results(mpi::communicator const &c) {
    ++*collected;
    double zt = mpi::all_reduce(*z, c);
    *result = mpi::all_reduce(*g, c);
    *z = zt;
  }
};
template <int> void collection(kase &c) {
  auto x = any_comm(c);
  skew wait(c);
  mpi::communicator w;
  long cycles = c.i(0, 30) + w.rank() % 3, len = c.i(1, 4);
  int seed = int(c.i(1, 100000)) + 928374 * w.rank();
  triqs::mc_tools::mc_generic<double> mc("", seed, 0);
  double state = 0, z = 0;
  int nm = int(c.i(1, 3)), nset = int(c.i(0, 2));
  std::vector<long> prop(nm + nset, 0), acc(nm + nset, 0);
  for (int k = 0; k < nm; ++k) mc.add_move(step_move{&mc.get_rng(), &state, c.r(0, 1.2), &prop[k], &acc[k]}, "m" + std::to_string(k), c.r(0.2, 2));
  if (nset) {
    triqs::mc_tools::move_set<double> ms(mc.get_rng());
    for (int k = 0; k < nset; ++k) ms.add(step_move{&mc.get_rng(), &state, c.r(0, 1.2), &prop[nm + k], &acc[nm + k]}, "s" + std::to_string(k), c.r(0.2, 2));
    mc.add_move(std::move(ms), "set", 1.0);
  }
  gf<imfreq, scalar_valued> g{{1, Fermion, 3}}, result{{1, Fermion, 3}};
  g.data() = 0;
  long collected = 0, n = 0;
  mc.add_measure(count_measure{&g, &result, &state, &z, &collected, &n}, "count");
  // accumulate itself synchronises all ranks; give every rank a whole number of cycles
  std::ostringstream sink;
  auto *old = std::cerr.rdbuf(sink.rdbuf());
  auto *old2 = std::cout.rdbuf(sink.rdbuf());
  mc.accumulate(cycles, len, [] { return false; });
  wait();
  double zown = z;
  auto gown = flat(g.data());
  mc.collect_results(x.c);
  std::cerr.rdbuf(old);
  std::cout.rdbuf(old2);
  c.check(collected == 1, "results collected %ld times", collected);
  c.check(n == cycles, "%ld measures in %ld cycles", n, cycles);
  // conservation over the ranks of the communicator, from what the monitors counted
  double zsum = 0;
  MPI_Allreduce(&zown, &zsum, 1, MPI_DOUBLE, MPI_SUM, x.c.get());
  c.check(z == zsum, "sum of the signs: %g instead of %g", z, zsum);
  vec gsum(gown.size());
  MPI_Allreduce(gown.data(), gsum.data(), int(gown.size()), MPI_C_DOUBLE_COMPLEX, MPI_SUM, x.c.get());
  same(c, flat(result.data()), gsum, 1e-12, "collected function");
  same(c, flat(g.data()), gown, 0, "own function after the collection");
  auto rates = mc.get_acceptance_rates();
  c.check(rates.size() == size_t(nm + nset + (nset ? 1 : 0)), "%zu acceptance rates", rates.size());
  std::vector<long> P(prop.size()), A(prop.size());
  MPI_Allreduce(prop.data(), P.data(), int(P.size()), MPI_LONG, MPI_SUM, x.c.get());
  MPI_Allreduce(acc.data(), A.data(), int(A.size()), MPI_LONG, MPI_SUM, x.c.get());
  long sp = 0, sa = 0;
  for (int k = 0; k < nm + nset; ++k) {
    auto name = (k < nm ? "m" + std::to_string(k) : "s" + std::to_string(k - nm));
    if (P[k]) c.close(rates.at(name), double(A[k]) / double(P[k]), 1e-12, "acceptance rate over the ranks");
    if (k >= nm) { sp += P[k]; sa += A[k]; }
  }
  if (sp) c.close(rates.at("set"), double(sa) / double(sp), 1e-12, "acceptance rate of a set over the ranks");
  vmon::count("operations");
  vmon::count("measures_collected", n);
  c.nontrivial(vmon::hash_fmt("mc%d %d %ld %ld %d", x.c.size(), x.me, cycles, len, nset));
}
template <bool Cplx> void eigensystems(kase &c) {
  using E = typename triqs::atom_diag::atom_diag<Cplx>::eigensystem_t;
  auto x = any_comm(c);
  int root = any_root(c, x), n = int(c.i(1, 5)), m = int(c.i(1, 5));
  auto seed = c.u64();
  auto held = [&](int r, int k) { E e; e.eigenvalues.resize(k); e.unitary_matrix.resize(k, k); fill(e.eigenvalues, seed, r); fill(e.unitary_matrix, seed + 1, r); return e; };
  E e = held(x.world_rank[x.me], x.me == root ? n : m); // resized by the broadcast
  mpi::broadcast(e, x.c, root);
  auto ref = held(x.world_rank[root], n);
  same(c, flat(e.eigenvalues), flat(ref.eigenvalues), 0, "broadcast eigenvalues");
  same(c, flat(e.unitary_matrix), flat(ref.unitary_matrix), 0, "broadcast eigenvectors");
  vmon::count("operations");
  c.nontrivial(vmon::hash_fmt("e%d %d %d %d %d", root, x.c.size(), x.me, n, m));
}
template <int> void parts() {
#define P(n) if constexpr (PART == 0 || PART == n)
  P(1) {
    vmon::group("imfreq_matrix", 60, 800, gfs_<imfreq, matrix_valued>);
    vmon::group("imtime_scalar", 40, 600, gfs_<imtime, scalar_real_valued>);
    vmon::group("imtime_matrix_real", 40, 600, gfs_<imtime, matrix_real_valued>);
    vmon::group("refreq_tensor", 30, 400, gfs_<refreq, tensor_valued<3>>);
    vmon::group("legendre", 30, 400, gfs_<legendre, matrix_valued>);
    vmon::group("blocks_imfreq", 60, 800, blocks<imfreq, matrix_valued>);
  }
  P(2) {
    vmon::group("retime_scalar", 30, 400, gfs_<retime, scalar_valued>);
    vmon::group("brzone_matrix", 30, 400, gfs_<brzone, matrix_valued>);
    vmon::group("cyclat_real_vector", 30, 400, gfs_<cyclat, tensor_real_valued<1>>);
    vmon::group("dlr_imtime", 20, 200, gfs_<dlr_imtime, matrix_valued>);
    vmon::group("product", 40, 600, gfs_<prod<brzone, imfreq>, matrix_valued>);
    vmon::group("product3", 30, 400, gfs_<prod<imfreq, imfreq, imtime>, scalar_valued>);
    vmon::group("blocks_imtime", 40, 600, blocks<imtime, scalar_valued>);
    vmon::group("blocks_product", 30, 400, blocks<prod<cyclat, imtime>, matrix_valued>);
    vmon::group("blocks2_imfreq", 60, 800, blocks2<imfreq, tensor_valued<4>>);
    vmon::group("blocks2_imtime", 30, 400, blocks2<imtime, matrix_real_valued>);
  }
  P(3) {
    vmon::group("histograms", 120, 1500, histograms<0>);
    vmon::group("accumulators", 100, 1500, accumulators<double>);
    vmon::group("accumulators_complex", 80, 1000, accumulators<cd>);
    vmon::group("collection", 120, 1500, collection<0>);
    vmon::group("eigensystems", 40, 300, eigensystems<false>);
    vmon::group("eigensystems_complex", 40, 300, eigensystems<true>);
  }
}
void run() { parts<0>(); }
