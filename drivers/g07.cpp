// G07: symmetrised Green functions are invariant under their group
#include "g_rig.hpp"
#include <triqs/gfs/gf_sym_grp.hpp>
#include <numeric>
using namespace grig;
using namespace triqs;
using tg::scalar_valued; using tg::matrix_valued; using tg::tensor_valued; using tg::prod;
using tmesh::imfreq; using tmesh::imtime; using tmesh::refreq; using tmesh::legendre; using tmesh::brzone; using tmesh::cyclat;
using nda::operation;
#ifndef PART
#define PART 0
#endif
// ---- one step of a symmetry on one variable: an involution or a cyclic shift of its indices
struct step1 { std::function<long(long)> f; };
static cd act(operation o, cd x) { if (o.sgn) x = -x; return o.cc ? std::conj(x) : x; }
static double act(operation o, double x) { return o.sgn ? -x : x; }
// maps of the indices of a mesh onto itself
template <typename M> struct maps;
template <> struct maps<imfreq> {
  static imfreq make(kase &c) { return {any_beta(c), any_stat(c), c.i(1, 4)}; }
  static auto draw(kase &c, imfreq const &m) -> std::function<long(long)> {
    long s = m.statistic() == Fermion ? -1 : 0, n = m.size(), a = m.first_index();
    switch (c.i(0, 2)) { case 0: return [=](long x) { return s - x; }; case 1: return [=](long x) { return a + (x - a + 1) % n; }; default: return [](long x) { return x; }; }
  }
};
template <> struct maps<imtime> {
  static imtime make(kase &c) { return {any_beta(c), any_stat(c), c.i(2, 6)}; }
  static auto draw(kase &c, imtime const &m) -> std::function<long(long)> {
    long n = m.size();
    if (c.chance(0.6)) return [=](long x) { return n - 1 - x; };
    return [](long x) { return x; };
  }
};
template <> struct maps<legendre> {
  static legendre make(kase &c) { return {any_beta(c), any_stat(c), c.i(1, 5)}; }
  static auto draw(kase &, legendre const &) -> std::function<long(long)> { return [](long x) { return x; }; }
};
template <> struct maps<refreq> {
  static refreq make(kase &c) { double a = c.r(0.5, 5); return {-a, a, c.i(2, 7)}; }
  static auto draw(kase &c, refreq const &m) -> std::function<long(long)> { long n = m.size(); if (c.chance(0.6)) return [=](long x) { return n - 1 - x; }; return [](long x) { return x; }; }
};
template <typename M> std::function<idx3(idx3)> draw_lattice(kase &c, M const &m, idx3 d) {
  switch (c.i(0, 3)) {
    case 0: return [=](idx3 x) { return m.index_modulo(idx3{-x[0], -x[1], -x[2]}); };
    case 1: { idx3 s{c.i(0, 3), c.i(0, 3), c.i(0, 2)}; return [=](idx3 x) { return m.index_modulo(idx3{x[0] + s[0], x[1] + s[1], x[2] + s[2]}); }; }
    case 2: if (d[0] == d[1]) return [](idx3 x) { return idx3{x[1], x[0], x[2]}; };
    default: return [](idx3 x) { return x; };
  }
}
template <> struct maps<brzone> {
  static brzone make(kase &c) { return any_bz(c, 3); }
  static auto draw(kase &c, brzone const &m) { auto d = m.dims(); return draw_lattice(c, m, {d[0], d[1], d[2]}); }
};
template <> struct maps<cyclat> {
  static cyclat make(kase &c) { return any_cl(c, 3); }
  static auto draw(kase &c, cyclat const &m) { auto d = m.dims(); return draw_lattice(c, m, {d[0], d[1], d[2]}); }
};
template <typename... M> struct maps<prod<M...>> {
  static prod<M...> make(kase &c) { return prod<M...>{maps<M>::make(c)...}; }
  using idx = typename prod<M...>::index_t;
  static auto draw(kase &c, prod<M...> const &m) -> std::function<idx(idx)> {
    auto fs = [&]<size_t... I>(std::index_sequence<I...>) { return std::tuple{maps<M>::draw(c, std::get<I>(m))...}; }(std::index_sequence_for<M...>{});
    if constexpr (sizeof...(M) >= 2) {
      using A = std::tuple_element_t<0, std::tuple<M...>>;
      using B = std::tuple_element_t<1, std::tuple<M...>>;
      if constexpr (std::is_same_v<A, B>)
        if (std::get<0>(m) == std::get<1>(m) && c.chance(0.5)) return [](idx x) { std::swap(std::get<0>(x), std::get<1>(x)); return x; };
    }
    return [fs](idx x) { return [&]<size_t... I>(std::index_sequence<I...>) { return idx{std::get<I>(fs)(std::get<I>(x))...}; }(std::index_sequence_for<M...>{}); };
  }
};
template <typename M> constexpr size_t n_var = tg::n_variables<M>;
// data index <-> index of the mesh, by walking the mesh itself
template <typename G> struct tables {
  using M = typename G::mesh_t;
  using idx = typename M::index_t;
  std::vector<idx> at;
  std::map<idx, long> where;
  explicit tables(M const &m) {
    for (auto x : m) { where[x.index()] = at.size(); at.push_back(x.index()); }
  }
};
template <typename M, typename T, typename Scalar = cd> void group_of(kase &c) {
  using G = gf<M, T>;
  using value = typename G::scalar_t;
  using idx = typename M::index_t;
  constexpr size_t R = T::rank;
  using tix = std::array<long, R>;
  auto m = maps<M>::make(c);
  if constexpr (n_var<M> == 2) if constexpr (std::is_same_v<std::tuple_element_t<0, typename M::m_tuple_t>, std::tuple_element_t<1, typename M::m_tuple_t>>)
    if (c.chance(0.5)) m = M{std::get<0>(m), std::get<0>(m)};
  auto sh = shape_of<T>(c);
  G g{m, sh};
  randomize(c, g.data());
  tables<G> tb(m);
  long nm = tb.at.size(), nt = 1;
  for (auto x : sh) nt *= x;
  auto tixs = [&](long k) { tix t{}; for (int q = int(R) - 1; q >= 0; --q) { t[q] = k % sh[q]; k /= sh[q]; } return t; };
  auto lin = [&](tix const &t) { long k = 0; for (size_t q = 0; q < R; ++q) k = k * sh[q] + t[q]; return k; };
  auto val = [&](G const &f, long k) { return flat(f.data())[k]; };
  // symmetries: mesh map, permutation of orbitals with signs, transposition, conjugation, all commuting up to the class structure
  struct symm { std::function<idx(idx)> f; std::vector<long> perm; std::vector<int> sign; bool transpose, cc, sgn; };
  std::vector<symm> syms;
  int ns = c.i(0, 3);
  // a sign that any element of the group can carry: gauge signs of the orbitals, all of them +- 1
  std::vector<int> gauge;
  long no = R ? sh[0] : 1;
  for (long i = 0; i < no; ++i) gauge.push_back(c.chance(0.5) ? 1 : -1);
  bool square = R > 0;
  for (auto x : sh) square = square && x == no;
  for (int k = 0; k < ns; ++k) {
    symm s{maps<M>::draw(c, m), {}, {}, R == 2 && square && c.chance(0.4), std::is_same_v<value, cd> && c.chance(0.4), false};
    for (long i = 0; i < no; ++i) s.perm.push_back(i);
    if (square && c.chance(0.5)) c.shuffle(s.perm);
    syms.push_back(s);
  }
  auto apply1 = [&](symm const &s, idx const &x, tix const &t) {
    tix u = t;
    bool neg = false;
    if (square) for (size_t q = 0; q < R; ++q) { u[q] = s.perm[t[q]]; if (gauge[u[q]] * gauge[t[q]] < 0) neg = !neg; }
    if (s.transpose) if constexpr (R == 2) std::swap(u[0], u[1]);
    return std::tuple{s.f(x), u, operation{neg, s.cc}};
  };
  c.trace("%ld mesh points, %zu variables, target %ld (rank %zu), %d symmetries", nm, n_var<M>, nt, R, ns);
  // ---- the classes by union of all pairs (independent of the search of the code)
  long n = nm * nt;
  std::vector<long> root(n);
  std::iota(root.begin(), root.end(), 0);
  auto find = [&](long x) { while (root[x] != x) x = root[x] = root[root[x]]; return x; };
  std::vector<std::vector<std::pair<long, operation>>> img(n);
  for (long i = 0; i < nm; ++i) for (long t = 0; t < nt; ++t) for (auto &s : syms) {
    auto [x, u, op] = apply1(s, tb.at[i], tixs(t));
    auto it = tb.where.find(x);
    c.check(it != tb.where.end(), "driver: the map leaves the mesh");
    long j = it->second * nt + lin(u);
    img[i * nt + t].push_back({j, op});
    root[find(i * nt + t)] = find(j);
  }
  long classes = 0;
  for (long i = 0; i < n; ++i) if (find(i) == i) ++classes;
  // ---- the relation of every member to its root, if it is consistent (else the class must vanish or be real or imaginary)
  std::vector<int> phase(n, -1); // bit 0 sign, bit 1 conjugation
  bool consistent = true;
  for (long i = 0; i < n; ++i) if (find(i) == i) {
    std::vector<long> todo{i};
    phase[i] = 0;
    while (!todo.empty()) {
      long x = todo.back(); todo.pop_back();
      for (auto &[j, op] : img[x]) { int p = phase[x] ^ (op.sgn ? 1 : 0) ^ (op.cc ? 2 : 0); if (phase[j] < 0) { phase[j] = p; todo.push_back(j); } else if (phase[j] != p) consistent = false; }
    }
    // members reached only against the arrows (never: the maps are bijections of a finite set)
  }
  for (long i = 0; i < n; ++i) c.check(phase[i] >= 0, "driver: member not reached");
  auto run = [&](auto const &list) {
    using F = typename std::decay_t<decltype(list)>::value_type;
    tg::sym_grp<F, G> grp{g, list};
    c.check(grp.num_classes() == classes, "%ld classes instead of %ld", grp.num_classes(), classes);
    vmon::count("classes", classes);
    vmon::count("data_points", n);
    if (!consistent) { vmon::count("inconsistent", 1); return; }
    // initialisation calls the function once per class, on an element of the class
    std::map<long, int> calls;
    long ncalls = 0, bad = 0;
    vec rnd(n);
    auto before = g;
    G h{m, sh}, h2{m, sh};
    auto value_at = [&](long k) { ++ncalls; if (++calls[find(k)] > 1) ++bad; cd z = flat(g.data())[k]; if constexpr (std::is_same_v<value, double>) return z.real(); else return z; };
    if constexpr (R == 0) grp.init(h, [&](idx const &x) -> value { return value_at(tb.where.at(x)); });
    else grp.init(h, [&](idx const &x, tix const &t) -> value { return value_at(tb.where.at(x) * nt + lin(t)); });
    c.check(ncalls == classes && bad == 0, "the initial function was called %ld times for %ld classes, %ld classes more than once", ncalls, classes, bad);
    auto invariant = [&](G const &f, double tol, const char *what) {
      vec v = flat(f.data());
      for (long i = 0; i < n; ++i) for (auto &[j, op] : img[i]) same(c, {v[j]}, {act(op, v[i])}, tol, what);
    };
    invariant(h, 0, "initialised from representatives");
    // a function with the symmetry is reproduced exactly
    {
      vec v = flat(h.data());
      G h3{m, sh};
      randomize(c, h3.data());
      auto val2 = [&](long k) { if constexpr (std::is_same_v<value, double>) return v[k].real(); else return v[k]; };
      if constexpr (R == 0) grp.init(h3, [&](idx const &x) -> value { return val2(tb.where.at(x)); });
      else grp.init(h3, [&](idx const &x, tix const &t) -> value { return val2(tb.where.at(x) * nt + lin(t)); });
      same(c, flat(h3.data()), v, 0, "expanding the representatives of a symmetric function");
      auto [d, ix, tx] = grp.symmetrize(h3);
      c.check(d <= 1e-14, "a symmetric function violates the symmetry by %g", d);
      same(c, flat(h3.data()), v, 1e-14, "symmetrising a symmetric function");
    }
    // symmetrise an arbitrary function: the mean over the class, and the largest change is reported
    {
      G f = before;
      vec v = flat(f.data());
      auto [d, ix, tx] = grp.symmetrize(f);
      invariant(f, 1e-14, "symmetrised");
      vec w = flat(f.data()), mean(n);
      std::vector<long> cnt(n, 0);
      auto ph = [&](long i, cd z) { return act(operation{bool(phase[i] & 1), bool(phase[i] & 2)}, z); };
      for (long i = 0; i < n; ++i) { mean[find(i)] += ph(i, v[i]); ++cnt[find(i)]; }
      double dmax = 0;
      for (long i = 0; i < n; ++i) { same(c, {w[i]}, {ph(i, mean[find(i)] / double(cnt[find(i)]))}, 1e-14, "the mean over the class"); dmax = std::max(dmax, std::abs(w[i] - v[i])); }
      c.close(d, dmax, 1e-13, "the reported violation");
      if (dmax > 1e-10) {
        long k = tb.where.at(ix) * nt;
        if constexpr (R > 0) k += lin(tx);
        c.close(std::abs(w[k] - v[k]), dmax, 1e-13, "the reported place of the violation");
      }
      auto [d2, ix2, tx2] = grp.symmetrize(f);
      c.check(d2 <= 1e-14, "symmetrising twice: %g", d2);
    }
    auto copy = grp;
    c.check(copy.num_classes() == classes, "copy");
  };
  if constexpr (R == 0) {
    using F = std::function<std::tuple<idx, operation>(idx const &)>;
    std::vector<F> list;
    for (auto &s : syms) list.push_back([&apply1, &s](idx const &x) { auto [y, u, op] = apply1(s, x, tix{}); return std::tuple<idx, operation>{y, op}; });
    run(list);
  } else {
    using F = std::function<std::tuple<idx, tix, operation>(idx const &, tix const &)>;
    std::vector<F> list;
    for (auto &s : syms) list.push_back([&apply1, &s](idx const &x, tix const &t) { return std::tuple<idx, tix, operation>{apply1(s, x, t)}; });
    run(list);
  }
  c.nontrivial(vmon::hash_fmt("%ld %ld %zu %d %ld %d", nm, nt, R, ns, classes, consistent));
}
// symmetries that leave the mesh: a point outside is no member, unless excursions are allowed
template <int> void excursions(kase &c) {
  imfreq m{any_beta(c), any_stat(c), c.i(2, 6)};
  using G = gf<imfreq, scalar_valued>;
  using F = std::function<std::tuple<long, operation>(long const &)>;
  G g{m};
  randomize(c, g.data());
  long a = m.first_index(), b = m.last_index(), s1 = c.i(-4, 4), s2 = c.i(-4, 4);
  // two reflections: their product is a translation by s1 - s2
  std::vector<F> list{[=](long x) { return std::tuple<long, operation>{s1 - x, {}}; }, [=](long x) { return std::tuple<long, operation>{s2 - x, {}}; }};
  long maxl = c.i(0, 3);
  c.trace("%ld frequencies from %ld, reflections %ld %ld, excursions %ld", m.size(), a, s1, s2, maxl);
  tg::sym_grp<F, G> grp{g, list, maxl};
  // classes without excursions, and with any
  auto count = [&](long pad) {
    std::map<long, long> root;
    for (long x = a - pad; x <= b + pad; ++x) root[x] = x;
    std::function<long(long)> find = [&](long x) { return root[x] == x ? x : root[x] = find(root[x]); };
    for (long x = a - pad; x <= b + pad; ++x) for (long s : {s1, s2}) if (root.count(s - x)) root[find(x)] = find(s - x);
    std::set<long> r;
    for (long x = a; x <= b; ++x) r.insert(find(x));
    return std::pair<long, std::map<long, long>>{r.size(), [&] { std::map<long, long> q; for (long x = a; x <= b; ++x) q[x] = find(x); return q; }()};
  };
  auto [n0, r0] = count(0);
  auto [n1, r1] = count(200);
  if (maxl == 0) c.check(grp.num_classes() == n0, "%ld classes instead of %ld", grp.num_classes(), n0);
  c.check(grp.num_classes() <= n0 && grp.num_classes() >= n1, "%ld classes, expected between %ld and %ld", grp.num_classes(), n1, n0);
  auto before = g;
  grp.symmetrize(g);
  for (long x = a; x <= b; ++x) for (long s : {s1, s2}) if (s - x >= a && s - x <= b) same(c, {cd(g[x])}, {cd(g[s - x])}, 1e-14, "symmetrised inside of the mesh");
  // the sum over everything that is connected at all is kept
  std::map<long, cd> sum;
  for (long x = a; x <= b; ++x) sum[r1[x]] += cd(g[x]) - cd(before[x]);
  for (auto &[k, z] : sum) c.check(std::abs(z) < 1e-12, "the sum over the class changed");
  vmon::count("data_points", m.size());
  c.nontrivial(vmon::hash_fmt("%ld %ld %ld %ld", m.size(), s1, s2, maxl));
}
template <int> void parts() {
#define P(n) if constexpr (PART == 0 || PART == n)
#define GRP(name, q, ...) vmon::group(name, q, q * 15, group_of<__VA_ARGS__>)
  P(1) { GRP("imfreq_scalar", 150, imfreq, scalar_valued); GRP("imfreq_matrix", 150, imfreq, matrix_valued); vmon::group("excursions", 300, 5000, excursions<0>); }
  P(2) { GRP("imtime_real_matrix", 100, imtime, tg::matrix_real_valued); GRP("refreq_tensor", 80, refreq, tensor_valued<3>); GRP("brzone_scalar", 100, brzone, scalar_valued); }
  P(3) { GRP("cyclat_matrix", 80, cyclat, matrix_valued); GRP("imfreq2_scalar", 80, prod<imfreq, imfreq>, scalar_valued); GRP("imfreq2_matrix", 60, prod<imfreq, imfreq>, matrix_valued); }
  P(4) { GRP("brzone_imfreq_matrix", 50, prod<brzone, imfreq>, matrix_valued); GRP("imfreq_brzone_scalar", 60, prod<imfreq, brzone>, scalar_valued); }
  P(5) { GRP("three_variables", 40, prod<brzone, imtime, imfreq>, matrix_valued); GRP("legendre_cyclat_tensor", 60, prod<legendre, cyclat>, tensor_valued<3>); }
}
void run() { parts<0>(); }
