// M01: the Metropolis protocol, observed step by step
#include "mclog.hpp"

template <typename S> struct tree { // what was added: leaves and nested sets
  struct node { std::string name; double w; int leaf = -1; std::vector<node> sub; };
  std::vector<node> top;
};
template <typename S> struct world {
  kase &c;
  recorder<S> rec;
  int leaves = 0;
  explicit world(kase &c) : c(c), rec(c) {}
  using node = typename tree<S>::node;
  template <typename M> void add(mct::mc_generic<S> &t, M &&m, std::string nm, double w) { t.add_move(std::forward<M>(m), nm, w); }
  template <typename M> void add(mct::move_set<S> &t, M &&m, std::string nm, double w) { t.add(std::forward<M>(m), nm, w); }
  template <typename T> std::vector<node> fill(T &t, mct::random_generator &rng, int depth) {
    std::vector<node> r;
    int n = int(c.i(1, 4));
    for (int k = 0; k < n; ++k) {
      node x;
      x.w = k > 0 && c.chance(0.15) ? 0. : (c.chance(0.3) ? 1. : std::exp(c.r(-3, 3)));
      if (depth < 2 && c.chance(0.25)) {
        mct::move_set<S> ms(rng);
        x.name = "set" + std::to_string(leaves) + "_" + std::to_string(depth) + "_" + std::to_string(k);
        x.sub  = fill(ms, rng, depth + 1);
        add(t, std::move(ms), x.name, x.w);
      } else {
        x.leaf = leaves++;
        x.name = "m" + std::to_string(x.leaf);
        rmove<S> m{&rec, &c, x.leaf};
        if (c.chance(0.5)) add(t, m, x.name, x.w); else add(t, std::move(m), x.name, x.w);
      }
      r.push_back(x);
    }
    return r;
  }
  // expected probability of each leaf
  void proba(std::vector<node> const &v, double p, std::vector<double> &out) {
    double s = 0;
    for (auto &x : v) s += x.w;
    for (auto &x : v) { if (x.leaf >= 0) out[x.leaf] = p * x.w / s; else proba(x.sub, p * x.w / s, out); }
  }
  std::pair<long, long> counts(node const &x) {
    if (x.leaf >= 0) return {rec.proposed[x.leaf], rec.accepted[x.leaf]};
    std::pair<long, long> r{0, 0};
    for (auto &y : x.sub) { auto q = counts(y); r.first += q.first; r.second += q.second; }
    return r;
  }
  void rates(std::vector<node> const &v, std::map<std::string, double> const &got, size_t &n) {
    for (auto &x : v) {
      auto q = counts(x);
      ++n;
      c.check(got.count(x.name) == 1, "no acceptance rate for %s", x.name.c_str());
      double g = got.at(x.name);
      if (q.first) c.check(std::abs(g - double(q.second) / q.first) < 1e-12, "acceptance rate of %s is %.15g instead of %ld/%ld", x.name.c_str(), g, q.second, q.first);
      else c.check(!(g > 0 && g <= 1), "acceptance rate %g of %s, which was never proposed", g, x.name.c_str());
      if (x.leaf < 0) rates(x.sub, got, n);
    }
  }
};
template <typename S> void run_case(kase &c, long nsteps, bool stats) {
  world<S> w(c);
  w.rec.keep = false;
  mct::random_generator rng2("mt19937", int(c.i(1, 1000000))); // of the nested sets
  std::string gen = c.pick(std::vector<std::string>{"mt19937", "", "lagged_fibonacci607", "mt11213b"});
  quiet q;
  mct::mc_generic<S> mc(gen, int(c.i(1, 1000000)), int(c.i(0, 3)));
  typename tree<S>::node root;
  auto top = w.fill(mc, rng2, 0);
  long nm = 0;
  mc.add_measure(rmeasure<S>{&w.rec, 0, &nm, nullptr}, "sign", c.chance(0.5));
  int runs = stats ? 1 : int(c.i(1, 3));
  S init   = c.chance(0.5) ? S(1) : phase<S>(c);
  c.trace("%d leaves, generator '%s', %d runs of about %ld steps", w.leaves, gen.c_str(), runs, nsteps);
  for (int k = 0; k < runs; ++k) {
    w.rec.reset(w.leaves);
    long len = c.i(1, 20), cyc = std::max(1L, nsteps / len / runs);
    auto never = [] { return false; };
    int st;
    long want;
    if (k == 0 && c.chance(0.5)) { w.rec.sign = init; st = mc.warmup(cyc, len, never, init); want = 0; }
    else if (k == 0 && c.chance(0.3)) { w.rec.sign = init; nm = 0; st = mc.warmup_and_accumulate(1, cyc, len, never, init); want = cyc; w.rec.steps -= len;
      // the statistics are those of the accumulation only: count again below
      c.check(st == 0 && nm == cyc && w.rec.steps == cyc * len, "warmup_and_accumulate"); vmon::count("mc_steps", cyc * len); continue; }
    else { nm = 0; st = mc.accumulate(cyc, len, never); want = cyc; }
    c.check(st == 0, "status %d", st);
    c.check(w.rec.steps == cyc * len, "%ld steps instead of %ld cycles of %ld", w.rec.steps, cyc, len);
    c.check(want == 0 || nm == want, "%ld measures instead of %ld", nm, want);
    c.check(w.rec.pending == -1, "the last move is left pending");
    vmon::count("mc_steps", w.rec.steps);
    mc.collect_results(mpi::communicator{});
    auto ar = mc.get_acceptance_rates();
    size_t n = 0;
    w.rates(top, ar, n);
    c.check(ar.size() == n, "%zu acceptance rates for %zu moves", ar.size(), n);
    vmon::count("acceptance_rates_checked", n);
  }
  w.rec.check_bins(stats ? 6 : 6.5);
  if (stats) {
    std::vector<double> p(w.leaves);
    w.proba(top, 1, p);
    for (int l = 0; l < w.leaves; ++l) {
      double e = p[l] * w.rec.steps;
      c.check(std::abs(w.rec.proposed[l] - e) < 6 * std::sqrt(e * (1 - p[l])) + 3, "move %d of probability %g is proposed %ld times in %ld steps", l, p[l], w.rec.proposed[l], w.rec.steps);
      if (p[l] == 0) c.check(w.rec.proposed[l] == 0, "a move of weight 0 is proposed");
    }
    vmon::count("selection_probabilities_checked", w.leaves);
  }
  c.nontrivial(w.rec.events * 31 + w.leaves);
}
// non-finite ratios
template <typename S> struct badmove {
  S r;
  long *acc, *rej;
  S attempt() { return r; }
  S accept() { ++*acc; return 1; }
  void reject() { ++*rej; }
};
template <typename S> void bad_case(kase &c) {
  double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  S r;
  if constexpr (std::is_same_v<S, double>) r = c.chance(0.5) ? nan : -nan;
  else r = c.pick(std::vector<cd>{{nan, 0}, {0, nan}, {nan, nan}, {inf, 0}, {0, -inf}, {-inf, 1}, {inf, nan}, {1, nan}});
  bool nested = c.chance(0.4);
  c.trace("ratio (%g,%g) nested %d", std::real(r), std::imag(r), nested);
  long acc = 0, rej = 0, good = 0;
  quiet q;
  mct::random_generator rng2("mt19937", 7);
  mct::mc_generic<S> mc("mt19937", int(c.i(1, 100000)), 0, true);
  badmove<S> b{r, &acc, &rej};
  if (nested) { mct::move_set<S> ms(rng2); ms.add(b, "b", 1); mc.add_move(std::move(ms), "set", 1); } else mc.add_move(b, "b", 1);
  c.throws([&] { mc.accumulate(3, 2, [] { return false; }); }, "a run with a ratio that is not finite");
  c.check(acc == 0 && rej == 0, "a move whose ratio is not finite is accepted or rejected (%ld,%ld)", acc, rej);
  c.nontrivial(c.index);
}
// the whole chain samples the right distribution: random walk on a few states with known weights (real, signed)
template <typename S> struct walker {
  std::vector<S> *w;
  int *x;
  mct::random_generator *rng;
  kase *c;
  int next = 0;
  S attempt() { next = int(c->i(0, long(w->size()) - 1)); return (*w)[next] / (*w)[*x]; }
  S accept() { *x = next; return 1; }
  void reject() {}
};
template <typename S> struct hist {
  int *x;
  std::vector<double> *h;
  std::vector<S> *w;
  S *w0;
  kase *c;
  void accumulate(S s) { ++(*h)[*x]; S e = (*w)[*x] / std::abs((*w)[*x]); c->check(std::abs(s - e) < 1e-8, "the sign is not the sign of the weight of the configuration"); }
  void collect_results(mpi::communicator const &) {}
};
template <typename S> void chain(kase &c) {
  int n = int(c.i(2, 5)), x = 0;
  std::vector<S> w;
  for (int k = 0; k < n; ++k) w.push_back(c.r(0.1, 1) * phase<S>(c));
  quiet q;
  mct::random_generator rng("mt19937", 1);
  mct::mc_generic<S> mc(c.pick(std::vector<std::string>{"", "mt19937", "ranlux3"}), int(c.i(1, 1000000)), 0);
  std::vector<double> h(n);
  S w0 = w[0];
  mc.add_move(walker<S>{&w, &x, &rng, &c}, "a", 1);
  if (c.chance(0.5)) mc.add_move(walker<S>{&w, &x, &rng, &c}, "b", 2);
  mc.add_measure(hist<S>{&x, &h, &w, &w0, &c}, "h");
  long N = 15000;
  mc.warmup_and_accumulate(20, N, 12, [] { return false; }, w[0] / std::abs(w[0]));
  double Z = 0;
  for (auto &y : w) Z += std::abs(y);
  for (int k = 0; k < n; ++k) { double p = std::abs(w[k]) / Z; c.check(std::abs(h[k] - N * p) < 7.5 * std::sqrt(N * p * (1 - p)), "state %d of weight %g is visited %g times of %ld", k, p, h[k], N); }
  vmon::count("mc_steps", N * 12);
  c.nontrivial(c.u64());
}
void run() {
  vmon::group("protocol_real", 150, 3000, [](kase &c) { run_case<double>(c, c.i(20, 3000), false); });
  vmon::group("protocol_complex", 120, 2500, [](kase &c) { run_case<cd>(c, c.i(20, 3000), false); });
  vmon::group("statistics_real", 8, 60, [](kase &c) { run_case<double>(c, 120000, true); });
  vmon::group("statistics_complex", 6, 40, [](kase &c) { run_case<cd>(c, 80000, true); });
  vmon::group("not_finite_real", 8, 50, [](kase &c) { bad_case<double>(c); });
  vmon::group("not_finite_complex", 30, 300, [](kase &c) { bad_case<cd>(c); });
  vmon::group("chain_real", 3, 30, [](kase &c) { chain<double>(c); });
  vmon::group("chain_complex", 3, 30, [](kase &c) { chain<cd>(c); });
}
