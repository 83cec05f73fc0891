// M02: the run loop: cycles, measures, stop callbacks, signals, exceptions, several ranks
#ifdef M02_MPI
#define VMON_MPI
#endif
#include "mclog.hpp"
#include <triqs/utility/signal_handler.hpp>
#include <triqs/utility/callbacks.hpp>
#include <sys/wait.h>
#include <fcntl.h>
using S = double;
namespace sh = triqs::signal_handler;
static const std::vector<int> handled{SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2};

struct aux { recorder<S> *rec; int id; long *n; void operator()() { rec->event(ev::aux, id); ++*n; } };
struct rig {
  kase &c;
  recorder<S> rec;
  mct::mc_generic<S> mc;
  int nmoves, naux;
  bool duty;
  std::map<int, std::string> meas; // enabled measures
  std::map<int, mct::measure_set<S>::measure_itr_t> itr;
  std::vector<long> nm = std::vector<long>(16), na = std::vector<long>(16);
  std::vector<long> collected;
  int next_meas = 0;
  long cycles_total = 0, measures_last = 0;
  bool exact_total = true;
  rig(kase &c, bool rethrow = true) : c(c), rec(c), mc(c.pick(std::vector<std::string>{"", "mt19937"}), int(c.i(1, 1000000)), int(c.i(0, 3)), rethrow) {
    nmoves = int(c.i(1, 3)); naux = int(c.i(0, 2)); duty = c.chance(0.4);
    for (int k = 0; k < nmoves; ++k) mc.add_move(rmove<S>{&rec, &c, k}, "m" + std::to_string(k), c.r(0.3, 2));
    for (int k = 0; k < naux; ++k) mc.add_measure_aux(std::make_shared<aux>(&rec, k, &na[k]));
    if (duty) mc.set_after_cycle_duty([this] { rec.event(ev::duty, 0); });
    for (int k = int(c.i(0, 3)); k > 0; --k) add();
  }
  void add() {
    if (next_meas >= 16) return;
    int k = next_meas++;
    std::string name = std::string(1, char('a' + c.i(0, 25))) + std::to_string(k);
    itr[k]  = mc.add_measure(rmeasure<S>{&rec, k, &nm[k], &collected}, name, c.chance(0.5));
    meas[k] = name;
    c.throws([&] { mc.add_measure(rmeasure<S>{&rec, k, &nm[k], &collected}, name); }, "adding a measure twice");
  }
  // one pass over the log of a run; returns the number of completed cycles
  struct outcome { long cycles = 0, measured = 0; bool partial = false, in_last_part = false; };
  outcome parse(bool do_measure, long len) {
    outcome o;
    auto l = rec.log;
    while (!l.empty() && l.back().first == ev::stop) l.pop_back(); // asked after an interrupted cycle as well
    size_t p = 0;
    auto at = [&](ev e) { return p < l.size() && l[p].first == e; };
    while (p < l.size()) {
      long k = 0;
      while (k < len && at(ev::attempt)) {
        int id = l[p++].second;
        if (!(at(ev::accept) || at(ev::reject))) { c.check(p == l.size(), "a move that is not finished is followed by event %d", p < l.size() ? int(l[p].first) : -1); o.partial = true; return o; }
        c.check(l[p].second == id, "another move is finished");
        ++p; ++k;
      }
      if (k < len) { // interrupted: only stop callbacks may follow
        o.partial = true;
        while (at(ev::stop)) ++p;
        c.check(p == l.size(), "after an incomplete cycle of %ld of %ld steps, event %d follows", k, len, p < l.size() ? int(l[p].first) : -1);
        return o;
      }
      if (p == l.size() && (duty || (do_measure && (naux || !meas.empty())))) { o.in_last_part = true; return o; }
      if (duty) { if (!at(ev::duty)) { c.check(false, "no call after cycle %ld", o.cycles); } ++p; }
      if (p == l.size() && do_measure && (naux || !meas.empty())) { o.in_last_part = true; return o; }
      if (do_measure) {
        for (int a = 0; a < naux; ++a) { if (p == l.size()) { o.in_last_part = true; return o; } c.check(at(ev::aux) && l[p].second == a, "auxiliary measure %d is not called in its turn in cycle %ld", a, o.cycles); ++p; }
        std::set<int> seen;
        while (at(ev::measure)) { c.check(meas.count(l[p].second) == 1, "a removed measure is called"); c.check(seen.insert(l[p].second).second, "measure %d is called twice in a cycle", l[p].second); ++p; }
        if (seen.size() != meas.size() && p == l.size()) { o.in_last_part = true; return o; }
        c.check(seen.size() == meas.size(), "%zu of %zu measures are called in cycle %ld", seen.size(), meas.size(), o.cycles);
        ++o.measured;
      }
      ++o.cycles;
      vmon::count("cycles_observed");
      c.check(at(ev::stop) || p == l.size(), "event %d follows cycle %ld without asking whether to stop", p < l.size() ? int(l[p].first) : -1, o.cycles);
      while (at(ev::stop)) ++p;
    }
    return o;
  }
};
enum fault { none, by_callback, by_signal, by_exception, by_callback_and_signal };
struct myerr : std::runtime_error { using std::runtime_error::runtime_error; };

static void history(kase &c) {
  quiet q;
  sh::stop();
  rig g(c);
  int runs = int(c.i(1, 5));
  for (int r = 0; r < runs; ++r) {
    while (c.chance(0.3)) g.add();
    if (!g.meas.empty() && c.chance(0.25)) { auto it = g.meas.begin(); std::advance(it, c.i(0, long(g.meas.size()) - 1)); g.mc.rm_measure(g.itr[it->first]); g.meas.erase(it); }
    if (c.chance(0.07)) { g.mc.clear_measures(); g.meas.clear(); }
    bool meas = c.chance(0.6);
    int f = c.chance(0.4) ? none : int(c.i(1, 4));
    bool inf  = (f == by_callback || f == by_signal) && c.chance(0.3);
    long len = c.chance(0.3) ? 1 : c.i(1, 12), n = inf ? -c.i(1, 3) : (c.chance(0.1) ? 0 : c.chance(0.2) ? 1 : c.i(1, 25));
    if (!inf && f == by_callback && c.chance(0.2)) n = c.i(2000000000, 4000000000L);
    if (f == by_callback && n > 1000000) inf = true;
    bool both = false, whole = false;
    long expect_total = n;
    bool clock = c.chance(0.2);
    // the fault hits at a random event
    long per = 2 * len + 1 + g.duty + (meas ? g.naux + long(g.meas.size()) : 0), span = (inf ? 12 : n) * per;
    long when = f == none || n == 0 ? -1 : c.i(0, std::max(0L, span - 1));
    bool cb_now = false, raised = false, thrown = false;
    long nev = 0, raised_at_attempts = -1, attempts = 0, attempts_after = 0, cb_at_event = -1;
    int sig = c.pick(handled);
    ev raised_in = ev::attempt;
    g.rec.reset(g.nmoves);
    long cb_calls = 0, cb_true_at = f == by_callback || f == by_callback_and_signal ? c.i(1, inf ? 12 : std::max(1L, n)) : -1;
    std::fill(g.nm.begin(), g.nm.end(), 0); std::fill(g.na.begin(), g.na.end(), 0);
    bool ended = false;
    g.rec.hook = [&](ev e, int id) {
      c.check(!ended, "event %d after the run has returned", int(e));
      c.check(!cb_now || e == ev::stop, "event %d after the stop callback returned true", int(e));
      if (e == ev::attempt) { c.check(!raised, "a move is attempted after signal %d was received", sig); c.check(!thrown, "a move is attempted after an exception"); }
      if (nev++ == when) {
        if (f == by_signal || f == by_callback_and_signal) { raised = true; raised_in = e; ::raise(sig); }
        if (f == by_exception) { if (e != ev::stop && e != ev::duty) { thrown = true; throw myerr("planned"); } else ++when; }
      }
      vmon::count("events_observed");
    };
    auto cb = [&]() { ++cb_calls; g.rec.event(ev::stop, 0); if (cb_calls == cb_true_at) cb_now = true; return cb_now; };
    c.trace("run %d: %s n %ld len %ld measures %zu aux %d duty %d fault %d event %ld callback %ld signal %d", r, meas ? "accumulate" : "warmup", n, len, g.meas.size(), g.naux, g.duty, f, when, cb_true_at, sig);
    if (clock) { auto k = triqs::utility::clock_callback(-1); (void)k; }
    int st = -1;
    bool exc = false;
    std::string what;
    try {
      switch (c.i(0, 1)) {
        case 0: st = meas ? g.mc.accumulate(n, len, cb) : g.mc.warmup(n, len, cb); break;
        case 1: if (meas) st = g.mc.accumulate(n, len, cb); else { g.rec.sign = c.chance(0.5) ? 1 : -1; st = g.mc.warmup(n, len, cb, g.rec.sign); } break;
      }
    } catch (std::exception const &e) { exc = true; what = e.what(); }
    ended = true;
    vmon::count("runs_observed");
    c.check(exc == thrown, "an exception was %sthrown in the run but %s (%s)", thrown ? "" : "not ", exc ? "raised by it" : "not reported", what.c_str());
    auto o = g.parse(meas, len);
    g.rec.pending = -1; // an exception may leave a move undecided
    if (n == 0) { c.check(g.rec.log.empty() && st == 0, "a run of 0 cycles makes %zu calls, status %d", g.rec.log.size(), st); }
    for (auto &m : g.meas) if (!exc) c.check(g.nm[m.first] == (meas ? o.measured : 0), "measure called %ld times", g.nm[m.first]);
    for (int k = 0; k < 16; ++k) if (!g.meas.count(k)) c.check(g.nm[k] == 0, "a removed measure is called");
    if (!exc) {
      c.check(!o.in_last_part, "a cycle is left before its measures are complete");
      if (o.partial) c.check(raised, "an incomplete cycle without a signal");
      bool complete = !inf && n > 0 && o.cycles == n;
      if (n < 0 || inf) complete = false;
      if (!inf) c.check(o.cycles <= n, "%ld cycles instead of %ld", o.cycles, n);
      if (n != 0) {
        if (complete && !o.partial) c.check(st == 0, "status %d of a run that made all its %ld cycles", st, n);
        else if (raised) { c.check(st == 2, "status %d after a signal (%ld of %ld cycles)", st, o.cycles, n); vmon::count("runs_stopped_by_signal"); }
        else if (cb_now) { c.check(st == 1, "status %d after the stop callback", st); vmon::count("runs_stopped_by_callback"); }
        else c.check(false, "%ld of %ld cycles are made, although nothing stopped the run (status %d)", o.cycles, n, st);
        if (cb_now && !raised) c.check(o.cycles == cb_true_at, "stopped after %ld cycles, not after %ld", o.cycles, cb_true_at);
      }
      c.check(g.rec.steps >= o.cycles * len && (o.partial || g.rec.steps == o.cycles * len), "%ld steps in %ld cycles of %ld", g.rec.steps, o.cycles, len);
    } else vmon::count("runs_ended_by_exception");
    c.check(!sh::received(), "a signal is left over after the run");
    g.rec.hook = nullptr;
    // the results can always be collected
    g.collected.clear();
    g.mc.collect_results(mpi::communicator{});
    c.check(g.collected.size() == g.meas.size(), "%zu measures of %zu are collected", g.collected.size(), g.meas.size());
    auto ar = g.mc.get_acceptance_rates();
    for (int k = 0; k < g.nmoves; ++k) if (!exc && g.rec.proposed[k]) c.check(std::abs(ar["m" + std::to_string(k)] - double(g.rec.accepted[k]) / g.rec.proposed[k]) < 1e-12, "acceptance rate of move %d", k);
    if (o.partial || exc) g.exact_total = false; else g.cycles_total += o.cycles;
    if (c.chance(0.1)) {
      h5::file h("m02.h5", 'w');
      h5::group gr(h);
      h5_write(gr, "mc", g.mc);
      auto mg = gr.open_group("mc");
      long nmd = -1, ncd = -1; double sg = 0;
      h5_read(mg, "number_measure_done", nmd); h5_read(mg, "number_cycle_done", ncd); h5_read(mg, "sign", sg);
      if (!exc) c.check(nmd == (meas ? o.measured : 0), "%ld measurements stored instead of %ld", nmd, meas ? o.measured : 0);
      if (g.exact_total) c.check(ncd == g.cycles_total, "%ld cycles stored instead of %ld", ncd, g.cycles_total);
      if (!exc) c.check(sg == g.rec.sign, "sign %g stored instead of %g", sg, g.rec.sign);
      vmon::count("hdf5_round_trips");
    }
    if (exc) g.mc.warmup(0, 1, [] { return false; }, g.rec.sign); // the sign is known again
    if (nev > 3) c.nontrivial();
  }
  sh::stop();
}
static void both_phases(kase &c) {
  quiet q;
  rig g(c);
  long nw = c.i(0, 15), n = c.i(0, 15), len = c.i(1, 6), calls = 0, stop = c.chance(0.5) ? c.i(1, 30) : -1;
  c.trace("warmup %ld accumulate %ld length %ld stop %ld", nw, n, len, stop);
  g.rec.reset(g.nmoves);
  S s0 = c.chance(0.5) ? 1 : -1;
  bool init = c.chance(0.5);
  if (init) g.rec.sign = s0;
  auto cb = [&] { return ++calls == stop; };
  int st = init ? g.mc.warmup_and_accumulate(nw, n, len, cb, s0) : g.mc.warmup_and_accumulate(nw, n, len, cb);
  long w = nw, a = n;
  int e = 0;
  if (stop > 0 && stop < nw) { w = stop; a = 0; e = 1; }
  else if (stop > nw && stop < nw + n) { a = stop - nw; e = 1; }
  c.check(st == e, "status %d instead of %d", st, e);
  c.check(g.rec.steps == (w + a) * len, "%ld steps instead of (%ld+%ld)*%ld", g.rec.steps, w, a, len);
  for (auto &m : g.meas) c.check(g.nm[m.first] == a, "measure called %ld times instead of %ld", g.nm[m.first], a);
  for (int k = 0; k < g.naux; ++k) c.check(g.na[k] == a, "auxiliary measure called %ld times instead of %ld", g.na[k], a);
  g.mc.collect_results(mpi::communicator{});
  vmon::count("runs_observed", 2);
  c.nontrivial();
}
// without rethrow, an exception ends the process with an error
static void abort_case(kase &c) {
  int when = int(c.i(0, 20)), kind = int(c.i(0, 1));
  c.trace("event %d", when);
  pid_t p = fork();
  if (p == 0) {
    int z = open("/dev/null", O_WRONLY);
    dup2(z, 1); dup2(z, 2);
    signal(SIGABRT, SIG_DFL);
    rig g(c, false);
    long n = 0;
    g.rec.reset(g.nmoves);
    g.rec.hook = [&](ev e, int) { if (n++ == when) throw myerr("planned"); };
    try { g.mc.accumulate(20, 5, [] { return false; }); } catch (...) { _exit(41); }
    _exit(42);
  }
  int st = 0;
  waitpid(p, &st, 0);
  c.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 42), "the run goes on after an exception");
  c.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 41), "the exception is rethrown although the process is to be ended");
  c.check(!WIFEXITED(st) || WEXITSTATUS(st) == 2, "the process ends with status %d", WEXITSTATUS(st));
  if (WIFSIGNALED(st)) c.check(WTERMSIG(st) == SIGABRT, "the process dies of signal %d", WTERMSIG(st));
  vmon::count("processes_ended");
  c.nontrivial(when);
}
#ifdef M02_MPI
// every rank runs its own chain; an exception on one rank ends the run of all
static void ranks(kase &c) {
  mpi::communicator world;
  int rank = world.rank(), size = world.size();
  quiet q;
  kase mine = c; // same decisions on all ranks; the chains differ by what follows
  long len = c.i(1, 5), n = c.i(1, 40);
  std::vector<long> thr(size, -1), stop(size, -1);
  int what = int(c.i(0, 3));
  for (int k = 0; k < size; ++k) {
    if (what == 1 && c.chance(0.4)) thr[k] = c.i(0, n * (2 * len + 1));
    if (what == 2 && c.chance(0.5)) stop[k] = c.i(1, n);
    if (what == 3) { if (c.chance(0.3)) thr[k] = c.i(0, n * (2 * len + 1)); if (c.chance(0.3)) stop[k] = c.i(1, n); }
  }
  c.trace("ranks %d n %ld len %ld throw %ld,%ld,%ld stop %ld,%ld,%ld", size, n, len, thr[0], thr[1], size > 2 ? thr[2] : -9, stop[0], stop[1], size > 2 ? stop[2] : -9);
  rig g(c);
  for (int k = 0; k < rank * 7; ++k) c.u64();
  g.rec.reset(g.nmoves);
  long nev = 0, calls = 0;
  bool thrown = false, exc = false, cb_now = false;
  g.rec.hook = [&](ev e, int) {
    if (e == ev::attempt) c.check(!thrown && !cb_now, "a move is attempted after the rank was to stop");
    vmon::count("events_observed");
    if (nev++ == thr[rank] && e != ev::stop && e != ev::duty) { thrown = true; throw myerr("planned"); }
  };
  int st = -1;
  std::string err;
  try { st = g.mc.accumulate(n, len, [&] { g.rec.event(ev::stop, 0); if (++calls == stop[rank]) cb_now = true; return cb_now; }); } catch (std::exception const &e) { exc = true; err = e.what(); }
  int anyt = thrown, all = 0;
  MPI_Allreduce(&anyt, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  c.check(exc == (all > 0), "%d ranks have thrown, but rank %d %s", all, rank, exc ? "raises an exception" : "reports nothing");
  auto o = g.parse(true, len);
  g.rec.pending = -1;
  if (!exc) {
    c.check(!o.partial && !o.in_last_part, "incomplete cycle");
    c.check(o.cycles == (stop[rank] > 0 ? stop[rank] : n), "%ld cycles instead of %ld", o.cycles, stop[rank] > 0 ? stop[rank] : n);
    c.check(st == (o.cycles == n ? 0 : 1), "status %d", st);
  } else {
    if (!thrown) c.check(!o.partial && !o.in_last_part, "a rank without exception leaves a cycle incomplete");
    vmon::count("emergency_stops");
  }
  g.rec.hook = nullptr;
  // results are collected over all ranks
  g.mc.collect_results(world);
  auto ar = g.mc.get_acceptance_rates();
  std::vector<long> p(g.nmoves), a(g.nmoves);
  MPI_Allreduce(g.rec.proposed.data(), p.data(), g.nmoves, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
  MPI_Allreduce(g.rec.accepted.data(), a.data(), g.nmoves, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
  if (!all) for (int k = 0; k < g.nmoves; ++k) if (p[k]) c.check(std::abs(ar["m" + std::to_string(k)] - double(a[k]) / p[k]) < 1e-12, "acceptance rate of move %d over all ranks is %.15g instead of %ld/%ld", k, ar["m" + std::to_string(k)], a[k], p[k]);
  c.check(g.collected.size() == g.meas.size(), "measures are collected on rank %d", rank);
  vmon::count("runs_observed");
  c.nontrivial();
}
#endif
void run() {
#ifdef M02_MPI
  vmon::group("ranks", 120, 1500, ranks);
#else
  vmon::group("history", 1500, 30000, history);
  vmon::group("warmup_and_accumulate", 500, 10000, both_phases);
  vmon::group("abort", 25, 200, abort_case);
#endif
}
