// Instrumented moves and measures: every call is logged and checked against the protocol while it happens.
#pragma once
#include <vmon.hpp>
#include <csignal>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <limits>
#include <triqs/mc_tools/mc_generic.hpp>
using vmon::kase;
using cd = std::complex<double>;
namespace mct = triqs::mc_tools;

struct quiet { // silence the reports of mc_generic
  std::stringstream o, e;
  std::streambuf *so, *se;
  quiet() : so(std::cout.rdbuf(o.rdbuf())), se(std::cerr.rdbuf(e.rdbuf())) {}
  ~quiet() { std::cout.rdbuf(so); std::cerr.rdbuf(se); }
};

enum class ev { attempt, accept, reject, duty, aux, measure, stop };
template <typename S> struct recorder {
  kase &c;
  explicit recorder(kase &c) : c(c) {}
  // protocol state
  int pending   = -1; // leaf move attempted, not yet accepted or rejected
  S ratio{}, sign = 1;
  double absr   = 0;
  std::vector<long> proposed, accepted;                   // per leaf, since the last reset
  long steps = 0, events = 0;                             // steps completed since the last reset
  std::function<void(ev, int)> hook;                      // fault injection; called at every event before it is logged
  // statistics of decisions: bins of min(1,|r|)
  std::vector<long> bin_n = std::vector<long>(20), bin_a = std::vector<long>(20);
  std::vector<double> bin_p = std::vector<double>(20), bin_v = std::vector<double>(20);
  std::vector<std::pair<ev, int>> log;                    // current run
  bool keep = true;
  void reset(int leaves) { proposed.assign(leaves, 0); accepted.assign(leaves, 0); steps = 0; log.clear(); }
  void event(ev e, int id) {
    ++events;
    if (hook) hook(e, id);
    if (keep) log.push_back({e, id});
  }
  void attempt(int id, S r) {
    c.check(pending == -1, "move %d is attempted while move %d is neither accepted nor rejected", id, pending);
    pending = id;
    ratio   = r;
    absr    = std::abs(r);
    ++proposed[id];
  }
  void decide(bool acc, int id) {
    c.check(pending == id, "move %d is %s although %d was attempted", id, acc ? "accepted" : "rejected", pending);
    pending = -1;
    ++steps;
    double p = std::min(1., absr);
    if (acc) c.check(p > 0, "a move of ratio 0 is accepted");
    else c.check(p < 1, "a move of ratio |r| = %g is rejected", absr);
    int b = std::min(19, int(p * 20));
    if (p > 0 && p < 1) { ++bin_n[b]; bin_a[b] += acc; bin_p[b] += p; bin_v[b] += p * (1 - p); }
    if (acc) ++accepted[id];
  }
  void check_bins(double nsig) {
    for (int b = 0; b < 20; ++b)
      if (bin_n[b] > 30) c.check(std::abs(bin_a[b] - bin_p[b]) < nsig * std::sqrt(bin_v[b]) + 3, "ratios in [%g,%g): %ld of %ld moves accepted instead of %.1f", b / 20., (b + 1) / 20., bin_a[b], bin_n[b], bin_p[b]);
  }
};

// random ratio, with a sign or phase
template <typename S> S phase(kase &c) {
  if constexpr (std::is_same_v<S, double>) return c.chance(0.5) ? 1 : -1;
  else { double p = c.r(0, 6.283185307179586); return {std::cos(p), std::sin(p)}; }
}
template <typename S> struct rmove {
  recorder<S> *rec;
  kase *c;
  int id;
  bool inf = true;  // infinite ratios too
  int *in_accept = nullptr;
  S attempt() {
    double a = c->chance(0.15) ? 0 : (c->chance(0.1) ? 1 : (c->chance(0.6) ? c->r(0.001, 1) : c->r(0, 1) * std::exp(c->r(0, 5)) + 1e-3));
    S r = a * phase<S>(*c);
    if constexpr (std::is_same_v<S, double>) if (inf && c->chance(0.03)) r = (c->chance(0.5) ? 1 : -1) * std::numeric_limits<double>::infinity();
    rec->event(ev::attempt, id); // may throw: the move was not attempted then
    rec->attempt(id, r);
    return r;
  }
  S accept() {
    S s = phase<S>(*c);
    rec->decide(true, id);
    S dir;
    if constexpr (std::is_same_v<S, double>) dir = std::signbit(rec->ratio) ? -1 : 1;
    else dir = rec->ratio / std::abs(rec->ratio);
    rec->sign = rec->sign * (dir * s);
    if constexpr (!std::is_same_v<S, double>) rec->sign /= std::abs(rec->sign);
    rec->event(ev::accept, id);
    return s;
  }
  void reject() { rec->decide(false, id); rec->event(ev::reject, id); }
};
template <typename S> struct rmeasure {
  recorder<S> *rec;
  int id;
  long *n;
  std::vector<long> *collected;
  void accumulate(S s) {
    rec->event(ev::measure, id);
    rec->c.check(rec->pending == -1, "measure %d is called in the middle of a move", id);
    rec->c.check(std::abs(s - rec->sign) < 1e-9, "measure %d receives the sign (%g,%g) instead of (%g,%g)", id, std::real(s), std::imag(s), std::real(rec->sign), std::imag(rec->sign));
    ++*n;
  }
  void collect_results(mpi::communicator const &) { if (collected) collected->push_back(id); }
};
