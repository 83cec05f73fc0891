// U02: signal handler and clock callback. The clock and sigaction are interposed: virtual time, and a count of every delivery.
#include <vmon.hpp>
#include <csignal>
#include <ctime>
#include <sys/time.h>
#include <sys/syscall.h>
#include <atomic>
#include <pthread.h>
#include <dlfcn.h>
#include <thread>
#include <triqs/utility/signal_handler.hpp>
#include <triqs/utility/callbacks.hpp>
using vmon::kase;
namespace sh = triqs::signal_handler;

// ---------- virtual time: every clock of the process is shifted by the same offset and frozen when asked
static bool frozen           = false;
static long long frozen_ns   = 0; // CLOCK_REALTIME while frozen
static void now_raw(int id, timespec *t) { syscall(SYS_clock_gettime, id, t); }
extern "C" int clock_gettime(clockid_t id, timespec *t) noexcept {
  now_raw(id, t);
  if (frozen) { t->tv_sec = frozen_ns / 1000000000ll; t->tv_nsec = frozen_ns % 1000000000ll; vmon::count("virtual_clock_reads"); }
  return 0;
}
extern "C" time_t time(time_t *p) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
extern "C" int gettimeofday(timeval *tv, void *) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }

// ---------- deliveries
static std::atomic<long> delivered{0}, app_delivered{0};
static std::atomic<void (*)(int)> theirs[65];
static void tramp(int s) { ++delivered; auto f = theirs[s].load(); if (f) f(s); }
static void app_handler(int) { ++app_delivered; }
extern "C" int sigaction(int sig, const struct sigaction *act, struct sigaction *old) noexcept {
  static auto real = (int (*)(int, const struct sigaction *, struct sigaction *))dlsym(RTLD_NEXT, "sigaction");
  struct sigaction a, o;
  int rc;
  if (act) {
    a = *act;
    bool hook = !(a.sa_flags & SA_SIGINFO) && a.sa_handler != SIG_DFL && a.sa_handler != SIG_IGN && a.sa_handler != app_handler && sig < 65;
    auto prev = sig < 65 ? theirs[sig].load() : nullptr;
    if (hook) { theirs[sig] = a.sa_handler; a.sa_handler = tramp; }
    rc = real(sig, &a, &o);
    if (rc == 0 && old) { *old = o; if (!(o.sa_flags & SA_SIGINFO) && o.sa_handler == tramp) old->sa_handler = prev; }
    return rc;
  }
  rc = real(sig, nullptr, &o);
  if (rc == 0 && old) { *old = o; if (!(o.sa_flags & SA_SIGINFO) && o.sa_handler == tramp) old->sa_handler = theirs[sig].load(); }
  return rc;
}
typedef void (*sighandler)(int);
extern "C" sighandler signal(int s, sighandler h) noexcept { struct sigaction a{}, o{}; a.sa_handler = h; a.sa_flags = SA_RESTART; if (sigaction(s, &a, &o)) return SIG_ERR; return o.sa_handler; }

static const std::vector<int> handled{SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2};
void install_app() { for (int s : handled) { struct sigaction a{}; a.sa_handler = app_handler; sigaction(s, &a, nullptr); } }

void clock_case(kase &c) {
  frozen    = false;
  timespec t;
  now_raw(CLOCK_REALTIME, &t);
  frozen_ns = t.tv_sec * 1000000000ll + c.i(0, 999999999);
  frozen    = true;
  struct unfreeze { ~unfreeze() { frozen = false; } } uf;
  int T = c.chance(0.2) ? -int(c.i(0, 2000000000)) : (c.chance(0.1) ? 2147483647 : (c.chance(0.5) ? int(c.i(1, 5)) : int(c.i(1, 100000))));
  c.trace("duration %d s", T);
  long long start = frozen_ns, dl = start + T * 1000000000ll;
  auto cb  = triqs::utility::clock_callback(T);
  auto cb2 = cb;
  std::vector<long long> at{start, start + 1};
  for (int k = 0; k < 6; ++k) at.push_back(start + (long long)(c.r() * 2.5 * std::abs(double(T)) * 1e9));
  if (T > 0) for (long long d : {-1000000000ll, -1000000ll, -1000ll, -1ll, 1ll, 1000ll, 999999999ll, 1000000000ll}) at.push_back(dl + d);
  std::sort(at.begin(), at.end());
  for (auto x : at) {
    if (x < start) continue;
    frozen_ns = x;
    bool r = cb(), r2 = cb2();
    vmon::count("stop_queries", 2);
    if (T <= 0) c.check(!r && !r2, "a duration of %d s stopped after %lld ns", T, x - start);
    else if (x < dl) c.check(!r && !r2, "stopped %lld ns before the deadline of %d s", dl - x, T);
    else if (x > dl) c.check(r && r2, "did not stop %lld ns after the deadline of %d s", x - dl, T);
  }
  c.nontrivial(start);
  sh::stop();
}
void history(kase &c) {
  install_app();
  sh::stop();
  std::vector<int> model;
  bool on = false;
  c.check(!sh::received(), "a signal is reported before anything was started");
  long n = c.i(5, 60), raised = 0;
  for (long k = 0; k < n; ++k) {
    int what = int(c.i(0, 11));
    switch (what) {
      case 0: c.trace("start"); if (c.chance(0.3)) triqs::utility::clock_callback(int(c.i(-1, 5))); else sh::start(); on = true; break;
      case 1: if (c.chance(0.4)) { c.trace("stop"); sh::stop(); on = false; model.clear(); } break;
      case 2: case 3: case 4: case 5: {
        if (!on) break;
        int s = c.pick(handled);
        c.trace("raise %d", s);
        long before = delivered;
        c.check(raise(s) == 0, "raise failed");
        c.check(delivered == before + 1, "signal %d is not handled while signal handling is active", s);
        model.push_back(s);
        ++raised;
        break;
      }
      case 6: c.trace("received"); c.eq(sh::received(), !model.empty(), "received()"); break;
      case 7: { c.trace("received(true)"); c.eq(sh::received(true), !model.empty(), "received(true)"); if (!model.empty()) model.pop_back(); break; }
      case 8: case 9: if (!model.empty()) { c.trace("last"); c.eq(sh::last(), model.back(), "last()"); } break;
      case 10: if (!model.empty()) { c.trace("pop"); sh::pop(); model.pop_back(); } break;
      case 11: // signals outside of start..stop are not reported
        if (!on) { int s = c.pick(handled); c.trace("raise %d while off", s); raise(s); ++raised; c.check(!sh::received(), "signal %d delivered while signal handling was off is reported as received", s); }
        break;
    }
    c.eq(sh::received(), !model.empty(), "received() after each step");
  }
  while (!model.empty()) { c.eq(sh::last(), model.back(), "last() while emptying"); c.eq(sh::received(true), true, "received(true) while emptying"); model.pop_back(); }
  c.check(!sh::received(), "a signal is left over");
  vmon::count("signals_raised", raised);
  if (on) sh::stop();
  c.check(!sh::received(), "a signal is reported after stop");
  if (raised > 1) c.nontrivial();
}
#ifdef U02_STRESS
// signals arrive at arbitrary points of the main thread, also inside of malloc and of the handler's own functions
void stress(kase &c) {
  install_app();
  sh::stop();
  sh::start();
  long d0 = delivered;
  int ns = int(c.i(1, 3));
  std::vector<timer_t> tm;
  for (int k = 0; k < ns; ++k) {
    sigevent ev{};
    ev.sigev_notify = SIGEV_SIGNAL;
    ev.sigev_signo  = handled[(c.index + k * 2) % handled.size()];
    timer_t t;
    c.check(timer_create(CLOCK_MONOTONIC, &ev, &t) == 0, "timer_create failed");
    itimerspec it{};
    long ns_ = c.i(15000, 60000);
    it.it_value.tv_nsec = it.it_interval.tv_nsec = ns_;
    timer_settime(t, 0, &it, nullptr);
    tm.push_back(t);
  }
  int mode = int(c.i(0, 2));
  c.trace("timers %d mode %d", ns, mode);
  long popped = 0, want = c.i(1500, 4000);
  std::vector<std::string> junk(64);
  double sink = 0;
  while (delivered - d0 < want) {
    for (int k = 0; k < 50; ++k) { // allocations of the sizes a growing list uses
      auto &s = junk[c.i(0, 63)];
      s = std::string(size_t(1) << c.i(2, 12), 'x');
      s.reserve(c.i(1, 9000));
      sink += s.size();
    }
    if (mode > 0) for (int k = 0; k < 3; ++k) if (sh::received()) { int l = sh::last(); c.check(std::find(handled.begin(), handled.end(), l) != handled.end(), "last() reports %d, which is no handled signal", l); sh::pop(); ++popped; }
    if (mode > 1) while (sh::received(true)) ++popped;
  }
  for (auto t : tm) timer_delete(t);
  // nothing arrives any more: every delivery was recorded once
  usleep(2000);
  long total = delivered - d0;
  while (sh::received()) { int l = sh::last(); c.check(std::find(handled.begin(), handled.end(), l) != handled.end(), "last() reports %d, which is no handled signal", l); sh::pop(); ++popped; c.check(popped <= total + 5, "more signals reported than delivered"); }
  c.check(popped == total, "%ld signals were delivered, %ld reported", total, popped);
  vmon::count("signals_delivered_asynchronously", total);
  sh::stop();
  c.nontrivial(total);
}
#endif
void run() {
#ifdef U02_STRESS
  vmon::group("async_delivery", 12, 150, stress);
#else
  vmon::group("clock", 400, 8000, clock_case);
  vmon::group("history", 600, 12000, history);
#endif
}
