// U01: buffered_function replays its generator's stream
#include <vmon.hpp>
#include <triqs/utility/buffered_function.hpp>
#include <memory>
using triqs::utility::buffered_function;
using vmon::kase;

// The value at position p of stream s. Unique per (s,p) so loss, duplication and reordering are all visible.
template <typename R> R val(uint64_t s, uint64_t p);
template <> uint64_t val<uint64_t>(uint64_t s, uint64_t p) { return (s << 40) + p; }
template <> double val<double>(uint64_t s, uint64_t p) { return double(s) * 1e6 + double(p) + 0.5; }
template <> std::string val<std::string>(uint64_t s, uint64_t p) { return "stream-" + std::to_string(s) + "-value-number-" + std::to_string(p); }
template <> std::vector<int> val<std::vector<int>>(uint64_t s, uint64_t p) { return std::vector<int>(1 + p % 5, int(s * 100000 + p)); }
template <typename T> std::string show(T const &x) { std::ostringstream o; o << x; return o.str(); }
std::string show(std::vector<int> const &v) { return v.empty() ? "[]" : "[" + std::to_string(v.size()) + "*" + std::to_string(v[0]) + "]"; }

template <typename R> struct gen { // by-value state: a copy continues independently
  uint64_t s, p = 0;
  std::shared_ptr<long> calls;
  R operator()() {
    ++*calls;
    vmon::count("generator_calls");
    return val<R>(s, p++);
  }
};

template <typename R> struct slot {
  buffered_function<R> f;
  int state = 0; // 0: default constructed, 1: live, 2: moved from (only to be reassigned)
  uint64_t s = 0, p = 0;
};

template <typename R> void ops(kase &c, const char *tn) {
  long nslots = c.i(2, 5);
  std::vector<slot<R>> pool(nslots);
  uint64_t next_stream = 1;
  auto fresh           = [&]() {
    static const std::vector<long> sizes{1, 1, 2, 3, 4, 5, 7, 8, 10, 16, 33, 64, 100};
    long sz = c.pick(sizes);
    gen<R> g{next_stream++, 0, std::make_shared<long>(0)};
    c.trace("new(%ld)", sz);
    return std::pair{buffered_function<R>(g, sz), g.s};
  };
  long nops = c.i(20, 300), pulls = 0, copies = 0;
  for (long k = 0; k < nops; ++k) {
    long a = c.i(0, nslots - 1), b = c.i(0, nslots - 1);
    auto &A = pool[a];
    auto &B = pool[b];
    long what = c.i(0, 99);
    if (what < 45) { // pull a few
      long n = c.chance(0.2) ? c.i(1, 150) : c.i(1, 6);
      if (A.state == 2) continue;
      c.trace("pull%ld*%ld", a, n);
      if (A.state == 0) { c.throws([&] { A.f(); }, "call of an empty buffered_function"); vmon::count("empty_calls"); continue; }
      for (long i = 0; i < n; ++i) {
        R x = A.f();
        c.check(x == val<R>(A.s, A.p), "[%s] slot %ld: pulled %s, expected %s", tn, a, show(x).c_str(), show(val<R>(A.s, A.p)).c_str());
        ++A.p;
        ++pulls;
        vmon::count("values_pulled");
      }
    } else if (what < 60) { // preview
      if (A.state == 2) continue;
      c.trace("preview%ld", a);
      if (A.state == 0) { c.throws([&] { A.f.preview(); }, "preview of an empty buffered_function"); vmon::count("empty_calls"); continue; }
      for (int i = 0; i < 2; ++i) {
        R x = A.f.preview();
        c.check(x == val<R>(A.s, A.p), "[%s] slot %ld: preview %s, expected %s", tn, a, show(x).c_str(), show(val<R>(A.s, A.p)).c_str());
      }
    } else if (what < 70) { // fresh one assigned
      auto [f, s] = fresh();
      if (c.chance(0.5)) A.f = std::move(f); else A.f = f;
      A.state = 1; A.s = s; A.p = 0;
    } else if (what < 80) { // copy assign (possibly to itself)
      if (B.state == 2) continue;
      c.trace("%ld=copy %ld", a, b);
      A.f = B.f; A.state = B.state; A.s = B.s; A.p = B.p;
      ++copies;
    } else if (what < 87) { // copy construct then move in
      if (B.state == 2) continue;
      c.trace("%ld=copyctor %ld", a, b);
      buffered_function<R> t(B.f);
      auto s = B.s, p = B.p; auto st = B.state;
      A.f = std::move(t); A.state = st; A.s = s; A.p = p;
      ++copies;
    } else if (what < 94) { // move assign
      if (a == b or B.state == 2) continue;
      c.trace("%ld=move %ld", a, b);
      A.f = std::move(B.f); A.state = B.state; A.s = B.s; A.p = B.p;
      B.state = 2;
    } else { // swap
      if (a == b or A.state == 2 or B.state == 2) continue;
      c.trace("swap %ld %ld", a, b);
      std::swap(A.f, B.f); std::swap(A.state, B.state); std::swap(A.s, B.s); std::swap(A.p, B.p);
    }
  }
  if (pulls > 5) c.nontrivial(copies);
}

void refills(kase &c) { // the generator is called exactly size times per exhausted buffer, never earlier
  long sz    = c.chance(0.3) ? c.i(1, 3) : c.i(1, 2000);
  auto calls = std::make_shared<long>(0);
  c.trace("size %ld", sz);
  bool dflt = c.chance(0.1);
  if (dflt) sz = 1000;
  buffered_function<uint64_t> f = dflt ? buffered_function<uint64_t>(gen<uint64_t>{7, 0, calls}) : buffered_function<uint64_t>(gen<uint64_t>{7, 0, calls}, sz);
  c.eq(*calls, sz, "generator calls after construction");
  long n = c.i(1, 5 * sz + 3);
  long pulled = 0;
  for (long k = 0; k < n; ++k) {
    if (c.chance(0.05)) {
      c.eq(f.preview(), val<uint64_t>(7, k), "preview");
      long expected = sz * (k / sz + 1);
      c.eq(*calls, expected, "generator calls after preview at " + std::to_string(k));
    }
    c.eq(f(), val<uint64_t>(7, k), "value");
    ++pulled;
    c.eq(*calls, sz * ((pulled + sz - 1) / sz), "generator calls after " + std::to_string(pulled) + " pulls with buffer " + std::to_string(sz));
  }
  c.trace("pulled %ld", n);
  vmon::count("values_pulled", n);
  c.nontrivial();
}

void throwing(kase &c) { // a generator that fails during a refill: the error reaches the caller, nothing delivered twice before it
  long sz = c.i(1, 20), fail_at = c.i(sz, 6 * sz);
  auto n  = std::make_shared<long>(0);
  buffered_function<long> f([n, fail_at]() -> long { if (*n >= fail_at) throw std::runtime_error("gen"); return (*n)++; }, sz);
  c.trace("size %ld fails at %ld", sz, fail_at);
  long k = 0;
  bool thrown = false;
  try {
    for (; k < fail_at + 1; ++k) c.eq(f(), k, "value before the generator failed");
  } catch (std::runtime_error const &) { thrown = true; }
  c.check(thrown, "the generator's exception did not reach the caller");
  c.check(k <= fail_at and k >= fail_at - sz, "%ld values delivered, generator failed at %ld with buffer %ld", k, fail_at, sz);
  c.nontrivial();
}

void empty(kase &c) {
  // placement in poisoned memory: the default constructed object must not depend on what was there
  alignas(buffered_function<double>) unsigned char raw[sizeof(buffered_function<double>)];
  memset(raw, int(c.i(0, 255)), sizeof raw);
  auto *f = new (raw) buffered_function<double>;
  c.trace("empty in memory filled with %d", raw[0]);
  c.throws([&] { (*f)(); }, "call of a default constructed buffered_function");
  c.throws([&] { f->preview(); }, "preview of a default constructed buffered_function");
  auto g = *f;
  c.throws([&] { g(); }, "call of a copy of a default constructed buffered_function");
  *f = buffered_function<double>(gen<double>{1, 0, std::make_shared<long>(0)}, c.i(1, 9));
  for (int k = 0; k < 20; ++k) c.eq((*f)(), val<double>(1, k), "value after assignment");
  f->~buffered_function<double>();
  c.nontrivial(raw[0]);
}

void run() {
  vmon::group("ops_u64", 1500, 40000, [](kase &c) { ops<uint64_t>(c, "u64"); });
  vmon::group("ops_double", 500, 10000, [](kase &c) { ops<double>(c, "double"); });
  vmon::group("ops_string", 700, 10000, [](kase &c) { ops<std::string>(c, "string"); });
  vmon::group("ops_vector", 500, 10000, [](kase &c) { ops<std::vector<int>>(c, "vector<int>"); });
  vmon::group("refills", 600, 6000, refills);
  vmon::group("throwing", 300, 3000, throwing);
  vmon::group("empty", 64, 512, empty);
}
