// U04: tuple algorithms, variants, scope guards, dressed iterators, serialisation of tuples, report stream
#include <vmon.hpp>
#include <algorithm>
#include <list>
#include <forward_list>
#include <memory>
#include <optional>
#include <triqs/utility/tuple_tools.hpp>
#include <triqs/utility/variant_extensions.hpp>
#include <triqs/utility/scope_guard.hpp>
#include <triqs/utility/tuple_serialize.hpp>
#include <triqs/utility/report_stream.hpp>
#include <triqs/utility/dressed_iterator.hpp>
using vmon::kase;
namespace tt = triqs::tuple;

// an element that counts its copies and is distinguishable
struct elem {
  long id = 0;
  explicit elem(long i = 0) : id(i) {}
  bool operator==(elem const &o) const { return id == o.id; }
};
std::ostream &operator<<(std::ostream &o, elem const &e) { return o << "e" << e.id; }
static std::string str(long x) { return std::to_string(x); }
static std::string str(int x) { return "i" + std::to_string(x); }
static std::string str(double x) { char b[64]; snprintf(b, 64, "d%.17g", x); return b; }
static std::string str(std::string const &s) { return "s" + s; }
static std::string str(elem const &e) { return "e" + std::to_string(e.id); }
static std::string str(std::unique_ptr<long> const &p) { return p ? "p" + std::to_string(*p) : "null"; }
template <typename T> T gen(kase &c) {
  if constexpr (std::is_same_v<T, std::string>) { std::string s; for (long k = c.i(0, 30); k > 0; --k) s += char('a' + c.i(0, 25)); return s; }
  else if constexpr (std::is_same_v<T, elem>) return elem(c.i(0, 1000000));
  else if constexpr (std::is_same_v<T, std::unique_ptr<long>>) return std::make_unique<long>(c.i(0, 1000000));
  else if constexpr (std::is_same_v<T, double>) return c.r(-10, 10);
  else return T(c.i(-1000000, 1000000));
}
using list = std::vector<std::string>;
template <typename T, size_t... I> list lst_(T const &t, std::index_sequence<I...>) { return {str(std::get<I>(t))...}; }
template <typename... T> list lst(std::tuple<T...> const &t) { return lst_(t, std::index_sequence_for<T...>()); }
static std::string j(list const &l) { std::string s; for (auto &x : l) s += x + ","; return s; }

struct out_ar { list l; template <typename X> out_ar &operator&(X &x) { l.push_back(str(x)); return *this; } };
struct in_ar { std::vector<const void *> p; template <typename X> in_ar &operator&(X &x) { p.push_back(&x); return *this; } };
template <typename... T> struct suite {
  using tup = std::tuple<T...>;
  static constexpr int N = sizeof...(T);
  template <size_t... I> static list map_lst(tup const &t, std::index_sequence<I...>) { return {("m" + str(std::get<I>(t)))...}; }
  static void run(kase &c) {
    tup t{gen<T>(c)...}, u{gen<T>(c)...};
    tup const &ct = t;
    list l = lst(t), m = lst(u), log;
    c.trace("%d elements: %s / %s", N, j(l).c_str(), j(m).c_str());
    auto eq = [&](list const &a, list const &b, const char *what) { vmon::count("tuple_results"); c.check(a == b, "%s on %d elements: %s instead of %s", what, N, j(a).c_str(), j(b).c_str()); };
    list r(l.rbegin(), l.rend());
    // for_each, in order, on the elements themselves
    std::vector<const void *> addr, addr_ref;
    auto rec = [&](auto const &x) { log.push_back(str(x)); addr.push_back(&x); };
    auto all = [&]<size_t... I>(std::index_sequence<I...>) { (addr_ref.push_back(&std::get<I>(t)), ...); };
    all(std::index_sequence_for<T...>());
    log.clear(); tt::for_each(t, rec); eq(log, l, "for_each"); c.check(addr == addr_ref, "for_each hands out copies");
    log.clear(); addr.clear(); tt::for_each(ct, rec); eq(log, l, "for_each const"); c.check(addr == addr_ref, "for_each hands out copies of const elements");
    log.clear(); tt::for_each(std::move(u), rec); eq(log, m, "for_each on an rvalue"); eq(lst(u), m, "for_each leaves its argument");
    if constexpr (N > 0) {
      log.clear(); addr.clear(); tt::for_each(reverse(t), rec); eq(log, r, "for_each(reverse)"); std::reverse(addr.begin(), addr.end()); c.check(addr == addr_ref, "reverse hands out copies");
      log.clear(); tt::for_each(reverse(ct), rec); eq(log, r, "for_each(reverse const)");
      list rr; tt::for_each(reverse(tup{gen_copy(t)}), [&](auto &&x) { rr.push_back(str(x)); });
      if constexpr ((std::is_copy_constructible_v<T> && ...)) eq(rr, r, "for_each(reverse rvalue)");
    }
    { // modification through for_each
      tup v{gen<T>(c)...};
      int n = 0;
      tt::for_each(v, [&]<typename E>(E &x) { ++n; if constexpr (std::is_same_v<E, int>) x += 1000; });
      c.check(n == N, "for_each made %d calls", n);
    }
    log.clear(); std::vector<int> pos;
    tt::for_each_enumerate(t, [&](int k, auto const &x) { pos.push_back(k); log.push_back(str(x)); });
    eq(log, l, "for_each_enumerate");
    for (int k = 0; k < N; ++k) c.check(pos[k] == k, "for_each_enumerate numbers element %d as %d", k, pos[k]);
    if constexpr (N > 0) {
      log.clear(); list log2;
      tt::for_each_zip([&](auto const &x, auto const &y) { log.push_back(str(x)); log2.push_back(str(y)); }, t, u);
      eq(log, l, "for_each_zip, first"); eq(log2, m, "for_each_zip, second");
      log.clear(); log2.clear();
      tt::for_each_zip([&](auto const &x, auto const &y, auto const &z) { log.push_back(str(x) + str(y) + str(z)); }, t, ct, u);
      list e; for (int k = 0; k < N; ++k) e.push_back(l[k] + l[k] + m[k]);
      eq(log, e, "for_each_zip of three");
      int calls = 0;
      auto mz = tt::map_on_zip([&](auto const &x, auto const &y) { ++calls; return str(x) + "|" + str(y); }, t, u);
      for (int k = 0; k < N; ++k) e[k] = "s" + l[k] + "|" + m[k];
      eq(lst(mz), e, "map_on_zip"); c.check(calls == N, "map_on_zip made %d calls", calls);
    }
    { // map: once per element
      int calls = 0;
      auto mm = tt::map([&](auto const &x) { ++calls; return "m" + str(x); }, t);
      static_assert(std::tuple_size_v<decltype(mm)> == N);
      list e; for (auto &x : l) e.push_back("sm" + x);
      eq(lst(mm), e, "map"); c.check(calls == N, "map made %d calls", calls);
    }
    { // fold: f(xN, ... f(x0, r))
      std::string s = tt::fold([&](auto const &x, std::string a) { return a + "(" + str(x); }, t, std::string("r")), e = "r";
      for (auto &x : l) e += "(" + x;
      c.check(s == e, "fold: %s instead of %s", s.c_str(), e.c_str());
      std::string s2 = tt::fold([&](auto const &x, auto const &y, std::string a) { return a + "(" + str(x) + ";" + str(y); }, t, u, std::string("r"));
      e = "r";
      for (int k = 0; k < N; ++k) e += "(" + l[k] + ";" + m[k];
      c.check(s2 == e, "fold of two: %s instead of %s", s2.c_str(), e.c_str());
      if constexpr (N > 0) {
        e = "r"; for (auto &x : r) e += "(" + x;
        std::string s3 = tt::fold([&](auto const &x, std::string a) { return a + "(" + str(x); }, reverse(t), std::string("r"));
        c.check(s3 == e, "fold(reverse): %s instead of %s", s3.c_str(), e.c_str());
      }
      vmon::count("tuple_results", 3);
    }
    { // apply
      int calls = 0;
      auto f = [&](auto const &...x) { ++calls; return list{str(x)...}; };
      eq(tt::apply(f, t), l, "apply"); eq(tt::apply(f, ct), l, "apply const"); eq(tt::called_on_tuple(f)(t), l, "called_on_tuple");
      c.check(calls == 3, "apply calls %d times", calls);
      if constexpr (N > 0) { eq(tt::apply(f, reverse(ct)), r, "apply(reverse)"); }
      eq(tt::apply([](T &&...x) { return list{str(x)...}; }, std::move(t)), l, "apply on an rvalue");
      eq(lst(t), l, "elements after an apply that does not consume");
      struct C { list x; C(T const &...y) : x{str(y)...} {} };
      eq(tt::apply_construct<C>(t).x, l, "apply_construct"); eq(tt::apply_construct_parenthesis<C>(ct).x, l, "apply_construct_parenthesis");
    }
    if constexpr ((std::is_copy_constructible_v<T> && ...)) {
      std::string nw = gen<std::string>(c);
      list p = l; p.push_back("s" + nw); eq(lst(tt::push_back(t, nw)), p, "push_back"); eq(lst(tt::push_back(tup(t), std::string(nw))), p, "push_back of rvalues");
      p = l; p.insert(p.begin(), "s" + nw); eq(lst(tt::push_front(t, nw)), p, "push_front");
      auto rec2 = [](list x, std::vector<int> drop) { for (auto it = drop.rbegin(); it != drop.rend(); ++it) x.erase(x.begin() + *it); return x; };
      if constexpr (N >= 1) {
        eq(lst(tt::pop_front(t)), rec2(l, {0}), "pop_front"); eq(lst(tt::pop_front(tt::push_front(t, nw))), l, "pop_front(push_front)");
        eq(lst(tt::filter_out<0>(t)), rec2(l, {0}), "filter_out<0>"); eq(lst(tt::filter_out<N - 1>(ct)), rec2(l, {N - 1}), "filter_out<last>");
        eq(lst(tt::filter<0>(t)), {l[0]}, "filter<0>"); eq(lst(tt::filter<N - 1, 0>(t)), {l[N - 1], l[0]}, "filter<last,0>");
        p = l; p[0] = "s" + nw; eq(lst(tt::replace<0>(t, nw)), p, "replace<0>"); p = l; p[N - 1] = "s" + nw; eq(lst(tt::replace<N - 1>(t, nw)), p, "replace<last>");
        if constexpr (N > 1) { p[0] = "s" + nw; eq(lst(tt::replace<N - 1, 0>(t, nw)), p, "replace<last,0>"); }
        eq(lst(tt::filter(t, std::index_sequence_for<T...>())), l, "filter all");
      }
      if constexpr (N >= 3) {
        eq(lst(tt::filter<0, 2>(t)), {l[0], l[2]}, "filter<0,2>"); eq(lst(tt::filter_out<1, 2>(t)), rec2(l, {1, 2}), "filter_out<1,2>"); eq(lst(tt::filter_out<2, 0>(tup(t))), rec2(l, {0, 2}), "filter_out<2,0>");
        p = l; p[1] = p[2] = "s" + nw; eq(lst(tt::replace<1, 2>(t, nw)), p, "replace<1,2>");
      }
      eq(lst(tt::filter_out<>(t)), l, "filter_out nothing");
      eq(lst(t), l, "the argument afterwards");
      std::stringstream ss, rs;
      ss << t; rs << "("; int k = 0;
      std::apply([&](auto const &...x) { ((rs << (k++ ? "," : "") << x), ...); }, t);
      rs << ")";
      c.check(ss.str() == rs.str(), "printed as %s instead of %s", ss.str().c_str(), rs.str().c_str());
      auto rep = tt::make_tuple_repeat<N>(nw);
      eq(lst(rep), list(N, "s" + nw), "make_tuple_repeat");
      // serialisation: every element once, in order, and back
      if constexpr (N > 0) {
        out_ar oa;
        boost::serialization::serialize(oa, t, 0);
        eq(oa.l, l, "serialize");
        in_ar ia;
        boost::serialization::serialize(ia, t, 0);
        c.check(ia.p == addr_ref, "deserialisation does not address the elements in order");
      }
    }
    c.nontrivial(vmon::hash_str(j(l) + j(m)));
  }
  static tup gen_copy(tup const &t) { if constexpr ((std::is_copy_constructible_v<T> && ...)) return t; else return tup{}; }
};
template <size_t... I> static std::vector<int> seqv(std::index_sequence<I...>) { return {int(I)...}; }
static void tuples(kase &c) {
  switch (c.index % 9) {
    case 0: suite<>::run(c); break;
    case 1: suite<int>::run(c); break;
    case 2: suite<std::string, double>::run(c); break;
    case 3: suite<int, std::string, elem>::run(c); break;
    case 4: suite<double, double, int, std::string>::run(c); break;
    case 5: suite<elem, long, std::string, double, int>::run(c); break;
    case 6: suite<std::unique_ptr<long>, std::string>::run(c); break;
    case 7: suite<int, std::unique_ptr<long>, double, std::unique_ptr<long>>::run(c); break;
    case 8: suite<int, long, double, std::string, elem, int, std::string, double>::run(c); break;
  }
  using v = std::vector<int>;
  c.check(seqv(tt::complement_sequence<5, 1, 3>()) == v{0, 2, 4, 5} && seqv(tt::complement_sequence<3, 3, 0, 1>()) == v{2} && seqv(tt::complement_sequence<2>()) == v{0, 1, 2} && seqv(tt::complement_sequence<1, 0, 1>()) == v{}, "complement_sequence");
  std::pair<long, std::string> p{c.i(0, 99), gen<std::string>(c)};
  std::stringstream ss;
  ss << p;
  c.check(ss.str() == "(" + std::to_string(p.first) + ", " + p.second + ")", "pair printed as %s", ss.str().c_str());
}
static void variants(kase &c) {
  using var = std::variant<long, std::string>;
  std::vector<var> l;
  std::string e;
  for (long n = c.i(0, 6), k = 0; k < n; ++k) {
    std::string s;
    if (c.chance(0.5)) { long x = long(c.u64()); l.push_back(x); s = std::to_string(x); } else { s = gen<std::string>(c); l.push_back(s); }
    c.trace("%s", s.c_str());
    using std::to_string;
    c.check(to_string(l.back()) == s, "to_string of a variant: %s", to_string(l.back()).c_str());
    c.check(std::to_string(s) == s, "to_string of a string");
    std::stringstream ss;
    ss << l.back();
    c.check(ss.str() == s, "variant printed as %s", ss.str().c_str());
    e += (k ? "," : "") + s;
  }
  std::stringstream ss;
  std::operator<<(ss, l);
  c.check(ss.str() == e, "list of variants printed as %s instead of %s", ss.str().c_str(), e.c_str());
  std::variant<int, double, std::string, char> v;
  switch (c.i(0, 3)) { case 0: v = int(c.i(-99, 99)); break; case 1: v = c.r(); break; case 2: v = gen<std::string>(c); break; default: v = 'z'; }
  std::stringstream s1, s2;
  s1 << v;
  std::visit([&](auto const &x) { s2 << x; }, v);
  c.check(s1.str() == s2.str(), "variant printed as %s", s1.str().c_str());
  vmon::count("variants_printed", l.size() + 1);
  c.nontrivial(vmon::hash_str(e));
}
// histories of guards; each action must run exactly once, at the exit of the scope that owns it in the end, unless dismissed
struct act {
  std::vector<long> *log = nullptr;
  std::shared_ptr<long> id;
  void operator()() const { if (log) log->push_back(id ? *id : -1); }
};
static void scope(kase &c) {
  using guard = triqs::utility::scope_guard<act>;
  std::vector<long> log, expect;
  long next = 0;
  struct slot { std::optional<guard> g; long id = -1; bool on = false; };
  {
    std::vector<slot> s(4);
    long n = c.i(3, 25);
    for (long k = 0; k < n; ++k) {
      int a = int(c.i(0, 3)), b = int(c.i(0, 3));
      int what = int(c.i(0, 6));
      c.trace("op %d slots %d %d", what, a, b);
      switch (what) {
        case 0: case 1: if (!s[a].g) { s[a].id = next++; s[a].on = true; act f{&log, std::make_shared<long>(s[a].id)}; if (what) s[a].g.emplace(triqs::utility::make_scope_guard(f)); else s[a].g.emplace(triqs::utility::exec_at_scope_exit(f)); } break;
        case 2: if (s[a].g) { if (s[a].on) expect.push_back(s[a].id); s[a].g.reset(); s[a].on = false; } break;
        case 3: if (s[a].g) { s[a].g->dismiss(); s[a].on = false; } break;
        case 4: if (s[a].g && !s[b].g) { s[b].g.emplace(std::move(*s[a].g)); s[b].id = s[a].id; s[b].on = s[a].on; s[a].on = false; } break;
        case 5: if (s[a].g && s[b].g && a != b) { // move assignment: the target owns the action of the source; its former action may run now or later, but once
            *s[b].g = std::move(*s[a].g);
            std::swap(s[a].id, s[b].id); std::swap(s[a].on, s[b].on);
          } break;
        case 6: // a scope left by return or exception
          {
            long id = next++;
            bool thrown = c.chance(0.5), dis = c.chance(0.3);
            auto f = [&]() -> long {
              auto g = triqs::utility::make_scope_guard(act{&log, std::make_shared<long>(id)});
              size_t before = log.size();
              if (dis) g.dismiss();
              c.check(g.active() == !dis, "active() of a guard is %d", g.active());
              c.check(log.size() == before, "the action runs before the scope is left");
              if (thrown) throw 1;
              return 2;
            };
            try { f(); } catch (int) {}
            if (!dis) expect.push_back(id);
            long cnt = 0;
            auto g = [&] { SCOPE_EXIT { ++cnt; }; SCOPE_EXIT { cnt *= 10; }; c.check(cnt == 0, "SCOPE_EXIT runs early"); if (thrown) throw 1; };
            try { g(); } catch (int) {}
            c.check(cnt == 1, "SCOPE_EXIT blocks do not run once each in reverse order (%ld)", cnt);
            break;
          }
      }
      for (auto &x : s) if (x.g) c.check(x.g->active() == x.on, "active() of a guard is %d", x.g->active());
    }
    for (auto &x : s) if (x.on) expect.push_back(x.id);
  }
  std::sort(log.begin(), log.end());
  std::sort(expect.begin(), expect.end());
  c.check(log == expect, "%zu actions ran, %zu expected", log.size(), expect.size());
  vmon::count("guarded_actions", expect.size());
  if (next > 1) c.nontrivial();
}
struct dress { long const &k; double &v; dress(std::map<long, double>::iterator const &it) : k(it->first), v(it->second) {} };
struct dressp { long k; double *v; const std::string *who; dressp(std::map<long, double>::iterator const &it, const std::string *w) : k(it->first), v(&it->second), who(w) {} };
struct dressf { long &x; dressf(std::forward_list<long>::iterator const &it) : x(*it) {} };
static void iterators(kase &c) {
  std::map<long, double> m;
  for (long n = c.i(0, 12), k = 0; k < n; ++k) m[c.i(-20, 20)] = c.r();
  using it_t = triqs::utility::dressed_iterator<std::map<long, double>::iterator, dress>;
  using ip_t = triqs::utility::dressed_iterator<std::map<long, double>::iterator, dressp, const std::string>;
  std::vector<std::pair<long, double>> ref(m.begin(), m.end()), got;
  for (it_t i(m.begin()), e(m.end()); i != e; ++i) { auto d = *i; got.push_back({d.k, d.v}); d.v += 1; }
  c.check(got == ref, "forward iteration visits %zu elements instead of %zu", got.size(), ref.size());
  for (auto &x : ref) x.second += 1;
  c.check(std::equal(ref.begin(), ref.end(), m.begin(), m.end(), [](auto &a, auto &b) { return a.first == b.first && a.second == b.second; }), "writing through the dressing");
  std::string who = "w", who2 = "v";
  got.clear();
  ip_t b(m.begin(), &who), e(m.end(), &who);
  for (auto i = e; i != b;) { --i; auto d = *i; c.check(d.who == &who && i.get_aux() == &who, "the auxiliary pointer is lost"); got.push_back({d.k, *d.v}); }
  std::reverse(got.begin(), got.end());
  c.check(got == ref, "backward iteration");
  // random walk
  long n = long(ref.size()), p = 0;
  ip_t w = b;
  it_t w1(m.begin());
  for (int s = 0; s < 30; ++s) {
    int what = int(c.i(0, 5));
    c.trace("walk %d at %ld", what, p);
    if (what == 0 && p < n) { auto o = w++; c.check(p == 0 || o != w, "post increment"); c.check(o->k == ref[p].first, "post increment returns the old position"); ++w1; ++p; }
    else if (what == 1 && p < n) { ++w; w1++; ++p; }
    else if (what == 2 && p > 0) { auto o = w--; c.check(p == n || o->k == ref[p].first, "post decrement"); --w1; --p; }
    else if (what == 3 && p > 0) { --w; w1--; --p; }
    else if (what == 4) { ip_t x(m.end(), &who2); x = std::move(w); c.check(x.get_aux() == &who, "aux after move assignment"); w = x; it_t y; y = std::move(w1); w1 = y; }
    else if (what == 5) { ip_t x(w), y(m.begin(), &who); y = x; w = y; it_t z(w1); w1 = z; }
    c.check(w.get() == std::next(m.begin(), p) && w1.get() == w.get() && std::map<long, double>::iterator(w) == w.get(), "position %ld after a walk", p);
    c.check((w == e) == (p == n) && (w != b) == (p != 0), "comparison at position %ld", p);
    if (p < n) c.check((*w).k == ref[p].first && (*w1).v == ref[p].second && w1->k == ref[p].first, "dereference at position %ld", p);
    vmon::count("iterator_steps");
  }
  std::forward_list<long> fl;
  std::vector<long> fr;
  for (long k = c.i(0, 8); k > 0; --k) fl.push_front(c.i(0, 99));
  for (auto x : fl) fr.push_back(x);
  std::vector<long> fg;
  using if_t = triqs::utility::dressed_iterator<std::forward_list<long>::iterator, dressf>;
  for (if_t i(fl.begin()), e2(fl.end()); !(i == e2); i++) fg.push_back((*i).x);
  c.check(fg == fr, "forward list iteration");
  if (n > 1) c.nontrivial(c.u64());
}
static void report(kase &c) {
  std::stringstream ss;
  std::string e;
  int v = int(c.i(-2, 5));
  triqs::utility::report_stream rep(&ss, v);
  auto one = triqs::utility::report_stream(&ss);
  for (int k = 0; k < 10; ++k) {
    int n = int(c.i(-1, 6));
    std::string s = gen<std::string>(c);
    long x = c.i(-99, 99);
    c.trace("verbosity %d level %d %s", v, n, s.c_str());
    if (c.chance(0.5)) { rep(n) << s << x << std::endl << 'c'; if (n <= v) e += s + std::to_string(x) + "\nc"; }
    else if (c.chance(0.7)) { rep << x << s << std::endl; if (v >= 1) e += std::to_string(x) + s + "\n"; }
    else { one << s; one(2) << "no"; one(1) << x; e += s + std::to_string(x); }
    c.check(ss.str() == e, "report of verbosity %d: '%s' instead of '%s'", v, ss.str().c_str(), e.c_str());
    vmon::count("report_messages");
  }
  c.nontrivial(vmon::hash_str(e));
}
void run() {
  vmon::group("tuples", 1800, 40000, tuples);
  vmon::group("variants", 800, 20000, variants);
  vmon::group("scope_guard", 1500, 40000, scope);
  vmon::group("dressed_iterator", 800, 20000, iterators);
  vmon::group("report_stream", 600, 15000, report);
}
