// Monitoring kernel shared by all C++ drivers of /verif.
//  * every case is derived from (VERIF_SEED, group, index) only -> replayable with --only group:index
//  * the trace of the running case lives in an mmap-ed file, so it survives a sanitizer abort
//  * the result (counts, distinct fingerprints, violations, samples) is written as JSON
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
#include <chrono>

namespace vmon {

  struct failure {
    std::string msg;
  };

  inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  inline uint64_t hash_str(std::string const &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
  }

  __attribute__((format(printf, 1, 2))) inline uint64_t hash_fmt(const char *f, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return hash_str(b);
  }

  struct rng {
    uint64_t s;
    explicit rng(uint64_t seed = 0) : s(seed) {}
    uint64_t u64() {
      s += 0x9e3779b97f4a7c15ULL;
      uint64_t z = s;
      z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
      z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
      return z ^ (z >> 31);
    }
    // integer in [lo,hi]
    long i(long lo, long hi) { return lo + long(u64() % uint64_t(hi - lo + 1)); }
    double r() { return double(u64() >> 11) * 0x1.0p-53; }
    double r(double a, double b) { return a + (b - a) * r(); }
    bool chance(double p) { return r() < p; }
    double normal() {
      double u = 1.0 - r(), v = r();
      return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    std::complex<double> cplx() { return {r(-1, 1), r(-1, 1)}; }
    template <typename V> auto const &pick(V const &v) { return v[i(0, long(v.size()) - 1)]; }
    template <typename V> void shuffle(V &v) {
      for (long k = long(v.size()) - 1; k > 0; --k) {
        long j                   = i(0, k);
        typename V::value_type t = v[k];
        v[k]                     = v[j];
        v[j]                     = t;
      }
    }
  };

  struct violation {
    std::string group;
    long index;
    std::string msg, trace;
  };

  struct state {
    uint64_t seed = 1;
    bool thorough = false;
    std::string only_group;
    long only_index = -1;
    long shard = 0, nshards = 1;
    std::string out, progress;
    char *map              = nullptr;
    size_t map_size        = 1 << 16;
    size_t pos             = 0;
    std::map<std::string, long> cases, counters;
    std::map<std::string, std::unordered_set<uint64_t>> fingerprints;
    std::vector<violation> violations;
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, double> secs;
    double scale = 1.0;
    int rank     = 0;
  };
  inline state &S() {
    static state s;
    return s;
  }

  inline std::string esc(std::string const &x) {
    std::string r;
    for (unsigned char c : x) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += char(c);
      } else if (c == '\n')
        r += "\\n";
      else if (c < 0x20 || c > 0x7e) {
        char b[8];
        snprintf(b, 8, "\\u%04x", c);
        r += b;
      } else
        r += char(c);
    }
    return r;
  }

  inline void map_put(std::string const &t) {
    auto &s = S();
    if (!s.map) return;
    size_t room = s.map_size - 1 - s.pos;
    size_t n    = std::min(room, t.size());
    memcpy(s.map + s.pos, t.data(), n);
    s.pos += n;
    s.map[s.pos] = 0;
  }

  // count events seen by a monitor
  inline void count(std::string const &what, long n = 1) { S().counters[what] += n; }

  struct kase : rng {
    std::string group;
    long index;
    uint64_t fp     = 0;
    bool nontriv    = false;
    kase(std::string g, long ix) : rng(mix(mix(S().seed) ^ hash_str(g) ^ mix(uint64_t(ix) * 7919 + 13))), group(g), index(ix) {}

    void trace(const char *f, ...) __attribute__((format(printf, 2, 3))) {
      char b[2048];
      va_list ap;
      va_start(ap, f);
      vsnprintf(b, sizeof b, f, ap);
      va_end(ap);
      map_put(b);
      map_put("; ");
      fp = mix(fp ^ hash_str(b));
    }
    // Mark this case as non trivial: its fingerprint is that of its trace plus x
    void nontrivial(uint64_t x = 0) {
      nontriv = true;
      fp      = mix(fp ^ x);
    }
    void check(bool ok, const char *f, ...) __attribute__((format(printf, 3, 4))) {
      ++S().counters["oracle_checks"];
      if (ok) return;
      char b[4096];
      va_list ap;
      va_start(ap, f);
      vsnprintf(b, sizeof b, f, ap);
      va_end(ap);
      throw failure{b};
    }
    template <typename X, typename Y> void eq(X const &x, Y const &y, std::string const &what) {
      ++S().counters["oracle_checks"];
      if (x == y) return;
      std::ostringstream o;
      o.precision(17);
      o << what << ": got " << x << " expected " << y;
      throw failure{o.str()};
    }
    void close(double x, double y, double tol, std::string const &what) {
      ++S().counters["oracle_checks"];
      if (x == y) return;
      if (std::abs(x - y) <= tol) return; // false for NaN
      char b[2048];
      snprintf(b, sizeof b, "%s: got %.17g expected %.17g (tol %.3g)", what.c_str(), x, y, tol);
      throw failure{b};
    }
    void close(std::complex<double> x, std::complex<double> y, double tol, std::string const &what) {
      ++S().counters["oracle_checks"];
      if (std::abs(x - y) <= tol) return;
      char b[2048];
      snprintf(b, sizeof b, "%s: got (%.17g,%.17g) expected (%.17g,%.17g) (tol %.3g)", what.c_str(), x.real(), x.imag(), y.real(), y.imag(), tol);
      throw failure{b};
    }
    template <typename F> void throws(F &&f, std::string const &what) {
      ++S().counters["oracle_checks"];
      bool ok = false;
      try {
        f();
      } catch (failure const &) { throw; } catch (...) {
        ok = true;
      }
      if (!ok) throw failure{what + ": expected an exception, none was thrown"};
    }
  };

  inline bool selected(std::string const &name) { return S().only_group.empty() or S().only_group == name; }

  // Run a group of cases. Stops after 3 violations in the group.
  inline void write_result();
  inline void (*&on_failure())() { static void (*f)() = nullptr; return f; } // several processes: a failing one ends them all
  template <typename F> void group(std::string const &name, long n_quick, long n_thorough, F &&f) {
    auto &s = S();
    if (!selected(name)) return;
    long n = s.thorough ? n_thorough : n_quick;
    auto t0 = std::chrono::steady_clock::now();
    int bad = 0;
    for (long k = 0; k < n && bad < 3; ++k) {
      if (s.only_index >= 0 ? k != s.only_index : k % s.nshards != s.shard) continue;
      kase c(name, k);
      s.pos = 0;
      char hd[256];
      snprintf(hd, sizeof hd, "CASE %s %ld\n", name.c_str(), k);
      map_put(hd);
      size_t start = s.pos;
      std::string msg;
      bool failed = false;
      try {
        f(c);
      } catch (failure const &e) {
        failed = true;
        msg    = e.msg;
      } catch (std::exception const &e) {
        failed = true;
        msg    = std::string("unexpected exception: ") + e.what();
      } catch (...) {
        failed = true;
        msg    = "unexpected exception of unknown type";
      }
      ++s.cases[name];
      std::string tr = s.map ? std::string(s.map + start) : std::string{};
      if (failed) {
        ++bad;
        s.violations.push_back({name, k, msg, tr});
        std::cerr << "MONITOR group=" << name << " index=" << k << " : " << msg << "\n  trace: " << tr.substr(0, 2000) << "\n";
        if (on_failure()) { write_result(); on_failure()(); }
      }
      if (c.nontriv) {
        s.fingerprints[name].insert(c.fp);
        auto &sm = s.samples[name];
        if (sm.size() < 2) sm.push_back(tr.substr(0, 600));
      }
    }
    s.secs[name] = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    s.pos        = 0;
    map_put("BETWEEN after " + name + "\n");
  }

  inline void write_result() {
    auto &s = S();
    if (s.out.empty()) return;
    std::ostringstream o;
    o << "{\"cases\":{";
    const char *sep = "";
    for (auto &[k, v] : s.cases) { o << sep << "\"" << esc(k) << "\":" << v; sep = ","; }
    o << "},\"distinct\":{";
    sep = "";
    for (auto &[k, v] : s.fingerprints) { o << sep << "\"" << esc(k) << "\":" << v.size(); sep = ","; }
    o << "},\"secs\":{";
    sep = "";
    for (auto &[k, v] : s.secs) { o << sep << "\"" << esc(k) << "\":" << v; sep = ","; }
    o << "},\"counters\":{";
    sep = "";
    for (auto &[k, v] : s.counters) { o << sep << "\"" << esc(k) << "\":" << v; sep = ","; }
    o << "},\"violations\":[";
    sep = "";
    for (auto &v : s.violations) {
      o << sep << "{\"group\":\"" << esc(v.group) << "\",\"index\":" << v.index << ",\"msg\":\"" << esc(v.msg) << "\",\"trace\":\"" << esc(v.trace) << "\"}";
      sep = ",";
    }
    o << "],\"samples\":[";
    sep = "";
    for (auto &[g, l] : s.samples)
      for (auto &v : l) { o << sep << "\"" << esc(g + ": " + v) << "\""; sep = ","; }
    o << "],\"complete\":true}\n";
    std::string tmp = s.out + ".tmp";
    FILE *f = fopen(tmp.c_str(), "w");
    if (!f) { perror("result"); exit(3); }
    auto str = o.str();
    fwrite(str.data(), 1, str.size(), f);
    fclose(f);
    rename(tmp.c_str(), s.out.c_str());
  }

  inline void init(int argc, char **argv) {
    auto &s = S();
    for (int k = 1; k < argc; ++k) {
      std::string a = argv[k];
      auto nxt      = [&]() -> std::string { return k + 1 < argc ? argv[++k] : ""; };
      if (a == "--seed") s.seed = std::stoull(nxt());
      else if (a == "--tier") s.thorough = (nxt() == "thorough");
      else if (a == "--out") s.out = nxt();
      else if (a == "--progress") s.progress = nxt();
      else if (a == "--shard") {
        std::string v = nxt();
        s.shard       = std::stol(v);
        s.nshards     = std::stol(v.substr(v.find('/') + 1));
      } else if (a == "--only") {
        auto v = nxt();
        auto p = v.rfind(':');
        if (p == std::string::npos) s.only_group = v;
        else { s.only_group = v.substr(0, p); s.only_index = std::stol(v.substr(p + 1)); }
      }
    }
    if (const char *r = getenv("OMPI_COMM_WORLD_RANK")) s.rank = atoi(r);
    if (s.rank) { if (!s.out.empty()) s.out += "." + std::to_string(s.rank); if (!s.progress.empty()) s.progress += "." + std::to_string(s.rank); }
    std::string p = s.progress.empty() ? std::string{} : s.progress;
    if (!p.empty()) {
      int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0 && ftruncate(fd, off_t(s.map_size)) == 0)
        s.map = static_cast<char *>(mmap(nullptr, s.map_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
      if (s.map == MAP_FAILED) s.map = nullptr;
      if (fd >= 0) close(fd);
    }
    if (!s.map) s.map = static_cast<char *>(calloc(1, s.map_size));
  }

  inline int finish() {
    write_result();
    return S().violations.empty() ? 0 : 1;
  }
} // namespace vmon

// the drivers define void run();
#ifndef VMON_NO_MAIN
void run();
#ifdef VMON_MPI
#include <mpi.h>
#endif
int main(int argc, char **argv) {
#ifdef VMON_MPI
  MPI_Init(&argc, &argv);
  int n_proc = 1;
  MPI_Comm_size(MPI_COMM_WORLD, &n_proc);
  if (const char *e = getenv("VERIF_MPI"); e && atoi(e) != n_proc) { fprintf(stderr, "%d processes instead of %s\n", n_proc, e); return 4; }
  if (n_proc > 1) vmon::on_failure() = [] { MPI_Abort(MPI_COMM_WORLD, 1); };
#endif
  vmon::init(argc, argv);
  run();
  int rc = vmon::finish();
#ifdef VMON_MPI
  MPI_Finalize();
#endif
  return rc;
}
#endif
