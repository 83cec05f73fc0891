// Stand-in for cppdlr (not installed here): discrete Lehmann representation with the same conventions.
#pragma once
#include <nda/nda.hpp>
#include <nda/h5.hpp>
#include <nda/lapack.hpp>
#include <h5/h5.hpp>
#include <cmath>
namespace cppdlr {
  enum statistic_t { Boson = 0, Fermion = 1 };
  // kernel on the relative time format: t in [0,1/2] or t in [-1/2,0) for 1+t; any t in [0,1] accepted
  inline double k_it(double t, double om) {
    if (t < 0) return k_it(-t, -om);
    if (om >= 0) return -std::exp(-t * om) / (1 + std::exp(-om));
    return -std::exp((1 - t) * om) / (1 + std::exp(om));
  }
  inline std::complex<double> k_if(long n, double om, statistic_t s) {
    std::complex<double> iw(0, M_PI * (2 * n + (s == Fermion ? 1 : 0)));
    if (s == Fermion) return 1.0 / (iw - om);
    if (n == 0) return std::abs(om) < 1e-8 ? -0.5 : -std::tanh(om / 2) / om;
    return std::tanh(om / 2) / (iw - om);
  }
  namespace detail {
    inline std::vector<double> cheb(int p) {
      std::vector<double> x(p);
      for (int i = 0; i < p; ++i) x[i] = std::cos(M_PI * (2 * (p - 1 - i) + 1) / (2.0 * p));
      return x;
    }
    inline std::vector<double> om_grid(double lambda) {
      int p = 24, n = std::max(1, int(std::ceil(std::log2(std::max(2.0, lambda)))));
      auto c = cheb(p);
      std::vector<double> r;
      for (int s : {-1, 1})
        for (int k = 0; k < n; ++k) {
          double a = k == 0 ? 0 : lambda * std::pow(2.0, k - n), b = lambda * std::pow(2.0, k + 1 - n);
          for (double x : c) r.push_back(s * (a + (b - a) * (x + 1) / 2));
        }
      return r;
    }
    inline std::vector<double> t_grid(double lambda) { // relative times
      int p = 24, n = std::max(1, int(std::ceil(std::log2(std::max(2.0, lambda)))) - 2);
      auto c = cheb(p);
      std::vector<double> r;
      for (int s : {1, -1})
        for (int k = 0; k < n; ++k) {
          double a = k == 0 ? 0 : 0.5 * std::pow(2.0, k - n), b = 0.5 * std::pow(2.0, k + 1 - n);
          for (double x : c) r.push_back(s * (a + (b - a) * (x + 1) / 2));
        }
      return r;
    }
    // pivoted Gram-Schmidt on rows; returns the indices of the pivots (at most maxr, stop below eps relative)
    template <typename V> std::vector<long> pivots(std::vector<std::vector<V>> a, double eps, long maxr) {
      std::vector<long> piv;
      std::vector<char> used(a.size(), 0);
      auto nrm = [](auto const &v) { double s = 0; for (auto const &x : v) s += std::norm(x); return s; };
      double first = -1;
      while (long(piv.size()) < maxr) {
        long b = -1;
        double bn = -1;
        for (size_t i = 0; i < a.size(); ++i)
          if (!used[i]) {
            double n = nrm(a[i]);
            if (n > bn) { bn = n; b = long(i); }
          }
        if (b < 0) break;
        if (first < 0) first = bn;
        if (eps > 0 and std::sqrt(bn) <= eps * std::sqrt(first)) break;
        piv.push_back(b);
        used[b] = 1;
        auto q = a[b];
        double in = 1 / std::sqrt(bn);
        for (auto &x : q) x *= in;
        for (int rep = 0; rep < 2; ++rep)
          for (size_t i = 0; i < a.size(); ++i) {
            if (used[i]) continue;
            V s(0);
            for (size_t k = 0; k < q.size(); ++k) s += nda::conj(q[k]) * a[i][k];
            for (size_t k = 0; k < q.size(); ++k) a[i][k] -= s * q[k];
          }
      }
      return piv;
    }
    // solve M X = B, B has n rows and m columns (row major)
    template <typename V> void solve(std::vector<V> M, long n, std::vector<V> &B, long m) {
      for (long k = 0; k < n; ++k) {
        long p = k;
        for (long i = k + 1; i < n; ++i)
          if (std::abs(M[i * n + k]) > std::abs(M[p * n + k])) p = i;
        if (p != k) {
          for (long j = 0; j < n; ++j) std::swap(M[p * n + j], M[k * n + j]);
          for (long j = 0; j < m; ++j) std::swap(B[p * m + j], B[k * m + j]);
        }
        for (long i = k + 1; i < n; ++i) {
          V f = M[i * n + k] / M[k * n + k];
          if (f == V(0)) continue;
          for (long j = k; j < n; ++j) M[i * n + j] -= f * M[k * n + j];
          for (long j = 0; j < m; ++j) B[i * m + j] -= f * B[k * m + j];
        }
      }
      for (long k = n - 1; k >= 0; --k)
        for (long j = 0; j < m; ++j) {
          V s = B[k * m + j];
          for (long l = k + 1; l < n; ++l) s -= M[k * n + l] * B[l * m + j];
          B[k * m + j] = s / M[k * n + k];
        }
    }
    template <typename V, typename A> auto apply_solve(nda::array<V, 2> const &K, A const &g) {
      using W = std::common_type_t<V, nda::get_value_t<A>>;
      auto sh = nda::stdutil::make_std_array<long>(g.shape());
      long n = K.shape()[0];
      if (sh[0] != n) nda::detail::shim_fail("cppdlr: first dimension of the values differs from the number of DLR nodes");
      long m = n ? g.size() / n : 0;
      nda::array<W, nda::get_rank<A>> r(g);
      std::vector<W> M(K.begin(), K.end()), B(r.data(), r.data() + r.size());
      solve(M, n, B, m);
      std::copy(B.begin(), B.end(), r.data());
      return r;
    }
    template <typename V, typename A> auto apply_mul(nda::array<V, 2> const &K, A const &g) {
      using W = std::common_type_t<V, nda::get_value_t<A>>;
      auto sh = nda::stdutil::make_std_array<long>(g.shape());
      long n = K.shape()[1];
      if (sh[0] != n) nda::detail::shim_fail("cppdlr: first dimension of the coefficients differs from the number of DLR frequencies");
      long m = n ? g.size() / n : 0;
      nda::array<W, nda::get_rank<A>> in(g);
      sh[0] = K.shape()[0];
      auto r = nda::array<W, nda::get_rank<A>>::zeros(sh);
      for (long i = 0; i < K.shape()[0]; ++i)
        for (long k = 0; k < n; ++k)
          for (long j = 0; j < m; ++j) r.data()[i * m + j] += K(i, k) * in.data()[k * m + j];
      return r;
    }
  } // namespace detail

  inline nda::vector<double> build_dlr_rf(double lambda, double eps) {
    auto om = detail::om_grid(lambda);
    auto t  = detail::t_grid(lambda);
    std::vector<std::vector<double>> a;
    for (double o : om) {
      std::vector<double> row;
      for (double x : t) row.push_back(k_it(x, o));
      a.push_back(std::move(row));
    }
    auto p = detail::pivots(a, eps, long(om.size()));
    std::vector<double> f;
    for (long i : p) f.push_back(om[i]);
    std::sort(f.begin(), f.end());
    nda::vector<double> r(long(f.size()));
    for (size_t i = 0; i < f.size(); ++i) r(long(i)) = f[i];
    return r;
  }

  class imtime_ops {
    double lambda_ = 0;
    nda::vector<double> rf, it;
    nda::array<double, 2> cf2it;
    void build() {
      cf2it.resize(it.size(), rf.size());
      for (long i = 0; i < it.size(); ++i)
        for (long j = 0; j < rf.size(); ++j) cf2it(i, j) = k_it(it(i), rf(j));
    }

    public:
    imtime_ops() = default;
    imtime_ops(double lambda, nda::vector<double> const &f) : lambda_(lambda), rf(f) {
      auto t = detail::t_grid(lambda);
      std::vector<std::vector<double>> a;
      for (double x : t) {
        std::vector<double> row;
        for (long j = 0; j < rf.size(); ++j) row.push_back(k_it(x, rf(j)));
        a.push_back(std::move(row));
      }
      auto p = detail::pivots(a, 0, rf.size());
      std::vector<double> g;
      for (long i : p) g.push_back(t[i]);
      std::sort(g.begin(), g.end(), [](double x, double y) { return (x < 0 ? 1 + x : x) < (y < 0 ? 1 + y : y); });
      it.resize(long(g.size()));
      for (size_t i = 0; i < g.size(); ++i) it(long(i)) = g[i];
      build();
    }
    [[nodiscard]] auto const &get_itnodes() const { return it; }
    [[nodiscard]] double lambda() const { return lambda_; }
    [[nodiscard]] long rank() const { return rf.size(); }
    template <typename A> auto vals2coefs(A const &g) const { return detail::apply_solve(cf2it, g); }
    template <typename A> auto coefs2vals(A const &g) const { return detail::apply_mul(cf2it, g); }
    template <typename T, typename A> auto fitvals2coefs(T const &t, A const &g) const {
      using W = nda::get_value_t<A>;
      long n = t.size(), r = rf.size(), m = n ? g.size() / n : 0;
      std::vector<std::complex<double>> K(n * r), B(std::max(n, r) * m); // column major
      long lb = std::max(n, r);
      nda::array<W, nda::get_rank<A>> gc(g);
      for (long i = 0; i < n; ++i) {
        for (long j = 0; j < r; ++j) K[i + j * n] = k_it(t(i), rf(j));
        for (long j = 0; j < m; ++j) B[i + j * lb] = gc.data()[i * m + j];
      }
      int N = int(n), R = int(r), Mm = int(m), LB = int(lb), rank = 0, info = 0, lw = int(4 * (n + r) + 64 * std::max(n, r) + 64 * m);
      double rcond = -1;
      std::vector<double> sv(std::min(n, r)), rw(5 * std::min(n, r));
      std::vector<std::complex<double>> w(lw);
      zgelss_(&N, &R, &Mm, K.data(), &N, B.data(), &LB, sv.data(), &rcond, &rank, w.data(), &lw, rw.data(), &info);
      if (info) throw nda::runtime_error("gelss failed");
      auto sh = nda::stdutil::make_std_array<long>(g.shape());
      sh[0]   = r;
      nda::array<W, nda::get_rank<A>> res(sh);
      for (long i = 0; i < r; ++i)
        for (long j = 0; j < m; ++j) {
          if constexpr (nda::is_complex_v<W>) res.data()[i * m + j] = B[i + j * lb];
          else res.data()[i * m + j] = B[i + j * lb].real();
        }
      return res;
    }
    static std::string hdf5_format() { return "cppdlr::imtime_ops"; }
    friend void h5_write(h5::group fg, std::string const &name, imtime_ops const &m) {
      auto gr = fg.create_group(name);
      write_hdf5_format(gr, m);
      h5::write(gr, "lambda", m.lambda_);
      h5::write(gr, "rf", m.rf);
      h5::write(gr, "it", m.it);
    }
    friend void h5_read(h5::group fg, std::string const &name, imtime_ops &m) {
      auto gr = fg.open_group(name);
      assert_hdf5_format(gr, m);
      h5::read(gr, "lambda", m.lambda_);
      h5::read(gr, "rf", m.rf);
      h5::read(gr, "it", m.it);
      m.build();
    }
  };

  class imfreq_ops {
    double lambda_ = 0;
    statistic_t stat = Fermion;
    nda::vector<double> rf;
    nda::vector<int> in;
    nda::array<std::complex<double>, 2> cf2if;
    void build() {
      cf2if.resize(in.size(), rf.size());
      for (long i = 0; i < in.size(); ++i)
        for (long j = 0; j < rf.size(); ++j) cf2if(i, j) = k_if(in(i), rf(j), stat);
    }

    public:
    imfreq_ops() = default;
    imfreq_ops(double lambda, nda::vector<double> const &f, statistic_t s) : lambda_(lambda), stat(s), rf(f) {
      long nmax = long(std::ceil(std::max(lambda, 10.0)));
      std::vector<long> ns;
      for (long n = -nmax; n <= nmax; ++n)
        if (std::abs(n) < 50 or std::abs(n) % (1 + std::abs(n) / 50) == 0) ns.push_back(n);
      std::vector<std::vector<std::complex<double>>> a;
      for (long n : ns) {
        std::vector<std::complex<double>> row;
        for (long j = 0; j < rf.size(); ++j) row.push_back(k_if(n, rf(j), s));
        a.push_back(std::move(row));
      }
      auto p = detail::pivots(a, 0, rf.size());
      std::vector<long> g;
      for (long i : p) g.push_back(ns[i]);
      std::sort(g.begin(), g.end());
      in.resize(long(g.size()));
      for (size_t i = 0; i < g.size(); ++i) in(long(i)) = int(g[i]);
      build();
    }
    [[nodiscard]] auto const &get_ifnodes() const { return in; }
    [[nodiscard]] double lambda() const { return lambda_; }
    [[nodiscard]] long rank() const { return rf.size(); }
    template <typename A> auto vals2coefs(A const &g) const { return detail::apply_solve(cf2if, g); }
    template <typename A> auto coefs2vals(A const &g) const { return detail::apply_mul(cf2if, g); }
    static std::string hdf5_format() { return "cppdlr::imfreq_ops"; }
    friend void h5_write(h5::group fg, std::string const &name, imfreq_ops const &m) {
      auto gr = fg.create_group(name);
      write_hdf5_format(gr, m);
      h5::write(gr, "lambda", m.lambda_);
      h5::write(gr, "stat", int(m.stat));
      h5::write(gr, "rf", m.rf);
      h5::write(gr, "in", m.in);
    }
    friend void h5_read(h5::group fg, std::string const &name, imfreq_ops &m) {
      auto gr = fg.open_group(name);
      assert_hdf5_format(gr, m);
      int s = 0;
      h5::read(gr, "lambda", m.lambda_);
      h5::read(gr, "stat", s);
      m.stat = statistic_t(s);
      h5::read(gr, "rf", m.rf);
      h5::read(gr, "in", m.in);
      m.build();
    }
  };
} // namespace cppdlr
