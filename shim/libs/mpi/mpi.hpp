// Stand-in for TRIQS/mpi (not installed here) on top of the real MPI library (MPICH).
// Without MPI_Init everything is serial, as in the original when no MPI environment is present.
#pragma once
#include <mpi.h>
#include <algorithm>
#include <array>
#include <complex>
#include <cstdlib>
#include <cstring>
#include <numeric>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <tuple>
#include <cstdio>
#include <unistd.h>

namespace mpi {

  inline bool is_initialized() noexcept {
    int f = 0;
    MPI_Initialized(&f);
    return f;
  }
  inline bool compute_has_env() {
    for (auto v : {"OMPI_COMM_WORLD_RANK", "PMI_RANK", "CRAY_MPICH_VERSION", "FORCE_MPI_INIT"})
      if (std::getenv(v)) return true;
    return false;
  }
  inline const bool has_env = compute_has_env();

  struct environment {
    environment(int argc, char **argv) {
      if (has_env and !is_initialized()) MPI_Init(&argc, &argv);
    }
    ~environment() {
      int f = 0;
      MPI_Finalized(&f);
      if (has_env and is_initialized() and !f) MPI_Finalize();
    }
  };

  class communicator {
    MPI_Comm _com = MPI_COMM_WORLD;

    public:
    communicator() = default;
    communicator(MPI_Comm c) : _com(c) {}
    [[nodiscard]] MPI_Comm get() const noexcept { return _com; }
    [[nodiscard]] int rank() const {
      if (!on()) return 0;
      int n = 0;
      MPI_Comm_rank(_com, &n);
      return n;
    }
    [[nodiscard]] int size() const {
      if (!on()) return 1;
      int n = 1;
      MPI_Comm_size(_com, &n);
      return n;
    }
    [[nodiscard]] communicator split(int color, int key = 0) const {
      if (!on()) return *this;
      communicator c;
      MPI_Comm_split(_com, color, key, &c._com);
      return c;
    }
    [[nodiscard]] communicator duplicate() const {
      if (!on()) return *this;
      communicator c;
      MPI_Comm_dup(_com, &c._com);
      return c;
    }
    void abort(int code) const {
      if (on()) MPI_Abort(_com, code);
      else std::abort();
    }
    void barrier(long = 1) const {
      if (on()) MPI_Barrier(_com);
    }
    [[nodiscard]] bool on() const { return has_env and is_initialized(); }
    bool operator==(communicator const &) const = default;
  };

  namespace tag {
    struct reduce {};
    struct scatter {};
    struct gather {};
  } // namespace tag

  template <typename Tag, typename T> struct lazy {
    T rhs;
    communicator c;
    int root{};
    bool all{};
    MPI_Op op{};
  };
  template <typename T> struct is_mpi_lazy : std::false_type {};
  template <typename Tag, typename T> struct is_mpi_lazy<lazy<Tag, T>> : std::true_type {};
  template <typename T> inline constexpr bool is_mpi_lazy_v = is_mpi_lazy<T>::value;
  template <typename T> inline constexpr bool is_mpi_lazy_reduce = false;
  template <typename T> inline constexpr bool is_mpi_lazy_reduce<lazy<tag::reduce, T>> = true;

  // ---- native types
  template <typename T> struct mpi_type;
#define SHIM_D(T, M)                                                                                                                                 \
  template <> struct mpi_type<T> {                                                                                                                   \
    static MPI_Datatype get() noexcept { return M; }                                                                                                 \
  };
  SHIM_D(bool, MPI_C_BOOL)
  SHIM_D(char, MPI_CHAR)
  SHIM_D(int, MPI_INT)
  SHIM_D(long, MPI_LONG)
  SHIM_D(long long, MPI_LONG_LONG)
  SHIM_D(unsigned, MPI_UNSIGNED)
  SHIM_D(unsigned long, MPI_UNSIGNED_LONG)
  SHIM_D(unsigned long long, MPI_UNSIGNED_LONG_LONG)
  SHIM_D(double, MPI_DOUBLE)
  SHIM_D(float, MPI_FLOAT)
  SHIM_D(std::complex<double>, MPI_C_DOUBLE_COMPLEX)
#undef SHIM_D
  template <typename T> struct mpi_type<T const> : mpi_type<T> {};
  template <typename T, typename = void> inline constexpr bool has_mpi_type = false;
  template <typename T> inline constexpr bool has_mpi_type<T, std::void_t<decltype(mpi_type<T>::get())>> = true;

  inline long chunk_length(long n, int nr, int r) { return n / nr + (r < n % nr ? 1 : 0); }
  inline std::pair<long, long> chunk(long n, int nr, int r) { // [first,last[
    long b = n / nr, x = n % nr;
    long f = b * r + std::min<long>(r, x);
    return {f, f + b + (r < x ? 1 : 0)};
  }

  // ---- native
  template <typename T>
    requires has_mpi_type<T>
  void mpi_broadcast(T &a, communicator c = {}, int root = 0) {
    if (c.on()) MPI_Bcast(&a, 1, mpi_type<T>::get(), root, c.get());
  }
  template <typename T>
    requires has_mpi_type<T>
  T mpi_reduce(T const &a, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    if (!c.on()) return a;
    T b{};
    auto d = mpi_type<T>::get();
    if (!all) MPI_Reduce(&a, &b, 1, d, op, root, c.get());
    else MPI_Allreduce(&a, &b, 1, d, op, c.get());
    return b;
  }
  template <typename T>
    requires has_mpi_type<T>
  void mpi_reduce_in_place(T &a, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    if (!c.on()) return;
    auto d = mpi_type<T>::get();
    if (!all) MPI_Reduce((c.rank() == root ? MPI_IN_PLACE : &a), &a, 1, d, op, root, c.get());
    else MPI_Allreduce(MPI_IN_PLACE, &a, 1, d, op, c.get());
  }

  // ---- generic entry points
  template <typename T> void broadcast(T &&x, communicator c = {}, int root = 0) { mpi_broadcast(x, c, root); }
  template <typename T> decltype(auto) reduce(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    return mpi_reduce(std::forward<T>(x), c, root, all, op);
  }
  template <typename T> decltype(auto) all_reduce(T &&x, communicator c = {}, MPI_Op op = MPI_SUM) { return reduce(std::forward<T>(x), c, 0, true, op); }
  template <typename T> void reduce_in_place(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) { mpi_reduce_in_place(x, c, root, all, op); }
  template <typename T> void all_reduce_in_place(T &&x, communicator c = {}, MPI_Op op = MPI_SUM) { reduce_in_place(x, c, 0, true, op); }
  template <typename T> decltype(auto) scatter(T &&x, communicator c = {}, int root = 0) { return mpi_scatter(std::forward<T>(x), c, root); }
  template <typename T> decltype(auto) gather(T &&x, communicator c = {}, int root = 0, bool all = false) { return mpi_gather(std::forward<T>(x), c, root, all); }
  template <typename T> decltype(auto) all_gather(T &&x, communicator c = {}) { return gather(std::forward<T>(x), c, 0, true); }

  template <typename T> [[nodiscard]] T all_equal_value(T x) { return x; }

  // ---- pair, array, vector, string
  namespace detail {
    template <typename T> struct regular { using type = T; };
    template <typename T>
      requires(requires { typename T::regular_type; })
    struct regular<T> { using type = typename T::regular_type; };
  } // namespace detail
  template <typename T> using regular_t = typename detail::regular<std::decay_t<T>>::type;
  template <typename A, typename B> void mpi_broadcast(std::pair<A, B> &p, communicator c = {}, int root = 0) {
    broadcast(p.first, c, root);
    broadcast(p.second, c, root);
  }
  template <typename A, typename B> auto mpi_reduce(std::pair<A, B> const &p, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    return std::pair<A, B>{reduce(p.first, c, root, all, op), reduce(p.second, c, root, all, op)};
  }
  template <typename T, size_t N> void mpi_broadcast(std::array<T, N> &p, communicator c = {}, int root = 0) {
    for (auto &x : p) broadcast(x, c, root);
  }

  template <typename T> void mpi_broadcast(std::vector<T> &v, communicator c = {}, int root = 0) {
    if (!c.on()) return;
    long n = long(v.size());
    broadcast(n, c, root);
    if (c.rank() != root) v.resize(n);
    if constexpr (has_mpi_type<T>) {
      if (n) MPI_Bcast(v.data(), int(n), mpi_type<T>::get(), root, c.get());
    } else
      for (auto &x : v) broadcast(x, c, root);
  }
  template <typename T> auto mpi_reduce(std::vector<T> const &v, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    if constexpr (has_mpi_type<T>) {
      std::vector<T> r(v.size());
      if (!c.on()) return v;
      auto d = mpi_type<T>::get();
      if (!all) MPI_Reduce(v.data(), r.data(), int(v.size()), d, op, root, c.get());
      else MPI_Allreduce(v.data(), r.data(), int(v.size()), d, op, c.get());
      return r;
    } else {
      std::vector<regular_t<T>> r;
      r.reserve(v.size());
      for (auto const &x : v) r.emplace_back(reduce(x, c, root, all, op));
      return r;
    }
  }
  template <typename T> void mpi_reduce_in_place(std::vector<T> &v, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    if (!c.on()) return;
    if constexpr (has_mpi_type<T>) {
      auto d = mpi_type<T>::get();
      if (!all) MPI_Reduce((c.rank() == root ? MPI_IN_PLACE : v.data()), v.data(), int(v.size()), d, op, root, c.get());
      else MPI_Allreduce(MPI_IN_PLACE, v.data(), int(v.size()), d, op, c.get());
    } else
      for (auto &x : v) reduce_in_place(x, c, root, all, op);
  }
  template <typename T> std::vector<T> mpi_scatter(std::vector<T> const &v, communicator c = {}, int root = 0) {
    if (!c.on()) return v;
    long n = long(v.size());
    broadcast(n, c, root);
    std::vector<T> full = v;
    mpi_broadcast(full, c, root);
    auto [a, b] = chunk(n, c.size(), c.rank());
    return {full.begin() + a, full.begin() + b};
  }
  template <typename T> std::vector<T> mpi_gather(std::vector<T> const &v, communicator c = {}, int root = 0, bool all = false) {
    if (!c.on()) return v;
    std::vector<T> r;
    for (int k = 0; k < c.size(); ++k) {
      std::vector<T> p = v;
      mpi_broadcast(p, c, k);
      if (all or c.rank() == root) r.insert(r.end(), p.begin(), p.end());
    }
    return r;
  }
  inline void mpi_broadcast(std::string &s, communicator c = {}, int root = 0) {
    if (!c.on()) return;
    std::vector<char> v(s.begin(), s.end());
    mpi_broadcast(v, c, root);
    s.assign(v.begin(), v.end());
  }
  inline std::string mpi_gather(std::string const &s, communicator c = {}, int root = 0, bool all = false) {
    std::vector<char> v(s.begin(), s.end());
    auto r = mpi_gather(v, c, root, all);
    return {r.begin(), r.end()};
  }
  // a scalar gathered: one value per rank
  template <typename T>
    requires has_mpi_type<T>
  std::vector<T> mpi_gather(T const &a, communicator c = {}, int root = 0, bool all = false) {
    return mpi_gather(std::vector<T>{a}, c, root, all);
  }
} // namespace mpi
