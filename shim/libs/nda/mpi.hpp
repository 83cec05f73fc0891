#pragma once
#include "./nda.hpp"
#include <mpi/mpi.hpp>
namespace nda {
  template <typename A>
    requires(MemoryArray<A>)
  void mpi_broadcast(A &&a, mpi::communicator c = {}, int root = 0) {
    using V = typename std::remove_cvref_t<A>::value_type;
    if (!c.on()) return;
    auto s = a.shape();
    MPI_Bcast(s.data(), int(s.size()), MPI_LONG, root, c.get());
    if constexpr (is_regular_v<std::remove_cvref_t<A>>) a.resize(s);
    else if (s != a.shape()) detail::shim_fail("mpi broadcast of a view: shape mismatch");
    auto t = make_regular(a);
    if constexpr (mpi::has_mpi_type<V>) MPI_Bcast(t.data(), int(t.size()), mpi::mpi_type<V>::get(), root, c.get());
    else
      for (auto &x : t) mpi::broadcast(x, c, root);
    if constexpr (is_regular_v<std::remove_cvref_t<A>>) a = t;
    else a = t;
  }
  template <typename A>
    requires(MemoryArray<A>)
  auto mpi_reduce(A const &a, mpi::communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    using V = typename std::remove_cvref_t<A>::value_type;
    basic_array<V, get_rank<A>, C_layout, get_algebra<A>, heap<>> t(a);
    if (!c.on()) return t;
    auto r = t;
    if constexpr (mpi::has_mpi_type<V>) {
      auto d = mpi::mpi_type<V>::get();
      if (all) MPI_Allreduce(t.data(), r.data(), int(t.size()), d, op, c.get());
      else MPI_Reduce(t.data(), r.data(), int(t.size()), d, op, root, c.get());
    } else {
      auto it = r.begin();
      for (auto &x : t) { *it = mpi::reduce(x, c, root, all, op); ++it; }
    }
    if (!all and c.rank() != root) r = t;
    return r;
  }
  template <typename A>
    requires(MemoryArray<A>)
  void mpi_reduce_in_place(A &&a, mpi::communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    auto r = mpi_reduce(a, c, root, all, op);
    if (all or c.rank() == root) a = r;
  }
  // scatter / gather along the first dimension
  template <typename A>
    requires(MemoryArray<A>)
  auto mpi_scatter(A const &a, mpi::communicator c = {}, int root = 0) {
    basic_array<typename std::remove_cvref_t<A>::value_type, get_rank<A>, C_layout, get_algebra<A>, heap<>> t(a);
    if (!c.on()) return t;
    mpi_broadcast(t, c, root);
    auto [b, e] = mpi::chunk(t.shape()[0], c.size(), c.rank());
    return make_regular(t(range(b, e), ellipsis()));
  }
  template <typename A>
    requires(MemoryArray<A>)
  auto mpi_gather(A const &a, mpi::communicator c = {}, int root = 0, bool all = false) {
    basic_array<typename std::remove_cvref_t<A>::value_type, get_rank<A>, C_layout, get_algebra<A>, heap<>> t(a);
    if (!c.on()) return t;
    auto s  = t.shape();
    long n0 = s[0], n = 0;
    MPI_Allreduce(&n0, &n, 1, MPI_LONG, MPI_SUM, c.get());
    s[0] = n;
    decltype(t) r(s);
    long pos = 0;
    for (int k = 0; k < c.size(); ++k) {
      auto p = t;
      mpi_broadcast(p, c, k);
      if (p.shape()[0] > 0) r(range(pos, pos + p.shape()[0]), ellipsis()) = p;
      pos += p.shape()[0];
    }
    if (!all and c.rank() != root) {
      s[0] = 0;
      return decltype(t)(s);
    }
    return r;
  }
} // namespace nda
