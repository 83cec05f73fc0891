#pragma once
#include "./mpi.hpp"
namespace mpi {
  // Node-failure monitor: any rank may request an emergency stop, every rank can ask whether one did.
  class monitor {
    communicator com;
    MPI_Win win       = MPI_WIN_NULL;
    int *flag         = nullptr; // one int on rank 0: number of requests
    bool local_stop   = false, final_ = false;

    public:
    monitor(communicator c) : com(c.duplicate()) {
      MPI_Win_allocate(sizeof(int), sizeof(int), MPI_INFO_NULL, com.get(), &flag, &win);
      *flag = 0;
      MPI_Win_lock_all(0, win);
      MPI_Barrier(com.get());
    }
    monitor(monitor const &)            = delete;
    monitor &operator=(monitor const &) = delete;
    ~monitor() { finalize_communications(); }
    void request_emergency_stop() {
      if (local_stop or final_) return;
      local_stop = true;
      int one    = 1;
      MPI_Accumulate(&one, 1, MPI_INT, 0, 0, 1, MPI_INT, MPI_SUM, win);
      MPI_Win_flush(0, win);
    }
    [[nodiscard]] bool should_stop() const { return emergency_occured(); }
    [[nodiscard]] bool emergency_occured() const {
      if (local_stop) return true;
      if (final_) return count_at_end > 0;
      int r = 0, dummy = 0;
      MPI_Fetch_and_op(&dummy, &r, MPI_INT, 0, 0, MPI_NO_OP, win);
      MPI_Win_flush(0, win);
      return r > 0;
    }
    void finalize_communications() {
      if (final_) return;
      MPI_Barrier(com.get());
      int r = 0, dummy = 0;
      MPI_Fetch_and_op(&dummy, &r, MPI_INT, 0, 0, MPI_NO_OP, win);
      MPI_Win_flush(0, win);
      count_at_end = r;
      MPI_Barrier(com.get());
      MPI_Win_unlock_all(win);
      MPI_Win_free(&win);
      final_ = true;
    }

    private:
    int count_at_end = 0;
  };
} // namespace mpi
