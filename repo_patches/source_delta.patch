From 63a6d48208b7f367d19281deb6b39eae07174f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 001/151] fix: calling an empty buffered_function throws, as
 documented, instead of reading out of bounds

---
 c++/triqs/utility/buffered_function.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/utility/buffered_function.hpp b/c++/triqs/utility/buffered_function.hpp
index 7be2d61..2518290 100644
--- a/c++/triqs/utility/buffered_function.hpp
+++ b/c++/triqs/utility/buffered_function.hpp
@@ -54,18 +54,18 @@ namespace triqs {
 
       /// Returns the next element. Refills the buffer if necessary.
       R operator()() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index++];
       }
 
       /// Returns the future next element, without increasing the index. Refills the buffer if necessary.
       R preview() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index];
       }
 
       private:
-      size_t index;
+      size_t index = 0;
       std::vector<R> buffer;
       std::function<void(buffered_function *)> refill; // this refills the buffer and reset index of a buffered_function.
                                                        // NB : cannot capture this in refill because we want the object to be copyable and movable
-- 
2.43.0


From 26a870f1a4e3164c0a8185fa211ba0d2d19a1cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 002/151] fix: space_partition::merge_subspaces repeats until
 all connections are one-to-one

A merged subspace inherits the connections of its parts. When a part is both
the source and the image of Cd, the single zigzag pass used to leave
connections of Cd or C leading to several subspaces.
---
 c++/triqs/hilbert_space/space_partition.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/space_partition.hpp b/c++/triqs/hilbert_space/space_partition.hpp
index b69e5ba..40a1380 100644
--- a/c++/triqs/hilbert_space/space_partition.hpp
+++ b/c++/triqs/hilbert_space/space_partition.hpp
@@ -119,7 +119,8 @@ namespace triqs {
         matrix_element_map_t Cd_elements, C_elements;
         std::multimap<idx_t, idx_t> Cd_connections, C_connections;
 
-        auto size = tmp_state.size();
+        auto size               = tmp_state.size();
+        auto n_subspaces_before = n_subspaces();
 
         // Fill connection multimaps
         for (idx_t i = 0; i < size; ++i) {
@@ -185,6 +186,10 @@ namespace triqs {
 
         _update_index();
 
+        // A merged subspace inherits the connections of all its parts. If one of the parts was both a lower and an upper
+        // subspace, they can be one-to-many: repeat until nothing is left to be merged.
+        if (n_subspaces() != n_subspaces_before) return merge_subspaces(Cd, C, store_matrix_elements);
+
         return std::make_pair(Cd_elements, C_elements);
       }
 
-- 
2.43.0


From 0b2ae444dd97d494cd2cc31d1e7204413591ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 003/151] fix: operator indices beyond the range of int survive
 HDF5 and printing

The visitors took the long index as int and the reader used stoi.
---
 c++/triqs/hilbert_space/fundamental_operator_set.cpp | 4 ++--
 c++/triqs/operators/many_body_operator.cpp           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/hilbert_space/fundamental_operator_set.cpp b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
index 69c0d05..d641218 100644
--- a/c++/triqs/hilbert_space/fundamental_operator_set.cpp
+++ b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
@@ -27,14 +27,14 @@ namespace triqs {
 
       // a little visitor for reduction to string
       struct variant_visitor {
-        std::string operator()(int i) const { return "i" + std::to_string(i); }
+        std::string operator()(long i) const { return "i" + std::to_string(i); }
         std::string operator()(std::string const &s) const { return "s" + s; }
       };
 
       // decode the string
       std::variant<long, std::string> string_to_variant(std::string const &s) {
         switch (s[0]) {
-          case 'i': return std::stoi(s.c_str() + 1); // the variant is an int. Skip the first char and recover the int
+          case 'i': return std::stol(s.c_str() + 1); // the variant is an int. Skip the first char and recover the int
           case 's': return s.c_str() + 1;            // the variant is a string. Just skip the first char
           default: TRIQS_RUNTIME_ERROR << "Variant indices absent in h5 read";
         }
diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 41d5ba0..3f37bf0 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -34,7 +34,7 @@ namespace triqs {
     struct print_visitor { // TODO C17 use generic lambda + if constexpr
       std::ostream &os;
       void operator()(std::string const &x) { os << '\'' << x << '\''; }
-      void operator()(int i) { os << i; }
+      void operator()(long i) { os << i; }
     };
 
     std::ostream &operator<<(std::ostream &os, canonical_ops_t const &op) {
-- 
2.43.0


From 0d950915e7926b718ea3a70a40c63a93194e06a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 004/151] fix: op += op and op -= op no longer erase monomials
 of the map being iterated on

---
 c++/triqs/operators/many_body_operator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.hpp b/c++/triqs/operators/many_body_operator.hpp
index 191cfbf..6f0538c 100644
--- a/c++/triqs/operators/many_body_operator.hpp
+++ b/c++/triqs/operators/many_body_operator.hpp
@@ -237,6 +237,7 @@ namespace triqs {
 
       // Algebraic operations
       many_body_operator_generic &operator+=(many_body_operator_generic const &op) {
+        if (this == &op) return operator*=(scalar_t(2));
         bool is_new_monomial;
         typename monomials_map_t::iterator it;
         for (auto const &m : op.monomials) {
@@ -250,6 +251,7 @@ namespace triqs {
       }
 
       many_body_operator_generic &operator-=(many_body_operator_generic const &op) {
+        if (this == &op) return operator*=(scalar_t(0)); // do not erase monomials while iterating on them
         bool is_new_monomial;
         typename monomials_map_t::iterator it;
         for (auto const &m : op.monomials) {
-- 
2.43.0


From 39be724c29d9c5987768de661ce30784100429d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 005/151] fix: sign of imperative_operator for more than 16
 modes

The parity of the number of bits was folded over the lowest 16 bits only.
---
 c++/triqs/hilbert_space/imperative_operator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/imperative_operator.hpp b/c++/triqs/hilbert_space/imperative_operator.hpp
index 8009372..5ee1e92 100644
--- a/c++/triqs/hilbert_space/imperative_operator.hpp
+++ b/c++/triqs/hilbert_space/imperative_operator.hpp
@@ -174,8 +174,8 @@ namespace triqs {
 
       static bool parity_number_of_bits(uint64_t v) {
         // http://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetNaive
-        // v ^= v >> 16;
-        // only ok until 16 orbitals ! assert this or put the >> 16
+        v ^= v >> 32;
+        v ^= v >> 16;
         v ^= v >> 8;
         v ^= v >> 4;
         v ^= v >> 2;
-- 
2.43.0


From 9254bfedc2550d27a8c701aeb2de203615b268dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 006/151] fix: block_matrix_from_op rejects terms that are not
 quadratic and block diagonal

The condition mixed 'and' with an unparenthesised 'or': quartic terms were
taken for quadratic ones, and constants and single operators read out of bounds.
---
 c++/triqs/operators/util/extractors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index 36012a1..c201805 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -286,8 +286,8 @@ namespace triqs::operators::utils {
       auto const &m        = term.monomial;
       scalar_t const &coef = term.coef;
 
-      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices[0] == m[1].indices[0] and m[0].indices.size() == 2
-          or m[1].indices.size() == 2) {
+      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices.size() == 2 and m[1].indices.size() == 2
+          and m[0].indices[0] == m[1].indices[0]) {
         auto bl_name = std::get<std::string>(m[0].indices[0]);
         auto op1_idx = std::get<long>(m[0].indices[1]);
         auto op2_idx = std::get<long>(m[1].indices[1]);
-- 
2.43.0


From 65de20a806ad92da75bc34f4049f01ee43c6bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 007/151] fix: block_matrix_from_op throws for terms outside of
 gf_struct instead of writing out of bounds

---
 c++/triqs/operators/util/extractors.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index c201805..1463ac9 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -292,7 +292,10 @@ namespace triqs::operators::utils {
         auto op1_idx = std::get<long>(m[0].indices[1]);
         auto op2_idx = std::get<long>(m[1].indices[1]);
 
-        bl_mat[name_to_bl(bl_name)](op1_idx, op2_idx) = coef;
+        auto bl = name_to_bl(bl_name);
+        if (bl == n_bl or std::min(op1_idx, op2_idx) < 0 or std::max(op1_idx, op2_idx) >= gf_struct[bl].second)
+          TRIQS_RUNTIME_ERROR << "block_matrix_from_op: Operator term with block or indices not in gf_struct";
+        bl_mat[bl](op1_idx, op2_idx) = coef;
       } else {
         if (!ignore_irrelevant) TRIQS_RUNTIME_ERROR << "block_matrix_from_op: Operator term is not of the form 'coeff * c_dag{bl,i} * c_{bl,j}'";
         ;
-- 
2.43.0


From 35a5790678787735d1fabeefdc63589e99d282c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 008/151] fix: signals are not recorded any more after
 signal_handler::stop

---
 c++/triqs/utility/signal_handler.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/c++/triqs/utility/signal_handler.cpp b/c++/triqs/utility/signal_handler.cpp
index 9693d11..db39a1e 100644
--- a/c++/triqs/utility/signal_handler.cpp
+++ b/c++/triqs/utility/signal_handler.cpp
@@ -29,6 +29,7 @@ namespace triqs {
 
       std::vector<int> signals_list;
       bool initialized = false;
+      struct sigaction old_actions[6]; // the actions in place before start()
 
       void slot(int signal) {
         std::cerr << "TRIQS : Received signal " << signal << std::endl;
@@ -41,17 +42,25 @@ namespace triqs {
       static struct sigaction action;
       memset(&action, 0, sizeof(action));
       action.sa_handler = slot;
-      sigaction(SIGINT, &action, NULL);
-      sigaction(SIGTERM, &action, NULL);
-      sigaction(SIGXCPU, &action, NULL);
-      sigaction(SIGQUIT, &action, NULL);
-      sigaction(SIGUSR1, &action, NULL);
-      sigaction(SIGUSR2, &action, NULL);
-      sigaction(SIGSTOP, &action, NULL);
+      sigaction(SIGINT, &action, &old_actions[0]);
+      sigaction(SIGTERM, &action, &old_actions[1]);
+      sigaction(SIGXCPU, &action, &old_actions[2]);
+      sigaction(SIGQUIT, &action, &old_actions[3]);
+      sigaction(SIGUSR1, &action, &old_actions[4]);
+      sigaction(SIGUSR2, &action, &old_actions[5]);
       initialized = true;
     }
 
     void stop() {
+      if (initialized) {
+        // give the signals back to their previous handlers
+        sigaction(SIGINT, &old_actions[0], NULL);
+        sigaction(SIGTERM, &old_actions[1], NULL);
+        sigaction(SIGXCPU, &old_actions[2], NULL);
+        sigaction(SIGQUIT, &old_actions[3], NULL);
+        sigaction(SIGUSR1, &old_actions[4], NULL);
+        sigaction(SIGUSR2, &old_actions[5], NULL);
+      }
       signals_list.clear();
       initialized = false;
     }
-- 
2.43.0


From d8e7d5bd1a4e9a5dc1468f1576944468f81fdaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 009/151] fix: signal handler uses only async-signal-safe
 operations

---
 c++/triqs/utility/signal_handler.cpp | 35 +++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/c++/triqs/utility/signal_handler.cpp b/c++/triqs/utility/signal_handler.cpp
index db39a1e..11c24e4 100644
--- a/c++/triqs/utility/signal_handler.cpp
+++ b/c++/triqs/utility/signal_handler.cpp
@@ -18,22 +18,36 @@
 // Authors: Olivier Parcollet, Nils Wentzell
 
 #include "signal_handler.hpp"
+#include <errno.h>
 #include <signal.h>
 #include <string.h>
-#include <vector>
-#include <iostream>
+#include <unistd.h>
+#include <atomic>
 namespace triqs {
   namespace signal_handler {
 
     namespace {
 
-      std::vector<int> signals_list;
+      // The list is modified from within the signal handler: no allocation, hence a fixed maximal size.
+      constexpr int max_n_signals = 1 << 16;
+      int signals_list[max_n_signals];
+      std::atomic<int> n_signals = 0;
       bool initialized = false;
       struct sigaction old_actions[6]; // the actions in place before start()
 
       void slot(int signal) {
-        std::cerr << "TRIQS : Received signal " << signal << std::endl;
-        signals_list.push_back(signal);
+        // only async-signal-safe functions can be used here
+        int saved_errno = errno;
+        char msg[]      = "TRIQS : Received signal   \n";
+        if (signal > 9) msg[24] = char('0' + signal / 10);
+        msg[25] = char('0' + signal % 10);
+        if (write(STDERR_FILENO, msg, sizeof(msg) - 1) < 0) {} // nothing to do in case of failure
+        errno = saved_errno;
+        int n = n_signals++;
+        if (n < max_n_signals)
+          signals_list[n] = signal;
+        else
+          --n_signals;
       }
     } // namespace
 
@@ -42,6 +56,7 @@ namespace triqs {
       static struct sigaction action;
       memset(&action, 0, sizeof(action));
       action.sa_handler = slot;
+      sigfillset(&action.sa_mask); // one signal at a time
       sigaction(SIGINT, &action, &old_actions[0]);
       sigaction(SIGTERM, &action, &old_actions[1]);
       sigaction(SIGXCPU, &action, &old_actions[2]);
@@ -61,18 +76,20 @@ namespace triqs {
         sigaction(SIGUSR1, &old_actions[4], NULL);
         sigaction(SIGUSR2, &old_actions[5], NULL);
       }
-      signals_list.clear();
+      n_signals   = 0;
       initialized = false;
     }
 
     bool received(bool pop_) {
       //if (!initialized) start();
-      bool r = signals_list.size() != 0;
+      bool r = n_signals != 0;
       if (r && pop_) pop();
       return r;
     }
 
-    int last() { return signals_list.back(); }
-    void pop() { return signals_list.pop_back(); }
+    int last() { return signals_list[n_signals - 1]; }
+    void pop() {
+      if (n_signals > 0) --n_signals;
+    }
   } // namespace signal_handler
 } // namespace triqs
-- 
2.43.0


From 5510f4e8a3b7b36ec7798462cb2945daa257045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 010/151] fix: time_segment::make_time_pt(beta) is the upper
 point instead of an out of range conversion

---
 c++/triqs/utility/time_pt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/utility/time_pt.hpp b/c++/triqs/utility/time_pt.hpp
index 17f9463..45928e9 100644
--- a/c++/triqs/utility/time_pt.hpp
+++ b/c++/triqs/utility/time_pt.hpp
@@ -165,7 +165,8 @@ namespace triqs {
       /// ??
       time_pt make_time_pt(double x) const {
         EXPECTS(0 <= x && x <= beta);
-        uint64_t n = static_cast<double>(time_pt::Nmax) * std::min(1.0, (x / beta));
+        if (x / beta >= 1.0) return get_upper_pt(); // static_cast<double>(Nmax) is 2^64, which is not an uint64_t
+        uint64_t n = static_cast<double>(time_pt::Nmax) * (x / beta);
         return time_pt(n, beta);
       }
     };
-- 
2.43.0


From 31be67c4b598643947f173accc5f8d99751dfc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 011/151] fix: mc_generic rethrows an exception of a move or
 measure when there is no MPI environment

---
 c++/triqs/mc_tools/mc_generic.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 073c9e6..df4d34e 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -286,10 +286,15 @@ namespace triqs::mc_tools {
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
-          if (rethrow_exception)
-            node_monitor->request_emergency_stop();
-          else
+          if (not rethrow_exception)
             c.abort(2);
+          else if (node_monitor)
+            node_monitor->request_emergency_stop();
+          else { // no MPI, no other node to stop
+            timer_run.stop();
+            triqs::signal_handler::stop();
+            throw;
+          }
         }
 
         // recompute fraction done
-- 
2.43.0


From 983a20c3b8fe42bec1befeb0b75dfeaa3c2ab016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 012/151] fix: mc_generic does not report a run whose last
 cycle was interrupted by a signal as complete

---
 c++/triqs/mc_tools/mc_generic.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index df4d34e..c50936e 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -251,7 +251,7 @@ namespace triqs::mc_tools {
       triqs::signal_handler::start();
       done_percent = 0;
       nmeasures    = 0;
-      bool stop_it = false, finished = false, infinite = (n_cycles < 0);
+      bool stop_it = false, finished = false, interrupted = false, infinite = (n_cycles < 0);
       int NC                = 0;
       double next_info_time = 0.1;
 
@@ -283,6 +283,7 @@ namespace triqs::mc_tools {
         } catch (triqs::signal_handler::exception const &) {
           std::cerr << "mc_generic: Signal caught on node " << c.rank() << "\n" << std::endl;
           // current cycle interrupted, stop calculation below
+          interrupted = true;
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
@@ -309,7 +310,7 @@ namespace triqs::mc_tools {
           if (do_measure) report(3) << AllMeasures.report();
           next_info_time = 1.25 * timer_run + 2.0; // Increase time interval non-linearly
         }
-        finished = NC + 1 >= n_cycles and not infinite;
+        finished = NC + 1 >= n_cycles and not infinite and not interrupted;
         stop_it  = (stop_callback() || triqs::signal_handler::received() || finished);
 
         // Stop if an emergeny occured on any node
-- 
2.43.0


From 638c81085d1eb3a8e9cfaf9a6590c3ebb9edb4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 013/151] fix: mc_generic run of zero cycles has no measures
 and does not leave the timer running

---
 c++/triqs/mc_tools/mc_generic.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index c50936e..76a902a 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -245,12 +245,12 @@ namespace triqs::mc_tools {
 
       AllMoves.clear_statistics();
 
-      timer_run = {};
-      timer_run.start();
-      if (n_cycles == 0) return 0;
-      triqs::signal_handler::start();
+      timer_run    = {};
       done_percent = 0;
       nmeasures    = 0;
+      if (n_cycles == 0) return 0;
+      timer_run.start();
+      triqs::signal_handler::start();
       bool stop_it = false, finished = false, interrupted = false, infinite = (n_cycles < 0);
       int NC                = 0;
       double next_info_time = 0.1;
@@ -437,7 +437,7 @@ namespace triqs::mc_tools {
     measure_set<MCSignType> AllMeasures;
     std::vector<measure_aux> AllMeasuresAux;
     utility::report_stream report;
-    int64_t nmeasures, current_cycle_number = 0;
+    int64_t nmeasures = 0, current_cycle_number = 0;
     utility::timer timer_run, timer_accumulation, timer_warmup;
     std::function<void()> after_cycle_duty;
     MCSignType sign        = 1;
-- 
2.43.0


From 9cc7992b2086a4902fe9f7240d494d1ecd0ffaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 014/151] fix: det_manip multi-row operations with a single row
 do not write out of bounds

---
 c++/triqs/det_manip/det_manip.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cd24620..94e8a31 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -144,7 +144,6 @@ namespace triqs {
         // MC = C*A^(-1)
         matrix_type MB, MC, B, C, ksi;
         void resize(long N, long k) {
-          if (k < 2) return;
           x.resize(k);
           y.resize(k);
           i.resize(k);
-- 
2.43.0


From 608472f467703b6f7d84ec245678b98e1ee5cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 015/151] fix: det_manip::roll_matrix of an empty matrix does
 nothing

---
 c++/triqs/det_manip/det_manip.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 94e8a31..2179253 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -1318,6 +1318,7 @@ namespace triqs {
        * WHY is it like this ???? : try_roll : return det +1/-1.
        */
       int roll_matrix(RollDirection roll) {
+        if (N == 0) return 1; // nothing to roll
         long tmp;
         const long NN = N;
         switch (roll) {
-- 
2.43.0


From c23246929c2603cb2642c6840b35da6d11c22f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 016/151] fix: swap and move of det_manip take along the
 capacity of the multi-row work data and the thresholds

---
 c++/triqs/det_manip/det_manip.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 2179253..632d423 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -198,6 +198,8 @@ namespace triqs {
         SW(det);
         SW(Nmax);
         SW(N);
+        SW(kmax);
+        SW(k);
         SW(last_try);
         SW(row_num);
         SW(col_num);
@@ -207,8 +209,12 @@ namespace triqs {
         SW(mat_inv);
         SW(n_opts);
         SW(n_opts_max_before_check);
+        SW(singular_threshold);
+        SW(precision_warning);
+        SW(precision_error);
         SW(w1);
         SW(wk);
+        SW(w_refill);
         SW(newdet);
         SW(newsign);
 #undef SW
-- 
2.43.0


From 1a7aca2e6b6c10fa606e4894967706b5cfe25e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 017/151] fix: det_manip read from HDF5 has work data of the
 right size

---
 c++/triqs/det_manip/det_manip.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 632d423..1daef98 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -105,6 +105,8 @@ namespace triqs {
         h5_read(gr, "N", g.N);
         h5_read(gr, "mat_inv", g.mat_inv);
         g.Nmax     = first_dim(g.mat_inv); // restore Nmax
+        g.w1.resize(g.Nmax);               // the work data are not stored
+        g.wk.resize(g.Nmax, g.kmax);
         g.last_try = NoTry;
         h5_read(gr, "det", g.det);
         h5_read(gr, "sign", g.sign);
-- 
2.43.0


From a9731caa009f44cd75fdbb3442339e63ffd98b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 018/151] fix: atom_diag autopartition repeats the merging
 until c and c+ map every subspace to one subspace

---
 c++/triqs/atom_diag/impl/worker.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/worker.cpp b/c++/triqs/atom_diag/impl/worker.cpp
index 2cca809..863ad62 100644
--- a/c++/triqs/atom_diag/impl/worker.cpp
+++ b/c++/triqs/atom_diag/impl/worker.cpp
@@ -63,16 +63,21 @@ namespace triqs {
 
       std::vector<typename space_partition_t::matrix_element_map_t> creation_melem(fops.size());
       std::vector<typename space_partition_t::matrix_element_map_t> annihilation_melem(fops.size());
-      // Merge subspaces
-      for (auto const &o : fops) {
-        auto create  = many_body_op_t::make_canonical(true, o.index);
-        auto destroy = many_body_op_t::make_canonical(false, o.index);
-
-        imperative_operator_t op_c_dag(create, fops), op_c(destroy, fops);
-
-        int n                                              = o.linear_index;
-        std::tie(creation_melem[n], annihilation_melem[n]) = SP.merge_subspaces(op_c_dag, op_c, true);
-      }
+      // Merge subspaces. A merge made for one operator can spoil the one-to-one connections of
+      // the operators treated before: repeat until the partition does not change any more.
+      decltype(SP.n_subspaces()) n_subspaces_before;
+      do {
+        n_subspaces_before = SP.n_subspaces();
+        for (auto const &o : fops) {
+          auto create  = many_body_op_t::make_canonical(true, o.index);
+          auto destroy = many_body_op_t::make_canonical(false, o.index);
+
+          imperative_operator_t op_c_dag(create, fops), op_c(destroy, fops);
+
+          int n                                              = o.linear_index;
+          std::tie(creation_melem[n], annihilation_melem[n]) = SP.merge_subspaces(op_c_dag, op_c, true);
+        }
+      } while (SP.n_subspaces() != n_subspaces_before);
 
       // Fill subspaces
       auto &h_spaces = hdiag->sub_hilbert_spaces;
-- 
2.43.0


From 7783e5d1b26fdc0eb2e149650b1cccbc13717359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 019/151] fix: atom_diag keeps the quantum numbers in step with
 the energy-ordered subspaces

---
 c++/triqs/atom_diag/impl/worker.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/triqs/atom_diag/impl/worker.cpp b/c++/triqs/atom_diag/impl/worker.cpp
index 863ad62..1f75b7f 100644
--- a/c++/triqs/atom_diag/impl/worker.cpp
+++ b/c++/triqs/atom_diag/impl/worker.cpp
@@ -323,16 +323,19 @@ namespace triqs {
       // Reorder the block along their minimal energy
       {
         auto tmp = hdiag->sub_hilbert_spaces;
+        auto qn  = hdiag->quantum_numbers; // empty unless partitioned with quantum numbers
         std::map<int, int> remap;
         int i = 0;
         for (auto const &x : eign_map) { // in order of min energy !
           hdiag->eigensystems[i] = x.second;
           tmp[i]                 = hdiag->sub_hilbert_spaces[x.first.second];
           tmp[i].set_index(i);
+          if (!qn.empty()) qn[i] = hdiag->quantum_numbers[x.first.second];
           remap[x.first.second] = i;
           ++i;
         }
         std::swap(tmp, hdiag->sub_hilbert_spaces);
+        std::swap(qn, hdiag->quantum_numbers);
         auto remap_connection = [&](matrix<long> &connection) {
           auto c2 = connection;
           for (int n = 0; n < first_dim(connection); ++n)
-- 
2.43.0


From 8bd593a9f5c8f9f98880422ffe51e25af1573dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 020/151] fix: atom_diag::get_vacuum_subspace_index is -1 if no
 subspace contains the vacuum

---
 c++/triqs/atom_diag/atom_diag.hpp      | 2 +-
 c++/triqs/atom_diag/impl/atom_diag.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/atom_diag/atom_diag.hpp b/c++/triqs/atom_diag/atom_diag.hpp
index 8820a07..c0ba177 100644
--- a/c++/triqs/atom_diag/atom_diag.hpp
+++ b/c++/triqs/atom_diag/atom_diag.hpp
@@ -245,7 +245,7 @@ namespace triqs {
       /// Ground state energy (i.e. min of all subspaces)
       double get_gs_energy() const { return gs_energy; }
 
-      /// Returns invariant subspace containing the vacuum state
+      /// Returns invariant subspace containing the vacuum state (-1 if it belongs to none)
       long get_vacuum_subspace_index() const { return vacuum_subspace_index; }
 
       /// Returns the vacuum state as a vector in the full Hilbert space
diff --git a/c++/triqs/atom_diag/impl/atom_diag.cpp b/c++/triqs/atom_diag/impl/atom_diag.cpp
index dd7ca3c..f0b6e21 100644
--- a/c++/triqs/atom_diag/impl/atom_diag.cpp
+++ b/c++/triqs/atom_diag/impl/atom_diag.cpp
@@ -80,7 +80,8 @@ namespace triqs {
 
     ATOM_DIAG_METHOD(void, compute_vacuum()) {
       // Compute vacuum vector in the eigenbasis
-      vacuum() = 0;
+      vacuum()              = 0;
+      vacuum_subspace_index = -1; // the vacuum may be outside of the particle number window
       for (int sp : range(sub_hilbert_spaces.size())) {
         if (sub_hilbert_spaces[sp].has_state(fock_state_t(0))) {
           vacuum_subspace_index               = sp;
-- 
2.43.0


From 9a5d6e7821a5ec702804b4ac994a42ff404d50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 021/151] fix: reading an atom_diag from HDF5 drops the
 operator matrices of the object read into

---
 c++/triqs/atom_diag/impl/atom_diag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/atom_diag/impl/atom_diag.cpp b/c++/triqs/atom_diag/impl/atom_diag.cpp
index f0b6e21..2aba7c3 100644
--- a/c++/triqs/atom_diag/impl/atom_diag.cpp
+++ b/c++/triqs/atom_diag/impl/atom_diag.cpp
@@ -226,7 +226,7 @@ namespace triqs {
       h5::read(gr, "annihilation_connection", ad.annihilation_connection);
 
       auto read_sparse = [&](std::string na, std::vector<std::vector<matrix_t>> &Mvv) {
-        Mvv.resize(ad.creation_connection.extent(0), std::vector<matrix_t>(ad.creation_connection.extent(1)));
+        Mvv.assign(ad.creation_connection.extent(0), std::vector<matrix_t>(ad.creation_connection.extent(1)));
         auto gr2 = gr.open_group(na);
         for (auto s : gr2.get_all_dataset_names()) {
           std::stringstream ss(s);
-- 
2.43.0


From 25d2b1a244b1a95ba610fcf19e984c08a9671f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 022/151] fix: quantum_number_eigenvalues_checked also refuses
 operators with imaginary off-diagonal elements

---
 c++/triqs/atom_diag/impl/functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/functions.cpp b/c++/triqs/atom_diag/impl/functions.cpp
index 482d93f..67d1119 100644
--- a/c++/triqs/atom_diag/impl/functions.cpp
+++ b/c++/triqs/atom_diag/impl/functions.cpp
@@ -154,7 +154,7 @@ namespace triqs {
       if (!commutator.is_almost_zero()) TRIQS_RUNTIME_ERROR << "The operator is not a quantum number";
 
       auto d = atom.get_full_hilbert_space_dim();
-      matrix<quantum_number_t> M(d, d);
+      matrix<ATOM_DIAG_T::scalar_t> M(d, d);
       M() = 0;
       std::vector<std::vector<quantum_number_t>> result;
 
@@ -163,7 +163,7 @@ namespace triqs {
         for (auto const &x : op) {
           auto b_m = atom.get_matrix_element_of_monomial(x.monomial, sp);
           if (b_m.first == -1) continue;
-          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += real(x.coef * b_m.second);
+          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += x.coef * b_m.second;
         }
       }
       if (!is_diagonal(M)) TRIQS_RUNTIME_ERROR << "The matrix of the operator is not diagonal !!!";
@@ -171,7 +171,7 @@ namespace triqs {
       for (int sp = 0; sp < atom.n_subspaces(); ++sp) {
         auto dim = atom.get_subspace_dim(sp);
         result.push_back(std::vector<quantum_number_t>(dim, 0));
-        for (int i = 0; i < dim; ++i) result.back()[i] = M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i));
+        for (int i = 0; i < dim; ++i) result.back()[i] = std::real(M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i)));
       }
 
       return result;
-- 
2.43.0


From 03d145f4ddc8c7f53a091102fbf9b858f03bf246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:42 +0000
Subject: [PATCH 023/151] fix: atomic_g_l of a large beta times energy
 difference does not overflow

---
 c++/triqs/atom_diag/impl/gf.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/gf.cpp b/c++/triqs/atom_diag/impl/gf.cpp
index 6a82080..75c57c4 100644
--- a/c++/triqs/atom_diag/impl/gf.cpp
+++ b/c++/triqs/atom_diag/impl/gf.cpp
@@ -249,6 +249,25 @@ namespace triqs {
     /// GF: Legendre coefficients ///
     /////////////////////////////////
 
+    // i_l(x) / cosh(x) for l = 0, ..., n_l - 1 and x >= 0, with i_l the modified spherical Bessel functions of the first kind
+    inline std::vector<double> scaled_bessel_i(long n_l, double x) {
+      std::vector<double> res(n_l);
+      if (x < 500) {
+        for (long l = 0; l < n_l; ++l) res[l] = triqs::utility::mod_cyl_bessel_i(l, x) / std::cosh(x);
+        return res;
+      }
+      // Both functions overflow for large x. Use i_0(x) = sinh(x) / x and the ratios
+      // i_{l+1}(x) / i_l(x) from their continued fraction, which is stable downwards in l.
+      double ratio = 0;
+      for (long l = n_l + 20 + long(10 * std::sqrt(x)); l >= 0; --l) {
+        ratio = 1 / ((2 * l + 3) / x + ratio);
+        if (l + 1 < n_l) res[l + 1] = ratio;
+      }
+      if (n_l > 0) res[0] = std::tanh(x) / x;
+      for (long l = 1; l < n_l; ++l) res[l] *= res[l - 1];
+      return res;
+    }
+
     // Returns lambda-function compatible with atomic_g_lehmann_impl
     // The lambda-function captures 'gf' and fills it when passed to atomic_g_lehmann_impl
     template <bool Complex> auto make_term_proc(double beta, block_gf_view<legendre> gf) {
@@ -257,10 +276,10 @@ namespace triqs {
 
         // Set data points
         double x = beta * pole / 2;
-        double w = -beta / (2 * std::cosh(x));
+        double w = -beta / 2;
+        auto b   = scaled_bessel_i(g.mesh().size(), std::abs(x));
         for (auto l : g.mesh()) {
-          g[l] += residue * w * std::sqrt(2 * l.index() + 1) * (l.index() % 2 == 0 ? 1 : std::copysign(1, -x))
-             * triqs::utility::mod_cyl_bessel_i(l.index(), std::abs(x));
+          g[l] += residue * w * std::sqrt(2 * l.index() + 1) * (l.index() % 2 == 0 ? 1 : std::copysign(1, -x)) * b[l.index()];
         }
       };
     }
-- 
2.43.0


From 293f7d3474a10671054f5161d6620868b153fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 024/151] fix: stat::accumulator: bins beyond 2^31 data points
 (int overflow)

---
 c++/triqs/stat/accumulator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index d2753ac..cff32cb 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -92,7 +92,7 @@ namespace triqs::stat {
           bins[i] /= compression_factor;
         }
         // Last new bin is special: last old bin could be filled below capacity
-        int new_last_bin_count = last_bin_count + (n_bins_last_chunk - 1) * bin_capacity;
+        long new_last_bin_count = last_bin_count + (n_bins_last_chunk - 1) * bin_capacity;
         auto &new_last_bin     = bins[n_bins_new - 1];
         new_last_bin           = std::move(bins[compression_factor * (n_bins_new - 1)]);
         // If n_bins_last_chunk == 1, we have already copied its value above
@@ -195,7 +195,7 @@ namespace triqs::stat {
 
           // When reaching power of 2 nr data points, add a new pair of (Mk, Qk) = (acc.back(), 0)
           // and add an extra space in acc, acc_count
-          if (count == (1 << acc.size()) && (max_n_bins < 0 || n_bins() < max_n_bins)) {
+          if (count == (1l << acc.size()) && (max_n_bins < 0 || n_bins() < max_n_bins)) {
             T last_acc = acc.back(); // Force copy
 
             if (max_n_bins < 0 || n_bins() < (max_n_bins - 1)) {
-- 
2.43.0


From efce067c54cce887f1a4b1d37e2ac8ef87a3308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 025/151] fix: stat::accumulator: compression to a single bin
 moved the bin into itself

---
 c++/triqs/stat/accumulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index cff32cb..34aa8e0 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -94,7 +94,8 @@ namespace triqs::stat {
         // Last new bin is special: last old bin could be filled below capacity
         long new_last_bin_count = last_bin_count + (n_bins_last_chunk - 1) * bin_capacity;
         auto &new_last_bin     = bins[n_bins_new - 1];
-        new_last_bin           = std::move(bins[compression_factor * (n_bins_new - 1)]);
+        // With a single new bin the data is already in place, do not move bins[0] into itself
+        if (n_bins_new > 1) new_last_bin = std::move(bins[compression_factor * (n_bins_new - 1)]);
         // If n_bins_last_chunk == 1, we have already copied its value above
         if (n_bins_last_chunk > 1) {
           for (int j = 1; j < n_bins_last_chunk - 1; j++) { new_last_bin += bins[compression_factor * (n_bins_new - 1) + j]; }
-- 
2.43.0


From 3a095f6f1e91d6fcc1d35326ad98d71c319cb093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 026/151] fix: stat::accumulator: the maximum number of log
 bins was lost in HDF5, a reloaded accumulator ignored its data

---
 c++/triqs/stat/accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index 34aa8e0..80cb8d8 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -240,6 +240,7 @@ namespace triqs::stat {
       h5_write(gr, "acc", l.acc);
       h5_write(gr, "count", l.count);
       h5_write(gr, "acc_count", l.acc_count);
+      h5_write(gr, "max_n_bins", l.max_n_bins);
     }
 
     template <typename T> void h5_read(h5::group g, std::string const &name, log_binning<T> &l) {
@@ -249,6 +250,7 @@ namespace triqs::stat {
       h5_read(gr, "acc", l.acc);
       h5_read(gr, "count", l.count);
       h5_read(gr, "acc_count", l.acc_count);
+      if (gr.has_key("max_n_bins")) h5_read(gr, "max_n_bins", l.max_n_bins); // not in older files
     }
 
   } // namespace details
-- 
2.43.0


From ffd76e6ccced2f6e92672c5f5f7b53f0bfe0f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 027/151] fix: stat::accumulator: integer overflow in the error
 bars beyond 3e9 data points

---
 c++/triqs/stat/accumulator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index 80cb8d8..20b3a36 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -415,7 +415,7 @@ namespace triqs::stat {
           res1[n] = 0;
         } else {
           using std::sqrt;
-          res1[n] = sqrt(res1[n] / (count_n * (count_n - 1)));
+          res1[n] = sqrt(res1[n] / (double(count_n) * (count_n - 1)));
         }
         count_vec.emplace_back(count_n);
       }
@@ -473,7 +473,7 @@ namespace triqs::stat {
             result_vec[n] = 0;
           } else {
             using std::sqrt;
-            result_vec[n] = sqrt(result_vec[n] / (count_vec[n] * (count_vec[n] - 1)));
+            result_vec[n] = sqrt(result_vec[n] / (double(count_vec[n]) * (count_vec[n] - 1)));
           }
         }
       }
-- 
2.43.0


From be32d6e28a273e10179f18a18e68abfc0f31ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 028/151] fix: jackknife_mpi: all ranks need the total number
 of data, which the bias correction has to use

---
 c++/triqs/stat/jackknife.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index ada5545..0b782e5 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -91,7 +91,7 @@ namespace triqs::stat {
       // Now the reduction over the nodes.
       long Ntot = N;
       if (c) { // MPI version
-        Ntot = mpi::reduce(N, *c);
+        Ntot = mpi::all_reduce(N, *c);
 
         M *= double(N) / Ntot; // remove the 1/N
         M = mpi::all_reduce(M, *c);
@@ -109,7 +109,7 @@ namespace triqs::stat {
 
       auto f_on_averages = make_regular(f(ja.average()...));
       auto std_err       = make_regular(std::sqrt((Ntot - 1) / double(Ntot)) * sqrt(Q));
-      auto average       = make_regular(N * (f_on_averages - M) + M);
+      auto average       = make_regular(Ntot * (f_on_averages - M) + M);
       return std::make_tuple(average, std_err, M, f_on_averages);
     }
 
-- 
2.43.0


From 71d2008893350f17de8514956c3cfc1fc6825d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 029/151] fix: jackknife of a series without data reports the
 error instead of reading the first element

---
 c++/triqs/stat/jackknife.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index 0b782e5..db5c833 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -42,6 +42,7 @@ namespace triqs::stat {
       jackknifed_t(V const &bins) : original_series(bins) {
         // ENSURE(bins.size()>0)
         n_tot = original_series.size();
+        if (n_tot == 0) TRIQS_RUNTIME_ERROR << "No data !";
         // compute the sum of B into a new T.
         sum = original_series[0];
         for (long i = 1; i < original_series.size(); ++i) sum += original_series[i];
-- 
2.43.0


From bcf0c14280b5bd1d6a616a4db8316c64e225c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 030/151] fix: histogram: a value that is not a number is lost,
 not counted out of bounds

---
 c++/triqs/stat/histograms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/histograms.cpp b/c++/triqs/stat/histograms.cpp
index 0129103..32f8fc9 100644
--- a/c++/triqs/stat/histograms.cpp
+++ b/c++/triqs/stat/histograms.cpp
@@ -37,7 +37,7 @@ namespace triqs::stat {
   }
 
   histogram &histogram::operator<<(double x) {
-    if ((x < a) || (x > b))
+    if (!((x >= a) && (x <= b))) // also if x is NaN
       ++_n_lost_pts;
     else {
       auto n = int(std::floor(((x - a) * _step) + 0.5));
-- 
2.43.0


From 7dac2f405bed101e389164ef9f8be6d5b3f45298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 031/151] fix: histogram: members of a default constructed
 histogram were not initialized, it counted out of bounds

---
 c++/triqs/stat/histograms.cpp | 2 +-
 c++/triqs/stat/histograms.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/triqs/stat/histograms.cpp b/c++/triqs/stat/histograms.cpp
index 32f8fc9..ac3695d 100644
--- a/c++/triqs/stat/histograms.cpp
+++ b/c++/triqs/stat/histograms.cpp
@@ -37,7 +37,7 @@ namespace triqs::stat {
   }
 
   histogram &histogram::operator<<(double x) {
-    if (!((x >= a) && (x <= b))) // also if x is NaN
+    if (!((x >= a) && (x <= b)) || n_bins == 0) // also if x is NaN
       ++_n_lost_pts;
     else {
       auto n = int(std::floor(((x - a) * _step) + 0.5));
diff --git a/c++/triqs/stat/histograms.hpp b/c++/triqs/stat/histograms.hpp
index 42ba5bd..38eb906 100644
--- a/c++/triqs/stat/histograms.hpp
+++ b/c++/triqs/stat/histograms.hpp
@@ -36,12 +36,12 @@ namespace triqs::stat {
   /// @brief Statistical histogram
   class histogram {
 
-    double a, b;                        // start and end of mesh
-    long n_bins;                        // number of points on the mesh (for double only)
+    double a = 0, b = 0;                // start and end of mesh
+    long n_bins = 0;                    // number of points on the mesh (for double only)
     unsigned long long _n_data_pts = 0; // number of data points
     unsigned long long _n_lost_pts = 0; // number of discarded points
     nda::vector<double> _data;          // histogram data
-    double _step;                       // number of bins per unit length
+    double _step = 0;                   // number of bins per unit length
 
     void _init(); // initialize _step
 
-- 
2.43.0


From a78af7180a16e412225d643b3ac6f20c7cb8c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 032/151] fix: quotient of two Matsubara frequencies returned
 their product

---
 c++/triqs/mesh/domains/matsubara.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/domains/matsubara.hpp b/c++/triqs/mesh/domains/matsubara.hpp
index 59882ef..d0558c1 100644
--- a/c++/triqs/mesh/domains/matsubara.hpp
+++ b/c++/triqs/mesh/domains/matsubara.hpp
@@ -68,7 +68,7 @@ namespace triqs::mesh {
   inline matsubara_freq operator-(matsubara_freq const &mp) { return {-(mp.n + (mp.statistic == Fermion ? 1 : 0)), mp.beta, mp.statistic}; }
 
   inline std::complex<double> operator/(matsubara_freq const &x, matsubara_freq const &y) {
-    return std::complex<double>{x} * std::complex<double>{y};
+    return std::complex<double>{x} / std::complex<double>{y};
   }
 
   inline std::complex<double> operator*(matsubara_freq const &x, matsubara_freq const &y) {
-- 
2.43.0


From 41b05ab3db5a568f823261f38710041773939039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 033/151] fix: closest point of a linear mesh whose points have
 the same value was computed from a NaN

---
 c++/triqs/mesh/bases/linear.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/mesh/bases/linear.hpp b/c++/triqs/mesh/bases/linear.hpp
index dc91d8e..beab0a0 100644
--- a/c++/triqs/mesh/bases/linear.hpp
+++ b/c++/triqs/mesh/bases/linear.hpp
@@ -135,6 +135,7 @@ namespace triqs::mesh::details {
 
     [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const noexcept {
       EXPECTS(is_value_valid(cmp.value));
+      if (delta_x == 0.0) return 0; // all the points have the same value
       return index_t((cmp.value - xmin) * delta_x_inv + 0.5);
     }
 
-- 
2.43.0


From 9d1fb5b09b345c69eee5c851654d39c7e3485c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 034/151] fix: cyclat closest mesh point was not folded back
 into the mesh

---
 c++/triqs/mesh/cyclat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/cyclat.hpp b/c++/triqs/mesh/cyclat.hpp
index 88f7a58..77826b7 100644
--- a/c++/triqs/mesh/cyclat.hpp
+++ b/c++/triqs/mesh/cyclat.hpp
@@ -162,7 +162,7 @@ namespace triqs::mesh {
       return {i0, i1, i2};
     }
 
-    [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const { return cmp.value.index(); }
+    [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const { return index_modulo(cmp.value.index()); }
 
     // -------------------- operator [] () -------------------
 
-- 
2.43.0


From 707e51f89f8059fadbbcf4f1d93b5e1c5debbe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 035/151] fix: lattice meshes with permuted dimensions or unit
 vectors compared equal

---
 c++/triqs/mesh/brzone.hpp | 2 +-
 c++/triqs/mesh/cyclat.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index 5241c95..fe79cc5 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -98,7 +98,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(brzone const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(brzone const &M) const { return dims_ == M.dims_ and units_ == M.units_ and mesh_hash() == M.mesh_hash(); }
     bool operator!=(brzone const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
diff --git a/c++/triqs/mesh/cyclat.hpp b/c++/triqs/mesh/cyclat.hpp
index 77826b7..7488290 100644
--- a/c++/triqs/mesh/cyclat.hpp
+++ b/c++/triqs/mesh/cyclat.hpp
@@ -83,7 +83,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(cyclat const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(cyclat const &M) const { return dims_ == M.dims_ and units_ == M.units_ and mesh_hash() == M.mesh_hash(); }
     bool operator!=(cyclat const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
-- 
2.43.0


From cd63e0e6435104febb6bd580828499298a2e5dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 036/151] fix: DLR meshes with exchanged beta and w_max
 compared equal

---
 c++/triqs/mesh/dlr.hpp        | 4 +++-
 c++/triqs/mesh/dlr_imfreq.hpp | 4 +++-
 c++/triqs/mesh/dlr_imtime.hpp | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/mesh/dlr.hpp b/c++/triqs/mesh/dlr.hpp
index dc211f2..0091361 100644
--- a/c++/triqs/mesh/dlr.hpp
+++ b/c++/triqs/mesh/dlr.hpp
@@ -97,7 +97,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr const &m) const { return _mesh_hash == m._mesh_hash; }
+    bool operator==(dlr const &m) const {
+      return _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps and _mesh_hash == m._mesh_hash;
+    }
     bool operator!=(dlr const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
diff --git a/c++/triqs/mesh/dlr_imfreq.hpp b/c++/triqs/mesh/dlr_imfreq.hpp
index 1a1b56b..084943a 100644
--- a/c++/triqs/mesh/dlr_imfreq.hpp
+++ b/c++/triqs/mesh/dlr_imfreq.hpp
@@ -92,7 +92,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr_imfreq const &m) const { return _mesh_hash == m._mesh_hash; }
+    bool operator==(dlr_imfreq const &m) const {
+      return _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps and _mesh_hash == m._mesh_hash;
+    }
     bool operator!=(dlr_imfreq const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
diff --git a/c++/triqs/mesh/dlr_imtime.hpp b/c++/triqs/mesh/dlr_imtime.hpp
index acee943..34ff02d 100644
--- a/c++/triqs/mesh/dlr_imtime.hpp
+++ b/c++/triqs/mesh/dlr_imtime.hpp
@@ -91,7 +91,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr_imtime const &m) const { return _mesh_hash == m._mesh_hash and _statistic == m._statistic; }
+    bool operator==(dlr_imtime const &m) const {
+      return _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps and _mesh_hash == m._mesh_hash;
+    }
     bool operator!=(dlr_imtime const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
-- 
2.43.0


From a69d68fd666a616ca2dc2fa9069071e9d697272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 037/151] fix: brzone closest mesh point was not the closest
 one for skewed or anisotropic meshes

---
 c++/triqs/mesh/brzone.hpp | 47 ++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index fe79cc5..84f510a 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -229,31 +229,36 @@ namespace triqs::mesh {
         auto n       = nda::floor(k_units);
 
         // calculate position relative to neighbors in mesh
-        auto w = k_units - n;
-
-        // prepare result container and distance measure
-        auto dst = std::numeric_limits<double>::infinity();
-
-        // check flatness along mesh dimensions
-        long r1 = std::min(dims()[0], 2l);
-        long r2 = std::min(dims()[1], 2l);
-        long r3 = std::min(dims()[2], 2l);
+        auto w = nda::stack_vector<double, 3>{k_units[0] - n[0], k_units[1] - n[1], k_units[2] - n[2]};
+
+        // start from the neighbor obtained by rounding each component
+        auto res   = nda::stack_vector<long, 3>{std::lround(w[0]), std::lround(w[1]), std::lround(w[2])};
+        double dst = nda::norm(transpose(units()) * (w - res));
+
+        // Any closer neighbor iv satisfies |w[i] - iv[i]| < dst * (norm of column i of the inverse units)
+        std::array<long, 3> lo, up; // NOLINT
+        for (auto i : range(3)) {
+          double r = dst * nda::norm(units_inv_(range::all, i));
+          lo[i]    = std::ceil(w[i] - r);
+          up[i]    = std::floor(w[i] + r);
+        }
 
         // find nearest neighbor by comparing distances
-        nda::stack_vector<long, 3> res;
-        for (auto const &[i1, i2, i3] : itertools::product_range(r1, r2, r3)) {
-          auto iv   = nda::stack_vector<long, 3>{i1, i2, i3};
-          auto dstp = nda::norm(transpose(units()) * (w - iv));
-
-          // update result when distance is smaller than current
-          if (dstp < dst) {
-            dst = dstp;
-            res = n + iv;
-          }
-        }
+        for (long i1 = lo[0]; i1 <= up[0]; ++i1)
+          for (long i2 = lo[1]; i2 <= up[1]; ++i2)
+            for (long i3 = lo[2]; i3 <= up[2]; ++i3) {
+              auto iv     = nda::stack_vector<long, 3>{i1, i2, i3};
+              double dstp = nda::norm(transpose(units()) * (w - iv));
+
+              // update result when distance is smaller than current
+              if (dstp < dst) {
+                dst = dstp;
+                res = iv;
+              }
+            }
 
         // fold back to brzone mesh (nearest neighbor could be out of bounds)
-        return index_modulo({res[0], res[1], res[2]});
+        return index_modulo({long(n[0]) + res[0], long(n[1]) + res[1], long(n[2]) + res[2]});
       }
     }
 
-- 
2.43.0


From 0eb28503031ed9e740b42f97611c532c331755c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 038/151] fix: product of functions on different dlr_imtime
 meshes was computed instead of refused

---
 c++/triqs/gfs/gf/gf_expr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/gfs/gf/gf_expr.hpp b/c++/triqs/gfs/gf/gf_expr.hpp
index a94fdf8..1a21384 100644
--- a/c++/triqs/gfs/gf/gf_expr.hpp
+++ b/c++/triqs/gfs/gf/gf_expr.hpp
@@ -56,6 +56,7 @@ namespace triqs {
 
         if constexpr (std::is_same<Tag, utility::tags::multiplies>::value or std::is_same<Tag, utility::tags::divides>::value) {
           bool eq = (std::abs(l.beta() - r.beta()) < 1.e-15) and (l.size() == r.size());
+          if constexpr (std::is_same_v<M, mesh::dlr_imtime>) eq = eq and l.w_max() == r.w_max() and l.eps() == r.eps(); // same points
           if (!eq)
             TRIQS_RUNTIME_ERROR << "Mesh mismatch: In Green Function Expression, the mesh of the 2 operands should be equal" << l << " vs " << r;
 
-- 
2.43.0


From 92330784a34a5992a72bf633927a2f7ad922be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 039/151] fix: cbegin and cend of block Green functions
 returned iterators on a destroyed temporary

---
 c++/triqs/gfs/block/_block_gf_view_common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/block/_block_gf_view_common.hpp b/c++/triqs/gfs/block/_block_gf_view_common.hpp
index d2f6c73..6c04ef4 100644
--- a/c++/triqs/gfs/block/_block_gf_view_common.hpp
+++ b/c++/triqs/gfs/block/_block_gf_view_common.hpp
@@ -269,5 +269,5 @@ iterator begin() { return {*this, false}; }
 const_iterator begin() const { return {*this, false}; }
 iterator end() { return {*this, true}; }
 const_iterator end() const { return {*this, true}; }
-auto cbegin() { return const_view_type(*this).begin(); }
-auto cend() { return const_view_type(*this).end(); }
+const_iterator cbegin() const { return {*this, false}; }
+const_iterator cend() const { return {*this, true}; }
-- 
2.43.0


From 835763eb82e3f05bf4a5e64908e8ca010e799cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 040/151] fix: size, iteration and assignment of an empty
 block2_gf threw an exception

---
 c++/triqs/gfs/block/_block_gf_view_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/block/_block_gf_view_common.hpp b/c++/triqs/gfs/block/_block_gf_view_common.hpp
index 6c04ef4..be0dfa7 100644
--- a/c++/triqs/gfs/block/_block_gf_view_common.hpp
+++ b/c++/triqs/gfs/block/_block_gf_view_common.hpp
@@ -45,7 +45,7 @@ int size1() const
 int size2() const
   requires(Arity == 2)
 {
-  return _glist.at(0).size();
+  return _glist.empty() ? 0 : _glist[0].size();
 }
 int size() const {
   if constexpr (Arity == 1) {
-- 
2.43.0


From 672c5c20bf966344bd0516353823eebb4ed87d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 041/151] fix: expressions and view assignments of block Green
 functions with different block structures read out of bounds

---
 c++/triqs/gfs/block/_block_gf_view_common.hpp |  3 +++
 c++/triqs/gfs/block/expr.hpp                  | 18 +++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/gfs/block/_block_gf_view_common.hpp b/c++/triqs/gfs/block/_block_gf_view_common.hpp
index be0dfa7..8bbde02 100644
--- a/c++/triqs/gfs/block/_block_gf_view_common.hpp
+++ b/c++/triqs/gfs/block/_block_gf_view_common.hpp
@@ -59,8 +59,11 @@ private:
 template <typename RHS> void _assign_impl(RHS &&rhs) {
 
   if constexpr (Arity == 1) {
+    if (size() != rhs.size()) TRIQS_RUNTIME_ERROR << "Block Gf Assignment : incompatible size " << size() << " vs " << rhs.size();
     for (int w = 0; w < size(); ++w) _glist[w] = rhs[w];
   } else {
+    if (size1() != rhs.size1() or size2() != rhs.size2())
+      TRIQS_RUNTIME_ERROR << "Block2 Gf Assignment : incompatible sizes " << size1() << "x" << size2() << " vs " << rhs.size1() << "x" << rhs.size2();
     for (int w = 0; w < size1(); ++w)
       for (int v = 0; v < size2(); ++v) _glist[w][v] = rhs(w, v);
   }
diff --git a/c++/triqs/gfs/block/expr.hpp b/c++/triqs/gfs/block/expr.hpp
index 2a2acf9..b7e79b0 100644
--- a/c++/triqs/gfs/block/expr.hpp
+++ b/c++/triqs/gfs/block/expr.hpp
@@ -78,9 +78,19 @@ namespace triqs {
       R r;
       template <typename LL, typename RR> bgf_expr(LL &&l_, RR &&r_) : l(std::forward<LL>(l_)), r(std::forward<RR>(r_)) {}
 
-      auto size() const { return std::max(l.size(), r.size()); }
-      auto size1() const { return std::max(l.size1(), r.size1()); }
-      auto size2() const { return std::max(l.size2(), r.size2()); }
+      auto size() const { return combine_size(l.size(), r.size()); }
+      auto size1() const { return combine_size(l.size1(), r.size1()); }
+      auto size2() const { return combine_size(l.size2(), r.size2()); }
+
+      private:
+      // the size of the expression. A scalar has size -1.
+      static int combine_size(int sl, int sr) {
+        if (sl != sr and sl != -1 and sr != -1)
+          TRIQS_RUNTIME_ERROR << "Block size mismatch in Block Green Function Expression: " << sl << " vs " << sr;
+        return std::max(sl, sr);
+      }
+
+      public:
 
       auto block_names() const {
         if constexpr (std::is_void_v<typename L_t::mesh_t>)
@@ -111,6 +121,8 @@ namespace triqs {
       template <typename LL> bgf_unary_m_expr(LL &&l_) : l(std::forward<LL>(l_)) {}
 
       auto size() const { return l.size(); }
+      auto size1() const { return l.size1(); }
+      auto size2() const { return l.size2(); }
       auto block_names() const { return l.block_names(); }
 
       template <typename... Keys> auto operator[](Keys &&...keys) const { return -l.operator[](std::forward<Keys>(keys)...); } // Clang fix
-- 
2.43.0


From 11ee1e22253c2316047fa20f66e089b5337de7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 042/151] fix: lattice Fourier transform to a mesh with other
 dimensions read or wrote out of bounds

---
 c++/triqs/gfs/transform/fourier_lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/transform/fourier_lattice.cpp b/c++/triqs/gfs/transform/fourier_lattice.cpp
index 7858647..cdc561f 100644
--- a/c++/triqs/gfs/transform/fourier_lattice.cpp
+++ b/c++/triqs/gfs/transform/fourier_lattice.cpp
@@ -29,7 +29,7 @@ namespace triqs::gfs {
   // The implementation is almost the same in both cases...
   template <typename M1, typename M2> gf_vec_t<M1> __impl(int fftw_backward_forward, M1 const &out_mesh, gf_vec_cvt<M2> g_in) {
 
-    //ASSERT_EQUAL(g_out.data().shape(), g_in.data().shape(), "Meshes are different");
+    ASSERT_EQUAL(out_mesh.dims(), g_in.mesh().dims(), "Lattice Fourier transform: the meshes have different dimensions");
     //ASSERT_EQUAL(g_out.data().indexmap().strides()[1], g_out.data().shape()[1], "Unexpected strides in fourier implementation");
     //ASSERT_EQUAL(g_out.data().indexmap().strides()[2], 1, "Unexpected strides in fourier implementation");
     //ASSERT_EQUAL(g_in.data().indexmap().strides()[1], g_in.data().shape()[1], "Unexpected strides in fourier implementation");
-- 
2.43.0


From 9613f84114a9cdae01a9e57d6bcf8c635943f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 043/151] fix: Fourier transform of G(tau) with less than 9
 time points and no moments read out of bounds

---
 c++/triqs/gfs/transform/fourier_matsubara.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/transform/fourier_matsubara.cpp b/c++/triqs/gfs/transform/fourier_matsubara.cpp
index 06157b4..bfec5e4 100644
--- a/c++/triqs/gfs/transform/fourier_matsubara.cpp
+++ b/c++/triqs/gfs/transform/fourier_matsubara.cpp
@@ -98,9 +98,11 @@ namespace triqs::gfs {
     nda::array<dcomplex, 2> tail;
 
     if (known_moments.is_empty()) {
-      // A simple check on whether or not we are dealing with noisy data
       auto dat  = gt.data();
       int n_tau = gt.mesh().size();
+      // The estimate of the moments requires at least 9 points
+      if (n_tau < 9) return _fourier_impl(iw_mesh, gt, make_zero_tail(gt, 4));
+      // A simple check on whether or not we are dealing with noisy data
       auto der_1 =
          max_element(abs(dat(1, range::all) - dat(0, range::all)) + abs(dat(n_tau - 2, range::all) - dat(n_tau - 1, range::all))) / gt.mesh().delta();
       auto der_2 = 0.5 * max_element(abs(dat(2, range::all) - dat(0, range::all)) + abs(dat(n_tau - 3, range::all) - dat(n_tau - 1, range::all)))
-- 
2.43.0


From 2b591b8e7c5793794c4f8f3039c0b11a6920043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 044/151] fix: flatten_2d swapped the variables, so that
 moments given for the third variable of a Green function were attributed to
 the wrong points

---
 c++/triqs/gfs/gf/flatten.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/gfs/gf/flatten.hpp b/c++/triqs/gfs/gf/flatten.hpp
index 12425ff..28a53ae 100644
--- a/c++/triqs/gfs/gf/flatten.hpp
+++ b/c++/triqs/gfs/gf/flatten.hpp
@@ -33,17 +33,15 @@ namespace triqs::gfs {
   template <int N = 0, nda::MemoryArray A> auto flatten_2d(A const &v) {
     long nrows = v.extent(N);      // # rows of the result, i.e. n-th dim, which is now at 0.
     long ncols = v.size() / nrows; // # columns of the result. Everything but n-th dim.
-    return reshape(typename A::regular_type{nda::transposed_view<0, N>(v)}, nrows, ncols);
+    return reshape(typename A::regular_type{nda::rotate_index_view<N>(v)}, nrows, ncols);
   }
 
   // -------------------------------------------------------
 
   /// Inverse of flatten_2d
   template <int N = 0> void unflatten_2d(nda::MemoryArray auto &&out, nda::MemoryArray auto const &afl) {
-    auto sh_fl = out.shape();
-    std::swap(sh_fl[0], sh_fl[N]);
-    auto data_fl = reshape(afl, sh_fl);
-    out()        = nda::transposed_view<0, N>(data_fl);
+    auto out_rot = nda::rotate_index_view<N>(out());
+    out_rot      = reshape(afl, out_rot.shape());
   }
 
   //-------------------------------------
-- 
2.43.0


From 364c38ec271cf3c2956461fd5d4f27ad47e71f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 045/151] fix: gx = fourier(gy) with other target shapes or
 sizes of the other variables read or wrote out of bounds

---
 c++/triqs/gfs/transform/fourier.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/gfs/transform/fourier.hpp b/c++/triqs/gfs/transform/fourier.hpp
index de89e4f..b04b074 100644
--- a/c++/triqs/gfs/transform/fourier.hpp
+++ b/c++/triqs/gfs/transform/fourier.hpp
@@ -271,6 +271,10 @@ namespace triqs::gfs {
     }
 
     // check the size of the "inactive" dimensions
+    auto sh_lhs = lhs_g.data().shape(), sh_rhs = rhs.g.data().shape();
+    sh_rhs[N] = sh_lhs[N];
+    if (sh_lhs != sh_rhs)
+      TRIQS_RUNTIME_ERROR << "gx = fourier(gy): gx and gy must have the same target shape and the same size in all the variables that are not transformed";
 
     std::apply([&](auto &&...u) { _fourier<N>(rhs.g, lhs_g, u...); }, rhs.args); // calls _fourier( rhs.g, lhs_g, rhs.args...)
   }
-- 
2.43.0


From aa79e22779fbee022cee89c482fc9f43a10e56c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 046/151] fix: Fourier transform with an empty array of moments
 divided by zero, with moments of another shape it read out of bounds

---
 c++/triqs/gfs/gf/flatten.hpp        | 2 +-
 c++/triqs/gfs/transform/fourier.hpp | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/gf/flatten.hpp b/c++/triqs/gfs/gf/flatten.hpp
index 28a53ae..92de750 100644
--- a/c++/triqs/gfs/gf/flatten.hpp
+++ b/c++/triqs/gfs/gf/flatten.hpp
@@ -32,7 +32,7 @@ namespace triqs::gfs {
    */
   template <int N = 0, nda::MemoryArray A> auto flatten_2d(A const &v) {
     long nrows = v.extent(N);      // # rows of the result, i.e. n-th dim, which is now at 0.
-    long ncols = v.size() / nrows; // # columns of the result. Everything but n-th dim.
+    long ncols = (nrows == 0 ? 0 : v.size() / nrows); // # columns of the result. Everything but n-th dim.
     return reshape(typename A::regular_type{nda::rotate_index_view<N>(v)}, nrows, ncols);
   }
 
diff --git a/c++/triqs/gfs/transform/fourier.hpp b/c++/triqs/gfs/transform/fourier.hpp
index b04b074..190e945 100644
--- a/c++/triqs/gfs/transform/fourier.hpp
+++ b/c++/triqs/gfs/transform/fourier.hpp
@@ -80,7 +80,13 @@ namespace triqs::gfs {
       return gfl_t{flatten_gf_2d<N>(gin)};
     }();
 
-    auto gout_fl = _fourier_impl(out_mesh, gin_fl, flatten_2d(opt_args)...);
+    // The moments must have the same shape as the data, except for the first dimension
+    auto flatten_moments = [&gin_fl](auto const &moments) {
+      auto m = flatten_2d(moments);
+      if (not m.empty() and m.extent(1) != gin_fl.target_shape()[0]) TRIQS_RUNTIME_ERROR << "Fourier: the shape of the moments does not match the data";
+      return m;
+    };
+    auto gout_fl = _fourier_impl(out_mesh, gin_fl, flatten_moments(opt_args)...);
     unflatten_gf_2d<N>(gout, gout_fl);
   }
 
-- 
2.43.0


From 50229ba079e80e470dda6e656ac12a827aec1dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 047/151] fix: zero temperature density of a real frequency
 function exchanged the weights of the two points around zero frequency

---
 c++/triqs/gfs/functions/density.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/density.cpp b/c++/triqs/gfs/functions/density.cpp
index 70f1a43..60b33b8 100644
--- a/c++/triqs/gfs/functions/density.cpp
+++ b/c++/triqs/gfs/functions/density.cpp
@@ -150,7 +150,7 @@ namespace triqs::gfs {
     for (auto widx : range(1, N0)) res += g[widx];
     if (abs(dw0) > 1e-9) {
       double a = dw0 / dw;
-      res += 0.5 * ((a * a - 1.) * g[N0 - 1] + a * (2. - a) * g[N0]);
+      res += 0.5 * ((a * (2. - a) - 1.) * g[N0 - 1] + a * a * g[N0]);
     } else
       res -= 0.5 * g[N0 - 1];
 
-- 
2.43.0


From df7b6ad8092e266e372ae8d6fe59c6f0fb579f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 048/151] fix: zero temperature density of a real frequency
 function on a mesh that ends below zero read out of bounds

---
 c++/triqs/gfs/functions/density.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c++/triqs/gfs/functions/density.cpp b/c++/triqs/gfs/functions/density.cpp
index 60b33b8..323372f 100644
--- a/c++/triqs/gfs/functions/density.cpp
+++ b/c++/triqs/gfs/functions/density.cpp
@@ -143,6 +143,12 @@ namespace triqs::gfs {
     auto N0    = int(std::floor(-wmin / dw)) + 1; // frequency index at or above w=0
     double dw0 = -wmin - (N0 - 1) * dw;           // last interval width to w=0
 
+    // If the mesh ends below w=0, integrate over the full mesh
+    if (N0 >= N) {
+      N0  = N;
+      dw0 = 0.;
+    }
+
     nda::matrix<dcomplex> res(g.target_shape());
 
     // Trapetzoidal integration, with partial right interval
-- 
2.43.0


From c4603cc32b6275d7e9fe8d7d3c2e570c562d2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 049/151] fix: density of a Matsubara function with a
 rectangular target wrote out of bounds

---
 c++/triqs/gfs/functions/density.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/gfs/functions/density.cpp b/c++/triqs/gfs/functions/density.cpp
index 323372f..2f149c0 100644
--- a/c++/triqs/gfs/functions/density.cpp
+++ b/c++/triqs/gfs/functions/density.cpp
@@ -34,6 +34,8 @@ namespace triqs::gfs {
     if (g.mesh().positive_only())
       TRIQS_RUNTIME_ERROR << "density is only implemented for g(i omega_n) with full mesh (positive and negative frequencies)";
 
+    if (g.target_shape()[0] != g.target_shape()[1]) TRIQS_RUNTIME_ERROR << "density is only implemented for g(i omega_n) with a square target";
+
     nda::array_const_view<dcomplex, 3> mom_123;
 
     // Assume vanishing 0th moment in tail fit
-- 
2.43.0


From 679f9e572401965fbc65a81248fb57bd4a60a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 050/151] fix: fit_tail_on_window treated the frequencies of
 bosonic functions as fermionic

---
 c++/triqs/gfs/functions/imfreq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/functions/imfreq.hpp b/c++/triqs/gfs/functions/imfreq.hpp
index a1d93f2..3a04e0a 100644
--- a/c++/triqs/gfs/functions/imfreq.hpp
+++ b/c++/triqs/gfs/functions/imfreq.hpp
@@ -246,9 +246,9 @@ namespace triqs::gfs {
   // ------------------------------------------------------------------------------------------------------
 
   template <template <typename, typename, typename...> typename G, typename T> auto restricted_view(G<mesh::imfreq, T> const &g, int n_max) {
-    auto iw_mesh = mesh::imfreq{g.mesh().beta(), Fermion, n_max};
-
     auto const &old_mesh = g.mesh();
+    auto iw_mesh         = mesh::imfreq{old_mesh.beta(), old_mesh.statistic(), n_max};
+
     int idx_min          = old_mesh.to_data_index(iw_mesh.first_index());
     int idx_max          = old_mesh.to_data_index(iw_mesh.last_index());
     auto data_view       = g.data()(range(idx_min, idx_max + 1), ellipsis());
-- 
2.43.0


From a2cfaee0a47f45019664d5034d0ba72609f352af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 051/151] fix: fit_tail_on_window on a positive_only mesh or
 beyond the last frequency read out of bounds

---
 c++/triqs/gfs/functions/imfreq.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/gfs/functions/imfreq.hpp b/c++/triqs/gfs/functions/imfreq.hpp
index 3a04e0a..17d331e 100644
--- a/c++/triqs/gfs/functions/imfreq.hpp
+++ b/c++/triqs/gfs/functions/imfreq.hpp
@@ -248,6 +248,8 @@ namespace triqs::gfs {
   template <template <typename, typename, typename...> typename G, typename T> auto restricted_view(G<mesh::imfreq, T> const &g, int n_max) {
     auto const &old_mesh = g.mesh();
     auto iw_mesh         = mesh::imfreq{old_mesh.beta(), old_mesh.statistic(), n_max};
+    if (old_mesh.positive_only()) TRIQS_RUNTIME_ERROR << "restricted_view is not implemented for positive_only meshes";
+    if (iw_mesh.last_index() > old_mesh.last_index()) TRIQS_RUNTIME_ERROR << "restricted_view: the window exceeds the mesh";
 
     int idx_min          = old_mesh.to_data_index(iw_mesh.first_index());
     int idx_max          = old_mesh.to_data_index(iw_mesh.last_index());
-- 
2.43.0


From 5d810539068b048af69a6cc660ace6ceaf2455d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 052/151] fix: tail fit of expansion order above 9 with more
 than 10 known moments wrote out of bounds

---
 c++/triqs/mesh/tail_fitter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/mesh/tail_fitter.hpp b/c++/triqs/mesh/tail_fitter.hpp
index 5083b9b..15ef460 100644
--- a/c++/triqs/mesh/tail_fitter.hpp
+++ b/c++/triqs/mesh/tail_fitter.hpp
@@ -202,6 +202,7 @@ namespace triqs::mesh {
       // If not set, build least square solver for for given number of known moments
       int n_fixed_moments = known_moments.extent(0);
       if (n_fixed_moments > _expansion_order) return {known_moments, 0.0};
+      if (n_fixed_moments > max_order) TRIQS_RUNTIME_ERROR << "Can not fit with more than " << max_order << " known moments";
 
       auto &lss = get_lss<enforce_hermiticity>();
       if (!bool(lss[n_fixed_moments])) setup_lss<enforce_hermiticity>(m, n_fixed_moments);
-- 
2.43.0


From 00d39722a2376373524ac0043058a2241d47bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 053/151] fix: get_tail of a Legendre function was declared
 with another signature, and returned a nonzero moment of order 0

---
 c++/triqs/gfs/functions/legendre.cpp | 2 +-
 c++/triqs/gfs/functions/legendre.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/functions/legendre.cpp b/c++/triqs/gfs/functions/legendre.cpp
index c68f31c..a6a2fcf 100644
--- a/c++/triqs/gfs/functions/legendre.cpp
+++ b/c++/triqs/gfs/functions/legendre.cpp
@@ -38,7 +38,7 @@ namespace triqs {
       array<dcomplex, 3> t{sh};
       t() = 0.0;
 
-      for (int p = 0; p < order; p++)
+      for (int p = 1; p < order; p++)
         for (auto l : gl.mesh()) t(p, ellipsis{}) += (triqs::utility::legendre_t(l.index(), p) / std::pow(gl.mesh().beta(), p)) * gl[l];
 
       return t;
diff --git a/c++/triqs/gfs/functions/legendre.hpp b/c++/triqs/gfs/functions/legendre.hpp
index 439cf37..23a1c69 100644
--- a/c++/triqs/gfs/functions/legendre.hpp
+++ b/c++/triqs/gfs/functions/legendre.hpp
@@ -26,7 +26,7 @@ namespace triqs {
     // For Legendre functions
     // ------------------------------------------------------
 
-    array<dcomplex, 3> get_tail(gf_const_view<mesh::legendre> gl);
+    array<dcomplex, 3> get_tail(gf_const_view<mesh::legendre> gl, int order);
 
     void enforce_discontinuity(gf_view<mesh::legendre> &gl, nda::array_view<double, 2> disc);
   } // namespace gfs
-- 
2.43.0


From 96de6938d0c56a58f950ee7c7b94f6c5f2940137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 054/151] fix: Pade continuation with no points read an empty
 array

---
 c++/triqs/gfs/transform/pade.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/transform/pade.cpp b/c++/triqs/gfs/transform/pade.cpp
index 86b8de6..086bbfa 100644
--- a/c++/triqs/gfs/transform/pade.cpp
+++ b/c++/triqs/gfs/transform/pade.cpp
@@ -32,7 +32,7 @@ namespace triqs::gfs {
     // make sure the GFs have the same structure
     //assert(gw.shape() == gr.shape());
 
-    if (n_points < 0 || n_points > gw.mesh().last_index() + 1)
+    if (n_points < 1 || n_points > gw.mesh().last_index() + 1)
       TRIQS_RUNTIME_ERROR << "Pade argument n_points (" << n_points
                           << ") should be positive and not be greater than the positive number of Matsubara frequencies ("
                           << gw.mesh().last_index() + 1 << ")\n";
-- 
2.43.0


From e79e5c00f22d054e23bedb43daa68bea06194abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 055/151] fix: Legendre transform, tail and discontinuity of
 bosonic functions used the fermionic coefficients

---
 c++/triqs/gfs/functions/legendre.cpp           |  8 ++++++--
 c++/triqs/gfs/transform/legendre_matsubara.hpp |  3 ++-
 c++/triqs/utility/legendre.cpp                 | 16 ++++++++++++----
 c++/triqs/utility/legendre.hpp                 |  6 ++++--
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/c++/triqs/gfs/functions/legendre.cpp b/c++/triqs/gfs/functions/legendre.cpp
index a6a2fcf..807f72b 100644
--- a/c++/triqs/gfs/functions/legendre.cpp
+++ b/c++/triqs/gfs/functions/legendre.cpp
@@ -38,8 +38,9 @@ namespace triqs {
       array<dcomplex, 3> t{sh};
       t() = 0.0;
 
+      bool boson = (gl.mesh().statistic() == mesh::Boson);
       for (int p = 1; p < order; p++)
-        for (auto l : gl.mesh()) t(p, ellipsis{}) += (triqs::utility::legendre_t(l.index(), p) / std::pow(gl.mesh().beta(), p)) * gl[l];
+        for (auto l : gl.mesh()) t(p, ellipsis{}) += (triqs::utility::legendre_t(l.index(), p, boson) / std::pow(gl.mesh().beta(), p)) * gl[l];
 
       return t;
     }
@@ -47,13 +48,16 @@ namespace triqs {
     // Impose a discontinuity G(\tau=0)-G(\tau=\beta)
     void enforce_discontinuity(gf_view<legendre> &gl, nda::array_view<double, 2> disc) {
 
+      bool boson  = (gl.mesh().statistic() == mesh::Boson);
       double norm = 0.0;
       nda::vector<double> t(gl.data().shape()[0]);
       for (int i = 0; i < t.size(); ++i) {
-        t(i) = triqs::utility::legendre_t(i, 1) / gl.mesh().beta();
+        t(i) = triqs::utility::legendre_t(i, 1, boson) / gl.mesh().beta();
         norm += t(i) * t(i);
       }
 
+      if (norm == 0.0) TRIQS_RUNTIME_ERROR << "enforce_discontinuity: no Legendre coefficient contributes to the discontinuity";
+
       nda::array<dcomplex, 2> corr(disc.shape());
       corr() = 0;
       for (auto l : gl.mesh()) corr += t(l.index()) * gl[l];
diff --git a/c++/triqs/gfs/transform/legendre_matsubara.hpp b/c++/triqs/gfs/transform/legendre_matsubara.hpp
index 454dd6a..13b4bc5 100644
--- a/c++/triqs/gfs/transform/legendre_matsubara.hpp
+++ b/c++/triqs/gfs/transform/legendre_matsubara.hpp
@@ -44,8 +44,9 @@ namespace triqs::gfs {
     gw() = 0.0;
 
     // Use the transformation matrix
+    bool boson = (gl.mesh().statistic() == mesh::Boson);
     for (auto om : gw.mesh()) {
-      for (auto l : gl.mesh()) { gw[om] += triqs::utility::legendre_T(om.index(), l.index()) * gl[l]; }
+      for (auto l : gl.mesh()) { gw[om] += triqs::utility::legendre_T(om.index(), l.index(), boson) * gl[l]; }
     }
   }
 
diff --git a/c++/triqs/utility/legendre.cpp b/c++/triqs/utility/legendre.cpp
index 4c82dbb..e4e2caf 100644
--- a/c++/triqs/utility/legendre.cpp
+++ b/c++/triqs/utility/legendre.cpp
@@ -21,7 +21,15 @@
 
 using namespace std::complex_literals;
 
-std::complex<double> triqs::utility::legendre_T(int n, int l) {
+std::complex<double> triqs::utility::legendre_T(int n, int l, bool boson) {
+
+  if (boson) {
+    if (n == 0) return (l == 0 ? 1.0 : 0.0);
+    // exp(i w_n beta / 2) = (-1)^n and w_n beta / 2 = n pi
+    double x                 = std::abs(n) * M_PI;
+    std::complex<double> res = (n % 2 == 0 ? 1.0 : -1.0) * sqrt((2 * l + 1) * M_PI / (2 * x)) * std::pow(1i, l) * boost::math::cyl_bessel_j(l + 0.5, x);
+    return n < 0 ? std::conj(res) : res;
+  }
 
   bool neg_n = false;
   if (n < 0) {
@@ -39,20 +47,20 @@ std::complex<double> triqs::utility::legendre_T(int n, int l) {
   return neg_n ? std::conj(res) : res;
 }
 
-double triqs::utility::legendre_t(int l, int p) {
+double triqs::utility::legendre_t(int l, int p, bool boson) {
 
   // p is the 1/omega power, it can't be negative
   assert(p > 0);
 
   // in these two cases we can directly give back 0
-  if ((l + p) % 2 == 0 || p > l + 1) return 0.0;
+  if ((l + p) % 2 == (boson ? 1 : 0) || p > l + 1) return 0.0;
 
   // the factorials are done here
   double f = 1;
   for (int i = l + p - 1; (i > l - p + 1) && (i > 1); i--) f *= i;
   for (int i = p - 1; i > 1; i--) f /= i;
 
-  return std::pow(double(-1), double(p)) * 2 * sqrt(2 * l + 1) * f;
+  return std::pow(double(-1), double(boson ? p + 1 : p)) * 2 * sqrt(2 * l + 1) * f;
 }
 
 double triqs::utility::mod_cyl_bessel_i(int n, double x) {
diff --git a/c++/triqs/utility/legendre.hpp b/c++/triqs/utility/legendre.hpp
index 2775761..95958cc 100644
--- a/c++/triqs/utility/legendre.hpp
+++ b/c++/triqs/utility/legendre.hpp
@@ -25,10 +25,12 @@
 namespace triqs::utility {
 
   // This is T_{nl} following Eq.(E2) of our paper
-  std::complex<double> legendre_T(int n, int l);
+  // (for bosonic Matsubara frequencies if boson is true)
+  std::complex<double> legendre_T(int n, int l, bool boson = false);
 
   // This is t_l^p following Eq.(E8) of our paper
-  double legendre_t(int l, int p);
+  // (for bosonic functions if boson is true)
+  double legendre_t(int l, int p, bool boson = false);
 
   // Modified spherical Bessel function of the first kind i(n,x)
   double mod_cyl_bessel_i(int n, double x);
-- 
2.43.0


From 437fa320c31d3b2dab19ef47d3617ba856f87934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 056/151] fix: enforce_discontinuity with a discontinuity of
 another shape than the target read out of bounds

---
 c++/triqs/gfs/functions/legendre.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/gfs/functions/legendre.cpp b/c++/triqs/gfs/functions/legendre.cpp
index 807f72b..b2639c2 100644
--- a/c++/triqs/gfs/functions/legendre.cpp
+++ b/c++/triqs/gfs/functions/legendre.cpp
@@ -48,6 +48,8 @@ namespace triqs {
     // Impose a discontinuity G(\tau=0)-G(\tau=\beta)
     void enforce_discontinuity(gf_view<legendre> &gl, nda::array_view<double, 2> disc) {
 
+      if (disc.shape() != gl.target_shape()) TRIQS_RUNTIME_ERROR << "enforce_discontinuity: shape of the discontinuity differs from the target shape";
+
       bool boson  = (gl.mesh().statistic() == mesh::Boson);
       double norm = 0.0;
       nda::vector<double> t(gl.data().shape()[0]);
-- 
2.43.0


From f60b7d8e2c4d012259715f91a53864f5f9a3c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 057/151] fix: reading a Bravais lattice or a Brillouin zone
 accepted the HDF5 group of another type

---
 c++/triqs/lattice/bravais_lattice.cpp | 1 +
 c++/triqs/lattice/brillouin_zone.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/c++/triqs/lattice/bravais_lattice.cpp b/c++/triqs/lattice/bravais_lattice.cpp
index 29510be..673db68 100644
--- a/c++/triqs/lattice/bravais_lattice.cpp
+++ b/c++/triqs/lattice/bravais_lattice.cpp
@@ -97,6 +97,7 @@ namespace triqs {
     /// Read from HDF5
     void h5_read(h5::group fg, std::string subgroup_name, bravais_lattice &bl) {
       h5::group gr = fg.open_group(subgroup_name);
+      assert_hdf5_format(gr, bl, true);
       nda::matrix<double> units__;
       h5::read(gr, "units", units__);
 
diff --git a/c++/triqs/lattice/brillouin_zone.cpp b/c++/triqs/lattice/brillouin_zone.cpp
index 035320c..8377ea4 100644
--- a/c++/triqs/lattice/brillouin_zone.cpp
+++ b/c++/triqs/lattice/brillouin_zone.cpp
@@ -46,6 +46,7 @@ namespace triqs {
 
     void h5_read(h5::group fg, std::string subgroup_name, brillouin_zone &bz) {
       h5::group gr = fg.open_group(subgroup_name);
+      assert_hdf5_format(gr, bz, true);
       bravais_lattice bl;
       h5_read(gr, "bravais_lattice", bl);
       bz = brillouin_zone{bl};
-- 
2.43.0


From 15e1d5c6ee986afd800b6c1f63ee33549ca515b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 058/151] fix: reciprocal vectors of a default constructed
 Brillouin zone missed the factor 2 pi and changed when written and read

---
 c++/triqs/lattice/brillouin_zone.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/c++/triqs/lattice/brillouin_zone.hpp b/c++/triqs/lattice/brillouin_zone.hpp
index f3687f9..db048bc 100644
--- a/c++/triqs/lattice/brillouin_zone.hpp
+++ b/c++/triqs/lattice/brillouin_zone.hpp
@@ -31,10 +31,7 @@ namespace triqs {
       using value_t = k_t; // domain concept
 
       // Default construction, 3d cubic lattice
-      brillouin_zone() {
-        K_reciprocal     = nda::eye<double>(3);
-        K_reciprocal_inv = K_reciprocal;
-      }
+      brillouin_zone() : brillouin_zone(bravais_lattice{}) {}
 
       brillouin_zone(brillouin_zone &&)                 = default;
       brillouin_zone(brillouin_zone const &)            = default;
-- 
2.43.0


From 61e0edf9d27839e94d7ebbf922b854326321be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 059/151] fix: reading an operator with its operator set kept
 the monomials of the previous value

---
 c++/triqs/operators/many_body_operator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 3f37bf0..18e3125 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -162,6 +162,7 @@ namespace triqs {
 
       auto r_fops = fops.data(); // the data vector v[int] -> indices inverting fops[indices] -> n
 
+      op.monomials.clear();
       for (auto const &mon : datavec) {
         monomial_t monomial;                                      // vector of canonical_ops_t
         for (int i : mon.op_indices) {                            // loop over the index of the C, C^ ops of the monomial
-- 
2.43.0


From 0c664cfce52946abc4c57eaa421b2276c84b2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 060/151] fix: block Green functions with ambiguous block names
 were written to HDF5 with some blocks overwritten

---
 c++/triqs/gfs/block/_block_gf_view_common.hpp | 14 ++++++++++++++
 c++/triqs/gfs/block/block_gf.hpp              |  1 +
 2 files changed, 15 insertions(+)

diff --git a/c++/triqs/gfs/block/_block_gf_view_common.hpp b/c++/triqs/gfs/block/_block_gf_view_common.hpp
index 8bbde02..bdb7143 100644
--- a/c++/triqs/gfs/block/_block_gf_view_common.hpp
+++ b/c++/triqs/gfs/block/_block_gf_view_common.hpp
@@ -166,6 +166,20 @@ template <typename Arg>
 
 /// Write into HDF5
 friend void h5_write(h5::group fg, std::string const &subgroup_name, this_t const &g) {
+  // Two objects of the same name would overwrite each other
+  auto names_used     = std::vector<std::string>{"block_names", "block_names1", "block_names2"};
+  auto check_new_name = [&names_used](std::string const &name) {
+    if (std::find(names_used.begin(), names_used.end(), name) != names_used.end())
+      TRIQS_RUNTIME_ERROR << "h5_write : the block name " << name << " is reserved or not unique, cannot write the block Green function";
+    names_used.push_back(name);
+  };
+  if constexpr (Arity == 1) {
+    for (auto const &name : g.block_names()) check_new_name(name);
+  } else {
+    for (auto const &n1 : g.block_names()[0])
+      for (auto const &n2 : g.block_names()[1]) check_new_name(n1 + "_" + n2);
+  }
+
   auto gr = fg.create_group(subgroup_name);
   write_hdf5_format(gr, g);
 
diff --git a/c++/triqs/gfs/block/block_gf.hpp b/c++/triqs/gfs/block/block_gf.hpp
index a834b27..42191a2 100644
--- a/c++/triqs/gfs/block/block_gf.hpp
+++ b/c++/triqs/gfs/block/block_gf.hpp
@@ -18,6 +18,7 @@
 #pragma once
 
 #include "./../../utility/factory.hpp"
+#include <algorithm>
 #include "./gf_struct.hpp"
 
 namespace triqs::gfs {
-- 
2.43.0


From 7f6d6bc293f09f1d7fffc602cc12135b58b8132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 061/151] fix: momenta with three components could not be
 converted between the bases of a 1d or 2d Brillouin zone

---
 c++/triqs/lattice/brillouin_zone.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/lattice/brillouin_zone.hpp b/c++/triqs/lattice/brillouin_zone.hpp
index db048bc..5188992 100644
--- a/c++/triqs/lattice/brillouin_zone.hpp
+++ b/c++/triqs/lattice/brillouin_zone.hpp
@@ -68,12 +68,12 @@ namespace triqs {
 
       /// Transform from lattice to real coordinates
       template <typename K> k_t lattice_to_real_coordinates(K const &k) const {
-        return transpose(K_reciprocal)(range::all, range(ndim())) * nda::basic_array_view{k};
+        return transpose(K_reciprocal)(range::all, range(ndim())) * nda::basic_array_view{k}(range(ndim()));
       }
 
       /// Transform from real to lattice coordinates
       template <typename K> k_t real_to_lattice_coordinates(K const &k) const {
-        return transpose(K_reciprocal_inv)(range::all, range(ndim())) * nda::basic_array_view{k};
+        return transpose(K_reciprocal_inv)(range::all, range(ndim())) * nda::basic_array_view{k}(range(ndim()));
       }
 
       // ------------------- Comparison -------------------
-- 
2.43.0


From d6eee743a6671673656b4442b9ed94e75015fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 062/151] fix: Bravais lattice accepted non square units and a
 zero unit vector in one dimension

---
 c++/triqs/lattice/bravais_lattice.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/lattice/bravais_lattice.cpp b/c++/triqs/lattice/bravais_lattice.cpp
index 673db68..cc5dc22 100644
--- a/c++/triqs/lattice/bravais_lattice.cpp
+++ b/c++/triqs/lattice/bravais_lattice.cpp
@@ -36,7 +36,7 @@ namespace triqs {
       using nda::linalg::cross_product;
 
       ndim_ = first_dim(units__);
-      if ((ndim_ < 1) || (ndim_ > 3)) TRIQS_RUNTIME_ERROR << " units matrix must be square matrix of size 1, 2 or 3";
+      if ((ndim_ < 1) || (ndim_ > 3) || (second_dim(units__) != ndim_)) TRIQS_RUNTIME_ERROR << " units matrix must be square matrix of size 1, 2 or 3";
       //using itertools::range;
       auto r       = range(ndim_);
       units_()     = 0;
@@ -47,6 +47,7 @@ namespace triqs {
       switch (ndim_) {
         case 1:
           ux    = units_(0, range::all);
+          if (sqrt(dot(ux, ux)) < almost_zero) TRIQS_RUNTIME_ERROR << "Bravais Lattice : the vector of unit is zero : " << units__;
           uz()  = 0;
           uz(1) = 1;
           uz    = uz - dot(uz, ux) * ux;
-- 
2.43.0


From 2703d5dce57ee40ba44522a5e49339612be0a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 063/151] fix: Fourier transform of a tight-binding model
 without hopping read out of bounds

---
 c++/triqs/lattice/tight_binding.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/lattice/tight_binding.hpp b/c++/triqs/lattice/tight_binding.hpp
index a657b6b..8893aec 100644
--- a/c++/triqs/lattice/tight_binding.hpp
+++ b/c++/triqs/lattice/tight_binding.hpp
@@ -101,8 +101,14 @@ namespace triqs {
             return nda::blas::outer_product(exp_j, overlap_mat_vec_[j]);
           }
         };
-        auto res = make_regular(vals(0));
-        for (int i = 1; i < displ_vec_.size(); ++i) res += vals(i);
+        using res_t = decltype(make_regular(vals(0)));
+        auto res    = [&]() {
+          if constexpr (nda::ArrayOfRank<K, 1>)
+            return res_t::zeros(n_orbitals(), n_orbitals());
+          else
+            return res_t::zeros(k_ndim.shape()[0], n_orbitals(), n_orbitals());
+        }();
+        for (int i = 0; i < displ_vec_.size(); ++i) res += vals(i);
         return res;
       }
 
-- 
2.43.0


From c9146d515ce908cd9779b55b5fd1e074dd186d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 064/151] fix: density of states of a flat band binned NaN

---
 c++/triqs/lattice/tight_binding.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c++/triqs/lattice/tight_binding.cpp b/c++/triqs/lattice/tight_binding.cpp
index ab8f663..888f499 100644
--- a/c++/triqs/lattice/tight_binding.cpp
+++ b/c++/triqs/lattice/tight_binding.cpp
@@ -84,6 +84,10 @@ namespace triqs {
       array<double, 1> epsilon(neps);
       double epsmax = max_element(eval);
       double epsmin = min_element(eval);
+      if (epsmax - epsmin <= 1.e-12 * std::max(std::abs(epsmin), std::abs(epsmax))) { // flat bands: choose bins of finite width around them
+        epsmax += 0.5;
+        epsmin -= 0.5;
+      }
       double deps   = (epsmax - epsmin) / neps;
       // for (int i =0; i< neps; ++i) epsilon(i)= epsmin+i/(neps-1.0)*(epsmax-epsmin);
       for (int i = 0; i < neps; ++i) epsilon(i) = epsmin + (i + 0.5) * deps;
@@ -177,6 +181,10 @@ namespace triqs {
 
       // define the epsilon mesh, etc.
       array<double, 1> epsilon(neps);
+      if (epsmax - epsmin <= 1.e-12 * std::max(std::abs(epsmin), std::abs(epsmax))) { // flat band: choose bins of finite width around it
+        epsmax += 0.5;
+        epsmin -= 0.5;
+      }
       double deps = (epsmax - epsmin) / neps;
       for (int i = 0; i < neps; ++i) epsilon(i) = epsmin + i / (neps - 1.0) * (epsmax - epsmin);
 
-- 
2.43.0


From 29194720d236fcc1a03bc380288f2e58ed329c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 065/151] fix: grid without points started on a point, and dos
 on it wrote out of bounds

---
 c++/triqs/lattice/grid_generator.hpp | 2 +-
 c++/triqs/lattice/tight_binding.cpp  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/lattice/grid_generator.hpp b/c++/triqs/lattice/grid_generator.hpp
index 0116bfd..3c7b3f2 100644
--- a/c++/triqs/lattice/grid_generator.hpp
+++ b/c++/triqs/lattice/grid_generator.hpp
@@ -39,11 +39,11 @@ namespace triqs {
         nx     = 0;
         ny     = 0;
         nz     = 0;
-        at_end = false;
         index_ = 0;
         N_X    = nkpts;
         N_Y    = (dim > 1 ? nkpts : 1);
         N_Z    = (dim > 2 ? nkpts : 1);
+        at_end = (size() == 0);
         step_x = 1.0 / double(N_X);
         step_y = 1.0 / double(N_Y);
         step_z = 1.0 / double(N_Z);
diff --git a/c++/triqs/lattice/tight_binding.cpp b/c++/triqs/lattice/tight_binding.cpp
index 888f499..b705410 100644
--- a/c++/triqs/lattice/tight_binding.cpp
+++ b/c++/triqs/lattice/tight_binding.cpp
@@ -58,6 +58,8 @@ namespace triqs {
 
     std::pair<array<double, 1>, array<double, 2>> dos(tight_binding const &TB, int nkpts, int neps) {
 
+      if (nkpts < 1 || neps < 1) TRIQS_RUNTIME_ERROR << "dos : at least one k point and one energy are needed";
+
       // loop on the BZ
       int ndim = TB.lattice().ndim();
       int norb = TB.lattice().n_orbitals();
-- 
2.43.0


From d4c34164b9772ae3e8253c0ce96c253568bd1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 066/151] fix: tight_binding compared hopping matrices before
 checking the shape of all of them

---
 c++/triqs/lattice/tight_binding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/lattice/tight_binding.cpp b/c++/triqs/lattice/tight_binding.cpp
index b705410..0287a71 100644
--- a/c++/triqs/lattice/tight_binding.cpp
+++ b/c++/triqs/lattice/tight_binding.cpp
@@ -38,7 +38,9 @@ namespace triqs {
           TRIQS_RUNTIME_ERROR << "the first dim matrix is of size " << first_dim(overlap_mat_vec_[i]) << " instead of " << n_orbitals();
         if (second_dim(overlap_mat_vec_[i]) != n_orbitals())
           TRIQS_RUNTIME_ERROR << "the second dim matrix is of size " << second_dim(overlap_mat_vec_[i]) << " instead of " << n_orbitals();
+      }
 
+      for (int i = 0; i < displ_vec_.size(); ++i) {
         // check hermiticity of hoppings: Hij(+R)= Hji(-R)* by looping of all displacements again
         bool found = false;
         for (int j = 0; j < displ_vec_.size(); ++j) {
-- 
2.43.0


From 8a470dfa3a1e2e5c5e3d8dfcbd30bfd5d1d2fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 067/151] fix: Monte Carlo run without cycles on some of the
 nodes blocked the other nodes

---
 c++/triqs/mc_tools/mc_generic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 76a902a..e6c61a9 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -248,10 +248,10 @@ namespace triqs::mc_tools {
       timer_run    = {};
       done_percent = 0;
       nmeasures    = 0;
-      if (n_cycles == 0) return 0;
       timer_run.start();
       triqs::signal_handler::start();
-      bool stop_it = false, finished = false, interrupted = false, infinite = (n_cycles < 0);
+      // with no cycle to do, still take part in the communications with the other nodes
+      bool stop_it = (n_cycles == 0), finished = (n_cycles == 0), interrupted = false, infinite = (n_cycles < 0);
       int NC                = 0;
       double next_info_time = 0.1;
 
-- 
2.43.0


From 9d80af637867ea746607e9f5c766e79cfa59d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 068/151] fix: recv of the serial mpi module failed instead of
 returning the value that was sent

---
 python/triqs/utility/mpi_nompi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/utility/mpi_nompi.py b/python/triqs/utility/mpi_nompi.py
index bc12256..2ce9570 100644
--- a/python/triqs/utility/mpi_nompi.py
+++ b/python/triqs/utility/mpi_nompi.py
@@ -60,10 +60,12 @@ def all_reduce(x, comm=world, op=lambda x, y: x + y):
     return x
 
 def send(val, dest):
+    global _sendval
     _sendval = val
     return
 
 def recv(source = 0):
+    global _sendval
     if _sendval is None:
         raise Exception('send val not set')
     recval = _sendval
-- 
2.43.0


From 40ad2c8b79f9b41e4a2b90c46d9a519e5005fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 069/151] fix: mpi.master_gets_host_names failed with more than
 one process

---
 python/triqs/utility/mpi_mpi4py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/utility/mpi_mpi4py.py b/python/triqs/utility/mpi_mpi4py.py
index 0e3e787..c4e732e 100644
--- a/python/triqs/utility/mpi_mpi4py.py
+++ b/python/triqs/utility/mpi_mpi4py.py
@@ -118,11 +118,11 @@ def master_gets_host_names():
     HostNames[rank] = gethostname()
     if is_master_node() :
       for proc in range (1,size) :
-        HostNames[proc],status = recv(proc)
+        HostNames[proc] = recv(proc)
     else:
       send(gethostname(),master)
     barrier()
-    assert len(HostNames)==size," internal pb MPI module"
+    assert len(HostNames)==(size if is_master_node() else 1)," internal pb MPI module"
     
     if is_master_node() :
       print("Hostnames : ")
-- 
2.43.0


From 8dd8bbac4ed888eb1d7b3be33e2c723effef1da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 070/151] fix: distribution on nodes failed with more than one
 process

---
 python/triqs/utility/dist_on_nodes.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/python/triqs/utility/dist_on_nodes.py b/python/triqs/utility/dist_on_nodes.py
index aee979c..468cb6a 100644
--- a/python/triqs/utility/dist_on_nodes.py
+++ b/python/triqs/utility/dist_on_nodes.py
@@ -60,14 +60,10 @@ class DistributionOnNodes:
           while not(self.finished()) or pid or [n for n in node_running if n] != [] :
               # Treat the request which have self.finished
               def keep_request(r) :
-                  #if not(mpi.test(r)) :  return True
-                  #if r.message !=None : self.treate(*r.message)
-                  #node_running[r.status.source] = False
-                  T = r.test()
-                  if T is None :  return True
-                  value = T[0]
-                  if value !=None : self.treate(*value)
-                  node_running[T[1].source] = False
+                  # r is the node from which a result is expected
+                  if not mpi.world.iprobe(source = r) : return True
+                  self.treate(*mpi.recv(r))
+                  node_running[r] = False
                   return False
               RequestList = list(filter(keep_request,RequestList))
               # send new calculation to the nodes or "stop" them
@@ -77,14 +73,14 @@ class DistributionOnNodes:
                   if not(self.finished()) :
                       mpi.send(next(self),node) # send the data for the computation
                       node_running[node] = True
-                      RequestList.append(mpi.irecv(node)) #Post the receive
+                      RequestList.append(node) # a result is to be received
                   else :
                       node_stopped[node] = True
 
               # Look if the child process on the master has self.finished.
-              if not(pid) or os.waitpid(pid,os.WNOHANG) :
+              if not(pid) or os.waitpid(pid,os.WNOHANG)[0] :
                   if pid :
-                      RR = pickle.load(open("res_master",'r'))
+                      with open("res_master",'rb') as f : RR = pickle.load(f)
                       if RR != None : self.treate(*RR)
                   if not(self.finished()) :
                       pid=os.fork();
@@ -94,7 +90,7 @@ class DistributionOnNodes:
                               res = self.the_function(currently_calculated_by_master)
                           else:
                               res = None
-                          pickle.dump((res,mpi.rank),open('res_master','w'))
+                          with open('res_master','wb') as f : pickle.dump((res,mpi.rank),f)
                           os._exit(0) # Cf python doc. Used for child only.
                   else : pid=0
               if (pid): time.sleep(self.SleepTime) # so that most of the time is for the actual calculation on the master
-- 
2.43.0


From e7c5bddfa32b6427971c55b44faea09321245369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 071/151] fix: distribution on nodes without anything to
 compute blocked the other nodes

---
 python/triqs/utility/dist_on_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/dist_on_nodes.py b/python/triqs/utility/dist_on_nodes.py
index 468cb6a..f5fd390 100644
--- a/python/triqs/utility/dist_on_nodes.py
+++ b/python/triqs/utility/dist_on_nodes.py
@@ -57,7 +57,7 @@ class DistributionOnNodes:
         node_running,node_stopped= mpi.size*[False],mpi.size*[False]
 
         if mpi.rank==0 :
-          while not(self.finished()) or pid or [n for n in node_running if n] != [] :
+          while not(self.finished()) or pid or not all(node_stopped[1:]) :
               # Treat the request which have self.finished
               def keep_request(r) :
                   # r is the node from which a result is expected
-- 
2.43.0


From b1c411e5193727dc0be3cd9efead839c1963b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 072/151] fix: distribution on nodes did not compute a point of
 value 0 on the master, and failed for arrays

---
 python/triqs/utility/dist_on_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/utility/dist_on_nodes.py b/python/triqs/utility/dist_on_nodes.py
index f5fd390..6abfbbf 100644
--- a/python/triqs/utility/dist_on_nodes.py
+++ b/python/triqs/utility/dist_on_nodes.py
@@ -48,7 +48,7 @@ class DistributionOnNodes:
         if mpi.size==1 : # single machine. Avoid the fork
             while not(self.finished()):
                 n = next(self)
-                if n!=None : 
+                if n is not None : 
                     self.treate(self.the_function(n),0)
             return
 
@@ -81,12 +81,12 @@ class DistributionOnNodes:
               if not(pid) or os.waitpid(pid,os.WNOHANG)[0] :
                   if pid :
                       with open("res_master",'rb') as f : RR = pickle.load(f)
-                      if RR != None : self.treate(*RR)
+                      self.treate(*RR)
                   if not(self.finished()) :
                       pid=os.fork();
                       currently_calculated_by_master = next(self)
                       if pid==0 :  # we are on the child
-                          if currently_calculated_by_master :
+                          if currently_calculated_by_master is not None :
                               res = self.the_function(currently_calculated_by_master)
                           else:
                               res = None
@@ -98,7 +98,7 @@ class DistributionOnNodes:
         else : # not master
             while not(mpi.recv(0)) :  # master will first send a finished flag
                 omega = mpi.recv(0)
-                if omega ==None :
+                if omega is None :
                     res = None
                 else :
                     res = self.the_function(omega)
-- 
2.43.0


From a7f300b8a14478ed993abcadefeb7a8f6c3792d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 073/151] fix: distribution on nodes passed on results that are
 None

---
 python/triqs/utility/dist_on_nodes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/triqs/utility/dist_on_nodes.py b/python/triqs/utility/dist_on_nodes.py
index 6abfbbf..633a1b7 100644
--- a/python/triqs/utility/dist_on_nodes.py
+++ b/python/triqs/utility/dist_on_nodes.py
@@ -49,7 +49,8 @@ class DistributionOnNodes:
             while not(self.finished()):
                 n = next(self)
                 if n is not None : 
-                    self.treate(self.the_function(n),0)
+                    res = self.the_function(n)
+                    if res is not None : self.treate(res,0)
             return
 
         # Code for multiprocessor machines
@@ -62,7 +63,8 @@ class DistributionOnNodes:
               def keep_request(r) :
                   # r is the node from which a result is expected
                   if not mpi.world.iprobe(source = r) : return True
-                  self.treate(*mpi.recv(r))
+                  res,node = mpi.recv(r)
+                  if res is not None : self.treate(res,node)
                   node_running[r] = False
                   return False
               RequestList = list(filter(keep_request,RequestList))
@@ -80,8 +82,8 @@ class DistributionOnNodes:
               # Look if the child process on the master has self.finished.
               if not(pid) or os.waitpid(pid,os.WNOHANG)[0] :
                   if pid :
-                      with open("res_master",'rb') as f : RR = pickle.load(f)
-                      self.treate(*RR)
+                      with open("res_master",'rb') as f : res,node = pickle.load(f)
+                      if res is not None : self.treate(res,node)
                   if not(self.finished()) :
                       pid=os.fork();
                       currently_calculated_by_master = next(self)
-- 
2.43.0


From 2cb29985a43df5012ce217d6abef636d7e39ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 074/151] fix: clebsch_gordan had the wrong sign for most
 angular momenta

---
 python/triqs/operators/util/U_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index 1c2f617..2933fa2 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -624,7 +624,7 @@ def clebsch_gordan(jm1, jm2, jm3):
               Clebsh-Gordan coefficient.
 
     """
-    norm = sqrt(2*jm3[0]+1)*(-1 if jm1[0]-jm2[0]+jm3[1] % 2 else 1)
+    norm = sqrt(2*jm3[0]+1)*(-1 if (jm1[0]-jm2[0]+jm3[1]) % 2 else 1)
     return norm*three_j_symbol(jm1,jm2,(jm3[0],-jm3[1]))
 
 def subarray(a,idxlist,n=None) :
-- 
2.43.0


From 3ea35a550773e65cf99741dbaa59cbf32fbbe702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 075/151] fix: terms written to H_dump had other indices, sign
 or phase than those of the Hamiltonian

---
 python/triqs/operators/util/hamiltonians.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index d273a39..676509c 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -91,9 +91,9 @@ def h_int_slater(spin_names,n_orb,U_matrix,off_diag=None,map_operator_structure=
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write('%s'%(mkind(s2,a3),) + '\t')
-                H_dump_file.write('%s'%(mkind(s1,a4),) + '\t')
-                H_dump_file.write(str(U_val.real) + '\n')
+                H_dump_file.write('%s'%(mkind(s2,a4),) + '\t')
+                H_dump_file.write('%s'%(mkind(s1,a3),) + '\t')
+                H_dump_file.write(str(U_val if complex else U_val.real) + '\n')
 
     return H
 
@@ -194,7 +194,7 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write(str(-J_hund) + '\n')
+                H_dump_file.write(str(J_hund) + '\n')
 
     return H
 
-- 
2.43.0


From 93ab9c8a5db7b7cf9add4f2ceb519c0803097cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 076/151] fix: diagonal of the same-spin matrix entered
 density-density interactions as single-particle energies

---
 python/triqs/operators/util/hamiltonians.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index 676509c..138680a 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -148,6 +148,8 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
     if H_dump: H_dump_file.write("Density-density terms:" + '\n')
     for s1, s2 in product(spin_names,spin_names):
         for a1, a2 in product(range(n_orb), range(n_orb)):
+            if (s1==s2) and (a1==a2):
+                continue
             if (s1==s2):
                 U_val = U[a1,a2]
             else:
@@ -243,6 +245,8 @@ def h_int_density(spin_names,n_orb,U,Uprime,off_diag=None,map_operator_structure
     if H_dump: H_dump_file.write("Density-density terms:" + '\n')
     for s1, s2 in product(spin_names,spin_names):
         for a1, a2 in product(range(n_orb),range(n_orb)):
+            if (s1==s2) and (a1==a2):
+                continue
             if (s1==s2):
                 U_val = U[a1,a2]
             else:
-- 
2.43.0


From d5643629dbdd8f3191e395a96ad4729c42dbc130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 077/151] fix: superlattice without internal hoppings could not
 be built

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 1b36e90..4bfbb94 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -134,7 +134,7 @@ class TBSuperLattice(TBLattice):
             for disp, t in list(D1.items()):
                 R, alpha = self.change_coordinates_L_to_SL(numpy.array(CS)+numpy.array(disp))
                 if R not in Res: Res[R] = create_zero() if create_zero else numpy.zeros((self.Norb, self.Norb), dtype = type(t[0,0]))
-                if not(remove_internal) or R!= self.tb_lattice.ndim*(0, ):
+                if not(remove_internal) or R!= self.__BaseLattice.ndim*(0, ):
                     for orb1 in range(norb):
                         for orb2 in range(norb):
                             Res[R][pack(nsite, orb1), pack(alpha, orb2)] += t[orb1, orb2]
-- 
2.43.0


From 5229183b63862db199413fbbec284b791b03094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 078/151] fix: sites of a cluster were missed for superlattice
 vectors with negative components

---
 python/triqs/lattice/super_lattice.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 4bfbb94..35c3173 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -73,9 +73,10 @@ class TBSuperLattice(TBLattice):
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
             # the points inside it and store it.
-            if ndim==1:  a=(max(self._M[0,:]), 0, 0 )
-            elif ndim==2:  a=(2*max(self._M[0,:]), 2*max(self._M[1,:]), 0 )
-            elif ndim==3: a= (3*max(self._M[0,:]), 3*max(self._M[1,:]), 3*max(self._M[2,:]))
+            m = numpy.amax(abs(self._M), axis=1)
+            if ndim==1:  a=(m[0], 0, 0 )
+            elif ndim==2:  a=(2*m[0], 2*m[1], 0 )
+            elif ndim==3: a= (3*m[0], 3*m[1], 3*m[2])
             else: raise ValueError("ndim is not between 1 and 3 !!")
             r = lambda i:  list(range(-a[i] , a[i]+1))
             for nx in r(0):
-- 
2.43.0


From 81953b4f8da4a552e6eeaa33cb33a428c9ea30b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 079/151] fix: superlattice change_coordinates_SL_to_L always
 failed

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 35c3173..ea4c81a 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -143,7 +143,7 @@ class TBSuperLattice(TBLattice):
 
     def change_coordinates_SL_to_L(self, R , alpha):
         """Given a point in the supercell R, site (number) alpha, it computes its position on the tb_lattice in lattice coordinates"""
-        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha,:]
+        return numpy.dot (self._M, numpy.array(R)) + numpy.array(self.__cluster_sites[alpha])
 
     def change_coordinates_L_to_SL(self, x):
         """Given a point on the tb_lattice in lattice coordinates, returns its coordinates (R, alpha) in the Superlattice"""
-- 
2.43.0


From b78282a279c0dd32d5fb92a56f5efa7ea18be7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 080/151] fix: superlattice refused cluster sites given as
 tuples or arrays, or out of its unit cell

---
 python/triqs/lattice/super_lattice.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index ea4c81a..dd3a023 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -65,10 +65,11 @@ class TBSuperLattice(TBLattice):
 
         self.__remove_internal_hoppings = remove_internal_hoppings
         self.Norb = tb_lattice.n_orbitals * Ncluster_sites
+        self.Ncluster_sites = Ncluster_sites
 
         # cluster_sites computation
-        if cluster_sites!=None:
-            self.__cluster_sites = list(cluster_sites)[:]
+        if cluster_sites is not None:
+            self.__cluster_sites = [numpy.array(CS).tolist() for CS in cluster_sites]
         else: # Computes the position of the cluster automatically
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
@@ -88,7 +89,6 @@ class TBSuperLattice(TBLattice):
                             self.__cluster_sites.append(nv.tolist())
 
         assert len(self.__cluster_sites) == Ncluster_sites, """Number of cluster positions incorrect (compared to the volume of unit cell of the Superlattice)"""
-        self.Ncluster_sites = Ncluster_sites
 
         # Compute the new hoppings in the supercell
         hoppings = self.fold(tb_lattice.hoppings, remove_internal_hoppings)
@@ -147,10 +147,12 @@ class TBSuperLattice(TBLattice):
 
     def change_coordinates_L_to_SL(self, x):
         """Given a point on the tb_lattice in lattice coordinates, returns its coordinates (R, alpha) in the Superlattice"""
-        aux  = numpy.dot(self._Mtilde, numpy.array(x))
-        R = aux // self.Ncluster_sites
-        dx = list (x - numpy.dot (self._M, R) ) # force int ?
-        return tuple(R), self.__cluster_sites.index(dx)
+        for alpha, CS in enumerate(self.__cluster_sites):
+            # x is the site alpha of a supercell if it differs from it by a vector of the superlattice
+            aux = numpy.dot(self._Mtilde, numpy.array(x) - numpy.array(CS))
+            if not numpy.any(aux % self.Ncluster_sites):
+                return tuple((aux // self.Ncluster_sites).tolist()), alpha
+        raise ValueError("The point %s does not belong to any site of the cluster"%(x,))
 
     def pack_index_site_orbital(self, n_site, n_orbital):
         """ nsite and n_orbital must start at 0"""
-- 
2.43.0


From 1eff4f2ffcc265f88d231308702651963bc99a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 081/151] fix: fold on a superlattice truncated values to the
 type of the first ones

---
 python/triqs/lattice/super_lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index dd3a023..e7f784d 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -131,10 +131,11 @@ class TBSuperLattice(TBLattice):
         #Res , norb = {} , self.__BaseLattice.n_orbitals
         Res , norb = {} , len(list(D1.values())[0])
         pack = self.pack_index_site_orbital
+        dtype = numpy.result_type(*[type(t[0,0]) for t in D1.values()])
         for nsite, CS in enumerate(self.__cluster_sites):
             for disp, t in list(D1.items()):
                 R, alpha = self.change_coordinates_L_to_SL(numpy.array(CS)+numpy.array(disp))
-                if R not in Res: Res[R] = create_zero() if create_zero else numpy.zeros((self.Norb, self.Norb), dtype = type(t[0,0]))
+                if R not in Res: Res[R] = create_zero() if create_zero else numpy.zeros((self.Norb, self.Norb), dtype = dtype)
                 if not(remove_internal) or R!= self.__BaseLattice.ndim*(0, ):
                     for orb1 in range(norb):
                         for orb2 in range(norb):
-- 
2.43.0


From 6ea7f6452146beaefb44100b895e6351f4565b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 082/151] fix: superlattices could not be pickled

---
 python/triqs/lattice/super_lattice.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index e7f784d..5121c08 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -117,10 +117,8 @@ class TBSuperLattice(TBLattice):
         assert self.Norb == self.n_orbitals
 
 
-    __HDF_reduction__ = ['__BaseLattice', '__super_lattice_units', '__cluster_sites', '__remove_internal_hoppings']
-
     def __reduce__ (self):
-        return tuple([getattr(self, x) for x in self.__HDF_reduction__])
+        return self.__class__, (self.__BaseLattice, self.__super_lattice_units, self.__cluster_sites, self.__remove_internal_hoppings)
 
     def fold(self, D1, remove_internal=False, create_zero = None):
         """ Input: a function  r-> f(r) on the tb_lattice given as a dictionnary
-- 
2.43.0


From e060e03ad27b4240a2357902912ddcb6c9c7d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 083/151] fix: hoppings read from Wannier90 had the two
 orbitals exchanged

---
 python/triqs/lattice/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/lattice/utils.py b/python/triqs/lattice/utils.py
index e040ef7..b41a12b 100644
--- a/python/triqs/lattice/utils.py
+++ b/python/triqs/lattice/utils.py
@@ -112,7 +112,8 @@ def parse_hopping_from_wannier90_hr_dat(filename):
     dat = np.loadtxt(StringIO(dat))
     dat = dat.reshape(nrpts, num_wann, num_wann, 7)
     R = dat[:, 0, 0, 0:3].astype(int)
-    hopp = dat[..., 5] + 1.j * dat[..., 6]
+    # the first of the two orbital indices of the file runs fastest
+    hopp = np.swapaxes(dat[..., 5] + 1.j * dat[..., 6], 1, 2).copy()
 
     # Account for degeneracy of the Wigner-Seitz points
     hopp /= deg[:, None, None]
-- 
2.43.0


From ed4396be8423a7572ae720cf342317b7ec571aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 084/151] fix: DOS.density below the band and on energies which
 are not equally spaced

---
 python/triqs/dos/dos.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/triqs/dos/dos.py b/python/triqs/dos/dos.py
index 3570c17..c0dc6d0 100644
--- a/python/triqs/dos/dos.py
+++ b/python/triqs/dos/dos.py
@@ -90,18 +90,16 @@ name : string
     def density(self,mu=0):
         """Calculates the density of free fermions for the given DOS for chemical potential mu."""
 
-        dens = 0.0
         a = [ (e>mu) for e in self.eps ]
         try:
             ind = a.index(True)
         except:
             ind = self.eps.shape[0]
 
-        de = self.eps[1]-self.eps[0]
-        #for e,r in itertools.izip(self.eps[0:ind],self.rho[0:ind]):
-        #    dens += r
-        dens = (sum(self.rho[0:ind]) - self.rho[0]/2.0 - self.rho[ind-1]/2.0) * de
-        #dens2 = dens + (self.rho[ind-1]/2.0 + self.rho[ind]/2.0) * de
+        if ind == 0: return 0.0 # mu is below the band
+
+        # trapezoidal rule, the energies do not need to be equally spaced
+        dens = sum((self.rho[1:ind] + self.rho[0:ind-1])/2.0 * (self.eps[1:ind] - self.eps[0:ind-1]))
         if (ind<self.eps.shape[0]): dens += (mu-self.eps[ind-1]) * (self.rho[ind-1] + self.rho[ind])/2.0
         return dens 
 
-- 
2.43.0


From 52aac9fd28e47822216a2427cb6bef810b492c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 085/151] fix: DOSFromFunction evaluated the function outside
 of its domain

---
 python/triqs/dos/dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/dos/dos.py b/python/triqs/dos/dos.py
index c0dc6d0..6c0bf8b 100644
--- a/python/triqs/dos/dos.py
+++ b/python/triqs/dos/dos.py
@@ -160,7 +160,7 @@ class DOSFromFunction(DOS):
         assert callable(function), "function is not callable"
         self.function,self.x_min,self.x_max = function,x_min,x_max
         try :
-            e = function(0.001)
+            e = function(x_min)
             len(numpy.array(e).shape) ==1
         except :
             raise RuntimeError("Value of the function must be a 1d-array")
-- 
2.43.0


From 22f36d2ab6899a0789a9d967141daacff73a8d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 086/151] fix: HilbertTransform could not be pickled

---
 python/triqs/dos/hilbert_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 0ea741d..357db79 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -46,7 +46,7 @@ class HilbertTransform:
     #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__, (self.rho)
+        return self.__class__, (self.dos,)
 
     #-------------------------------------------------------------
 
-- 
2.43.0


From a3cbffe9ed81a95f1c0896c47d987aa715ab04be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 087/151] fix: self-energies given as functions used
 inspect.getargspec, which Python no longer has

---
 python/triqs/dos/hilbert_transform.py | 2 +-
 python/triqs/sumk/sumk_discrete.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 357db79..75f0770 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -101,7 +101,7 @@ class HilbertTransform:
         # case 2) Sigma is a function returning a Gf
         else:
             assert callable(Sigma), "If Sigma is not a Gf it must be a function"
-            assert len(inspect.getargspec(Sigma)[0]) == 1, "Sigma must be a function of a single variable"
+            assert len(inspect.signature(Sigma).parameters) == 1, "Sigma must be a function of a single variable"
             model = Sigma(self.dos.eps[0])
             Sigma_fnt = True
 
diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index 62465f5..adc59a1 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -115,7 +115,7 @@ class SumkDiscrete:
         # case 2) Sigma is a function returning a BlockGf
         else:
             assert callable(Sigma), "If Sigma is not a BlockGf it must be a function"
-            Sigma_Nargs = len(inspect.getargspec(Sigma)[0])
+            Sigma_Nargs = len(inspect.signature(Sigma).parameters)
             assert Sigma_Nargs <= 2, "Sigma must be a function of k or of k and epsilon"
             if Sigma_Nargs == 1:
                 model = Sigma(self.bz_points[0])
-- 
2.43.0


From 95b773f7036fe0a8b51373b5a366f5ea2d7dc5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 088/151] fix: a field given as an array was refused by the
 Hilbert transform and the sum over k

---
 python/triqs/dos/hilbert_transform.py | 4 ++--
 python/triqs/sumk/sumk_discrete.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 75f0770..7550b31 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -117,7 +117,7 @@ class HilbertTransform:
 
         if not(isinstance(self.dos, DOSFromFunction)):
             assert n_points_integral==None and test_convergence == None, " Those parameters can only be used with an dos_from_function"
-        if field !=None:
+        if field is not None:
             try:
                 result += field
             except:
@@ -138,7 +138,7 @@ class HilbertTransform:
             tmp << iOmega_n + mu + eta * 1j
             if not(Sigma_fnt):
                 tmp -= Sigma
-            if field != None: tmp -= field
+            if field is not None: tmp -= field
 
             # I slice all the arrays on the node. Cf reduce operation below.
             for d, e_h, e in zip(*[mpi.slice_array(A) for A in [self.rho_for_sum, eps_hat, self.dos.eps]]):
diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index adc59a1..a7ee378 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -142,7 +142,7 @@ class SumkDiscrete:
         tmp,tmp2 = G.copy(),G.copy()
         mupat = mu * numpy.identity(no, numpy.complex_)
         tmp << iOmega_n
-        if field != None: tmp -= field
+        if field is not None: tmp -= field
         if not Sigma_fnt: tmp -= Sigma  # substract Sigma once for all
 
         # Loop on k points...
-- 
2.43.0


From 7836d3e6458833f7cdb929af62c5b4ddbe24a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 089/151] fix: refinement of a DOSFromFunction in the Hilbert
 transform called functions which do not exist

---
 python/triqs/dos/hilbert_transform.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 7550b31..1afc5fd 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -41,6 +41,7 @@ class HilbertTransform:
         """
         self.dos  = rho
         assert isinstance(rho, DOS),  "See Doc. rho must be a DOS"
+        self.n_points = len(rho.eps)
         self.__normalize()
 
     #-------------------------------------------------------------
@@ -166,23 +167,24 @@ class HilbertTransform:
         if isinstance (self.dos, DOSFromFunction):
 
             if not(n_points_integral): # if not defined, use the defaults given at construction of the dos
-                n_points_integral=  len(self.dos.eps)
-            else:
-                self.dos._DOS__f(n_points_integral)
-                self.__normalize()
+                n_points_integral = self.n_points
+
+            # the dos may have been refined since the last call
+            self.dos._DOSFromFunction__f(n_points_integral)
+            self.__normalize()
 
             HT(result)
 
-            nloop, test = 1, 0
-            while test_convergence and nloop < 10 and (nloop == 1 or test > test_convergence):
-                if nloop>1:
-                    self.dos._DOS__f(n_points_integral)
-                    self.__normalize()
+            nloop, converged = 1, False
+            while test_convergence and nloop < 10 and not converged:
+                n_points_integral *= 2
+                self.dos._DOSFromFunction__f(n_points_integral)
+                self.__normalize()
 
                 result_old = result.copy()
-                result = DOS.HilbertTransform(self, Sigma, mu, eta, epsilon_hat, result)
-                test = test_distance(result, result_old, test_convergence)
-                n_points_integral *=2
+                HT(result)
+                converged = test_distance(result, result_old, test_convergence)
+                nloop += 1
 
         else:  # Ordinary DOS
             HT(result)
-- 
2.43.0


From 58036447a03f18cfedf1652fe8fcc75f26f0091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 090/151] fix: k grids shifted by Q called a function which
 does not exist

---
 .../triqs/sumk/sumk_discrete_from_lattice.py  | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 3741593..b2300de 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -111,14 +111,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
             raise IndexError("Summation method unknown")
 
         # A shift
-        if Q:
-            try:
-                Q = np.array(Q)
-                assert len(Q.shape) ==1
-            except:
-                raise RuntimeError("Q is not of correct type")
-            for k_index in range(self.N_kpts()):
-                self.bz_points[k_index,:] +=Q
+        self.__shift(Q)
 
         # Compute the discretized hoppings from the Superlattice
         self.hopping[:,:,:] = self.SL.fourier(self.bz_points)
@@ -129,12 +122,27 @@ class SumkDiscreteFromLattice (SumkDiscrete):
             assert 0 , "not checked"
             self.overlap[:,:,:] = self.SL.Overlap(bz_points.transpose().copy())
             mupat = np.identity(self.SL.n_orbitals)
-            for k_index in range(self.N_kpts()):
+            for k_index in range(self.n_kpts()):
                 self.mu_pattern[:,:,k_index] = np.dot( mupat ,self.Overlap[:,:,k_index])
 
     #-------------------------------------------------------------
 
 
+    def __shift(self, Q):
+        """
+        Internal
+        """
+        if Q is None: return
+        try:
+            Q = np.array(Q)
+            assert len(Q.shape) ==1
+        except:
+            raise RuntimeError("Q is not of correct type")
+        for k_index in range(self.n_kpts()):
+            self.bz_points[k_index,:] +=Q
+
+    #-------------------------------------------------------------
+
     def __Compute_Grid_One_patch(self, patch, n_bz, method = "Riemann", Q=None):
         """
         Internal
@@ -168,6 +176,9 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         # Normalize weights so that they sum up to 1
         self.bz_weights /= total_weight
 
+        # A shift
+        self.__shift(Q)
+
         # Compute the discretized hoppings from the Superlattice
         self.hopping[:,:,:] = self.SL.fourier(self.bz_points)
 
-- 
2.43.0


From 009c8104618f87e9fbb04daa640969af7852cf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 091/151] fix: sums over a patch of the Brillouin zone failed

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index b2300de..9cc2b0e 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -149,7 +149,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         """
 
         tritemp = np.array(patch._triangles)
-        ntri = len(tritemp)/3
+        ntri = len(tritemp)//3
         nk = n_bz*n_bz*ntri
         self.resize_arrays(nk)
 
@@ -183,6 +183,6 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         self.hopping[:,:,:] = self.SL.fourier(self.bz_points)
 
         if self.orthogonal_basis:
-            self.mu_pattern[:,:] =  self.SL.MuPattern[:,:]
+            self.mu_pattern[:,:] = np.identity(self.SL.n_orbitals)
         else:
             assert 0 , "not checked"
-- 
2.43.0


From 387a51d5c430cf1c7df457b60f362422669ea994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 092/151] fix: a pickled k sum came back with the total number
 of k points in each direction

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 9cc2b0e..f55fb30 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -53,7 +53,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
      #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__,  (self.SL, self.patch, self.bz_weights.shape[0],self.method)
+        return self.__class__,  (self.SL, self.patch, self.n_points, self.method)
 
      #-------------------------------------------------------------
 
@@ -66,7 +66,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
               computes t(k+Q) instead of t(k) (useful for bare chi_0)
         """
         assert method in ["Riemann","Gauss"], "method %s is not recognized"%method
-        self.method = method
+        self.n_points, self.method = n_points, method
         self.resize_arrays(n_points)
         if self.patch:
             self.__Compute_Grid_One_patch(self.patch, n_points , method, Q)
-- 
2.43.0


From 32967e62bb79dbc89b700bda9d585ec6c7de4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 093/151] fix: names of numpy types which numpy 2 no longer has

---
 python/triqs/gf/descriptor_base.py |  2 +-
 python/triqs/gf/descriptors.py     |  4 ++--
 python/triqs/sumk/sumk_discrete.py | 10 +++++-----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index f194e9a..8999b45 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -45,7 +45,7 @@ def is_lazy(y):
     return  isinstance(y,(Omega_, LazyExpr, LazyExprTerminal))
 
 def is_scalar(x): 
-    return type(x) in [ type(1), type(1.0), type(1j), numpy.ndarray, int, numpy.int_, numpy.int8, numpy.int16, numpy.int32, float, numpy.float_, numpy.float32, numpy.float64, complex, numpy.complex_, numpy.complex64, numpy.complex128 ]
+    return type(x) in [ type(1), type(1.0), type(1j), numpy.ndarray, int, numpy.int_, numpy.int8, numpy.int16, numpy.int32, float, numpy.float64, numpy.float32, numpy.float64, complex, numpy.complex128, numpy.complex64, numpy.complex128 ]
 
 def convert_scalar_to_const(expr): 
 
diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 61d5fc0..bf393ab 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -86,7 +86,7 @@ semicircle
     def __call__(self,G):
         D = self.half_bandwidth
         mu = self.chem_potential
-        Id = complex(1,0) if len(G.target_shape) == 0 else numpy.identity(G.target_shape[0],numpy.complex_)
+        Id = complex(1,0) if len(G.target_shape) == 0 else numpy.identity(G.target_shape[0],numpy.complex128)
         from cmath import sqrt
         if type(G.mesh) in [MeshImFreq, MeshDLRImFreq]:
             def f(om_):
@@ -128,7 +128,7 @@ class Flat (Base):
     def __call__(self,G):
 
         D = self.half_bandwidth
-        Id = 1. if len(G.target_shape) == 0 else numpy.identity(G.target_shape[0], numpy.complex_)
+        Id = 1. if len(G.target_shape) == 0 else numpy.identity(G.target_shape[0], numpy.complex128)
 
         if type(G.mesh) in [MeshImFreq, MeshDLRImFreq]:
             f = lambda om: (-1/(2.0*D)) * numpy.log(numpy.divide(om-D,om+D)) * Id
diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index a7ee378..67fc869 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -53,10 +53,10 @@ class SumkDiscrete:
         """
         # constructs the arrays.
         no = len(self.__GFBLOC_Structure)
-        self.hopping    = numpy.zeros([nk,no,no],numpy.complex_)   # t(k_index,a,b)
-        self.bz_points  = numpy.zeros([nk,self.dim],numpy.float_)      # k(k_index,:)
-        self.bz_weights = numpy.ones([nk],numpy.float_)/ float(nk) # w(k_kindex) ,  default normalisation
-        self.mu_pattern  =  numpy.identity(no,numpy.complex_) if self.orthogonal_basis else numpy.zeros([no,no,nk],numpy.complex_)
+        self.hopping    = numpy.zeros([nk,no,no],numpy.complex128)   # t(k_index,a,b)
+        self.bz_points  = numpy.zeros([nk,self.dim],numpy.float64)      # k(k_index,:)
+        self.bz_weights = numpy.ones([nk],numpy.float64)/ float(nk) # w(k_kindex) ,  default normalisation
+        self.mu_pattern  =  numpy.identity(no,numpy.complex128) if self.orthogonal_basis else numpy.zeros([no,no,nk],numpy.complex128)
         self.overlap = numpy.array(self.mu_pattern, copy=True)
 
    #-------------------------------------------------------------
@@ -140,7 +140,7 @@ class SumkDiscrete:
         # Initialize
         G.zero()
         tmp,tmp2 = G.copy(),G.copy()
-        mupat = mu * numpy.identity(no, numpy.complex_)
+        mupat = mu * numpy.identity(no, numpy.complex128)
         tmp << iOmega_n
         if field is not None: tmp -= field
         if not Sigma_fnt: tmp -= Sigma  # substract Sigma once for all
-- 
2.43.0


From 09514c833ea483b30b971caddfeebe7efc8474c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 094/151] fix: Gf.copy_from changed the mesh of other
 functions, of refused copies, and not that of the call operator

---
 python/triqs/gf/gf.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index b7c1a99..ca01aa7 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -163,18 +163,22 @@ class Gf(metaclass=AddMethod):
             # to be constructed without any INTERNAL exceptions.
             # Set up the C proxy for call operator for speed. The name has to
             # agree with the wrapped_aux module, it is of only internal use
-            s = '_x_'.join( m.__class__.__name__[4:] for m in self.mesh._mlist) if isinstance(mesh, MeshProduct) else self._mesh.__class__.__name__[4:]
-            proxyname = 'CallProxy%s_%s%s'%(s, self.target_rank,'_R' if data.dtype == np.float64 else '') 
-            try:
-                self._c_proxy = all_call_proxies.get(proxyname, CallProxyNone)(self)
-            except:
-                self._c_proxy = None
+            self.__make_c_proxy()
 
             # check all invariants. Debug.
             self.__check_invariants()
 
         delegate(self, **kw)
 
+    def __make_c_proxy(self):
+        """The C++ view used by the call operator"""
+        s = '_x_'.join( m.__class__.__name__[4:] for m in self.mesh._mlist) if isinstance(self._mesh, MeshProduct) else self._mesh.__class__.__name__[4:]
+        proxyname = 'CallProxy%s_%s%s'%(s, self.target_rank,'_R' if self._data.dtype == np.float64 else '')
+        try:
+            self._c_proxy = all_call_proxies.get(proxyname, CallProxyNone)(self)
+        except:
+            self._c_proxy = None
+
     def __check_invariants(self):
         """Check various invariant. Mainly for debug"""
         # rank
@@ -261,9 +265,12 @@ class Gf(metaclass=AddMethod):
 
     def copy_from(self, another):
         """Copy the data of another Greens function into self."""
-        self._mesh.copy_from(another.mesh)
         assert self._data.shape == another._data.shape, "Shapes are incompatible: " + str(self._data.shape) + " vs " + str(another._data.shape)
         self._data[:] = another._data[:]
+        if not self._mesh == another._mesh:
+            # The mesh may be shared with other Green functions: do not modify it in place
+            self._mesh = another._mesh.copy()
+            self.__make_c_proxy()
         self.__check_invariants()
 
     def __repr__(self):
-- 
2.43.0


From 38189285636dc1547d73d79a122411d8e8aac84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 095/151] fix: in-place operations of Gf with a lazy expression
 did not change the function

---
 python/triqs/gf/gf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index ca01aa7..4405d3a 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -431,7 +431,7 @@ class Gf(metaclass=AddMethod):
     # ---------- Addition   
 
     def __iadd__(self,arg):
-        if descriptor_base.is_lazy(arg): return lazy_expressions.make_lazy(self) + arg
+        if descriptor_base.is_lazy(arg): return self << lazy_expressions.make_lazy(self) + arg
         if isinstance(arg, Gf):
             assert type(self.mesh) == type(arg.mesh), "Can not add two Gf with meshes of different type"
             assert self.mesh == arg.mesh, "Can not add two Gf with different mesh"
@@ -447,6 +447,7 @@ class Gf(metaclass=AddMethod):
 
     def __add__(self,y):
         c = self.copy()
+        if descriptor_base.is_lazy(y): return lazy_expressions.make_lazy(c) + y
         c += y
         return c
 
@@ -455,7 +456,7 @@ class Gf(metaclass=AddMethod):
     # ---------- Substraction
 
     def __isub__(self,arg):
-       if descriptor_base.is_lazy(arg): return lazy_expressions.make_lazy(self) - arg
+       if descriptor_base.is_lazy(arg): return self << lazy_expressions.make_lazy(self) - arg
        if isinstance(arg, Gf):
            assert type(self.mesh) == type(arg.mesh), "Can not subtract two Gf with meshes of different type"
            assert self.mesh == arg.mesh, "Can not subtract two Gf with different mesh"
@@ -471,6 +472,7 @@ class Gf(metaclass=AddMethod):
 
     def __sub__(self,y):
         c = self.copy()
+        if descriptor_base.is_lazy(y): return lazy_expressions.make_lazy(c) - y
         c -= y
         return c
 
@@ -482,7 +484,7 @@ class Gf(metaclass=AddMethod):
     # ---------- Matrix Multiplication (@)
 
     def __imatmul__(self,arg):
-        if descriptor_base.is_lazy(arg): return lazy_expressions.make_lazy(self) * arg
+        if descriptor_base.is_lazy(arg): return self << lazy_expressions.make_lazy(self) * arg
         # If arg is a Gf
         if isinstance(arg, Gf):
             assert type(self.mesh) == type(arg.mesh), "Can not multiply two Gf with meshes of different type"
@@ -531,6 +533,7 @@ class Gf(metaclass=AddMethod):
             return meshes.MeshImTime(l.beta, 'Boson' if l.statistic == r.statistic else 'Fermion', len(l)) 
 
     def __matmul__(self,y):
+        if descriptor_base.is_lazy(y): return lazy_expressions.make_lazy(self.copy()) * y
         if isinstance(y, Gf):
             # make a copy, but special treatment of the mesh in the Imtime case.
             result_mesh = Gf._combine_mesh_mul(self._mesh, y.mesh)
-- 
2.43.0


From c6abdce229f7398e8e06944fa3eec1c20dfad722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 096/151] fix: in-place product of matrix valued Green
 functions was refused

---
 python/triqs/gf/gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 4405d3a..8b81643 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -492,8 +492,8 @@ class Gf(metaclass=AddMethod):
 
             if self.target_rank == 2:
                 if arg.target_rank == 2:
-                    assert arg.target_shape[0] != arg.target_shape[1], "In place multiplication not supported if"
-                    "the argument is a nonsquare matrix. Use regular multiplication instead."
+                    assert arg.target_shape[0] == arg.target_shape[1], ("In place multiplication not supported if "
+                        "the argument is a nonsquare matrix. Use regular multiplication instead.")
                     np.matmul(self.data, arg.data, out=self.data)
                 elif arg.target_rank == 0:
                     self.data[:] *= arg.data[..., None, None]
-- 
2.43.0


From 3f0175933f72b3aeabda918c4fca71f5abd34923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 097/151] fix: a numpy array times, plus or minus a lazy
 expression gave an array of expressions

---
 python/triqs/gf/lazy_expressions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index bb81536..a1a24a8 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -25,6 +25,8 @@ __all__ = ['LazyExpr', 'LazyExprTerminal', 'eval_expr_with_context', 'lazy_funct
 
 class __aux:
 
+    __array_priority__ = 10000 # Makes sure the operations of this class are applied as priority
+
     def __add__(self, y): return LazyExpr("+", LazyExpr(self), LazyExpr(y))
     def __sub__(self, y): return LazyExpr("-", LazyExpr(self), LazyExpr(y))
     def __mul__(self, y): return LazyExpr("*", LazyExpr(self), LazyExpr(y))
-- 
2.43.0


From f9d46d665be128c10ba47a9272a33eea73e1597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 098/151] fix: product of a Gf with a matrix of another shape
 was broadcast to the shape of the Gf

---
 python/triqs/gf/gf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 8b81643..39981f0 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -512,7 +512,8 @@ class Gf(metaclass=AddMethod):
         elif isinstance(arg, np.ndarray):
             assert len(arg.shape) == 2, "Multiplication only supported for matrices"
             assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
-            self.data[:] = np.tensordot(self.data, arg, axes=([-1], [-2]))
+            assert arg.shape == (self.target_shape[1],)*2, "Multiplication only supported for square matrices of the target dimension"
+            np.copyto(self.data, np.tensordot(self.data, arg, axes=([-1], [-2])), casting='same_kind')
         else:
             assert False, "Invalid operand type for Gf in-place multiplication"
         return self
@@ -565,7 +566,8 @@ class Gf(metaclass=AddMethod):
         if isinstance(y, np.ndarray):
             assert len(y.shape) == 2, "Multiplication only supported for matrices"
             assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
-            c.data[:] = np.moveaxis(np.tensordot(y, self.data, axes=([-1], [-2])), 0, -2)
+            assert y.shape == (self.target_shape[0],)*2, "Multiplication only supported for square matrices of the target dimension"
+            np.copyto(c.data, np.moveaxis(np.tensordot(y, self.data, axes=([-1], [-2])), 0, -2), casting='same_kind')
         elif isinstance(y, numbers.Number):
             c *= y
         else:
-- 
2.43.0


From 16fedd7eab8273860d2ea75d679e01004baab656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 099/151] fix: sums of two Gf of different target shapes were
 broadcast

---
 python/triqs/gf/gf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 39981f0..9383dd7 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -435,6 +435,7 @@ class Gf(metaclass=AddMethod):
         if isinstance(arg, Gf):
             assert type(self.mesh) == type(arg.mesh), "Can not add two Gf with meshes of different type"
             assert self.mesh == arg.mesh, "Can not add two Gf with different mesh"
+            assert self.target_shape == arg.target_shape, "Can not add two Gf with different target shape"
             self._data += arg._data 
         else:
             if self._target_rank != 2 and not isinstance(arg, np.ndarray):
@@ -460,6 +461,7 @@ class Gf(metaclass=AddMethod):
        if isinstance(arg, Gf):
            assert type(self.mesh) == type(arg.mesh), "Can not subtract two Gf with meshes of different type"
            assert self.mesh == arg.mesh, "Can not subtract two Gf with different mesh"
+           assert self.target_shape == arg.target_shape, "Can not subtract two Gf with different target shape"
            self._data -= arg._data 
        else:
             if self._target_rank != 2 and not isinstance(arg, np.ndarray):
-- 
2.43.0


From 2f74a4b47d57f3ef44ab7554d4d49a7d706cfbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 100/151] fix: SemiCircular filled the off-diagonal elements of
 real frequency functions

---
 python/triqs/gf/descriptors.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index bf393ab..d31ab2c 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -96,13 +96,12 @@ semicircle
             def f(om_):
               om = om_.real + mu
               if (om > -D) and (om < D):
-                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2))
+                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2)) * Id
               else:
-                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2))
+                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2)) * Id
         else:
             raise TypeError("This initializer is only correct in frequency")
 
-        Id = 1. if len(G.target_shape) == 0 else numpy.identity(G.target_shape[0])
         Function(f)(G)
 
         return G
-- 
2.43.0


From 073a8417bc6ffe1f3321c88fbd71281682ec134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 101/151] fix: printing a SemiCircular failed

---
 python/triqs/gf/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index d31ab2c..0a06446 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -81,7 +81,7 @@ semicircle
 """
         Base.__init__(self, half_bandwidth=half_bandwidth, chem_potential=chem_potential)
 
-    def __str__(self): return "SemiCircular(%s, %s)"%self.half_bandwidth, chem_potential 
+    def __str__(self): return "SemiCircular(%s, %s)"%(self.half_bandwidth, self.chem_potential)
 
     def __call__(self,G):
         D = self.half_bandwidth
-- 
2.43.0


From 79e8305d82fbe8542c71375ee48c29933f3fcd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 102/151] fix: OneFermionInTime used attributes which do not
 exist

---
 python/triqs/gf/descriptors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 0a06446..433acdc 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -22,7 +22,7 @@
 r""" """
 
 from .descriptor_base import *
-from .meshes import MeshImFreq, MeshDLRImFreq, MeshReFreq
+from .meshes import MeshImFreq, MeshDLRImFreq, MeshImTime, MeshReFreq
 import warnings
                 
 #######################################
@@ -33,12 +33,12 @@ class OneFermionInTime(Base):
          
     def __call__(self,G):
         L = self.L
-        if G.mesh.TypeGF not in [GF_Type.Imaginary_Time]: 
-            raise TypeError("This initializer is only correct in frequency")
+        if type(G.mesh) != MeshImTime:
+            raise TypeError("This initializer is only correct in imaginary time")
 
         Id = 1. if len(G.target_shape) == 0 else numpy.identity(G.target_shape[0])
 
-        fact = -1/(1+exp(-L*G.beta))
+        fact = -1/(1+exp(-L*G.mesh.beta))
         Function(lambda t: fact* exp(-L*t) *Id)(G)
         return G
 
-- 
2.43.0


From 1b1778b6b9f6a248ea09a15aa3a2230c1586e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 103/151] fix: a descriptor of a block function could only be
 used once

---
 python/triqs/gf/descriptor_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index 8999b45..1b47a59 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -72,13 +72,13 @@ class BaseBlock(Base):
     def __init__ (self, G, *args, **kw):
         Base.__init__(self, G = G)
         if self.is_block_descriptor():
-            self.descriptor_iter = (self.__class__(g, *args, **kw) for i,g in G)
+            self.descriptors = [self.__class__(g, *args, **kw) for i,g in G]
 
     def is_block_descriptor(self):
         return self.G.__class__.__name__ == 'BlockGf'
 
     def __iter__ (self):
-        return self.descriptor_iter
+        return iter(self.descriptors)
                 
 #########################################################################
 
-- 
2.43.0


From 975914146b683cde0e2ce02f9ced9aebeb240976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 104/151] fix: the evaluation of lazy expressions of Green
 functions failed

---
 python/triqs/gf/descriptor_base.py | 2 +-
 python/triqs/gf/gf.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index 1b47a59..8c4636d 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -35,7 +35,7 @@ class LazyCTX:
     def __eq__ (self, y):
         return isinstance(y, self.__class__) and self._is_compatible_for_ops(y.G)
     def __call__ (self, x): 
-        if not isinstance(x, descriptor_base.Base): return x
+        if not isinstance(x, Base): return x
         tmp = self.G.copy()
         x(tmp)
         return tmp
diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 9383dd7..879b358 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -384,7 +384,7 @@ class Gf(metaclass=AddMethod):
     # --------------  Lazy system -------------------------------------
 
     def __lazy_expr_eval_context__(self) : 
-        return LazyCTX(self)
+        return descriptor_base.LazyCTX(self)
 
     def __lshift__(self, A):
         """ A can be two things:
-- 
2.43.0


From bdb7d967de30b2230a59a0f44af3bc4aae890a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 105/151] fix: copy of a lazy expression kept the arguments as
 one tuple

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index a1a24a8..a29ac79 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -61,7 +61,7 @@ class LazyExpr (__aux):
 
     def copy(self):
         """ Deep copy"""
-        return LazyExpr(self.tag, self.childs)
+        return LazyExpr(self.tag, *[c.copy() if isinstance(c, LazyExpr) else c for c in self.childs])
 
     def set_from(self, y):
         """ self:= y """
-- 
2.43.0


From da9021217339553ae2de642afb023407ce3707af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 106/151] fix: in-place operations of descriptors such as
 iOmega_n failed

---
 python/triqs/gf/lazy_expressions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index a29ac79..01a3500 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -37,11 +37,6 @@ class __aux:
     def __rmul__(self, y): return LazyExpr("*", LazyExpr(y), LazyExpr(self))
     def __rtruediv__(self, y): return LazyExpr("/", LazyExpr(y), LazyExpr(self))
 
-    def __iadd__(self, y): return self.set_from(self+y)
-    def __isub__(self, y): return self.set_from(self-y)
-    def __imul__(self, y): return self.set_from(self*y)
-    def __itruediv__(self, y): return self.set_from(self/y)
-
     def __call__(self, *args): return LazyExpr("F", make_lazy(self), *list(map(make_lazy, args)))
 
 class LazyExprTerminal (__aux):
@@ -68,6 +63,11 @@ class LazyExpr (__aux):
         self.tag, self.childs = y.tag, y.childs
         return self
 
+    def __iadd__(self, y): return self.set_from(self+y)
+    def __isub__(self, y): return self.set_from(self-y)
+    def __imul__(self, y): return self.set_from(self*y)
+    def __itruediv__(self, y): return self.set_from(self/y)
+
     def is_terminal(self):
         """Returns true iif the expression is a terminal  """
         return self.tag == "T"
-- 
2.43.0


From 524ac6172e8d795c1b35563798038122416f8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 107/151] fix: lazy expressions were printed without
 parentheses, and those with functions not at all

---
 python/triqs/gf/lazy_expressions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index 01a3500..190d72b 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -77,12 +77,14 @@ class LazyExpr (__aux):
         return self.childs[0] if self.tag == "T" else None
 
     def __aux_print(self, F):
-        op_priority = {'T': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
+        op_priority = {'T': 100, 'F': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
         if self.tag == "T":  return F(self.childs[0])
         if self.tag == "F":
-            return reduce (lambda s, e: s+ F(e), self.childs[1:], self.childs[0].get_terminal()[0] + "(" ) + ')'
-        par = lambda op, e: "%s"%e if op_priority[e.tag] >= op_priority[op] else "(%s)"%e
-        return "%s %s %s "%(par(self.tag , self.childs[0]), self.tag , par(self.tag , self.childs[1]))
+            return self.childs[0].get_terminal()[0] + "(" + ", ".join(F(e) for e in self.childs[1:]) + ')'
+        par = lambda p, e: F(e) if op_priority[e.tag] >= p else "(%s)"%F(e)
+        p = op_priority[self.tag]
+        # the right operand of - and / needs parentheses already for an operator of the same priority
+        return "%s %s %s"%(par(p, self.childs[0]), self.tag , par(p + (self.tag in '-/'), self.childs[1]))
 
     def __str__(self): return self.__aux_print(str)
     def __repr__(self): return self.__aux_print(repr)
-- 
2.43.0


From 34941a4f68e59c42f7b8ab554225f38f33313af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 108/151] fix: transform applied the function of the terminals
 only to expressions which are a terminal

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index 190d72b..c59eb8f 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -124,7 +124,7 @@ def transform (expr, Fnode, Fterm = lambda x: x ):
            it transforms the expression recursively
     """
     if expr.tag == "T": return LazyExpr("T", Fterm(expr.childs[0]))
-    tag, ch = Fnode (expr.tag, [transform (e, Fnode) for e in expr.childs])
+    tag, ch = Fnode (expr.tag, [transform (e, Fnode, Fterm) for e in expr.childs])
     ch = [LazyExpr(x) for x in ch]
     return LazyExpr (tag, *ch)
 
-- 
2.43.0


From 66847c75410c3f41fc44af1721ebc92e12948694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 109/151] fix: functions on a product mesh whose data is not
 contiguous could not be inverted

---
 python/triqs/gf/gf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 879b358..53a819e 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -611,10 +611,10 @@ class Gf(metaclass=AddMethod):
             self.data[:] = 1. / self.data
         elif self.target_rank == 2: # Matrix target space
             # TODO: Replace by np.linag.inv, since v1.8
-            # Cf https://docs.scipy.org/doc/numpy/reference/generated/numpy.reshape.html
-            d = self.data.view()
-            d.shape = (np.prod(d.shape[:-2]),) + d.shape[-2:] # reshaped view, guarantee no copy
+            d = self.data.reshape((-1,) + self.data.shape[-2:]) # a view if the strides allow it
             wrapped_aux._gf_invert_data_in_place(d)
+            if not np.may_share_memory(d, self.data):
+                self.data[:] = d.reshape(self.data.shape)
         else:
             raise TypeError(
                 "Inversion only makes sense for matrix or scalar_valued Greens functions")
-- 
2.43.0


From b568a19e70dd0d64c6eaf62a7b0cab96a7ccae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 110/151] fix: total_density of scalar valued functions failed

---
 python/triqs/gf/gf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 53a819e..9f177a3 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -729,7 +729,8 @@ class Gf(metaclass=AddMethod):
         Matsubara, real-frequency, or Legendre mesh.
 
         """
-        return np.trace(gf_fnt.density(self, *args, **kwargs))
+        dens = gf_fnt.density(self, *args, **kwargs)
+        return np.trace(dens) if self.target_rank > 0 else dens
 
     #-----------------------------  IO  -----------------------------------
     
-- 
2.43.0


From f01c03917583c6aab10d4e43dbf92db47074cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 111/151] fix: x_data_view with a window failed on all but the
 Matsubara mesh and on scalar valued functions

---
 python/triqs/gf/gf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 9f177a3..0644200 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -786,14 +786,14 @@ class Gf(metaclass=AddMethod):
             If flatten_y is True and dim is (1, 1, *) it returns a 1d numpy array.
         """
         
-        X = [x.imag for x in self.mesh] if isinstance(self.mesh, meshes.MeshImFreq) \
-            else [x for x in self.mesh]
-        
+        X = [x.imag for x in self.mesh] if isinstance(self.mesh, (meshes.MeshImFreq, meshes.MeshDLRImFreq)) \
+            else [x.value for x in self.mesh]
+
         X, data = np.array(X), self.data
         if x_window:
             # the slice due to clip option x_window
             sl = clip_array(X, *x_window) if x_window else slice(len(X))
-            X, data = X[sl],  data[sl, :, :]
+            X, data = X[sl],  data[sl]
         if flatten_y and data.shape[1:3] == (1, 1):
             data = data[:, 0, 0]
         return X, data
-- 
2.43.0


From 7eec245ee347d7e49de20e2fa6815884bfe47118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 112/151] fix: comparison of a product mesh with another mesh,
 and copy_from of product meshes

---
 python/triqs/gf/mesh_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/mesh_product.py b/python/triqs/gf/mesh_product.py
index e27bbec..2c52a40 100644
--- a/python/triqs/gf/mesh_product.py
+++ b/python/triqs/gf/mesh_product.py
@@ -74,7 +74,7 @@ class MeshProduct:
         """
         Compare with another product mesh
         """
-        return self._mlist == other._mlist
+        return isinstance(other, MeshProduct) and self._mlist == other._mlist
 
     def __iter__(self):
         """
@@ -93,7 +93,7 @@ class MeshProduct:
          Deep copy
         """
         assert self.rank == another.rank, "copy_from requires the same rank for meshes"
-        return self.__class__(*[x.copy_from(y) for x,y in zip(self._mlist, another._mlist)])
+        for x,y in zip(self._mlist, another._mlist): x.copy_from(y)
 
     def to_data_index(self, idx) :
         """
-- 
2.43.0


From e94932b8f333bd151f038d6357e453bb16afa76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 113/151] fix: BlockGf kept the lists of its caller

---
 python/triqs/gf/block_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ba6c8bb..d31b082 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -120,7 +120,7 @@ class BlockGf:
             raise RuntimeError("BlockGf: All block must have the same type %s"%GFlist)
 
         # init
-        self.__indices,self.__GFlist = BlockNameList,GFlist
+        self.__indices,self.__GFlist = list(BlockNameList),list(GFlist)
         try:
             self.__me_as_dict = dict(self)
         except TypeError:
-- 
2.43.0


From e88022b5446fbaf5f39a53a4a3cf57f1a91cc25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 114/151] fix: copy_from of block functions ignored surplus
 blocks and failed on scalar valued ones

---
 python/triqs/gf/block2_gf.py | 3 ++-
 python/triqs/gf/block_gf.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 997ff85..1b74e4d 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -115,8 +115,9 @@ class Block2Gf:
     def copy_from(self, G2):
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
         assert isinstance(G2, Block2Gf)
+        assert len(self.__indices1) == len(G2.__indices1) and len(self.__indices2) == len(G2.__indices2), "The Green Functions do not have the same number of blocks"
         for (i,g), (i2,g2) in zip(self,G2):
-           assert g.data.shape == g2.data.shape, "Blocks %s and %s of the Green Function do have the same dimension"%(i1,i2)
+           assert g.data.shape == g2.data.shape, "Blocks %s and %s of the Green Function do not have the same dimension"%(i,i2)
         for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)
 
      #--------------  Iterators -------------------------
diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index d31b082..f6ec0c9 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -151,9 +151,10 @@ class BlockGf:
     def copy_from(self, G2):
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
         assert isinstance(G2, BlockGf)
+        assert len(self) == len(G2), "The Green Functions do not have the same number of blocks"
         for (i,g),(i2,g2) in zip(self,G2): 
-           if  (g.target_shape[0],g.target_shape[1]) != (g2.target_shape[0],g2.target_shape[1]): 
-               raise RuntimeError("Blocks %s and %s of the Green Function do have the same dimension"%(i1,i2)) 
+           if g.data.shape != g2.data.shape:
+               raise RuntimeError("Blocks %s and %s of the Green Function do not have the same dimension"%(i,i2))
         for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)
 
      #--------------  Iterators -------------------------
-- 
2.43.0


From 5b6446f213ec52d6d6408d28d8fee95f1295ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 115/151] fix: operations on block functions of different
 structure changed the first blocks before they were refused

---
 python/triqs/gf/block_gf.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index f6ec0c9..3b6f322 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -288,6 +288,14 @@ class BlockGf:
 
     # -------------- Various operations -------------------------------------
 
+    def __pairs(self, A, same_shape=True):
+        """The pairs of corresponding blocks of self and A, all of them checked"""
+        r = [(g, A[n]) for n, g in self]
+        for g, a in r:
+            assert g.mesh == a.mesh, "Green function meshes are not compatible:\n  %s\nand\n  %s" % (g.mesh, a.mesh)
+            assert not same_shape or g.data.shape == a.data.shape, "Shapes are incompatible: %s vs %s" % (g.data.shape, a.data.shape)
+        return r
+
     def __le__(self, other):
         raise RuntimeError(" Operator <= not defined ")
 
@@ -297,8 +305,9 @@ class BlockGf:
           * G << g2 where g2 is a BlockGf will copy g2 into self
           """
         if isinstance(A, self.__class__):
-            for (i,g) in self: g << A[i]
+            for g, a in self.__pairs(A): g << a
         elif hasattr(A, "is_block_descriptor") and A.is_block_descriptor():
+            assert len(A.G) == len(self), "The Green Functions do not have the same number of blocks"
             for g,a in zip(self.__GFlist, A): g << a
         else:
             for g in self.__GFlist: g << A
@@ -306,7 +315,7 @@ class BlockGf:
 
     def __iadd__(self,arg):
         if isinstance(arg, self.__class__):
-            for (n,g) in self: self[n] += arg[n]
+            for g, a in self.__pairs(arg): g += a
         elif isinstance(arg, Sequence):
             assert len(arg) == len(self.__GFlist), "list of incorrect length"
             for l,g in zip(arg,self.__GFlist): g +=l
@@ -323,7 +332,7 @@ class BlockGf:
 
     def __isub__(self,arg):
         if isinstance(arg, self.__class__):
-           for (n,g) in self: self[n] -= arg[n]
+           for g, a in self.__pairs(arg): g -= a
         elif isinstance(arg, Sequence):
             assert len(arg) == len(self.__GFlist) , "list of incorrect length"
             for l,g in zip(arg,self.__GFlist): g -=l
@@ -343,7 +352,7 @@ class BlockGf:
 
     def __imul__(self,arg):
         if isinstance(arg, BlockGf):
-            for (n,g) in self: self[n] *= arg[n]
+            for g, a in self.__pairs(arg, same_shape=False): g *= a
         else:
             for i,g in self: g *= arg
         return self
-- 
2.43.0


From b10f67080270ca19e5f5c15860e297e32756cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 116/151] fix: a matrix times a block function multiplied from
 the right

---
 python/triqs/gf/block2_gf.py | 3 ++-
 python/triqs/gf/block_gf.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 1b74e4d..33da185 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -300,7 +300,8 @@ class Block2Gf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        return Block2Gf(self.__indices1, self.__indices2, [[x * g for g in g_row] for g_row in self.__GFlist])
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 3b6f322..ca59670 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -370,7 +370,8 @@ class BlockGf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        return BlockGf(name_list = self.__indices, block_list = [x * g for g in self.__GFlist])
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-- 
2.43.0


From 14fef717372d005136589cadc87b5816d935a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 117/151] fix: all_indices of block functions gave ranges
 instead of indices

---
 python/triqs/gf/block_gf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ca59670..36a3455 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -194,10 +194,8 @@ class BlockGf:
     def all_indices(self):
        """  An Iterator on BlockGf indices and indices of the blocs of the form: block_index,n1,n2, where n1,n2 are indices of the block"""
        for sig,g in self:
-          val = g.indices
-          for x in val:
-              for y in val:
-                  yield  (sig,x,y)
+          for ind in g.target_indices:
+              yield (sig,) + ind
 
     @property
     def n_blocks(self):
-- 
2.43.0


From 14c471839121c4d60a4ce003083255b8dac88ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 118/151] fix: beta of block functions used an attribute which
 does not exist

---
 python/triqs/gf/block_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 36a3455..bdf8e60 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -182,7 +182,7 @@ class BlockGf:
     @property
     def beta(self):
         """ Inverse Temperature"""
-        return  self._first().beta
+        return  self._first().mesh.beta
 
     @property
     def indices(self):
-- 
2.43.0


From 42a655ead5b1bf7354a8276d573c622ea2c42a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 119/151] fix: Block2Gf could not be pickled

---
 python/triqs/gf/block2_gf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 33da185..c38adf8 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -24,6 +24,10 @@ from itertools import chain, product
 import numpy as np
 
 
+def call_factory_from_dict(cl,name, dic):
+    """Given a class cl and a dict dic, it calls cl.__factory_from_dict__(dic)"""
+    return cl.__factory_from_dict__(name, dic)
+
 class Block2Gf:
     """
     Generic Green's Function by two-index Block.
@@ -183,7 +187,7 @@ class Block2Gf:
     #----------------------   IO    -------------------------------------
 
     def __reduce__(self):
-        return lambda cl,name,dic: cl.__factory_from_dict__(name, dic), (self.__class__,self.name, self.__reduce_to_dict__())
+        return call_factory_from_dict, (self.__class__,self.name, self.__reduce_to_dict__())
 
     def __reduce_to_dict__(self):
         d = {"%s_%s"%bn : g for bn, g in self}
-- 
2.43.0


From b4153015dcf3fc5de456c0109fa65502e29f1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 120/151] fix: assignment of initializers and operations with
 lists of Block2Gf failed

---
 python/triqs/gf/block2_gf.py | 39 +++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index c38adf8..6dd48af 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -18,7 +18,7 @@
 #
 # Authors: Weh Andreas, Michel Ferrero, Alexander Hampel, Jonathan Karp, Igor Krivenko, Nils Wentzell
 
-from collections.abc import Sequence
+from collections.abc import Mapping, Sequence
 from itertools import chain, product
 
 import numpy as np
@@ -233,23 +233,37 @@ class Block2Gf:
 
     # -------------- Various operations -------------------------------------
 
+    def __pairs(self, A, same_shape=True):
+        """The pairs of corresponding blocks of self and A, all of them checked"""
+        r = [(g, A[bn]) for bn, g in self]
+        for g, a in r:
+            assert g.mesh == a.mesh, "Green function meshes are not compatible:\n  %s\nand\n  %s" % (g.mesh, a.mesh)
+            assert not same_shape or g.data.shape == a.data.shape, "Shapes are incompatible: %s vs %s" % (g.data.shape, a.data.shape)
+        return r
+
+    def __list_pairs(self, arg):
+        """The pairs of the blocks of self and the elements of a list of lists"""
+        assert len(arg) == len(self.__GFlist) and all(len(row) == len(self.__indices2) for row in arg), "list of incorrect length"
+        return zip(chain.from_iterable(self.__GFlist), chain.from_iterable(arg))
+
     def __lshift__(self, A):
         """ A can be 2 things:
           * G << any_init will init all the Block2Gf with the initializer
           * G << g2 where g2 is a Block2Gf will copy g2 into self
           """
         if isinstance(A, self.__class__):
-           for bn, g in self: g << A[bn]
+           for g, a in self.__pairs(A): g << a
+        elif isinstance(A, Mapping):
+           for g, a in [(g, A[bn]) for bn, g in self]: g << a
         else:
-           for bn, g in self:  self[bn] << A[bn]
+           for bn, g in self: g << A
         return self
 
     def __iadd__(self,arg):
         if isinstance(arg, self.__class__):
-            for bn, g in self: self[bn] += arg[bn]
+            for g, a in self.__pairs(arg): g += a
         elif isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist), "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] += l
+            for g, l in self.__list_pairs(arg): g += l
         else:
             for bn, g in self: self[bn] += arg
         return self
@@ -263,10 +277,9 @@ class Block2Gf:
 
     def __isub__(self,arg):
         if isinstance(arg, self.__class__):
-           for bn, g in self: self[bn] -= arg[bn]
+           for g, a in self.__pairs(arg): g -= a
         elif isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] -= l
+            for g, l in self.__list_pairs(arg): g -= l
         else:
             for bn, g in self: self[bn] -= arg
         return self
@@ -283,10 +296,9 @@ class Block2Gf:
 
     def __imul__(self,arg):
         if isinstance(arg, self.__class__):
-            for bn, g in self: self[bn] *= arg[bn]
+            for g, a in self.__pairs(arg, same_shape=False): g *= a
         elif isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] *= l
+            for g, l in self.__list_pairs(arg): g *= l
         else:
             for bn, g in self: self[bn] *= arg
         return self
@@ -309,8 +321,7 @@ class Block2Gf:
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] /= l
+            for g, l in self.__list_pairs(arg): g /= l
         else:
             for bn, g in self: self[bn] /= arg
         return self
-- 
2.43.0


From a2750b9ae911254ad9074549842f678ff4d64415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 121/151] fix: Block2Gf with a wrong block name did not raise
 IndexError

---
 python/triqs/gf/block2_gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 6dd48af..ac2b4ab 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -220,14 +220,14 @@ class Block2Gf:
     def __getitem__(self,key):
         try:
             g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
-        except KeyError:
+        except (KeyError, ValueError):
             raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: " + repr(list(product(self.__indices1,self.__indices2))))
         return g
 
     def __setitem__(self,key,val):
         try:
             g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
-        except KeyError:
+        except (KeyError, ValueError):
             raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(list(product(self.__indices1,self.__indices2))))
         g << val
 
-- 
2.43.0


From 0aa6ad7410eaed6847dd2e09272dcca76ee0db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 122/151] fix: selected blocks of a Block2Gf were not in the
 order of the function

---
 python/triqs/gf/block2_gf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index ac2b4ab..2a9dade 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -108,12 +108,16 @@ class Block2Gf:
         """Returns a VIEW of the selected blocks of self, in the same order as self."""
         for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
         for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
+        selected_blocks1 = [bn for bn in self.__indices1 if bn in selected_blocks1]
+        selected_blocks2 = [bn for bn in self.__indices2 if bn in selected_blocks2]
         return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=False)
 
     def copy_selected_blocks(self, selected_blocks1, selected_blocks2):
         """Returns a COPY of the selected blocks of self, in the same order as self."""
         for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
         for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
+        selected_blocks1 = [bn for bn in self.__indices1 if bn in selected_blocks1]
+        selected_blocks2 = [bn for bn in self.__indices2 if bn in selected_blocks2]
         return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=True)
 
     def copy_from(self, G2):
-- 
2.43.0


From 503969e235d704a35cd1806cdf32198963100ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 123/151] fix: make_delta with the energies of the bath given
 as a list

---
 python/triqs/gf/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index 2bef238..e708157 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -310,6 +310,7 @@ def make_delta(V, eps, mesh, block_names=None):
         delta_list = [make_delta(v, e, mesh) for v, e in zip(V, eps)]
         return BlockGf(name_list=block_names, block_list=delta_list)
 
+    eps = np.asarray(eps)
     assert V.shape[1] == len(eps), 'number of bath sides in V and eps does not match'
 
     delta_res = Gf(mesh=mesh, target_shape=[V.shape[0], V.shape[0]])
-- 
2.43.0


From ba0d6bd344bffb5a8558d7211bda29d5abb73701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 124/151] fix: discretize_bath changed the function given to it

---
 python/triqs/gf/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index e708157..30a17b2 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -403,8 +403,8 @@ def discretize_bath(delta_in, Nb, eps0=3, V0=None, tol=1e-15, maxiter=10000,
     if isinstance(delta_in.mesh, MeshImFreq):
         assert delta_in.is_gf_real_in_tau()
 
-    # enforce hermiticity
-    delta_in << make_hermitian(delta_in)
+    # enforce hermiticity, the input is left unchanged
+    delta_in = make_hermitian(delta_in)
 
     def unflatten(x):
         # first half of parameters are hoppings, second half are bath energies
-- 
2.43.0


From 2d6a0e3a42d338b27093f25c6b334600012f4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 125/151] fix: discretize_bath of scalar valued functions
 without a guess of the hoppings failed

---
 python/triqs/gf/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index 30a17b2..cc8ffa0 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -457,7 +457,7 @@ def discretize_bath(delta_in, Nb, eps0=3, V0=None, tol=1e-15, maxiter=10000,
         else:
             leading_moment = -delta_in.data[0, ...]-delta_in.data[-1, ...]
         # obtain guess from cholesky decomposition of 1st moment (tail[1])
-        chol = np.linalg.cholesky(leading_moment)
+        chol = np.linalg.cholesky(np.reshape(leading_moment, (n_orb, n_orb)))
         # chol always returns complex arrays
         if not cmplx:
             chol = chol.real
-- 
2.43.0


From d7ceb014fc6f5f2257f67a04fee75aafc0fbf07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 126/151] fix: discretize_bath with complex hoppings and a real
 guess of them failed

---
 python/triqs/gf/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index cc8ffa0..e626ec4 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -476,6 +476,9 @@ def discretize_bath(delta_in, Nb, eps0=3, V0=None, tol=1e-15, maxiter=10000,
         eps0 = np.linspace(-eps0, eps0, Nb)
 
     # parameters for scipy must be a 1D array
+    if np.iscomplexobj(V0) and not cmplx:
+        raise ValueError('V0 initialized with complex values, but cmplx=False')
+    V0 = np.ascontiguousarray(V0, dtype=complex if cmplx else float)
     parameters = np.concatenate([V0.view(float).flatten(), eps0])
 
     # run the minimizer with method Nelder-Mead and optimize the hoppings and energies to given
-- 
2.43.0


From dbf376b064e3fa4467e5939f85f3423f3a21898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 127/151] fix: GfImFreq, GfImTime, ... refused the documented
 parameter is_real

---
 python/triqs/gf/backwd_compat/gf_imfreq.py   | 3 ++-
 python/triqs/gf/backwd_compat/gf_imtime.py   | 3 ++-
 python/triqs/gf/backwd_compat/gf_legendre.py | 3 ++-
 python/triqs/gf/backwd_compat/gf_refreq.py   | 3 ++-
 python/triqs/gf/backwd_compat/gf_retime.py   | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/triqs/gf/backwd_compat/gf_imfreq.py b/python/triqs/gf/backwd_compat/gf_imfreq.py
index 6e55774..5f3befa 100644
--- a/python/triqs/gf/backwd_compat/gf_imfreq.py
+++ b/python/triqs/gf/backwd_compat/gf_imfreq.py
@@ -54,7 +54,7 @@ class GfImFreq(Gf) :
         """
         warnings.warn("Please use Gf(mesh=MeshImFreq(..), ..) instead of GfImFreq", DeprecationWarning)
 
-        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 1025, beta = None, statistic = 'Fermion', indices=None):
+        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 1025, beta = None, statistic = 'Fermion', is_real=False, indices=None):
             if mesh is None:
                 assert isinstance(beta, (int, float)), "If the Mesh is not given, beta is mandatory and must be float"
                 assert isinstance(n_points, int) and n_points >0, "n_points is crazy"
@@ -66,6 +66,7 @@ class GfImFreq(Gf) :
                       data = data, 
                       target_shape = target_shape,
                       name = name,
+                      is_real = is_real,
                       indices = indices) 
 
         delegate(self, **kw)
diff --git a/python/triqs/gf/backwd_compat/gf_imtime.py b/python/triqs/gf/backwd_compat/gf_imtime.py
index 19bb0b0..0a73b4a 100644
--- a/python/triqs/gf/backwd_compat/gf_imtime.py
+++ b/python/triqs/gf/backwd_compat/gf_imtime.py
@@ -54,7 +54,7 @@ class GfImTime(Gf) :
         """
         warnings.warn("Please use Gf(mesh=MeshImTime(..), ..) instead of GfImTime", DeprecationWarning)
 
-        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 10000, beta = None, statistic = 'Fermion', indices=None):
+        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 10000, beta = None, statistic = 'Fermion', is_real=False, indices=None):
             if mesh is None:
                 assert isinstance(beta, (int, float)), "If the Mesh is not given, beta is mandatory and must be float"
                 assert isinstance(n_points, int) and n_points >0, "n_points is crazy"
@@ -66,6 +66,7 @@ class GfImTime(Gf) :
                       data = data, 
                       target_shape = target_shape,
                       name = name,
+                      is_real = is_real,
                       indices = indices) 
         delegate(self, **kw)
 
diff --git a/python/triqs/gf/backwd_compat/gf_legendre.py b/python/triqs/gf/backwd_compat/gf_legendre.py
index 47ccf5d..992cca6 100644
--- a/python/triqs/gf/backwd_compat/gf_legendre.py
+++ b/python/triqs/gf/backwd_compat/gf_legendre.py
@@ -54,7 +54,7 @@ class GfLegendre(Gf) :
         """
         warnings.warn("Please use Gf(mesh=MeshLegendre(..), ..) instead of GfLegendre", DeprecationWarning)
 
-        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 30, beta = None, statistic = 'Fermion', indices=None):
+        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 30, beta = None, statistic = 'Fermion', is_real=False, indices=None):
             if mesh is None:
                 assert isinstance(beta, (int, float)), "If the Mesh is not given, beta is mandatory and must be float"
                 assert isinstance(n_points, int) and n_points >0, "n_points is crazy"
@@ -66,6 +66,7 @@ class GfLegendre(Gf) :
                       data = data, 
                       target_shape = target_shape,
                       name = name,
+                      is_real = is_real,
                       indices = indices) 
 
         delegate(self, **kw)
diff --git a/python/triqs/gf/backwd_compat/gf_refreq.py b/python/triqs/gf/backwd_compat/gf_refreq.py
index fa20913..216eb66 100644
--- a/python/triqs/gf/backwd_compat/gf_refreq.py
+++ b/python/triqs/gf/backwd_compat/gf_refreq.py
@@ -54,7 +54,7 @@ class GfReFreq(Gf) :
         """
         warnings.warn("Please use Gf(mesh=MeshReFreq(..), ..) instead of GfReFreq", DeprecationWarning)
 
-        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 10000, window = None, indices=None):
+        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 10000, window = None, is_real=False, indices=None):
             if mesh is None:
                 assert isinstance(n_points, int) and n_points >0, "n_points is crazy"
                 mesh = MeshReFreq(window[0], window[1], n_points)
@@ -65,5 +65,6 @@ class GfReFreq(Gf) :
                       data = data, 
                       target_shape = target_shape,
                       name = name,
+                      is_real = is_real,
                       indices = indices) 
         delegate(self, **kw)
diff --git a/python/triqs/gf/backwd_compat/gf_retime.py b/python/triqs/gf/backwd_compat/gf_retime.py
index 6e3c3b6..bda697c 100644
--- a/python/triqs/gf/backwd_compat/gf_retime.py
+++ b/python/triqs/gf/backwd_compat/gf_retime.py
@@ -54,7 +54,7 @@ class GfReTime(Gf) :
         """
         warnings.warn("Please use Gf(mesh=MeshReTime(..), ..) instead of GfReTime", DeprecationWarning)
 
-        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 10000, window = None, indices=None):
+        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 10000, window = None, is_real=False, indices=None):
             if mesh is None:
                 assert isinstance(n_points, int) and n_points >0, "n_points is crazy"
                 mesh = MeshReTime(window[0], window[1], n_points)
@@ -65,5 +65,6 @@ class GfReTime(Gf) :
                       data = data, 
                       target_shape = target_shape,
                       name = name,
+                      is_real = is_real,
                       indices = indices) 
         delegate(self, **kw)
-- 
2.43.0


From ac21eff54a65283920dabd3ceb74df00e8acfd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:22 +0000
Subject: [PATCH 128/151] fix: Fit used inspect.getargspec, which Python 3.11
 removed

---
 python/triqs/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/fit/fit.py b/python/triqs/fit/fit.py
index 8e3f17e..ebcb3dd 100644
--- a/python/triqs/fit/fit.py
+++ b/python/triqs/fit/fit.py
@@ -48,7 +48,7 @@ class Fit:
 
         """
         self.function, self.fname, p00 = fitter
-        assert len(ins.getargspec(self.function)[0])== len(p00) + 1, "error in number of parameters"
+        assert len(ins.getfullargspec(self.function)[0])== len(p00) + 1, "error in number of parameters"
         assert len(y_array) == len(x_array)
         assert len(y_array) > len (p00)
         errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])
-- 
2.43.0


From 387a49cf4450d306339b2c1a70c7d98902907908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:22 +0000
Subject: [PATCH 129/151] fix: Fit failed with an initial guess given as an
 array

---
 python/triqs/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/fit/fit.py b/python/triqs/fit/fit.py
index ebcb3dd..7f75e95 100644
--- a/python/triqs/fit/fit.py
+++ b/python/triqs/fit/fit.py
@@ -52,7 +52,7 @@ class Fit:
         assert len(y_array) == len(x_array)
         assert len(y_array) > len (p00)
         errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])
-        self.param, success = leastsq(errfunc, p0 if p0 else p00 )
+        self.param, success = leastsq(errfunc, p0 if p0 is not None else p00 )
 
     def __str__ (self) : return (self.fname%tuple(self.param) or 'Fit').replace("+ -","-")
     def __repr__ (self) : return str(self)
-- 
2.43.0


From 485db5bb9417310fd26dc4520644796dc7b7ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:22 +0000
Subject: [PATCH 130/151] fix: lists of points with complex values could not be
 plotted

---
 python/triqs/plot/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/plot/protocol.py b/python/triqs/plot/protocol.py
index 311af15..fa62e02 100644
--- a/python/triqs/plot/protocol.py
+++ b/python/triqs/plot/protocol.py
@@ -70,7 +70,7 @@ def plot_protocol_apply(ob, opt_dict, xlims):
         Y = numpy.array([ob(x) for x in X])
     else:
         try: # generator x,y
-            X, Y = zip(*ob)
+            X, Y = (numpy.array(z) for z in zip(*ob))
         except:
             raise RuntimeError("Object cannot be plotted")
 
-- 
2.43.0


From 69de420dc33f53121cb047bafc7d82a59644608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:22 +0000
Subject: [PATCH 131/151] fix: options of matplotlib were dropped when plotting
 functions and lists of points

---
 python/triqs/plot/protocol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/triqs/plot/protocol.py b/python/triqs/plot/protocol.py
index fa62e02..dbc51f5 100644
--- a/python/triqs/plot/protocol.py
+++ b/python/triqs/plot/protocol.py
@@ -76,7 +76,9 @@ def plot_protocol_apply(ob, opt_dict, xlims):
 
     name = opt_dict.pop('name', str(ob))
     if numpy.iscomplexobj(Y):
-        return([{'xdata': X, 'ydata': Y.real, 'label': "Re " + name},
-                {'xdata': X, 'ydata': Y.imag, 'label': "Im " + name}])
+        res = [{'xdata': X, 'ydata': Y.real, 'label': "Re " + name},
+               {'xdata': X, 'ydata': Y.imag, 'label': "Im " + name}]
     else:
-        return([{'xdata': X, 'ydata': Y, 'label': name}])
+        res = [{'xdata': X, 'ydata': Y, 'label': name}]
+    for r in res: r.update(opt_dict) # Add all other unused parameters to the dictionaries
+    return res
-- 
2.43.0


From 1badd4baae139e17f30d143a159e6a69ee900ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:22 +0000
Subject: [PATCH 132/151] fix: options of matplotlib and the name were dropped
 when plotting a DOS

---
 python/triqs/dos/dos.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/triqs/dos/dos.py b/python/triqs/dos/dos.py
index 6c0bf8b..e4f5399 100644
--- a/python/triqs/dos/dos.py
+++ b/python/triqs/dos/dos.py
@@ -85,7 +85,10 @@ name : string
         return DOS(self.eps,self.rho,self.name)
 
     def _plot_(self, Options) : 
-        return  [ {'label' : self.name, 'xlabel' :r'$\epsilon$', 'ylabel' : r'%s$(\epsilon)$'%self.name, 'xdata' : self.eps,'ydata' : self.rho } ]
+        name = Options.pop('name', self.name)
+        res = {'label' : name, 'xlabel' :r'$\epsilon$', 'ylabel' : r'%s$(\epsilon)$'%name, 'xdata' : self.eps,'ydata' : self.rho }
+        res.update(Options)
+        return [res]
 
     def density(self,mu=0):
         """Calculates the density of free fermions for the given DOS for chemical potential mu."""
-- 
2.43.0


From ae3741835d0d0fec4404cb56b59c6b2cae60ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:22 +0000
Subject: [PATCH 133/151] fix: invalid TeX in the axis labels of real-time
 Green functions

---
 python/triqs/gf/plot/one_var.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/plot/one_var.py b/python/triqs/gf/plot/one_var.py
index f8f1a53..d8dad2e 100644
--- a/python/triqs/gf/plot/one_var.py
+++ b/python/triqs/gf/plot/one_var.py
@@ -175,5 +175,5 @@ def retime (self, opt_dict):
               - name: str
                      name of the gf for the label and legend
     """
-    return plot_base.plot_base(self, opt_dict,  r'$\t$', lambda x : r'%s$(\t)$'%x, list(self.mesh.values()))
+    return plot_base.plot_base(self, opt_dict,  r'$t$', lambda x : r'%s$(t)$'%x, list(self.mesh.values()))
 
-- 
2.43.0


From b9286f144f0bc24e58778dac70bad18a2bf743de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 134/151] fix: h5diff reported the differences of previous
 comparisons again

---
 python/triqs/utility/h5diff.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 6f451ae..d58cc17 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -87,6 +87,7 @@ def compare(key, a, b, level, precision):
         failures.append("Comparison of key '%s'  has failed:\n """%key + mess)
 
 def h5diff(f1, f2, precision= 1.e-6):
+    failures.clear() # of a previous comparison
     compare('', HDFArchive(f1,'r'), HDFArchive(f2,'r'), 0, precision)
     if failures :
         print ('-'*50, file=sys.stderr )
-- 
2.43.0


From f68397bdd1573bca98e27c83299ae71149a81728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 135/151] fix: h5diff stopped with a KeyError at groups with
 different keys

---
 python/triqs/utility/h5diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index d58cc17..8d0522e 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -39,7 +39,7 @@ def compare(key, a, b, level, precision):
         if t == dict or isinstance(a, HDFArchiveGroup) :
             if list(a.keys()) != list(b.keys()):
                 failures.append("Two archive groups '%s' with different keys \n %s \n vs\n %s"%(key,list(a.keys()), list(b.keys())))
-            for k in a.keys():
+            for k in [k for k in a.keys() if k in b.keys()]:
                 compare(key + '/'+ k, a[k], b[k], level + 1, precision)
 
         # The TRIQS object which are comparable starts here ....
-- 
2.43.0


From 087be6f5ca029ef55831a9e805a0344d802ece2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 136/151] fix: h5diff ignored the precision and the shape of
 arrays and failed on arrays of bool and of strings

---
 python/triqs/utility/h5diff.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 8d0522e..99eae92 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -62,7 +62,11 @@ def compare(key, a, b, level, precision):
 
         # ... until here
         elif isinstance(a, numpy.ndarray):
-            assert_arrays_are_close(a,b)
+            assert a.shape == b.shape, "Arrays have different shapes : %s vs %s"%(a.shape, b.shape)
+            if a.dtype.kind in 'biufc' and b.dtype.kind in 'iufc':
+                assert_arrays_are_close(a, b, precision)
+            else : # bool, strings, objects
+                assert numpy.array_equal(a, b), "Arrays are different.\n %s \n\n --------- \n\n %s"%(a,b)
 
         elif t in [int, float, complex]:
             assert abs(a-b) < 1.e-10, " a-b = %"%(a-b)
-- 
2.43.0


From 62ad9442d8a73865b32b347a67ba9ad4d3b15fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 137/151] fix: h5diff raised a format error in place of the
 difference of two numbers

---
 python/triqs/utility/h5diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 99eae92..666d6f2 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -69,7 +69,7 @@ def compare(key, a, b, level, precision):
                 assert numpy.array_equal(a, b), "Arrays are different.\n %s \n\n --------- \n\n %s"%(a,b)
 
         elif t in [int, float, complex]:
-            assert abs(a-b) < 1.e-10, " a-b = %"%(a-b)
+            assert abs(a-b) < 1.e-10, " a-b = %s"%(a-b)
 
         elif t in [bool, numpy.bool_]:
            assert a==b
-- 
2.43.0


From 933b7bdaeb2e44745bbe54ab31877b9ae3d7cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 138/151] fix: empty arrays could not be compared

---
 python/triqs/utility/comparison_tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/comparison_tests.py b/python/triqs/utility/comparison_tests.py
index 54f46bb..a110d6b 100644
--- a/python/triqs/utility/comparison_tests.py
+++ b/python/triqs/utility/comparison_tests.py
@@ -20,7 +20,7 @@
 import numpy as np
 
 def assert_arrays_are_close(a, b, precision = 1.e-6):
-    d = np.amax(np.abs(a - b))
+    d = np.amax(np.abs(a - b), initial=0)
     assert  d< precision, "Arrays are different. Difference is %s.\n %s \n\n --------- \n\n %s"%(d,a,b)
 
 def assert_array_close_to_scalar(a, x, precision = 1.e-6):
-- 
2.43.0


From f7180965ab595e5e0fbead92ef70f50bdd1e2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 139/151] fix: Green functions with different target shapes
 could compare close

---
 python/triqs/utility/comparison_tests.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/utility/comparison_tests.py b/python/triqs/utility/comparison_tests.py
index a110d6b..90a9172 100644
--- a/python/triqs/utility/comparison_tests.py
+++ b/python/triqs/utility/comparison_tests.py
@@ -29,6 +29,7 @@ def assert_array_close_to_scalar(a, x, precision = 1.e-6):
 def assert_gfs_are_close(a, b, precision = 1.e-6):
     assert type(a.mesh) == type(b.mesh), "GFs have different type of meshes !"
     assert a.mesh == b.mesh, "meshes are different"
+    assert a.data.shape == b.data.shape, "GFs have different target shapes : %s vs %s"%(a.target_shape, b.target_shape)
     assert_arrays_are_close(a.data, b.data, precision)
 
 def assert_block_gfs_are_close(a, b, precision = 1.e-6):
-- 
2.43.0


From 7602319ab399e9c13ee95cb7fcef1dee163c2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 140/151] fix: Green functions with nan or with different
 target shapes compared close

---
 c++/triqs/gfs/gf_tests.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/triqs/gfs/gf_tests.hpp b/c++/triqs/gfs/gf_tests.hpp
index 4d71377..6194e51 100644
--- a/c++/triqs/gfs/gf_tests.hpp
+++ b/c++/triqs/gfs/gf_tests.hpp
@@ -27,6 +27,9 @@ namespace triqs {
 
       // meshes must be identical and data close
       if (x.mesh() != y.mesh()) TRIQS_RUNTIME_ERROR << "GFs have different meshes\n -- 1st Mesh \n" << x.mesh() << "\n -- 2nd Mesh \n" << y.mesh();
+      if (x.data().shape() != y.data().shape())
+        TRIQS_RUNTIME_ERROR << "Gfs have data of different shape: " << x.data().shape() << " vs " << y.data().shape();
+      if (any(isnan(abs(x.data() - y.data())))) TRIQS_RUNTIME_ERROR << "Gfs have different data: nan in x or y"; // max ignores nan
       if (max_element(abs(x.data() - y.data())) > precision)
         TRIQS_RUNTIME_ERROR << "Gfs have different data. max(abs(x-y)) = " << max_element(abs(x.data() - y.data()));
     }
-- 
2.43.0


From 92bb0202afd41fee52ad2535e536f9b454f892cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 141/151] fix: AtomDiag failed for complex coefficients without
 imaginary part

---
 python/triqs/atom_diag/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/triqs/atom_diag/__init__.py b/python/triqs/atom_diag/__init__.py
index 86a1d99..835efbe 100644
--- a/python/triqs/atom_diag/__init__.py
+++ b/python/triqs/atom_diag/__init__.py
@@ -37,6 +37,9 @@ def AtomDiag(*args, **kwargs):
     if any(abs(term[-1].imag) > 0 for term in h):
         return AtomDiagComplex(*args, **kwargs)
     else:
+        # Complex coefficients without imaginary part are not converted to real ones by AtomDiagReal
+        if len(args) > 0: args = (h.real,) + args[1:]
+        else: kwargs['h'] = h.real
         return AtomDiagReal(*args, **kwargs)
 
 AtomDiag.__doc__ = AtomDiagReal.__doc__.replace("Lightweight exact diagonalization solver (Real)",
-- 
2.43.0


From fd998a75546fb78f63e7341a451608ca8d06dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 142/151] fix: inverting a Green function with a non-square
 target accessed memory out of bounds

---
 c++/triqs/gfs/legacy_for_python_api.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/gfs/legacy_for_python_api.hpp b/c++/triqs/gfs/legacy_for_python_api.hpp
index 86ebfbb..05615a7 100644
--- a/c++/triqs/gfs/legacy_for_python_api.hpp
+++ b/c++/triqs/gfs/legacy_for_python_api.hpp
@@ -24,6 +24,7 @@ namespace triqs {
     template <typename A> nda::matrix<nda::get_value_t<A>> make_matrix(A const &a) { return a; }
 
     template <typename A> void _gf_invert_data_in_place(A &a) {
+      if (a.shape()[A::rank - 2] != a.shape()[A::rank - 1]) TRIQS_RUNTIME_ERROR << "Can not invert a Green function whose target is not a square matrix";
       auto mesh_lengths = stdutil::mpop<2>(a.indexmap().lengths());
       nda::for_each(mesh_lengths, [&a](auto &&...i) { nda::inverse_in_place(make_matrix_view(a(i..., range::all, range::all))); });
     }
-- 
2.43.0


From e09aabd1c3c787c3e293bfa16bc72a3dcb6deb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 143/151] fix: adding a matrix of the wrong shape to a Green
 function from Python accessed memory out of bounds

---
 c++/triqs/gfs/legacy_for_python_api.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c++/triqs/gfs/legacy_for_python_api.hpp b/c++/triqs/gfs/legacy_for_python_api.hpp
index 05615a7..5055b6a 100644
--- a/c++/triqs/gfs/legacy_for_python_api.hpp
+++ b/c++/triqs/gfs/legacy_for_python_api.hpp
@@ -32,12 +32,18 @@ namespace triqs {
     // FOR LEGACY PYTHON CODE ONLY
     // THIS MUST be kept for python operations
     // specific operations (for legacy python code).
+    template <typename M> void _check_target_shape(gf_view<M> const &g, nda::matrix<std::complex<double>> const &m) {
+      if (g.target_shape() != m.shape()) TRIQS_RUNTIME_ERROR << "Can not add to or subtract from a Green function a matrix of another shape";
+    }
+
     // +=, -= with a matrix
     inline void operator+=(gf_view<imfreq> g, nda::matrix<std::complex<double>> const &m) {
+      _check_target_shape(g, m);
       for (int u = 0; u < int(first_dim(g.data())); ++u) g.data()(u, nda::ellipsis()) += m;
     }
 
     inline void operator-=(gf_view<imfreq> g, nda::matrix<std::complex<double>> const &m) {
+      _check_target_shape(g, m);
       for (int u = 0; u < int(first_dim(g.data())); ++u) g.data()(u, nda::ellipsis()) -= m;
     }
 
@@ -53,10 +59,12 @@ namespace triqs {
 
     // - same with refreq
     inline void operator+=(gf_view<refreq> g, nda::matrix<std::complex<double>> const &m) {
+      _check_target_shape(g, m);
       for (int u = 0; u < int(first_dim(g.data())); ++u) g.data()(u, nda::ellipsis()) += m;
     }
 
     inline void operator-=(gf_view<refreq> g, nda::matrix<std::complex<double>> const &m) {
+      _check_target_shape(g, m);
       for (int u = 0; u < int(first_dim(g.data())); ++u) g.data()(u, nda::ellipsis()) -= m;
     }
 
-- 
2.43.0


From 85e0ca393604d068ea85b1e09b055046df1341f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 144/151] fix: Gf.from_L_G_R with a function on another mesh
 accessed memory out of bounds

---
 python/triqs/gf/gf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 0644200..c443741 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -701,6 +701,8 @@ class Gf(metaclass=AddMethod):
         assert len(L.shape) == 2, "L needs to be two dimensional"
         assert len(R.shape) == 2, "R needs to be two dimensional"
 
+        assert self.mesh == G.mesh, "The meshes of G and self differ"
+
         assert L.shape[1] == G.target_shape[0], "Dimension mismatch between L and G"
         assert R.shape[0] == G.target_shape[1], "Dimension mismatch between G and R"
 
-- 
2.43.0


From 761882a0e6d704c01f43e287a95d14621f525e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:10 +0000
Subject: [PATCH 145/151] fix: redirect: write the output of C++ as text, and
 all of it

os.read returns bytes, which sys.stdout.write refuses: with the exception swallowed,
everything was lost. What was left in the pipe at the end was lost, too.
---
 python/triqs/utility/redirect.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/python/triqs/utility/redirect.py b/python/triqs/utility/redirect.py
index 8409818..2dee844 100644
--- a/python/triqs/utility/redirect.py
+++ b/python/triqs/utility/redirect.py
@@ -17,7 +17,7 @@
 #
 # Authors: Olivier Parcollet, Nils Wentzell
 
-import threading, time, sys, os, fcntl
+import threading, time, sys, os, fcntl, codecs
 
 __all__ = ['start_redirect', 'stop_redirect']
 
@@ -43,21 +43,35 @@ class T(threading.Thread):
     os.close(pipew)
     fcntl.fcntl(piper,fcntl.F_SETFL,os.O_NONBLOCK)
     
-    while self.go_on:
+    # a character can be cut in two by the end of the buffer
+    decoder = codecs.getincrementaldecoder('utf-8')('replace')
 
-      # give the system 1 second to fill up the pipe
-      time.sleep(1)
+    def read_out():
+      # read out the pipe and write it to the screen
+      # if the pipe was empty it return an error (hence the try-except)
+      buf, chunk = b'', b'x'
+      while chunk:
+        try:
+          chunk = os.read(piper, 10000)
+        except BlockingIOError:
+          chunk = b''
+        buf += chunk
       try:
-        # read out the pipe and write it to the screen
-        # if the pipe was empty it return an error (hence the try-except)
-        sys.stdout.write(os.read(piper, 10000))
+        sys.stdout.write(decoder.decode(buf))
         sys.stdout.flush()
-      except:
+      except Exception:
         pass
 
+    while self.go_on:
+
+      # give the system 1 second to fill up the pipe
+      time.sleep(1)
+      read_out()
+
     # when we want to stop the thread put back the c++ stdout where it was
     # clear the pipe
     os.dup2(self.oldhandle, 1)
+    read_out()
     os.close(piper)
     return
 
-- 
2.43.0


From 30274263d849f91e23ce25a60cc30a5b569bc17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:10 +0000
Subject: [PATCH 146/151] fix: redirect: stdout is redirected after
 start_redirect and back in place after stop_redirect

The thread did both at some later time: output just after the start was not
redirected, and a start soon after a stop left stdout on a closed pipe.
The copy of the handle was never closed.
---
 python/triqs/utility/redirect.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/python/triqs/utility/redirect.py b/python/triqs/utility/redirect.py
index 2dee844..89cce0d 100644
--- a/python/triqs/utility/redirect.py
+++ b/python/triqs/utility/redirect.py
@@ -31,18 +31,22 @@ class T(threading.Thread):
     # copy the c++ stdout handler for later
     self.oldhandle = os.dup(1)
 
+    # create a pipe and glue the c++ stdout to its write end
+    # make the read end non-blocking
+    self.piper, pipew = os.pipe()
+    os.dup2(pipew, 1)
+    os.close(pipew)
+    fcntl.fcntl(self.piper,fcntl.F_SETFL,os.O_NONBLOCK)
+
   def stop(self):
     self.go_on = False
+    # stdout is back in place once the thread is done
+    self.join()
 
   def run(self):
 
-    # create a pipe and glue the c++ stdout to its write end
-    # make the read end non-blocking
-    piper, pipew = os.pipe()
-    os.dup2(pipew, 1)
-    os.close(pipew)
-    fcntl.fcntl(piper,fcntl.F_SETFL,os.O_NONBLOCK)
-    
+    piper = self.piper
+
     # a character can be cut in two by the end of the buffer
     decoder = codecs.getincrementaldecoder('utf-8')('replace')
 
@@ -72,6 +76,7 @@ class T(threading.Thread):
     # clear the pipe
     os.dup2(self.oldhandle, 1)
     read_out()
+    os.close(self.oldhandle)
     os.close(piper)
     return
 
-- 
2.43.0


From ba58a8a4044aecb3086ef6dc4b1d971e7c6493b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:12 +0000
Subject: [PATCH 147/151] fix: value and copy of a mesh point of the Brillouin
 zone shared between threads

---
 c++/triqs/mesh/brzone.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index 84f510a..4ee2bdb 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -141,7 +141,10 @@ namespace triqs::mesh {
       mesh_point_t(std::array<long, 3> const &index, brzone const *m_ptr, long data_index)
          : _index(index), _m_ptr(m_ptr), _data_index(data_index), _mesh_hash(m_ptr->mesh_hash()) {}
       mesh_point_t(mesh_point_t const &mp)
-         : _index(mp._index), _m_ptr(mp._m_ptr), _data_index(mp._data_index), _mesh_hash(mp._mesh_hash), _value(mp._value) {}
+         : _index(mp._index), _m_ptr(mp._m_ptr), _data_index(mp._data_index), _mesh_hash(mp._mesh_hash) {
+        auto guard = std::lock_guard{mp.value_mutex};
+        _value     = mp._value;
+      }
 
       /// The index of the mesh point
       [[nodiscard]] mesh_t::index_t index() const { return _index; }
@@ -151,15 +154,9 @@ namespace triqs::mesh {
 
       /// The value of the mesh point
       value_t const &value() const {
-        if (_value)
-          return *_value;
-        else {
-          auto guard = std::lock_guard{value_mutex};
-          if (_value)
-            return *_value;
-          else
-            return *(_value = _m_ptr->to_value(_index));
-        }
+        auto guard = std::lock_guard{value_mutex}; // also to read: another thread may be setting the value
+        if (not _value) _value = _m_ptr->to_value(_index);
+        return *_value;
       }
 
       /// The Hash for the mesh configuration
-- 
2.43.0


From 8f16f55851e8f9adf3929552fa363ac19b29310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:12 +0000
Subject: [PATCH 148/151] fix: coordinates of a lattice point shared between
 threads

---
 c++/triqs/lattice/bravais_lattice.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/c++/triqs/lattice/bravais_lattice.hpp b/c++/triqs/lattice/bravais_lattice.hpp
index 3944728..c1d34c4 100644
--- a/c++/triqs/lattice/bravais_lattice.hpp
+++ b/c++/triqs/lattice/bravais_lattice.hpp
@@ -66,9 +66,8 @@ namespace triqs::lattice {
 
     struct point_t {
       private:
-      std::array<long, 3> _index       = {0, 0, 0};
-      bravais_lattice const *_bl_ptr   = nullptr;
-      mutable std::optional<r_t> _rval = {};
+      std::array<long, 3> _index     = {0, 0, 0};
+      bravais_lattice const *_bl_ptr = nullptr;
 
       public:
       point_t() = default;
@@ -80,12 +79,7 @@ namespace triqs::lattice {
       /// The underlying bravais lattice
       [[nodiscard]] bravais_lattice const &lattice() const { return *_bl_ptr; }
 
-      explicit operator r_t() const {
-        if (_rval)
-          return *_rval;
-        else
-          return *(_rval = _bl_ptr->lattice_to_real_coordinates(_index));
-      }
+      explicit operator r_t() const { return _bl_ptr->lattice_to_real_coordinates(_index); }
 
       [[deprecated("() is deprecated for a cyclat::mesh_point_t. Use [] instead")]] double operator()(int d) const { return r_t(*this)[d]; }
       double operator[](int d) const { return r_t(*this)[d]; }
-- 
2.43.0


From 962d1ecf9f3be2af10872f8abfe238f6ba70d7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:12 +0000
Subject: [PATCH 149/151] fix: tail fits of functions whose meshes are copies
 of each other, in several threads

---
 c++/triqs/mesh/tail_fitter.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/mesh/tail_fitter.hpp b/c++/triqs/mesh/tail_fitter.hpp
index 15ef460..9fb2cf3 100644
--- a/c++/triqs/mesh/tail_fitter.hpp
+++ b/c++/triqs/mesh/tail_fitter.hpp
@@ -18,6 +18,8 @@
 // Authors: Olivier Parcollet, Nils Wentzell
 
 #pragma once
+#include <memory>
+#include <mutex>
 #include <nda/nda.hpp>
 #include <itertools/itertools.hpp>
 #include <triqs/arrays.hpp>
@@ -76,6 +78,7 @@ namespace triqs::mesh {
     std::array<std::unique_ptr<const nda::lapack::gelss_worker_hermitian>, max_order + 1> _lss_hermitian;
     nda::matrix<dcomplex> _vander;
     std::vector<long> _fit_idx_lst;
+    std::mutex _setup_mutex; // the fitter is shared by the copies of a mesh, which can be used by several threads
 
     public:
     tail_fitter(double tail_fraction, int n_tail_max, std::optional<int> expansion_order = {})
@@ -205,7 +208,10 @@ namespace triqs::mesh {
       if (n_fixed_moments > max_order) TRIQS_RUNTIME_ERROR << "Can not fit with more than " << max_order << " known moments";
 
       auto &lss = get_lss<enforce_hermiticity>();
-      if (!bool(lss[n_fixed_moments])) setup_lss<enforce_hermiticity>(m, n_fixed_moments);
+      {
+        auto guard = std::lock_guard{_setup_mutex};
+        if (!bool(lss[n_fixed_moments])) setup_lss<enforce_hermiticity>(m, n_fixed_moments);
+      }
 
       // Total number of moments
       int n_moments = lss[n_fixed_moments]->n_var() + n_fixed_moments;
@@ -305,7 +311,7 @@ namespace triqs::mesh {
     // Adjust the parameters for the tail-fitting
     void set_tail_fit_parameters(double tail_fraction, int n_tail_max = tail_fitter::default_n_tail_max,
                                  std::optional<int> expansion_order = {}) const {
-      _tail_fitter = std::make_shared<tail_fitter>(tail_fitter{tail_fraction, n_tail_max, expansion_order});
+      _tail_fitter = std::make_shared<tail_fitter>(tail_fraction, n_tail_max, expansion_order);
     }
 
     // The tail fitter is mutable, even if the mesh is immutable to cache some data
@@ -322,7 +328,9 @@ namespace triqs::mesh {
     }
 
     private:
-    mutable std::shared_ptr<tail_fitter> _tail_fitter;
+    // made with the mesh, so that the fits of different threads do not make it at the same time
+    mutable std::shared_ptr<tail_fitter> _tail_fitter =
+       std::make_shared<tail_fitter>(tail_fitter::default_tail_fraction, tail_fitter::default_n_tail_max);
   };
 
 } // namespace triqs::mesh
-- 
2.43.0


From fe073da59acc1f94973aa2fffdb7c569c660daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:12 +0000
Subject: [PATCH 150/151] fix: Fourier transforms in several threads used the
 planner of FFTW at the same time

---
 c++/triqs/gfs/transform/fourier_common.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c++/triqs/gfs/transform/fourier_common.cpp b/c++/triqs/gfs/transform/fourier_common.cpp
index 7d63da2..8920900 100644
--- a/c++/triqs/gfs/transform/fourier_common.cpp
+++ b/c++/triqs/gfs/transform/fourier_common.cpp
@@ -19,14 +19,20 @@
 
 #include <triqs/gfs.hpp>
 #include "./fourier_common.hpp"
+#include <mutex>
 
 namespace triqs::gfs {
 
+  // Only the execution of a plan is thread-safe in FFTW
+  static std::mutex fftw_planner_mutex;
+
   void _fourier_base(array_const_view<dcomplex, 2> in, array_view<dcomplex, 2> out, int rank, int *dims, int fftw_count, int fftw_backward_forward) {
 
     auto in_fft  = reinterpret_cast<fftw_complex *>(const_cast<dcomplex *>(in.data()));
     auto out_fft = reinterpret_cast<fftw_complex *>(out.data());
 
+    auto lock = std::unique_lock{fftw_planner_mutex};
+
     auto p = fftw_plan_many_dft(rank,                        // rank
                                 dims,                        // the dimension
                                 fftw_count,                  // how many FFT : here 1
@@ -40,7 +46,9 @@ namespace triqs::gfs {
                                 1,                           // out : shift for multi fft.
                                 fftw_backward_forward, FFTW_ESTIMATE);
 
+    lock.unlock();
     fftw_execute(p);
+    lock.lock();
     fftw_destroy_plan(p);
   }
 
-- 
2.43.0


From 21b9dde6c0eb97e7fd051e6314ce694c4d393874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:12 +0000
Subject: [PATCH 151/151] fix: Pade approximants lost precision in several
 threads, and the GMP precision was not restored upon an error

---
 c++/triqs/utility/pade_approximants.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/utility/pade_approximants.hpp b/c++/triqs/utility/pade_approximants.hpp
index 3472197..81824df 100644
--- a/c++/triqs/utility/pade_approximants.hpp
+++ b/c++/triqs/utility/pade_approximants.hpp
@@ -25,6 +25,7 @@
 #include <triqs/utility/exceptions.hpp>
 #include <triqs/arrays.hpp>
 #include <gmpxx.h>
+#include <mutex>
 
 namespace triqs {
   namespace utility {
@@ -66,6 +67,15 @@ namespace triqs {
       nda::vector<dcomplex> z_in; // Input complex frequency points
       nda::vector<dcomplex> a;    // Pade coefficients
 
+      // Sets the default precision of GMP floats, which is global, and restores it. One thread at a time.
+      struct gmp_precision {
+        static inline std::mutex mtx;
+        std::lock_guard<std::mutex> guard{mtx};
+        unsigned long old_prec = mpf_get_default_prec();
+        gmp_precision(unsigned long prec) { mpf_set_default_prec(prec); }
+        ~gmp_precision() { mpf_set_default_prec(old_prec); }
+      };
+
       public:
       static const int GMP_default_prec = 256; // Precision of GMP floats to use during a Pade coefficients calculation.
 
@@ -74,8 +84,7 @@ namespace triqs {
         int N = z_in.size();
 
         // Change the default precision of GMP floats.
-        unsigned long old_prec = mpf_get_default_prec();
-        mpf_set_default_prec(GMP_default_prec); // How do we determine it?
+        gmp_precision prec{GMP_default_prec}; // How do we determine it?
 
         nda::array<gmp_complex, 2> g(N, N);
         gmp_complex MP_0 = {0.0, 0.0};
@@ -101,9 +110,6 @@ namespace triqs {
           gmp_complex gj = g(j, j);
           a(j)           = dcomplex(real(gj).get_d(), imag(gj).get_d());
         }
-
-        // Restore the precision.
-        mpf_set_default_prec(old_prec);
       }
 
       // give the value of the pade continued fraction at complex number e
-- 
2.43.0

