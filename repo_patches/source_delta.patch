From ac64211c17c1fb3fa923f66bf7bf9ca9440241cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 01/48] fix: a worker's completion signal could be lost and
 hang the run

Workers changed the count of pending threads and signalled the coordinator
without holding the mutex the coordinator checks the count under, so a signal
sent between its check and its wait was lost and the run never ended.
---
 libman/fcm_coordinator.cpp         |  1 +
 libman/gmeans_coordinator.cpp      |  1 +
 libman/gmm_coordinator.cpp         |  1 +
 libman/hclust_coordinator.cpp      |  1 +
 libman/kmeans_coordinator.cpp      |  1 +
 libman/kmeans_task_coordinator.cpp |  1 +
 libman/medoid_coordinator.cpp      |  1 +
 libman/skmeans_coordinator.cpp     |  1 +
 libman/task_thread.cpp             | 16 ++--------------
 libman/thread.cpp                  | 27 ++++++++++++++++++++++-----
 libman/thread.hpp                  | 10 ++++++++++
 libman/xmeans_coordinator.cpp      |  1 +
 12 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index f70859c..d27c5c3 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -65,6 +65,7 @@ void fcm_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, k, fuzzindex, um, centers, fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 1cfc747..276c5dc 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -67,6 +67,7 @@ void gmeans_coordinator::build_thread_state() {
                     _dist_t, cltr_active_vec, partition_dist, nearest_cdist,
                     compute_pdist));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<gmeans>(threads[thd_id])
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index d4662e4..7b44962 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -71,6 +71,7 @@ void gmm_coordinator::build_thread_state() {
         threads.push_back(gmm::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second, ncol, fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<gmm>(threads[thd_id])->set_alg_metadata(
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index f84921d..04e5fae 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -74,6 +74,7 @@ void hclust_coordinator::build_thread_state() {
                     ncol, k, hcltrs, &cluster_assignments[0], fn, _dist_t,
                     cltr_active_vec));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<hclust>(threads[thd_id])
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 6598064..a5bb5de 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -58,6 +58,7 @@ void kmeans_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 4fdac38..71d8b97 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -72,6 +72,7 @@ void kmeans_task_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<task_thread>(threads[thd_id])
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 710dca7..f8411f8 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -81,6 +81,7 @@ void medoid_coordinator::build_thread_state() {
                     ncol, cltrs, &cluster_assignments[0],
                     fn, sample_rate));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<medoid>(threads[thd_id])->set_coordinator(this);
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 55e869f..302428b 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -58,6 +58,7 @@ void skmeans_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index 410455e..acc8727 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -99,26 +99,14 @@ void task_thread::lock_sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    signal_parent();
     rc = pthread_mutex_unlock(&mutex);
     if (rc) perror("pthread_mutex_unlock");
 }
 
 // Assumes caller has lock already ... or else ...
 void task_thread::sleep() {
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    signal_parent();
 }
 
 void task_thread::wait() {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 9e2d844..007c85e 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -31,18 +31,35 @@
 
 namespace knor {
 
-void thread::sleep() {
+void thread::signal_parent() {
     int rc;
-    rc = pthread_mutex_lock(&mutex);
-    if (rc) perror("pthread_mutex_lock");
-
-    (*parent_pending_threads)--;
     set_thread_state(WAIT);
 
+    // The count must change under the lock the parent checks it with or the
+    //  signal can fall between the parent's check & its wait
+    if (parent_mutex) {
+        rc = pthread_mutex_lock(parent_mutex);
+        if (rc) perror("pthread_mutex_lock");
+    }
+
+    (*parent_pending_threads)--;
     if (*parent_pending_threads == 0) {
         rc = pthread_cond_signal(parent_cond); // Wake up parent thread
         if (rc) perror("pthread_cond_signal");
     }
+
+    if (parent_mutex) {
+        rc = pthread_mutex_unlock(parent_mutex);
+        if (rc) perror("pthread_mutex_unlock");
+    }
+}
+
+void thread::sleep() {
+    int rc;
+    rc = pthread_mutex_lock(&mutex);
+    if (rc) perror("pthread_mutex_lock");
+
+    signal_parent();
     pthread_mutex_unlock(&mutex);
 }
 
diff --git a/libman/thread.hpp b/libman/thread.hpp
index c4e5892..483194c 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -101,6 +101,7 @@ protected:
     pthread_mutexattr_t mutex_attr;
 
     pthread_cond_t* parent_cond;
+    pthread_mutex_t* parent_mutex; // Guards `parent_cond`, if there is one
     std::atomic<unsigned>* parent_pending_threads;
 
     metaunion meta;
@@ -123,6 +124,7 @@ protected:
         start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
         preallocd_data(false) {
 
+        this->parent_mutex = NULL;
         this->cluster_assignments = cluster_assignments;
         pthread_mutexattr_init(&mutex_attr);
         pthread_mutexattr_settype(&mutex_attr, PTHREAD_MUTEX_ERRORCHECK);
@@ -146,6 +148,10 @@ protected:
         this->state = state;
     }
 
+    // Tell the parent this thread is done & wake it if all threads are.
+    //  NOTE: Caller must hold this thread's lock
+    void signal_parent();
+
 public:
     typedef std::shared_ptr<thread> ptr;
 
@@ -233,6 +239,10 @@ public:
         parent_cond = cond;
     }
 
+    void set_parent_mutex(pthread_mutex_t* mutex) {
+        parent_mutex = mutex;
+    }
+
     void set_parent_pending_threads(std::atomic<unsigned>* ppt) {
         parent_pending_threads = ppt;
     }
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 19367fc..e08fcaf 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -63,6 +63,7 @@ void xmeans_coordinator::build_thread_state() {
                     _dist_t, cltr_active_vec, partition_dist, nearest_cdist,
                     compute_pdist));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<xmeans>(threads[thd_id])
-- 
2.43.0


From 365a39bcc29d214673df8f2d205defba3e03b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 02/48] fix: a worker could start a phase while wake() was
 still setting it up

The worker loop looked at the state without the lock, saw the new state and
ran with a stale task, or had its local clusters or cumulative distance reset
under it by wake(). Runs then failed the membership count assertion or gave a
wrong result.
---
 libman/thread.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libman/thread.hpp b/libman/thread.hpp
index 483194c..d7a6a39 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -66,8 +66,9 @@ void* callback(void* arg) {
 #endif
 
     while (true) { // So we can receive task after task
-        if (t->get_state() == knor::WAIT)
-            t->wait();
+        // Always take the lock here: wake() changes the state before it has
+        //  finished setting up the thread for the next phase
+        t->wait();
 
         if (t->get_state() == knor::EXIT) {// No more work to do
             break;
-- 
2.43.0


From 0992eb35332e5ae40275349ca6f27b5eb5e8d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 03/48] fix: synchronisation objects were destroyed under
 running workers

Mutexes and condition variables were destroyed before the workers waiting on
them were told to exit and joined.
---
 libman/coordinator.cpp |  4 +++-
 libman/thread.cpp      | 14 ++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index d7cfab5..a49b013 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -87,6 +87,8 @@ void coordinator::wake4run(const thread_state_t state) {
 
 void coordinator::destroy_threads() {
     wake4run(EXIT);
+    for (thread_iter it = threads.begin(); it != threads.end(); ++it)
+        (*it)->join();
 }
 
 // <Thread, within-thread-row-id>
@@ -164,10 +166,10 @@ coordinator::~coordinator() {
     for (; it != threads.end(); ++it)
         (*it)->destroy_numa_mem();
 
+    destroy_threads();
     pthread_cond_destroy(&cond);
     pthread_mutex_destroy(&mutex);
     pthread_mutexattr_destroy(&mutex_attr);
-    destroy_threads();
 }
 
 } // End namespace knor
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 007c85e..ab921f8 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -171,12 +171,6 @@ const unsigned thread::get_global_data_id(
 }
 
 thread::~thread() {
-    pthread_cond_destroy(&cond);
-    pthread_mutex_destroy(&mutex);
-    pthread_mutexattr_destroy(&mutex_attr);
-
-    if (f)
-        close_file_handle();
 #if VERBOSE
 #ifndef BIND
     printf("Thread %u being destroyed\n", thd_id);
@@ -184,5 +178,13 @@ thread::~thread() {
 #endif
     if (thd_id != INVALID_THD_ID)
         join();
+
+    // The running thread uses these so they must outlive it
+    pthread_cond_destroy(&cond);
+    pthread_mutex_destroy(&mutex);
+    pthread_mutexattr_destroy(&mutex_attr);
+
+    if (f)
+        close_file_handle();
 }
 } // End namespace knor
-- 
2.43.0


From a5d17c36c3e7c450ac74c01cdb46b118e87d2e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 04/48] fix: pruning used the wrong center movement after the
 first pass

The distance each center moved in the first pass was measured from an
all-zero previous mean, so upper bounds were wrong whenever a start center
was not near the origin and samples could be left in the wrong cluster.
---
 libauto/min-tri-kmeans.cpp         | 1 +
 libman/kmeans_task_coordinator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index ca7abe1..3f03945 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -320,6 +320,7 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
 #endif
 
     if (prune_init) {
+        cls->set_prev_means();
         cls->clear();
     } else {
         cls->set_prev_means();
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 71d8b97..7cc1d1a 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -134,6 +134,7 @@ void kmeans_task_coordinator::update_clusters(const bool prune_init) {
 #ifndef BIND
         printf("Clearing because of init ..\n");
 #endif
+        cltrs->set_prev_means();
         cltrs->clear();
     } else {
         cltrs->set_prev_means();
-- 
2.43.0


From c315c976ecfc721c673ed32381e601f5ba21b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 05/48] fix: the OpenMP engines ran one pass fewer than asked
 for

With a limit of one pass compute_kmeans returned without assigning any
sample (every id was INVALID_CLUSTER_ID).
---
 libauto/kmeans.cpp         | 2 +-
 libauto/min-tri-kmeans.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 576d270..d9e10aa 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -397,7 +397,7 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter++;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         if (iter == 1)
             std::fill(cluster_assignments,
                     (cluster_assignments)+NUM_ROWS,
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 3f03945..037a05c 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -512,7 +512,7 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter = 2;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         // Hold cluster assignment counter
 #ifndef BIND
         printf("E-step Iteration %lu "
-- 
2.43.0


From 072ea704aeb09c9d27753cad60233d947d38081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 06/48] fix: reported iterations exceeded the passes performed

Runs that stopped at the iteration limit reported one pass too many, and a
converged mini-batch run one too few.
---
 libauto/kmeans.cpp                 | 4 ++++
 libauto/min-tri-kmeans.cpp         | 4 ++++
 libman/fcm_coordinator.cpp         | 4 ++++
 libman/kmeans_coordinator.cpp      | 4 ++++
 libman/kmeans_task_coordinator.cpp | 5 +++++
 libman/medoid_coordinator.cpp      | 4 ++++
 libman/skmeans_coordinator.cpp     | 4 ++++
 7 files changed, 29 insertions(+)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index d9e10aa..206d89e 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -25,6 +25,7 @@
 #include <omp.h>
 #endif
 
+#include <algorithm>
 #include <vector>
 
 #include "kmeans.hpp"
@@ -432,6 +433,9 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
         iter++;
     }
 
+    // The loop counter is one past the last pass unless it stopped early
+    iter = std::min<size_t>(iter, MAX_ITERS);
+
     gettimeofday(&end, NULL);
 #ifndef BIND
     printf("\n\nAlgorithmic time taken = %.5f sec\n",
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 037a05c..62aff85 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -24,6 +24,7 @@
 #ifdef _OPENMP
 #include <omp.h>
 #endif
+#include <algorithm>
 #include <cassert>
 
 #include "kmeans.hpp"
@@ -558,6 +559,9 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
         iter++;
     }
 
+    // The loop counter is one past the last pass unless it stopped early
+    iter = std::min<size_t>(iter, MAX_ITERS);
+
     gettimeofday(&end, NULL);
 #ifndef BIND
     printf("\n\nAlgorithmic time taken = %.5f sec\n",
diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index d27c5c3..44a1142 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -17,6 +17,7 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <random>
 #include <stdexcept>
 
@@ -195,6 +196,9 @@ base::cluster_t fcm_coordinator::run(double* allocd_data,
         delete (diff);
         iter++;
     }
+    // The loop counter is one past the last pass unless it stopped early
+    iter = std::min<size_t>(iter, max_iters);
+
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index a5bb5de..b35802b 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -17,6 +17,7 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <random>
 #include <stdexcept>
 
@@ -209,6 +210,9 @@ kbase::cluster_t kmeans_coordinator::run(
         }
         iter++;
     }
+    // The loop counter is one past the last pass unless it stopped early
+    iter = std::min<size_t>(iter, max_iters);
+
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 7cc1d1a..6ca216b 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -17,6 +17,7 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "kmeans_task_coordinator.hpp"
@@ -375,6 +376,7 @@ kbase::cluster_t kmeans_task_coordinator::mb_run(double* allocd_data) {
 
         if (frob_norm < tolerance) {
             converged = true;
+            iter++; // Count this pass
             break;
         }
     }
@@ -499,6 +501,9 @@ kbase::cluster_t kmeans_task_coordinator::run(
     if (iter == 0 && _init_t == kbase::init_t::PLUSPLUS)
         tally_assignment_counts();
 
+    // The loop counter is one past the last pass unless it stopped early
+    iter = std::min<size_t>(iter, max_iters);
+
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index f8411f8..b1a2d34 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -17,6 +17,7 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <random>
 #include <stdexcept>
 
@@ -265,6 +266,9 @@ kbase::cluster_t medoid_coordinator::run(
         }
         iter++;
     }
+    // The loop counter is one past the last pass unless it stopped early
+    iter = std::min<size_t>(iter, max_iters);
+
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 302428b..cdd5bd0 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -17,6 +17,7 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <random>
 #include <stdexcept>
 
@@ -247,6 +248,9 @@ kbase::cluster_t skmeans_coordinator::run(
         }
         iter++;
     }
+    // The loop counter is one past the last pass unless it stopped early
+    iter = std::min<size_t>(iter, max_iters);
+
 #ifdef PROFILER
     ProfilerStop();
 #endif
-- 
2.43.0


From 6a7ee70e5381e68a2b0ae973f642e7447df89a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 07/48] fix: the adjoint never alternated signs, so inverses
 were wrong

A matrix times the inverse computed for it was not the identity for any
size above one.
---
 libkcommon/linalg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index e817b00..ce70022 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -113,6 +113,7 @@ namespace knor { namespace base {
                     // and column indexes is even.
                     // Interchanging rows and columns to get the
                     // transpose of the cofactor matrix
+                    sign = ((i+j) % 2 == 0) ? 1 : -1;
                     adj[j*N+i] = (sign)*(determinant(&temp[0], N-1, N));
                 }
             }
-- 
2.43.0


From 4ae0ac7f49fc164aae8a1b3c7fc332c81d7218c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 08/48] fix: scale truncated its mean and aborted on constant
 vectors

The sum was accumulated in an int, so the result was not centered, and
g-means aborted when all projections of a group were equal.
---
 libkcommon/linalg.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index ce70022..6211c28 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -196,7 +196,7 @@ namespace knor { namespace base {
           */
         static void scale(double* v, const size_t sz) {
             // Compute mean
-            double sum = std::accumulate(v, v+sz, 0);
+            double sum = std::accumulate(v, v+sz, 0.0);
             double mean = sum / static_cast<double>(sz);
 
             // Compute std dev
@@ -207,7 +207,9 @@ namespace knor { namespace base {
             }
             stddev = std::sqrt(stddev / static_cast<double>(sz));
 
-            assert(stddev);
+            if (stddev == 0) // Constant vector: as sklearn, only center it
+                stddev = 1;
+
             // Subtract the mean, then divide by the stddev
             for (size_t i = 0; i < sz; i++) {
                 v[i] = ((v[i] - mean) / stddev);
-- 
2.43.0


From a2345e84ceb567eca657e3df1fef9af4f7037b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 09/48] fix: vector helpers ignored or overran a result vector
 that was not empty

---
 libkcommon/linalg.hpp         | 19 +++++++------------
 libman/gmeans_coordinator.cpp |  7 +++----
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 6211c28..900da96 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -143,7 +143,7 @@ namespace knor { namespace base {
 
         static void vdiff(const double* left, const double* right,
                 const size_t size, std::vector<double>& res) {
-            if (!res.size()) res.resize(size);
+            res.resize(size);
 
             for (size_t i = 0; i < size; i++)
                 res[i] = left[i] - right[i];
@@ -218,21 +218,16 @@ namespace knor { namespace base {
 
         static void scale(std::vector<double>& v, double factor,
                 std::vector<double>& res) {
-            if (res.size() == 0) {
-                for (auto const& val : v)
-                    res.push_back(val*factor);
-            } else {
-                for (size_t i = 0; i < v.size(); i++)
-                    res[i] = v[i]*factor;
-            }
+            res.resize(v.size());
+            for (size_t i = 0; i < v.size(); i++)
+                res[i] = v[i]*factor;
         }
 
         static void pow(std::vector<double>& v,
                 std::vector<double>& res, double exp) {
-            if (!res.size()) {
-                for (double el : v)
-                    res.push_back(std::pow(el, exp));
-            }
+            res.resize(v.size());
+            for (size_t i = 0; i < v.size(); i++)
+                res[i] = std::pow(v[i], exp);
         }
     };
 } } // End namespace knor::base
diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 276c5dc..f5988c8 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -183,12 +183,11 @@ void gmeans_coordinator::compute_cluster_diffs() {
     while (itr.has_next()) {
         auto kv = itr.next();
         auto c = std::static_pointer_cast<base::h_clusters>(kv.second);
-        c->metadata.resize(ncol+1); // +1th index stores the divisor
 
         // Compute difference
-        for (size_t i = 0; i < ncol; i++)
-            base::linalg::vdiff(c->get_mean_rawptr(0),
-                    c->get_mean_rawptr(1), ncol, c->metadata);
+        base::linalg::vdiff(c->get_mean_rawptr(0),
+                c->get_mean_rawptr(1), ncol, c->metadata);
+        c->metadata.resize(ncol+1); // +1th index stores the divisor
 
         // Compute v.dot(v)
         c->metadata[ncol] = base::linalg::dot(&c->metadata[0],
-- 
2.43.0


From 184fe49f08a0c493a5746bb48822ded5f8bee56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 10/48] fix: argmax returned index 0 when every value was
 negative

---
 libkcommon/dense_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index 7629f76..e905ac8 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -356,7 +356,7 @@ public:
         // axis = 1: row wise
         if (axis == 0) {
             idx.assign(nrow, 0);
-            vals.assign(nrow, std::numeric_limits<double>::min());
+            vals.assign(nrow, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
@@ -370,7 +370,7 @@ public:
         // axis = 0: col wise
         } else if (axis == 1) {
             idx.assign(ncol, 0);
-            vals.assign(ncol, std::numeric_limits<double>::min());
+            vals.assign(ncol, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
-- 
2.43.0


From 7f172834c988b9988bf5217e4084c070e9c5f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 11/48] fix: min-max scaling used a wrong maximum for columns
 without positive values

---
 libman/skmeans.cpp             | 2 +-
 libman/skmeans_coordinator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index b87ed79..e782891 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -34,7 +34,7 @@ namespace knor {
                 cluster_assignments, fn, dist_metric) {
 
             min_feature_val.assign(ncol, std::numeric_limits<double>::max());
-            max_feature_val.assign(ncol, std::numeric_limits<double>::min());
+            max_feature_val.assign(ncol, std::numeric_limits<double>::lowest());
         }
 
     // Min & Max of all features
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index cdd5bd0..faf8802 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -66,7 +66,7 @@ void skmeans_coordinator::build_thread_state() {
 }
 
 void skmeans_coordinator::bounds_reduction() {
-    g_feature_max.assign(ncol, std::numeric_limits<double>::min());
+    g_feature_max.assign(ncol, std::numeric_limits<double>::lowest());
     g_feature_min.assign(ncol, std::numeric_limits<double>::max());
 
     for (auto const& th : threads) {
-- 
2.43.0


From 72c0f9f293cc91854aa82c322642794652444bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 12/48] fix: min-max scaling turned constant columns into NaN
 and aborted

---
 libman/skmeans.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index e782891..c7cae34 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -54,9 +54,10 @@ namespace knor {
        // NOTE: Only use AFTER feature_bounds_reduction AND coordinator reduce
         for (unsigned row = 0; row < nprocrows; row++) {
             for (unsigned col = 0; col < ncol; col++) {
-                local_data[row*ncol+col] =
-                    (local_data[row*ncol+col] - min_feature_val[col])/
-                    (max_feature_val[col] - min_feature_val[col]);
+                const double range = max_feature_val[col] - min_feature_val[col];
+                local_data[row*ncol+col] -= min_feature_val[col];
+                if (range > 0) // Constant columns scale to 0
+                    local_data[row*ncol+col] /= range;
             }
         }
     }
-- 
2.43.0


From 9debc69f177f1ce40f61a121848b8ed12202c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 13/48] fix: k-medoids ignored the requested metric and always
 used eucl

---
 libman/medoid.cpp             | 6 ++++--
 libman/medoid.hpp             | 8 +++++---
 libman/medoid_coordinator.cpp | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index 7d6e34f..13480a3 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -32,8 +32,10 @@ medoid::medoid(const int node_id, const unsigned thd_id,
         const unsigned start_rid,
         const unsigned nprocrows, const unsigned ncol,
         kbase::clusters::ptr g_clusters, unsigned* cluster_assignments,
-        const std::string fn, const double sample_rate):
-            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn),
+        const std::string fn, const double sample_rate,
+        kbase::dist_t dist_metric):
+            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn,
+                    dist_metric),
             g_clusters(g_clusters), nprocrows(nprocrows),
             sample_rate(sample_rate) {
 
diff --git a/libman/medoid.hpp b/libman/medoid.hpp
index f1a66b5..64e528a 100644
--- a/libman/medoid.hpp
+++ b/libman/medoid.hpp
@@ -54,7 +54,8 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments,
-                const std::string fn, const double sample_rate);
+                const std::string fn, const double sample_rate,
+                kbase::dist_t dist_metric=kbase::dist_t::EUCL);
     public:
         static thread::ptr create(
                 const int node_id, const unsigned thd_id,
@@ -62,11 +63,12 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments, const std::string fn,
-                const double sample_rate) {
+                const double sample_rate,
+                kbase::dist_t dist_metric=kbase::dist_t::EUCL) {
             return thread::ptr(
                     new medoid(node_id, thd_id, start_rid,
                         nprocrows, ncol, g_clusters,
-                        cluster_assignments, fn, sample_rate));
+                        cluster_assignments, fn, sample_rate, dist_metric));
         }
 
         void start(const thread_state_t state) override;
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index b1a2d34..751c974 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -80,7 +80,7 @@ void medoid_coordinator::build_thread_state() {
         threads.push_back(medoid::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0],
-                    fn, sample_rate));
+                    fn, sample_rate, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
-- 
2.43.0


From 14fd3aac5f6ff2efed50bdbdc13f92f7096e48a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 14/48] fix: fuzzy c-means gave a sample no membership in the
 center it coincides with

---
 libman/fcm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index f8acfb4..4f5fd28 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -50,7 +50,9 @@ void fcm::Estep() {
                 um->set(cid, true_rid,
                         std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
             } else {
-                um->set(cid, true_rid, 2.2E-16);
+                // The sample is at the center: as close as can be
+                um->set(cid, true_rid,
+                        std::pow((1.0 / 2.2E-16), (1.0 / (fuzzindex-1))));
             }
         }
     }
-- 
2.43.0


From cf49396b6e0f5af7519ee79cca7a36562e23c99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 15/48] fix: hierarchical routines lost count of their clusters
 and exceeded the limit

---
 libman/gmeans_coordinator.cpp |  4 +---
 libman/hclust_coordinator.cpp | 16 +++++++++++-----
 libman/hclust_coordinator.hpp |  5 +++--
 libman/xmeans_coordinator.cpp |  1 +
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index f5988c8..dd723c8 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -50,8 +50,6 @@ void gmeans_coordinator::deactivate(const unsigned id) {
 
 void gmeans_coordinator::activate(const unsigned id) {
     cltr_active_vec->check_set(id, true);
-    if (id > 0)
-        curr_nclust++;
 }
 
 void gmeans_coordinator::build_thread_state() {
@@ -152,7 +150,7 @@ void gmeans_coordinator::partition_decision() {
             // We can reuse these children ids
             ider->reclaim_id(lid);
             ider->reclaim_id(rid);
-            curr_nclust -= 2;
+            curr_nclust--;
 
             final_centroids[pid] = std::vector<double>(
                     cltrs->get_mean_rawptr(pid),
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 04e5fae..8d49c81 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -155,6 +155,7 @@ void hclust_coordinator::forgy_init() {
                 rand_idx), 1);
     cluster_ptr->set_oneid(splits.second);
     activate(splits.second);
+    curr_nclust = 2;
 }
 
 void hclust_coordinator::none_init() {
@@ -166,6 +167,7 @@ void hclust_coordinator::none_init() {
 
     cluster_ptr->set_oneid(splits.second);
     activate(splits.second);
+    curr_nclust = 2;
 }
 
 void hclust_coordinator::run_hinit() {
@@ -208,9 +210,12 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         bool l0_complete, l1_complete, r0_complete, r1_complete;
         l0_complete = l1_complete = r0_complete = r1_complete = false;
 
+        // Splitting zeroid takes up one of the clusters left
+        bool cap_reached = at_cluster_cap();
+
         // Min cluster deactivation
         if (cluster_assignment_counts[zeroid] < min_clust_size
-                || at_cluster_cap()) {
+                || cap_reached) {
             deactivate(zeroid); // So we no longer process this
             // Record this as an output
             final_centroids[zeroid] = std::vector<double>(
@@ -218,10 +223,12 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
                     hcltrs[id]->get_mean_rawptr(0) + ncol);
             // Don't split
             l0_complete = l1_complete = true;
+        } else {
+            cap_reached = curr_nclust + 1 >= k*2;
         }
 
         if (cluster_assignment_counts[oneid] < min_clust_size
-                || at_cluster_cap()) {
+                || cap_reached) {
             deactivate(oneid);
             final_centroids[oneid] = std::vector<double>(
                     hcltrs[id]->get_mean_rawptr(1),
@@ -280,6 +287,7 @@ void hclust_coordinator::spawn(const unsigned& zeroid,
         hcltrs[zeroid]->set_mean(get_thd_data(cp.l1), 1);
         activate(zero_child_ids.first);
         activate(zero_child_ids.second);
+        curr_nclust++; // One cluster became two
     }
 
     if (cp.r_splittable()) {
@@ -290,6 +298,7 @@ void hclust_coordinator::spawn(const unsigned& zeroid,
         hcltrs[oneid]->set_mean(get_thd_data(cp.r1), 1);
         activate(one_child_ids.first);
         activate(one_child_ids.second);
+        curr_nclust++;
     }
 }
 
@@ -302,7 +311,6 @@ void hclust_coordinator::init_splits() {
         hcltrs.erase(id); // Delete
         deactivate(id);
         ider->reclaim_id(id);
-        curr_nclust--;
     }
 
     // Update partition ID
@@ -324,8 +332,6 @@ void hclust_coordinator::deactivate(const unsigned id) {
 
 void hclust_coordinator::activate(const unsigned id) {
     cltr_active_vec->set(id, true);
-    if (id > 0)
-        curr_nclust++;
 }
 
 const bool hclust_coordinator::is_active(const unsigned id) const {
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 2af46fe..819a4af 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -82,7 +82,8 @@ class hclust_coordinator : public coordinator {
         std::shared_ptr<hclust_id_generator> ider;
         unsigned min_clust_size;
         std::unordered_map<unsigned, std::vector<double>> final_centroids;
-        size_t curr_nclust;
+        size_t curr_nclust; // The clusters that exist, those being split
+                            //  count as the two they are split into
     public:
         hclust_coordinator(const std::string fn, const size_t nrow,
                 const size_t ncol, const unsigned k, const unsigned max_iters,
@@ -143,7 +144,7 @@ class hclust_coordinator : public coordinator {
         virtual const bool steady_state() const;
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
-        virtual bool at_cluster_cap() { return curr_nclust > k*2; }
+        virtual bool at_cluster_cap() { return curr_nclust >= k*2; }
         void verify_consistency();
 };
 }
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index e08fcaf..88b1c15 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -227,6 +227,7 @@ void xmeans_coordinator::partition_decision() {
             {
                 ider->reclaim_id(score.lid);
                 ider->reclaim_id(score.rid);
+                curr_nclust--;
                 final_centroids[score.pid] = std::vector<double>(
                         cltrs->get_mean_rawptr(score.pid),
                         cltrs->get_mean_rawptr(score.pid) + ncol);
-- 
2.43.0


From 8ffedc1ff9703b9f239d6572c6bb5f4e5e4440c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 16/48] fix: a split with an empty or one-member child broke
 hierarchical clustering

---
 libman/hclust_coordinator.cpp | 36 +++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 8d49c81..6b64953 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -17,6 +17,7 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <random>
 #include <stdexcept>
 
@@ -200,6 +201,9 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
     std::vector<size_t> ids;
     hcltrs.get_keys(ids);
 
+    // Fewer than two members can never be split
+    const llong_t min_split_size = std::max(min_clust_size, 2U);
+
     // Early termination so we do not overcluster
     for (auto const& id : ids) {
         auto zeroid = hcltrs[id]->get_zeroid();
@@ -214,25 +218,27 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         bool cap_reached = at_cluster_cap();
 
         // Min cluster deactivation
-        if (cluster_assignment_counts[zeroid] < min_clust_size
+        if (cluster_assignment_counts[zeroid] < min_split_size
                 || cap_reached) {
             deactivate(zeroid); // So we no longer process this
             // Record this as an output
-            final_centroids[zeroid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(0),
-                    hcltrs[id]->get_mean_rawptr(0) + ncol);
+            if (cluster_assignment_counts[zeroid] > 0)
+                final_centroids[zeroid] = std::vector<double>(
+                        hcltrs[id]->get_mean_rawptr(0),
+                        hcltrs[id]->get_mean_rawptr(0) + ncol);
             // Don't split
             l0_complete = l1_complete = true;
         } else {
             cap_reached = curr_nclust + 1 >= k*2;
         }
 
-        if (cluster_assignment_counts[oneid] < min_clust_size
+        if (cluster_assignment_counts[oneid] < min_split_size
                 || cap_reached) {
             deactivate(oneid);
-            final_centroids[oneid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(1),
-                    hcltrs[id]->get_mean_rawptr(1) + ncol);
+            if (cluster_assignment_counts[oneid] > 0)
+                final_centroids[oneid] = std::vector<double>(
+                        hcltrs[id]->get_mean_rawptr(1),
+                        hcltrs[id]->get_mean_rawptr(1) + ncol);
             // Don't split
             r0_complete = r1_complete = true;
         }
@@ -418,12 +424,14 @@ void hclust_coordinator::complete_final_centroids() {
     auto itr = hcltrs.get_iterator();
     while (itr.has_next()) {
         auto const& c = itr.next().second;
-        final_centroids[c->get_zeroid()] =
-            std::vector<double>(c->get_mean_rawptr(0),
-                    c->get_mean_rawptr(0) + ncol);
-        final_centroids[c->get_oneid()] =
-            std::vector<double>(c->get_mean_rawptr(1),
-                    c->get_mean_rawptr(1) + ncol);
+        if (cluster_assignment_counts[c->get_zeroid()] > 0)
+            final_centroids[c->get_zeroid()] =
+                std::vector<double>(c->get_mean_rawptr(0),
+                        c->get_mean_rawptr(0) + ncol);
+        if (cluster_assignment_counts[c->get_oneid()] > 0)
+            final_centroids[c->get_oneid()] =
+                std::vector<double>(c->get_mean_rawptr(1),
+                        c->get_mean_rawptr(1) + ncol);
     }
 }
 
-- 
2.43.0


From 9b3a28e07282255c2e229763c394e41eac2db5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 17/48] fix: partition means mixed in members of earlier
 partitions with the same id

---
 libman/xmeans_coordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 88b1c15..f98e227 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -74,7 +74,7 @@ void xmeans_coordinator::build_thread_state() {
 }
 
 void xmeans_coordinator::combine_partition_means() {
-    cltrs->unfinalize_all();
+    cltrs->clear(); // Ids are reused, so drop what earlier rounds left
 
     for (auto const& th : threads) {
         auto thd_lcltrs = th->get_local_clusters();
-- 
2.43.0


From d5d0dce69484e0e8b0cb52e071d454b122d76685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 18/48] fix: threads inserted into the member lists
 concurrently for empty children

---
 libman/xmeans_coordinator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index f98e227..d9cebf6 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -168,6 +168,11 @@ void xmeans_coordinator::compute_bic_scores(
     // TODO: Slow
     // Creates structures to hold cluster membership
     accumulate(cluster_assignments, memb_cltrs);
+    // A child may be empty, but no key may be added in parallel
+    for (auto const& score : bic_scores) {
+        memb_cltrs[score.lid];
+        memb_cltrs[score.rid];
+    }
 
     // Computes the bic scores for each parent, child combo
 #ifdef _OPENMP
-- 
2.43.0


From 8f335fff65290253d4fda8824bd61cf0dce2bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 19/48] fix: x-means scored each child with its parent's number
 of members

---
 libman/xmeans_coordinator.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index d9cebf6..b5c45ba 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -131,18 +131,16 @@ void xmeans_coordinator::bic(split_score_t& score,
         double p = (cK - 1) + ncol * cK + 1;
 
         /* splitting criterion */
-        double nl = cluster_assignment_counts[score.lid];
-        double L = N * std::log(N) - nl * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5 - N * ncol *
-            std::log(csigma) * .5 - (N - cK) * .5;
-
-        score.cscore = L - p * 0.5 * std::log(N);
-
-        double nr = cluster_assignment_counts[score.rid];
-        L = N * std::log(N) - nr * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5- N * ncol *
-            std::log(csigma) * .5 - (N - cK) * .5;
-        score.cscore += L - p * .5 * std::log(N);
+        /* each child counts with its own number of members */
+        score.cscore = 0;
+        for (const double n : { (double)cluster_assignment_counts[score.lid],
+                (double)cluster_assignment_counts[score.rid] }) {
+            double L = n * std::log(n) - n * std::log(N) - n *
+                std::log(2.0 * M_PI) * .5 - n * ncol *
+                std::log(csigma) * .5 - (n - cK) * .5;
+
+            score.cscore += L - p * .5 * std::log(N);
+        }
     }
 }
 
-- 
2.43.0


From fb77deaa24d1ab50e59b72ff2f88ab43abe0e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 20/48] fix: x-means took euclidean distances for squared ones
 in its score

---
 libman/xmeans_coordinator.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index b5c45ba..009a0f7 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -102,14 +102,16 @@ void xmeans_coordinator::bic(split_score_t& score,
     double psigma = 0;
     double csigma = 0;
 
-    for (auto const& idx : memb_cltrs[score.lid]) {
-            psigma += partition_dist[idx];
-            csigma += nearest_cdist[idx];
-    }
-
-    for (auto const& idx : memb_cltrs[score.rid]) {
-            psigma += partition_dist[idx];
-            csigma += nearest_cdist[idx];
+    // The score takes the variance, i.e., squared euclidean distances
+    const bool square = _dist_t == base::dist_t::EUCL;
+
+    for (auto const& id : { score.lid, score.rid }) {
+        for (auto const& idx : memb_cltrs[id]) {
+            psigma += square ? partition_dist[idx]*partition_dist[idx] :
+                partition_dist[idx];
+            csigma += square ? nearest_cdist[idx]*nearest_cdist[idx] :
+                nearest_cdist[idx];
+        }
     }
 
     // Parent
-- 
2.43.0


From 93526f56c6205eed7aa42778aec787a49f7d25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 21/48] fix: x-means kept splits whose children had no score

---
 libman/xmeans_coordinator.cpp | 7 ++++---
 libman/xmeans_coordinator.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 009a0f7..8268644 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -197,10 +197,11 @@ void xmeans_coordinator::partition_decision() {
 #endif
     for (size_t i = 0; i < bic_scores.size(); i++) {
         auto score = bic_scores[i];
-        if (score.pscore > score.cscore) {
+        // NOTE: Also false when the children have no score, e.g., one is empty
+        if (!(score.cscore > score.pscore)) {
 #ifndef BIND
 #if VERBOSE
-            printf("\nPart: %u will NOT split! pscore: %.4f > cscore: %.4f\n",
+            printf("\nPart: %u will NOT split! pscore: %.4f >= cscore: %.4f\n",
                     score.pid, score.pscore, score.cscore);
 #endif
 #endif
@@ -240,7 +241,7 @@ void xmeans_coordinator::partition_decision() {
         } else {
 #ifndef BIND
 #if VERBOSE
-            printf("\nPart: %u will split! pscore: %.4f <= cscore: %.4f\n",
+            printf("\nPart: %u will split! pscore: %.4f < cscore: %.4f\n",
                     score.pid, score.pscore, score.cscore);
 #endif
 #endif
diff --git a/libman/xmeans_coordinator.hpp b/libman/xmeans_coordinator.hpp
index 58cfc69..04c5f43 100644
--- a/libman/xmeans_coordinator.hpp
+++ b/libman/xmeans_coordinator.hpp
@@ -37,13 +37,13 @@ struct split_score_t {
 
     split_score_t(const unsigned pid, const unsigned lid, const unsigned rid) :
         pid(pid), lid(lid), rid(rid),
-        pscore(std::numeric_limits<double>::min()),
-        cscore(std::numeric_limits<double>::min()) {
+        pscore(std::numeric_limits<double>::lowest()),
+        cscore(std::numeric_limits<double>::lowest()) {
         }
 
     split_score_t() :
-        pscore(std::numeric_limits<double>::min()),
-        cscore(std::numeric_limits<double>::min()) {
+        pscore(std::numeric_limits<double>::lowest()),
+        cscore(std::numeric_limits<double>::lowest()) {
         }
 };
 
-- 
2.43.0


From f73a4bd419b9db7d2b1917c6192adbdb900ebe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 22/48] fix: g-means took critical values for the number of
 partitions, not of samples

---
 libman/gmeans_coordinator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index dd723c8..a33fc9e 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -108,7 +108,6 @@ void gmeans_coordinator::partition_decision() {
     // Each Anderson Darling (AD) vector represents the vector for which
     //  each cluster gets its AD statistic.
     std::unordered_map<unsigned, std::vector<double>> ad_vecs;
-    std::vector<double> critical_values;
 
     // Populate the AD vectors
     assemble_ad_vecs(ad_vecs);
@@ -117,10 +116,6 @@ void gmeans_coordinator::partition_decision() {
         base::linalg::scale(&(kv.second)[0], kv.second.size());
     }
 
-    // Compute Critical values
-    base::AndersonDarling::compute_critical_values(
-            ad_vecs.size(), critical_values);
-
     // Compute AD statistics
     compute_ad_stats(ad_vecs);
 
@@ -136,6 +131,11 @@ void gmeans_coordinator::partition_decision() {
         unsigned pid = keys[i];
         auto score = ad_vecs[pid].back();
 
+        // Compute Critical values for the members, without the score
+        std::vector<double> critical_values;
+        base::AndersonDarling::compute_critical_values(
+                ad_vecs[pid].size() - 1, critical_values);
+
         if (score <= critical_values[strictness]) {
             unsigned lid = hcltrs[pid]->get_zeroid();
             unsigned rid = hcltrs[pid]->get_oneid();
-- 
2.43.0


From 1da5f01cb04e5f4d61fc93a1ae38fda90351d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 23/48] fix: g-means tested degenerate groups with NaN
 statistics and critical values

---
 libman/gmeans.cpp             | 3 ++-
 libman/gmeans_coordinator.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/libman/gmeans.cpp b/libman/gmeans.cpp
index 628bdd7..eec1a97 100644
--- a/libman/gmeans.cpp
+++ b/libman/gmeans.cpp
@@ -54,7 +54,8 @@ void gmeans::H_split_step() {
         for (size_t col = 0; col < ncol; col++)
             dotprod += local_data[offset+col] * v[col];
 
-        nearest_cdist[true_row_id] = dotprod/v[ncol];
+        // NOTE: Children at the same place have no line to project on
+        nearest_cdist[true_row_id] = v[ncol] > 0 ? dotprod/v[ncol] : 0;
     }
 }
 
diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index a33fc9e..9f2da8b 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -78,7 +78,8 @@ void gmeans_coordinator::build_thread_state() {
 void gmeans_coordinator::assemble_ad_vecs(std::unordered_map<unsigned,
         std::vector<double>>& ad_vecs) {
     for (size_t i = 0; i < nearest_cdist.size(); i++) {
-        ad_vecs[part_id[i]].push_back(nearest_cdist[i]);
+        if (hcltrs.has_key(part_id[i])) // Else it is not being split
+            ad_vecs[part_id[i]].push_back(nearest_cdist[i]);
     }
 }
 
@@ -136,7 +137,9 @@ void gmeans_coordinator::partition_decision() {
         base::AndersonDarling::compute_critical_values(
                 ad_vecs[pid].size() - 1, critical_values);
 
-        if (score <= critical_values[strictness]) {
+        // Too few members or no spread is no evidence against normality
+        const double critical_value = critical_values[strictness];
+        if (critical_value <= 0 || !(score > critical_value)) {
             unsigned lid = hcltrs[pid]->get_zeroid();
             unsigned rid = hcltrs[pid]->get_oneid();
 
-- 
2.43.0


From 2379843b1f5bf70e94e8b987faf26ed5f38a994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 24/48] fix: the normality statistic was infinite for samples
 over 8 sigma away

---
 libkcommon/AndersonDarling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/AndersonDarling.hpp b/libkcommon/AndersonDarling.hpp
index d9d93b9..9e3a561 100644
--- a/libkcommon/AndersonDarling.hpp
+++ b/libkcommon/AndersonDarling.hpp
@@ -66,7 +66,7 @@ public:
 		double A = -((long)n);
 		for (size_t i = 0; i < n; i++) {
 			A +=  -1.0 / static_cast<double>(n) *(2*(i + 1) - 1) *
-				(std::log(phi(Y[i])) + std::log(1 - phi(Y[n - 1 - i])));
+				(std::log(phi(Y[i])) + std::log(phi(-Y[n - 1 - i])));
 		}
 
 		return A;
-- 
2.43.0


From 1b18d10468f111197899ff4140dc396e55c48238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 25/48] fix: check_set wrote past the end when the index was
 the size

---
 libkcommon/thd_safe_bool_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/thd_safe_bool_vector.cpp b/libkcommon/thd_safe_bool_vector.cpp
index bcce2b7..5d11d9e 100644
--- a/libkcommon/thd_safe_bool_vector.cpp
+++ b/libkcommon/thd_safe_bool_vector.cpp
@@ -52,7 +52,7 @@ void thd_safe_bool_vector::set(const size_t idx, const bool val) {
 }
 
 void thd_safe_bool_vector::check_set(const size_t idx, const bool val) {
-    if (idx > size())
+    if (idx >= size())
         resize(idx+1);
 
     if (val) {
-- 
2.43.0


From 496ce287888516adc51726d4f860e414dad73cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 26/48] fix: merging into fewer sparse clusters grew to the
 length of the means

---
 libkcommon/clusters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/clusters.cpp b/libkcommon/clusters.cpp
index 5514135..cba48a2 100644
--- a/libkcommon/clusters.cpp
+++ b/libkcommon/clusters.cpp
@@ -259,7 +259,7 @@ const void sparse_clusters::print_means() const  {
 
 void sparse_clusters::peq(ptr rhs) {
     if (rhs->size() > size())
-        resize(rhs->size()); // NOTE: should be -1., but ok
+        resize(rhs->get_nclust() - 1); // Takes the last index
 
     for (unsigned i = 0; i < rhs->size(); i++) // NOTE: rhs could be smaller
         this->means[i] += rhs->get(i);
-- 
2.43.0


From 2f3baa5abe41412c7c51fd228bf0925e1073a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 27/48] fix: pruned k-means kept the tie-breaks of its
 k-means++ initialisation

---
 libman/kmeans_task_coordinator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 6ca216b..4c170ad 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -456,6 +456,9 @@ kbase::cluster_t kmeans_task_coordinator::run(
 #ifndef BIND
         printf("Running init engine:\n");
 #endif
+        // Assign every row anew, k-means++ resolves ties its own way
+        std::fill(dist_v.begin(), dist_v.end(),
+                std::numeric_limits<double>::max());
         wake4run(EM);
         wait4complete();
         update_clusters(true);
-- 
2.43.0


From 4c4d950b24e13437789b7d87dcd0b7f6648a51a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 28/48] fix: k-means++ restarts used the assignments vector
 after emptying it

---
 libman/kmeans_task_coordinator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 4c170ad..5282b1f 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -305,7 +305,8 @@ double kmeans_task_coordinator::compute_cluster_energy() {
 
 void kmeans_task_coordinator::reinit() {
     std::fill(&dist_v[0], &dist_v[nrow], std::numeric_limits<double>::max());
-    cluster_assignments.clear();
+    std::fill(cluster_assignments.begin(), cluster_assignments.end(),
+            kbase::INVALID_CLUSTER_ID);
     cluster_assignment_counts.assign(k, 0);
     cltrs->clear();
     run_init();
-- 
2.43.0


From 09b1a23451d38cb74fbcf08751da73ac09fc67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 29/48] fix: assigning clusters left the finalized flags behind

---
 libkcommon/clusters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libkcommon/clusters.cpp b/libkcommon/clusters.cpp
index cba48a2..7572dfa 100644
--- a/libkcommon/clusters.cpp
+++ b/libkcommon/clusters.cpp
@@ -97,6 +97,7 @@ clusters& clusters::operator=(clusters& other) {
     this->num_members_v = other.get_num_members_v();
     this->ncol = other.get_ncol();
     this->nclust = other.get_nclust();
+    this->complete_v = other.get_complete_v();
     return *this;
 }
 
-- 
2.43.0


From f9fa4026602d1ca9a179bd01765b684c34e3b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 30/48] fix: set_mean from an iterator wrote every value to the
 first column

---
 libkcommon/clusters.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/clusters.hpp b/libkcommon/clusters.hpp
index cc2abc3..f7f5d53 100644
--- a/libkcommon/clusters.hpp
+++ b/libkcommon/clusters.hpp
@@ -190,7 +190,7 @@ public:
         unsigned nid = 0;
         while(it.has_next()) {
             double e = it.next();
-            means[offset+nid] = e;
+            means[offset+nid++] = e;
         }
     }
 
-- 
2.43.0


From 383d1af26e9896b886f3e02833ac4a22d69dc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 31/48] fix: vector equality ignored lengths and read past the
 shorter one

---
 libkcommon/types.cpp | 3 +++
 libkcommon/util.hpp  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libkcommon/types.cpp b/libkcommon/types.cpp
index ad2e52e..f47d317 100644
--- a/libkcommon/types.cpp
+++ b/libkcommon/types.cpp
@@ -199,6 +199,9 @@ gmm_t::gmm_t(const size_t nrow, const size_t ncol, const size_t iters,
 
 bool gmm_t::operator==(const gmm_t& other) {
 
+    if (cov_mats.size() != other.cov_mats.size())
+        return false;
+
     for (size_t i = 0; i < cov_mats.size(); i++)
         if (!v_eq(cov_mats[i], other.cov_mats[i]))
             return false;
diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index e979b2b..bfe020a 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -57,7 +57,8 @@ T get_max_hnodes(const T v) {
 // Vector equal function
 template <typename T>
 bool v_eq(const T& lhs, const T& rhs) {
-    return std::equal(lhs.begin(), lhs.end(), rhs.begin());
+    return lhs.size() == rhs.size() &&
+        std::equal(lhs.begin(), lhs.end(), rhs.begin());
 }
 
 template <typename T>
-- 
2.43.0


From a7cfd0fb5f719f6693c13ddd174d59a0a7c1c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 32/48] fix: eq_all ignored the last element

---
 libkcommon/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index bfe020a..3128801 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -71,7 +71,7 @@ const bool v_eq_const(const std::vector<T>& v, const T var) {
 
 template <typename T>
 bool eq_all(const T* v1, const T* v2, const unsigned len) {
-    return (std::equal(&v1[0], &(v1[len-1]), &v2[0]));
+    return (std::equal(&v1[0], v1 + len, &v2[0]));
 }
 
 template <typename T>
-- 
2.43.0


From 5b6785558091648d8ccf301eacb755f59c8f5b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 33/48] fix: has_key read outside an empty map

---
 libkcommon/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index ccb3ce7..11309c5 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -145,7 +145,7 @@ class vmap {
         const bool empty() const { return !static_cast<bool>(size()); }
 
         const bool has_key(const size_t idx) const {
-            if (idx > size()-1)
+            if (idx >= size())
                 return false;
             return (emptyval != data[idx]);
         }
-- 
2.43.0


From 461c239e9a26798cd5052d58f251d15a8e3857f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 34/48] fix: growing a map invented keys when its empty value
 is not the default

---
 libkcommon/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index 11309c5..259575c 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -118,7 +118,7 @@ class vmap {
 
         T& operator[] (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return data[idx];
         }
 
@@ -130,7 +130,7 @@ class vmap {
 
         T& at (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return (*this)[idx];
         }
 
-- 
2.43.0


From 11b3e616994c5eacbd257f36c18b4885911d9a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 35/48] fix: an empty task queue had an uninitialised answer to
 has_task

---
 libman/task_queue.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index e471c68..edc1bee 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -109,12 +109,11 @@ class task_queue: public data_container<double>, task_queue_interface<double> {
         unsigned curr_rid; // Last index (local to the task) processed in the Q
         unsigned ncol;
     public:
-        task_queue() {}
+        task_queue() : curr_rid(0), ncol(0) { _has_task = false; }
 
         task_queue(double* data, const unsigned start_rid, const unsigned nrow,
                 const unsigned ncol): data_container(data, start_rid, nrow) {
-            if (nrow > 0)
-                _has_task = true;
+            _has_task = nrow > 0;
 
             curr_rid = 0;
             this->ncol = ncol;
-- 
2.43.0


From 870a1bbdf9c481dfa4e861866fb8b77942813a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 36/48] fix: the spherical projection divided the first row by
 every row's first values

---
 libkcommon/util.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libkcommon/util.cpp b/libkcommon/util.cpp
index d0d26ed..140da9a 100644
--- a/libkcommon/util.cpp
+++ b/libkcommon/util.cpp
@@ -57,12 +57,12 @@ void spherical_projection(double* data, const size_t nrow,
 #ifdef _OPENMP
 #pragma omp parallel for shared (data)
 #endif
-    for (unsigned row = 0; row < nrow; row++) {
+    for (size_t row = 0; row < nrow; row++) {
         double norm2 = 0;
-        for (unsigned col = 0; col < ncol; col++)
-            norm2 += (data[row]*data[row]);
-        for (unsigned col = 0; col < ncol; col++)
-            data[col] = data[col]/std::sqrt(norm2);
+        for (size_t col = 0; col < ncol; col++)
+            norm2 += (data[row*ncol+col]*data[row*ncol+col]);
+        for (size_t col = 0; col < ncol; col++)
+            data[row*ncol+col] /= std::sqrt(norm2);
     }
 }
 
-- 
2.43.0


From 65663b9c04ba2ccdcade95b60fe9016ee87156fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 37/48] fix: save results in the output directory whatever the
 working directory

---
 libkcommon/types.cpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/libkcommon/types.cpp b/libkcommon/types.cpp
index f47d317..5d7720d 100644
--- a/libkcommon/types.cpp
+++ b/libkcommon/types.cpp
@@ -17,6 +17,11 @@
  * limitations under the License.
  */
 
+#include <sys/stat.h>
+#ifdef _WIN32
+#include <direct.h>
+#endif
+
 #include <fstream>
 
 #include "types.hpp"
@@ -99,29 +104,36 @@ const void cluster_t::print() const {
 #endif
 }
 
+// Create a directory & any parents that are missing
+static void make_dir(const std::string& dirname) {
+    size_t pos = 0;
+    do {
+        pos = dirname.find('/', pos + 1);
+        const std::string path = dirname.substr(0, pos);
+#ifdef _WIN32
+        _mkdir(path.c_str());
+#else
+        mkdir(path.c_str(), 0777); // Failure is noticed when writing
+#endif
+    } while (pos != std::string::npos);
+}
+
 /**
   * A simple text readable write
   * \param dirname: the name of the dir to write to
   */
 const void cluster_t::write(const std::string dirname) const {
 
-    std::string fn = "cluster_t.yml";
-    int ret =
-        std::system((std::string("python python/util.py ")
-                    + dirname).c_str());
-    if (ret) {
-#ifndef BIND
-        fprintf(stderr, "Error with mkdir. Code: %d\n", ret);
-#endif
-    } else {
-        fn = dirname + "/" + fn;
-    }
+    make_dir(dirname);
+    const std::string fn = dirname + "/cluster_t.yml";
 
 #ifndef BIND
     printf("Opening '%s' \n", fn.c_str());
 #endif
     std::ofstream f(fn, std::ios::out);
-    //assert_msg(f.is_open(), "Error opening file for writing!");
+    if (!f.is_open())
+        throw io_exception("Cannot write '" + fn + "'");
+
     f << "k: " << k << std::endl;
     f << "niter: " << iters << std::endl;
     f << "nsamples: " << nrow << std::endl;
-- 
2.43.0


From 966422fb0f8110fa9b7dc79bc9a121447f7d2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 38/48] fix: hierarchical routines kept passing until the limit
 after converging

---
 libman/gmeans_coordinator.cpp |  5 +++++
 libman/hclust_coordinator.cpp | 13 +++++++++++++
 libman/hclust_coordinator.hpp |  1 +
 libman/xmeans_coordinator.cpp |  5 +++++
 4 files changed, 24 insertions(+)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 9f2da8b..cae8c44 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -242,6 +242,11 @@ base::cluster_t gmeans_coordinator::run(
 #endif
             if (compute_pdist)
                 compute_pdist = false;
+
+            if (all_converged()) {
+                iter++;
+                break;
+            }
         }
 
         compute_cluster_diffs();
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 6b64953..8696255 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -353,6 +353,15 @@ const bool hclust_coordinator::steady_state() const {
     return true; // No more clusters are active & none can be split
 }
 
+// No split will be changed by another pass
+const bool hclust_coordinator::all_converged() {
+    auto itr = hcltrs.get_iterator();
+    while (itr.has_next())
+        if (!itr.next().second->has_converged())
+            return false;
+    return true;
+}
+
 void hclust_coordinator::update_clusters() {
     // clear nchanged & means
     nchanged.clear();
@@ -479,6 +488,10 @@ base::cluster_t hclust_coordinator::run(
             base::sparse_print(cluster_assignment_counts);
             printf("\n*****************************************************\n");
 #endif
+            if (all_converged()) {
+                iter++;
+                break;
+            }
         }
 
         if (at_cluster_cap()) {
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 819a4af..a4fb4ff 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -142,6 +142,7 @@ class hclust_coordinator : public coordinator {
         virtual void activate(const unsigned id);
         virtual const bool is_active(const unsigned i) const ;
         virtual const bool steady_state() const;
+        const bool all_converged();
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
         virtual bool at_cluster_cap() { return curr_nclust >= k*2; }
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 8268644..79dc929 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -304,6 +304,11 @@ base::cluster_t xmeans_coordinator::run(
 #endif
             if (compute_pdist)
                 compute_pdist = false;
+
+            if (all_converged()) {
+                iter++;
+                break;
+            }
         }
 
         // Decide on split or not here
-- 
2.43.0


From b2ca8acb2d4f7d696490034ee0ee0aaccdf7a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 39/48] fix: x-means numbered clusters in the order its threads
 rejected splits

---
 libman/xmeans_coordinator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 79dc929..7ffe0d9 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -231,8 +231,6 @@ void xmeans_coordinator::partition_decision() {
 #pragma omp critical
 #endif
             {
-                ider->reclaim_id(score.lid);
-                ider->reclaim_id(score.rid);
                 curr_nclust--;
                 final_centroids[score.pid] = std::vector<double>(
                         cltrs->get_mean_rawptr(score.pid),
@@ -250,6 +248,9 @@ void xmeans_coordinator::partition_decision() {
 
     for (size_t i = 0; i < remove_cache->size(); i++) {
         if (remove_cache->get(i)) {
+            // In order, so that ids do not depend on the threads' schedule
+            ider->reclaim_id(bic_scores[i].lid);
+            ider->reclaim_id(bic_scores[i].rid);
             hcltrs.erase(bic_scores[i].pid);
         }
     }
-- 
2.43.0


From b5908440661aaa412344e618dab92e690afd4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 40/48] fix: k-means++ seeding always took the first row not
 yet a center

---
 libauto/kmeans.cpp                 | 2 +-
 libauto/min-tri-kmeans.cpp         | 2 +-
 libdist/dist_coordinator.cpp       | 2 +-
 libdist/dist_task_coordinator.cpp  | 2 +-
 libman/gmm_coordinator.cpp         | 2 +-
 libman/kmeans_coordinator.cpp      | 2 +-
 libman/kmeans_task_coordinator.cpp | 2 +-
 libman/skmeans_coordinator.cpp     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 206d89e..10e662b 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -160,7 +160,7 @@ static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 62aff85..2ea1122 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -179,7 +179,7 @@ static void kmeanspp_init(const double* matrix,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index 810399b..a65ad7b 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -175,7 +175,7 @@ void dist_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 8876560..66c2771 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -158,7 +158,7 @@ void dist_task_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index 7b44962..b556bf3 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -129,7 +129,7 @@ void gmm_coordinator::kmeanspp_init() {
 // Sum the per thread cumulative dists
         double cuml_dist = reduction_on_cuml_sum();
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more  needed
             break;
 
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index b35802b..7331be3 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -118,7 +118,7 @@ void kmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 5282b1f..8f2ae32 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -212,7 +212,7 @@ void kmeans_task_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index faf8802..8e59c50 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -153,7 +153,7 @@ void skmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
-- 
2.43.0


From 3f6169632a7b18132c9418195c47b58f7803701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 41/48] fix: distributed pruned k-means kept the tie-breaks of
 its k-means++ initialisation

---
 libdist/dist_task_coordinator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 66c2771..64659ce 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -299,7 +299,11 @@ void dist_task_coordinator::run(kbase::cluster_t& ret,
 
     // EM-step iterations
     while (iters < max_iters && max_iters > 0) {
-        if (iters == 1)
+        // Assign every row anew, k-means++ resolves ties its own way
+        if (iters == 0)
+            std::fill(dist_v.begin(), dist_v.end(),
+                    std::numeric_limits<double>::max());
+        else if (iters == 1)
             set_prune_init(false);
 
         // Init iteration
-- 
2.43.0


From 26973d7ac55de0045ab748ca5f4a51bada1297d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 42/48] fix: more processes than rows crashed distributed
 k-means

---
 libman/coordinator.cpp | 4 ++--
 libman/thread.cpp      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index a49b013..2340f29 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -34,8 +34,8 @@ coordinator::coordinator(const std::string fn,
         const double* centers, const kbase::init_t it,
         const double tolerance, const kbase::dist_t dt) : fn(fn), nrow(nrow),
     ncol(ncol), k(k), max_iters(max_iters), nnodes(nnodes),
-    nthreads(static_cast<unsigned>(std::min(
-                    static_cast<size_t>(nthreads), this->nrow))),
+    nthreads(static_cast<unsigned>(std::min(static_cast<size_t>(nthreads),
+                    std::max<size_t>(this->nrow, 1)))),
     _init_t(it), tolerance(tolerance), _dist_t(dt), num_changed(0),
     pending_threads(0) {
 
diff --git a/libman/thread.cpp b/libman/thread.cpp
index ab921f8..cc0043d 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -135,10 +135,10 @@ void thread::numa_alloc_mem() {
 #endif
     fseek(f, start_rid*ncol*sizeof(double), SEEK_SET); // start position
 #ifdef NDEBUG
-    size_t nread = fread(local_data, blob_size, 1, f);
+    size_t nread = fread(local_data, 1, blob_size, f);
     nread = nread + 1 - 1; // Silence compiler warning
 #else
-    assert(fread(local_data, blob_size, 1, f) == 1);
+    assert(fread(local_data, 1, blob_size, f) == blob_size);
 #endif
     close_file_handle();
 }
-- 
2.43.0


From 5a8e60d4020cb7cdf80a07d6aebe22e6e82f0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 43/48] hook: task size can be set with KNOR_VERIF_TASK_ROWS

---
 libman/task_queue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index edc1bee..6ac0f48 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -26,7 +26,11 @@
 
 namespace kbase = knor::base;
 
+#ifdef KNOR_VERIF_TASK_ROWS
+#define MIN_TASK_ROWS KNOR_VERIF_TASK_ROWS
+#else
 #define MIN_TASK_ROWS 8192
+#endif
 //#define MIN_TASK_ROWS 2 // TODO: Change
 namespace knor {
 template <typename T>
-- 
2.43.0


From 5ffba108d42d0030192832822154b6b0dfb71d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 44/48] fix: the normality statistic was infinite for samples
 over 38 sigma away

---
 libkcommon/AndersonDarling.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libkcommon/AndersonDarling.hpp b/libkcommon/AndersonDarling.hpp
index 9e3a561..2b97b8e 100644
--- a/libkcommon/AndersonDarling.hpp
+++ b/libkcommon/AndersonDarling.hpp
@@ -32,6 +32,15 @@ private:
 		return 0.5 * erfc(-x * M_SQRT1_2);
 	}
 
+	// Natural log of phi, which itself underflows for x < -38
+	static const double log_phi(const double x) {
+		if (x > -30)
+			return std::log(phi(x));
+		const double r = 1 / (x * x);
+		return -0.5 * x * x - std::log(-x) - 0.5 * std::log(2 * M_PI) +
+			std::log1p(-r * (1 - 3 * r * (1 - 5 * r)));
+	}
+
 public:
 	static void compute_critical_values(double N, std::vector<double>& out) {
 		std::vector<double> _Avals_norm { 0.576, 0.656, 0.787, 0.918, 1.092 };
@@ -66,7 +75,7 @@ public:
 		double A = -((long)n);
 		for (size_t i = 0; i < n; i++) {
 			A +=  -1.0 / static_cast<double>(n) *(2*(i + 1) - 1) *
-				(std::log(phi(Y[i])) + std::log(phi(-Y[n - 1 - i])));
+				(log_phi(Y[i]) + log_phi(-Y[n - 1 - i]));
 		}
 
 		return A;
-- 
2.43.0


From 05e2374beacf13bb33f413de77f5bbdccac1050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:47 +0000
Subject: [PATCH 45/48] fix: fuzzy memberships next to a coinciding center
 depended on the unit of the data

The inverse distance to a center a sample coincides with was a constant,
smaller than that of other centers when the data has small values, and the
membership it gave differed from 1 for larger fuzziness indexes.
---
 libman/fcm.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index 4f5fd28..7295293 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -17,6 +17,8 @@
  * limitations under the License.
  */
 
+#include <limits>
+
 #include "fcm.hpp"
 #include "types.hpp"
 #include "dense_matrix.hpp"
@@ -40,20 +42,24 @@ fcm::fcm(const int node_id, const unsigned thd_id,
     }
 
 void fcm::Estep() {
+    std::vector<double> dist(nclust);
     for (unsigned row = 0; row < nprocrows; row++) {
         unsigned true_rid = get_global_data_id(row);
+        double nearest = std::numeric_limits<double>::max();
         for (unsigned cid = 0; cid < nclust; cid++) {
-            double dist = base::dist_comp_raw<double>(&local_data[row*ncol],
+            dist[cid] = base::dist_comp_raw<double>(&local_data[row*ncol],
                     &(centers->as_pointer()[cid*ncol]), ncol, dist_metric);
-            if (dist > 0) {
-                //TODO: Fix bad access pattern. um -> col major
-                um->set(cid, true_rid,
-                        std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
-            } else {
-                // The sample is at the center: as close as can be
-                um->set(cid, true_rid,
-                        std::pow((1.0 / 2.2E-16), (1.0 / (fuzzindex-1))));
-            }
+            if (dist[cid] > 0 && dist[cid] < nearest)
+                nearest = dist[cid];
+        }
+
+        // Relative to the nearest center, the columns of um are normalized
+        //  later. A sample at a center is 1E100 times nearer to it.
+        for (unsigned cid = 0; cid < nclust; cid++) {
+            //TODO: Fix bad access pattern. um -> col major
+            um->set(cid, true_rid,
+                    std::pow(dist[cid] > 0 ? nearest / dist[cid] : 1E100,
+                        1.0 / (fuzzindex-1)));
         }
     }
 }
-- 
2.43.0


From 7aa07166e67596d738d27bcd494a802ea78074ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:10 +0000
Subject: [PATCH 46/48] fix: tasks pointed at the wrong rows from 2^32 values
 per thread on

The offset of a task's first row was computed in 32 bits.
---
 libman/task_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index 6ac0f48..452944d 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -139,7 +139,7 @@ class task_queue: public data_container<double>, task_queue_interface<double> {
 
             // TODO: Make better for when there are only
             //  a few left rows if we give away a task
-            task* t = new task(&(get_data_ptr()[curr_rid*ncol]),
+            task* t = new task(&(get_data_ptr()[static_cast<size_t>(curr_rid)*ncol]),
                 get_start_rid()+curr_rid);
             if ((curr_rid + MIN_TASK_ROWS) < (get_nrow()-1)) {
                 t->set_nrow(MIN_TASK_ROWS);
-- 
2.43.0


From 595304eb144e0525fade7f8a03917743d574434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:45 +0000
Subject: [PATCH 47/48] fix: subtracting a vector aborted for every matrix that
 is not square

---
 libkcommon/dense_matrix.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index e905ac8..fb4d09e 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -124,8 +124,6 @@ public:
     }
 
     dense_matrix* operator-(std::vector<T>& v) {
-        assert(nrow == ncol);
-
         dense_matrix* ret = create(this);
         T* retp = ret->as_pointer();
 
-- 
2.43.0


From 24f645b5ed52c2aec80ca1c5f93ae10ebcb8cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:09:08 +0000
Subject: [PATCH 48/48] fix: cosine distance was negative for parallel vectors,
 so k-means++ aborted

---
 libkcommon/util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index 3128801..e08f6e4 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -125,7 +125,8 @@ const double cos_dist(const T* lhs, const T* rhs,
         ldenom += a*a;
         rdenom += b*b;
     }
-    return  1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));
+    const double dist = 1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));
+    return dist < 0 ? 0 : dist; // Rounding, for vectors that are parallel
 }
 
 #if 0
-- 
2.43.0

