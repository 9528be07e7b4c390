From 3fb5c215904c7e667a1b6e9938b554e797a5997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 01/20] fix: even order knot vectors end where the
 interpolation range ends

The periodic even order knot vector had one surplus knot, which made the
aperiodic even order range too short (at() rejected valid coordinates),
the eval proxy address wrong cells, and the last cell index overflow.
---
 src/include/BSpline.hpp       | 2 +-
 src/include/Interpolation.hpp | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 3b9831b..aa539c9 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -223,7 +223,7 @@ class BSpline {
         knots_[dim_ind] = std::forward<C>(_knots);
         range_[dim_ind].first = knots_[dim_ind][order];
         range_[dim_ind].second =
-            knots_[dim_ind][knots_[dim_ind].size() - order - (2 - order % 2)];
+            knots_[dim_ind][knots_[dim_ind].size() - order - 1];
     }
 
 #ifdef INTP_CELL_LAYOUT
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 41c1a22..9e9995b 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -335,15 +335,17 @@ class InterpolationFunction {
         dx_[dim_ind] =
             (x_range.second - x_range.first) / static_cast<coord_type>(n - 1);
 
-        const size_t extra = periodic ? 2 * order + (1 - order % 2) : order + 1;
+        const size_t extra = periodic ? 2 * order : order + 1;
 
         std::vector<coord_type> xs(n + extra, x_range.first);
 
         if (periodic) {
+            // knots of even order spline are shifted by half a grid size
             for (size_type i = 0; i < xs.size(); ++i) {
                 xs[i] = x_range.first +
                         (static_cast<coord_type>(i) -
-                         coord_type{.5} * static_cast<coord_type>(extra)) *
+                         coord_type{.5} * static_cast<coord_type>(
+                                              extra + (1 - order % 2))) *
                             dx_[dim_ind];
             }
         } else {
@@ -392,7 +394,7 @@ class InterpolationFunction {
         (void)mesh_dimension;
 #endif
         typename spline_type::KnotContainer xs(
-            periodic ? n + 2 * order + (1 - order % 2) : n + order + 1);
+            periodic ? n + 2 * order : n + order + 1);
 
         auto& input_coord = input_coords[dim_ind];
         input_coord.reserve(n);
-- 
2.43.0


From b558381885628380ee903e56e289e655916255d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 02/20] fix: wrap periodic coordinates into the half-open
 period

x = first - k * period was mapped to the right end of the range, so
derivatives (and order 0 values) differed from those at x = first.
---
 src/include/BSpline.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index aa539c9..86a84eb 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -133,6 +133,8 @@ class BSpline {
             x = range(dim_ind).first +
                 std::fmod(x - range(dim_ind).first, period) +
                 (x < range(dim_ind).first ? period : knot_type{});
+            // The right end (also reached by rounding) is the left end.
+            if (x >= range(dim_ind).second) { x = range(dim_ind).first; }
         }
 #ifdef INTP_TRACE
         if ((*iter > x || *(iter + 1) < x) && x >= range(dim_ind).first &&
-- 
2.43.0


From 1bc1720051955e73a5c8b782fc9e86c63b2b48ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 03/20] fix: set the thread pool termination flag under the
 queue lock

The flag was a plain bool written without synchronization: a data race,
and a lost wakeup that left the destructor joining forever.
---
 src/include/DedicatedThreadPool.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index fb6e9df..fef17c8 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -1,6 +1,7 @@
 #ifndef INTP_THREAD_POOL
 #define INTP_THREAD_POOL
 
+#include <atomic>   // atomic
 #include <future>   //unique_lock, packaged_task
 #include <mutex>    // mutex
 #include <queue>    // deque
@@ -105,8 +106,7 @@ class DedicatedThreadPool {
 #endif
         } catch (...) {  // in this case dtor is not called, so threads
                          // termination should be proper handled here
-            should_terminate = true;
-            cv.notify_all();
+            terminate();
             throw;
         }
     }
@@ -115,8 +115,7 @@ class DedicatedThreadPool {
     using return_type = T;
 
     ~DedicatedThreadPool() {
-        should_terminate = true;
-        cv.notify_all();
+        terminate();
 
 #ifdef INTP_DEBUG
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
@@ -204,6 +203,19 @@ class DedicatedThreadPool {
         }
     };
 
+    /**
+     * @brief Ask all threads to stop. The flag is set under the lock, otherwise
+     * a thread that has just found nothing to do misses the notification.
+     *
+     */
+    void terminate() {
+        {
+            lock_type lk(main_queue_mutex);
+            should_terminate = true;
+        }
+        cv.notify_all();
+    }
+
     bool try_pop_from_main(task_type& task) {
         {
             lock_type lk(main_queue_mutex);
@@ -259,7 +271,8 @@ class DedicatedThreadPool {
 #ifdef INTP_DEBUG
     size_t submitted{};
 #endif
-    bool should_terminate = false;  // Tells threads to stop looking for tasks
+    // Tells threads to stop looking for tasks
+    std::atomic<bool> should_terminate{false};
     std::mutex main_queue_mutex;    // Protects main task queue
     std::condition_variable cv;     // Signals for thread sleep/awake
     std::vector<std::thread> threads;  // Thread container
-- 
2.43.0


From e6dfd742e66304bbbfab092db3b15e2db2472fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 04/20] fix: BandMatrix times vector used the transposed matrix

---
 src/include/BandMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/BandMatrix.hpp b/src/include/BandMatrix.hpp
index 2a4d9ec..c84a0b7 100644
--- a/src/include/BandMatrix.hpp
+++ b/src/include/BandMatrix.hpp
@@ -68,9 +68,9 @@ class BandMatrix {
     util::remove_cvref_t<Vec> operator*(const Vec& x) const {
         util::remove_cvref_t<Vec> xx(x.size());
         for (size_type i = 0; i < x.size(); ++i) {
-            for (size_type j = p_ > i ? p_ - i : 0, k = i > p_ ? i - p_ : 0;
-                 j < std::min(p_ + q_ + 1, n_ + p_ - i); ++j, ++k) {
-                xx[i] += bands_(i, j) * x[k];
+            for (size_type j = i > p_ ? i - p_ : 0;
+                 j < std::min(i + q_ + 1, n_); ++j) {
+                xx[i] += (*this)(i, j) * x[j];
             }
         }
         return xx;
-- 
2.43.0


From c990160972e52584e707317ca4468b2503da55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 05/20] fix: BandLU::compute must not move from an lvalue
 matrix

---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 726faae..046fb73 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -34,7 +34,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
             std::is_same<util::remove_cvref_t<Mat_>, matrix_type>::value,
             "Matrix type mismatch");
         if (!is_computed_) {
-            lu_store_ = std::forward<matrix_type>(mat);
+            lu_store_ = std::forward<Mat_>(mat);
             this->cast().compute_impl();
             is_computed_ = true;
         }
-- 
2.43.0


From 6882216b42405cc225c863908fcf0c54da6790e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 06/20] fix: default range of periodic
 InterpolationFunctionTemplate1D

Without dummy point the period is f_length, as in InterpolationFunction1D.
---
 src/include/InterpolationTemplate.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 843bc0b..3b56dbb 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -592,9 +592,17 @@ class InterpolationFunctionTemplate1D
         : InterpolationFunctionTemplate1D(
               std::make_pair(
                   typename base::coord_type{},
-                  static_cast<typename base::coord_type>(f_length - 1)),
+                  static_cast<typename base::coord_type>(
+                      f_length
+#ifdef INTP_PERIODIC_NO_DUMMY_POINT
+                      - (periodicity ? 0 : 1)
+#else
+                      - 1
+#endif
+                          )),
               f_length,
-              periodicity) {}
+              periodicity) {
+    }
 
     template <typename C1, typename C2>
     InterpolationFunctionTemplate1D(std::pair<C1, C2> x_range,
-- 
2.43.0


From 1b74b4747b2222e7a4a54e10920462b28418224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 07/20] fix: copying an interpolation template before C++17
 lost its solvers

---
 src/include/InterpolationTemplate.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 3b56dbb..8b0de6c 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -221,10 +221,18 @@ class InterpolationFunctionTemplate {
             return *this;
         }
 
-        // Copy constructor is required by aggregate initialization, but never
-        // invoked in this code since the content of this union is never
-        // switched.
-        EitherSolver(const EitherSolver&) {}
+        // Copy the active union member, invoked when a template is copied.
+        EitherSolver(const EitherSolver& other)
+            : is_active_(other.is_active_), is_periodic_(other.is_periodic_) {
+            if (!is_active_) { return; }
+            if (is_periodic_) {
+                new (&solver_periodic)
+                    extended_solver_type(other.solver_periodic);
+            } else {
+                new (&solver_aperiodic)
+                    base_solver_type(other.solver_aperiodic);
+            }
+        }
         // Destructor needed and it invokes either member's destructor according
         // to the tag "is_periodic";
         ~EitherSolver() {
-- 
2.43.0


From 51cd56f95623d5044c5d429d670532efa90f3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:40 +0000
Subject: [PATCH 08/20] fix: define constexpr static data members for C++11 and
 C++14

They are odr-used, so programs did not link before C++17.
---
 src/include/BSpline.hpp               | 12 ++++++++++++
 src/include/DedicatedThreadPool.hpp   |  6 ++++++
 src/include/Interpolation.hpp         |  8 ++++++++
 src/include/InterpolationTemplate.hpp |  8 ++++++++
 4 files changed, 34 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 86a84eb..cb08dae 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -761,6 +761,18 @@ class BSpline {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// static data members are not implicitly inline before C++17
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::dim;
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::order;
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::buf_size_;
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::MAX_BUF_SIZE_;
+#endif
+
 }  // namespace intp
 
 #endif
diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index fef17c8..b1728b9 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -292,6 +292,12 @@ class DedicatedThreadPool {
 };
 
 #if __cplusplus < 201703L
+template <typename T>
+constexpr std::size_t DedicatedThreadPool<T>::DEFAULT_THREAD_NUM;
+
+template <typename T>
+constexpr std::size_t DedicatedThreadPool<T>::BATCH_SIZE;
+
 template <typename T>
 thread_local std::size_t DedicatedThreadPool<T>::thread_idx{};
 
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 9e9995b..7e06095 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -508,6 +508,14 @@ class InterpolationFunction {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// static data members are not implicitly inline before C++17
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type InterpolationFunction<T, D, O, U>::dim;
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type InterpolationFunction<T, D, O, U>::order;
+#endif
+
 template <std::size_t O = std::size_t{3},
           typename T = double,
           typename U = double>
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 8b0de6c..e7c8dfa 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -588,6 +588,14 @@ class InterpolationFunctionTemplate {
     }
 };
 
+#if __cplusplus < 201703L
+// static data members are not implicitly inline before C++17
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunctionTemplate<T, D, O, U>::size_type InterpolationFunctionTemplate<T, D, O, U>::dim;
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunctionTemplate<T, D, O, U>::size_type InterpolationFunctionTemplate<T, D, O, U>::order;
+#endif
+
 template <std::size_t O, typename T = double, typename U = double>
 class InterpolationFunctionTemplate1D
     : public InterpolationFunctionTemplate<T, size_t{1}, O, U> {
-- 
2.43.0


From e1c3b3ccb53f62810564c0282a72ce47778f225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:40 +0000
Subject: [PATCH 09/20] fix: wait for queued tasks when an exception leaves the
 solver

Tasks refer to local variables of the function which throws.
---
 src/include/BSpline.hpp               |  2 ++
 src/include/DedicatedThreadPool.hpp   | 17 +++++++++++++++++
 src/include/InterpolationTemplate.hpp |  2 ++
 3 files changed, 21 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index cb08dae..cc31064 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -742,6 +742,8 @@ class BSpline {
 
         auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
         std::vector<std::future<void>> res;
+        res.reserve(block_num);
+        const TasksGuard guard(res);
 
         for (size_type i = 0; i < block_num; ++i) {
             res.push_back(thread_pool.queue_task([=]() {
diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index b1728b9..f100804 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -14,6 +14,23 @@
 
 namespace intp {
 
+/**
+ * @brief Wait for all tasks on scope exit, so that no task outlives the local
+ * variables it refers to even if an exception is thrown.
+ */
+struct TasksGuard {
+    std::vector<std::future<void>>& tasks_;
+
+    TasksGuard(std::vector<std::future<void>>& tasks) : tasks_(tasks) {}
+    TasksGuard(const TasksGuard&) = delete;
+    TasksGuard& operator=(const TasksGuard&) = delete;
+    ~TasksGuard() {
+        for (auto& f : tasks_) {
+            if (f.valid()) { f.wait(); }
+        }
+    }
+};
+
 /**
  * @brief A thread pool managing a bunch of threads and a queue of tasks. It can
  * spawn a specified number of threads during construction and joins all the
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index e7c8dfa..aa0581e 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -561,6 +561,8 @@ class InterpolationFunctionTemplate {
 
             auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
             std::vector<std::future<void>> res;
+            res.reserve(block_num);
+            const TasksGuard guard(res);
 
             for (size_type i = 0; i < block_num; ++i) {
                 // use thread pool here may seem to be a bit overhead
-- 
2.43.0


From 79bf4c2bcac6fc9b117eb46bb0735b0de4b5662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:40 +0000
Subject: [PATCH 10/20] fix: read nonuniform coordinates in a single pass

std::distance consumed single-pass input iterators before they were read.
---
 src/include/Interpolation.hpp | 38 ++++++++++++++---------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 7e06095..6a4981b 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -376,8 +376,11 @@ class InterpolationFunction {
         uniform_[dim_ind] = false;
         const auto periodic = periodicity(dim_ind);
 
-        const size_type n{static_cast<size_type>(
-            std::distance(x_range.first, x_range.second))};
+        // The x_range may be given by input iterators, which can not be
+        // multi-passed.
+        auto& input_coord = input_coords[dim_ind];
+        input_coord.assign(x_range.first, x_range.second);
+        const size_type n = input_coord.size();
 #ifdef INTP_PERIODIC_NO_DUMMY_POINT
         INTP_ASSERT(n == mesh_dimension.dim_size(dim_ind) + (periodic ? 1 : 0),
                     std::string("Inconsistency between knot number and "
@@ -396,21 +399,15 @@ class InterpolationFunction {
         typename spline_type::KnotContainer xs(
             periodic ? n + 2 * order : n + order + 1);
 
-        auto& input_coord = input_coords[dim_ind];
-        input_coord.reserve(n);
-        // The x_range may be given by input iterators, which can not be
-        // multi-passed.
         if (periodic) {
             // In periodic case, the knots are data points, shifted by half
             // of local grid size if spline order is odd.
 
-            auto iter = x_range.first;
-            input_coord.push_back(*iter);
             for (size_type i = order + 1; i < order + n; ++i) {
-                coord_type present = *(++iter);
-                xs[i] = order % 2 == 0 ? .5 * (input_coord.back() + present)
-                                       : present;
-                input_coord.push_back(present);
+                const coord_type present = input_coord[i - order];
+                xs[i] = order % 2 == 0
+                            ? .5 * (input_coord[i - order - 1] + present)
+                            : present;
             }
             coord_type period = input_coord.back() - input_coord.front();
             for (size_type i = 0; i < order + 1; ++i) {
@@ -421,31 +418,26 @@ class InterpolationFunction {
             // In aperiodic case, the internal knots are moving average of
             // data points with windows size equal to spline order.
 
-            auto it = x_range.first;
-            auto l_knot = *it;
             // fill leftmost *order+1* identical knots
-            for (size_type i = 0; i < order + 1; ++i) { xs[i] = l_knot; }
-            // first knot is same as first input coordinate
-            input_coord.emplace_back(l_knot);
+            for (size_type i = 0; i < order + 1; ++i) {
+                xs[i] = input_coord.front();
+            }
             // Every knot in middle is average of *order* input
             // coordinates. This var is to track the sum of a moving window
             // with width *order*.
             coord_type window_sum{};
             for (size_type i = 1; i < order; ++i) {
-                input_coord.emplace_back(*(++it));
                 window_sum += input_coord[i];
             }
             for (size_type i = order + 1; i < n; ++i) {
-                input_coord.emplace_back(*(++it));
                 window_sum += input_coord[i - 1];
                 xs[i] = window_sum / static_cast<coord_type>(order);
                 window_sum -= input_coord[i - order];
             }
-            auto r_knot = *(++it);
             // fill rightmost *order+1* identical knots
-            for (size_type i = n; i < n + order + 1; ++i) { xs[i] = r_knot; }
-            // last knot is same as last input coordinate
-            input_coord.emplace_back(r_knot);
+            for (size_type i = n; i < n + order + 1; ++i) {
+                xs[i] = input_coord.back();
+            }
         }
         // check whether input coordinates is monotonic
         for (std::size_t i = 0; i < input_coord.size() - 1; ++i) {
-- 
2.43.0


From 574d0c6f7a62086d0cddd1562a8e8d6725332da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:40 +0000
Subject: [PATCH 11/20] fix: knots of nonuniform aperiodic interpolation of
 order 0

The window average divided by zero and all inner knots were not finite.
---
 src/include/Interpolation.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 6a4981b..c426e02 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -431,7 +431,11 @@ class InterpolationFunction {
             }
             for (size_type i = order + 1; i < n; ++i) {
                 window_sum += input_coord[i - 1];
-                xs[i] = window_sum / static_cast<coord_type>(order);
+                // There is no window in case of order 0, knots are middle
+                // points, same as the uniform case.
+                xs[i] = order == 0
+                            ? .5 * (input_coord[i - 1] + input_coord[i])
+                            : window_sum / static_cast<coord_type>(order);
                 window_sum -= input_coord[i - order];
             }
             // fill rightmost *order+1* identical knots
-- 
2.43.0


From 3458923a9738da3140a21041e95d58eb73454369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:40 +0000
Subject: [PATCH 12/20] fix: mesh line iterators of a const mesh

end() const, comparison, subtraction and operator-> did not compile.
---
 src/include/Mesh.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index b2b8ffb..80f924a 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -160,8 +160,8 @@ class Mesh {
 
         // forward iterator requirement
 
-        reference operator*() { return *ptr_; }
-        reference operator->() { return ptr_; }
+        reference operator*() const { return *ptr_; }
+        pointer operator->() const { return ptr_; }
 
         bool operator==(const skip_iterator& other) const {
             return this->ptr_ == other.ptr_ &&
@@ -199,7 +199,7 @@ class Mesh {
             ptr_ += n * step_length_;
             return *this;
         }
-        skip_iterator operator+(difference_type n) {
+        skip_iterator operator+(difference_type n) const {
             skip_iterator tmp(*this);
             return tmp += n;
         }
@@ -211,16 +211,16 @@ class Mesh {
             ptr_ -= n * step_length_;
             return *this;
         }
-        skip_iterator operator-(difference_type n) {
+        skip_iterator operator-(difference_type n) const {
             skip_iterator tmp(*this);
             return tmp -= n;
         }
 
-        difference_type operator-(skip_iterator other) {
+        difference_type operator-(skip_iterator other) const {
             return (ptr_ - other.ptr_) / step_length_;
         }
 
-        reference operator[](difference_type n) {
+        reference operator[](difference_type n) const {
             return *(ptr_ + n * step_length_);
         }
 
@@ -365,8 +365,9 @@ class Mesh {
                                       index_type indices) const {
         indices[dim_ind] = dimension_.dim_size(dim_ind);
         return skip_iterator<const val_type>(
-            storage_.data() + indexing(indices),
-            dimension_.dim_acc_size(dim - dim_ind - 1));
+            storage_.data() + dimension_.indexing(indices),
+            static_cast<typename skip_iterator<val_type>::difference_type>(
+                dimension_.dim_acc_size(dim - dim_ind - 1)));
     }
 
     index_type iter_indices(const_iterator iter) const {
-- 
2.43.0


From 4516acda12aa06c78843099f4b9532df3b7b5a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:40 +0000
Subject: [PATCH 13/20] fix: clamp the knot hint before converting it to
 integer

The conversion was undefined for coordinates far out of the range.
---
 src/include/Interpolation.hpp | 44 +++++++++++++++--------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index c426e02..e6cb2f8 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -274,24 +274,28 @@ class InterpolationFunction {
 
     // auxiliary methods
 
+    // Guess the index of the knot to the left of given coordinate. The offset is
+    // clamped before being converted to integer, since the coordinate can be
+    // arbitrarily far away.
+    inline size_type knot_hint_(size_type d, coord_type x) const {
+        if (!uniform_[d]) { return order; }
+        const coord_type offset = std::ceil(std::max(
+            coord_type{0.},
+            (x - range(d).first) / dx_[d] -
+                (periodicity(d)
+                     ? coord_type{1.}
+                     : coord_type{.5} * static_cast<coord_type>(order + 1))));
+        const size_type max_offset = spline_.knots_num(d) - 2 * order - 2;
+        return order + (offset < static_cast<coord_type>(max_offset)
+                            ? static_cast<size_type>(offset)
+                            : max_offset);
+    }
+
     template <size_type... di>
     inline DimArray<std::pair<coord_type, size_type>> add_hint_for_spline(
         util::index_sequence<di...>,
         DimArray<coord_type> c) const {
-        return {std::make_pair(
-            c[di],
-            uniform_[di]
-                ? std::min(
-                      spline_.knots_num(di) - order - 2,
-                      static_cast<size_type>(std::ceil(std::max(
-                          coord_type{0.},
-                          (c[di] - range(di).first) / dx_[di] -
-                              (periodicity(di)
-                                   ? coord_type{1.}
-                                   : coord_type{.5} * static_cast<coord_type>(
-                                                          order + 1))))) +
-                          order)
-                : order)...};
+        return {std::make_pair(c[di], knot_hint_(di, c[di]))...};
     }
 
     inline val_type call_op_helper(DimArray<coord_type> c) const {
@@ -304,17 +308,7 @@ class InterpolationFunction {
                                       DimArray<coord_type> c,
                                       DimArray<size_type> d) const {
         return spline_.derivative_at({std::make_tuple(
-            static_cast<coord_type>(c[di]),
-            uniform_[di]
-                ? std::min(spline_.knots_num(di) - order - 2,
-                           static_cast<size_type>(std::ceil(std::max(
-                               0., (c[di] - range(di).first) / dx_[di] -
-                                       (periodicity(di)
-                                            ? 1.
-                                            : .5 * static_cast<coord_type>(
-                                                       order + 1))))) +
-                               order)
-                : order,
+            static_cast<coord_type>(c[di]), knot_hint_(di, c[di]),
             static_cast<size_type>(d[di]))...});
     }
 
-- 
2.43.0


From 38cb508ccde7fbbba97a5a7fd7a0801101fdf0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:05 +0000
Subject: [PATCH 14/20] fix: AlignedAllocator::allocate wraps the byte count
 around for huge requests

n * sizeof(T) overflowed and a tiny block was returned for a request that
cannot be satisfied; report it by bad_alloc as any other failure.
---
 src/include/aligned-allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/aligned-allocator.hpp b/src/include/aligned-allocator.hpp
index 3330666..0b77761 100644
--- a/src/include/aligned-allocator.hpp
+++ b/src/include/aligned-allocator.hpp
@@ -97,6 +97,7 @@ class AlignedAllocator {
     pointer allocate(
         size_type n,
         typename AlignedAllocator<void, Align>::const_pointer = nullptr) {
+        if (n > max_size()) { throw std::bad_alloc(); }
         const size_type alignment = static_cast<size_type>(Align);
         void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
         if (ptr == nullptr) { throw std::bad_alloc(); }
@@ -151,6 +152,7 @@ class AlignedAllocator<const T, Align> {
     pointer allocate(
         size_type n,
         typename AlignedAllocator<void, Align>::const_pointer = 0) {
+        if (n > max_size()) { throw std::bad_alloc(); }
         const size_type alignment = static_cast<size_type>(Align);
         void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
         if (ptr == nullptr) { throw std::bad_alloc(); }
-- 
2.43.0


From edf37bd9a655280c091a6aa8f384e91ffc23c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:20 +0000
Subject: [PATCH 15/20] fix: thread pool worker out of memory while fetching
 tasks terminated the process

A bad_alloc thrown by the worker's local queue escaped from thread_loop.
Leave the remaining tasks in the main queue instead.
---
 src/include/DedicatedThreadPool.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index f100804..7040cb1 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -4,6 +4,7 @@
 #include <atomic>   // atomic
 #include <future>   //unique_lock, packaged_task
 #include <mutex>    // mutex
+#include <new>      // bad_alloc
 #include <queue>    // deque
 #include <thread>   // hardware_concurrency
 #include <utility>  // move
@@ -238,9 +239,13 @@ class DedicatedThreadPool {
             lock_type lk(main_queue_mutex);
             if (main_queue.empty()) { return false; }
             size_t c{};
-            while (c++ < BATCH_SIZE && !main_queue.empty()) {
-                worker_queue_ptr->push(std::move(main_queue.front()));
-                main_queue.pop();
+            try {
+                while (c++ < BATCH_SIZE && !main_queue.empty()) {
+                    worker_queue_ptr->push(std::move(main_queue.front()));
+                    main_queue.pop();
+                }
+            } catch (const std::bad_alloc&) {
+                // The rest stays in the main queue and will be fetched later.
             }
         }
         return worker_queue_ptr->try_pop(task);
-- 
2.43.0


From e9427e9046d0a66b46693995da992d8069c732fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:20 +0000
Subject: [PATCH 16/20] fix: INTP_DEBUG thread pool statistics raced with
 running workers

The destructor read the per-worker counters before joining the workers.
---
 src/include/DedicatedThreadPool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index 7040cb1..e34f39c 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -136,6 +136,9 @@ class DedicatedThreadPool {
         terminate();
 
 #ifdef INTP_DEBUG
+        // statistics are read without lock below
+        for (auto& t : threads) { t.join(); }
+
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
                   << " threads.\n"
                   << "[DEBUG]    Main queue has " << submitted
-- 
2.43.0


From 04b6bd2ada6df7ccf55dc40c429cb99cad4f46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:48 +0000
Subject: [PATCH 17/20] fix: nonuniform knots accumulated rounding error along
 the axis

Knots of an aperiodic nonuniform axis came from a running sum. With
coordinates far from zero (e.g. time stamps with microsecond spacing) its
error exceeded the spacing, knots were misplaced and the interpolation
function did not pass through its data.
---
 src/include/Interpolation.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index e6cb2f8..26a7a01 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -417,20 +417,20 @@ class InterpolationFunction {
                 xs[i] = input_coord.front();
             }
             // Every knot in middle is average of *order* input
-            // coordinates. This var is to track the sum of a moving window
-            // with width *order*.
-            coord_type window_sum{};
-            for (size_type i = 1; i < order; ++i) {
-                window_sum += input_coord[i];
-            }
+            // coordinates. It is calculated relative to the first one of them,
+            // a running sum accumulates rounding error along the axis.
             for (size_type i = order + 1; i < n; ++i) {
-                window_sum += input_coord[i - 1];
+                const coord_type first = input_coord[i - order];
+                coord_type window_sum{};
+                for (size_type j = i - order + 1; j < i; ++j) {
+                    window_sum += input_coord[j] - first;
+                }
                 // There is no window in case of order 0, knots are middle
                 // points, same as the uniform case.
                 xs[i] = order == 0
                             ? .5 * (input_coord[i - 1] + input_coord[i])
-                            : window_sum / static_cast<coord_type>(order);
-                window_sum -= input_coord[i - order];
+                            : first +
+                                  window_sum / static_cast<coord_type>(order);
             }
             // fill rightmost *order+1* identical knots
             for (size_type i = n; i < n + order + 1; ++i) {
-- 
2.43.0


From 67cf68f9a6c079f790806737dbc5ad12bb3f6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:58 +0000
Subject: [PATCH 18/20] fix: default construction of a band solver allocates
 and is not noexcept

---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 046fb73..0a64f42 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -17,7 +17,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
    public:
     using matrix_type = Matrix;
 
-    BandLUBase() noexcept : is_computed_(false) {}
+    BandLUBase() : is_computed_(false) {}
 
     template <typename Mat_>
     BandLUBase(Mat_&& mat) : lu_store_(std::forward<Mat_>(mat)) {
-- 
2.43.0


From ca96e1c9264403c2adb1bb6bdad51f98dbf0b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:24 +0000
Subject: [PATCH 19/20] fix: thread pool makes progress when a worker cannot
 queue tasks locally

---
 src/include/DedicatedThreadPool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index e34f39c..9850c5d 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -248,7 +248,13 @@ class DedicatedThreadPool {
                     main_queue.pop();
                 }
             } catch (const std::bad_alloc&) {
-                // The rest stays in the main queue and will be fetched later.
+                // The rest stays in the main queue and will be fetched later,
+                // but take one so that work goes on even if memory is short.
+                if (c == 1) {
+                    task = std::move(main_queue.front());
+                    main_queue.pop();
+                    return true;
+                }
             }
         }
         return worker_queue_ptr->try_pop(task);
-- 
2.43.0


From ffd14456b5d66836fb548c135ddfc672e804f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:24 +0000
Subject: [PATCH 20/20] fix: thread pool leaked a queue when its construction
 ran out of memory

---
 src/include/DedicatedThreadPool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index 9850c5d..9f3dfe6 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -112,7 +112,8 @@ class DedicatedThreadPool {
         auto t_num = num == 0 ? DEFAULT_THREAD_NUM : num;
         try {
             for (size_t i = 0; i < t_num; i++) {
-                worker_queues.emplace_back(new shared_working_queue{});
+                worker_queues.push_back(std::unique_ptr<shared_working_queue>(
+                    new shared_working_queue{}));
             }
             for (size_t i = 0; i < t_num; i++) {
                 threads.emplace_back(&DedicatedThreadPool::thread_loop, this,
-- 
2.43.0

