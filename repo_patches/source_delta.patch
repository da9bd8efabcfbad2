From fa197906a73fdb7b5f9eb6dabe5d317b29439bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 01/20] fix: notify all sleepers when a task is enqueued

The condition variable is shared by the workers and by waitForEmptyQueue();
notify_one() could wake a waiter and leave an idle worker asleep.
---
 aslam_cv_common/include/aslam/common/thread-pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index af78aa0..0259a47 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -153,7 +153,9 @@ ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
       groupid_exclusivity_guards_.emplace(exclusivity_group_id, false);
     }
   }
-  tasks_queue_change_.notify_one();
+  // The condition variable is shared with waitForEmptyQueue(): notifying a single
+  // thread could wake such a waiter and leave the workers asleep.
+  tasks_queue_change_.notify_all();
   return res;
 }
 
-- 
2.43.0


From 91e67ef3451cae000b3b704d4645569668e85599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 02/20] fix: check for a stopped thread pool with the mutex
 held

A task enqueued while stop() is called could be accepted after the workers
had ended, and was then never run.
---
 .../include/aslam/common/thread-pool.h         | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index 0259a47..c7c9976 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -71,7 +71,10 @@ class ThreadPool {
   enqueue(Function&& function, Args&&... args);
 
   /// \brief Stop the thread pool. This method is non-blocking.
-  void stop(){ stop_ = true; }
+  void stop(){
+    std::unique_lock<std::mutex> lock(tasks_mutex_);
+    stop_ = true;
+  }
 
   // Number of queued tasks.
   size_t numQueuedTasks() const;
@@ -131,18 +134,19 @@ std::future<typename std::result_of<Function(Args...)>::type>
 ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
                            Function&& function, Args&&... args) {
   typedef typename std::result_of<Function(Args...)>::type return_type;
-  // Don't allow enqueueing after stopping the pool.
-  if(stop_) {
-    LOG(ERROR) << "enqueue() called on stopped ThreadPool";
-    // An empty future will return valid() == false.
-    return std::future<typename std::result_of<Function(Args...)>::type>();
-  }
   auto task = std::make_shared<std::packaged_task<return_type()>>(
       std::bind(function, std::forward<Args>(args)...));
 
   std::future<return_type> res = task->get_future();
   {
     std::unique_lock<std::mutex> lock(tasks_mutex_);
+    // Don't allow enqueueing after stopping the pool. This is checked with the
+    // mutex held, as the workers end once the pool is stopped and empty.
+    if(stop_) {
+      LOG(ERROR) << "enqueue() called on stopped ThreadPool";
+      // An empty future will return valid() == false.
+      return std::future<typename std::result_of<Function(Args...)>::type>();
+    }
     groupid_tasks_.emplace_back(exclusivity_group_id, [task](){ (*task)();});
 
     // Initialize a group id exclusivity guard.
-- 
2.43.0


From a6077df85988a0900d98702d4dae134ededaa4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 03/20] fix: do not read the last index of an empty erase list

eraseIndicesFromContainer called back() on the index list before testing
whether it is empty, which is undefined behaviour for an empty list.
---
 aslam_cv_common/include/aslam/common/stl-helpers-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
index e8ab541..24d02b1 100644
--- a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
+++ b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
@@ -117,11 +117,11 @@ void eraseIndicesFromContainer(
     ContainerType* container) {
   CHECK_NOTNULL(container);
   CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);
-  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   if (ordered_indices_to_erase.empty()) {
     return;
   }
+  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   const size_t erase_count = ordered_indices_to_erase.size();
   CHECK_LE(erase_count, expected_initial_count);
-- 
2.43.0


From 7854cb492a400d963dcd19a9459e579d33ec6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 04/20] fix: initialise owned_ before copying an owned
 descriptor

The copy constructor called Allocate(), which reads owned_, before owned_
had been given a value.
---
 .../include/aslam/common/feature-descriptor-ref-inl.h           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 643ec5a..3d179a1 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -121,7 +121,7 @@ operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {
 inline FeatureDescriptorRefBase<unsigned char, WriteAccessors>::
     FeatureDescriptorRefBase(
         const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs)
-    : Base(nullptr, 0) {
+    : Base(nullptr, 0), owned_(false) {
   if (lhs.owned_) {
     Allocate(lhs.size_bytes_);
     CHECK_EQ(lhs.size_bytes_, size_bytes_);
-- 
2.43.0


From 748e658f73c174fa4c74dd6377ac7413bb556d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 05/20] fix: check the buffer size when deserializing a list of
 matrices

The count, the headers and the payloads were read without comparing them to
the size of the buffer, so a short buffer was read past its end.
---
 aslam_cv_common/include/aslam/common/channel-serialization.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index c4d5161..2be22aa 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -245,12 +245,15 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   CHECK_NOTNULL(matrices);
 
   size_t repeat;
+  CHECK_GE(size, sizeof(repeat));
   memcpy(&repeat, buffer, sizeof(repeat));
   size_t offset = sizeof(repeat);
+  CHECK_LE(repeat, (size - offset) / HeaderInformation().size());
 
   matrices->resize(repeat);
   for (size_t i = 0; i < repeat; i++) {
     HeaderInformation header;
+    CHECK_GE(size - offset, header.size());
     bool success = header.deSerializeFromBuffer(buffer, offset);
     if (!success) {
       LOG(ERROR) << "Failed to deserialize header from string: " <<
@@ -277,9 +280,11 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     }
 
     size_t matrix_size = sizeof(Scalar) * (*matrices)[i].rows() * (*matrices)[i].cols();
+    CHECK_GE(size - offset, matrix_size);
     memcpy((*matrices)[i].data(), buffer + offset, matrix_size);
     offset += matrix_size;
   }
+  CHECK_EQ(offset, size);
 
   return true;
 }
-- 
2.43.0


From e9ab7984a7761bbd0d43caad5569587e9238083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 06/20] fix: refuse image headers with unusable sizes or
 channel counts

The payload size could wrap around, and channel counts above CV_CN_MAX lost
their upper bits in the image type, so more bytes than the image holds were
copied into it.
---
 aslam_cv_common/src/channel-serialization.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/src/channel-serialization.cc b/aslam_cv_common/src/channel-serialization.cc
index 34caaa8..0b48eeb 100644
--- a/aslam_cv_common/src/channel-serialization.cc
+++ b/aslam_cv_common/src/channel-serialization.cc
@@ -101,7 +101,12 @@ void deSerializeTypedFromBuffer(const char* const buffer, size_t size,
                                 const HeaderInformation& header, cv::Mat* image) {
   CHECK_NOTNULL(buffer);
   CHECK_NOTNULL(image);
-  size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;
+  CHECK_GT(header.channels, 0u);
+  CHECK_LE(header.channels, static_cast<uint32_t>(CV_CN_MAX));
+  const size_t pixel_size = sizeof(SCALAR) * header.channels;
+  const size_t num_pixels = static_cast<size_t>(header.rows) * header.cols;
+  CHECK_LE(num_pixels, size / pixel_size);
+  size_t matrix_size = pixel_size * num_pixels;
   size_t total_size = matrix_size + header.size();
   CHECK_EQ(size, total_size);
   int type = CV_MAKETYPE(cv::DataType<SCALAR>::depth, header.channels);
-- 
2.43.0


From d3512c581284f8dc150c448a811b5ea20a31dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 07/20] fix: grid coordinates of a target point are (row,
 column)

---
 aslam_cv_calibration/include/aslam/calibration/target-base.h | 2 +-
 aslam_cv_calibration/src/target-base.cc                      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/target-base.h b/aslam_cv_calibration/include/aslam/calibration/target-base.h
index 4bf2ebc..e506be7 100644
--- a/aslam_cv_calibration/include/aslam/calibration/target-base.h
+++ b/aslam_cv_calibration/include/aslam/calibration/target-base.h
@@ -39,7 +39,7 @@ class TargetBase {
   /// Get a point from the target expressed in the target frame by row and column.
   Eigen::Vector3d gridPoint(size_t row_idx, size_t col_idx) const;
 
-  /// Get the grid coordinates for a point index.
+  /// Get the grid coordinates (row, column) for a point index.
   std::pair<size_t, size_t> pointToGridCoordinates(size_t point_idx) const;
   /// Get the point index from the grid coordinates.
   size_t gridCoordinatesToPoint(size_t row_idx, size_t col_idx) const;
diff --git a/aslam_cv_calibration/src/target-base.cc b/aslam_cv_calibration/src/target-base.cc
index 1e91e19..f242748 100644
--- a/aslam_cv_calibration/src/target-base.cc
+++ b/aslam_cv_calibration/src/target-base.cc
@@ -28,8 +28,8 @@ Eigen::Vector3d TargetBase::point(size_t point_idx) const {
 
 std::pair<size_t, size_t> TargetBase::pointToGridCoordinates(
     size_t point_idx) const {
-  return std::pair<size_t, size_t>(
-      point_idx % cols(), static_cast<int>(point_idx / cols()));
+  CHECK_LT(point_idx, size());
+  return std::pair<size_t, size_t>(point_idx / cols(), point_idx % cols());
 }
 
 size_t TargetBase::gridCoordinatesToPoint(
-- 
2.43.0


From 901f608ddf07cac90e65a7666255dbe6bfd9451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 08/20] fix: compare a corner id with the target size, not the
 number of observed corners

---
 .../include/aslam/calibration/target-observation.h             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/target-observation.h b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
index 9334ddd..08b92f1 100644
--- a/aslam_cv_calibration/include/aslam/calibration/target-observation.h
+++ b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
@@ -78,7 +78,8 @@ class TargetObservation {
   }
 
   bool getObservedCornerById(int corner_id, Eigen::Vector2d* obs_corner) const {
-    CHECK_LT(corner_id, corner_ids_.rows());
+    CHECK_GE(corner_id, 0);
+    CHECK_LT(static_cast<size_t>(corner_id), target_->size());
 
     for (int i = 0; i < corner_ids_.rows(); ++i) {
       if (corner_id == corner_ids_(i)) {
-- 
2.43.0


From 827261d73fc10a602ac9c025aa4060d76f9582e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 09/20] fix: make the grid coordinate conversion const so that
 the const cell lookup compiles

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 +-
 aslam_cv_common/include/aslam/common/occupancy-grid.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index d667f34..5b2bb78 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -382,7 +382,7 @@ inline bool WeightedOccupancyGrid<PointType>::isValidGridCoordinates(
 template<typename PointType>
 inline typename WeightedOccupancyGrid<PointType>::GridCoordinates
 WeightedOccupancyGrid<PointType>::inputToGridCoordinates(
-    CoordinatesType u_rows, CoordinatesType v_cols) {
+    CoordinatesType u_rows, CoordinatesType v_cols) const {
   CHECK(isValidInputCoordinate(u_rows, v_cols))
       << "u_rows: " << u_rows << ", v_cols: " << v_cols;
   const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid.h b/aslam_cv_common/include/aslam/common/occupancy-grid.h
index 97b4cc9..eecf800 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid.h
@@ -126,7 +126,7 @@ class WeightedOccupancyGrid {
   /// @}
 
  private:
-  GridCoordinates inputToGridCoordinates(CoordinatesType u_rows, CoordinatesType v_cols);
+  GridCoordinates inputToGridCoordinates(CoordinatesType u_rows, CoordinatesType v_cols) const;
   inline bool isValidInputCoordinate(CoordinatesType u_rows, CoordinatesType v_cols) const;
   inline bool isValidGridCoordinates(const GridCoordinates& grid_coordinates) const;
 
-- 
2.43.0


From b2a7a7b6c54fa05e53a680c338ced2d0942b06fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 10/20] fix: let the fullest cell lose its only point

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index 5b2bb78..5516442 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -268,8 +268,6 @@ void WeightedOccupancyGrid<PointType>::removePointsFromFullestCellsUntilSize(
 template<typename PointType>
 size_t WeightedOccupancyGrid<PointType>::removeWeightedPointsFromOverfullCell(
     const GridCoordinates& grid_coords, size_t max_points_per_cell) {
-  CHECK_GT(max_points_per_cell, 0u);
-
   PointList& cell = getGridCell(grid_coords);
   if (cell.size() <= max_points_per_cell) {
     return 0u;
-- 
2.43.0


From 12d708184bdbd3054e020f04ced7bce1d57c3db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 11/20] fix: keep coordinates just below the maximum inside the
 grid

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index 5516442..45f09ee 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -383,8 +383,11 @@ WeightedOccupancyGrid<PointType>::inputToGridCoordinates(
     CoordinatesType u_rows, CoordinatesType v_cols) const {
   CHECK(isValidInputCoordinate(u_rows, v_cols))
       << "u_rows: " << u_rows << ", v_cols: " << v_cols;
-  const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
-  const size_t grid_col = static_cast<size_t>(std::floor(v_cols / cell_size_cols_));
+  // The division can round up to the next integer for coordinates just below the maximum.
+  const size_t grid_row = std::min(
+      static_cast<size_t>(std::floor(u_rows / cell_size_rows_)), num_grid_rows_ - 1u);
+  const size_t grid_col = std::min(
+      static_cast<size_t>(std::floor(v_cols / cell_size_cols_)), num_grid_cols_ - 1u);
 
   GridCoordinates grid_coordinates(grid_row, grid_col);
   return grid_coordinates;
-- 
2.43.0


From f71aaefb393e2aebe76d062eda03e1b96a6a8cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 12/20] fix: rolling mean of no samples is zero like the mean

---
 aslam_cv_common/include/aslam/common/statistics/accumulator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/statistics/accumulator.h b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
index fbb8613..c1d3b22 100644
--- a/aslam_cv_common/include/aslam/common/statistics/accumulator.h
+++ b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
@@ -65,6 +65,9 @@ class Accumulator {
   // Rolling mean is only used for fixed sized data for now. We don't need this
   // function for our infinite accumulator at this point.
   SumType RollingMean() const {
+    if (total_samples_ < 1) {
+      return 0.0;
+    }
     if (WindowSize < kInfiniteWindowSize) {
       return window_sum_ / std::min(sample_index_, WindowSize);
     } else {
-- 
2.43.0


From c66fc83b85b23193020725571ca9ec45f04a3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 13/20] fix: equidistant Jacobian on the optical axis is the
 identity

The point is returned unchanged there (r < 1e-10), so its derivative is
the identity, not zero.
---
 aslam_cv_cameras/src/distortion-equidistant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 7a822e2..9434841 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -38,7 +38,7 @@ void EquidistantDistortion::distortUsingExternalCoefficients(
   if (r < 1e-10) {
     // Keypoint remains unchanged.
     if(out_jacobian)
-      out_jacobian->setZero();
+      out_jacobian->setIdentity();
     return;
   }
 
-- 
2.43.0


From 9a1d80ad84ac71850668aeda97f42a53ce9e3bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 14/20] fix: distortParameterJacobian uses the stored
 coefficients if none are given

distortion.h documents that a nullptr selects the internal coefficients, as
for distortUsingExternalCoefficients; the null pointer was dereferenced.
---
 aslam_cv_cameras/src/distortion-equidistant.cc | 3 +++
 aslam_cv_cameras/src/distortion-fisheye.cc     | 3 +++
 aslam_cv_cameras/src/distortion-radtan.cc      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 9434841..d22cc8a 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -110,6 +110,9 @@ void EquidistantDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 48ae4c3..0762ca8 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -82,6 +82,9 @@ void FisheyeDistortion::distortUsingExternalCoefficients(const Eigen::VectorXd*
 void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coeffs,
                                                  const Eigen::Vector2d& point,
                                                  Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-radtan.cc b/aslam_cv_cameras/src/distortion-radtan.cc
index 12deb37..3d0da9c 100644
--- a/aslam_cv_cameras/src/distortion-radtan.cc
+++ b/aslam_cv_cameras/src/distortion-radtan.cc
@@ -68,6 +68,9 @@ void RadTanDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
-- 
2.43.0


From 5372b1c0e94851108d1c39305721b439166ddcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 15/20] fix: fisheye parameter Jacobian near the axis scales
 with the point

Near the axis the map is point * 2 tan(w/2) / w, whose derivative in w is
point * (w - sin w) / (w^2 cos^2(w/2)); the point was left out.
---
 aslam_cv_cameras/src/distortion-fisheye.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 0762ca8..9c25dfb 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -103,7 +103,7 @@ void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coe
     out_jacobian->setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    out_jacobian->setOnes();
+    *out_jacobian << u, v;
     *out_jacobian *= (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
   }
   else {
-- 
2.43.0


From 72b7eaaa28017e814a106bf11959383ad49b911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 16/20] fix: compare the values of pointer channels, not the
 channel itself, with null

---
 aslam_cv_common/include/aslam/common/channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index d0bddea..26b198e 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -103,7 +103,7 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
     return value_ == other.value_;
   }
   bool equal_to(const Channel<TYPE>& other, std::false_type /*is_not_pointer */) {
-    if (other == nullptr && value_ == nullptr) {
+    if (other.value_ == nullptr && value_ == nullptr) {
       return true;
     } else if (other.value_ != nullptr && value_ != nullptr) {
       return *value_ == *other.value_;
-- 
2.43.0


From 40812cc9f6cb8524b33456e37b590f0c29cee383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 17/20] fix: image channels of different size, type or with
 several channels can be compared

---
 aslam_cv_common/src/channel.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index ae75d0f..61ef2a4 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -9,7 +9,12 @@ namespace channels {
 
 template<>
 bool Channel<cv::Mat>::operator==(const Channel<cv::Mat>& other) {
-  return cv::countNonZero(value_ != other.value_) == 0;
+  if (value_.size != other.value_.size || value_.type() != other.value_.type()) {
+    return false;
+  }
+  // countNonZero accepts single-channel images only.
+  return value_.empty() ||
+      cv::countNonZero(cv::Mat(value_ != other.value_).reshape(1)) == 0;
 }
 
 ChannelGroup cloneChannelGroup(const ChannelGroup& channels) {
-- 
2.43.0


From cf33267536d8f1b3449aacf606aa49f9cdf479ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:19 +0000
Subject: [PATCH 18/20] fix: matrix channels of different dimensions can be
 compared

---
 .../include/aslam/common/channel.h            | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index 26b198e..ed370e1 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -18,7 +18,9 @@
 #include <mutex>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
+#include <Eigen/Core>
 #include <aslam/common/channel-serialization.h>
 #include <aslam/common/crtp-clone.h>
 #include <aslam/common/macros.h>
@@ -48,6 +50,31 @@ struct ChannelValueCloner :
 template<> struct ChannelValueCloner<cv::Mat> {
   static cv::Mat clone(const cv::Mat& value) { return value; }
 };
+
+// Eigen matrices may only be compared with == if their dimensions agree.
+template<typename ValueType>
+bool areChannelValuesEqual(const ValueType& left, const ValueType& right) {
+  return left == right;
+}
+template<typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
+bool areChannelValuesEqual(
+    const Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& left,
+    const Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& right) {
+  return left.rows() == right.rows() && left.cols() == right.cols() && left == right;
+}
+template<typename ValueType, typename Allocator>
+bool areChannelValuesEqual(const std::vector<ValueType, Allocator>& left,
+                           const std::vector<ValueType, Allocator>& right) {
+  if (left.size() != right.size()) {
+    return false;
+  }
+  for (size_t i = 0u; i < left.size(); ++i) {
+    if (!areChannelValuesEqual(left[i], right[i])) {
+      return false;
+    }
+  }
+  return true;
+}
 }
 
 class ChannelBase {
@@ -100,13 +127,13 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
 
  private:
   bool equal_to(const Channel<TYPE>& other, std::true_type /*is_not_pointer */) {
-    return value_ == other.value_;
+    return internal::areChannelValuesEqual(value_, other.value_);
   }
   bool equal_to(const Channel<TYPE>& other, std::false_type /*is_not_pointer */) {
     if (other.value_ == nullptr && value_ == nullptr) {
       return true;
     } else if (other.value_ != nullptr && value_ != nullptr) {
-      return *value_ == *other.value_;
+      return internal::areChannelValuesEqual(*value_, *other.value_);
     } else {
       return false;
     }
-- 
2.43.0


From e2b3a8ba69248e887709cf2072eae29ea3a37b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:19 +0000
Subject: [PATCH 19/20] fix: project4 Jacobian for a negative fourth coordinate

The projected point is the negated one there, and so is its derivative.
---
 aslam_cv_cameras/src/camera.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 9a6babb..a7b5152 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -366,7 +366,10 @@ const ProjectionResult Camera::project4(
   Eigen::Matrix<double, 2, 3> Je;
   ProjectionResult ret = project3(point_3d, out_keypoint, &Je);
   out_jacobian->setZero();
-  out_jacobian->topLeftCorner<2, 3>() = Je;
+  if (point_4d[3] < 0)
+    out_jacobian->topLeftCorner<2, 3>() = -Je;
+  else
+    out_jacobian->topLeftCorner<2, 3>() = Je;
 
   return ret;
 }
-- 
2.43.0


From f601956a3099a1fcdac998569655cae9b88ecd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:20 +0000
Subject: [PATCH 20/20] fix: cloneRigWithoutDistortion rebuilds the camera
 lookup table

---
 aslam_cv_cameras/src/ncamera.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index c3b9ce0..f53b9d4 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -342,6 +342,8 @@ aslam::NCamera::Ptr NCamera::cloneRigWithoutDistortion() const {
   aslam::NCameraId ncam_id;
   generateId(&ncam_id);
   rig_without_distortion->setId(ncam_id);
+  // The cameras have new ids: rebuild the lookup table.
+  rig_without_distortion->initInternal();
   return rig_without_distortion;
 }
 
-- 
2.43.0

