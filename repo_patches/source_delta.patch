From db7ca18329c931580b51eca61561af9bf49c0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 01/27] fix: count threads waiting for a reader-first lock as
 users of the lock

---
 aslam_cv_common/src/reader-first-reader-writer-lock.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_common/src/reader-first-reader-writer-lock.cc b/aslam_cv_common/src/reader-first-reader-writer-lock.cc
index 559a284..b79d02b 100644
--- a/aslam_cv_common/src/reader-first-reader-writer-lock.cc
+++ b/aslam_cv_common/src/reader-first-reader-writer-lock.cc
@@ -9,14 +9,17 @@ ReaderFirstReaderWriterMutex::~ReaderFirstReaderWriterMutex() {}
 
 void ReaderFirstReaderWriterMutex::acquireReadLock() {
   std::unique_lock<std::mutex> lock(mutex_);
+  ++pending_readers_;
   while (current_writer_) {
     cv_writer_finished_.wait(lock);
   }
+  --pending_readers_;
   ++num_readers_;
 }
 
 void ReaderFirstReaderWriterMutex::acquireWriteLock() {
   std::unique_lock<std::mutex> lock(mutex_);
+  ++num_pending_writers_;
   while (true) {
     while (num_readers_ > (pending_upgrade_ ? 1 : 0)) {
       cv_readers_.wait(lock);
@@ -29,6 +32,7 @@ void ReaderFirstReaderWriterMutex::acquireWriteLock() {
       }
     }
   }
+  --num_pending_writers_;
   current_writer_ = true;
 }
 
-- 
2.43.0


From ece5544254e0d2d0298004337f66382a60f25f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 02/27] fix: wake up all waiting threads when a task is
 enqueued in the thread pool

---
 aslam_cv_common/include/aslam/common/thread-pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index af78aa0..e9cdf36 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -153,7 +153,9 @@ ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
       groupid_exclusivity_guards_.emplace(exclusivity_group_id, false);
     }
   }
-  tasks_queue_change_.notify_one();
+  // Workers and callers of waitForEmptyQueue() wait for the same signal, so waking up a single
+  // thread could miss the workers.
+  tasks_queue_change_.notify_all();
   return res;
 }
 
-- 
2.43.0


From 1679944d766612e4006d9e241faaff7122b616e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 03/27] fix: do not print a seconds part without digits for
 negative nine-digit timestamps

---
 aslam_cv_common/include/aslam/common/time.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/time.h b/aslam_cv_common/include/aslam/common/time.h
index 9308b5b..278336f 100644
--- a/aslam_cv_common/include/aslam/common/time.h
+++ b/aslam_cv_common/include/aslam/common/time.h
@@ -74,14 +74,16 @@ inline bool isValidTime(int64_t time) {
 
 inline std::string timeNanosecondsToString(const int64_t timestamp_nanoseconds) {
   const std::string timestamp_string = std::to_string(timestamp_nanoseconds);
-  const size_t num_digits = timestamp_string.size();
+  const size_t num_characters = timestamp_string.size();
+  const size_t num_digits =
+      timestamp_nanoseconds < 0 ? num_characters - 1u : num_characters;
   if (num_digits < 10u) {
     return timestamp_string + "ns";
   }
 
   const std::string timestamp_with_units =
-      timestamp_string.substr(0u, num_digits - 9u) + "s " +
-      timestamp_string.substr(num_digits - 9u) + "ns";
+      timestamp_string.substr(0u, num_characters - 9u) + "s " +
+      timestamp_string.substr(num_characters - 9u) + "ns";
   return timestamp_with_units;
 }
 
-- 
2.43.0


From b8d102bce3c1241fe9e2ffd7781d94343269ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 04/27] fix: refuse malformed data when reading a list of
 matrices

The reader trusted the announced number and sizes of the matrices and read
beyond the end of short buffers, and accepted buffers of the wrong length.
---
 .../include/aslam/common/channel-serialization.h          | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index c4d5161..dcfec6f 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -245,12 +245,16 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   CHECK_NOTNULL(matrices);
 
   size_t repeat;
+  CHECK_GE(size, sizeof(repeat));
   memcpy(&repeat, buffer, sizeof(repeat));
   size_t offset = sizeof(repeat);
 
+  HeaderInformation header;
+  // Every matrix comes with a header.
+  CHECK_LE(repeat, (size - offset) / header.size());
   matrices->resize(repeat);
   for (size_t i = 0; i < repeat; i++) {
-    HeaderInformation header;
+    CHECK_GE(size - offset, header.size());
     bool success = header.deSerializeFromBuffer(buffer, offset);
     if (!success) {
       LOG(ERROR) << "Failed to deserialize header from string: " <<
@@ -277,9 +281,11 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     }
 
     size_t matrix_size = sizeof(Scalar) * (*matrices)[i].rows() * (*matrices)[i].cols();
+    CHECK_GE(size - offset, matrix_size);
     memcpy((*matrices)[i].data(), buffer + offset, matrix_size);
     offset += matrix_size;
   }
+  CHECK_EQ(size, offset);
 
   return true;
 }
-- 
2.43.0


From 0f0c52d50797fa9c8c66a6434e24fdeeae94d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 05/27] fix: refuse image data with an impossible number of
 channels or size

A number of channels that OpenCV cannot represent made the image smaller than
the data copied into it, and the size check could wrap around.
---
 aslam_cv_common/src/channel-serialization.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/src/channel-serialization.cc b/aslam_cv_common/src/channel-serialization.cc
index 34caaa8..93eb691 100644
--- a/aslam_cv_common/src/channel-serialization.cc
+++ b/aslam_cv_common/src/channel-serialization.cc
@@ -101,7 +101,14 @@ void deSerializeTypedFromBuffer(const char* const buffer, size_t size,
                                 const HeaderInformation& header, cv::Mat* image) {
   CHECK_NOTNULL(buffer);
   CHECK_NOTNULL(image);
-  size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;
+  CHECK_GE(header.channels, 1u);
+  CHECK_LE(header.channels, static_cast<uint32_t>(CV_CN_MAX));
+  // Cannot overflow, unlike the size of the whole image.
+  const size_t row_size = sizeof(SCALAR) * header.cols * header.channels;
+  if (row_size > 0u) {
+    CHECK_LE(header.rows, (size - header.size()) / row_size);
+  }
+  size_t matrix_size = row_size * header.rows;
   size_t total_size = matrix_size + header.size();
   CHECK_EQ(size, total_size);
   int type = CV_MAKETYPE(cv::DataType<SCALAR>::depth, header.channels);
-- 
2.43.0


From c6881d5726046cb43e3c9b45914df4432652eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 06/27] fix: read large unsigned channel values back from text

Values of 64-bit unsigned channels above the largest signed value were
written but could not be read.
---
 aslam_cv_common/include/aslam/common/channel-serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index dcfec6f..847d701 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -323,7 +323,8 @@ bool deSerializeFromString(const std::string& string,
                            typename std::enable_if<std::is_integral<Scalar>::value>::type* = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stoll(string));
+  (*value) = std::is_unsigned<Scalar>::value ? static_cast<Scalar>(std::stoull(string))
+                                             : static_cast<Scalar>(std::stoll(string));
   return true;
 }
 
-- 
2.43.0


From e4e7c609f949b9426a1c457b1c1057a9c8e3736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 07/27] fix: compare channels whose values differ in size

Comparing matrices of different sizes aborted and comparing images of
different sizes or with several channels threw, instead of telling that the
channels differ.
---
 .../include/aslam/common/channel.h            | 32 ++++++++++++++++++-
 aslam_cv_common/src/channel.cc                |  7 +++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index d0bddea..a642650 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -18,6 +18,7 @@
 #include <mutex>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 #include <aslam/common/channel-serialization.h>
 #include <aslam/common/crtp-clone.h>
@@ -48,6 +49,35 @@ struct ChannelValueCloner :
 template<> struct ChannelValueCloner<cv::Mat> {
   static cv::Mat clone(const cv::Mat& value) { return value; }
 };
+
+// Comparison of matrices that may differ in size, which Eigen's own does not allow.
+template<typename ValueType>
+struct ChannelValueComparator {
+  static bool isEqual(const ValueType& left, const ValueType& right) { return left == right; }
+};
+template<typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
+struct ChannelValueComparator<Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>> {
+  typedef Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols> ValueType;
+  static bool isEqual(const ValueType& left, const ValueType& right) {
+    return left.rows() == right.rows() && left.cols() == right.cols() && left == right;
+  }
+};
+template<typename ValueType, typename Allocator>
+struct ChannelValueComparator<std::vector<ValueType, Allocator>> {
+  static bool isEqual(
+      const std::vector<ValueType, Allocator>& left,
+      const std::vector<ValueType, Allocator>& right) {
+    if (left.size() != right.size()) {
+      return false;
+    }
+    for (size_t i = 0u; i < left.size(); ++i) {
+      if (!ChannelValueComparator<ValueType>::isEqual(left[i], right[i])) {
+        return false;
+      }
+    }
+    return true;
+  }
+};
 }
 
 class ChannelBase {
@@ -100,7 +130,7 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
 
  private:
   bool equal_to(const Channel<TYPE>& other, std::true_type /*is_not_pointer */) {
-    return value_ == other.value_;
+    return internal::ChannelValueComparator<TYPE>::isEqual(value_, other.value_);
   }
   bool equal_to(const Channel<TYPE>& other, std::false_type /*is_not_pointer */) {
     if (other == nullptr && value_ == nullptr) {
diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index ae75d0f..3ac0ff5 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -9,7 +9,12 @@ namespace channels {
 
 template<>
 bool Channel<cv::Mat>::operator==(const Channel<cv::Mat>& other) {
-  return cv::countNonZero(value_ != other.value_) == 0;
+  if (value_.size() != other.value_.size() || value_.type() != other.value_.type()) {
+    return false;
+  }
+  // Counting works on single-channel images only.
+  return value_.empty() ||
+      cv::countNonZero(value_.reshape(1) != other.value_.reshape(1)) == 0;
 }
 
 ChannelGroup cloneChannelGroup(const ChannelGroup& channels) {
-- 
2.43.0


From 97f2331d3aea67e583015ab93e8feced3dc9afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 08/27] fix: lock both channel groups at once when comparing
 them

Two threads comparing the same groups the other way round could block each
other forever.
---
 aslam_cv_common/src/channel.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index 3ac0ff5..40af642 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -33,8 +33,10 @@ bool isChannelGroupEqual(const ChannelGroup& left_channels, const ChannelGroup&
   if (&left_channels == &right_channels) {
     return true;
   }
-  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_);
-  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_);
+  // Lock both at once, another thread may compare the same groups the other way round.
+  std::lock(left_channels.m_channels_, right_channels.m_channels_);
+  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_, std::adopt_lock);
+  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_, std::adopt_lock);
 
   if (left_channels.channels_.size() != right_channels.channels_.size()) {
     return false;
-- 
2.43.0


From 8fee8e30b566a05694cc93bf200afeb6455f7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 09/27] fix: erasing no indices from a matrix must not read
 past an empty list

---
 aslam_cv_common/include/aslam/common/stl-helpers-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
index e8ab541..24d02b1 100644
--- a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
+++ b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
@@ -117,11 +117,11 @@ void eraseIndicesFromContainer(
     ContainerType* container) {
   CHECK_NOTNULL(container);
   CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);
-  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   if (ordered_indices_to_erase.empty()) {
     return;
   }
+  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   const size_t erase_count = ordered_indices_to_erase.size();
   CHECK_LE(erase_count, expected_initial_count);
-- 
2.43.0


From 48d29fed01db32fcca825d47fe8bcf28a1d23c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 10/27] fix: thinning the grid must be able to take the last
 point of a cell

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index d667f34..bf59ef3 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -268,8 +268,6 @@ void WeightedOccupancyGrid<PointType>::removePointsFromFullestCellsUntilSize(
 template<typename PointType>
 size_t WeightedOccupancyGrid<PointType>::removeWeightedPointsFromOverfullCell(
     const GridCoordinates& grid_coords, size_t max_points_per_cell) {
-  CHECK_GT(max_points_per_cell, 0u);
-
   PointList& cell = getGridCell(grid_coords);
   if (cell.size() <= max_points_per_cell) {
     return 0u;
-- 
2.43.0


From ec256f5dd463a6971d2ee3653ec9f0add3e2478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 11/27] fix: conflicting grid points may all have the lowest
 possible weight

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index bf59ef3..f9dabc9 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -163,14 +163,13 @@ void WeightedOccupancyGrid<PointType>::addPointOrReplaceWeakestNearestPoints(
       const WeightType point_weight =
           cell[point_indices[violator_index]].weight;
 
-      if (point_weight > highest_weight) {
+      if (highest_weight_cell == nullptr || point_weight > highest_weight) {
         highest_weight = point_weight;
         highest_weight_cell = CHECK_NOTNULL(&cell);
         highest_weight_violator_idx = violator_index;
       }
     }
   }
-  CHECK_GT(highest_weight, std::numeric_limits<WeightType>::lowest());
   CHECK_NOTNULL(highest_weight_cell);
   CHECK_GE(highest_weight_violator_idx, 0);
   CHECK_LT(highest_weight_violator_idx, distance_violating_points[highest_weight_cell].size());
-- 
2.43.0


From 53e54593d45a25b8b6f7faad9212459aacd98ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 12/27] fix: rounding must not move a point inside the
 occupancy grid out of it

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index f9dabc9..8a33d5e 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -382,8 +382,11 @@ WeightedOccupancyGrid<PointType>::inputToGridCoordinates(
     CoordinatesType u_rows, CoordinatesType v_cols) {
   CHECK(isValidInputCoordinate(u_rows, v_cols))
       << "u_rows: " << u_rows << ", v_cols: " << v_cols;
-  const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
-  const size_t grid_col = static_cast<size_t>(std::floor(v_cols / cell_size_cols_));
+  // The division may round up to the end of the grid for points just inside of it.
+  const size_t grid_row = std::min(
+      static_cast<size_t>(std::floor(u_rows / cell_size_rows_)), num_grid_rows_ - 1u);
+  const size_t grid_col = std::min(
+      static_cast<size_t>(std::floor(v_cols / cell_size_cols_)), num_grid_cols_ - 1u);
 
   GridCoordinates grid_coordinates(grid_row, grid_col);
   return grid_coordinates;
-- 
2.43.0


From 8ba3f9613b46c08286ff8cb500fb88417c8bacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 13/27] fix: reports of statistics and timers must not read the
 registry without its lock

---
 aslam_cv_common/src/statistics.cc | 18 ++++++++++++++----
 aslam_cv_common/src/timer.cc      | 10 ++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_common/src/statistics.cc b/aslam_cv_common/src/statistics.cc
index fdb822d..60ba39b 100644
--- a/aslam_cv_common/src/statistics.cc
+++ b/aslam_cv_common/src/statistics.cc
@@ -195,7 +195,13 @@ std::string Statistics::SecondsToTimeString(double seconds) {
 }
 
 void Statistics::Print(std::ostream& out) {  // NOLINT
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  size_t max_tag_length;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -203,7 +209,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   out << "Statistics\n";
 
-  out.width((std::streamsize)Instance().max_tag_length_);
+  out.width((std::streamsize)max_tag_length);
   out.setf(std::ios::left, std::ios::adjustfield);
   out << "-----------";
   out.width(7);
@@ -215,7 +221,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   for (const typename map_t::value_type& t : tag_map) {
     size_t i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
@@ -239,7 +245,11 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 }
 
 void Statistics::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+  }
 
   if (tag_map.empty()) {
     return;
diff --git a/aslam_cv_common/src/timer.cc b/aslam_cv_common/src/timer.cc
index 442012d..86c3df4 100755
--- a/aslam_cv_common/src/timer.cc
+++ b/aslam_cv_common/src/timer.cc
@@ -186,7 +186,11 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -225,9 +229,11 @@ void Timing::WriteToYamlFile(const std::string& path) {
 
 void Timing::Print(std::ostream& out) {  // NOLINT
   map_t tagMap;
+  size_t max_tag_length;
   {
     std::lock_guard<std::mutex> lock(Instance().mutex_);
     tagMap = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
   }
 
   if (tagMap.empty()) {
@@ -238,7 +244,7 @@ void Timing::Print(std::ostream& out) {  // NOLINT
   out << "-----------\n";
   for (typename map_t::value_type t : tagMap) {
     size_t time_i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
-- 
2.43.0


From a8c006d6f9e3598580ac54d2de0e3e204bf7e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 14/27] fix: derivative of the equidistant distortion at the
 image centre is the identity

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 7a822e2..9434841 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -38,7 +38,7 @@ void EquidistantDistortion::distortUsingExternalCoefficients(
   if (r < 1e-10) {
     // Keypoint remains unchanged.
     if(out_jacobian)
-      out_jacobian->setZero();
+      out_jacobian->setIdentity();
     return;
   }
 
-- 
2.43.0


From 0199b9b5821590e368c6a270d1d57c966e775dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 15/27] fix: parameter Jacobian of a distortion without given
 coefficients uses the internal ones

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 3 +++
 aslam_cv_cameras/src/distortion-fisheye.cc     | 3 +++
 aslam_cv_cameras/src/distortion-radtan.cc      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 9434841..d22cc8a 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -110,6 +110,9 @@ void EquidistantDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 48ae4c3..0762ca8 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -82,6 +82,9 @@ void FisheyeDistortion::distortUsingExternalCoefficients(const Eigen::VectorXd*
 void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coeffs,
                                                  const Eigen::Vector2d& point,
                                                  Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-radtan.cc b/aslam_cv_cameras/src/distortion-radtan.cc
index 12deb37..3d0da9c 100644
--- a/aslam_cv_cameras/src/distortion-radtan.cc
+++ b/aslam_cv_cameras/src/distortion-radtan.cc
@@ -68,6 +68,9 @@ void RadTanDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
-- 
2.43.0


From 839f8e9c8e8ead06b1934ace6bb620ecbd63397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 16/27] fix: parameter Jacobian of the fisheye distortion near
 the image centre depends on the point

---
 aslam_cv_cameras/src/distortion-fisheye.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 0762ca8..f1b10ff 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -103,8 +103,8 @@ void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coe
     out_jacobian->setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    out_jacobian->setOnes();
-    *out_jacobian *= (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
+    // The distorted point is the point times 2 * tan(w / 2) / w.
+    *out_jacobian = point * ((w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2)));
   }
   else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From 4540ad06cd446aa0e68508853d7ce2c2c708f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 17/27] fix: accept every corner id of the target when looking
 up an observed corner

---
 .../include/aslam/calibration/target-observation.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/target-observation.h b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
index 9334ddd..a0f5357 100644
--- a/aslam_cv_calibration/include/aslam/calibration/target-observation.h
+++ b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
@@ -78,7 +78,7 @@ class TargetObservation {
   }
 
   bool getObservedCornerById(int corner_id, Eigen::Vector2d* obs_corner) const {
-    CHECK_LT(corner_id, corner_ids_.rows());
+    CHECK_LT(corner_id, target_->size());
 
     for (int i = 0; i < corner_ids_.rows(); ++i) {
       if (corner_id == corner_ids_(i)) {
-- 
2.43.0


From 9e6e48689657d49c764b2a4e0a1681410f1fc228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 18/27] fix: do not read before the step list when reordering a
 single FED step

---
 aslam_cv_detector/src/kaze/fed.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/fed.cpp b/aslam_cv_detector/src/kaze/fed.cpp
index 54dab84..402dd11 100644
--- a/aslam_cv_detector/src/kaze/fed.cpp
+++ b/aslam_cv_detector/src/kaze/fed.cpp
@@ -92,7 +92,7 @@ int fed_tau_internal(const int n, const float scale, const float tau_max,
 
     // Choose kappa cycle with k = n/2
     // This is a heuristic. We can use Leja ordering instead!!
-    int kappa = n / 2;
+    int kappa = (n > 1) ? n / 2 : 1;
 
     // Get modulus for permutation
     int prime = n + 1;
-- 
2.43.0


From ab1ccac6bf1c95cd14f81ed7b35b3385c1a3d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 19/27] fix: implicit diffusion of images that are not square
 wrote beyond its buffer

---
 aslam_cv_detector/src/kaze/KAZE.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index 4b0283a..4fcf3a3 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -82,7 +82,7 @@ void KAZE::Allocate_Memory_Evolution() {
   }
   // Allocate memory for the auxiliary variables that are used in the AOS scheme
   else {
-    Ltx_.create(size, CV_32F);
+    Ltx_.create(cv::Size(options_.img_height, options_.img_width), CV_32F);  // Transposed.
     Lty_.create(size, CV_32F);
     px_.create(size, CV_32F);
     py_.create(size, CV_32F);
-- 
2.43.0


From 2ed882b57348878dd30f613d0024ced119e19214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 20/27] fix: Jacobian of Camera::project4 for points with a
 negative last coordinate

---
 aslam_cv_cameras/src/camera.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 9a6babb..a0c06da 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -365,6 +365,10 @@ const ProjectionResult Camera::project4(
 
   Eigen::Matrix<double, 2, 3> Je;
   ProjectionResult ret = project3(point_3d, out_keypoint, &Je);
+  if (point_4d[3] < 0) {
+    // The projected point is the negated head of the homogeneous point.
+    Je = -Je;
+  }
   out_jacobian->setZero();
   out_jacobian->topLeftCorner<2, 3>() = Je;
 
-- 
2.43.0


From 29c502e5da9ad0914bdc225fb5ef380bbed56aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:15 +0000
Subject: [PATCH 21/27] fix: look up cameras of a rig without distortion by
 their new ids

---
 aslam_cv_cameras/src/ncamera.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index c3b9ce0..64fb52f 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -339,6 +339,9 @@ aslam::NCamera::Ptr NCamera::cloneRigWithoutDistortion() const {
     camera->setId(cam_id);
   }
 
+  // The ids have changed: rebuild the id to index map.
+  rig_without_distortion->initInternal();
+
   aslam::NCameraId ncam_id;
   generateId(&ncam_id);
   rig_without_distortion->setId(ncam_id);
-- 
2.43.0


From 322227e039a4f7709591274b5dcb70c5f36d6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:55 +0000
Subject: [PATCH 22/27] fix: keypoint index checks of VisualFrame did not
 refuse indices beyond the range of int

---
 aslam_cv_frames/src/visual-frame.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 5dce032..1692a07 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -172,44 +172,44 @@ const Eigen::Block<const Eigen::Matrix2Xd, 2, 1>
 VisualFrame::getKeypointMeasurement(size_t index) const {
   const Eigen::Matrix2Xd& keypoints =
       aslam::channels::get_VISUAL_KEYPOINT_MEASUREMENTS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), keypoints.cols());
+  CHECK_LT(index, static_cast<size_t>(keypoints.cols()));
   return keypoints.block<2, 1>(0, index);
 }
 double VisualFrame::getKeypointMeasurementUncertainty(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_MEASUREMENT_UNCERTAINTIES_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 double VisualFrame::getKeypointOrientation(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_ORIENTATIONS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 double VisualFrame::getKeypointScore(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_SCORES_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 double VisualFrame::getKeypointScale(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_SCALES_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 const Eigen::Block<const Eigen::Matrix3Xd, 3, 1>
 VisualFrame::getKeypoint3DPosition(size_t index) const {
   const Eigen::Matrix3Xd& data =
       aslam::channels::get_VISUAL_KEYPOINT_3D_POSITIONS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.cols());
+  CHECK_LT(index, static_cast<size_t>(data.cols()));
   return data.block<3, 1>(0, index);
 }
 int VisualFrame::getKeypointTimeOffset(size_t index) const {
   const Eigen::VectorXi& data =
       aslam::channels::get_VISUAL_KEYPOINT_TIME_OFFSETS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 
@@ -236,7 +236,7 @@ const unsigned char* VisualFrame::getDescriptor(size_t index) const {
 int VisualFrame::getTrackId(size_t index) const {
   const Eigen::VectorXi& track_ids =
       aslam::channels::get_TRACK_IDS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), track_ids.rows());
+  CHECK_LT(index, static_cast<size_t>(track_ids.rows()));
   return track_ids.coeff(index, 0);
 }
 
-- 
2.43.0


From 4c8c1e69b43ff8fd1229646a599bddcd8f7b5fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:55 +0000
Subject: [PATCH 23/27] fix: count keypoints of a type in frames without
 descriptors as none instead of aborting

---
 aslam_cv_frames/src/visual-frame.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 1692a07..1175b67 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -855,11 +855,11 @@ size_t VisualFrame::getNumKeypointMeasurementsOfType(int descriptor_type) const
     return 0u;
   }
 
-  const std::vector<VisualFrame::DescriptorsT>& descriptors =
-      aslam::channels::get_DESCRIPTORS_Data(channels_);
   if (!hasDescriptorType(descriptor_type)) {
     return 0u;
   }
+  const std::vector<VisualFrame::DescriptorsT>& descriptors =
+      aslam::channels::get_DESCRIPTORS_Data(channels_);
   const size_t block = getDescriptorTypeBlock(descriptor_type);
   CHECK_LT(block, descriptors.size());
   return descriptors[block].cols();
-- 
2.43.0


From d59e1e1cc78df8e5d120288249f3b9e8383d13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:55 +0000
Subject: [PATCH 24/27] fix: discard 3D positions, time offsets and all
 descriptor types of untracked observations

---
 aslam_cv_frames/src/visual-frame.cc | 33 +++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 1175b67..a238dbb 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -606,11 +606,36 @@ void VisualFrame::discardUntrackedObservations(
     common::stl_helpers::eraseIndicesFromContainer(
         *discarded_indices, original_count, getKeypointScalesMutable());
   }
-  if (hasDescriptors()) {
-    common::stl_helpers::OneDimensionAdapter<unsigned char,
-    common::stl_helpers::kColumns> adapter(getDescriptorsMutable());
+  if (hasKeypoint3DPositions()) {
+    common::stl_helpers::eraseIndicesFromContainer(
+        *discarded_indices, original_count, getKeypoint3DPositionsMutable());
+  }
+  if (hasKeypointTimeOffsets()) {
     common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count, &adapter);
+        *discarded_indices, original_count, getKeypointTimeOffsetsMutable());
+  }
+  if (hasDescriptors()) {
+    CHECK_EQ(getNumDescriptors(), static_cast<size_t>(original_count));
+    // The descriptors of each feature type are stored in a separate block.
+    size_t block_start = 0u;
+    std::vector<size_t>::const_iterator it = discarded_indices->begin();
+    for (VisualFrame::DescriptorsT& descriptors :
+         aslam::channels::get_DESCRIPTORS_Data(channels_)) {
+      const size_t block_size = descriptors.cols();
+      std::vector<size_t> discarded_in_block;
+      while (it != discarded_indices->end() && *it < block_start + block_size) {
+        discarded_in_block.emplace_back(*it - block_start);
+        ++it;
+      }
+      block_start += block_size;
+      if (discarded_in_block.empty()) {
+        continue;
+      }
+      common::stl_helpers::OneDimensionAdapter<unsigned char,
+      common::stl_helpers::kColumns> adapter(&descriptors);
+      common::stl_helpers::eraseIndicesFromContainer(
+          discarded_in_block, block_size, &adapter);
+    }
   }
   common::stl_helpers::eraseIndicesFromContainer(
       *discarded_indices, original_count, getTrackIdsMutable());
-- 
2.43.0


From 26bc96c2e4e860bccc82ae42205cdfa228b4b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:55 +0000
Subject: [PATCH 25/27] fix: clear all descriptor types, 3D positions and time
 offsets with the keypoints of a frame

---
 aslam_cv_frames/src/visual-frame.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index a238dbb..ce05339 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -450,6 +450,20 @@ void VisualFrame::clearKeypointChannels() {
   setKeypointOrientations(zero_vector_double);
   setKeypointScores(zero_vector_double);
   setKeypointScales(zero_vector_double);
+  if (hasKeypoint3DPositions()) {
+    setKeypoint3DPositions(Eigen::Matrix3Xd());
+  }
+  if (hasKeypointTimeOffsets()) {
+    setKeypointTimeOffsets(zero_vector_int);
+  }
+  if (hasDescriptors()) {
+    // Remove the blocks of all feature types.
+    aslam::channels::get_DESCRIPTORS_Data(channels_).clear();
+    if (!aslam::channels::has_DESCRIPTOR_TYPES_Channel(channels_)) {
+      aslam::channels::add_DESCRIPTOR_TYPES_Channel(&channels_);
+    }
+    aslam::channels::get_DESCRIPTOR_TYPES_Data(channels_).resize(0);
+  }
   setDescriptors(aslam::VisualFrame::DescriptorsT());
 }
 
-- 
2.43.0


From 377e014921794440f61aae9c8610a5aef4119bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:55 +0000
Subject: [PATCH 26/27] fix: assigning a VisualNFrame to itself lost its frames

---
 aslam_cv_frames/src/visual-nframe.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index 09ab075..ad1970f 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -39,6 +39,9 @@ VisualNFrame::VisualNFrame(const VisualNFrame& other) {
 }
 
 VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {
+  if (this == &other) {
+    return *this;
+  }
   id_ = other.id_;
   camera_rig_ = other.camera_rig_;
   frames_.clear();
-- 
2.43.0


From e6cb07f384737ce98e965259bc952076b94b097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:55 +0000
Subject: [PATCH 27/27] fix: disparity bounding box of feature tracks with
 negative coordinates

---
 aslam_cv_frames/include/aslam/frames/feature-track.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/include/aslam/frames/feature-track.h b/aslam_cv_frames/include/aslam/frames/feature-track.h
index 3e6a8f0..fef1390 100644
--- a/aslam_cv_frames/include/aslam/frames/feature-track.h
+++ b/aslam_cv_frames/include/aslam/frames/feature-track.h
@@ -25,9 +25,9 @@ class FeatureTrack {
 
   inline double getDiagonalSqOfDisparityBoundingBox() const {
     double u_min = std::numeric_limits<double>::max();
-    double u_max = std::numeric_limits<double>::min();
+    double u_max = std::numeric_limits<double>::lowest();
     double v_min = std::numeric_limits<double>::max();
-    double v_max = std::numeric_limits<double>::min();
+    double v_max = std::numeric_limits<double>::lowest();
 
     for (const KeypointIdentifier& kid : getKeypointIdentifiers()) {
       const Eigen::Block<const Eigen::Matrix2Xd, 2, 1> keypoint = kid.getKeypointMeasurement();
-- 
2.43.0

