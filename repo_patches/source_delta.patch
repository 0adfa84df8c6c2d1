From 8574afaa2ccb6ae5c8d28b3ed920b585bd316ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 01/16] fix: reset voxel search offsets before setting the
 27-neighbor pattern

---
 include/small_gicp/ann/incremental_voxelmap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index faa74f0..6ca65ef 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -173,6 +173,7 @@ public:
           Eigen::Vector3i(0, 0, -1)};
         break;
       case 27:
+        search_offsets.clear();
         for (int i = -1; i <= 1; i++) {
           for (int j = -1; j <= 1; j++) {
             for (int k = -1; k <= 1; k++) {
-- 
2.43.0


From 594c71e586efc255c4e15fa7018de91d4ab1ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 02/16] fix: do not output out-of-range points in voxelgrid
 downsampling

---
 include/small_gicp/util/downsampling.hpp     | 5 +++++
 include/small_gicp/util/downsampling_omp.hpp | 5 +++++
 include/small_gicp/util/downsampling_tbb.hpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 97aab23..447b3bd 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -53,6 +53,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   const auto compare = [](const auto& lhs, const auto& rhs) { return lhs.first < rhs.first; };
   std::sort(coord_pt.begin(), coord_pt.end(), compare);
 
+  // Invalid points are sorted to the end. Nothing to do if there is no valid point.
+  if (coord_pt.front().first == invalid_coord) {
+    return std::make_shared<OutputPointCloud>();
+  }
+
   auto downsampled = std::make_shared<OutputPointCloud>();
   traits::resize(*downsampled, traits::size(points));
 
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index b616fe7..21a6a26 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -64,6 +64,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 4)
   for (std::int64_t block_begin = 0; block_begin < traits::size(points); block_begin += block_size) {
+    // Invalid points are sorted to the end. This block contains no valid points.
+    if (coord_pt[block_begin].first == invalid_coord) {
+      continue;
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index 8d5746e..987b194 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -64,6 +64,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   const int block_size = 2048;
   std::atomic_uint64_t num_points = 0;
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), block_size), [&](const tbb::blocked_range<size_t>& range) {
+    // Invalid points are sorted to the end. This block contains no valid points.
+    if (coord_pt[range.begin()].first == invalid_coord) {
+      return;
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
-- 
2.43.0


From c9f1e6f20601e32506b7b76138154a45b45ea274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 03/16] fix: check only xyz coordinates for the voxel range in
 downsampling

---
 include/small_gicp/util/downsampling.hpp     | 2 +-
 include/small_gicp/util/downsampling_omp.hpp | 2 +-
 include/small_gicp/util/downsampling_tbb.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 447b3bd..125a2dc 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -34,7 +34,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
 
   std::vector<std::pair<std::uint64_t, size_t>> coord_pt(traits::size(points));
   for (size_t i = 0; i < traits::size(points); i++) {
-    const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
+    const Eigen::Array3i coord = fast_floor(traits::point(points, i) * inv_leaf_size).template head<3>() + coord_offset;
     if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
       std::cerr << "warning: voxel coord is out of range!!" << std::endl;
       coord_pt[i] = {invalid_coord, i};
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index 21a6a26..602f903 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -38,7 +38,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
   std::vector<std::pair<std::uint64_t, size_t>> coord_pt(traits::size(points));
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 32)
   for (std::int64_t i = 0; i < traits::size(points); i++) {
-    const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
+    const Eigen::Array3i coord = fast_floor(traits::point(points, i) * inv_leaf_size).template head<3>() + coord_offset;
     if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
       std::cerr << "warning: voxel coord is out of range!!" << std::endl;
       coord_pt[i] = {invalid_coord, i};
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index 987b194..1b2cfd7 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -38,7 +38,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   std::vector<std::pair<std::uint64_t, size_t>> coord_pt(traits::size(points));
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), 64), [&](const tbb::blocked_range<size_t>& range) {
     for (size_t i = range.begin(); i != range.end(); i++) {
-      const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
+      const Eigen::Array3i coord = fast_floor(traits::point(points, i) * inv_leaf_size).template head<3>() + coord_offset;
       if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
         std::cerr << "warning: voxel coord is out of range!!" << std::endl;
         coord_pt[i] = {invalid_coord, i};
-- 
2.43.0


From 6247ea5fcc802d5d1e1fef6ee6a73057403a73c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 04/16] fix: return no neighbors when searching an empty kdtree

---
 include/small_gicp/ann/kdtree.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index b0d7b34..c556752 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -171,6 +171,9 @@ public:
   /// @return             Number of found neighbors
   size_t knn_search(const Eigen::Vector4d& query, int k, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
     KnnResult<-1> result(k_indices, k_sq_dists, k);
+    if (nodes.empty()) {
+      return 0;
+    }
     knn_search(query, root, result, setting);
     return result.num_found();
   }
@@ -184,6 +187,9 @@ public:
   template <int N>
   size_t knn_search(const Eigen::Vector4d& query, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
     KnnResult<N> result(k_indices, k_sq_dists);
+    if (nodes.empty()) {
+      return 0;
+    }
     knn_search(query, root, result, setting);
     return result.num_found();
   }
-- 
2.43.0


From 52fdc452d40d96fbdb4e45a2b031713e02b65e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 05/16] fix: allocate enough kdtree nodes for small leaf sizes

---
 include/small_gicp/ann/kdtree.hpp     | 2 +-
 include/small_gicp/ann/kdtree_omp.hpp | 2 +-
 include/small_gicp/ann/kdtree_tbb.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index c556752..2435dae 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -82,7 +82,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     size_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(traits::size(points) * 2);  // 2N-1 nodes at maximum (max_leaf_size=1)
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
diff --git a/include/small_gicp/ann/kdtree_omp.hpp b/include/small_gicp/ann/kdtree_omp.hpp
index 2968a5e..de32e72 100644
--- a/include/small_gicp/ann/kdtree_omp.hpp
+++ b/include/small_gicp/ann/kdtree_omp.hpp
@@ -26,7 +26,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(traits::size(points) * 2);  // 2N-1 nodes at maximum (max_leaf_size=1)
 
 #ifndef _MSC_VER
 #pragma omp parallel num_threads(num_threads)
diff --git a/include/small_gicp/ann/kdtree_tbb.hpp b/include/small_gicp/ann/kdtree_tbb.hpp
index 890fbb8..b451edc 100644
--- a/include/small_gicp/ann/kdtree_tbb.hpp
+++ b/include/small_gicp/ann/kdtree_tbb.hpp
@@ -18,7 +18,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(traits::size(points) * 2);  // 2N-1 nodes at maximum (max_leaf_size=1)
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
-- 
2.43.0


From e0c58141c55c178364ded19bd99f9b979f0803e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 06/16] fix: add the general factor error to the error of the
 new estimate in LM

---
 include/small_gicp/registration/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/registration/optimizer.hpp b/include/small_gicp/registration/optimizer.hpp
index cfbf52f..430c5fa 100644
--- a/include/small_gicp/registration/optimizer.hpp
+++ b/include/small_gicp/registration/optimizer.hpp
@@ -111,7 +111,7 @@ struct LevenbergMarquardtOptimizer {
         // Validte new solution
         const Eigen::Isometry3d new_T = result.T_target_source * se3_exp(delta);
         double new_e = reduction.error(target, source, new_T, factors);
-        general_factor.update_error(target, source, new_T, &e);
+        general_factor.update_error(target, source, new_T, &new_e);
 
         if (verbose) {
           std::cout << "iter=" << i << " inner=" << j << " e=" << e << " new_e=" << new_e << " lambda=" << lambda << " dt=" << delta.tail<3>().norm()
-- 
2.43.0


From 5abb774b8caa7c00180bcf33f1858e75f784f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 07/16] fix: use max_correspondence_distance for VGICP in the
 registration helper

---
 src/small_gicp/registration/registration_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 73b01bd..2168d9c 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -129,6 +129,7 @@ RegistrationResult align(const GaussianVoxelMap& target, const PointCloud& sourc
 
   Registration<GICPFactor, ParallelReductionOMP> registration;
   registration.reduction.num_threads = setting.num_threads;
+  registration.rejector.max_dist_sq = setting.max_correspondence_distance * setting.max_correspondence_distance;
   registration.criteria.rotation_eps = setting.rotation_eps;
   registration.criteria.translation_eps = setting.translation_eps;
   registration.optimizer.max_iterations = setting.max_iterations;
-- 
2.43.0


From 2fd38f1c9cd74df77cb764b4131335c60c845a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 08/16] fix: pass num_threads to downsampling in
 preprocess_points

---
 src/small_gicp/registration/registration_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 2168d9c..d1209ba 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -26,7 +26,7 @@ std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> preprocess_point
     estimate_normals_covariances(*downsampled, *kdtree, num_neighbors);
     return {downsampled, kdtree};
   } else {
-    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution);
+    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution, num_threads);
     auto kdtree = std::make_shared<KdTree<PointCloud>>(downsampled);
     estimate_normals_covariances_omp(*downsampled, *kdtree, num_neighbors, num_threads);
     return {downsampled, kdtree};
-- 
2.43.0


From d6bcd97da2012b6e51b23b8ff27bcd986770bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 09/16] fix: validate the given voxel resolution in
 RegistrationPCL::setVoxelResolution

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 315ff67..9d5ba79 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -159,7 +159,7 @@ void RegistrationPCL<PointSource, PointTarget>::setNumNeighborsForCovariance(int
 
 template <typename PointSource, typename PointTarget>
 void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
-  if (voxel_resolution_ <= 0) {
+  if (r <= 0) {
     PCL_ERROR("[RegistrationPCL::setVoxelResolution] Invalid voxel resolution: %f\n", r);
     r = 1.0;
   }
-- 
2.43.0


From 96451cb377f615e1001963ebb2a56d7710a545cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 10/16] fix: invalidate voxelmaps of RegistrationPCL when
 resolution or covariances change

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 9d5ba79..e22f500 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -74,6 +74,7 @@ void RegistrationPCL<PointSource, PointTarget>::setSourceCovariances(const std::
   }
 
   source_covs_ = covs;
+  source_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -89,6 +90,7 @@ void RegistrationPCL<PointSource, PointTarget>::setTargetCovariances(const std::
   }
 
   target_covs_ = covs;
+  target_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -164,6 +166,11 @@ void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
     r = 1.0;
   }
 
+  if (voxel_resolution_ != r) {
+    source_voxelmap_.reset();
+    target_voxelmap_.reset();
+  }
+
   voxel_resolution_ = r;
 }
 
-- 
2.43.0


From b56ad505e395af3549eb8241937490f151acca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 11/16] fix: refresh the PCL target search tree after
 RegistrationPCL::swapSourceAndTarget

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index e22f500..74c98d4 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -117,6 +117,8 @@ void RegistrationPCL<PointSource, PointTarget>::swapSourceAndTarget() {
   source_tree_.swap(target_tree_);
   source_covs_.swap(target_covs_);
   source_voxelmap_.swap(target_voxelmap_);
+  this->target_cloud_updated_ = true;
+  this->source_cloud_updated_ = true;
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From 39e9f95912fa97cf27c8bd873bd8683a06b3c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 12/16] fix: keep points on the image border (lon=180deg,
 lat=+-90deg) in projective search

---
 include/small_gicp/ann/projective_search.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/small_gicp/ann/projective_search.hpp b/include/small_gicp/ann/projective_search.hpp
index 3a542ef..5e19948 100644
--- a/include/small_gicp/ann/projective_search.hpp
+++ b/include/small_gicp/ann/projective_search.hpp
@@ -53,8 +53,8 @@ public:
     for (size_t i = 0; i < traits::size(points); ++i) {
       const Eigen::Vector4d pt = traits::point(points, i);
       const Eigen::Vector2d uv = project(pt.head<3>());
-      const int u = uv[0] * index_map.cols();
-      const int v = uv[1] * index_map.rows();
+      const int u = std::min<int>(uv[0] * index_map.cols(), index_map.cols() - 1);
+      const int v = std::min<int>(uv[1] * index_map.rows(), index_map.rows() - 1);
 
       if (u < 0 || u >= index_map.cols() || v < 0 || v >= index_map.rows()) {
         continue;
@@ -107,8 +107,8 @@ private:
 
     Projection project;
     const Eigen::Vector2d uv = project(query.head<3>());
-    const int u = uv[0] * index_map.cols();
-    const int v = uv[1] * index_map.rows();
+    const int u = std::min<int>(uv[0] * index_map.cols(), index_map.cols() - 1);
+    const int v = std::min<int>(uv[1] * index_map.rows(), index_map.rows() - 1);
 
     for (int dv = -search_window_v; dv <= search_window_v; dv++) {
       const int v_clamped = border_v(v + dv, index_map.rows());
-- 
2.43.0


From d4bdecb517ad13bd9a0b43b146dad84770ad38bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 13/16] fix: Python bindings raise TypeError instead of
 crashing when None is passed as a point cloud

---
 src/python/align.cpp      | 4 ++--
 src/python/kdtree.cpp     | 2 +-
 src/python/preprocess.cpp | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/align.cpp b/src/python/align.cpp
index 86d4884..a1b1312 100644
--- a/src/python/align.cpp
+++ b/src/python/align.cpp
@@ -182,8 +182,8 @@ void define_align(py::module& m) {
       }
       return align(*target, *source, *target_tree, Eigen::Isometry3d(init_T_target_source), setting);
     },
-    py::arg("target"),
-    py::arg("source"),
+    py::arg("target").none(false),
+    py::arg("source").none(false),
     py::arg("target_tree") = nullptr,
     py::arg("init_T_target_source") = Eigen::Matrix4d::Identity(),
     py::arg("registration_type") = "GICP",
diff --git a/src/python/kdtree.cpp b/src/python/kdtree.cpp
index 5003935..e0341bf 100644
--- a/src/python/kdtree.cpp
+++ b/src/python/kdtree.cpp
@@ -49,7 +49,7 @@ void define_kdtree(py::module& m) {
 
     .def(
       py::init([](const PointCloud::ConstPtr& points, int num_threads) { return std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads)); }),
-      py::arg("points"),
+      py::arg("points").none(false),
       py::arg("num_threads") = 1,
       R"""(
         KdTree(points: PointCloud, num_threads: int = 1)
diff --git a/src/python/preprocess.cpp b/src/python/preprocess.cpp
index a849c2a..307ab7b 100644
--- a/src/python/preprocess.cpp
+++ b/src/python/preprocess.cpp
@@ -118,7 +118,7 @@ void define_preprocess(py::module& m) {
         estimate_normals_omp(*points, *tree, num_neighbors, num_threads);
       }
     },
-    py::arg("points"),
+    py::arg("points").none(false),
     py::arg("tree") = nullptr,
     py::arg("num_neighbors") = 20,
     py::arg("num_threads") = 1,
@@ -152,7 +152,7 @@ void define_preprocess(py::module& m) {
         estimate_covariances_omp(*points, *tree, num_neighbors, num_threads);
       }
     },
-    py::arg("points"),
+    py::arg("points").none(false),
     py::arg("tree") = nullptr,
     py::arg("num_neighbors") = 20,
     py::arg("num_threads") = 1,
@@ -186,7 +186,7 @@ void define_preprocess(py::module& m) {
         estimate_normals_covariances_omp(*points, *tree, num_neighbors, num_threads);
       }
     },
-    py::arg("points"),
+    py::arg("points").none(false),
     py::arg("tree") = nullptr,
     py::arg("num_neighbors") = 20,
     py::arg("num_threads") = 1,
-- 
2.43.0


From e4893e1f5041697a5d2ccb173a35f903ed7679dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 14/16] fix: voxel_covs of the Python voxel maps returns the
 documented list of 4x4 matrices

---
 src/python/voxelmap.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/python/voxelmap.cpp b/src/python/voxelmap.cpp
index 380b0f9..a9433c4 100644
--- a/src/python/voxelmap.cpp
+++ b/src/python/voxelmap.cpp
@@ -128,10 +128,7 @@ auto define_class(py::module& m, const std::string& name) {
   if constexpr (has_covs) {
     vox.def(
       "voxel_covs",
-      [](const VoxelMap& voxelmap) -> Eigen::MatrixXd {
-        auto covs = traits::voxel_covs(voxelmap);
-        return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(covs[0].data(), covs.size(), 16);
-      },
+      [](const VoxelMap& voxelmap) { return traits::voxel_covs(voxelmap); },
       R"pbdoc(
         Get the voxel normals.
 
-- 
2.43.0


From f2432f95f1072b1a8389f3ef25d9f1b0277188f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 15/16] fix: RegistrationPCL keeps its state when PCL rejects
 an empty input cloud

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 74c98d4..f50d311 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -44,6 +44,10 @@ void RegistrationPCL<PointSource, PointTarget>::setInputSource(const PointCloudS
   }
 
   pcl::Registration<PointSource, PointTarget, Scalar>::setInputSource(cloud);
+  if (input_ != cloud) {
+    return;  // The input was rejected (e.g., empty cloud) and the previous source is kept
+  }
+
   source_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointSource>>>(input_, KdTreeBuilderOMP(num_threads_));
   source_covs_.clear();
   source_voxelmap_.reset();
@@ -56,6 +60,10 @@ void RegistrationPCL<PointSource, PointTarget>::setInputTarget(const PointCloudT
   }
 
   pcl::Registration<PointSource, PointTarget, Scalar>::setInputTarget(cloud);
+  if (target_ != cloud) {
+    return;  // The input was rejected (e.g., empty cloud) and the previous target is kept
+  }
+
   target_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointTarget>>>(target_, KdTreeBuilderOMP(num_threads_));
   target_covs_.clear();
   target_voxelmap_.reset();
-- 
2.43.0


From 117f084c24b7d85882b0d3bb5ce6de210d320a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 16/16] fix: visit every pixel once when the projective search
 window exceeds the index map

---
 include/small_gicp/ann/projective_search.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/small_gicp/ann/projective_search.hpp b/include/small_gicp/ann/projective_search.hpp
index 5e19948..a068302 100644
--- a/include/small_gicp/ann/projective_search.hpp
+++ b/include/small_gicp/ann/projective_search.hpp
@@ -115,12 +115,18 @@ private:
       if (v_clamped < 0 || v_clamped >= index_map.rows()) {
         continue;
       }
+      if (dv - index_map.rows() >= -search_window_v && border_v(v + dv - index_map.rows(), index_map.rows()) == v_clamped) {
+        continue;  // The search window is larger than the index map, and this row has already been visited
+      }
 
       for (int du = -search_window_h; du <= search_window_h; du++) {
         const int u_clamped = border_h(u + du, index_map.cols());
         if (u_clamped < 0 || u_clamped >= index_map.cols()) {
           continue;
         }
+        if (du - index_map.cols() >= -search_window_h && border_h(u + du - index_map.cols(), index_map.cols()) == u_clamped) {
+          continue;  // The search window is larger than the index map, and this column has already been visited
+        }
 
         const auto index = index_map(v_clamped, u_clamped);
         if (index == invalid_index) {
-- 
2.43.0

