From 5006e2cb5f3f762c7bca07acd6fb2f51d9168b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:31 +0000
Subject: [PATCH 01/15] fix: report a valid blocking queue before the first
 dispatch

GetBlocker() returned an uninitialized trajectory id, or one that was
already finished, until data had been dispatched.
---
 cartographer/sensor/internal/ordered_multi_queue.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cartographer/sensor/internal/ordered_multi_queue.cc b/cartographer/sensor/internal/ordered_multi_queue.cc
index 26c8ee1..2481434 100644
--- a/cartographer/sensor/internal/ordered_multi_queue.cc
+++ b/cartographer/sensor/internal/ordered_multi_queue.cc
@@ -49,6 +49,8 @@ OrderedMultiQueue::~OrderedMultiQueue() {
 void OrderedMultiQueue::AddQueue(const QueueKey& queue_key, Callback callback) {
   CHECK_EQ(queues_.count(queue_key), 0);
   queues_[queue_key].callback = std::move(callback);
+  // The new queue has no data yet, so it is one we are waiting for.
+  blocker_ = queue_key;
 }
 
 void OrderedMultiQueue::MarkQueueAsFinished(const QueueKey& queue_key) {
-- 
2.43.0


From db9494cac5954839bee4eafd719d01e937eb8104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:06 +0000
Subject: [PATCH 02/15] fix: TrajectoryConnectivityState::Connect tracks
 untracked trajectories

As documented, connecting an untracked trajectory starts tracking it; it
crashed on a failed check instead.
---
 cartographer/mapping/internal/trajectory_connectivity_state.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cartographer/mapping/internal/trajectory_connectivity_state.cc b/cartographer/mapping/internal/trajectory_connectivity_state.cc
index 73ddf46..24a5c30 100644
--- a/cartographer/mapping/internal/trajectory_connectivity_state.cc
+++ b/cartographer/mapping/internal/trajectory_connectivity_state.cc
@@ -26,6 +26,8 @@ void TrajectoryConnectivityState::Add(const int trajectory_id) {
 void TrajectoryConnectivityState::Connect(const int trajectory_id_a,
                                           const int trajectory_id_b,
                                           const common::Time time) {
+  connected_components_.Add(trajectory_id_a);
+  connected_components_.Add(trajectory_id_b);
   if (TransitivelyConnected(trajectory_id_a, trajectory_id_b)) {
     // The trajectories are transitively connected, i.e. they belong to the same
     // connected component. In this case we only update the last connection time
-- 
2.43.0


From e56a3e9ae3ee05f6bcf197ad5b43b1f9f8d46a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:11 +0000
Subject: [PATCH 03/15] fix: ignore landmark observations of trajectories with
 fewer than two nodes

AddLandmarkCostFunctions dereferenced the iterator past the end of the
trajectory when the observing trajectory had been deleted or trimmed, or
had a single node at the time of the observation, ending the process (or
relating the observation to a node of another trajectory).
---
 .../mapping/internal/optimization/optimization_problem_2d.cc | 5 +++++
 .../mapping/internal/optimization/optimization_problem_3d.cc | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
index 3faf255..9e4025f 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
@@ -115,6 +115,11 @@ void AddLandmarkCostFunctions(
   for (const auto& landmark_node : landmark_nodes) {
     for (const auto& observation : landmark_node.second.landmark_observations) {
       const std::string& landmark_id = landmark_node.first;
+      // The observation is related to two nodes of its own trajectory, whose
+      // nodes may also have been trimmed since.
+      if (node_data.SizeOfTrajectoryOrZero(observation.trajectory_id) < 2) {
+        continue;
+      }
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
       // The landmark observation was made before the trajectory was created.
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index fca36d1..84f05e5 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -131,6 +131,11 @@ void AddLandmarkCostFunctions(
     // Do not use landmarks that were not optimized for localization.
     for (const auto& observation : landmark_node.second.landmark_observations) {
       const std::string& landmark_id = landmark_node.first;
+      // The observation is related to two nodes of its own trajectory, whose
+      // nodes may also have been trimmed since.
+      if (node_data.SizeOfTrajectoryOrZero(observation.trajectory_id) < 2) {
+        continue;
+      }
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
       // The landmark observation was made before the trajectory was created.
-- 
2.43.0


From 685ced41924298533510cc616109f659986293c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:02 +0000
Subject: [PATCH 04/15] fix: trimming a submap also drops its optimized pose

GetLocalToGlobalTransform looked up a trimmed submap and terminated the
process once all submaps of a trajectory were gone (deleted trajectories,
finished pure-localization trajectories).
---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 3 +++
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 060277e..c451605 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -1279,6 +1279,9 @@ void PoseGraph2D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   CHECK(parent_->data_.submap_data.at(submap_id).state ==
         SubmapState::kFinished);
   parent_->data_.submap_data.Trim(submap_id);
+  if (parent_->data_.global_submap_poses_2d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_2d.Trim(submap_id);
+  }
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
 
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 8a91e59..9c3841c 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -1259,6 +1259,9 @@ void PoseGraph3D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   CHECK(parent_->data_.submap_data.at(submap_id).state ==
         SubmapState::kFinished);
   parent_->data_.submap_data.Trim(submap_id);
+  if (parent_->data_.global_submap_poses_3d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_3d.Trim(submap_id);
+  }
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
 
-- 
2.43.0


From 834c8dd5d6ad056991317575d30c052496e77f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:29 +0000
Subject: [PATCH 05/15] fix: data queued before a trajectory's deletion no
 longer aborts the process

Sensor data accepted while the trajectory was active, and still queued when
DeleteTrajectory() is called, was taken for a modification after deletion.
---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 6 ++++--
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index c451605..f3dd16b 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -920,8 +920,10 @@ bool PoseGraph2D::CanAddWorkItemModifying(int trajectory_id) {
                   "but modification is requested, skipping.";
     return false;
   }
-  if (it->second.deletion_state !=
-      InternalTrajectoryState::DeletionState::NORMAL) {
+  // Work requested before the deletion is still processed before it, as long
+  // as the deletion is only scheduled.
+  if (it->second.deletion_state ==
+      InternalTrajectoryState::DeletionState::WAIT_FOR_DELETION) {
     LOG(FATAL) << "trajectory_id " << trajectory_id
                << " has been scheduled for deletion "
                   "but modification is requested, skipping.";
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 9c3841c..01978d3 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -917,8 +917,10 @@ bool PoseGraph3D::CanAddWorkItemModifying(int trajectory_id) {
                   "but modification is requested, skipping.";
     return false;
   }
-  if (it->second.deletion_state !=
-      InternalTrajectoryState::DeletionState::NORMAL) {
+  // Work requested before the deletion is still processed before it, as long
+  // as the deletion is only scheduled.
+  if (it->second.deletion_state ==
+      InternalTrajectoryState::DeletionState::WAIT_FOR_DELETION) {
     LOG(FATAL) << "trajectory_id " << trajectory_id
                << " has been scheduled for deletion "
                   "but modification is requested, skipping.";
-- 
2.43.0


From af2a9455add408d76e9e1241a9df6ad642d5a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:24 +0000
Subject: [PATCH 06/15] fix: overlapping submaps trimmer counts more than 65535
 covered cells

---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index a62b0cd..d01fed1 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -145,8 +145,8 @@ std::map<SubmapId, common::Time> ComputeSubmapFreshness(
 std::vector<SubmapId> FindSubmapIdsToTrim(
     const SubmapCoverageGrid2D& coverage_grid,
     const std::set<SubmapId>& all_submap_ids, uint16 fresh_submaps_count,
-    uint16 min_covered_cells_count) {
-  std::map<SubmapId, uint16> submap_to_covered_cells_count;
+    int64 min_covered_cells_count) {
+  std::map<SubmapId, int64> submap_to_covered_cells_count;
   for (const auto& cell : coverage_grid.cells()) {
     std::vector<std::pair<SubmapId, common::Time>> submaps_per_cell(
         cell.second);
-- 
2.43.0


From 3dd48838221aff086f81ea8a12900ad3ab2c98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:21 +0000
Subject: [PATCH 07/15] fix: an optimization no longer overwrites given
 landmark poses with stale results

---
 .../mapping/internal/optimization/optimization_problem_2d.cc    | 2 ++
 .../mapping/internal/optimization/optimization_problem_3d.cc    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
index 9e4025f..0c3e16b 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
@@ -427,6 +427,8 @@ void OptimizationProblem2D::Solve(
     trajectory_data_.at(C_fixed_frame.first).fixed_frame_origin_in_map =
         transform::Embed3D(ToPose(C_fixed_frame.second));
   }
+  // Only landmarks that were part of this optimization have a result.
+  landmark_data_.clear();
   for (const auto& C_landmark : C_landmarks) {
     landmark_data_[C_landmark.first] = C_landmark.second.ToRigid();
   }
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index 84f05e5..4109c09 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -604,6 +604,8 @@ void OptimizationProblem3D::Solve(
     trajectory_data_.at(C_fixed_frame.first).fixed_frame_origin_in_map =
         C_fixed_frame.second.ToRigid();
   }
+  // Only landmarks that were part of this optimization have a result.
+  landmark_data_.clear();
   for (const auto& C_landmark : C_landmarks) {
     landmark_data_[C_landmark.first] = C_landmark.second.ToRigid();
   }
-- 
2.43.0


From a9f03a1d775142e06adfb0b915cfabe240130494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:45 +0000
Subject: [PATCH 08/15] fix: damaged messages of a proto stream are rejected
 instead of returned as wrong data

---
 cartographer/io/proto_stream.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/proto_stream.cc b/cartographer/io/proto_stream.cc
index 60ea021..c0a2566 100644
--- a/cartographer/io/proto_stream.cc
+++ b/cartographer/io/proto_stream.cc
@@ -42,6 +42,22 @@ bool ReadSizeAsLittleEndian(std::istream* in, uint64* size) {
   return !in->fail();
 }
 
+// Like common::FastGunzipString(), but returns false if 'compressed' is not a
+// complete gzip stream with a valid checksum.
+bool GunzipString(const std::string& compressed, std::string* decompressed) {
+  try {
+    boost::iostreams::filtering_ostream out;
+    out.push(boost::iostreams::gzip_decompressor());
+    out.push(boost::iostreams::back_inserter(*decompressed));
+    out.exceptions(std::ios::badbit);
+    boost::iostreams::write(out, compressed.data(), compressed.size());
+    boost::iostreams::close(out);
+  } catch (const boost::iostreams::gzip_error&) {
+    return false;
+  }
+  return true;
+}
+
 }  // namespace
 
 ProtoStreamWriter::ProtoStreamWriter(const std::string& filename)
@@ -85,7 +101,10 @@ bool ProtoStreamReader::Read(std::string* decompressed_data) {
   if (!in_.read(&compressed_data.front(), compressed_size)) {
     return false;
   }
-  common::FastGunzipString(compressed_data, decompressed_data);
+  if (!GunzipString(compressed_data, decompressed_data)) {
+    in_.setstate(std::ios::failbit);
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 6457a743878e08047ece27915ee7d424b6c4eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:05 +0000
Subject: [PATCH 09/15] fix: writing a file reports failures to open, flush or
 close it

---
 cartographer/io/file_writer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cartographer/io/file_writer.cc b/cartographer/io/file_writer.cc
index 97d4481..6a730df 100644
--- a/cartographer/io/file_writer.cc
+++ b/cartographer/io/file_writer.cc
@@ -25,23 +25,23 @@ StreamFileWriter::StreamFileWriter(const std::string& filename)
 StreamFileWriter::~StreamFileWriter() {}
 
 bool StreamFileWriter::Write(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.write(data, len);
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::Close() {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.close();
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::WriteHeader(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.flush();
-- 
2.43.0


From b8d5f258d7f86620cbaa3be696a350bfd2ad5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:05 +0000
Subject: [PATCH 10/15] fix: PCD files keep one record layout when only some
 batches have colors

---
 cartographer/io/pcd_writing_points_processor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/pcd_writing_points_processor.cc b/cartographer/io/pcd_writing_points_processor.cc
index abd2c98..9d78c26 100644
--- a/cartographer/io/pcd_writing_points_processor.cc
+++ b/cartographer/io/pcd_writing_points_processor.cc
@@ -118,10 +118,16 @@ void PcdWritingPointsProcessor::Process(std::unique_ptr<PointsBatch> batch) {
     has_colors_ = !batch->colors.empty();
     WriteBinaryPcdHeader(has_colors_, 0, file_writer_.get());
   }
+  if (has_colors_) {
+    CHECK_EQ(batch->points.size(), batch->colors.size())
+        << "First PointsBatch had colors, but encountered one without. "
+           "frame_id: "
+        << batch->frame_id;
+  }
   for (size_t i = 0; i < batch->points.size(); ++i) {
     WriteBinaryPcdPointCoordinate(batch->points[i].position,
                                   file_writer_.get());
-    if (!batch->colors.empty()) {
+    if (has_colors_) {
       WriteBinaryPcdPointColor(ToUint8Color(batch->colors[i]),
                                file_writer_.get());
     }
-- 
2.43.0


From 1655e6e2681d9f3506524eb7b02d4293c5646fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:05 +0000
Subject: [PATCH 11/15] fix: the PLY header of an empty point cloud does not
 depend on uninitialized memory

---
 cartographer/io/ply_writing_points_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/io/ply_writing_points_processor.cc b/cartographer/io/ply_writing_points_processor.cc
index 8b0ecdb..2d23c04 100644
--- a/cartographer/io/ply_writing_points_processor.cc
+++ b/cartographer/io/ply_writing_points_processor.cc
@@ -101,6 +101,7 @@ PlyWritingPointsProcessor::PlyWritingPointsProcessor(
       comments_(comments),
       num_points_(0),
       has_colors_(false),
+      has_intensities_(false),
       file_(std::move(file_writer)) {}
 
 PointsProcessor::FlushResult PlyWritingPointsProcessor::Flush() {
-- 
2.43.0


From b2145e1f05549a7c42fe28bcb36a234cf7c31755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:49 +0000
Subject: [PATCH 12/15] fix: a pose added to the extrapolator replaces
 predictions cached for its time

---
 cartographer/mapping/pose_extrapolator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cartographer/mapping/pose_extrapolator.cc b/cartographer/mapping/pose_extrapolator.cc
index 24e3800..82fee90 100644
--- a/cartographer/mapping/pose_extrapolator.cc
+++ b/cartographer/mapping/pose_extrapolator.cc
@@ -76,6 +76,8 @@ void PoseExtrapolator::AddPose(const common::Time time,
         absl::make_unique<ImuTracker>(gravity_time_constant_, tracker_start);
   }
   timed_pose_queue_.push_back(TimedPose{time, pose});
+  // Poses extrapolated so far were based on older data.
+  cached_extrapolated_pose_.time = common::Time::min();
   while (timed_pose_queue_.size() > 2 &&
          timed_pose_queue_[1].time <= time - pose_queue_duration_) {
     timed_pose_queue_.pop_front();
-- 
2.43.0


From a13eecf70753aae2573917ac90632899018647a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:54 +0000
Subject: [PATCH 13/15] fix: write trajectory builder options in the order of
 the saved trajectories

Options were written for all trajectories that are not deleted, while loading
matches them by position with the trajectories of the saved pose graph: a map
with a finished trajectory without nodes could be saved but never loaded, and
with unfinished submaps left out options could end up at the wrong trajectory.
---
 .../internal/mapping_state_serialization.cc   | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/cartographer/io/internal/mapping_state_serialization.cc b/cartographer/io/internal/mapping_state_serialization.cc
index 8305e7a..f8cf421 100644
--- a/cartographer/io/internal/mapping_state_serialization.cc
+++ b/cartographer/io/internal/mapping_state_serialization.cc
@@ -42,17 +42,15 @@ CreateAllTrajectoryBuilderOptionsProto(
   return all_options_proto;
 }
 
-// Will return all trajectory ids, that have `state != DELETED`.
-std::vector<int> GetValidTrajectoryIds(
-    const std::map<int, PoseGraphInterface::TrajectoryState>&
-        trajectory_states) {
-  std::vector<int> valid_trajectories;
-  for (const auto& t : trajectory_states) {
-    if (t.second != PoseGraphInterface::TrajectoryState::DELETED) {
-      valid_trajectories.push_back(t.first);
-    }
+// Will return the ids of all trajectories that are part of 'pose_graph_proto',
+// in the same order.
+std::vector<int> GetTrajectoryIds(
+    const mapping::proto::PoseGraph& pose_graph_proto) {
+  std::vector<int> trajectory_ids;
+  for (const auto& trajectory_proto : pose_graph_proto.trajectory()) {
+    trajectory_ids.push_back(trajectory_proto.trajectory_id());
   }
-  return valid_trajectories;
+  return trajectory_ids;
 }
 
 mapping::proto::SerializationHeader CreateHeader() {
@@ -217,11 +215,13 @@ void WritePbStream(
         trajectory_builder_options,
     ProtoStreamWriterInterface* const writer, bool include_unfinished_submaps) {
   writer->WriteProto(CreateHeader());
-  writer->WriteProto(
-      SerializePoseGraph(pose_graph, include_unfinished_submaps));
+  const SerializedData pose_graph_proto =
+      SerializePoseGraph(pose_graph, include_unfinished_submaps);
+  writer->WriteProto(pose_graph_proto);
+  // When loading, the options are matched with the trajectories by position.
   writer->WriteProto(SerializeTrajectoryBuilderOptions(
       trajectory_builder_options,
-      GetValidTrajectoryIds(pose_graph.GetTrajectoryStates())));
+      GetTrajectoryIds(pose_graph_proto.pose_graph())));
 
   SerializeSubmaps(pose_graph.GetAllSubmapData(), include_unfinished_submaps,
                    writer);
-- 
2.43.0


From f5f21460c98efd4952ff3c83763a50f40d8a88e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:54 +0000
Subject: [PATCH 14/15] fix: skip sensor data of trajectories without nodes
 when loading a map

LoadState threw std::out_of_range for it.
---
 cartographer/mapping/map_builder.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cartographer/mapping/map_builder.cc b/cartographer/mapping/map_builder.cc
index ba8a8b7..70292d3 100644
--- a/cartographer/mapping/map_builder.cc
+++ b/cartographer/mapping/map_builder.cc
@@ -284,6 +284,11 @@ std::map<int, int> MapBuilder::LoadState(
            "Cartographer documentation for details. ";
   }
 
+  // Sensor data of trajectories without any nodes and submaps is skipped.
+  const auto skip_sensor_data = [&](const int trajectory_id) {
+    return load_frozen_state || trajectory_remapping.count(trajectory_id) == 0;
+  };
+
   SerializedData proto;
   while (deserializer.ReadNextSerializedData(&proto)) {
     switch (proto.data_case()) {
@@ -322,21 +327,21 @@ std::map<int, int> MapBuilder::LoadState(
         break;
       }
       case SerializedData::kImuData: {
-        if (load_frozen_state) break;
+        if (skip_sensor_data(proto.imu_data().trajectory_id())) break;
         pose_graph_->AddImuData(
             trajectory_remapping.at(proto.imu_data().trajectory_id()),
             sensor::FromProto(proto.imu_data().imu_data()));
         break;
       }
       case SerializedData::kOdometryData: {
-        if (load_frozen_state) break;
+        if (skip_sensor_data(proto.odometry_data().trajectory_id())) break;
         pose_graph_->AddOdometryData(
             trajectory_remapping.at(proto.odometry_data().trajectory_id()),
             sensor::FromProto(proto.odometry_data().odometry_data()));
         break;
       }
       case SerializedData::kFixedFramePoseData: {
-        if (load_frozen_state) break;
+        if (skip_sensor_data(proto.fixed_frame_pose_data().trajectory_id())) break;
         pose_graph_->AddFixedFramePoseData(
             trajectory_remapping.at(
                 proto.fixed_frame_pose_data().trajectory_id()),
@@ -345,7 +350,7 @@ std::map<int, int> MapBuilder::LoadState(
         break;
       }
       case SerializedData::kLandmarkData: {
-        if (load_frozen_state) break;
+        if (skip_sensor_data(proto.landmark_data().trajectory_id())) break;
         pose_graph_->AddLandmarkData(
             trajectory_remapping.at(proto.landmark_data().trajectory_id()),
             sensor::FromProto(proto.landmark_data().landmark_data()));
-- 
2.43.0


From 4b66ab8ba7bcd04ce3a733fc12ce1a2f945ff934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:00 +0000
Subject: [PATCH 15/15] fix: 3D optimization with fewer than three consecutive
 nodes

The lower bound of the gravity constant was set on a parameter block that is
only part of the problem once there is an acceleration constraint, so a
trajectory without three consecutive nodes aborted the optimization.
---
 .../mapping/internal/optimization/optimization_problem_3d.cc   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index 4109c09..f1519c1 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -373,6 +373,9 @@ void OptimizationProblem3D::Solve(
         problem.SetParameterBlockConstant(
             trajectory_data.imu_calibration.data());
       }
+      // Only used by acceleration constraints, i.e. once there are three
+      // consecutive nodes.
+      problem.AddParameterBlock(&trajectory_data.gravity_constant, 1);
       CHECK(imu_data_.HasTrajectory(trajectory_id));
       const auto imu_data = imu_data_.trajectory(trajectory_id);
       CHECK(imu_data.begin() != imu_data.end());
-- 
2.43.0

