prop("C01", "Thread pool runs every task exactly once, only after its dependencies",
     "Every task handed to the thread pool is executed exactly once, and not before all tasks it depends on have completed, whatever the order in which tasks are scheduled, dependencies are added and threads run. Destroying the pool returns only after all work that became runnable was executed, and scheduling, completion and destruction never deadlock or lose a wake-up.",
     ["schedules", "histories"], "All dependency DAGs, pool sizes, scheduling orders and thread interleavings.",
     "The tests run a few fixed graphs under whatever interleaving the OS gives; a lost wake-up or an early start needs a particular preemption.",
     [c+"task.cc", c+"thread_pool.cc", c+"thread_pool.h"],
     [("Task state machine", c+"task.cc"), ("work queue and worker loop", c+"thread_pool.cc")],
     "start/end of work items, return of Schedule and of the destructor",
     "model of the protocol refined to the abstract pool and checked by TLC incl. liveness; the real pool run under a deterministic scheduler over many interleavings, each trace accepted or rejected by the spec")
prop("C02", "Blocking queue is a linearizable bounded FIFO",
     "Concurrent pushes and pops on the blocking queue behave as if executed one at a time on a FIFO queue: no element is lost, duplicated or reordered, the configured capacity is never exceeded, and timed operations fail without effect. A call blocks only while the queue state forbids it to proceed, so no wake-up is lost.",
     ["schedules", "histories"], "All programs of concurrent producers, consumers, observers, and all interleavings.",
     "Tests use two threads and fixed sequences; lost wake-ups and capacity races need particular preemptions.",
     [c+"internal/blocking_queue.h"], [("lock + conditions", c+"internal/blocking_queue.h")],
     "call/return events of each queue operation",
     "linearizability decided by TLC against an abstract bounded FIFO on explored schedules of the real template")
prop("C03", "Fixed-ratio sampling keeps exactly the configured share",
     "For any ratio in [0, 1] and any number n of pulses, the number of accepted samples differs from ratio times n by less than one at all times: ratio 1 accepts everything, ratio 0 nothing, and acceptance is spread evenly rather than drifting.",
     ["inputs", "histories"], "All ratios and pulse counts.",
     "Tests check three ratios over a fixed number of pulses.",
     [c+"fixed_ratio_sampler.cc", io+"fixed_ratio_sampling_points_processor.cc"], [("pulse/sample counters", c+"fixed_ratio_sampler.cc")],
     "return value of each pulse; points leaving the sampling stage of the points pipeline", "spec in exact integer ratios; every pulse of recorded runs validated")
prop("S01", "Ordered collator merges sensor streams by time without losing data",
     "For every trajectory the collator delivers each accepted sensor message exactly once, messages of one sensor in arrival order, and everything it delivers in non-decreasing time across all sensors and trajectories; a message is delivered as soon as, and not before, no sensor that is still expected could produce an earlier one. Finishing a trajectory or flushing delivers everything still buffered for it, and only messages older than the common start of a trajectory's sensors may be dropped. The trajectory reported as blocking is one that really awaits data.",
     ["inputs", "histories"], "All interleavings of messages of several sensors and trajectories, time ties, finish and flush points.",
     "Tests feed a handful of hand-written sequences.",
     [s+"internal/collator.cc", s+"internal/ordered_multi_queue.cc"],
     [("k-way merge", s+"internal/ordered_multi_queue.cc"), ("expected sensor ids", s+"internal/collator.cc")],
     "callbacks of the collator; GetBlockingTrajectoryId",
     "abstract merge specified; TLC enumerates all short histories, the real collator replays them, deliveries validated per call")
prop("S02", "Trajectory collator keeps trajectories independent",
     "With per-trajectory collation, what is delivered for one trajectory, and when, is exactly what would be delivered if that trajectory were the only one: no other trajectory can delay, reorder or drop its data.",
     ["inputs", "histories"], "All interleavings of messages, finishes and flushes over several trajectories.",
     "Tests feed a handful of hand-written sequences with two trajectories.",
     [s+"internal/trajectory_collator.cc", s+"internal/ordered_multi_queue.cc"],
     [("one queue per trajectory", s+"internal/trajectory_collator.cc")], "callbacks of the collator",
     "product of single-trajectory merges; histories enumerated by TLC and replayed")
prop("S03", "Multi-sensor range data is assembled without losing or duplicating points",
     "Point clouds of several range sensors, arriving in the order of their times, are merged into consecutive time intervals: every point is delivered exactly once, with the interval containing its time as soon as no sensor has to be waited for, unless it arrives only after that interval was delivered. Delivered points are sorted by time, each with its own intensity and the origin of its own sensor. Interval ends never go backwards, and a single sensor passes through unchanged.",
     ["inputs", "histories"], "All arrival orders, overlaps, rates and time ties of several range sensors.",
     "Tests use a few fixed timings with two sensors.",
     [mi+"range_data_collator.cc"], [("interval merge", mi+"range_data_collator.cc")],
     "TimedPointCloudOriginData returned per added message",
     "abstract interval merge specified; all short arrival sequences enumerated and replayed, results validated point by point")
prop("S04", "Voxel filters return a faithful, bounded sub-sample",
     "Voxel filtering returns a sub-sequence of the input containing exactly one point of every occupied voxel, leaving point data (time, intensity) untouched and paired. The adaptive filter additionally drops points beyond the maximum range, returns everything when that is already few enough points, and otherwise returns at least the requested minimum of points whenever a voxel size no finer than one percent of the configured maximum achieves that.",
     ["inputs", "configurations"], "All point clouds, resolutions, ranges, minimum counts.",
     "Tests check three tiny clouds.",
     [s+"internal/voxel_filter.cc"], [("randomized voxel table", s+"internal/voxel_filter.cc"), ("bisection of edge length", s+"internal/voxel_filter.cc")],
     "returned point clouds", "spec over integer voxel coordinates; recorded outputs validated")
prop("S05", "Time-indexed sensor history and pose interpolation are exact",
     "The time-indexed container keeps, per trajectory, exactly the inserted entries in time order, and trimming removes exactly the data no longer needed between neighbouring remaining nodes. A transform buffer answers lookups exactly inside its covered interval, with the stored pose at stored times, monotonic interpolation between them, and honours its size limit by dropping only the oldest entries.",
     ["inputs", "histories"], "All insertion/trim/append histories and lookup times.",
     "Tests cover single fixed sequences.",
     [s+"map_by_time.h", t+"transform_interpolation_buffer.cc"],
     [("MapByTime", s+"map_by_time.h"), ("Lookup/Push/size limit", t+"transform_interpolation_buffer.cc")], "container content, lookup results",
     "containers specified as abstract sequences; random and enumerated histories replayed and validated")
prop("S06", "Point-cloud compression keeps every point within the stated precision",
     "A compressed point cloud decompresses to the same number of points, each within the compression precision of its original, also after conversion to and from its protocol buffer; equal clouds compress equally.",
     ["inputs"], "All point clouds in the supported coordinate range, including block boundaries and negative coordinates.",
     "Tests check a few points.",
     [s+"compressed_point_cloud.cc"], [("block-wise bit packing", s+"compressed_point_cloud.cc")], "decompressed points",
     "rounding and matching specified in integers; recorded round trips validated")
prop("M01", "Id containers allocate fresh, ordered ids and stay consistent under trimming",
     "Containers keyed by node, submap and sensor-data id hand out per-trajectory consecutive ids that are never reused while the trajectory holds any element, even after trimming, iterate in trajectory/index order, and return exactly what was inserted and not trimmed, through every accessor (lookup, ranges, reverse iteration, per-trajectory sizes, time lower bounds).",
     ["histories"], "All sequences of append, insert and trim over several trajectories.",
     "Tests run short fixed sequences.",
     [m+"id.h"], [("MapById", m+"id.h")], "all accessors of the container", "abstract map specified; histories generated by TLC and replayed on the real template, full observation compared")
prop("M02", "Active submaps overlap by half and each receives exactly its range data",
     "While range data is inserted there are at most two active submaps, a new one is started exactly every configured number of insertions, every range data goes into all active ones and no other, and a submap is finished exactly when it holds twice that number, after which it never changes. The submaps returned for an insertion are those it was inserted into, oldest first, in 2D and 3D.",
     ["histories", "configurations"], "All numbers of insertions and all submap sizes, 2D and 3D.",
     "Tests run one size, and observe only counts.",
     [m+"2d/submap_2d.cc", m+"3d/submap_3d.cc"], [("ActiveSubmaps2D/3D", m+"2d/submap_2d.cc"), ("finishing", m+"3d/submap_3d.cc")],
     "InsertRangeData results, num_range_data, insertion_finished, grid content", "two-submap lifecycle model-checked; real 2D/3D runs validated insertion by insertion")
prop("M03", "2D occupancy update: hits win, one update per cell and scan, nothing else moves",
     "Inserting one range data into a 2D probability grid updates each cell at most once: cells containing a return by the hit table, all other cells crossed by rays (if free space is inserted) by the miss table, and no other cell changes. Growing, cropping or serializing the grid never changes the probability stored for any place in the world.",
     ["inputs", "histories", "configurations"], "All range data, origins, grid sizes and insertion histories.",
     "Tests use one fixed range data and grid.",
     [m+"2d/probability_grid_range_data_inserter_2d.cc", m+"2d/probability_grid.cc", m+"2d/grid_2d.cc", i2+"ray_to_pixel_mask.cc", m+"probability_values.cc"],
     [("CastRays", m+"2d/probability_grid_range_data_inserter_2d.cc"), ("ApplyLookupTable/FinishUpdate/GrowLimits/ComputeCroppedGrid", m+"2d/probability_grid.cc"), ("lookup tables", m+"probability_values.cc")],
     "cell values of the grid after each insertion", "grid update specified exactly on integer cell values; recorded grids compared cell by cell by TLC")
prop("M04", "3D hybrid grid stores every voxel independently and updates it once per scan",
     "A 3D hybrid grid returns for every voxel exactly the last value written to it however the grid grows, iterates over exactly the voxels with a value, and per inserted scan applies at most one update per voxel: hit voxels by the hit table, voxels on the last configured number of free-space voxels of rays by the miss table. Serialization preserves every voxel.",
     ["inputs", "histories", "configurations"], "All write histories, voxel indices (also negative), growth orders and range data.",
     "Tests use few voxels and one scan.",
     [m+"3d/hybrid_grid.h", m+"3d/range_data_inserter_3d.cc"], [("DynamicGrid/NestedGrid/FlatGrid", m+"3d/hybrid_grid.h"), ("InsertMissesIntoGrid", m+"3d/range_data_inserter_3d.cc")],
     "voxel values and iteration", "grid as abstract function; update rule specified on integers; recorded voxel values compared")
prop("M05", "Ray casting visits exactly the cells a ray passes through",
     "The set of cells reported for a ray between two (sub)pixel positions is exactly the set of cells whose interior the segment meets, independent of ray direction, connected, and contains both end cells.",
     ["inputs"], "All segments at all subpixel scales, in all octants, incl. degenerate and axis-parallel ones.",
     "Tests check a handful of rays.",
     [i2+"ray_to_pixel_mask.cc"], [("RayToPixelMask", i2+"ray_to_pixel_mask.cc")], "returned cells",
     "segment/cell intersection specified in exact integer arithmetic in TLA+; every ray in a box at several scales enumerated exhaustively and run through the code")
prop("M06", "Trajectory connectivity is the transitive closure of recorded connections",
     "At any time two trajectories count as connected exactly if a chain of recorded connections joins them, the reported components partition the known trajectories, a trajectory without connections is alone, and the last connection time of two trajectories is the latest of the connections recorded directly between them and of the connection that joined their components. Connecting trajectories makes them known.",
     ["histories"], "All sequences of additions, connections and queries over all trajectories.",
     "Tests use short sequences.",
     [mi+"connected_components.cc", mi+"trajectory_connectivity_state.cc"], [("union-find", mi+"connected_components.cc"), ("connection time map", mi+"trajectory_connectivity_state.cc")],
     "TransitivelyConnected, Components, GetComponent, ConnectionCount, LastConnectionTime", "reachability specified; histories generated by TLC and replayed, all query results validated")
prop("M07", "Branch-and-bound scan matching finds the best candidate of its search window",
     "The fast correlative scan matcher returns the pose with the highest score among all candidates of its search window (as exhaustive evaluation would), reports that score, and reports failure exactly if that best score does not exceed the minimum score; precomputed upper bounds never underestimate.",
     ["inputs", "configurations"], "All grids, point clouds, windows and branching depths.",
     "Tests check random poses of one scan against loose tolerances.",
     [i2+"scan_matching/fast_correlative_scan_matcher_2d.cc", i2+"scan_matching/correlative_scan_matcher_2d.cc", i2+"scan_matching/real_time_correlative_scan_matcher_2d.cc"],
     [("BranchAndBound", i2+"scan_matching/fast_correlative_scan_matcher_2d.cc"), ("precomputation grids", i2+"scan_matching/fast_correlative_scan_matcher_2d.cc")],
     "Match results", "optimum over the candidate set specified in integers; recorded matches validated")
prop("M08", "Local SLAM emits one result per accumulated scan and filters motion correctly",
     "Local SLAM produces a matching result only after the configured number of range measurements was accumulated, never before odometry/IMU prerequisites are met, with non-decreasing times, containing each returned point within range exactly once. A result is inserted into the map unless time, distance and angle since the last inserted pose are all within the motion filter's limits, and an insertion result names the submaps it was inserted into.",
     ["inputs", "histories", "configurations"], "All sensor histories and option values.",
     "Tests drive one simulated square, and check only the final pose.",
     [i2+"local_trajectory_builder_2d.cc", mi+"motion_filter.cc"], [("AddRangeData/AddAccumulatedRangeData", i2+"local_trajectory_builder_2d.cc"), ("IsSimilar", mi+"motion_filter.cc")],
     "MatchingResult sequence", "accumulation and filter state machines specified; recorded runs validated")
prop("M09", "Pose extrapolation keeps a bounded, time-consistent window of sensor data",
     "The pose extrapolator reports the last added pose at its time, extrapolates to later times with the linear velocity spanned by the retained poses (those reaching back just the configured duration) or else by the odometry since, and turns with the measured angular velocities where there is IMU data. It refuses to go back in time, its estimate of gravity is the exponentially weighted average of the measured accelerations, and asking for it changes nothing.",
     ["inputs", "histories"], "All histories of poses, IMU, odometry and queries.",
     "Tests cover one constant-velocity run.",
     [m+"pose_extrapolator.cc", m+"imu_tracker.cc"], [("PoseExtrapolator", m+"pose_extrapolator.cc")], "extrapolated poses",
     "planar integer kinematics specified; recorded extrapolations validated")
prop("G01", "Constraint search reports every computed constraint exactly once, after all work",
     "For any interleaving of constraint computations, the completion callback of the constraint builder is invoked exactly once per request, only after every computation requested before it has ended, and receives exactly the constraints found by them, each once and meeting the minimum score; the number of finished nodes counts every node announced as finished exactly when all its computations are done.",
     ["schedules", "histories"], "All request sequences and thread interleavings, 2D and 3D.",
     "The tests are not even built here, and use one request pattern and no concurrency.",
     [mi+"constraints/constraint_builder_2d.cc", mi+"constraints/constraint_builder_3d.cc"],
     [("task graph when_done/finish_node", mi+"constraints/constraint_builder_2d.cc")], "WhenDone callback arguments, GetNumFinishedNodes",
     "task-graph protocol specified; real builders run under the deterministic scheduler, traces validated")
prop("G02", "Pose graph processes all queued work in order and drains completely",
     "Every node, sensor datum and trajectory operation given to the pose graph takes effect exactly once and in the order given, whichever threads run; optimisation is started whenever the configured number of nodes was added, and no work is left behind. The final optimisation returns only after all work queued before it has taken effect.",
     ["schedules", "histories"], "All API call sequences and thread interleavings, 2D and 3D.",
     "The pose graph tests are not built here and never run concurrent schedules.",
     [i2+"pose_graph_2d.cc", i3+"pose_graph_3d.cc", mi+"work_queue.h"], [("AddWorkItem/DrainWorkQueue/HandleWorkQueue", i2+"pose_graph_2d.cc")],
     "pose graph getters, optimisation callback, return of RunFinalOptimization", "work-queue protocol specified and model-checked incl. liveness; real pose graphs run under the deterministic scheduler, traces validated")
prop("G03", "Trajectory lifecycle: states only move forward and govern what may change",
     "A trajectory is active from its first data, can be finished or frozen, and is deleted only through scheduled deletion; a deleted trajectory's nodes, submaps and constraints all disappear and other trajectories' data stay. Frozen trajectories' poses do not change in optimisation, and finishing makes all its submaps available for constraint search.",
     ["schedules", "histories"], "All sequences of lifecycle calls interleaved with data, and thread interleavings.",
     "Not covered by running tests.",
     [i2+"pose_graph_2d.cc", i3+"pose_graph_3d.cc", mi+"pose_graph_data.h"], [("FinishTrajectory/FreezeTrajectory/DeleteTrajectory", i2+"pose_graph_2d.cc")],
     "GetTrajectoryStates, IsTrajectoryFinished/Frozen, getters", "lifecycle specified; snapshots of real runs validated")
prop("G04", "Pose-graph data is always referentially consistent",
     "At every observable point each constraint connects an existing node with an existing submap; each node added has exactly one intra-submap constraint to each submap its scan was inserted into and to no other, with the pose given by local SLAM, and inter-submap constraints only link nodes with finished submaps that do not contain them. Local and global poses are defined for every node and submap and relate by one local-to-global transform per trajectory tail.",
     ["schedules", "histories"], "All API histories and interleavings, 2D and 3D.",
     "Not covered by running tests.",
     [i2+"pose_graph_2d.cc", i3+"pose_graph_3d.cc"], [("ComputeConstraintsForNode", i2+"pose_graph_2d.cc")], "constraints(), GetTrajectoryNodes, GetAllSubmapData, ToProto",
     "graph invariants specified; snapshots taken in all schedules validated")
prop("G05", "Trimming removes exactly the chosen submaps and what depends only on them",
     "Trimming a submap removes it, every constraint to it, and exactly those nodes that were inserted into no remaining submap, together with their constraints; everything else is unchanged. The pure-localization trimmer keeps at most the configured number of newest submaps of its trajectory, and the overlapping-submaps trimmer keeps every submap that still contributes the required fresh coverage.",
     ["histories", "configurations"], "All graphs, trimming orders and trimmer settings.",
     "Tests trim tiny fixed graphs through a fake.",
     [m+"pose_graph_trimmer.cc", i2+"overlapping_submaps_trimmer_2d.cc", i2+"pose_graph_2d.cc", i3+"pose_graph_3d.cc"],
     [("TrimSubmap", i2+"pose_graph_2d.cc"), ("PureLocalizationTrimmer", m+"pose_graph_trimmer.cc"), ("coverage", i2+"overlapping_submaps_trimmer_2d.cc")],
     "getters after trimming", "trimming specified as a graph operation; real graphs validated")
prop("G06", "Landmark observations are kept and only related to their own trajectory",
     "Landmark observations accumulate under their landmark id in the order given, once each, and are interpreted only relative to nodes of their own trajectory around their time. A landmark gets a pose as soon as an optimisation can relate an observation to two neighbouring nodes, a pose set by the user is kept until then and for ever when frozen, and deleting, trimming or never filling the observing trajectory never stops later optimisations.",
     ["schedules", "histories"], "All interleavings of landmark data, nodes, lifecycle calls and optimisations, 2D and 3D.",
     "Not covered by running tests.",
     [i2+"pose_graph_2d.cc", i3+"pose_graph_3d.cc", mi+"optimization/optimization_problem_2d.cc", mi+"optimization/optimization_problem_3d.cc"],
     [("AddLandmarkData/SetLandmarkPose", i2+"pose_graph_2d.cc"), ("AddLandmarkCostFunctions", mi+"optimization/optimization_problem_2d.cc")],
     "GetLandmarkNodes, GetLandmarkPoses", "part of the pose-graph specification; real runs under the deterministic scheduler validated")
prop("G07", "Optimisation ends where all the measurements balance, and moves nothing fixed",
     "Solving the pose graph uses every applicable measurement with its weight - constraints (robustly when loop closures), consecutive local poses and odometry or IMU data between neighbouring nodes, fixed-frame poses, landmark observations - and no others. When they all agree, everything they tie together ends up in the relative poses they define, from any moderately wrong start; when they disagree, the result is where their weighted pulls cancel. Frozen trajectories, frozen landmarks and the first submap (in 3D but for gravity alignment) stay where they are, and trimming nodes takes away no measurement between the remaining ones.",
     ["inputs", "histories"], "All problems: any elements, sensor histories, gaps, trimming, frozen parts, weights, repeated solves, 2D and 3D with and without an IMU.",
     "The optimisation tests are not built here, and sample one 3D problem.",
     [mi+"optimization/optimization_problem_2d.cc", mi+"optimization/optimization_problem_3d.cc", mi+"optimization/cost_functions/", mi+"3d/imu_integration.h"],
     [("Solve", mi+"optimization/optimization_problem_2d.cc"), ("Solve", mi+"optimization/optimization_problem_3d.cc")],
     "node_data, submap_data, landmark_data, trajectory_data after Solve", "measurements, ties and balance of pulls specified; results of real solves validated")
prop("B01", "Map builder routes every sensor message to its own trajectory, exactly once",
     "Trajectory ids are assigned consecutively; sensor data given to a trajectory influences only that trajectory, in time order, once; finishing one leaves the others running; and every result callback names the trajectory, time and node it belongs to, with node ids assigned consecutively to the results that were inserted.",
     ["histories", "configurations"], "All interleavings of sensor data and lifecycle calls over several trajectories.",
     "Map builder tests are not built here.",
     [m+"map_builder.cc", mi+"global_trajectory_builder.cc", mi+"collated_trajectory_builder.cc"], [("AddTrajectoryBuilder/FinishTrajectory", m+"map_builder.cc")],
     "local SLAM result callback, pose graph getters", "routing specified; real runs validated")
prop("B02", "Saving and loading a map preserves it",
     "Writing the mapping state and loading it again yields the same trajectories, nodes, submaps, constraints, landmarks and sensor data with the same relations and poses, with trajectory ids remapped consistently; loading several maps or loading frozen keeps them apart, and a loaded map saves to an equivalent file.",
     ["histories", "configurations"], "All map states (incl. trimmed, deleted, frozen, finished) and load options.",
     "Map builder tests are not built here.",
     [m+"map_builder.cc", io+"internal/mapping_state_serialization.cc", io+"proto_stream_deserializer.cc", m+"pose_graph.cc"],
     [("SerializeState/LoadState", m+"map_builder.cc"), ("WritePbStream", io+"internal/mapping_state_serialization.cc")], "file content and pose graph getters after loading",
     "state isomorphism specified; real save/load cycles validated")
prop("I01", "Proto streams return exactly the messages written, and detect damage",
     "Reading a written stream returns exactly the messages written, in order, then end of file; a stream cut or damaged at any point yields a prefix of the messages and never a wrong one, and files without the stream signature are rejected.",
     ["inputs", "crash_points"], "All message sequences and all truncation points.",
     "Tests write and read complete files only.",
     [io+"proto_stream.cc", io+"proto_stream_deserializer.cc"], [("framing", io+"proto_stream.cc")], "messages read", "framed stream specified, all truncation points enumerated and validated")
prop("I02", "Points-processing pipelines filter and forward batches faithfully",
     "Each stage of a points pipeline forwards exactly the points its documentation says it keeps, with their intensities and colours still attached to the right point, in order; flushing restarts the stream when and only when a stage asks for it, and every stage sees the complete stream in its last pass.",
     ["inputs", "configurations"], "All pipelines of stages and batch sequences.",
     "Tests cover single stages with tiny batches.",
     [io+"points_batch.cc", io+"points_processor_pipeline_builder.cc", io+"outlier_removing_points_processor.cc", io+"frame_id_filtering_points_processor.cc", io+"min_max_range_filtering_points_processor.cc", io+"vertical_range_filtering_points_processor.cc", io+"counting_points_processor.cc"],
     [("RemovePoints", io+"points_batch.cc"), ("Flush/restart protocol", io+"outlier_removing_points_processor.cc")], "batches arriving at the end of the pipeline", "stages specified as stream functions; random pipelines validated")
prop("I03", "Point-cloud writers produce complete, well-formed files",
     "A written point-cloud file (PLY, PCD, XYZ) declares exactly the number of points it contains and contains exactly the points streamed into it, in order, with matching attributes (those of the first points decide the columns; streams that later lack them are refused). A file that cannot be written completely is reported, never silently left incomplete.",
     ["inputs"], "All batch sequences incl. empty ones, with and without colour or intensity.",
     "Tests check at most one file.",
     [io+"ply_writing_points_processor.cc", io+"pcd_writing_points_processor.cc", io+"xyz_writing_points_processor.cc", io+"file_writer.cc"],
     [("two-pass header", io+"ply_writing_points_processor.cc")], "bytes of the written file", "file content specified; recorded files validated")
prop("L01", "Configuration dictionaries return exactly what the Lua code says",
     "A configuration dictionary returns for each key exactly the value the configuration program assigned to it, with its type, refuses missing and mistyped values and negative ones where a non-negative number is asked for, prints itself as text that evaluates to the same dictionary, and reports every key read never or more than once. Included files are found in search-path order and no file is included twice. Options made from the shipped configuration carry every configured value under its own name.",
     ["inputs", "programs"], "All dictionaries: nested tables, arrays, numbers, strings.",
     "Tests check single small dictionaries.",
     [c+"lua_parameter_dictionary.cc", c+"configuration_file_resolver.cc"], [("value access", c+"lua_parameter_dictionary.cc")], "accessor results, ToString, death on misuse", "dictionary specified as a tree; generated configurations validated")
