// Option dictionaries shared by the drivers.
#ifndef POSE_GRAPH_OPTIONS_H_
#define POSE_GRAPH_OPTIONS_H_
#include <memory>
#include <string>
#include "absl/memory/memory.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/mapping/pose_graph.h"
#include "vh.h"
namespace pgopt {
inline std::unique_ptr<cartographer::common::LuaParameterDictionary> Dict(const std::string& code) {
  return cartographer::common::LuaParameterDictionary::NonReferenceCounted(
      code, absl::make_unique<cartographer::common::ConfigurationFileResolver>(std::vector<std::string>{}));
}
inline std::string Submaps2D(int nrd) {
  return R"(return { num_range_data = )" + std::to_string(nrd) + R"(,
    grid_options_2d = { grid_type = "PROBABILITY_GRID", resolution = 0.1 },
    range_data_inserter = { range_data_inserter_type = "PROBABILITY_GRID_INSERTER_2D",
      probability_grid_range_data_inserter = { insert_free_space = true, hit_probability = 0.55, miss_probability = 0.49 },
      tsdf_range_data_inserter = { truncation_distance = 0.3, maximum_weight = 10., update_free_space = false,
        normal_estimation_options = { num_normal_samples = 4, sample_radius = 0.5 },
        project_sdf_distance_to_scan_normal = false, update_weight_range_exponent = 0,
        update_weight_angle_scan_normal_to_ray_kernel_bandwidth = 0,
        update_weight_distance_cell_to_hit_kernel_bandwidth = 0 } } })";
}
inline std::string Submaps3D(int nrd) {
  return R"(return { high_resolution = 0.2, high_resolution_max_range = 20., low_resolution = 0.5,
    num_range_data = )" + std::to_string(nrd) + R"(,
    range_data_inserter = { hit_probability = 0.55, miss_probability = 0.49, num_free_space_voxels = 2,
      intensity_threshold = 100. } })";
}
// in: {"every": n, "inter": "none" | "all"}
inline std::string Graph(const vh::json& in) {
  const bool all = in["inter"] == "all";
  return R"(return {
    optimize_every_n_nodes = )" + std::to_string(in["every"].get<int>()) + R"(,
    constraint_builder = {
      sampling_ratio = 1., max_constraint_distance = )" + (all ? "1000." : "-1.") + R"(,
      min_score = 0.01, global_localization_min_score = 0.01,
      loop_closure_translation_weight = 3., loop_closure_rotation_weight = 4., log_matches = false,
      fast_correlative_scan_matcher = { linear_search_window = 0.2, angular_search_window = 0.1, branch_and_bound_depth = 2 },
      ceres_scan_matcher = { occupied_space_weight = 20., translation_weight = 10., rotation_weight = 1.,
        ceres_solver_options = { use_nonmonotonic_steps = true, max_num_iterations = 3, num_threads = 1 } },
      fast_correlative_scan_matcher_3d = { branch_and_bound_depth = 2, full_resolution_depth = 2,
        min_rotational_score = 0.0, min_low_resolution_score = 0.0, linear_xy_search_window = 0.4,
        linear_z_search_window = 0.2, angular_search_window = 0.1 },
      ceres_scan_matcher_3d = { occupied_space_weight_0 = 5., occupied_space_weight_1 = 5., translation_weight = 10.,
        rotation_weight = 1., only_optimize_yaw = true,
        ceres_solver_options = { use_nonmonotonic_steps = true, max_num_iterations = 3, num_threads = 1 } },
    },
    matcher_translation_weight = 5., matcher_rotation_weight = 6.,
    optimization_problem = {
      acceleration_weight = 1., rotation_weight = 1e2, huber_scale = 1., local_slam_pose_translation_weight = 0.,
      local_slam_pose_rotation_weight = 0., odometry_translation_weight = 0., odometry_rotation_weight = 0.,
      fixed_frame_pose_translation_weight = 0., fixed_frame_pose_rotation_weight = 0.,
      fixed_frame_pose_use_tolerant_loss = false, fixed_frame_pose_tolerant_loss_param_a = 1,
      fixed_frame_pose_tolerant_loss_param_b = 1, log_solver_summary = false,
      use_online_imu_extrinsics_in_3d = false, fix_z_in_3d = true,
      ceres_solver_options = { use_nonmonotonic_steps = false, max_num_iterations = 5, num_threads = 1 } },
    max_num_final_iterations = 7,
    global_sampling_ratio = )" + (all && in["dim"] == 2 ? "1." : "0.") + R"(,
    log_residual_histograms = false, global_constraint_search_after_n_seconds = 10.0, })";
}
}  // namespace pgopt
#endif
