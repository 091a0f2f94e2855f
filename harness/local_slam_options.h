// Options of local SLAM shared by the drivers: the scan matcher keeps its
// prediction.
#ifndef LOCAL_SLAM_OPTIONS_H_
#define LOCAL_SLAM_OPTIONS_H_
#include <cmath>
#include <cstdio>
#include <string>
#include "pose_graph_options.h"
namespace lsopt {
using vh::json;
constexpr int64_t kTick = 78125;  // 1/128 s: exact as a float
constexpr double kTickSeconds = 1. / 128.;
constexpr double kUnit = 0.05, kDegree = M_PI / 180.;
inline std::string Num(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline std::string Common(const json& c) {
  const auto adaptive = [](const char* n) {
    return std::string(n) + " = { max_length = 0.5, min_num_points = 100000, max_range = 1000. },";
  };
  return "min_range = " + Num(c["min2"].get<double>() * kUnit / 2) + ", max_range = " + Num(c["max2"].get<double>() * kUnit / 2) +
         ", num_accumulated_range_data = " + std::to_string(c["num"].get<int>()) + ", voxel_filter_size = 0.0002," +
         adaptive("adaptive_voxel_filter") + adaptive("loop_closure_adaptive_voxel_filter") +
         adaptive("high_resolution_adaptive_voxel_filter") + adaptive("low_resolution_adaptive_voxel_filter") +
         R"(use_online_correlative_scan_matching = false,
    real_time_correlative_scan_matcher = { linear_search_window = 0.1, angular_search_window = 0.1,
      translation_delta_cost_weight = 1e-1, rotation_delta_cost_weight = 1e-1 },
    motion_filter = { max_time_seconds = )" + Num(c["mf"]["t"].get<int>() * kTickSeconds) + ", max_distance_meters = " +
         Num(c["mf"]["d"].get<int>() * kUnit / 100) + ", max_angle_radians = " + Num(c["mf"]["a"].get<int>() * kDegree / 100000.) + R"(},
    imu_gravity_time_constant = 10.,
    pose_extrapolator = { use_imu_based = false,
      constant_velocity = { imu_gravity_time_constant = 10., pose_queue_duration = )" + Num(c["dur"].get<int>() * kTickSeconds) + R"(},
      imu_based = { pose_queue_duration = 5., gravity_constant = 9.806, pose_translation_weight = 1., pose_rotation_weight = 1.,
        imu_acceleration_weight = 1., imu_rotation_weight = 1., odometry_translation_weight = 1., odometry_rotation_weight = 1.,
        solver_options = { use_nonmonotonic_steps = false, max_num_iterations = 10, num_threads = 1 } } }, )";
}
// c: {imu, dur, num, min2, max2, miss, zmin, zmax, mf: {t, d, a}, nrd}
inline std::string Local2D(const json& c) {
  std::string sub = pgopt::Submaps2D(c["nrd"]);
  sub = sub.substr(sub.find('{'));
  return "return { use_imu_data = " + std::string(c["imu"].get<bool>() ? "true" : "false") + ", min_z = " +
                       Num((c["zmin"].get<double>() - 0.5) * kUnit) + ", max_z = " + Num((c["zmax"].get<double>() + 0.5) * kUnit) +
                       ", missing_data_ray_length = " + Num(c["miss"].get<double>() * kUnit) + "," + Common(c) + R"(
    ceres_scan_matcher = { occupied_space_weight = 1e-6, translation_weight = 1e4, rotation_weight = 1e4,
      ceres_solver_options = { use_nonmonotonic_steps = false, max_num_iterations = 5, num_threads = 1 } },
    submaps = )" + sub + "}";
}
inline std::string Local3D(const json& c) {
  std::string sub = pgopt::Submaps3D(c["nrd"]);
  sub = sub.substr(sub.find('{'));
  return "return { " + Common(c) + R"(
    ceres_scan_matcher = { occupied_space_weight_0 = 1e-6, occupied_space_weight_1 = 1e-6, translation_weight = 1e4, rotation_weight = 1e4,
      only_optimize_yaw = false, ceres_solver_options = { use_nonmonotonic_steps = false, max_num_iterations = 5, num_threads = 1 } },
    rotational_histogram_size = 12, use_intensities = false,
    submaps = )" + sub + "}";
}
}  // namespace lsopt
#endif
