// Driver for the local trajectory builders and the motion filter (M08).
#include <cmath>
#include <map>
#include "cartographer/mapping/internal/2d/local_trajectory_builder_2d.h"
#include "cartographer/mapping/internal/2d/local_trajectory_builder_options_2d.h"
#include "cartographer/mapping/internal/3d/local_trajectory_builder_3d.h"
#include "cartographer/mapping/internal/3d/local_trajectory_builder_options_3d.h"
#include "cartographer/mapping/internal/motion_filter.h"
#include "local_slam_options.h"
#include "pose_graph_options.h"
#include "vh.h"
using namespace cartographer;
using vh::json;
namespace {
using lsopt::kDegree;
using lsopt::kTick;
using lsopt::kTickSeconds;
using lsopt::kUnit;
common::Time Time(int t) { return common::FromUniversal(1000000000LL + t * kTick); }
long Ticks(common::Time t) { return (common::ToUniversal(t) - 1000000000LL) / kTick; }
transform::Rigid3d Pose(const json& p) {
  return transform::Rigid3d(Eigen::Vector3d(p[0].get<double>() * kUnit, p[1].get<double>() * kUnit, 0.),
                            Eigen::Quaterniond(Eigen::AngleAxisd(p[2].get<double>() * kDegree, Eigen::Vector3d::UnitZ())));
}
long D(double v) { return std::fabs(v) < 20000 ? std::lround(v * 100000.) : 2000000000; }
double Yaw(const Eigen::Quaterniond& q) { return std::fmod(2 * std::atan2(q.z(), q.w()) / kDegree, 360.); }
json P(const Eigen::Vector3d& v) { return {D(v.x() / kUnit), D(v.y() / kUnit), D(v.z() / kUnit)}; }
json Out(const transform::Rigid3d& r) {
  json o = P(r.translation());
  o.push_back(D(Yaw(r.rotation())));
  o.push_back(D((std::fabs(r.rotation().x()) + std::fabs(r.rotation().y())) / kDegree));
  return o;
}
json Cloud(const sensor::PointCloud& c, const transform::Rigid3d& t = transform::Rigid3d::Identity()) {
  json o = json::array();
  for (const auto& p : c) o.push_back(P(t * p.position.cast<double>()));
  return o;
}
template <typename Builder, typename Submap>
void Run(const json& sc, Builder* b, const std::function<std::vector<json>(const mapping::TrajectoryNode::Data&)>& points) {
  std::vector<std::shared_ptr<const Submap>> seen;
  for (const json& o : sc["ops"]) {
    json ev = o;
    const std::string op = o["op"];
    ev.erase("op");
    ev["e"] = op;
    if (ev.contains("p")) ev["p"][2] = D(o["p"][2]);
    if (ev.contains("w")) ev["w"] = D(o["w"]);
    vh::Emit(ev);
    if (op == "Imu") {
      b->AddImuData(sensor::ImuData{Time(o["t"]), 9.8 * Eigen::Vector3d::UnitZ(),
                                    Eigen::Vector3d::UnitZ() * (o["w"].get<double>() * kDegree / kTickSeconds)});
    } else if (op == "Odo") {
      b->AddOdometryData(sensor::OdometryData{Time(o["t"]), Pose(o["p"])});
    } else if (op == "Cloud") {
      sensor::TimedPointCloudData data;
      data.time = Time(o["t"]);
      data.origin = (float)kUnit * Eigen::Vector3f(o["o"][0].get<float>(), o["o"][1].get<float>(), o["o"][2].get<float>());
      for (const json& p : o["pts"]) {
        data.ranges.push_back({(float)kUnit * Eigen::Vector3f(p[1].get<float>(), p[2].get<float>(), p[3].get<float>()),
                               (float)(p[0].get<int>() * kTickSeconds)});
      }
      auto r = b->AddRangeData("laser", data);
      if (!r) {
        vh::Emit({{"e", "Nothing"}});
        continue;
      }
      json e = {{"e", "Result"}, {"t", Ticks(r->time)}, {"pose", Out(r->local_pose)},
                {"origin", P(r->range_data_in_local.origin.template cast<double>())},
                {"returns", Cloud(r->range_data_in_local.returns)}, {"misses", Cloud(r->range_data_in_local.misses)},
                {"inserted", r->insertion_result != nullptr}};
      if (r->insertion_result) {
        const auto& n = *r->insertion_result->constant_data;
        json ids = json::array(), counts = json::array(), fin = json::array();
        for (const auto& m : r->insertion_result->insertion_submaps) {
          size_t i = 0;
          while (i < seen.size() && seen[i] != m) ++i;
          if (i == seen.size()) seen.push_back(m);
          ids.push_back(i);
          counts.push_back(m->num_range_data());
          fin.push_back(m->insertion_finished());
        }
        e["submaps"] = ids;
        e["counts"] = counts;
        e["finished"] = fin;
        e["node"] = {{"t", Ticks(n.time)}, {"pose", Out(n.local_pose)}, {"grav", D(Yaw(n.gravity_alignment))}, {"points", points(n)}};
      }
      vh::Emit(e);
    }
  }
}
void Run2D(const json& sc) {
  const json& c = sc["c"];
  mapping::LocalTrajectoryBuilder2D b(mapping::CreateLocalTrajectoryBuilderOptions2D(pgopt::Dict(lsopt::Local2D(c)).get()), {"laser"});
  Run<mapping::LocalTrajectoryBuilder2D, mapping::Submap2D>(sc, &b, [](const mapping::TrajectoryNode::Data& n) {
    const auto t = n.local_pose * transform::Rigid3d::Rotation(n.gravity_alignment).inverse();
    return std::vector<json>{Cloud(n.filtered_gravity_aligned_point_cloud, t)};
  });
}
void Run3D(const json& sc) {
  const json& c = sc["c"];
  mapping::LocalTrajectoryBuilder3D b(mapping::CreateLocalTrajectoryBuilderOptions3D(pgopt::Dict(lsopt::Local3D(c)).get()), {"laser"});
  Run<mapping::LocalTrajectoryBuilder3D, mapping::Submap3D>(sc, &b, [](const mapping::TrajectoryNode::Data& n) {
    return std::vector<json>{Cloud(n.high_resolution_point_cloud, n.local_pose), Cloud(n.low_resolution_point_cloud, n.local_pose)};
  });
}
void Filter(const json& sc) {
  mapping::proto::MotionFilterOptions o;
  o.set_max_time_seconds(sc["c"]["t"].get<int>() * 0.25);
  o.set_max_distance_meters(sc["c"]["d"].get<int>());
  o.set_max_angle_radians(sc["c"]["a"].get<int>() * kDegree);
  mapping::MotionFilter f(o);
  for (const json& m : sc["ops"]) {
    const json& p = m["p"];
    const bool similar = f.IsSimilar(
        common::FromUniversal(1000000000LL + m["t"].get<int>() * 2500000LL),
        transform::Rigid3d(Eigen::Vector3d(p[0].get<double>(), p[1].get<double>(), p[2].get<double>()),
                           Eigen::Quaterniond(Eigen::AngleAxisd(p[3].get<double>() * kDegree, Eigen::Vector3d::UnitZ()))));
    vh::Emit({{"e", "MF"}, {"t", m["t"]}, {"p", p}, {"similar", similar}});
  }
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](const json& sc) {
    if (sc["k"] == "filter") Filter(sc);
    else if (sc["c"]["d3"]) Run3D(sc);
    else Run2D(sc);
  });
}
