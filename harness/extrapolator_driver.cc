// Driver for the constant-velocity pose extrapolator and the IMU tracker (M09).
#include <cmath>
#include "cartographer/mapping/imu_tracker.h"
#include "cartographer/mapping/pose_extrapolator.h"
#include "vh.h"
using namespace cartographer;
using vh::json;
namespace {
constexpr int64_t kTick = 100000;  // 10 ms
constexpr double kUnit = 0.05, kDegree = M_PI / 180.;
common::Time Time(int t) { return common::FromUniversal(1000000000LL + t * kTick); }
long Ticks(common::Time t) { return (common::ToUniversal(t) - 1000000000LL) / kTick; }
transform::Rigid3d Pose(const json& p) {
  return transform::Rigid3d(Eigen::Vector3d(p[0].get<double>() * kUnit, p[1].get<double>() * kUnit, 0.),
                            Eigen::Quaterniond(Eigen::AngleAxisd(p[2].get<double>() * kDegree, Eigen::Vector3d::UnitZ())));
}
long D(double v) { return std::fabs(v) < 20000 ? std::lround(v * 100000.) : 2000000000; }
json Heading(const Eigen::Quaterniond& q) {
  const double yaw = 2 * std::atan2(q.z(), q.w()) / kDegree;
  return {D(std::fmod(yaw, 360.)), D((std::fabs(q.x()) + std::fabs(q.y())) / kDegree)};
}
json Out(const transform::Rigid3d& r) {
  json h = Heading(r.rotation());
  return {D(r.translation().x() / kUnit), D(r.translation().y() / kUnit), D(r.translation().z() / kUnit), h[0], h[1]};
}
void Run(const json& sc) {
  const common::Duration dur = common::FromMilliseconds(10) * sc["dur"].get<int>();
  mapping::PoseExtrapolator plain(dur, 10.);
  std::unique_ptr<mapping::PoseExtrapolator> made;
  mapping::PoseExtrapolator* e = &plain;
  const auto imu = [](const json& o) {
    return sensor::ImuData{Time(o["t"]), 9.8 * Eigen::Vector3d::UnitZ(),
                           Eigen::Vector3d::UnitZ() * (o["w"].get<double>() * kDegree / 0.01)};
  };
  for (const json& o : sc["ops"]) {
    const std::string op = o["op"];
    json ev = o;
    ev.erase("op");
    ev["e"] = op;
    if (ev.contains("p")) ev["p"][2] = D(o["p"][2]);
    if (ev.contains("w")) ev["w"] = D(o["w"]);
    if (op == "Many") {
      json ts = o["ts"];
      ev["ts"] = ts;
    }
    vh::Emit(ev);
    if (op == "InitImu") {
      made = mapping::PoseExtrapolator::InitializeWithImu(dur, 10., imu(o));
      e = made.get();
    } else if (op == "Pose") {
      e->AddPose(Time(o["t"]), Pose(o["p"]));
    } else if (op == "Imu") {
      e->AddImuData(imu(o));
    } else if (op == "Odo") {
      e->AddOdometryData(sensor::OdometryData{Time(o["t"]), Pose(o["p"])});
    } else if (op == "Ask") {
      const json g = Out(e->ExtrapolatePose(Time(o["t"])));
      vh::Emit({{"e", "Answer"}, {"g", g}, {"lastpose", Ticks(e->GetLastPoseTime())}, {"lastex", Ticks(e->GetLastExtrapolatedTime())}});
    } else if (op == "Many") {
      std::vector<common::Time> ts;
      for (const json& t : o["ts"]) ts.push_back(Time(t));
      const auto r = e->ExtrapolatePosesWithGravity(ts);
      json g = json::array();
      for (const auto& p : r.previous_poses) g.push_back(Out(p.cast<double>()));
      g.push_back(Out(r.current_pose));
      vh::Emit({{"e", "Answers"}, {"g", g}, {"grav", Heading(r.gravity_from_tracking)},
                {"v", {D(r.current_velocity.x() / kUnit * 0.01), D(r.current_velocity.y() / kUnit * 0.01), D(r.current_velocity.z() / kUnit * 0.01)}}});
    } else if (op == "Grav") {
      vh::Emit({{"e", "GravAns"}, {"grav", Heading(e->EstimateGravityOrientation(Time(o["t"])))}});
    }
  }
}
void Tilt(const json& sc) {
  const double tau = 1. / std::log(2.);  // halves in one second
  const auto at = [](int t) { return common::FromUniversal(1000000000LL) + common::FromSeconds(t); };
  const auto vec = [](const json& a) { return Eigen::Vector3d(a[0].get<double>(), a[1].get<double>(), a[2].get<double>()); };
  const auto up = [](const Eigen::Quaterniond& q, int n) {
    const Eigen::Vector3d u = q.conjugate() * Eigen::Vector3d::UnitZ();
    vh::Emit({{"e", "Tilt"}, {"n", n}, {"up", {std::lround(u.x() * 1000), std::lround(u.y() * 1000), std::lround(u.z() * 1000)}}});
  };
  const json& obs = sc["obs"];
  if (sc["tracker"]) {
    mapping::ImuTracker tracker(tau, at(obs[0]["t"]));
    for (size_t i = 0; i < obs.size(); ++i) {
      tracker.Advance(at(obs[i]["t"]));
      tracker.AddImuLinearAccelerationObservation(vec(obs[i]["a"]));
      tracker.AddImuAngularVelocityObservation(Eigen::Vector3d::Zero());
      up(tracker.orientation(), i + 1);
    }
  } else {
    auto e = mapping::PoseExtrapolator::InitializeWithImu(
        common::FromSeconds(1), tau, sensor::ImuData{at(obs[0]["t"]), vec(obs[0]["a"]), Eigen::Vector3d::Zero()});
    for (size_t i = 0; i < obs.size(); ++i) {
      if (i) e->AddImuData(sensor::ImuData{at(obs[i]["t"]), vec(obs[i]["a"]), Eigen::Vector3d::Zero()});
      // (a measurement counts from its time on)
      up(e->EstimateGravityOrientation(at(obs[i]["t"]) + common::FromMilliseconds(1)), i + 1);
      if (obs[i].value("pose", false)) {
        const common::Time t = at(obs[i]["t"]) + common::FromMilliseconds(2);
        e->AddPose(t, transform::Rigid3d::Identity());
        up(e->EstimateGravityOrientation(t), i + 1);
      }
    }
  }
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](const json& sc) {
    if (sc["k"] == "tilt") Tilt(sc);
    else Run(sc);
  });
}
