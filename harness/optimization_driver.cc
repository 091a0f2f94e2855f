// Driver for OptimizationProblem2D / OptimizationProblem3D (G07).
//
// Mode "truth": every measurement is derived from one (hidden) true world, the
// initial estimates are off. After a solve every element's displacement from
// the truth, D = estimate * truth^-1, is reported as a class: elements in one
// class have the same relative pose as in the true world.
// Mode "balance": everything lies on the x axis, measurements are integers
// (mm) and disagree; the resulting positions are reported (um).
#include <cmath>
#include <random>
#include "absl/memory/memory.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_2d.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_3d.h"
#include "cartographer/transform/transform.h"
#include "vh.h"
using vh::json;
namespace m = cartographer::mapping;
namespace opt = cartographer::mapping::optimization;
namespace tf = cartographer::transform;
namespace cm = cartographer::common;
namespace se = cartographer::sensor;
using Rigid = tf::Rigid3d;
namespace {
cm::Time T(int tick) { return cm::FromUniversal(1000000) + cm::FromSeconds(tick); }
Rigid Flat(const Rigid& r) { return r; }
Rigid Flat(const tf::Rigid2d& r) { return tf::Embed3D(r); }
template <int D> struct Dim;
template <> struct Dim<2> {
  using P = opt::OptimizationProblem2D;
  using Pose = tf::Rigid2d;
  static Pose To(const Rigid& r) { return tf::Project2D(r); }
  static opt::NodeSpec2D Node(cm::Time t, const Rigid& local, const Rigid& global, const Eigen::Quaterniond& g) {
    return {t, To(local), To(global), g};
  }
  static Rigid Global(const opt::NodeSpec2D& n) { return Flat(n.global_pose_2d); }
};
template <> struct Dim<3> {
  using P = opt::OptimizationProblem3D;
  using Pose = Rigid;
  static Pose To(const Rigid& r) { return r; }
  static opt::NodeSpec3D Node(cm::Time t, const Rigid& local, const Rigid& global, const Eigen::Quaterniond&) {
    return {t, local, global};
  }
  static Rigid Global(const opt::NodeSpec3D& n) { return n.global_pose; }
};
Eigen::Quaterniond Yaw(double a) { return Eigen::Quaterniond(Eigen::AngleAxisd(a, Eigen::Vector3d::UnitZ())); }
Eigen::Quaterniond Tilt(double p, double r) {
  return Eigen::Quaterniond(Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX()));
}

template <int D> struct World {
  const json in;
  const bool truth, fixz;
  std::mt19937 rng;
  struct Traj { Eigen::Vector3d p0, v; double yaw0, w; Eigen::Quaterniond r0; Rigid local, odom, origin; };
  std::map<int, Traj> traj;
  std::map<std::string, Rigid> element_truth;  // submaps and landmarks
  opt::proto::OptimizationProblemOptions o;
  std::unique_ptr<typename Dim<D>::P> p;
  std::map<std::string, Rigid> landmark_pose;

  // Mode "balance": a position along, or an angle about, the axis (mm, mrad).
  Eigen::Vector3d Axis() const { return Eigen::Vector3d::Unit(in["axis"].get<int>()); }
  Rigid X(double v) const {
    if (in["turn"]) return Rigid::Rotation(Eigen::AngleAxisd(v / 1000., Axis()));
    return Rigid::Translation(v / 1000. * Axis());
  }
  double U(double a, double b) { return a + (b - a) * (rng() / 4294967296.); }
  explicit World(const json& i) : in(i), truth(i["mode"] == "truth"), fixz(i["fixz"]), rng(i["seed"].get<unsigned>()) {}
  Rigid Random(double range) {  // a true pose of a submap, landmark or frame
    const Eigen::Vector3d t(U(-range, range), U(-range, range), D == 3 ? U(-2, 2) : 0.);
    return Rigid(t, Yaw(U(-3, 3)));
  }
  Rigid TrueSubmap() {
    Rigid r = Random(5);
    return D == 3 ? Rigid(r.translation(), r.rotation() * Tilt(U(-.3, .3), U(-.3, .3))) : r;
  }
  // An estimate off its truth; in yaw always to the same side.
  Rigid Off(const Rigid& r) {
    const double s = in["off"];
    Eigen::Vector3d t(U(-s, s), U(-s, s), D == 3 && !fixz ? U(-s, s) : 0.);
    Eigen::Quaterniond q = Yaw(U(.3 * s, s));
    if (D == 3) q = q * Tilt(U(-s, s) / 3, U(-s, s) / 3);
    return Rigid(r.translation() + t, r.rotation() * q);
  }
  Traj& Tr(int t) {
    if (!traj.count(t)) {
      Traj a;
      a.p0 = Eigen::Vector3d(U(-3, 3), U(-3, 3), D == 3 ? U(-1, 1) : 0.);
      a.v = Eigen::Vector3d(U(-.4, .4), U(-.4, .4), D == 3 && !fixz ? U(-.1, .1) : 0.);
      a.yaw0 = U(-3, 3);
      a.w = U(-.15, .15);
      a.r0 = Tilt(U(-.2, .2), U(-.2, .2));
      a.local = Random(3);
      a.odom = Random(3);
      a.origin = Random(3);
      traj[t] = a;
    }
    return traj[t];
  }
  // The true pose of the sensor platform; in 2D, nodes are its horizontal part.
  Rigid Platform(int t, double tick) {
    Traj& a = Tr(t);
    return Rigid(a.p0 + a.v * tick, Yaw(a.yaw0 + a.w * tick) * Gravity(t, tick));
  }
  // The orientation of the platform against the horizontal; it may differ from
  // tick to tick (2D).
  Eigen::Quaterniond Gravity(int t, double tick) {
    if (!in["wobble"]) return Tr(t).r0;
    return Tilt(.2 * std::sin(1. + 3. * tick + t), .2 * std::cos(2. + 5. * tick + t));
  }
  Rigid Node(int t, double tick) {
    Traj& a = Tr(t);
    return D == 3 ? Platform(t, tick) : Rigid(a.p0 + a.v * tick, Yaw(a.yaw0 + a.w * tick));
  }
  static std::string Key(const char* k, const json& t, const json& i) { return k + t.dump() + "." + i.dump(); }

  // ------------------------------------------------------------ elements
  struct El { json id; Rigid est, tru; };
  std::map<std::string, El> Elements() {
    std::map<std::string, El> r;
    for (const auto& s : p->submap_data()) {
      const std::string k = Key("s", s.id.trajectory_id, s.id.submap_index);
      r[k] = {{{"k", "s"}, {"t", s.id.trajectory_id}, {"i", s.id.submap_index}}, Flat(s.data.global_pose),
              truth ? element_truth.at(k) : Rigid()};
    }
    for (const auto& n : p->node_data()) {
      const int t = n.id.trajectory_id;
      r[Key("n", t, n.id.node_index)] = {{{"k", "n"}, {"t", t}, {"i", n.id.node_index}}, Dim<D>::Global(n.data),
                                         truth ? Node(t, cm::ToSeconds(n.data.time - T(0))) : Rigid()};
    }
    for (const auto& l : p->landmark_data()) {
      const int i = std::stoi(l.first);
      r[Key("l", -1, i)] = {{{"k", "l"}, {"t", -1}, {"i", i}}, l.second, truth ? element_truth.at(Key("l", -1, i)) : Rigid()};
    }
    for (const auto& d : p->trajectory_data())
      if (d.second.fixed_frame_origin_in_map.has_value())
        r[Key("f", d.first, 0)] = {{{"k", "f"}, {"t", d.first}, {"i", 0}}, d.second.fixed_frame_origin_in_map.value(),
                                   truth ? Tr(d.first).origin : Rigid()};
    return r;
  }
  static bool Near(const Rigid& a, const Rigid& b, double tt, double tr) {
    return (a.translation() - b.translation()).norm() <= tt && a.rotation().angularDistance(b.rotation()) <= tr;
  }

  void Solve(const json& op) {
    std::vector<m::PoseGraphInterface::Constraint> cs;
    for (const json& c : op["cs"]) {
      const m::SubmapId s(c["s"][0], c["s"][1]);
      const m::NodeId n(c["n"][0], c["n"][1]);
      Rigid z;
      if (truth) {
        if (!p->node_data().Contains(n)) continue;
        z = element_truth.at(Key("s", s.trajectory_id, s.submap_index)).inverse() *
            Node(n.trajectory_id, cm::ToSeconds(p->node_data().at(n).time - T(0)));
      } else {
        z = X(c["z"]);
      }
      cs.push_back({s, n, {z, c["w"].get<double>(), c["wr"].get<double>()},
                    c["inter"] ? m::PoseGraphInterface::Constraint::INTER_SUBMAP
                               : m::PoseGraphInterface::Constraint::INTRA_SUBMAP});
    }
    std::map<int, m::PoseGraphInterface::TrajectoryState> states;
    for (int t = 0; t < 3; ++t) states[t] = m::PoseGraphInterface::TrajectoryState::ACTIVE;
    for (const json& t : op["fin"]) states[t] = m::PoseGraphInterface::TrajectoryState::FINISHED;
    for (const json& t : op["frozen"]) states[t] = m::PoseGraphInterface::TrajectoryState::FROZEN;
    std::map<std::string, m::PoseGraphInterface::LandmarkNode> lm;
    for (const json& l : op["lm"]) {
      const std::string id = l["i"].dump(), key = Key("l", -1, l["i"]);
      m::PoseGraphInterface::LandmarkNode node;
      if (truth && !element_truth.count(key)) {
        Rigid r = Random(4);
        element_truth[key] = Rigid(r.translation() + Eigen::Vector3d(0, 0, U(-1, 1)), r.rotation() * Tilt(U(-.5, .5), U(-.5, .5)));
      }
      for (const json& ob : l["obs"]) {
        Rigid z = truth ? Platform(ob["t"], ob["time"].get<int>()).inverse() * element_truth.at(key) : X(ob["z"]);
        node.landmark_observations.push_back({ob["t"].get<int>(), T(ob["time"]), z, ob["w"].get<double>(), ob["wr"].get<double>()});
      }
      node.frozen = l["frozen"];
      if (landmark_pose.count(key)) {
        node.global_landmark_pose = landmark_pose.at(key);
      } else if (l["given"]) {
        node.global_landmark_pose = truth ? (node.frozen ? element_truth.at(key) : Off(element_truth.at(key))) : X(l["x"]);
      }
      if (node.global_landmark_pose.has_value()) landmark_pose[key] = node.global_landmark_pose.value();
      lm[id] = node;
    }
    vh::Emit(op);
    std::map<std::string, El> before = Elements();
    for (auto it = before.begin(); it != before.end();)
      it = it->second.id["k"] == "l" ? before.erase(it) : std::next(it);
    for (const auto& l : landmark_pose) before[l.first] = {json(), l.second, truth ? element_truth.at(l.first) : Rigid()};
    for (int k = 0; k < op["times"].get<int>(); ++k) {
      p->Solve(cs, states, lm);
      for (auto& l : lm)
        if (p->landmark_data().count(l.first)) l.second.global_landmark_pose = p->landmark_data().at(l.first);
    }
    std::map<std::string, El> after = Elements();
    for (const auto& l : after)
      if (l.second.id["k"] == "l") landmark_pose[l.first] = l.second.est;
    // Classes of equal displacement.
    std::vector<Rigid> ds;
    std::vector<int> cls;
    json out = json::array();
    if (truth) {
      auto d = [](const El& e) { return e.est * e.tru.inverse(); };
      for (const auto& e : before) ds.push_back(d(e.second));
      for (const auto& e : after) ds.push_back(d(e.second));
      cls.resize(ds.size());
      std::iota(cls.begin(), cls.end(), 0);
      for (size_t i = 0; i < ds.size(); ++i)
        for (size_t j = 0; j < i; ++j)
          if (Near(ds[i], ds[j], 5e-3, 2e-3) && cls[i] != cls[j]) {
            const int a = cls[i], b = cls[j];
            for (int& c : cls) if (c == a) c = b;
          }
    }
    int ai = before.size();
    for (const auto& e : after) {
      json r = e.second.id;
      auto b = before.find(e.first);
      r["was"] = b != before.end();
      const Rigid pre = b != before.end() ? b->second.est : e.second.est;
      r["moved"] = !Near(pre, e.second.est, 1e-9, 1e-6);
      r["shifted"] = (pre.translation() - e.second.est.translation()).norm() > 1e-9;
      if (truth) {
        const Eigen::Quaterniond turn = pre.rotation().inverse() * e.second.est.rotation();
        r["yaw"] = (int)std::lround(2e3 * std::atan2(std::abs(turn.z()), std::abs(turn.w())));
        const Rigid dd = ds[ai];
        r["tilt"] = (int)std::lround(1e3 * std::acos(std::min(1., (dd.rotation() * Eigen::Vector3d::UnitZ()).z())));
        r["a"] = cls[ai];
        r["b"] = b != before.end() ? cls[std::distance(before.begin(), b)] : -1;
        if (getenv("VDEBUG")) r["D"] = dd.DebugString();
      } else {
        const Eigen::Vector3d t = e.second.est.translation();
        Eigen::Quaterniond q = e.second.est.rotation();
        if (q.w() < 0) q.coeffs() = -q.coeffs();
        const double x = in["turn"] ? 2. * std::atan2(q.vec().dot(Axis()), q.w()) : t.dot(Axis());
        r["x"] = (int)std::lround(std::max(-1e3, std::min(1e3, x)) * 1e6);
        const Rigid left = e.second.est * X(1e3 * x).inverse();
        r["line"] = left.translation().norm() < 2e-4 && left.rotation().angularDistance(Eigen::Quaterniond::Identity()) < 2e-4;
        if (getenv("VDEBUG")) r["E"] = e.second.est.DebugString();
      }
      out.push_back(r);
      ++ai;
    }
    json grav = json::array();
    for (const auto& d : p->trajectory_data())
      grav.push_back({{"t", d.first}, {"g", (int)std::lround(1e3 * d.second.gravity_constant)}});
    vh::Emit({{"e", "Solved"}, {"els", out}, {"grav", grav}});
  }

  void Run() {
    const json& w = in["w"];
    o.set_huber_scale(w["huber"].get<double>() / 1000.);
    o.set_acceleration_weight(w["acc"]);
    o.set_rotation_weight(w["rot"]);
    o.set_local_slam_pose_translation_weight(w["lt"]);
    o.set_local_slam_pose_rotation_weight(w["lr"]);
    o.set_odometry_translation_weight(w["ot"]);
    o.set_odometry_rotation_weight(w["or"]);
    o.set_fixed_frame_pose_translation_weight(w["ft"]);
    o.set_fixed_frame_pose_rotation_weight(w["fr"]);
    o.set_fixed_frame_pose_use_tolerant_loss(in["tolerant"]);
    o.set_fixed_frame_pose_tolerant_loss_param_a(1);
    o.set_fixed_frame_pose_tolerant_loss_param_b(1);
    o.set_log_solver_summary(false);
    o.set_use_online_imu_extrinsics_in_3d(false);
    o.set_fix_z_in_3d(fixz);
    o.mutable_ceres_solver_options()->set_use_nonmonotonic_steps(false);
    o.mutable_ceres_solver_options()->set_max_num_iterations(3);
    o.mutable_ceres_solver_options()->set_num_threads(1);
    p = absl::make_unique<typename Dim<D>::P>(o);
    p->SetMaxNumIterations(300);
    for (const json& op : in["ops"]) {
      const std::string e = op["e"];
      if (e == "Solve") { Solve(op); continue; }
      vh::Emit(op);
      const int t = op["t"];
      if (e == "Node") {
        const int time = op["time"];
        Rigid g, l;
        if (truth) {
          g = Node(t, time);
          l = Tr(t).local * g;
          if (op["off"]) g = Off(g);
        } else {
          g = X(op["x"]);
          l = X(op["local"]);
        }
        const Eigen::Quaterniond grav = truth ? Gravity(t, time) : Eigen::Quaterniond::Identity();
        if (op["idx"].get<int>() < 0) p->AddTrajectoryNode(t, Dim<D>::Node(T(time), l, g, grav));
        else p->InsertTrajectoryNode({t, op["idx"].get<int>()}, Dim<D>::Node(T(time), l, g, grav));
      } else if (e == "Submap") {
        Rigid g;
        if (truth) {
          g = TrueSubmap();
          element_truth[Key("s", t, op["i"])] = g;
          if (op["off"]) g = Off(g);
        } else {
          g = X(op["x"]);
        }
        if (op["ins"]) p->InsertSubmap({t, op["i"].get<int>()}, Dim<D>::To(g));
        else p->AddSubmap(t, Dim<D>::To(g));
      } else if (e == "Odom") {
        p->AddOdometryData(t, {T(op["time"]), truth ? Tr(t).odom * Platform(t, op["time"].get<int>()) : X(op["x"])});
      } else if (e == "Fixed") {
        se::FixedFramePoseData d;
        d.time = T(op["time"]);
        if (op["has"]) d.pose = truth ? Tr(t).origin.inverse() * Platform(t, op["time"].get<int>()) : X(op["x"]);
        p->AddFixedFramePoseData(t, d);
      } else if (e == "Imu") {
        se::ImuData d;
        d.time = T(op["time"]);
        if (truth) {
          d.linear_acceleration = Tr(t).r0.conjugate() * Eigen::Vector3d(0, 0, 9.5);
          d.angular_velocity = Tr(t).r0.conjugate() * Eigen::Vector3d(0, 0, Tr(t).w);
        } else {
          d.linear_acceleration = Eigen::Vector3d(0, 0, 9.8);
          if (!in["turn"]) d.linear_acceleration += op["x"].get<double>() / 1000. * Axis();
          d.angular_velocity = Eigen::Vector3d::Zero();
        }
        p->AddImuData(t, d);
      } else if (e == "TrimNode") {
        p->TrimTrajectoryNode({t, op["i"].get<int>()});
      } else if (e == "TrimSubmap") {
        p->TrimSubmap({t, op["i"].get<int>()});
      }
    }
    vh::Emit({{"e", "End"}});
  }
};
void Run(const json& sc) {
  if (sc["dim"] == 2) World<2>(sc).Run();
  else World<3>(sc).Run();
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
