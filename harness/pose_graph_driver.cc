// Drives PoseGraph2D / PoseGraph3D through their public interface, with several
// client threads, under the deterministic scheduler (if built with it).
#include <cmath>
#include <map>
#include <thread>

#include "absl/memory/memory.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/common/thread_pool.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/pose_graph_2d.h"
#include "cartographer/mapping/internal/3d/pose_graph_3d.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_2d.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_3d.h"
#include "cartographer/mapping/pose_graph_trimmer.h"
#include "cartographer/sensor/range_data.h"
#include "cartographer/transform/transform.h"
#include "gflags/gflags.h"
#include "glog/logging.h"
#include "pose_graph_options.h"
#include "vh.h"
#ifdef VSCHED
#include "vsched.h"
#endif

using namespace cartographer;
using namespace cartographer::mapping;
using vh::json;
using transform::Rigid3d;

namespace {

// The client whose call the calling thread executes.
thread_local int t_client = -1;
struct InCall {
  explicit InCall(int c) { t_client = c; }
  ~InCall() { t_client = -1; }
};

int Mm(double v) { return static_cast<int>(std::lround(v * 1000.)); }
json Planar(const Rigid3d& p) {
  return json::array({Mm(p.translation().x()), Mm(p.translation().y()),
                      Mm(transform::GetYaw(p.rotation()))});
}
// Deviation from a planar pose (tilt, height) in mrad / mm.
int OutOfPlane(const Rigid3d& p) {
  const Eigen::Vector3d up = p.rotation() * Eigen::Vector3d::UnitZ();
  return Mm(std::acos(std::min(1., up.z()))) + std::abs(Mm(p.translation().z()));
}
common::Time T(int t) { return common::FromUniversal(10000000ll * 1000 + t * 10000ll); }
int FromT(common::Time t) { return (common::ToUniversal(t) - 10000000ll * 1000) / 10000; }

struct Dim2 {
  using Graph = PoseGraph2D;
  using Active = ActiveSubmaps2D;
  using Submap = Submap2D;
  static std::unique_ptr<Active> MakeActive(int nrd) {
    auto d = pgopt::Dict(pgopt::Submaps2D(nrd));
    return absl::make_unique<Active>(CreateSubmapsOptions2D(d.get()));
  }
  static std::vector<std::shared_ptr<const Submap>> Insert(
      Active* active, const sensor::RangeData& r, const Eigen::VectorXf&) {
    return active->InsertRangeData(r);
  }
  static std::unique_ptr<Graph> MakeGraph(const proto::PoseGraphOptions& o,
                                          common::ThreadPool* pool) {
    return absl::make_unique<Graph>(
        o, absl::make_unique<optimization::OptimizationProblem2D>(o.optimization_problem_options()), pool);
  }
};
struct Dim3 {
  using Graph = PoseGraph3D;
  using Active = ActiveSubmaps3D;
  using Submap = Submap3D;
  static std::unique_ptr<Active> MakeActive(int nrd) {
    auto d = pgopt::Dict(pgopt::Submaps3D(nrd));
    return absl::make_unique<Active>(CreateSubmapsOptions3D(d.get()));
  }
  static std::vector<std::shared_ptr<const Submap>> Insert(
      Active* active, const sensor::RangeData& r, const Eigen::VectorXf& h) {
    return active->InsertData(r, Eigen::Quaterniond::Identity(), h);
  }
  static std::unique_ptr<Graph> MakeGraph(const proto::PoseGraphOptions& o,
                                          common::ThreadPool* pool) {
    return absl::make_unique<Graph>(
        o, absl::make_unique<optimization::OptimizationProblem3D>(o.optimization_problem_options()), pool);
  }
};

const char* StateName(PoseGraphInterface::TrajectoryState s) {
  switch (s) {
    case PoseGraphInterface::TrajectoryState::ACTIVE: return "ACTIVE";
    case PoseGraphInterface::TrajectoryState::FINISHED: return "FINISHED";
    case PoseGraphInterface::TrajectoryState::FROZEN: return "FROZEN";
    case PoseGraphInterface::TrajectoryState::DELETED: return "DELETED";
  }
  return "?";
}

template <typename D>
struct Run {
  const json& in;
  common::ThreadPool pool;
  std::unique_ptr<typename D::Graph> graph;
  struct Traj {
    std::unique_ptr<typename D::Active> active;
    std::vector<std::weak_ptr<const typename D::Submap>> submaps;  // in order of creation
    std::map<int, Eigen::Quaterniond> gravity;
  };
  std::map<int, Traj> trajs;

  explicit Run(const json& in) : in(in), pool(in["threads"].template get<int>()) {
    auto d = pgopt::Dict(pgopt::Graph(in));
    graph = D::MakeGraph(CreatePoseGraphOptions(d.get()), &pool);
    graph->SetGlobalSlamOptimizationCallback(
        [](const std::map<int, SubmapId>& s, const std::map<int, NodeId>& n) {
          json js = json::array(), jn = json::array();
          for (const auto& e : s) js.push_back({e.first, e.second.trajectory_id, e.second.submap_index});
          for (const auto& e : n) jn.push_back({e.first, e.second.trajectory_id, e.second.node_index});
          vh::Emit({{"e", "Opt"}, {"s", js}, {"n", jn}});
        });
    for (int t = 0; t < 4; ++t) trajs[t].active = D::MakeActive(in["nrd"]);
  }

  static Eigen::Quaterniond Gravity(int g) {
    return Eigen::Quaterniond(Eigen::AngleAxisd(g * 0.05, Eigen::Vector3d(1., 0.5, 0.).normalized()));
  }
  static Rigid3d Pose(const json& op) {
    return transform::Embed3D(transform::Rigid2d({op["x"].template get<int>() / 1000., op["y"].template get<int>() / 1000.},
                                                 op["a"].template get<int>() / 1000.));
  }

  void Node(int c, const json& op) {
    const int t = op["t"];
    Traj& traj = trajs[t];
    const Rigid3d planar = Pose(op);
    const Eigen::Quaterniond g = Gravity(op.value("g", 0));
    sensor::PointCloud in_tracking;
    for (int i = 0; i < 20; ++i) {
      const float a = i * 2 * M_PI / 20, r = 0.6f + 0.25f * std::sin(3 * a) + 0.15f * std::cos(2 * a + 1);
      in_tracking.push_back({Eigen::Vector3f(r * std::cos(a), r * std::sin(a), 0.f)});
    }
    Eigen::VectorXf histogram = Eigen::VectorXf::Zero(8);
    for (int i = 0; i < 8; ++i) histogram(i) = 1.f + i % 3;
    const sensor::RangeData range = sensor::TransformRangeData(
        sensor::RangeData{Eigen::Vector3f::Zero(), in_tracking, {}}, planar.cast<float>());
    const auto subs = D::Insert(traj.active.get(), range, histogram);
    json ids = json::array();
    for (const auto& s : subs) {
      size_t k = 0;
      while (k < traj.submaps.size() && traj.submaps[k].lock() != s) ++k;
      if (k == traj.submaps.size()) traj.submaps.emplace_back(s);
      ids.push_back(k);
    }
    auto data = std::make_shared<TrajectoryNode::Data>();
    data->time = T(op["time"]);
    data->gravity_alignment = g;
    data->filtered_gravity_aligned_point_cloud = in_tracking;
    data->high_resolution_point_cloud = in_tracking;
    data->low_resolution_point_cloud = in_tracking;
    data->rotational_scan_matcher_histogram = histogram;
    data->local_pose = planar * Rigid3d::Rotation(g);
    vh::Emit({{"e", "Node"}, {"c", c}, {"t", t}, {"subs", ids}, {"fin", subs.front()->insertion_finished()},
              {"time", op["time"]}, {"p", {op["x"], op["y"], op["a"]}}, {"g", op.value("g", 0)}});
    const NodeId id = [&] {
      InCall call(c);
      return graph->AddNode(data, t, subs);
    }();
    vh::Emit({{"e", "NodeRet"}, {"c", c}, {"id", {id.trajectory_id, id.node_index}}});
  }

  template <typename M>
  static json Times(const M& m) {
    json v = json::array();
    for (const int t : m.trajectory_ids()) {
      json ts = json::array();
      for (const auto& d : m.trajectory(t)) ts.push_back(FromT(d.time));
      v.push_back({t, ts});
    }
    return v;
  }

  json ObserveIn(int c, const std::string& k) {
    InCall call(c);
    return Observe(k);
  }
  json Observe(const std::string& k) {
    json v = json::array();
    if (k == "states") {
      for (const auto& e : graph->GetTrajectoryStates()) v.push_back({e.first, StateName(e.second)});
    } else if (k == "nodes") {
      const auto nodes = graph->GetTrajectoryNodes();
      for (const auto& n : nodes) {
        const Rigid3d gi = Rigid3d::Rotation(n.data.constant_data->gravity_alignment.inverse());
        const Rigid3d gp = n.data.global_pose * gi;
        v.push_back({n.id.trajectory_id, n.id.node_index, FromT(n.data.time()),
                     Planar(n.data.constant_data->local_pose * gi), Planar(gp), OutOfPlane(gp)});
      }
    } else if (k == "poses") {
      const auto nodes = graph->GetTrajectoryNodePoses();
      for (const auto& n : nodes)
        v.push_back({n.id.trajectory_id, n.id.node_index,
                     n.data.constant_pose_data.has_value() ? FromT(n.data.constant_pose_data->time) : -1,
                     n.data.constant_pose_data.has_value() ? Planar(n.data.constant_pose_data->local_pose) : json::array(),
                     Planar(n.data.global_pose)});
    } else if (k == "submaps") {
      const auto submaps = graph->GetAllSubmapData();
      for (const auto& s : submaps)
        v.push_back({s.id.trajectory_id, s.id.submap_index, Ordinal(s.id.trajectory_id, s.data.submap.get()),
                     Planar(s.data.pose), OutOfPlane(s.data.pose)});
    } else if (k == "subposes") {
      const auto submaps = graph->GetAllSubmapPoses();
      for (const auto& s : submaps) v.push_back({s.id.trajectory_id, s.id.submap_index, Planar(s.data.pose)});
    } else if (k == "cons") {
      for (const auto& c : graph->constraints()) {
        // The frame of the constraint is rotated by the node's gravity alignment.
        Rigid3d z = c.pose.zbar_ij;
        const auto it = gravity_.find({c.node_id.trajectory_id, c.node_id.node_index});
        if (it != gravity_.end()) z = z * Rigid3d::Rotation(it->second.inverse());
        v.push_back({c.submap_id.trajectory_id, c.submap_id.submap_index, c.node_id.trajectory_id,
                     c.node_id.node_index,
                     c.tag == PoseGraphInterface::Constraint::INTRA_SUBMAP ? 0 : 1, Planar(z),
                     Mm(c.pose.translation_weight), Mm(c.pose.rotation_weight)});
      }
    } else if (k == "conn") {
      for (const auto& comp : graph->GetConnectedTrajectories()) v.push_back(comp);
    } else if (k == "odom") {
      v = Times(graph->GetOdometryData());
    } else if (k == "fixed") {
      v = Times(graph->GetFixedFramePoseData());
    } else if (k == "imu") {
      v = Times(graph->GetImuData());
    } else if (k == "lm") {
      for (const auto& e : graph->GetLandmarkNodes()) {
        json o = json::array();
        for (const auto& x : e.second.landmark_observations) o.push_back({x.trajectory_id, FromT(x.time)});
        v.push_back({e.first, o, e.second.frozen});
      }
    } else if (k == "lmposes") {
      for (const auto& e : graph->GetLandmarkPoses()) v.push_back({e.first, Planar(e.second)});
    } else if (k == "l2g") {
      for (int t = 0; t < 4; ++t) v.push_back(Planar(graph->GetLocalToGlobalTransform(t)));
    }
    return v;
  }
  // Node ids are handed out in order, so the k-th node event of a trajectory
  // has index k; filled from the scenario before the run.
  std::map<std::pair<int, int>, Eigen::Quaterniond> gravity_;
  int Ordinal(int t, const void* p) {
    const auto& v = trajs[t].submaps;
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i].lock().get() == p) return i;
    return -1;
  }

  void Client(int c, const json& ops) {
    for (const json& op : ops) {
      const std::string o = op["o"];
      if (o == "node") {
        Node(c, op);
      } else if (o == "snap") {
        for (const json& k : op["k"]) {
          vh::Emit({{"e", "ObsCall"}, {"c", c}});
          vh::Emit({{"e", "Obs"}, {"c", c}, {"k", k}, {"v", ObserveIn(c, k)}});
        }
      } else {
        json ev = op;
        ev["e"] = "Op";
        ev["c"] = c;
        vh::Emit(ev);
        InCall call(c);
        if (o == "imu") {
          graph->AddImuData(op["t"], sensor::ImuData{T(op["time"]), Eigen::Vector3d(0, 0, 9.8), Eigen::Vector3d::Zero()});
        } else if (o == "odom") {
          graph->AddOdometryData(op["t"], sensor::OdometryData{T(op["time"]), Pose(op)});
        } else if (o == "fixed") {
          graph->AddFixedFramePoseData(op["t"], sensor::FixedFramePoseData{T(op["time"]), absl::optional<Rigid3d>(Pose(op))});
        } else if (o == "lm") {
          // Landmark "id" observed from the planar pose (x, y, a).
          const Rigid3d lm = Rigid3d::Translation(Eigen::Vector3d(op["lx"].template get<int>() / 1000., op["ly"].template get<int>() / 1000., 0.));
          graph->AddLandmarkData(op["t"], sensor::LandmarkData{T(op["time"]), {sensor::LandmarkObservation{
              op["id"], (Pose(op) * Rigid3d::Rotation(Gravity(op.value("g", 0)))).inverse() * lm, 1., 1.}}});
        } else if (o == "setlm") {
          graph->SetLandmarkPose(op["id"], Pose(op), op["frozen"]);
        } else if (o == "finish") {
          graph->FinishTrajectory(op["t"]);
        } else if (o == "freeze") {
          graph->FreezeTrajectory(op["t"]);
        } else if (o == "delete") {
          graph->DeleteTrajectory(op["t"]);
        } else if (o == "trim") {
          graph->AddTrimmer(absl::make_unique<PureLocalizationTrimmer>(op["t"].template get<int>(), op["n"].template get<int>()));
        } else if (o == "init") {
          graph->SetInitialTrajectoryPose(op["t"], op["to"], Pose(op), T(op["time"]));
        } else if (o == "final") {
          graph->RunFinalOptimization();
        } else {
          abort();
        }
        t_client = -1;
        vh::Emit({{"e", "Ret"}, {"c", c}});
      }
    }
  }

  void Go() {
    std::map<int, int> count;
    for (const json& ops : in["clients"])
      for (const json& op : ops)
        if (op["o"] == "node") {
          const int t = op["t"];
          gravity_[{t, count[t]++}] = Gravity(op.value("g", 0));
        }
    std::vector<std::thread> others;
    for (size_t c = 1; c < in["clients"].size(); ++c)
      others.emplace_back([this, c] { Client(c, in["clients"][c]); });
    Client(0, in["clients"][0]);
    for (auto& t : others) t.join();
    if (in.contains("last")) Client(0, in["last"]);
    vh::Emit({{"e", "Destroy"}});
    graph.reset();
    vh::Emit({{"e", "Gone"}});
  }
};

void Handle(const json& in) {
#ifdef VSCHED
  if (in.contains("sched")) vsched::Start(in["sched"]);
  if (in["clients"].size() > 1)
    vsched::SetAcquireHook([](const void* m) {
      static std::map<const void*, int> ids;
      if (t_client < 0) return;
      const int id = ids.emplace(m, ids.size()).first->second;
      vh::Emit({{"e", "Lk"}, {"c", t_client}, {"m", id}});
    });
#endif
  if (in["dim"] == 2) {
    Run<Dim2>(in).Go();
  } else {
    Run<Dim3>(in).Go();
  }
}
}  // namespace

int main(int argc, char** argv) {
  FLAGS_minloglevel = 3;
  // The progress display would end up in the report.
  std::cout.setstate(std::ios::failbit);
  return vh::Main(argc, argv, Handle, {60000});
}
