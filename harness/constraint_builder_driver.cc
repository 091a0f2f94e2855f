// Drives ConstraintBuilder2D / 3D. Computations are run either one at a time
// by a pool that executes the task it is told to ("step"), or by the real
// thread pool under the deterministic scheduler.
#include <cmath>
#include <map>
#include <random>

#include "absl/memory/memory.h"
#include "cartographer/common/thread_pool.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/constraints/constraint_builder.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_2d.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_3d.h"
#include "cartographer/metrics/family_factory.h"
#include "cartographer/transform/transform.h"
#include "pose_graph_options.h"
#include "vh.h"
#include "vsched.h"

using namespace cartographer;
using namespace cartographer::mapping;
using vh::json;
using transform::Rigid3d;

namespace {
int g_searched = 0;
struct CountingCounter : metrics::Counter {
  void Increment() override { ++g_searched; }
  void Increment(double by) override { g_searched += by; }
};
struct CounterFamily : metrics::Family<metrics::Counter> {
  metrics::Counter* Add(const std::map<std::string, std::string>& labels) override {
    const auto it = labels.find("matcher");
    if (it != labels.end() && it->second == "searched") return new CountingCounter;
    return metrics::Counter::Null();
  }
};
struct Factory : metrics::FamilyFactory {
  metrics::Family<metrics::Counter>* NewCounterFamily(const std::string&, const std::string&) override {
    return new CounterFamily;
  }
  metrics::Family<metrics::Gauge>* NewGaugeFamily(const std::string&, const std::string&) override {
    return metrics::Family<metrics::Gauge>::Null();
  }
  metrics::Family<metrics::Histogram>* NewHistogramFamily(
      const std::string&, const std::string&, const metrics::Histogram::BucketBoundaries&) override {
    return metrics::Family<metrics::Histogram>::Null();
  }
};

class StepPool : public common::ThreadPoolInterface {
 public:
  std::weak_ptr<common::Task> Schedule(std::unique_ptr<common::Task> task) override {
    std::shared_ptr<common::Task> shared(std::move(task));
    waiting_[shared.get()] = shared;
    SetThreadPool(shared.get());
    return shared;
  }
  bool Step(size_t k) {
    if (ready_.empty()) return false;
    k %= ready_.size();
    std::shared_ptr<common::Task> t = ready_[k];
    ready_.erase(ready_.begin() + k);
    Execute(t.get());
    return true;
  }

 private:
  void NotifyDependenciesCompleted(common::Task* task) override {
    ready_.push_back(waiting_.at(task));
    waiting_.erase(task);
  }
  std::map<common::Task*, std::shared_ptr<common::Task>> waiting_;
  std::vector<std::shared_ptr<common::Task>> ready_;
};

int Mm(double v) { return static_cast<int>(std::lround(v * 1000.)); }

// Angular histogram of every scan: one peak, so few rotations are plausible.
Eigen::VectorXf Histogram() {
  Eigen::VectorXf h = Eigen::VectorXf::Zero(60);
  h(7) = 3.f;
  h(8) = 1.f;
  h(31) = 1.f;
  return h;
}

// Cells of pattern v (units of 0.1 m); no two patterns are alike.
std::vector<Eigen::Array3i> Pattern(int v) {
  std::mt19937 rng(1000 + v);
  std::vector<Eigen::Array3i> cells;
  while (cells.size() < 12) {
    const Eigen::Array3i c(static_cast<int>(rng() % 19) - 9, static_cast<int>(rng() % 19) - 9, static_cast<int>(rng() % 5) - 2);
    bool seen = false;
    for (const auto& o : cells) seen |= (o.x() == c.x() && o.y() == c.y());
    if (!seen) cells.push_back(c);
  }
  return cells;
}

// Points of a scan taken at relative pose (rx, ry) of a submap with pattern v;
// quality 2: all points fit, 1: three quarters do, 0: none need to.
sensor::PointCloud Cloud(int v, int quality, int rx, int ry, bool flat) {
  const auto good = Pattern(v), bad = Pattern(100 + v);
  sensor::PointCloud cloud;
  for (size_t i = 0; i < good.size(); ++i) {
    const Eigen::Array3i c = quality == 2 || (quality == 1 && i % 4 != 0) ? good[i] : bad[i];
    cloud.push_back({Eigen::Vector3f(0.1f * (c.x() - rx), 0.1f * (c.y() - ry), flat ? 0.f : 0.1f * c.z())});
  }
  return cloud;
}

std::shared_ptr<TrajectoryNode::Data> NodeData(const json& op, bool flat) {
  auto data = std::make_shared<TrajectoryNode::Data>();
  const auto cloud = Cloud(op["v"], op["q"], op["rx"], op["ry"], flat);
  data->time = common::FromUniversal(1000);
  data->gravity_alignment = Eigen::Quaterniond::Identity();
  data->filtered_gravity_aligned_point_cloud = cloud;
  data->high_resolution_point_cloud = cloud;
  data->low_resolution_point_cloud = cloud;
  data->rotational_scan_matcher_histogram = Histogram();
  return data;
}

struct B2 {
  using Builder = constraints::ConstraintBuilder2D;
  using Sub = Submap2D;
  ValueConversionTables tables;
  std::shared_ptr<Sub> Make(int v) {
    auto grid = absl::make_unique<ProbabilityGrid>(
        MapLimits(0.1, Eigen::Vector2d(1.55 + v, 1.55), CellLimits(31, 31)), &tables);
    // The submap's origin is at (v, 0).
    for (const auto& c : Pattern(v))
      grid->SetProbability(grid->limits().GetCellIndex(Eigen::Vector2f(v + 0.1f * c.x(), 0.1f * c.y())), 0.9f);
    grid->FinishUpdate();
    return std::make_shared<Sub>(Eigen::Vector2f(v, 0.f), std::move(grid), &tables);
  }
  static void Local(Builder* b, const SubmapId& s, const Sub* sub, const NodeId& n, const TrajectoryNode::Data* d, const json& op) {
    b->MaybeAddConstraint(s, sub, n, d, transform::Rigid2d::Translation(
        {0.1 * op["rx"].get<int>() + 0.1 * op["ox"].get<int>(), 0.1 * op["ry"].get<int>()}));
  }
  static void Global(Builder* b, const SubmapId& s, const Sub* sub, const NodeId& n, const TrajectoryNode::Data* d, const json&) {
    b->MaybeAddGlobalConstraint(s, sub, n, d);
  }
  static constexpr bool flat = true;
};
struct B3 {
  using Builder = constraints::ConstraintBuilder3D;
  using Sub = Submap3D;
  std::shared_ptr<Sub> Make(int v) {
    auto d = pgopt::Dict("return { hit_probability = 0.9, miss_probability = 0.49, num_free_space_voxels = 0, intensity_threshold = 100. }");
    RangeDataInserter3D inserter(CreateRangeDataInserterOptions3D(d.get()));
    auto s = std::make_shared<Sub>(0.1f, 0.5f, Rigid3d::Identity(), Histogram());
    sensor::RangeData r{Eigen::Vector3f::Zero(), Cloud(v, 2, 0, 0, false), {}};
    s->InsertData(r, inserter, 100.f, Eigen::Quaterniond::Identity(), Histogram());
    s->Finish();
    return s;
  }
  // The submap's place in the world.
  static Rigid3d GlobalSubmap(const json& op) {
    const int v = op["v"];
    return Rigid3d(Eigen::Vector3d(5. * v, -3., 1.), Eigen::Quaterniond(Eigen::AngleAxisd(0.3 * v, Eigen::Vector3d::UnitZ())));
  }
  static Rigid3d Guess(const json& op) {
    return Rigid3d::Translation({0.1 * op["rx"].get<int>() + 0.1 * op["ox"].get<int>(), 0.1 * op["ry"].get<int>(), 0.});
  }
  static void Local(Builder* b, const SubmapId& s, const Sub* sub, const NodeId& n, const TrajectoryNode::Data* d, const json& op) {
    b->MaybeAddConstraint(s, sub, n, d, GlobalSubmap(op) * Guess(op), GlobalSubmap(op));
  }
  static void Global(Builder* b, const SubmapId& s, const Sub* sub, const NodeId& n, const TrajectoryNode::Data* d, const json& op) {
    b->MaybeAddGlobalConstraint(s, sub, n, d, (GlobalSubmap(op) * Guess(op)).rotation(), GlobalSubmap(op).rotation());
  }
  static constexpr bool flat = false;
};

std::string Options(const json& in) {
  return R"(return { sampling_ratio = )" + std::to_string(in["ratio4"].get<int>() / 4.) + R"(, max_constraint_distance = 3.,
      min_score = 0.55, global_localization_min_score = 0.8,
      loop_closure_translation_weight = 3., loop_closure_rotation_weight = 4., log_matches = )" +
      (in.value("log", false) ? "true" : "false") + R"(,
      fast_correlative_scan_matcher = { linear_search_window = 0.35, angular_search_window = 0.1, branch_and_bound_depth = 3 },
      ceres_scan_matcher = { occupied_space_weight = 1., translation_weight = 10., rotation_weight = 10.,
        ceres_solver_options = { use_nonmonotonic_steps = true, max_num_iterations = 2, num_threads = 1 } },
      fast_correlative_scan_matcher_3d = { branch_and_bound_depth = 3, full_resolution_depth = 2,
        min_rotational_score = 0.9, min_low_resolution_score = 0.0, linear_xy_search_window = 0.35,
        linear_z_search_window = 0.15, angular_search_window = 0.1 },
      ceres_scan_matcher_3d = { occupied_space_weight_0 = 1., occupied_space_weight_1 = 1., translation_weight = 10.,
        rotation_weight = 10., only_optimize_yaw = true,
        ceres_solver_options = { use_nonmonotonic_steps = true, max_num_iterations = 2, num_threads = 1 } } })";
}

template <typename D>
void Run(const json& in) {
  Factory factory;
  D::Builder::RegisterMetrics(&factory);
  D dim;
  const bool step = in["pool"] == "step";
  std::unique_ptr<common::ThreadPool> real;
  StepPool steps;
  common::ThreadPoolInterface* pool = &steps;
  if (!step) {
    real = absl::make_unique<common::ThreadPool>(in["threads"].get<int>());
    pool = real.get();
  }
  auto d = pgopt::Dict(Options(in));
  auto builder = absl::make_unique<typename D::Builder>(constraints::CreateConstraintBuilderOptions(d.get()), pool);
  std::map<int, std::shared_ptr<typename D::Sub>> subs;
  std::vector<std::shared_ptr<TrajectoryNode::Data>> keep;
  int done = 0, asked = 0;
  const auto after = [&] {
    vh::Emit({{"e", "Step"}, {"searched", g_searched}, {"num", builder->GetNumFinishedNodes()}});
  };
  for (const json& op : in["ops"]) {
    const std::string o = op["o"];
    json ev = op;
    ev["e"] = "Op";
    if (o == "local" || o == "global") {
      const SubmapId s{op["s"][0], op["s"][1]};
      const NodeId n{op["n"][0], op["n"][1]};
      const int v = op["v"];
      if (!subs.count(v)) subs[v] = dim.Make(v);
      keep.push_back(NodeData(op, D::flat));
      vh::Emit(ev);
      if (o == "local") D::Local(builder.get(), s, subs[v].get(), n, keep.back().get(), op);
      else D::Global(builder.get(), s, subs[v].get(), n, keep.back().get(), op);
    } else if (o == "end") {
      vh::Emit(ev);
      builder->NotifyEndOfNode();
    } else if (o == "when") {
      vh::Emit(ev);
      const int k = ++asked;
      builder->WhenDone([&, k](const typename D::Builder::Result& result) {
        json r = json::array();
        for (const auto& c : result) {
          const Rigid3d p = c.pose.zbar_ij;
          r.push_back({c.submap_id.trajectory_id, c.submap_id.submap_index, c.node_id.trajectory_id, c.node_id.node_index,
                       Mm(p.translation().x()), Mm(p.translation().y()), Mm(transform::GetYaw(p)) + std::abs(Mm(p.translation().z())),
                       Mm(c.pose.translation_weight), Mm(c.pose.rotation_weight),
                       c.tag == PoseGraphInterface::Constraint::INTER_SUBMAP ? 1 : 0});
        }
        vh::Emit({{"e", "Done"}, {"k", k}, {"r", r}, {"num", builder->GetNumFinishedNodes()}, {"searched", g_searched}});
        ++done;
      });
    } else if (o == "delete") {
      vh::Emit(ev);
      builder->DeleteScanMatcher(SubmapId{op["s"][0], op["s"][1]});
    } else if (o == "num") {
      vh::Emit({{"e", "NumCall"}});
      vh::Emit({{"e", "Num"}, {"num", builder->GetNumFinishedNodes()}});
    } else if (o == "step") {
      if (step && steps.Step(op["k"])) after();
    } else if (o == "wait") {
      if (step) {
        for (size_t k = op["k"]; done < asked; k = k * 7 + 3) {
          if (!steps.Step(k)) break;
          after();
        }
      } else {
        vsched::BlockUntil([&] { return done == asked; }, false);
      }
      vh::Emit({{"e", "Idle"}, {"done", done}});
    } else {
      abort();
    }
  }
  vh::Emit({{"e", "Destroy"}});
  builder.reset();
  real.reset();
  vh::Emit({{"e", "Gone"}});
}

void Handle(const json& in) {
  vsched::Start(in["sched"]);
  if (in["dim"] == 2) Run<B2>(in);
  else Run<B3>(in);
}
}  // namespace

int main(int argc, char** argv) { return vh::Main(argc, argv, Handle); }
