// Driver for the map builder (B01, B02).
#include <chrono>
#include <cmath>
#include <map>
#include <set>
#include <thread>
#include <queue>
#include <random>
#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "cartographer/io/proto_stream.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "cartographer/mapping/internal/2d/local_trajectory_builder_options_2d.h"
#include "cartographer/mapping/internal/3d/local_trajectory_builder_options_3d.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/map_builder.h"
#include "local_slam_options.h"
#include "pose_graph_options.h"
#include "vh.h"
using namespace cartographer;
using vh::json;
namespace {
using lsopt::kTick;
using mapping::TrajectoryBuilderInterface;
using SensorType = TrajectoryBuilderInterface::SensorId::SensorType;
common::Time Time(int t) { return common::FromUniversal(1000000000LL + t * kTick); }
long Ticks(common::Time t) { return (common::ToUniversal(t) - 1000000000LL) / kTick; }
long Cm(double v) { return std::fabs(v) < 1e6 ? std::lround(v * 100.) : 2000000000; }
json Cm(const Eigen::Vector3d& v) { return {Cm(v.x()), Cm(v.y()), Cm(v.z())}; }
transform::Rigid3d Planar(const json& p) {
  return transform::Rigid3d(Eigen::Vector3d(p[0].get<double>() * .01, p[1].get<double>() * .01, 0.),
                            Eigen::Quaterniond(Eigen::AngleAxisd(p[2].get<double>() * .01, Eigen::Vector3d::UnitZ())));
}
SensorType Type(char c) {
  switch (c) {
    case 'r': return SensorType::RANGE;
    case 'i': return SensorType::IMU;
    case 'o': return SensorType::ODOMETRY;
    case 'f': return SensorType::FIXED_FRAME_POSE;
    default: return SensorType::LANDMARK;
  }
}
// c: {dim, every, bytraj, threads}
mapping::proto::MapBuilderOptions BuilderOptions(const json& c) {
  mapping::proto::MapBuilderOptions o;
  o.set_use_trajectory_builder_2d(c["dim"] == 2);
  o.set_use_trajectory_builder_3d(c["dim"] == 3);
  o.set_num_background_threads(c["threads"].get<int>());
  *o.mutable_pose_graph_options() = mapping::CreatePoseGraphOptions(
      pgopt::Dict(pgopt::Graph({{"every", c["every"]}, {"inter", c.value("inter", "none")}, {"dim", c["dim"]}})).get());
  o.set_collate_by_trajectory(c["bytraj"].get<bool>());
  return o;
}
// t: {sensors, local, cl, cf, mf, omf, imu, nrd, num, trim, init}
mapping::proto::TrajectoryBuilderOptions TrajectoryOptions(int dim, const json& t) {
  mapping::proto::TrajectoryBuilderOptions o;
  if (t["local"].get<bool>()) {
    const json c = {{"imu", t["imu"]}, {"dur", 4}, {"num", t["num"]}, {"min2", 1}, {"max2", 2000}, {"miss", 20}, {"zmin", -50}, {"zmax", 50},
                    {"mf", {{"t", t["mf"]}, {"d", 1000000}, {"a", 18000000}}}, {"nrd", t["nrd"]}};
    if (dim == 2) *o.mutable_trajectory_builder_2d_options() = mapping::CreateLocalTrajectoryBuilderOptions2D(pgopt::Dict(lsopt::Local2D(c)).get());
    else *o.mutable_trajectory_builder_3d_options() = mapping::CreateLocalTrajectoryBuilderOptions3D(pgopt::Dict(lsopt::Local3D(c)).get());
  }
  o.set_collate_fixed_frame(t["cf"].get<bool>());
  o.set_collate_landmarks(t["cl"].get<bool>());
  if (t["omf"].get<int>() >= 0) {
    auto* f = o.mutable_pose_graph_odometry_motion_filter();
    f->set_max_time_seconds(t["omf"].get<int>() * lsopt::kTickSeconds);
    f->set_max_distance_meters(1000.);
    f->set_max_angle_radians(3.);
  }
  if (t["trim"].get<int>() == 3) o.set_pure_localization(true);
  else if (t["trim"].get<int>() > 0) o.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(t["trim"].get<int>());
  if (t["init"]["to"].get<int>() >= 0) {
    auto* i = o.mutable_initial_trajectory_pose();
    i->set_to_trajectory_id(t["init"]["to"].get<int>());
    i->set_timestamp(common::ToUniversal(Time(t["init"]["t"])));
    *i->mutable_relative_pose() = transform::ToProto(transform::Rigid3d(Eigen::Vector3d(t["init"]["x"].get<double>(), 0., 0.),
                           Eigen::Quaterniond(Eigen::AngleAxisd(t["init"].value("a", 0) * .01, Eigen::Vector3d::UnitZ()))));
  }
  return o;
}
const char* State(mapping::PoseGraphInterface::TrajectoryState s) {
  using S = mapping::PoseGraphInterface::TrajectoryState;
  return s == S::ACTIVE ? "a" : s == S::FINISHED ? "f" : s == S::FROZEN ? "z" : "d";
}
class World {
 public:
  explicit World(const json& c) : c_(c), builder_(mapping::CreateMapBuilder(BuilderOptions(c))) {}
  mapping::MapBuilderInterface* operator->() { return builder_.get(); }
  mapping::PoseGraph* graph() { return dynamic_cast<mapping::PoseGraph*>(builder_->pose_graph()); }
  int AddTrajectory(const json& t) {
    std::set<TrajectoryBuilderInterface::SensorId> ids;
    for (const std::string& s : t["sensors"]) ids.insert({Type(s[0]), s});
    return builder_->AddTrajectoryBuilder(
        ids, TrajectoryOptions(c_["dim"], t),
        [](const int tr, const common::Time time, const transform::Rigid3d& pose, sensor::RangeData range,
           std::unique_ptr<const TrajectoryBuilderInterface::InsertionResult> result) {
          json e = {{"e", "Result"}, {"tr", tr}, {"t", Ticks(time)}, {"pts", range.returns.size()}, {"node", nullptr}};
          if (result) {
            e["node"] = {{"tr", result->node_id.trajectory_id}, {"n", result->node_id.node_index}, {"t", Ticks(result->constant_data->time)},
                         {"subs", result->insertion_submaps.size()}};
          } else {
            e["node"] = {{"tr", -1}, {"n", -1}, {"t", -1}, {"subs", 0}};
          }
          vh::Emit(e);
        });
  }
  void Data(int tr, const std::string& s, int t, const json& p = nullptr) {
    TrajectoryBuilderInterface* b = builder_->GetTrajectoryBuilder(tr);
    switch (s[0]) {
      case 'r': {
        sensor::TimedPointCloudData d;
        d.time = Time(t);
        d.origin = Eigen::Vector3f::Zero();
        for (int i = 0; i < 3 + tr; ++i) d.ranges.push_back({Eigen::Vector3f(1.f + i, s[1] - '0', 0.f), 0.f});
        b->AddSensorData(s, d);
        break;
      }
      case 'i':
        b->AddSensorData(s, sensor::ImuData{Time(t), 9.8 * Eigen::Vector3d::UnitZ(), Eigen::Vector3d::Zero()});
        break;
      case 'o':
        b->AddSensorData(s, sensor::OdometryData{Time(t), p.is_null() ? transform::Rigid3d::Translation(Eigen::Vector3d(tr + 1., 0., 0.)) : Planar(p)});
        break;
      case 'f':
        b->AddSensorData(s, sensor::FixedFramePoseData{Time(t), transform::Rigid3d::Translation(Eigen::Vector3d(tr + 11., 0., 0.))});
        break;
      default:
        b->AddSensorData(s, sensor::LandmarkData{Time(t), {{"L" + std::to_string(t % 2), transform::Rigid3d::Translation(Eigen::Vector3d(tr + 21., 0., 0.)), 1. + t % 3, 2. + t % 5}}});
    }
  }
  void EmitState() {
    builder_->pose_graph()->RunFinalOptimization();
    auto* g = graph();
    json nodes = json::array(), imu = json::array(), odo = json::array(), ff = json::array(), lm = json::array(), st = json::array(), subs = json::array(), l2g = json::array();
    for (const auto& n : g->GetTrajectoryNodes()) nodes.push_back({n.id.trajectory_id, n.id.node_index, Ticks(n.data.constant_data->time)});
    for (const auto& s : g->GetAllSubmapData()) subs.push_back({s.id.trajectory_id, s.id.submap_index});
    const auto i = g->GetImuData();
    for (int t : i.trajectory_ids()) for (const auto& d : i.trajectory(t)) imu.push_back({t, Ticks(d.time)});
    const auto o = g->GetOdometryData();
    for (int t : o.trajectory_ids()) for (const auto& d : o.trajectory(t)) odo.push_back({t, Ticks(d.time), Cm(d.pose.translation().x())});
    const auto f = g->GetFixedFramePoseData();
    for (int t : f.trajectory_ids()) for (const auto& d : f.trajectory(t)) ff.push_back({t, Ticks(d.time), Cm(d.pose->translation().x())});
    for (const auto& l : g->GetLandmarkNodes())
      for (const auto& d : l.second.landmark_observations)
        lm.push_back({d.trajectory_id, Ticks(d.time), Cm(d.landmark_to_tracking_transform.translation().x()), l.first});
    for (const auto& s : g->GetTrajectoryStates()) st.push_back({s.first, State(s.second)});
    for (int t = 0; t < builder_->num_trajectory_builders(); ++t) l2g.push_back(Cm(g->GetLocalToGlobalTransform(t).translation()));
    vh::Emit({{"e", "State"}, {"nodes", nodes}, {"subs", subs}, {"imu", imu}, {"odo", odo}, {"ff", ff}, {"lm", lm}, {"st", st}, {"l2g", l2g}});
  }
 private:
  const json c_;
  std::unique_ptr<mapping::MapBuilderInterface> builder_;
};
void Route(const json& sc) {
  World w(sc["c"]);
  for (const json& o : sc["ops"]) {
    const std::string op = o["op"];
    json ev = o;
    ev.erase("op");
    ev["e"] = op;
    vh::Emit(ev);
    if (op == "Traj") vh::Emit({{"e", "Id"}, {"id", w.AddTrajectory(o["t"])}, {"num", w->num_trajectory_builders()}, {"opts", w->GetAllTrajectoryBuilderOptions().size()}});
    else if (op == "Data") w.Data(o["tr"], o["s"], o["t"]);
    else if (op == "Finish") w->FinishTrajectory(o["tr"]);
    else if (op == "Check") w.EmitState();
    else if (op == "Query") {
      mapping::proto::SubmapQuery::Response r;
      const std::string error = w->SubmapToProto(mapping::SubmapId{o["tr"].get<int>(), o["n"].get<int>()}, &r);
      vh::Emit({{"e", "Answer"}, {"ok", error.empty()}, {"textures", r.textures_size()}, {"version", r.submap_version()}});
    }
    vh::Emit({{"e", "Ret"}});
  }
  w.EmitState();
  vh::Finish({{"e", "End"}});
}
// ---------------------------------------------------------------- B02
std::string Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  char b[32];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
  return b;
}
std::string Hash(const google::protobuf::MessageLite& m) {
  std::string s;
  {
    google::protobuf::io::StringOutputStream out(&s);
    google::protobuf::io::CodedOutputStream coded(&out);
    coded.SetSerializationDeterministic(true);
    m.SerializeToCodedStream(&coded);
  }
  return Hash(s);
}
std::string Num(double v) {
  char b[64];
  snprintf(b, sizeof b, "%lld", (long long)std::llround(v * 1e6));
  return b;
}
std::string Str(const transform::Rigid3d& r) {
  const Eigen::Quaterniond& q = r.rotation();
  const double s = q.w() < -1e-9 || (std::fabs(q.w()) <= 1e-9 && q.z() < 0) ? -1 : 1;
  return Num(r.translation().x()) + " " + Num(r.translation().y()) + " " + Num(r.translation().z()) + " " + Num(s * q.w()) + " " +
         Num(s * q.x()) + " " + Num(s * q.y()) + " " + Num(s * q.z());
}
// Files are read field by field here, without the conversions under test.
Eigen::Vector3d Vec(const transform::proto::Vector3d& v) { return {v.x(), v.y(), v.z()}; }
Eigen::Quaterniond Quat(const transform::proto::Quaterniond& q) { return {q.w(), q.x(), q.y(), q.z()}; }
transform::Rigid3d Rigid(const transform::proto::Rigid3d& r) { return {Vec(r.translation()), Quat(r.rotation())}; }
std::string Str(const transform::proto::Rigid3d& r) { return Str(Rigid(r)); }
std::string Str(const Eigen::Vector3d& v) { return Num(v.x()) + " " + Num(v.y()) + " " + Num(v.z()); }
std::string Str(const Eigen::Quaterniond& q) { return Str(transform::Rigid3d::Rotation(q)); }
// Clouds are the same if their points after compression are.
std::string Cloud(const sensor::PointCloud& c) {
  std::vector<std::array<long, 3>> p;
  for (const auto& x : c) p.push_back({std::lround(x.position.x() * 1e4), std::lround(x.position.y() * 1e4), std::lround(x.position.z() * 1e4)});
  std::sort(p.begin(), p.end());
  std::string s;
  for (const auto& x : p) s += std::to_string(x[0]) + "," + std::to_string(x[1]) + "," + std::to_string(x[2]) + ";";
  return Hash(s);
}
std::string Packed(const sensor::PointCloud& c) { return Cloud(sensor::CompressedPointCloud(c).Decompress()); }
std::string Packed(const sensor::proto::CompressedPointCloud& c) { return Cloud(sensor::CompressedPointCloud(c).Decompress()); }
template <typename T> std::string Nums(const T& v, int n) {
  std::string s = "[";
  for (int i = 0; i < n; ++i) s += Num(v[i]) + " ";
  return s + "]";
}
std::string Content(const mapping::TrajectoryNode::Data& d) {
  return std::to_string(common::ToUniversal(d.time)) + " " + Str(d.gravity_alignment) + " " + Packed(d.filtered_gravity_aligned_point_cloud) + " " +
         Packed(d.high_resolution_point_cloud) + " " + Packed(d.low_resolution_point_cloud) + " " +
         Nums(d.rotational_scan_matcher_histogram, d.rotational_scan_matcher_histogram.size()) + " " + Str(d.local_pose);
}
std::string Content(const mapping::proto::TrajectoryNodeData& d) {
  return std::to_string(d.timestamp()) + " " + Str(Quat(d.gravity_alignment())) + " " + Packed(d.filtered_gravity_aligned_point_cloud()) + " " +
         Packed(d.high_resolution_point_cloud()) + " " + Packed(d.low_resolution_point_cloud()) + " " +
         Nums(d.rotational_scan_matcher_histogram(), d.rotational_scan_matcher_histogram_size()) + " " + Str(d.local_pose());
}
std::string Head(const transform::Rigid3d& pose, int num, bool finished) { return Str(pose) + " " + std::to_string(num) + " " + std::to_string(finished) + " "; }
// Values 1..32767 stand for .1 to .9
long Scaled(int v) { return v == 0 ? -1 : std::lround((.1 + (v - 1) * (.8 / 32766.)) * 1e5); }
std::string Content(const mapping::HybridGrid& g) {
  std::map<std::array<int, 3>, long> cells;
  for (mapping::HybridGrid::Iterator it(g); !it.Done(); it.Next()) {
    const auto i = it.GetCellIndex();
    cells[{i.x(), i.y(), i.z()}] = std::lround(g.GetProbability(i) * 1e5);
  }
  std::string s = Num(g.resolution());
  for (const auto& c : cells) s += " " + std::to_string(c.first[0]) + "," + std::to_string(c.first[1]) + "," + std::to_string(c.first[2]) + ":" + std::to_string(c.second);
  return s;
}
std::string Content(const mapping::proto::HybridGrid& g) {
  std::map<std::array<int, 3>, long> cells;
  for (int i = 0; i < g.values_size(); ++i) cells[{g.x_indices(i), g.y_indices(i), g.z_indices(i)}] = Scaled(g.values(i));
  std::string s = Num(g.resolution());
  for (const auto& c : cells) s += " " + std::to_string(c.first[0]) + "," + std::to_string(c.first[1]) + "," + std::to_string(c.first[2]) + ":" + std::to_string(c.second);
  return s;
}
std::string Limits(double resolution, double x, double y, int nx, int ny) {
  return Num(resolution) + " " + Num(x) + " " + Num(y) + " " + std::to_string(nx) + " " + std::to_string(ny);
}
std::string Content(const mapping::Submap& m) {
  std::string s = Head(m.local_pose(), m.num_range_data(), m.insertion_finished());
  if (const auto* d = dynamic_cast<const mapping::Submap2D*>(&m)) {
    const auto& l = d->grid()->limits();
    s += Limits(l.resolution(), l.max().x(), l.max().y(), l.cell_limits().num_x_cells, l.cell_limits().num_y_cells);
    for (int y = 0; y < l.cell_limits().num_y_cells; ++y)
      for (int x = 0; x < l.cell_limits().num_x_cells; ++x)
        s += " " + (d->grid()->IsKnown({x, y}) ? std::to_string(std::lround(d->grid()->GetCorrespondenceCost({x, y}) * 1e5)) : std::string("-1"));
  } else if (const auto* d = dynamic_cast<const mapping::Submap3D*>(&m)) {
    s += Content(d->high_resolution_hybrid_grid()) + " | " + Content(d->low_resolution_hybrid_grid()) + " | " +
         Nums(d->rotational_scan_matcher_histogram(), d->rotational_scan_matcher_histogram().size());
  }
  return s;
}
std::string Content(const mapping::proto::Submap& m) {
  if (m.has_submap_2d()) {
    const auto& d = m.submap_2d();
    const auto& l = d.grid().limits();
    std::string s = Head(Rigid(d.local_pose()), d.num_range_data(), d.finished());
    s += Limits(l.resolution(), l.max().x(), l.max().y(), l.cell_limits().num_x_cells(), l.cell_limits().num_y_cells());
    for (int v : d.grid().cells()) s += " " + std::to_string(Scaled(v));
    return s;
  }
  const auto& d = m.submap_3d();
  return Head(Rigid(d.local_pose()), d.num_range_data(), d.finished()) + Content(d.high_resolution_hybrid_grid()) + " | " +
         Content(d.low_resolution_hybrid_grid()) + " | " + Nums(d.rotational_scan_matcher_histogram(), d.rotational_scan_matcher_histogram_size());
}
bool Marker(const std::string& id) { return id[0] == '~'; }
std::string Observation(const transform::Rigid3d& p, double t, double r) { return Str(p) + " " + Num(t) + " " + Num(r); }
std::string TrajectoryData(int dim, double gravity, const std::array<double, 4>& c, const std::string& origin) {
  return dim == 2 ? origin : Num(gravity) + " " + Num(c[0]) + " " + Num(c[1]) + " " + Num(c[2]) + " " + Num(c[3]) + " " + origin;
}
// The content of a map as seen through the interface of the map builder.
json Dump(World& w, int dim) {
  auto* g = w.graph();
  json st = json::array(), opts = json::array(), nodes = json::array(), subs = json::array(), cons = json::array(), lmp = json::array(),
       lmo = json::array(), imu = json::array(), odo = json::array(), ff = json::array(), td = json::array();
  for (const auto& s : g->GetTrajectoryStates()) st.push_back({{"tr", s.first}, {"s", State(s.second)}});
  for (const auto& o : w->GetAllTrajectoryBuilderOptions()) opts.push_back(Hash(o));
  for (const auto& n : g->GetTrajectoryNodes())
    nodes.push_back({{"tr", n.id.trajectory_id}, {"n", n.id.node_index}, {"t", Ticks(n.data.constant_data->time)}, {"pose", Str(n.data.global_pose)},
                     {"v", Hash(Content(*n.data.constant_data))}});
  for (const auto& s : g->GetAllSubmapData())
    subs.push_back({{"tr", s.id.trajectory_id}, {"n", s.id.submap_index}, {"pose", Str(s.data.pose)}, {"fin", s.data.submap->insertion_finished()},
                    {"v", Hash(Content(*s.data.submap))}});
  for (const auto& c : g->constraints())
    cons.push_back({{"st", c.submap_id.trajectory_id}, {"sn", c.submap_id.submap_index}, {"nt", c.node_id.trajectory_id}, {"nn", c.node_id.node_index},
                    {"inter", c.tag == mapping::PoseGraphInterface::Constraint::INTER_SUBMAP}, {"v", Observation(c.pose.zbar_ij, c.pose.translation_weight, c.pose.rotation_weight)}});
  for (const auto& l : g->GetLandmarkPoses()) if (!Marker(l.first)) lmp.push_back({{"id", l.first}, {"pose", Str(l.second)}});
  for (const auto& l : g->GetLandmarkNodes())
    for (const auto& o : l.second.landmark_observations)
      lmo.push_back({{"id", l.first}, {"tr", o.trajectory_id}, {"t", Ticks(o.time)}, {"v", Observation(o.landmark_to_tracking_transform, o.translation_weight, o.rotation_weight)}});
  const auto i = g->GetImuData();
  for (int t : i.trajectory_ids()) for (const auto& d : i.trajectory(t)) imu.push_back({{"tr", t}, {"t", Ticks(d.time)}, {"v", Str(d.linear_acceleration) + " " + Str(d.angular_velocity)}});
  const auto o = g->GetOdometryData();
  for (int t : o.trajectory_ids()) for (const auto& d : o.trajectory(t)) odo.push_back({{"tr", t}, {"t", Ticks(d.time)}, {"v", Str(d.pose)}});
  const auto f = g->GetFixedFramePoseData();
  for (int t : f.trajectory_ids()) for (const auto& d : f.trajectory(t)) ff.push_back({{"tr", t}, {"t", Ticks(d.time)}, {"v", d.pose ? Str(*d.pose) : "-"}});
  for (const auto& d : g->GetTrajectoryData())
    td.push_back({{"tr", d.first}, {"v", TrajectoryData(dim, d.second.gravity_constant, d.second.imu_calibration, d.second.fixed_frame_origin_in_map ? Str(*d.second.fixed_frame_origin_in_map) : "-")}});
  return {{"st", st}, {"opts", opts}, {"nodes", nodes}, {"subs", subs}, {"cons", cons}, {"lmp", lmp}, {"lmo", lmo}, {"imu", imu}, {"odo", odo}, {"ff", ff}, {"td", td}};
}
// All work that was requested so far has been processed.
void Sync(World& w) {
  static int k = 0;
  const std::string id = "~" + std::to_string(k++);
  w.graph()->SetLandmarkPose(id, transform::Rigid3d::Identity(), true);
  while (w.graph()->GetLandmarkPoses().count(id) == 0) std::this_thread::sleep_for(std::chrono::microseconds(200));
}
using Chunks = std::vector<std::unique_ptr<google::protobuf::Message>>;
// The content of a file.
json FileDump(const Chunks& chunks, int dim) {
  json trajs = json::array(), nodes = json::array(), subs = json::array(), cons = json::array(), lmp = json::array(), lmo = json::array(),
       imu = json::array(), odo = json::array(), ff = json::array(), td = json::array();
  int headers = 0, graphs = 0, options = 0;
  std::map<std::pair<int, int>, std::pair<std::string, long>> node_poses;
  std::map<std::pair<int, int>, std::string> submap_poses;
  for (const auto& c : chunks) {
    if (dynamic_cast<const mapping::proto::SerializationHeader*>(c.get())) ++headers;
    const auto* d = dynamic_cast<const mapping::proto::SerializedData*>(c.get());
    if (!d) continue;
    if (d->has_all_trajectory_builder_options()) ++options;
    if (d->has_pose_graph()) {
      ++graphs;
      for (const auto& t : d->pose_graph().trajectory()) {
        trajs.push_back(t.trajectory_id());
        for (const auto& n : t.node()) node_poses[{t.trajectory_id(), n.node_index()}] = {Str(n.pose()), Ticks(common::FromUniversal(n.timestamp()))};
        for (const auto& s : t.submap()) submap_poses[{t.trajectory_id(), s.submap_index()}] = Str(s.pose());
      }
      for (const auto& c : d->pose_graph().constraint())
        cons.push_back({{"st", c.submap_id().trajectory_id()}, {"sn", c.submap_id().submap_index()}, {"nt", c.node_id().trajectory_id()}, {"nn", c.node_id().node_index()},
                        {"inter", c.tag() == mapping::proto::PoseGraph::Constraint::INTER_SUBMAP}, {"v", Observation(Rigid(c.relative_pose()), c.translation_weight(), c.rotation_weight())}});
      for (const auto& l : d->pose_graph().landmark_poses()) if (!Marker(l.landmark_id())) lmp.push_back({{"id", l.landmark_id()}, {"pose", Str(l.global_pose())}});
    } else if (d->has_node()) {
      const auto id = std::make_pair(d->node().node_id().trajectory_id(), d->node().node_id().node_index());
      const bool same = node_poses.count(id) && node_poses[id].second == Ticks(common::FromUniversal(d->node().node_data().timestamp()));
      nodes.push_back({{"tr", id.first}, {"n", id.second}, {"t", same ? node_poses[id].second : -1}, {"pose", same ? node_poses[id].first : "?"}, {"v", Hash(Content(d->node().node_data()))}});
      node_poses.erase(id);
    } else if (d->has_submap()) {
      mapping::proto::Submap m = d->submap();
      const auto id = std::make_pair(m.submap_id().trajectory_id(), m.submap_id().submap_index());
      m.clear_submap_id();
      subs.push_back({{"tr", id.first}, {"n", id.second}, {"pose", submap_poses.count(id) ? submap_poses[id] : "?"},
                      {"fin", m.has_submap_2d() ? m.submap_2d().finished() : m.submap_3d().finished()}, {"v", Hash(Content(m))}});
      submap_poses.erase(id);
    } else if (d->has_imu_data()) {
      imu.push_back({{"tr", d->imu_data().trajectory_id()}, {"t", Ticks(common::FromUniversal(d->imu_data().imu_data().timestamp()))}, {"v", Str(Vec(d->imu_data().imu_data().linear_acceleration())) + " " + Str(Vec(d->imu_data().imu_data().angular_velocity()))}});
    } else if (d->has_odometry_data()) {
      odo.push_back({{"tr", d->odometry_data().trajectory_id()}, {"t", Ticks(common::FromUniversal(d->odometry_data().odometry_data().timestamp()))}, {"v", Str(d->odometry_data().odometry_data().pose())}});
    } else if (d->has_fixed_frame_pose_data()) {
      const auto& x = d->fixed_frame_pose_data();
      ff.push_back({{"tr", x.trajectory_id()}, {"t", Ticks(common::FromUniversal(x.fixed_frame_pose_data().timestamp()))}, {"v", x.fixed_frame_pose_data().has_pose() ? Str(x.fixed_frame_pose_data().pose()) : "-"}});
    } else if (d->has_landmark_data()) {
      for (const auto& o : d->landmark_data().landmark_data().landmark_observations())
        lmo.push_back({{"id", o.id()}, {"tr", d->landmark_data().trajectory_id()}, {"t", Ticks(common::FromUniversal(d->landmark_data().landmark_data().timestamp()))},
                       {"v", Observation(Rigid(o.landmark_to_tracking_transform()), o.translation_weight(), o.rotation_weight())}});
    } else if (d->has_trajectory_data()) {
      const auto& x = d->trajectory_data();
      td.push_back({{"tr", x.trajectory_id()}, {"v", TrajectoryData(dim, x.gravity_constant(), {{x.imu_calibration().w(), x.imu_calibration().x(), x.imu_calibration().y(), x.imu_calibration().z()}},
                                                                   x.has_fixed_frame_origin_in_map() ? Str(x.fixed_frame_origin_in_map()) : "-")}});
    }
  }
  return {{"one", headers == 1 && graphs == 1 && options == 1 && node_poses.empty() && submap_poses.empty()}, {"trajs", trajs}, {"nodes", nodes}, {"subs", subs},
          {"cons", cons}, {"lmp", lmp}, {"lmo", lmo}, {"imu", imu}, {"odo", odo}, {"ff", ff}, {"td", td}};
}
// Gives everything in the file that is only carried along new values.
struct Tweaker {
  std::mt19937 rng;
  int dim;
  double U() { return std::uniform_int_distribution<int>(-900, 900)(rng) * .01; }
  void V(transform::proto::Vector3d* v) { v->set_x(U()), v->set_y(U()), v->set_z(U()); }
  void Q(transform::proto::Quaterniond* q, bool planar) {
    Eigen::Quaterniond r(planar ? U() : U() + .001, planar ? 0. : U(), planar ? 0. : U(), U() + .0005);
    r.normalize();
    if (r.w() < 0) r.coeffs() *= -1;
    q->set_w(r.w()), q->set_x(r.x()), q->set_y(r.y()), q->set_z(r.z());
  }
  void P(transform::proto::Rigid3d* p, bool planar = false) {
    V(p->mutable_translation());
    if (planar) p->mutable_translation()->set_z(0.);
    Q(p->mutable_rotation(), planar);
  }
  void Apply(mapping::proto::SerializedData* d) {
    if (d->has_pose_graph()) {
      auto* g = d->mutable_pose_graph();
      for (auto& t : *g->mutable_trajectory()) {
        for (auto& n : *t.mutable_node()) P(n.mutable_pose());
        for (auto& s : *t.mutable_submap()) P(s.mutable_pose(), dim == 2);
      }
      for (auto& c : *g->mutable_constraint()) P(c.mutable_relative_pose()), c.set_translation_weight(U() + 10), c.set_rotation_weight(U() + 20);
      for (auto& l : *g->mutable_landmark_poses()) P(l.mutable_global_pose());
    } else if (d->has_node()) {
      auto* n = d->mutable_node()->mutable_node_data();
      Q(n->mutable_gravity_alignment(), false);
      P(n->mutable_local_pose());
      for (auto* c : {n->mutable_filtered_gravity_aligned_point_cloud(), n->mutable_high_resolution_point_cloud(), n->mutable_low_resolution_point_cloud()}) {
        sensor::PointCloud cloud;
        for (int k = rng() % 5; k > 0; --k) cloud.push_back({Eigen::Vector3f(U(), U(), U())});
        *c = sensor::CompressedPointCloud(cloud).ToProto();
      }
      for (auto& h : *n->mutable_rotational_scan_matcher_histogram()) h = U() + 10;
    } else if (d->has_submap()) {
      if (d->submap().has_submap_2d()) {
        P(d->mutable_submap()->mutable_submap_2d()->mutable_local_pose());
        d->mutable_submap()->mutable_submap_2d()->set_num_range_data(rng() % 90 + 1);
      } else {
        auto* s = d->mutable_submap()->mutable_submap_3d();
        P(s->mutable_local_pose());
        s->set_num_range_data(rng() % 90 + 1);
        for (auto& h : *s->mutable_rotational_scan_matcher_histogram()) h = U() + 10;
      }
    } else if (d->has_imu_data()) {
      V(d->mutable_imu_data()->mutable_imu_data()->mutable_linear_acceleration());
      V(d->mutable_imu_data()->mutable_imu_data()->mutable_angular_velocity());
    } else if (d->has_odometry_data()) {
      P(d->mutable_odometry_data()->mutable_odometry_data()->mutable_pose());
    } else if (d->has_fixed_frame_pose_data()) {
      if (rng() % 3) P(d->mutable_fixed_frame_pose_data()->mutable_fixed_frame_pose_data()->mutable_pose());
      else d->mutable_fixed_frame_pose_data()->mutable_fixed_frame_pose_data()->clear_pose();
    } else if (d->has_landmark_data()) {
      for (auto& o : *d->mutable_landmark_data()->mutable_landmark_data()->mutable_landmark_observations())
        P(o.mutable_landmark_to_tracking_transform()), o.set_translation_weight(U() + 10), o.set_rotation_weight(U() + 20);
    } else if (d->has_trajectory_data()) {
      auto* t = d->mutable_trajectory_data();
      t->set_gravity_constant(9. + std::fabs(U()));
      Q(t->mutable_imu_calibration(), false);
      if (rng() % 2) P(t->mutable_fixed_frame_origin_in_map());
      else t->clear_fixed_frame_origin_in_map();
    }
  }
};
void SaveLoad(const json& sc) {
  const int dim = sc["c"]["dim"];
  std::map<int, std::unique_ptr<World>> worlds;
  std::map<int, Chunks> slots;
  std::map<int, std::string> files;
  for (const json& o : sc["ops"]) {
    const std::string op = o["op"];
    json ev = o;
    ev.erase("op");
    ev["e"] = op;
    vh::Emit(ev);
    if (op == "New") {
      worlds[o["w"]] = absl::make_unique<World>(sc["c"]);
      continue;
    }
    World& w = *worlds.at(o["w"]);
    if (op == "Live") {
      for (const json& x : o["ops"]) {
        const std::string xo = x["op"];
        if (xo == "Traj") w.AddTrajectory(x["t"]);
        else if (xo == "Data") w.Data(x["tr"], x["s"], x["t"], x.value("p", json()));
        else if (xo == "Finish") w->FinishTrajectory(x["tr"]);
        else if (xo == "Freeze") w.graph()->FreezeTrajectory(x["tr"]);
        else if (xo == "Delete") w.graph()->DeleteTrajectory(x["tr"]);
      }
      w->pose_graph()->RunFinalOptimization();
    } else if (op == "Remove") {  // a finished or frozen trajectory
      w.graph()->DeleteTrajectory(o["tr"]);
      w->pose_graph()->RunFinalOptimization();
    } else if (op == "Dump") {
      Sync(w);
      vh::Emit({{"e", "Map"}, {"m", Dump(w, dim)}});
    } else if (op == "Save") {
      Chunks chunks;
      if (o["file"].get<bool>()) {
        const std::string name = "map" + std::to_string(sc.value("id", 0)) + "_" + std::to_string(o["slot"].get<int>()) + ".pbstream";
        const bool ok = w->SerializeStateToFile(o["inc"], name);
        if (!ok) vh::Emit({{"e", "WriteFailed"}});
        io::ProtoStreamReader reader(name);
        auto h = absl::make_unique<mapping::proto::SerializationHeader>();
        if (reader.ReadProto(h.get())) chunks.push_back(std::move(h));
        for (;;) {
          auto d = absl::make_unique<mapping::proto::SerializedData>();
          if (!reader.ReadProto(d.get())) break;
          chunks.push_back(std::move(d));
        }
        files[o["slot"]] = name;
      } else {
        files.erase(o["slot"].get<int>());
        io::ForwardingProtoStreamWriter writer([&](const google::protobuf::Message* m) {
          if (!m) return true;
          chunks.emplace_back(m->New());
          chunks.back()->CopyFrom(*m);
          return true;
        });
        w->SerializeState(o["inc"], &writer);
      }
      slots[o["slot"]] = std::move(chunks);
      vh::Emit({{"e", "File"}, {"f", FileDump(slots[o["slot"]], dim)}});
    } else if (op == "Tweak") {
      Tweaker tweaker{std::mt19937(o["seed"].get<int>()), dim};
      for (auto& c : slots.at(o["slot"]))
        if (auto* d = dynamic_cast<mapping::proto::SerializedData*>(c.get())) tweaker.Apply(d);
      files.erase(o["slot"].get<int>());
      vh::Emit({{"e", "Tweaked"}, {"f", FileDump(slots[o["slot"]], dim)}});
    } else if (op == "Load") {
      std::map<int, int> remap;
      if (files.count(o["slot"])) {
        remap = w->LoadStateFromFile(files.at(o["slot"]), o["frozen"]);
      } else {
        std::queue<std::unique_ptr<google::protobuf::Message>> q;
        for (const auto& m : slots.at(o["slot"])) {
          q.emplace(m->New());
          q.back()->CopyFrom(*m);
        }
        io::InMemoryProtoStreamReader reader(std::move(q));
        remap = w->LoadState(&reader, o["frozen"]);
      }
      json r = json::array();
      for (const auto& x : remap) r.push_back({x.first, x.second});
      vh::Emit({{"e", "Remap"}, {"r", r}, {"num", w->num_trajectory_builders()}});
    }
  }
  for (const auto& f : files) std::remove(f.second.c_str());
  vh::Finish({{"e", "End"}});
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](const json& sc) {
    if (sc.contains("strict")) Route(sc);
    else SaveLoad(sc);
  });
}
