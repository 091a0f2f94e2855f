// Driver for sensor::MapByTime and transform::TransformInterpolationBuffer (S05).
#include <map>
#include "absl/memory/memory.h"
#include "cartographer/mapping/proto/trajectory.pb.h"
#include "cartographer/sensor/map_by_time.h"
#include "cartographer/transform/transform.h"
#include "cartographer/transform/transform_interpolation_buffer.h"
#include "vh.h"
namespace carto = cartographer;
using vh::json;
using carto::common::FromUniversal;
using carto::common::ToUniversal;
namespace {
struct D { carto::common::Time time; int n; };
struct Node { carto::common::Time time; };
constexpr int kTick = 1000;
carto::common::Time At(int t) { return FromUniversal(1000000 + int64_t(t) * kTick); }
int Tick(carto::common::Time t) { return (ToUniversal(t) - 1000000) / kTick; }

void RunMap(const json& sc) {
  carto::sensor::MapByTime<D> m;
  carto::mapping::MapById<carto::mapping::NodeId, Node> nodes;
  std::map<std::pair<int, int>, carto::mapping::NodeId> ids;
  for (const json& op : sc["ops"]) {
    const std::string o = op["o"];
    const int t = op["t"], time = op["time"];
    vh::Emit({{"e", o}, {"t", t}, {"time", time}, {"n", op["n"]}});
    if (o == "data") m.Append(t, D{At(time), op["n"]});
    else if (o == "node") ids.emplace(std::make_pair(t, time), nodes.Append(t, Node{At(time)}));
    else {
      m.Trim(nodes, ids.at({t, time}));
      nodes.Trim(ids.at({t, time}));
    }
    json has = json::array(), of = has, lb = has, trajs = has;
    for (int tr = 0; tr < 3; ++tr) {
      has.push_back(m.HasTrajectory(tr));
      json x = json::array(), y = x;
      if (m.HasTrajectory(tr)) {
        for (const D& d : m.trajectory(tr)) x.push_back({Tick(d.time), d.n});
        for (int q = -1; q < 14; ++q) {
          auto it = m.lower_bound(tr, At(q));
          y.push_back({q, it == m.EndOfTrajectory(tr) ? 0 : it->n});
        }
      }
      of.push_back(x);
      lb.push_back(y);
    }
    for (int tr : m.trajectory_ids()) trajs.push_back(tr);
    vh::Emit({{"e", "obs"}, {"has", has}, {"of", of}, {"lb", lb}, {"trajs", trajs}});
  }
  vh::Emit({{"e", "End"}});
}

carto::transform::Rigid3d Pose(const json& p) {
  return carto::transform::Rigid3d(
      Eigen::Vector3d(p[0].get<int>(), p[1].get<int>(), p[2].get<int>()),
      carto::transform::RollPitchYaw(0, 0, p[3].get<int>() * M_PI / 180.));
}
json Rec(const carto::transform::Rigid3d& r) {
  return {(int)std::lround(r.translation().x() * 1000), (int)std::lround(r.translation().y() * 1000),
          (int)std::lround(r.translation().z() * 1000),
          (int)std::lround(carto::transform::GetYaw(r) * 180. / M_PI * 1000)};
}
void RunBuffer(const json& sc) {
  std::unique_ptr<carto::transform::TransformInterpolationBuffer> b;
  if (sc.value("proto", false)) {
    carto::mapping::proto::Trajectory tr;
    for (const json& op : sc["init"]) {
      auto* n = tr.add_node();
      n->set_timestamp(ToUniversal(At(op["time"])));
      *n->mutable_pose() = carto::transform::ToProto(Pose(op["pose"]));
      vh::Emit({{"e", "push"}, {"time", op["time"]}, {"pose", op["pose"]}});
    }
    b = absl::make_unique<carto::transform::TransformInterpolationBuffer>(tr);
    vh::Emit({{"e", "ret"}});
  } else {
    b = absl::make_unique<carto::transform::TransformInterpolationBuffer>();
  }
  for (const json& op : sc["ops"]) {
    const std::string o = op["o"];
    json ev = op;
    ev.erase("o");
    ev["e"] = o;
    vh::Emit(ev);
    json ret = {{"e", "ret"}};
    if (o == "push") b->Push(At(op["time"]), Pose(op["pose"]));
    else if (o == "limit") b->SetSizeLimit(op["n"].get<int>());
    else if (o == "clear") b->Clear();
    else ret["r"] = Rec(b->Lookup(At(op["time"])));
    vh::Emit(ret);
    json has = json::array(), at = has;
    for (int q = -1; q < 40; ++q) {
      const bool h = b->Has(At(q));
      has.push_back({q, h});
      if (h) at.push_back({{"time", q}, {"r", Rec(b->Lookup(At(q)))}});
    }
    vh::Emit({{"e", "obs"}, {"size", b->size()}, {"empty", b->empty()},
              {"limit", b->size_limit() == carto::transform::kUnlimitedBufferSize ? -1 : (int)b->size_limit()},
              {"first", b->empty() ? 0 : Tick(b->earliest_time())}, {"last", b->empty() ? 0 : Tick(b->latest_time())},
              {"has", has}, {"at", at}});
  }
  vh::Emit({{"e", "End"}});
}
void Run(const json& sc) { sc["what"] == "map" ? RunMap(sc) : RunBuffer(sc); }
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
