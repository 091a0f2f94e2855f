// Driver for mapping::MapById (M01).
#include "cartographer/mapping/id.h"
#include "vh.h"
namespace carto = cartographer;
using vh::json;
namespace {
struct FieldTime { int n; carto::common::Time time; };
struct MethodTime { int n; carto::common::Time t_; carto::common::Time time() const { return t_; } };
int N(const FieldTime& d) { return d.n; }
int N(const MethodTime& d) { return d.n; }
int Idx(const carto::mapping::NodeId& id) { return id.node_index; }
int Idx(const carto::mapping::SubmapId& id) { return id.submap_index; }

template <class Id, class Data>
void RunT(const json& sc) {
  carto::mapping::MapById<Id, Data> m;
  auto rec = [](const auto& r) {
    return json::array({r.id.trajectory_id, Idx(r.id), N(r.data),
                        (int)carto::common::ToUniversal(carto::mapping::internal::GetTime(r.data))});
  };
  auto at = [&](auto it, auto end) { return it == end ? json::array() : rec(*it); };
  int step = 0;
  for (const json& op : sc["ops"]) {
    const std::string o = op["o"];
    const int t = op["t"], i = op["i"];
    Data d{op["n"].get<int>(), carto::common::FromUniversal(op["time"].get<int>())};
    vh::Emit({{"e", o}, {"t", t}, {"i", i}, {"n", op["n"]}, {"time", op["time"]}});
    json ret = {{"e", "ret"}};
    if (o == "append") {
      const Id id = m.Append(t, d);
      ret["t"] = id.trajectory_id;
      ret["i"] = Idx(id);
    } else if (o == "insert") {
      m.Insert(Id{t, i}, d);
    } else if (o == "trim") {
      m.Trim(Id{t, i});
    } else {
      m.at(Id{t, i}) = d;
    }
    vh::Emit(ret);
    if (sc["obs"] == "end" && ++step < (int)sc["ops"].size()) continue;
    json all = json::array(), rev = all, of = all, rof = all, sz = all, find = all, lb = all, trajs = all;
    for (auto r : m) all.push_back(rec(r));
    for (auto it = m.end(); it != m.begin();) rev.push_back(rec(*--it));
    for (int tr : m.trajectory_ids()) trajs.push_back(tr);
    for (int tr = 0; tr < 5; ++tr) {
      json x = json::array(), y = x;
      for (auto r : m.trajectory(tr)) x.push_back(rec(r));
      for (auto it = m.EndOfTrajectory(tr); it != m.BeginOfTrajectory(tr);) y.push_back(rec(*--it));
      of.push_back(x);
      rof.push_back(y);
      sz.push_back(m.SizeOfTrajectoryOrZero(tr));
      for (int time = -1; time < 9; ++time)
        lb.push_back({{"t", tr}, {"time", time},
                      {"r", at(m.lower_bound(tr, carto::common::FromUniversal(time)), m.end())}});
      for (int ix = 0; ix < 9; ++ix) {
        const Id id{tr, ix};
        const auto& cm = m;
        find.push_back({{"id", {tr, ix}}, {"c", m.Contains(id)}, {"f", at(m.find(id), m.end())},
                        {"at", m.Contains(id) ? json::array({tr, ix, N(cm.at(id)), (int)carto::common::ToUniversal(
                                   carto::mapping::internal::GetTime(m.at(id)))}) : json::array()}});
      }
    }
    vh::Emit({{"e", "obs"}, {"all", all}, {"rev", rev}, {"of", of}, {"rof", rof}, {"sz", sz}, {"find", find},
              {"lb", lb}, {"trajs", trajs}, {"size", m.size()}, {"empty", m.empty()}});
  }
  vh::Emit({{"e", "End"}});
}
void Run(const json& sc) {
  if (sc["type"] == "node") RunT<carto::mapping::NodeId, FieldTime>(sc);
  else RunT<carto::mapping::SubmapId, MethodTime>(sc);
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
