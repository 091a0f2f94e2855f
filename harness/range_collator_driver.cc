// Driver for mapping::RangeDataCollator (S03). Times in 1/64 s.
#include "cartographer/mapping/internal/range_data_collator.h"
#include "vh.h"
namespace carto = cartographer;
using vh::json;
namespace {
constexpr int64_t kTick = 156250;  // 1/64 s, exact in float seconds
constexpr int64_t kBase = 600000000000000000ll;
void Handle(const json& sc) {
  std::vector<std::string> ids;
  for (int i = 0; i < sc["n"].get<int>(); ++i) ids.push_back("s" + std::to_string(i));
  carto::mapping::RangeDataCollator collator(ids);
  int next = 1;
  for (const json& op : sc["ops"]) {
    const int s = op["s"];
    carto::sensor::TimedPointCloudData d;
    d.time = carto::common::FromUniversal(kBase + op["time"].get<int>() * kTick);
    const int origin = next;
    d.origin = Eigen::Vector3f(origin, 2 * origin, -origin);
    json pts = json::array();
    for (const json& t : op["t"]) {
      pts.push_back({t, next});
      d.ranges.push_back({Eigen::Vector3f(next, next + 1, next + 2), t.get<int>() / 64.f});
      ++next;
    }
    json ints = json::array();
    for (int i = 0; i < op["ints"].get<int>() && i < (int)pts.size(); ++i) {
      ints.push_back(1000 + next * 10 + i);
      d.intensities.push_back(1000 + next * 10 + i);
    }
    ++next;
    if (s >= (int)ids.size()) {
      vh::Emit({{"e", "Bad"}});
    } else {
      vh::Emit({{"e", "Add"}, {"s", s}, {"time", op["time"]}, {"pts", pts}, {"ints", ints}, {"origin", origin}});
    }
    const auto r = collator.AddRangeData("s" + std::to_string(s), d);
    json out = json::array();
    for (const auto& p : r.ranges) {
      const auto& pos = p.point_time.position;
      const bool intact = pos.y() == pos.x() + 1 && pos.z() == pos.x() + 2;
      const float t = p.point_time.time * 64.f;
      int o = -1;
      if (p.origin_index < r.origins.size()) {
        const auto& v = r.origins[p.origin_index];
        if (v.y() == 2 * v.x() && v.z() == -v.x()) o = v.x();
      }
      out.push_back({t == std::floor(t) ? (int)t : -9999, intact ? (int)pos.x() : -1, (int)p.intensity, o});
    }
    vh::Emit({{"e", "Res"}, {"time", r.ranges.empty() ? 0 : (int)((carto::common::ToUniversal(r.time) - kBase) / kTick)}, {"pts", out}});
  }
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Handle); }
