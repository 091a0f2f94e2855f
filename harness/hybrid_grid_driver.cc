// Driver for hybrid grids and the 3D range data inserter (M04).
#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/sensor/range_data.h"
#include "pose_graph_options.h"
#include "vh.h"
using namespace cartographer;
using namespace cartographer::mapping;
using vh::json;
namespace {
json Iterate(const HybridGrid& g) {
  json out = json::array();
  for (const auto it : g) out.push_back({it.first.x(), it.first.y(), it.first.z(), it.second});
  return out;
}
Eigen::Array3i Index(const json& a) { return Eigen::Array3i(a[0].get<int>(), a[1].get<int>(), a[2].get<int>()); }
void Handle(const json& sc) {
  const float res = sc["res"];
  auto grid = absl::make_unique<HybridGrid>(res);
  auto intensities = absl::make_unique<IntensityHybridGrid>(res);
  const auto at = [&](const json& p) {
    return Eigen::Vector3f(p[0].get<int>() / 16.f * res, p[1].get<int>() / 16.f * res, p[2].get<int>() / 16.f * res);
  };
  const double h = sc["hit"][0].get<double>() / (sc["hit"][0].get<double>() + sc["hit"][1].get<double>());
  const double m = sc["miss"][0].get<double>() / (sc["miss"][0].get<double>() + sc["miss"][1].get<double>());
  auto d = pgopt::Dict("return { num_free_space_voxels = " + std::to_string(sc["free"].get<int>()) +
                       ", intensity_threshold = " + std::to_string(sc["thr"].get<int>()) +
                       ", hit_probability = " + std::to_string(h) + ", miss_probability = " + std::to_string(m) + " }");
  RangeDataInserter3D inserter(CreateRangeDataInserterOptions3D(d.get()));
  for (const json& op : sc["ops"]) {
    const std::string o = op["o"];
    if (o == "set") {
      vh::Emit({{"e", "Set"}, {"at", op["at"]}, {"v", op["v"]}});
      grid->SetProbability(Index(op["at"]), 0.1f + 0.8f * (op["v"].get<int>() - 1) / 32766.f);
    } else if (o == "ins") {
      vh::Emit({{"e", "Ins"}, {"org", op["org"]}, {"ret", op["ret"]}, {"int", op["int"]}});
      std::vector<sensor::RangefinderPoint> pts;
      std::vector<float> in;
      for (const json& p : op["ret"]) pts.push_back({at(p)});
      for (const json& i : op["int"]) in.push_back(i.get<int>());
      sensor::RangeData r{at(op["org"]), sensor::PointCloud(pts, in), {}};
      inserter.Insert(r, grid.get(), op["noint"].get<bool>() ? nullptr : intensities.get());
      vh::Emit({{"e", "Cells"}, {"c", Iterate(*grid)}});
    } else if (o == "iter") {
      vh::Emit({{"e", "Same"}, {"c", Iterate(*grid)}});
    } else if (o == "proto") {
      const auto p = grid->ToProto();
      grid = absl::make_unique<HybridGrid>(p);
      vh::Emit({{"e", "Same"}, {"c", Iterate(*grid)}});
    } else if (o == "get") {
      json c = json::array();
      for (const json& a : op["c"]) {
        const Eigen::Array3i i = Index(a);
        c.push_back({a[0], a[1], a[2], grid->IsKnown(i) ? std::lround((grid->GetProbability(i) - 0.1) / 0.8 * 32766) + 1 : 0, grid->IsKnown(i)});
      }
      vh::Emit({{"e", "Get"}, {"c", c}});
    } else if (o == "geti") {
      json c = json::array();
      for (const json& a : op["c"]) c.push_back({a[0], a[1], a[2], std::lround(intensities->GetIntensity(Index(a)) * 1000)});
      vh::Emit({{"e", "GetI"}, {"c", c}});
    }
  }
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Handle); }
