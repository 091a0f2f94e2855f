// Driver for ActiveSubmaps2D / 3D (M02). Range data k leaves a mark at a place
// of its own, which tells which submaps it is in.
#include <map>
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/sensor/range_data.h"
#include "pose_graph_options.h"
#include "vh.h"
using namespace cartographer;
using namespace cartographer::mapping;
using vh::json;
namespace {
std::string Options2D(const json& sc) {
  const bool tsdf = sc["grid"] == "tsdf";
  return "return { num_range_data = " + std::to_string(sc["n"].get<int>()) + ", grid_options_2d = { grid_type = \"" +
         (tsdf ? "TSDF" : "PROBABILITY_GRID") + "\", resolution = 0.125 }, range_data_inserter = { range_data_inserter_type = \"" +
         (tsdf ? "TSDF_INSERTER_2D" : "PROBABILITY_GRID_INSERTER_2D") + R"(",
      probability_grid_range_data_inserter = { insert_free_space = false, hit_probability = 0.55, miss_probability = 0.49 },
      tsdf_range_data_inserter = { truncation_distance = 0.2, maximum_weight = 10., update_free_space = false,
        normal_estimation_options = { num_normal_samples = 4, sample_radius = 0.5 },
        project_sdf_distance_to_scan_normal = false, update_weight_range_exponent = 0,
        update_weight_angle_scan_normal_to_ray_kernel_bandwidth = 0,
        update_weight_distance_cell_to_hit_kernel_bandwidth = 0 } } })";
}
std::string Options3D(const json& sc) {
  return R"(return { high_resolution = 0.125, high_resolution_max_range = 8., low_resolution = 0.5,
    num_range_data = )" + std::to_string(sc["n"].get<int>()) + R"(,
    range_data_inserter = { hit_probability = 0.55, miss_probability = 0.49, num_free_space_voxels = 0,
      intensity_threshold = 100. } })";
}
// Marks: one direction per range data, spread over a circle of radius 4 m in
// 2D; in 3D along z with an own place each.
Eigen::Vector3f Mark2(int k) { return Eigen::Vector3f(0.75f * (k % 12) - 3.9375f, 0.75f * (k / 12) + 2.0625f, 0.f); }

void Run2(const json& sc) {
  auto d = pgopt::Dict(Options2D(sc));
  ActiveSubmaps2D active(CreateSubmapsOptions2D(d.get()));
  std::vector<std::shared_ptr<const Submap2D>> seen;
  const auto index = [&](const std::shared_ptr<const Submap2D>& s) {
    for (size_t i = 0; i < seen.size(); ++i) if (seen[i] == s) return (int)i + 1;
    seen.push_back(s);
    return (int)seen.size();
  };
  int k = 0;
  for (const json& op : sc["ops"]) {
    ++k;
    const Eigen::Vector3f origin(op["o"][0].get<int>() * 0.125f, op["o"][1].get<int>() * 0.125f, 0.f);
    vh::Emit({{"e", "Ins"}, {"k", k}, {"org", op["o"]}, {"far", false}, {"bin", 0}});
    sensor::RangeData r{origin, {}, {}};
    r.returns.push_back({Mark2(k)});
    json ids = json::array(), now = json::array(), all = json::array();
    for (const auto& s : active.InsertRangeData(r)) ids.push_back(index(s));
    for (const auto& s : active.submaps()) now.push_back(index(s));
    for (const auto& s : seen) {
      json marks = json::array();
      for (int j = 1; j <= k; ++j) {
        const Eigen::Array2i c = s->grid()->limits().GetCellIndex(Mark2(j).head<2>());
        if (s->grid()->limits().Contains(c) && s->grid()->IsKnown(c)) marks.push_back(j);
      }
      const auto t = s->local_pose().translation();
      all.push_back({{"n", s->num_range_data()}, {"fin", s->insertion_finished()}, {"marks", marks},
                     {"org", {std::lround(t.x() * 8), std::lround(t.y() * 8)}}});
    }
    vh::Emit({{"e", "Res"}, {"ids", ids}, {"now", now}, {"all", all}});
  }
}
void Run3(const json& sc) {
  auto d = pgopt::Dict(Options3D(sc));
  ActiveSubmaps3D active(CreateSubmapsOptions3D(d.get()));
  std::vector<std::shared_ptr<const Submap3D>> seen;
  const auto index = [&](const std::shared_ptr<const Submap3D>& s) {
    for (size_t i = 0; i < seen.size(); ++i) if (seen[i] == s) return (int)i + 1;
    seen.push_back(s);
    return (int)seen.size();
  };
  std::vector<Eigen::Vector3f> marks_at;
  int k = 0;
  for (const json& op : sc["ops"]) {
    ++k;
    const Eigen::Vector3f origin(op["o"][0].get<int>() * 0.125f, op["o"][1].get<int>() * 0.125f, 0.f);
    const bool far = op["far"];
    const int bin = op["bin"];
    vh::Emit({{"e", "Ins"}, {"k", k}, {"org", op["o"]}, {"far", far}, {"bin", bin}});
    Eigen::Vector3f m(0.5f * (k % 8), 0.5f * (k / 8), far ? 12.f : 1.f);
    marks_at.push_back(m);
    sensor::RangeData r{origin, {}, {}};
    r.returns.push_back({m});
    Eigen::VectorXf h = Eigen::VectorXf::Zero(4);
    h(bin) = 1.f;
    json ids = json::array(), now = json::array(), all = json::array();
    for (const auto& s : active.InsertData(r, Eigen::Quaterniond::Identity(), h)) ids.push_back(index(s));
    for (const auto& s : active.submaps()) now.push_back(index(s));
    for (const auto& s : seen) {
      json marks = json::array(), low = json::array(), bins = json::array();
      for (int j = 1; j <= k; ++j) {
        const Eigen::Vector3f p = s->local_pose().inverse().cast<float>() * marks_at[j - 1];
        const auto& hi = s->high_resolution_hybrid_grid();
        const auto& lo = s->low_resolution_hybrid_grid();
        if (hi.IsKnown(hi.GetCellIndex(p))) marks.push_back(j);
        if (lo.IsKnown(lo.GetCellIndex(p))) low.push_back(j);
      }
      const auto t = s->local_pose().translation();
      for (int b = 0; b < 4; ++b) bins.push_back(std::lround(s->rotational_scan_matcher_histogram()(b)));
      all.push_back({{"n", s->num_range_data()}, {"fin", s->insertion_finished()}, {"marks", marks}, {"low", low}, {"bins", bins},
                     {"org", {std::lround(t.x() * 8), std::lround(t.y() * 8)}}});
    }
    vh::Emit({{"e", "Res"}, {"ids", ids}, {"now", now}, {"all", all}});
  }
}
void Handle(const json& sc) {
  if (sc["dim"] == 2) Run2(sc);
  else Run3(sc);
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Handle); }
