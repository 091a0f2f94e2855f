// Drives OverlappingSubmapsTrimmer2D against a graph held by the driver.
#include <map>

#include "absl/memory/memory.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h"
#include "vh.h"

using namespace cartographer;
using namespace cartographer::mapping;
using vh::json;
namespace {
struct Graph : public Trimmable {
  MapById<SubmapId, PoseGraphInterface::SubmapData> submaps;
  MapById<NodeId, TrajectoryNode> nodes;
  std::vector<PoseGraphInterface::Constraint> constraints;
  json trimmed = json::array();
  int num_submaps(int t) const override { return submaps.SizeOfTrajectoryOrZero(t); }
  std::vector<SubmapId> GetSubmapIds(int t) const override {
    std::vector<SubmapId> r;
    for (const auto& s : submaps.trajectory(t)) r.push_back(s.id);
    return r;
  }
  MapById<SubmapId, PoseGraphInterface::SubmapData> GetOptimizedSubmapData() const override { return submaps; }
  const MapById<NodeId, TrajectoryNode>& GetTrajectoryNodes() const override { return nodes; }
  const std::vector<PoseGraphInterface::Constraint>& GetConstraints() const override { return constraints; }
  void TrimSubmap(const SubmapId& id) override {
    trimmed.push_back({id.trajectory_id, id.submap_index});
    submaps.Trim(id);
    std::vector<PoseGraphInterface::Constraint> keep;
    for (const auto& c : constraints)
      if (!(c.submap_id == id)) keep.push_back(c);
    constraints = keep;
  }
  bool IsFinished(int) const override { return false; }
  void SetTrajectoryState(int, PoseGraphInterface::TrajectoryState) override {}
};

void Run(const json& sc) {
  Graph g;
  ValueConversionTables tables;
  const double res = sc["res4"].get<int>() / 4.;
  OverlappingSubmapsTrimmer2D trimmer(sc["fresh"].get<int>(), sc["min_cells"].get<int>() * res * res, sc["added"].get<int>());
  for (const json& st : sc["steps"]) {
    for (const json& s : st["submaps"]) {
      // Cells are given in units of the resolution, x and y increasing.
      int x0 = 1 << 20, x1 = -x0, y0 = x0, y1 = -x0;
      for (int b : s["blocks"]) {
        const json& r = sc["blocks"][b];
        x0 = std::min(x0, r[0].get<int>());
        y0 = std::min(y0, r[1].get<int>());
        x1 = std::max(x1, r[0].get<int>() + r[2].get<int>());
        y1 = std::max(y1, r[1].get<int>() + r[3].get<int>());
      }
      if (s["blocks"].empty()) x0 = y0 = 0, x1 = y1 = 4;
      const int dx = s["dx"], dy = s["dy"];  // global = local + (dx, dy)
      const int mx = x1 - dx + s["pad"].get<int>(), my = y1 - dy + s["pad"].get<int>();
      auto grid = absl::make_unique<ProbabilityGrid>(
          MapLimits(res, Eigen::Vector2d(mx * res, my * res),
                    CellLimits(my - (y0 - dy) + 2, mx - (x0 - dx) + 2)), &tables);
      for (int b : s["blocks"]) {
        const json& r = sc["blocks"][b];
        for (int i = 0; i < r[2].get<int>(); ++i)
          for (int j = 0; j < r[3].get<int>(); ++j) {
            const Eigen::Vector2f c((r[0].get<int>() - dx + i + .5) * res, (r[1].get<int>() - dy + j + .5) * res);
            const Eigen::Array2i cell = grid->limits().GetCellIndex(c);
            if (!grid->IsKnown(cell)) grid->SetProbability(cell, (i + j) % 3 ? 0.9f : 0.2f);
          }
      }
      const Eigen::Vector2f origin(s["ox"].get<int>() * res, s["oy"].get<int>() * res);
      auto submap = std::make_shared<Submap2D>(origin, std::move(grid), &tables);
      if (s["fin"].get<bool>()) submap->Finish();
      g.submaps.Insert(SubmapId{s["t"], s["i"]},
                       {submap, transform::Rigid3d::Translation(Eigen::Vector3d(
                                    origin.x() + dx * res, origin.y() + dy * res, 0.))});
    }
    for (const json& n : st["nodes"]) {
      auto d = std::make_shared<TrajectoryNode::Data>();
      d->time = common::FromUniversal(n[2]);
      g.nodes.Insert(NodeId{n[0], n[1]}, TrajectoryNode{d, transform::Rigid3d::Identity()});
    }
    for (const json& c : st["cons"])
      g.constraints.push_back({SubmapId{c[0], c[1]}, NodeId{c[2], c[3]}, {},
                               c[4] == 0 ? PoseGraphInterface::Constraint::INTRA_SUBMAP
                                         : PoseGraphInterface::Constraint::INTER_SUBMAP});
    vh::Emit({{"e", "Step"}, {"submaps", st["submaps"]}, {"nodes", st["nodes"]}, {"cons", st["cons"]}});
    g.trimmed = json::array();
    trimmer.Trim(&g);
    vh::Emit({{"e", "Trimmed"}, {"ids", g.trimmed}});
  }
  vh::Emit({{"e", "End"}});
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
