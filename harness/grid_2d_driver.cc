// Driver for the 2D probability grid (M03). Positions come in 1/16 cells,
// measured from the corner of the initial grid in the direction of growing
// indices: [d0, d1] is the point (max.x - d1/16 res, max.y - d0/16 res).
#include "cartographer/common/port.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/sensor/range_data.h"
#include "cartographer/transform/transform.h"
#include "pose_graph_options.h"
#include "vh.h"
using namespace cartographer;
using namespace cartographer::mapping;
using vh::json;
namespace {
ValueConversionTables tables;
double res;
Eigen::Vector2d max0;
Eigen::Vector3f At(const json& d) {
  return Eigen::Vector3f(max0.x() - d[1].get<int>() / 16. * res, max0.y() - d[0].get<int>() / 16. * res, 0.f);
}
// All known cells, by world index, with stored values.
json Cells(const Grid2D& grid) {
  json out = json::array();
  const proto::Grid2D p = grid.ToProto();
  const int nx = p.limits().cell_limits().num_x_cells(), ny = p.limits().cell_limits().num_y_cells();
  const long sx = std::lround((p.limits().max().y() - max0.y()) / res), sy = std::lround((p.limits().max().x() - max0.x()) / res);
  for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) {
    const int v = p.cells(x + nx * y);
    if (v != 0) out.push_back({x - sx, y - sy, v});
  }
  return out;
}
// Same through the reading interface.
json Read(const Grid2D& grid) {
  json out = json::array();
  const MapLimits& lim = grid.limits();
  const long sx = std::lround((lim.max().y() - max0.y()) / res), sy = std::lround((lim.max().x() - max0.x()) / res);
  for (int y = -2; y < lim.cell_limits().num_y_cells + 2; ++y) for (int x = -2; x < lim.cell_limits().num_x_cells + 2; ++x) {
    const Eigen::Array2i c(x, y);
    if (!grid.IsKnown(c)) continue;
    out.push_back({x - sx, y - sy, std::lround((grid.GetCorrespondenceCost(c) - 0.1) / 0.8 * 32766) + 1});
  }
  return out;
}
json Probabilities(const ProbabilityGrid& grid) {
  json out = json::array();
  const MapLimits& lim = grid.limits();
  for (int y = 0; y < lim.cell_limits().num_y_cells; ++y) for (int x = 0; x < lim.cell_limits().num_x_cells; ++x) {
    const Eigen::Array2i c(x, y);
    if (!grid.IsKnown(c)) continue;
    const Eigen::Vector2f w = lim.GetCellCenter(c);
    out.push_back({(long)std::floor((max0.y() - w.y()) / res), (long)std::floor((max0.x() - w.x()) / res),
                   std::lround((0.9 - grid.GetProbability(c)) / 0.8 * 32766) + 1});
  }
  return out;
}
json Texture(const ProbabilityGrid& grid, const transform::Rigid3d& local_pose) {
  proto::SubmapQuery::Response::SubmapTexture t;
  grid.DrawToSubmapTexture(&t, local_pose);
  std::string cells;
  common::FastGunzipString(t.cells(), &cells);
  const Eigen::Vector3d corner = (local_pose * transform::ToRigid3(t.slice_pose())).translation();
  const long sx = std::lround((max0.y() - corner.y()) / res), sy = std::lround((max0.x() - corner.x()) / res);
  json out = json::array();
  for (int y = 0; y < t.height(); ++y) for (int x = 0; x < t.width(); ++x) {
    const int v = (unsigned char)cells.at(2 * (x + y * t.width())), a = (unsigned char)cells.at(2 * (x + y * t.width()) + 1);
    if (v || a) out.push_back({x + sx, y + sy, v, a});
  }
  return out;
}
void Handle(const json& sc) {
  res = sc["res"];
  const double off0 = sc["max"][0].get<int>() / 16. * res, off1 = sc["max"][1].get<int>() / 16. * res;
  max0 = Eigen::Vector2d(off0, off1);
  auto grid = absl::make_unique<ProbabilityGrid>(MapLimits(res, max0, CellLimits(sc["size"][0].get<int>(), sc["size"][1].get<int>())), &tables);
  const double h = sc["hit"][0].get<double>() / (sc["hit"][0].get<double>() + sc["hit"][1].get<double>());
  const double m = sc["miss"][0].get<double>() / (sc["miss"][0].get<double>() + sc["miss"][1].get<double>());
  auto d = pgopt::Dict("return { insert_free_space = " + std::string(sc["free"].get<bool>() ? "true" : "false") +
                       ", hit_probability = " + std::to_string(h) + ", miss_probability = " + std::to_string(m) + " }");
  ProbabilityGridRangeDataInserter2D inserter(CreateProbabilityGridRangeDataInserterOptions2D(d.get()));
  const transform::Rigid3d pose = transform::Rigid3d::Translation(Eigen::Vector3d(3 * res, -2 * res, 0.));
  for (const json& op : sc["ops"]) {
    const std::string o = op["o"];
    if (o == "ins") {
      vh::Emit({{"e", "Ins"}, {"org", op["org"]}, {"ret", op["ret"]}, {"mis", op["mis"]}});
      sensor::RangeData r{At(op["org"]), {}, {}};
      for (const json& p : op["ret"]) r.returns.push_back({At(p)});
      for (const json& p : op["mis"]) r.misses.push_back({At(p)});
      inserter.Insert(r, grid.get());
      vh::Emit({{"e", "Cells"}, {"c", Cells(*grid)}});
    } else if (o == "crop") {
      std::unique_ptr<Grid2D> c = grid->ComputeCroppedGrid();
      grid.reset(static_cast<ProbabilityGrid*>(c.release()));
      vh::Emit({{"e", "Same"}, {"c", Cells(*grid)}});
    } else if (o == "proto") {
      const proto::Grid2D p = grid->ToProto();
      grid = absl::make_unique<ProbabilityGrid>(p, &tables);
      vh::Emit({{"e", "Same"}, {"c", Cells(*grid)}});
    } else if (o == "read") {
      vh::Emit({{"e", "Same"}, {"c", Read(*grid)}});
      vh::Emit({{"e", "Same"}, {"c", Probabilities(*grid)}});
    } else if (o == "grow") {
      grid->GrowLimits(At(op["p"]).head<2>());
      vh::Emit({{"e", "Same"}, {"c", Cells(*grid)}});
    } else if (o == "tex") {
      vh::Emit({{"e", "Tex"}, {"c", Texture(*grid, pose)}});
    }
  }
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Handle); }
