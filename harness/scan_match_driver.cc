// Driver for the correlative scan matchers (M07).
#include <cmath>
#include <map>
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/precomputation_grid_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/real_time_correlative_scan_matcher_3d.h"
#include "cartographer/transform/transform.h"
#include "vh.h"
using namespace cartographer;
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
using vh::json;
namespace {
constexpr double kRes = 0.05, kRes3 = 0.1, kTrunc = 0.3, kDegree = M_PI / 180.;
bool g_clear = true;  // no rounding is too close to call
int Round(double v) {
  const double r = std::floor(v + 0.5);
  if (0.5 - std::fabs(v - r) < 2e-3) g_clear = false;
  return (int)r;
}
int Ceil(double v) {
  const double r = std::ceil(v);
  if (r - v < 1e-3 || v - (r - 1) < 1e-3) g_clear = false;
  return (int)r;
}
double Step(double margin, double res, double range) {
  range = std::max(range, 3. * res);
  return margin * std::acos(1. - res * res / (2. * range * range));
}
json Cell(const Eigen::Array3i& c) { return {c[0], c[1], c[2]}; }
// ---- 2D --------------------------------------------------------------------
struct World2 {
  explicit World2(const json& sc)
      : limits(kRes, kRes * 0.001 * Eigen::Vector2d(sc["mx"].get<int>(), sc["my"].get<int>()), CellLimits(sc["nx"], sc["ny"])) {
    if (sc["tsdf"].get<bool>()) {
      auto g = std::make_unique<TSDF2D>(limits, kTrunc, 4.f, &tables);
      for (const json& c : sc["cells"]) {
        const double d = kTrunc - c[2].get<int>() * 2 * kTrunc / 255;
        g->SetCell(Eigen::Array2i(c[0].get<int>(), c[1].get<int>()), (c[0].get<int>() + c[1].get<int>()) % 2 ? d : -d, c[3].get<int>());
      }
      g->FinishUpdate();
      grid = std::move(g);
    } else {
      auto g = std::make_unique<ProbabilityGrid>(limits, &tables);
      for (const json& c : sc["cells"]) g->SetProbability(Eigen::Array2i(c[0].get<int>(), c[1].get<int>()), 0.1 + c[2].get<int>() * 0.8 / 255);
      grid = std::move(g);
    }
  }
  ValueConversionTables tables;
  MapLimits limits;
  std::unique_ptr<Grid2D> grid;
};
sensor::PointCloud Points(const json& pts, double res) {
  std::vector<sensor::RangefinderPoint> p;
  for (const json& q : pts) p.push_back({(float)(res * 0.001) * Eigen::Vector3f(q[0].get<float>(), q[1].get<float>(), q.size() > 2 ? q[2].get<float>() : 0.f)});
  return sensor::PointCloud(p);
}
// The cells of the scan for each heading considered.
struct Search2 {
  Search2(const World2& w, const json& m, const transform::Rigid2d& init, double angular) {
    double range = 0;
    for (const json& p : m["pts"]) range = std::max(range, kRes * 0.001 * std::hypot(p[0].get<double>(), p[1].get<double>()));
    step = Step(1. - 1e-3, kRes, range);
    n = Ceil(angular / step);
    for (int i = -n; i <= n; ++i) {
      json cells = json::array();
      const double a = init.rotation().angle() + i * step;
      for (const json& p : m["pts"]) {
        const Eigen::Vector2d q = init.translation() + Eigen::Rotation2Dd(a) * (kRes * 0.001 * Eigen::Vector2d(p[0].get<double>(), p[1].get<double>()));
        cells.push_back({Round((w.limits.max().y() - q.y()) / kRes - 0.5), Round((w.limits.max().x() - q.x()) / kRes - 0.5), 0});
      }
      scans.push_back(cells);
    }
  }
  // The candidate a pose stands for: scan (from 1), offset, and what remains.
  json Decode(const transform::Rigid2d& init, const transform::Rigid2d& pose) const {
    const Eigen::Vector2d d = (pose.translation() - init.translation()) / kRes;
    const double a = common::NormalizeAngleDifference(pose.rotation().angle() - init.rotation().angle());
    double k = a / step, alt = (a + (a > 0 ? -2 : 2) * M_PI) / step;
    // A full turn leaves two readings; take the whole one.
    if (std::fabs(k - std::round(k)) > std::fabs(alt - std::round(alt)) && std::fabs(alt) < n + 0.5) k = alt;
    const double x = -d.y(), y = -d.x();
    const double r = std::max({std::fabs(x - std::round(x)), std::fabs(y - std::round(y)), std::fabs(k - std::round(k))});
    return {{"scan", (int)std::lround(k) + n + 1}, {"off", {std::lround(x), std::lround(y), 0}}, {"res", std::lround(r * 1000)}};
  }
  double step;
  int n;
  std::vector<json> scans;
};
transform::Rigid2d Init2(const json& m) {
  return transform::Rigid2d({kRes * 0.001 * m["init"][0].get<double>(), kRes * 0.001 * m["init"][1].get<double>()}, m["init"][2].get<double>() * kDegree);
}
void EmitGrid2(const json& sc) {
  json cells = json::array();
  for (const json& c : sc["cells"]) cells.push_back({c[0], c[1], 0, c[2]});
  vh::Emit({{"e", "Grid"}, {"cells", cells}, {"u", 0}});
}
void Fast2(const json& sc) {
  World2 w(sc);
  bool first = true;
  for (const json& m : sc["matches"]) {
    g_clear = true;
    transform::Rigid2d init = Init2(m);
    if (m["full"].get<bool>()) {
      init = transform::Rigid2d::Translation(w.limits.max() - 0.5 * kRes * Eigen::Vector2d(sc["ny"].get<int>(), sc["nx"].get<int>()));
    }
    const Search2 s(w, m, init, m["full"].get<bool>() ? M_PI : m["ang"].get<double>() * kDegree);
    const int lin = m["full"].get<bool>() ? 1000000 : Ceil(m["lin"].get<double>());
    if (!g_clear) continue;
    if (first) EmitGrid2(sc);
    first = false;
    json scans = json::array();
    for (const json& c : s.scans) scans.push_back({{"p", c}, {"ok", true}});
    vh::Emit({{"e", "Match"}, {"scans", scans}, {"win", {lin, lin, 0}}, {"min2", m["min2"]}});
    scan_matching::proto::FastCorrelativeScanMatcherOptions2D o;
    o.set_linear_search_window(m["lin"].get<double>() * kRes);
    o.set_angular_search_window(m["ang"].get<double>() * kDegree);
    o.set_branch_and_bound_depth(m["depth"]);
    const FastCorrelativeScanMatcher2D matcher(*w.grid, o);
    const auto cloud = Points(m["pts"], kRes);
    const double lo = sc["tsdf"].get<bool>() ? 1 - kTrunc : 0.1, span = sc["tsdf"].get<bool>() ? 2 * kTrunc : 0.8, n = m["pts"].size();
    const float min = lo + m["min2"].get<double>() / 2 / n / 255 * span;
    float score = -1;
    transform::Rigid2d pose;
    const bool ok = m["full"].get<bool>() ? matcher.MatchFullSubmap(cloud, min, &score, &pose) : matcher.Match(init, cloud, min, &score, &pose);
    if (!ok) {
      vh::Emit({{"e", "None"}});
      continue;
    }
    json e = s.Decode(init, pose);
    e["e"] = "Found";
    e["sum100"] = std::lround((score - lo) / span * 255 * n * 100);
    vh::Emit(e);
  }
}
void Bounds2(const json& sc) {
  World2 w(sc);
  EmitGrid2(sc);
  std::vector<float> tmp;
  for (int width : {1, 2, 4, 8}) {
    const PrecomputationGrid2D p(*w.grid, w.limits.cell_limits(), width, &tmp);
    json vals = json::array();
    for (int x = -width - 1; x <= sc["nx"].get<int>(); ++x)
      for (int y = -width - 1; y <= sc["ny"].get<int>(); ++y) vals.push_back({x, y, p.GetValue(Eigen::Array2i(x, y))});
    vh::Emit({{"e", "Bounds"}, {"w", width}, {"vals", vals}});
  }
}
void Rt2(const json& sc) {
  World2 w(sc);
  const bool tsdf = sc["tsdf"];
  const int V = tsdf ? 1000 : 10000;
  json cells = json::array();
  for (const json& c : sc["cells"]) {
    if (tsdf) {
      cells.push_back({c[0], c[1], 0, {std::lround(c[2].get<int>() * 2. / 255 * V), c[3]}});
    } else {
      cells.push_back({c[0], c[1], 0, {std::lround((0.1 + c[2].get<int>() * 0.8 / 255) * V), 1}});
    }
  }
  bool first = true;
  for (const json& m : sc["matches"]) {
    g_clear = true;
    const transform::Rigid2d init = Init2(m);
    const Search2 s(w, m, init, m["ang"].get<double>() * kDegree);
    const int lin = Ceil(m["lin"].get<double>());
    if (!g_clear) continue;
    const json unknown = tsdf ? json{0, 0} : json{std::lround(0.1 * V), 1};
    if (first) vh::Emit({{"e", "Grid"}, {"cells", cells}, {"u", unknown}});
    first = false;
    json cands = json::array();
    std::map<std::vector<int>, int> index;
    for (int i = 0; i < (int)s.scans.size(); ++i)
      for (int x = -lin; x <= lin; ++x)
        for (int y = -lin; y <= lin; ++y) {
          json p = json::array();
          for (const json& c : s.scans[i]) p.push_back({c[0].get<int>() + x, c[1].get<int>() + y, 0});
          const double c = std::hypot(x, y) * kRes * m["tw"].get<double>() + std::abs((i - s.n) * s.step) * m["rw"].get<double>();
          cands.push_back({{"p", p}, {"w", std::lround(std::exp(-c * c) * 10000)}});
          index[{i + 1, x, y}] = cands.size();
        }
    vh::Emit({{"e", "Rt"}, {"c", cands}});
    scan_matching::proto::RealTimeCorrelativeScanMatcherOptions o;
    o.set_linear_search_window(m["lin"].get<double>() * kRes);
    o.set_angular_search_window(m["ang"].get<double>() * kDegree);
    o.set_translation_delta_cost_weight(m["tw"]);
    o.set_rotation_delta_cost_weight(m["rw"]);
    transform::Rigid2d pose;
    const double score = RealTimeCorrelativeScanMatcher2D(o).Match(init, Points(m["pts"], kRes), *w.grid, &pose);
    const json d = s.Decode(init, pose);
    const auto it = index.find({d["scan"].get<int>(), d["off"][0].get<int>(), d["off"][1].get<int>()});
    vh::Emit({{"e", "RtFound"}, {"i", it == index.end() ? 0 : it->second}, {"res", d["res"]}, {"score", std::lround(score * V * 10000)}, {"tol", 15 * V}});
  }
}
// ---- 3D ----------------------------------------------------------------------
Eigen::Vector3d V3(const json& p, double scale) { return scale * Eigen::Vector3d(p[0].get<double>(), p[1].get<double>(), p[2].get<double>()); }
transform::Rigid3d Pose3(const json& p) {  // millicells and roll, pitch, yaw in degrees
  return transform::Rigid3d(V3(p, kRes3 * 0.001), Eigen::AngleAxisd(p[5].get<double>() * kDegree, Eigen::Vector3d::UnitZ()) *
                                                      Eigen::AngleAxisd(p[4].get<double>() * kDegree, Eigen::Vector3d::UnitY()) *
                                                      Eigen::AngleAxisd(p[3].get<double>() * kDegree, Eigen::Vector3d::UnitX()));
}
Eigen::Array3i Cell3(const Eigen::Vector3d& p, double res) { return {Round(p.x() / res), Round(p.y() / res), Round(p.z() / res)}; }
double Rotational(const std::vector<double>& submap, const std::vector<double>& scan, double angle) {
  const int n = scan.size();
  double dot = 0, a2 = 0, b2 = 0;
  for (int i = 0; i < n; ++i) {
    const double x = i - angle * n / M_PI, f = x - std::floor(x);
    const auto at = [&](long k) { return scan[((k % n) + n) % n]; };
    const double v = (1 - f) * at((long)std::floor(x)) + f * at((long)std::floor(x) + 1);
    dot += v * submap[i];
    a2 += v * v;
    b2 += submap[i] * submap[i];
  }
  return a2 * b2 < 1e-6 ? 1. : dot / std::sqrt(a2 * b2);
}
void Fast3(const json& sc) {
  HybridGrid grid(kRes3), coarse(kRes3 * sc["k"].get<int>());
  for (const json& c : sc["cells"]) grid.SetProbability(Eigen::Array3i(c[0].get<int>(), c[1].get<int>(), c[2].get<int>()), 0.1 + c[3].get<int>() * 0.8 / 255);
  for (const json& c : sc["coarse"]) coarse.SetProbability(Eigen::Array3i(c[0].get<int>(), c[1].get<int>(), c[2].get<int>()), c[3].get<int>() * 0.001);
  std::vector<double> sh = sc["hist"];
  const Eigen::VectorXf submap_hist = Eigen::Map<Eigen::VectorXd>(sh.data(), sh.size()).cast<float>();
  bool first = true;
  for (const json& m : sc["matches"]) {
    g_clear = true;
    const bool full = m["full"];
    transform::Rigid3d node = Pose3(m["node"]), submap = Pose3(m["submap"]);
    const Eigen::Quaterniond gravity = Pose3(m["grav"]).rotation();
    const transform::Rigid3d gnode = node, gsubmap = submap;
    if (full) {
      node = transform::Rigid3d::Rotation(node.rotation());
      submap = transform::Rigid3d::Rotation(submap.rotation());
    }
    double range = 0;
    for (const json& p : m["pts"]) range = std::max(range, V3(p, kRes3 * 0.001).norm());
    const double step = Step(1. - 1e-2, kRes3, range);
    const int n = Round((full ? M_PI : m["ang"].get<double>() * kDegree) / step);
    const transform::Rigid3d rel = submap.inverse() * node;
    std::vector<double> hist = m["hist"];
    const double yaw = transform::GetYaw(rel.rotation() * gravity.inverse());
    json scans = json::array();
    std::vector<transform::Rigid3d> poses;
    for (int i = -n; i <= n; ++i) {
      const transform::Rigid3d pose(rel.translation(), submap.rotation().inverse() * Eigen::AngleAxisd(i * step, Eigen::Vector3d::UnitZ()) * node.rotation());
      poses.push_back(pose);
      json p = json::array(), low = json::array();
      for (const json& q : m["pts"]) p.push_back(Cell(Cell3(pose * V3(q, kRes3 * 0.001), kRes3)));
      for (const json& q : m["low"]) {
        const Eigen::Vector3d v = pose * V3(q, kRes3 * 0.001) / kRes3 * 1000;
        json r = json::array();
        for (int j = 0; j < 3; ++j) {
          r.push_back(std::lround(v[j]));
          const double at = std::fmod(std::fmod(v[j] + 500 * sc["k"].get<int>(), 1000.) + 1000., 1000.);
          if (at < 3 || at > 997) g_clear = false;
        }
        low.push_back(r);
      }
      const double rot = Rotational(sh, hist, yaw + i * step);
      if (std::fabs(rot - m["minrot"].get<double>()) < 2e-3) g_clear = false;
      scans.push_back({{"p", p}, {"low", low}, {"rot", std::lround(rot * 10000)}, {"ok", rot >= m["minrot"].get<double>()}});
    }
    int wxy = 0, wz = 0;
    if (full) {
      wxy = wz = 1000000;
    } else {
      wxy = Round(m["lin"].get<double>());
      wz = Round(m["linz"].get<double>());
    }
    if (!g_clear) continue;
    if (first) {
      vh::Emit({{"e", "Grid"}, {"cells", sc["cells"]}, {"u", 0}});
      vh::Emit({{"e", "Coarse"}, {"cells", sc["coarse"]}, {"u", 100}, {"k", sc["k"]}});
    }
    first = false;
    vh::Emit({{"e", "Match"}, {"scans", scans}, {"win", {wxy, wxy, wz}}, {"min2", m["min2"]}, {"minlow", m["minlow"]}});
    scan_matching::proto::FastCorrelativeScanMatcherOptions3D o;
    o.set_branch_and_bound_depth(m["depth"]);
    o.set_full_resolution_depth(m["fulldepth"]);
    o.set_min_rotational_score(m["minrot"]);
    o.set_min_low_resolution_score(m["minlow"].get<double>() * 0.001);
    o.set_linear_xy_search_window(m["lin"].get<double>() * kRes3);
    o.set_linear_z_search_window(m["linz"].get<double>() * kRes3);
    o.set_angular_search_window(m["ang"].get<double>() * kDegree);
    const FastCorrelativeScanMatcher3D matcher(grid, &coarse, &submap_hist, o);
    TrajectoryNode::Data data{};
    data.gravity_alignment = gravity;
    data.high_resolution_point_cloud = Points(m["pts"], kRes3);
    data.low_resolution_point_cloud = Points(m["low"], kRes3);
    data.rotational_scan_matcher_histogram = Eigen::Map<Eigen::VectorXd>(hist.data(), hist.size()).cast<float>();
    const double np = m["pts"].size();
    const float min = 0.1 + m["min2"].get<double>() / 2 / np / 255 * 0.8;
    const auto r = full ? matcher.MatchFullSubmap(gnode.rotation(), gsubmap.rotation(), data, min) : matcher.Match(gnode, gsubmap, data, min);
    if (!r) {
      vh::Emit({{"e", "None"}});
      continue;
    }
    int best = 0;
    for (int i = 0; i < (int)poses.size(); ++i)
      if (poses[i].rotation().angularDistance(r->pose_estimate.rotation()) < poses[best].rotation().angularDistance(r->pose_estimate.rotation())) best = i;
    const Eigen::Vector3d off = (r->pose_estimate.translation() - poses[best].translation()) / kRes3;
    const Eigen::Array3i oi(std::lround(off.x()), std::lround(off.y()), std::lround(off.z()));
    const double res = std::max((off - oi.matrix().cast<double>()).cwiseAbs().maxCoeff(), poses[best].rotation().angularDistance(r->pose_estimate.rotation()) / step);
    vh::Emit({{"e", "Found"}, {"scan", best + 1}, {"off", Cell(oi)}, {"res", std::lround(res * 1000)}, {"sum100", std::lround((r->score - 0.1) / 0.8 * 255 * np * 100)},
              {"rot", std::lround(r->rotational_score * 10000)}, {"low", std::lround(r->low_resolution_score * 1000)}});
  }
}
void Levels3(const json& sc) {
  HybridGrid grid(kRes3);
  for (const json& c : sc["cells"]) grid.SetProbability(Eigen::Array3i(c[0].get<int>(), c[1].get<int>(), c[2].get<int>()), 0.1 + c[3].get<int>() * 0.8 / 255);
  std::vector<PrecomputationGrid3D> g;
  g.reserve(8);
  g.push_back(ConvertToPrecomputationGrid(grid));
  const auto cells = [](const PrecomputationGrid3D& p) {
    json c = json::array();
    for (auto it = PrecomputationGrid3D::Iterator(p); !it.Done(); it.Next()) {
      json q = Cell(it.GetCellIndex());
      q.push_back(it.GetValue());
      c.push_back(q);
    }
    return c;
  };
  vh::Emit({{"e", "Grid"}, {"cells", cells(g.back())}, {"u", 0}});
  for (const json& lv : sc["levels"]) {
    g.push_back(PrecomputeGrid(g.back(), lv[0], Eigen::Array3i::Ones() * lv[1].get<int>()));
    vh::Emit({{"e", "Level"}, {"half", lv[0]}, {"shift", lv[1]}, {"cells", cells(g.back())}});
    vh::Emit({{"e", "Grid"}, {"cells", cells(g.back())}, {"u", 0}});
  }
}
void Rt3(const json& sc) {
  HybridGrid grid(kRes3);
  json cells = json::array();
  for (const json& c : sc["cells"]) {
    const double p = 0.1 + c[3].get<int>() * 0.8 / 255;
    grid.SetProbability(Eigen::Array3i(c[0].get<int>(), c[1].get<int>(), c[2].get<int>()), p);
    cells.push_back({c[0], c[1], c[2], {std::lround(p * 10000), 1}});
  }
  bool first = true;
  for (const json& m : sc["matches"]) {
    g_clear = true;
    const transform::Rigid3d init = Pose3(m["init"]);
    double range = 0;
    for (const json& p : m["pts"]) range = std::max(range, V3(p, kRes3 * 0.001).norm());
    const double step = Step(1. - 1e-3, kRes3, range);
    const int n = Round(m["ang"].get<double>() * kDegree / step), lin = Round(m["lin"].get<double>());
    json cands = json::array();
    std::vector<transform::Rigid3d> poses;
    for (int x = -lin; x <= lin; ++x)
      for (int y = -lin; y <= lin; ++y)
        for (int z = -lin; z <= lin; ++z)
          for (int a = -n; a <= n; ++a)
            for (int b = -n; b <= n; ++b)
              for (int c = -n; c <= n; ++c) {
                const Eigen::Vector3d axis = step * Eigen::Vector3d(a, b, c);
                const transform::Rigid3d t(kRes3 * Eigen::Vector3d(x, y, z), transform::AngleAxisVectorToRotationQuaternion(axis));
                poses.push_back(init * t);
                json p = json::array();
                for (const json& q : m["pts"]) p.push_back(Cell(Cell3(poses.back() * V3(q, kRes3 * 0.001), kRes3)));
                const double cost = t.translation().norm() * m["tw"].get<double>() + axis.norm() * m["rw"].get<double>();
                cands.push_back({{"p", p}, {"w", std::lround(std::exp(-cost * cost) * 10000)}});
              }
    if (!g_clear) continue;
    if (first) vh::Emit({{"e", "Grid"}, {"cells", cells}, {"u", {1000, 1}}});
    first = false;
    vh::Emit({{"e", "Rt"}, {"c", cands}});
    scan_matching::proto::RealTimeCorrelativeScanMatcherOptions o;
    o.set_linear_search_window(m["lin"].get<double>() * kRes3);
    o.set_angular_search_window(m["ang"].get<double>() * kDegree);
    o.set_translation_delta_cost_weight(m["tw"]);
    o.set_rotation_delta_cost_weight(m["rw"]);
    transform::Rigid3d pose;
    const double score = RealTimeCorrelativeScanMatcher3D(o).Match(init, Points(m["pts"], kRes3), grid, &pose);
    const auto far = [&](int i) {
      return (poses[i].translation() - pose.translation()).norm() / kRes3 + poses[i].rotation().angularDistance(pose.rotation()) / step;
    };
    int best = 0;
    for (int i = 0; i < (int)poses.size(); ++i)
      if (far(i) < far(best)) best = i;
    vh::Emit({{"e", "RtFound"}, {"i", best + 1}, {"res", std::lround(far(best) * 1000)}, {"score", std::lround(score * 1e8)}, {"tol", 150000}});
  }
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](const json& sc) {
    const std::string k = sc["kind"];
    if (k == "fast2") Fast2(sc);
    if (k == "bounds2") Bounds2(sc);
    if (k == "rt2") Rt2(sc);
    if (k == "fast3") Fast3(sc);
    if (k == "levels3") Levels3(sc);
    if (k == "rt3") Rt3(sc);
  });
}
