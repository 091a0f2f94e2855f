// Driver for voxel filters (S04) and CompressedPointCloud (S06).
#include "cartographer/sensor/compressed_point_cloud.h"
#include "cartographer/sensor/internal/voxel_filter.h"
#include "vh.h"
using vh::json;
namespace s = cartographer::sensor;
namespace {
Eigen::Vector3f P(const json& p) {
  return {float(p[0].get<double>() / 1000.), float(p[1].get<double>() / 1000.), float(p[2].get<double>() / 1000.)};
}
json R(const Eigen::Vector3f& p) {
  return {(int)std::lround(p[0] * 1000.), (int)std::lround(p[1] * 1000.), (int)std::lround(p[2] * 1000.)};
}
json R100(const Eigen::Vector3f& p) {
  return {(int)std::lround(p[0] * 1e5), (int)std::lround(p[1] * 1e5), (int)std::lround(p[2] * 1e5)};
}
void Voxel(const json& sc) {
  const json& pts = sc["pts"];
  const float len = sc["len"].get<int>() / 1000.f;
  std::vector<s::RangefinderPoint> v;
  std::vector<float> inten;
  s::TimedPointCloud timed;
  std::vector<s::TimedPointCloudOriginData::RangeMeasurement> rm;
  for (size_t i = 0; i < pts.size(); ++i) {
    v.push_back({P(pts[i])});
    inten.push_back(i + 1);
    timed.push_back({P(pts[i]), float(i + 1)});
    rm.push_back({{P(pts[i]), float(i + 1)}, float(i + 1), i + 1});
  }
  auto emit = [](const char* e, const json& out, const json& pos) { vh::Emit({{"e", e}, {"out", out}, {"pos", pos}}); };
  auto cloud = [&](const char* e, const s::PointCloud& c) {
    json out = json::array(), pos = out;
    for (size_t i = 0; i < c.size(); ++i) {
      out.push_back(i < c.intensities().size() ? (int)c.intensities()[i] : -1);
      pos.push_back(R(c[i].position));
    }
    if (c.intensities().size() != c.size()) out.push_back(-1);
    emit(e, out, pos);
  };
  cloud("voxel", s::VoxelFilter(s::PointCloud(v, inten), len));
  {
    json out = json::array(), pos = out;
    for (auto& p : s::VoxelFilter(timed, len)) out.push_back((int)p.time), pos.push_back(R(p.position));
    emit("voxel", out, pos);
  }
  {
    json out = json::array(), pos = out;
    for (auto& p : s::VoxelFilter(rm, len)) {
      const bool ok = p.intensity == p.point_time.time && (float)p.origin_index == p.intensity;
      out.push_back(ok ? (int)p.origin_index : -1), pos.push_back(R(p.point_time.position));
    }
    emit("voxel", out, pos);
  }
  // Without attributes: points are identified by their (distinct) position.
  auto plain = [&](const char* e, const std::vector<s::RangefinderPoint>& c) {
    json out = json::array(), pos = out;
    for (auto& p : c) {
      const json r = R(p.position);
      pos.push_back(r);
      int ix = -1;
      for (size_t i = 0; i < pts.size(); ++i) if (pts[i] == r) ix = i + 1;
      out.push_back(ix);
    }
    emit(e, out, pos);
  };
  if (sc["distinct"]) {
    plain("voxel", s::VoxelFilter(v, len));
    plain("voxel", s::VoxelFilter(s::PointCloud(v), len).points());
  }
  s::proto::AdaptiveVoxelFilterOptions o;
  o.set_max_length(len);
  o.set_min_num_points(sc["min"].get<int>());
  o.set_max_range(sc["range"].get<int>() / 1000.f);
  cloud("adaptive", s::AdaptiveVoxelFilter(s::PointCloud(v, inten), o));
  if (sc["distinct"]) plain("adaptive", s::AdaptiveVoxelFilter(s::PointCloud(v), o).points());
  vh::Emit({{"e", "End"}});
}
void Compress(const json& sc) {
  std::vector<s::RangefinderPoint> v;
  json orig = json::array();
  for (const json& p : sc["pts"]) {
    v.push_back({P(p)});
    // (out of range coordinates are only used to see them refused)
    orig.push_back(v.back().position.cwiseAbs().maxCoeff() < 20000.f ? R100(v.back().position) : json::array({0, 0, 0}));
  }
  vh::Emit({{"e", "orig"}, {"pts", orig}});
  const s::PointCloud cloud(v);
  const s::CompressedPointCloud c(cloud);
  const s::CompressedPointCloud again(cloud);
  const s::CompressedPointCloud p(c.ToProto());
  json dec = json::array(), it = dec, pr = dec;
  for (auto& x : c.Decompress()) dec.push_back(R100(x.position));
  for (auto x : c) it.push_back(R100(x.position));
  for (auto x : p) pr.push_back(R100(x.position));
  vh::Emit({{"e", "dec"}, {"pts", dec}, {"iter", it}, {"proto", pr}, {"size", c.size()}, {"empty", c.empty()},
            {"eqproto", p == c}, {"eqagain", again == c}});
  if (!v.empty()) {
    auto w = v;
    w.back().position.x() += w.back().position.x() > 0 ? -1.f : 1.f;
    vh::Emit({{"e", "differ"}, {"eq", s::CompressedPointCloud(s::PointCloud(w)) == c}});
  }
  vh::Emit({{"e", "End"}});
}
void Run(const json& sc) { sc["what"] == "voxel" ? Voxel(sc) : Compress(sc); }
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
