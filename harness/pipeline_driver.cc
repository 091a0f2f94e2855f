// Driver for points-processing pipelines and point-cloud writers (I02, I03).
#include <malloc.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include "cartographer/io/points_processor_pipeline_builder.h"
#include "cartographer/io/file_writer.h"
#include "cartographer/mapping/proto/trajectory.pb.h"
#include "pose_graph_options.h"
#include "vh.h"
using namespace cartographer;
using vh::json;
namespace {
std::string Num(double x) { char b[64]; snprintf(b, 64, "%.6f", x); return b; }
std::string Strings(const json& a) {
  std::string s = "{";
  for (const json& x : a) s += "\"" + x.get<std::string>() + "\", ";
  return s + "}";
}
std::string Lua(const json& s, int i) {
  const std::string k = s["k"];
  const auto q = [&](const char* f) { return Num(s[f].get<int>() / 4.); };
  if (k == "count") return "action = \"dump_num_points\"";
  if (k == "frame") return "action = \"frame_id_filter\"" + (s["keep"].empty() ? "" : ", keep_frames = " + Strings(s["keep"])) +
                           (s["drop"].empty() ? "" : ", drop_frames = " + Strings(s["drop"]));
  if (k == "range") return "action = \"min_max_range_filter\", min_range = " + q("min") + ", max_range = " + q("max");
  if (k == "vert") return "action = \"vertical_range_filter\", min_z = " + q("min") + ", max_z = " + q("max");
  if (k == "ratio") return "action = \"fixed_ratio_sampler\", sampling_ratio = " + Num(s["a"].get<int>() / 8.);
  if (k == "color") return "action = \"color_points\", frame_id = \"" + s["frame"].get<std::string>() + "\", color = {" + Num(s["c"][0]) + ", " + Num(s["c"][1]) + ", " + Num(s["c"][2]) + "}";
  if (k == "gray") return "action = \"intensity_to_color\", min_intensity = " + Num(s["min"]) + ", max_intensity = " + Num(s["min"].get<int>() + 255) +
                          (s["frame"] == "" ? "" : ", frame_id = \"" + s["frame"].get<std::string>() + "\"");
  if (k == "outlier") return "action = \"voxel_filter_and_remove_moving_objects\", voxel_size = 1." +
                             (s["lim"] == 6 ? std::string() : ", miss_per_hit_limit = " + Num(s["lim"].get<int>() / 2.));
  if (k == "restart") return "action = \"restart\", n = " + std::to_string(s["n"].get<int>());
  return "action = \"write_" + k + "\", filename = \"" + std::to_string(i) + "\"";
}
long Q(float x) { return std::lround(x * 4); }
json Points(const std::vector<sensor::RangefinderPoint>& p) {
  json out = json::array();
  for (const auto& x : p) out.push_back({Q(x.position.x()), Q(x.position.y()), Q(x.position.z())});
  return out;
}
// A stage that needs extra passes before it forwards anything.
class Restart : public io::PointsProcessor {
 public:
  Restart(int n, io::PointsProcessor* next) : n_(n), next_(next) {}
  void Process(std::unique_ptr<io::PointsBatch> b) override { if (n_ == 0) next_->Process(std::move(b)); }
  FlushResult Flush() override {
    if (n_ == 0) return next_->Flush();
    --n_;
    return FlushResult::kRestartStream;
  }
 private:
  int n_;
  io::PointsProcessor* next_;
};
class Collect : public io::PointsProcessor {
 public:
  explicit Collect(io::PointsProcessor* next) : next_(next) {}
  void Process(std::unique_ptr<io::PointsBatch> b) override {
    json ints = json::array(), cols = json::array();
    for (float i : b->intensities) ints.push_back(std::lround(i));
    for (const auto& c : b->colors) cols.push_back({std::lround(c[0] * 255), std::lround(c[1] * 255), std::lround(c[2] * 255)});
    vh::Emit({{"e", "Out"}, {"b", {{"frame", b->frame_id}, {"org", {Q(b->origin.x()), Q(b->origin.y()), Q(b->origin.z())}},
        {"pts", Points(b->points)}, {"ints", ints}, {"cols", cols}, {"traj", b->trajectory_id},
        {"time", common::ToUniversal(b->start_time)}}}});
    next_->Process(std::move(b));
  }
  FlushResult Flush() override { return next_->Flush(); }
 private:
  io::PointsProcessor* next_;
};
std::map<int, int> fds;
std::string Slurp(int fd) {
  std::ifstream in("/proc/self/fd/" + std::to_string(fd), std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}
float F(const std::string& s, size_t at) { float f; memcpy(&f, s.data() + at, 4); return f; }
void File(const json& sc, int i, int fd) {
  const std::string kind = sc["pipe"][i]["k"];
  const std::string s = Slurp(fd);
  bool ok = true, color = false, intensity = false;
  long declared = -1;
  json rows = json::array();
  size_t at = 0;
  std::vector<std::string> head;
  const auto line = [&]() {
    const size_t e = s.find('\n', at);
    if (e == std::string::npos) { ok = false; return std::string(); }
    const std::string r = s.substr(at, e - at);
    at = e + 1;
    return r;
  };
  if (kind == "xyz") {
    while (ok && at < s.size()) {
      std::istringstream l(line());
      float x, y, z;
      std::string rest;
      if (!(l >> x >> y >> z) || (l >> rest)) ok = false;
      else rows.push_back({{Q(x), Q(y), Q(z)}, json::array(), json::array()});
    }
  } else {
    const std::string last = kind == "ply" ? "end_header" : "DATA binary";
    do { head.push_back(line()); } while (ok && head.back() != last && head.size() < 40);
    std::vector<std::string> want;
    std::set<std::string> lines(head.begin(), head.end());
    if (kind == "ply") {
      color = lines.count("property uchar red");
      intensity = lines.count("property float intensity");
      want = {"ply", "format binary_little_endian 1.0", "*element vertex ", "property float x", "property float y", "property float z"};
      if (color) for (const char* c : {"red", "green", "blue"}) want.push_back("property uchar " + std::string(c));
      if (intensity) want.push_back("property float intensity");
    } else {
      color = lines.count("FIELDS x y z rgb");
      want = {"VERSION .7", color ? "FIELDS x y z rgb" : "FIELDS x y z", color ? "SIZE 4 4 4 4" : "SIZE 4 4 4", color ? "TYPE F F F U" : "TYPE F F F",
              color ? "COUNT 1 1 1 1" : "COUNT 1 1 1", "*WIDTH ", "HEIGHT 1", "VIEWPOINT 0 0 0 1 0 0 0", "*POINTS "};
    }
    want.push_back(last);
    // comments aside, exactly these lines
    std::vector<std::string> have;
    for (const auto& h : head) if (h.rfind("comment", 0) != 0 && h.rfind("#", 0) != 0) have.push_back(h);
    if (have.size() != want.size()) ok = false;
    for (size_t k = 0; ok && k < want.size(); ++k) {
      if (want[k][0] == '*') {
        if (have[k].rfind(want[k].substr(1), 0) != 0) { ok = false; break; }
        const long n = atol(have[k].substr(want[k].size() - 1).c_str());
        if (declared >= 0 && declared != n) ok = false;
        declared = n;
      } else if (have[k] != want[k]) ok = false;
    }
    const size_t size = 12 + (color ? kind == "ply" ? 3 : 4 : 0) + (intensity ? 4 : 0);
    for (; ok && at + size <= s.size(); at += size) {
      size_t p = at + 12;
      json c = json::array(), in = json::array();
      const auto u = [&](size_t k) { return (int)(unsigned char)s[k]; };
      if (color && kind == "ply") { c = {u(p), u(p + 1), u(p + 2)}; p += 3; }
      else if (color) { c = {u(p + 2), u(p + 1), u(p)}; p += 4; }
      if (intensity) in = json::array({std::lround(F(s, p))});
      rows.push_back({{Q(F(s, at)), Q(F(s, at + 4)), Q(F(s, at + 8))}, c, in});
    }
    if (at != s.size()) ok = false;
  }
  vh::Emit({{"e", "File"}, {"i", i + 1}, {"kind", kind}, {"ok", ok}, {"declared", declared}, {"c", color}, {"int", intensity}, {"rows", rows}});
}
void Handle(const json& sc) {
  mallopt(M_PERTURB, 165);  // memory is never zero by chance
  if (sc.contains("fail")) {  // writing where nothing can be written
    io::StreamFileWriter w(sc["fail"].get<std::string>());
    bool ok = true;
    for (const json& n : sc["writes"]) {
      const std::string data(n.get<int>(), 'x');
      ok = w.Write(data.data(), data.size()) && ok;
    }
    if (sc["header"].get<bool>()) ok = w.WriteHeader("head", 4) && ok;
    ok = w.Close() && ok;
    vh::Emit({{"e", "Fail"}, {"ok", ok}});
    return;
  }
  io::PointsProcessorPipelineBuilder builder;
  std::vector<mapping::proto::Trajectory> trajectories;
  io::RegisterBuiltInPointsProcessors(trajectories, [](const std::string& name) {
    const int fd = memfd_create("pipeline", 0);
    fds[atoi(name.c_str())] = fd;
    return absl::make_unique<io::StreamFileWriter>("/proc/self/fd/" + std::to_string(fd));
  }, &builder);
  builder.Register("restart", [](common::LuaParameterDictionary* d, io::PointsProcessor* next) {
    return std::unique_ptr<io::PointsProcessor>(new Restart(d->GetInt("n"), next)); });
  builder.Register("collect", [](common::LuaParameterDictionary* d, io::PointsProcessor* next) {
    return std::unique_ptr<io::PointsProcessor>(new Collect(next)); });
  std::string lua = "return { ";
  int i = 0;
  for (const json& s : sc["pipe"]) lua += "{ " + Lua(s, i++) + " }, ";
  auto d = pgopt::Dict(lua + "{ action = \"collect\" } }");
  auto pipeline = builder.CreatePipeline(d.get());
  for (int pass = 0; pass < 20; ++pass) {
    int k = 0;
    for (const json& b : sc["batches"]) {
      auto batch = absl::make_unique<io::PointsBatch>();
      const auto v = [](const json& p) { return Eigen::Vector3f(p[0].get<int>() / 4.f, p[1].get<int>() / 4.f, p[2].get<int>() / 4.f); };
      batch->start_time = common::FromUniversal(b["time"].get<int>());
      batch->origin = v(b["org"]);
      batch->frame_id = b["frame"];
      batch->trajectory_id = b["traj"];
      for (const json& p : b["pts"]) batch->points.push_back({v(p)});
      for (const json& x : b["ints"]) batch->intensities.push_back(x.get<int>());
      for (const json& c : b["cols"]) batch->colors.push_back({{c[0].get<int>() / 255.f, c[1].get<int>() / 255.f, c[2].get<int>() / 255.f}});
      vh::Emit({{"e", "In"}, {"i", ++k}});
      pipeline.back()->Process(std::move(batch));
    }
    vh::Emit({{"e", "Flush"}});
    const auto r = pipeline.back()->Flush();
    const bool again = r == io::PointsProcessor::FlushResult::kRestartStream;
    vh::Emit({{"e", "Flushed"}, {"r", again ? "again" : "done"}});
    if (!again) break;
  }
  for (const auto& f : fds) File(sc, f.first, f.second);
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Handle); }
