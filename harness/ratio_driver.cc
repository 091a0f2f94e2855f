// Driver for common::FixedRatioSampler and io::FixedRatioSamplingPointsProcessor (C03).
#include "absl/memory/memory.h"
#include "cartographer/common/fixed_ratio_sampler.h"
#include "cartographer/io/fixed_ratio_sampling_points_processor.h"
#include "vh.h"
using vh::json;
namespace io = cartographer::io;
namespace {
class Sink : public io::PointsProcessor {
 public:
  void Process(std::unique_ptr<io::PointsBatch> b) override { last = std::move(b); }
  FlushResult Flush() override { return restart ? FlushResult::kRestartStream : FlushResult::kFinished; }
  std::unique_ptr<io::PointsBatch> last;
  bool restart = false;
};
void Run(const json& sc) {
  const double ratio = double(sc["p"].get<int>()) / sc["q"].get<int>();
  if (sc["what"] == "sampler") {
    cartographer::common::FixedRatioSampler s(ratio);
    for (int i = 0; i < sc["n"].get<int>(); ++i) vh::Emit({{"e", "pulse"}, {"yes", s.Pulse()}});
  } else if (sc["what"] == "bulk") {
    // Long runs: how far the number of samples ever was from its share.
    const long long p = sc["p"], q = sc["q"];
    cartographer::common::FixedRatioSampler s(ratio);
    long long n = 0, d = 0;
    for (const json& len : sc["lens"]) {
      long long lo = d, hi = d;
      for (long long i = 0, e = len.get<long long>(); i < e; ++i, ++n) {
        d += (s.Pulse() ? q : 0) - p;
        lo = std::min(lo, d);
        hi = std::max(hi, d);
      }
      auto clamp = [](long long x) { return std::max(-1000000000ll, std::min(1000000000ll, x)); };
      vh::Emit({{"e", "bulk"}, {"rest", n % q}, {"d", clamp(d)}, {"lo", clamp(lo)}, {"hi", clamp(hi)}});
    }
  } else {
    Sink sink;
    io::FixedRatioSamplingPointsProcessor pr(ratio, &sink);
    int k = 0;
    for (const json& op : sc["batches"]) {
      if (op.is_string()) {
        sink.restart = true;
        pr.Flush();
        vh::Emit({{"e", "restart"}});
        k = 0;
        continue;
      }
      auto b = absl::make_unique<io::PointsBatch>();
      json in = json::array(), out = in, attr = in;
      for (int i = 0; i < op.get<int>(); ++i) {
        ++k;
        b->points.push_back({Eigen::Vector3f(k, 0, 0)});
        b->intensities.push_back(k);
        b->colors.push_back({{float(k), 0.f, 0.f}});
        in.push_back(k);
      }
      pr.Process(std::move(b));
      for (size_t i = 0; i < sink.last->points.size(); ++i) {
        out.push_back((int)sink.last->points[i].position.x());
        const int a = sink.last->intensities.at(i), c = sink.last->colors.at(i)[0];
        attr.push_back(a == c ? a : -1);
      }
      vh::Emit({{"e", "batch"}, {"inp", in}, {"out", out}, {"attr", attr}});
    }
  }
  vh::Emit({{"e", "End"}});
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
