// Driver for sensor::Collator and sensor::TrajectoryCollator (S01, S02).
#include <set>

#include "absl/memory/memory.h"
#include "cartographer/sensor/internal/collator.h"
#include "cartographer/sensor/internal/trajectory_collator.h"
#include "vh.h"
namespace carto = cartographer;
using vh::json;
namespace {
class TestData : public carto::sensor::Data {
 public:
  TestData(const std::string& id, int time, int n) : Data(id), time_(time), n_(n) {}
  carto::common::Time GetTime() const override { return carto::common::FromUniversal(time_ * 1000); }
  void AddToTrajectoryBuilder(carto::mapping::TrajectoryBuilderInterface*) override {}
  int time_, n_;
};
void Run(const json& sc) {
  std::unique_ptr<carto::sensor::CollatorInterface> c;
  if (sc["joint"]) c = absl::make_unique<carto::sensor::Collator>();
  else c = absl::make_unique<carto::sensor::TrajectoryCollator>();
  std::set<int> unfinished, all;
  bool flushed = false;
  auto block = [&] {
    if (unfinished.empty() || flushed) return;
    auto b = c->GetBlockingTrajectoryId();
    vh::Emit({{"e", "Block"}, {"t", b.has_value() ? b.value() : -1}});
  };
  for (const json& op : sc["ops"]) {
    const std::string o = op["o"];
    if (o == "traj") {
      const int t = op["t"];
      absl::flat_hash_set<std::string> ids;
      for (int s : op["ss"]) ids.insert("s" + std::to_string(s));
      vh::Emit({{"e", "Traj"}, {"t", t}, {"ss", op["ss"]}});
      c->AddTrajectory(t, ids, [t](const std::string& id, std::unique_ptr<carto::sensor::Data> d) {
        auto* x = static_cast<TestData*>(d.get());
        vh::Emit({{"e", "Out"}, {"t", t}, {"s", id.size() == 2 && id == d->GetSensorId() ? id[1] - '0' : -1},
                  {"n", x->n_}, {"time", x->time_}});
      });
      unfinished.insert(t);
      all.insert(t);
      vh::Emit({{"e", "Ret"}});
      block();
    } else if (o == "data") {
      const int t = op["t"], s = op["s"];
      vh::Emit({{"e", "Data"}, {"t", t}, {"s", s}, {"n", op["n"]}, {"time", op["time"]}});
      c->AddSensorData(t, absl::make_unique<TestData>("s" + std::to_string(s), op["time"].get<int>(), op["n"].get<int>()));
      vh::Emit({{"e", "Ret"}});
      block();
    } else if (o == "finish") {
      const int t = op["t"];
      vh::Emit({{"e", "Finish"}, {"t", t}});
      c->FinishTrajectory(t);
      unfinished.erase(t);
      vh::Emit({{"e", "Ret"}});
      block();
    } else if (o == "flush") {
      vh::Emit({{"e", "Flush"}});
      c->Flush();
      flushed = true;
      vh::Emit({{"e", "Ret"}});
    }
  }
  if (!flushed) {
    vh::Emit({{"e", "Flush"}});
    c->Flush();
    vh::Emit({{"e", "Ret"}});
  }
  c.reset();
  vh::Emit({{"e", "End"}});
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
