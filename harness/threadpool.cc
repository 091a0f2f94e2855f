// Driver for common::ThreadPool / common::Task (property C01).
#include <map>
#include <memory>
#include <thread>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
#include "vh.h"
#include "vsched.h"

using cartographer::common::Task;
using cartographer::common::ThreadPool;
using vh::json;

namespace {
struct World {
  ThreadPool* pool;
  std::map<int, std::weak_ptr<Task>> weak;  // set once Schedule has returned
  int caller_threads_done = 0;
};
World* w;

void Ops(const json& ops);

void DoTask(const json& op) {
  const int t = op["t"];
  auto task = absl::make_unique<Task>();
  const json body = op.value("body", json::array());
  if (!op.value("nowork", false)) {
    task->SetWorkItem([t, body] {
      vh::Emit({{"e", "Run"}, {"t", t}, {"th", vsched::Self()}});
      Ops(body);
      vsched::Yield();
      vh::Emit({{"e", "End"}, {"t", t}});
    });
  }
  for (int d : op["deps"]) {
    if (!w->weak.count(d)) continue;
    vh::Emit({{"e", "AddDep"}, {"t", t}, {"d", d}});
    task->AddDependency(w->weak.at(d));
  }
  if (op.value("null", false)) task->AddDependency(std::weak_ptr<Task>());
  vh::Emit({{"e", "Sched"}, {"t", t}, {"nowork", op.value("nowork", false)}});
  auto weak = w->pool->Schedule(std::move(task));
  w->weak[t] = weak;
  vh::Emit({{"e", "SchedEnd"}, {"t", t}});
}

void Ops(const json& ops) {
  for (const json& op : ops) {
    const std::string o = op["o"];
    if (o == "task") {
      DoTask(op);
    } else if (o == "obs") {
      const int t = op["t"];
      if (!w->weak.count(t)) continue;
      auto shared = w->weak.at(t).lock();
      if (shared == nullptr) {
        vh::Emit({{"e", "Expired"}, {"t", t}});
      } else {
        const int self = vsched::Self();
        vh::Emit({{"e", "ObsBegin"}, {"t", t}, {"th", self}});
        const int s = shared->GetState();
        vh::Emit({{"e", "State"}, {"t", t}, {"s", s}, {"th", self}});
      }
    } else if (o == "yield") {
      vsched::Yield();
    }
  }
}

void Run(const json& s) {
  w = new World;
  vsched::Start(s["sched"]);
  w->pool = new ThreadPool(s["threads"].get<int>());
  std::vector<std::thread> callers;
  for (size_t i = 1; i < s["callers"].size(); ++i) {
    const json& ops = s["callers"][i];
    callers.emplace_back([&ops] { Ops(ops); });
  }
  Ops(s["callers"][0]);
  for (auto& t : callers) t.join();
  vh::Emit({{"e", "Close"}});
  delete w->pool;
  for (auto& p : w->weak)
    if (p.second.expired()) vh::Emit({{"e", "Expired"}, {"t", p.first}});
  vh::Emit({{"e", "Down"}});
}
}  // namespace

int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
