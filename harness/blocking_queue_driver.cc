// Driver for common::BlockingQueue (property C02).
#include <memory>
#include <thread>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/common/internal/blocking_queue.h"
#include "cartographer/common/time.h"
#include "vh.h"
#include "vsched.h"

using vh::json;
using Queue = cartographer::common::BlockingQueue<std::unique_ptr<int>>;

namespace {
void Ops(Queue* q, int th, const json& ops) {
  const auto timeout = cartographer::common::FromMilliseconds(5);
  for (const json& op : ops) {
    const std::string o = op["o"];
    const int v = op.value("v", 0);
    vh::Emit({{"e", "Call"}, {"th", th}, {"op", o}, {"v", v}});
    int r = 0;
    if (o == "push") {
      q->Push(absl::make_unique<int>(v));
      r = 1;
    } else if (o == "pushT") {
      r = q->PushWithTimeout(absl::make_unique<int>(v), timeout) ? 1 : 0;
    } else if (o == "pop") {
      auto p = q->Pop();
      r = p ? *p : 0;
    } else if (o == "popT") {
      auto p = q->PopWithTimeout(timeout);
      r = p ? *p : 0;
    } else if (o == "peek") {
      auto* p = q->Peek<int>();
      r = p ? *p : 0;
    } else if (o == "peekT") {
      auto* p = q->PeekWithTimeout<int>(timeout);
      r = p ? *p : 0;
    } else if (o == "size") {
      r = q->Size();
    } else if (o == "wait") {
      q->WaitUntilEmpty();
      r = 1;
    }
    vh::Emit({{"e", "Ret"}, {"th", th}, {"r", r}});
  }
}

void Run(const json& s) {
  vsched::Start(s["sched"]);
  Queue* q = s["cap"].get<int>() == 0 ? new Queue() : new Queue(s["cap"].get<int>());
  std::vector<std::thread> ts;
  for (size_t i = 1; i < s["th"].size(); ++i) {
    const json& ops = s["th"][i];
    ts.emplace_back([q, i, &ops] { Ops(q, i, ops); });
  }
  Ops(q, 0, s["th"][0]);
  for (auto& t : ts) t.join();
  vh::Emit({{"e", "End"}});
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
