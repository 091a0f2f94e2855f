// Driver for mapping::ConnectedComponents and TrajectoryConnectivityState (M06).
#include <set>
#include "cartographer/mapping/internal/connected_components.h"
#include "cartographer/mapping/internal/trajectory_connectivity_state.h"
#include "vh.h"
namespace carto = cartographer;
using vh::json;
namespace {
constexpr int kN = 5;
void Run(const json& sc) {
  carto::mapping::ConnectedComponents cc;
  carto::mapping::TrajectoryConnectivityState st;
  std::set<int> tracked;
  int step = 0;
  for (const json& op : sc["ops"]) {
    const int a = op["a"], b = op["b"], time = op["time"];
    vh::Emit({{"e", op["o"]}, {"a", a}, {"b", b}, {"time", time}});
    tracked.insert(a);
    if (op["o"] == "add") {
      cc.Add(a);
      st.Add(a);
    } else {
      tracked.insert(b);
      cc.Connect(a, b);
      st.Connect(a, b, carto::common::FromUniversal(time));
    }
    // Observe every time, or only at the end (queries must not matter).
    if (sc["obs"] == "end" && ++step < (int)sc["ops"].size()) continue;
    json tc = json::array(), ts = tc, cnt = tc, last = tc, gt = tc, gc = tc, pr = tc;
    for (int i = 0; i < kN; ++i)
      for (int j = 0; j < kN; ++j) {
        tc.push_back(cc.TransitivelyConnected(i, j));
        ts.push_back(st.TransitivelyConnected(i, j));
        cnt.push_back(cc.ConnectionCount(i, j));
        last.push_back(carto::common::ToUniversal(st.LastConnectionTime(i, j)));
      }
    for (int i : tracked) {
      gt.push_back(i);
      gc.push_back(cc.GetComponent(i));
    }
    auto proto = carto::mapping::ToProto(cc.Components());
    for (auto& c : proto.connected_component()) {
      json x = json::array();
      for (int t : c.trajectory_id()) x.push_back(t);
      pr.push_back(x);
    }
    vh::Emit({{"e", "obs"}, {"tc", tc}, {"ts", ts}, {"cnt", cnt}, {"last", last}, {"gt", gt}, {"gc", gc},
              {"cc", cc.Components()}, {"cs", st.Components()}, {"proto", pr}});
  }
  vh::Emit({{"e", "End"}});
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
