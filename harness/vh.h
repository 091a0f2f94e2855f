// Conformance-driver runtime: reads scenarios (one JSON object per line),
// runs each in a forked child, and writes one trace per line:
//   {"id":..., "in":<scenario>, "ev":[{"e":"Name",...},...]}
// If the child dies or does not finish, the events it had emitted are kept and
// a final {"e":"Crash"} / {"e":"Hang"} / {"e":"Deadlock"} event is appended.
#ifndef VH_H_
#define VH_H_
#include <functional>
#include <nlohmann/json.hpp>
#include <string>
namespace vh {
using json = nlohmann::json;
// Emits one event. Safe to call from any thread (one write per event).
void Emit(const json& event);
void SetExplorationTrace(std::function<std::string()> f);  // used by vsched
// Ends the child at once, with a final event.
[[noreturn]] void Finish(const json& event);
struct Options {
  int timeout_ms = 20000;
};
using Handler = std::function<void(const json& scenario)>;
int Main(int argc, char** argv, const Handler& handler, Options options = {});
}  // namespace vh
#endif
