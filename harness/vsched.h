// Deterministic cooperative scheduler: exactly one managed thread runs at a
// time; every lock operation (and, in sources built with memory-access
// instrumentation, a random subset of loads and stores) is a preemption point.
#ifndef VSCHED_H_
#define VSCHED_H_
#include <functional>
#include "vh.h"
namespace vsched {
// The calling thread becomes managed thread 0. `cfg` is the scenario's "sched"
// object: {"mode":"random","seed":S,"p":percent,"mem":N} with N the mean number
// of memory accesses between memory preemption points (0: none),
// {"mode":"pct","seed":S,"d":D,"len":L}, {"mode":"script","choices":[...]}.
void Start(const vh::json& cfg);
bool Active();
int Self();
void Yield();
void MemYield();
// Blocks the calling thread until pred() (evaluated while no managed thread
// runs). A timed wait may instead return false ("timed out").
bool BlockUntil(const std::function<bool()>& pred, bool timed);
// Called whenever a managed thread has acquired an absl::Mutex.
void SetAcquireHook(void (*f)(const void*));
extern void (*g_acquire_hook)(const void*);
void NoYieldBegin();
void NoYieldEnd();
}  // namespace vsched
#endif
