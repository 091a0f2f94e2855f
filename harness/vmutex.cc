// Replaces absl::Mutex's out-of-line operations (the executable's definitions
// take precedence over libabsl_synchronization.so's) by ones on top of vsched.
#include <cstdlib>
#include <map>

#include "absl/synchronization/mutex.h"
#include "vsched.h"

namespace {
struct Held {
  bool writer = false;
  int owner = -1;
  int readers = 0;
};
// Only currently held mutexes have an entry.
std::map<const void*, Held>& Table() {
  static auto* t = new std::map<const void*, Held>;
  return *t;
}
bool Free(const void* m) { return Table().count(m) == 0; }
bool NoWriter(const void* m) {
  auto it = Table().find(m);
  return it == Table().end() || !it->second.writer;
}
void Take(const void* m) {
  Held& h = Table()[m];
  h.writer = true;
  h.owner = vsched::Self();
  if (vsched::g_acquire_hook && vsched::Active()) vsched::g_acquire_hook(m);
}
void Drop(const void* m) {
  auto it = Table().find(m);
  if (it == Table().end() || !it->second.writer) abort();
  Table().erase(it);
}
bool EvalQuiet(const absl::Condition& c) {
  vsched::NoYieldBegin();
  bool r = c.Eval();
  vsched::NoYieldEnd();
  return r;
}
void LockImpl(const void* m) {
  auto it = Table().find(m);
  if (it != Table().end() && it->second.writer && vsched::Active() &&
      it->second.owner == vsched::Self())
    vh::Finish({{"e", "Deadlock"}});  // self-deadlock
  vsched::Yield();
  if (!Free(m)) vsched::BlockUntil([m] { return Free(m); }, false);
  Take(m);
}
bool AwaitImpl(const void* m, const absl::Condition& c, bool timed) {
  if (NoWriter(m)) abort();
  if (EvalQuiet(c)) return true;
  Drop(m);
  bool ok = vsched::BlockUntil([&] { return Free(m) && c.Eval(); }, timed);
  if (!ok) {
    if (!Free(m)) vsched::BlockUntil([m] { return Free(m); }, false);
    Take(m);
    return EvalQuiet(c);
  }
  Take(m);
  return true;
}
std::map<const void*, int64_t>& Gen() {
  static auto* t = new std::map<const void*, int64_t>;
  return *t;
}
bool CvWait(const void* cv, const void* m, bool timed) {
  const int64_t g = Gen()[cv];
  Drop(m);
  bool ok = vsched::BlockUntil([&] { return Gen()[cv] != g && Free(m); }, timed);
  if (!ok && !Free(m)) vsched::BlockUntil([m] { return Free(m); }, false);
  Take(m);
  return !ok;
}
}  // namespace

namespace absl {
ABSL_NAMESPACE_BEGIN
void Mutex::Lock() { LockImpl(this); }
void Mutex::Unlock() {
  Drop(this);
  vsched::Yield();
}
bool Mutex::TryLock() {
  vsched::Yield();
  if (!Free(this)) return false;
  Take(this);
  return true;
}
void Mutex::AssertHeld() const {
  if (NoWriter(this)) abort();
}
void Mutex::ReaderLock() {
  vsched::Yield();
  if (!NoWriter(this)) vsched::BlockUntil([this] { return NoWriter(this); }, false);
  ++Table()[this].readers;
  if (vsched::g_acquire_hook && vsched::Active()) vsched::g_acquire_hook(this);
}
void Mutex::ReaderUnlock() {
  if (--Table()[this].readers == 0) Table().erase(this);
  vsched::Yield();
}
bool Mutex::ReaderTryLock() {
  vsched::Yield();
  if (!NoWriter(this)) return false;
  ++Table()[this].readers;
  return true;
}
void Mutex::Await(const Condition& c) { AwaitImpl(this, c, false); }
bool Mutex::AwaitWithTimeout(const Condition& c, absl::Duration d) {
  return AwaitImpl(this, c, d != absl::InfiniteDuration());
}
bool Mutex::AwaitWithDeadline(const Condition& c, absl::Time t) {
  return AwaitImpl(this, c, t != absl::InfiniteFuture());
}
void Mutex::LockWhen(const Condition& c) {
  LockImpl(this);
  AwaitImpl(this, c, false);
}
bool Mutex::LockWhenWithTimeout(const Condition& c, absl::Duration d) {
  LockImpl(this);
  return AwaitWithTimeout(c, d);
}
bool Mutex::LockWhenWithDeadline(const Condition& c, absl::Time t) {
  LockImpl(this);
  return AwaitWithDeadline(c, t);
}
void CondVar::Wait(Mutex* mu) { CvWait(this, mu, false); }
bool CondVar::WaitWithTimeout(Mutex* mu, absl::Duration) { return CvWait(this, mu, true); }
bool CondVar::WaitWithDeadline(Mutex* mu, absl::Time) { return CvWait(this, mu, true); }
void CondVar::Signal() {
  ++Gen()[this];
  vsched::Yield();
}
void CondVar::SignalAll() {
  ++Gen()[this];
  vsched::Yield();
}
ABSL_NAMESPACE_END
}  // namespace absl
