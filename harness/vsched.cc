#include "vsched.h"

#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/time.h>
#include <time.h>

#include <cstdint>
#include <cstdlib>
#include <vector>

namespace vsched {
namespace {
struct Thread {
  int id;
  sem_t sem;
  sem_t exit_sem;  // posted by the joiner: a thread really exits only then
  bool finished = false;
  const std::function<bool()>* pred = nullptr;
  bool timed = false;
  bool timed_out = false;
  pthread_t handle{};
  int prio = 0;
};
bool g_active = false;
std::vector<Thread*> g_threads;
Thread* g_cur = nullptr;
thread_local Thread* t_self = nullptr;
int g_noyield = 0;
uint64_t g_rng = 1;
int g_mode = 0;  // 0 random 1 pct 2 script
int g_p = 30;
int g_mem = 0;
int64_t g_mem_left = 0;
std::vector<int> g_script;
size_t g_script_pos = 0;
std::string g_trace;
int64_t g_steps = 0;
int64_t g_limit = 200000;
std::vector<int64_t> g_change;
int g_timeout_pct = 5;
int g_low = -1;

uint64_t Rnd() {
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  g_rng ^= g_rng << 17;
  return g_rng;
}

void ResetMem() {
  g_mem_left = g_mem > 0 ? 1 + (int64_t)(Rnd() % (2 * g_mem)) : INT64_MAX;
}

void End(const char* what) {
  vh::Finish({{"e", what}});
}

// Chooses the thread to run next. Called by the running thread.
Thread* Pick() {
  if (++g_steps > g_limit) End("Hang");
  std::vector<Thread*> cand;
  std::vector<Thread*> timed;
  ++g_noyield;
  bool cur_ok = false;
  auto ready = [](Thread* t) {
    return !t->finished && (t->pred == nullptr || (*t->pred)());
  };
  if (g_cur && ready(g_cur)) {
    cand.push_back(g_cur);
    cur_ok = true;
  }
  for (Thread* t : g_threads) {
    if (t == g_cur) {
      if (!cur_ok && !t->finished && t->timed) timed.push_back(t);
      continue;
    }
    if (ready(t))
      cand.push_back(t);
    else if (!t->finished && t->timed)
      timed.push_back(t);
  }
  --g_noyield;
  if (cand.empty() && timed.empty()) End("Deadlock");
  bool use_timeout = cand.empty();
  if (!use_timeout && !timed.empty() && g_mode != 2 &&
      (int)(Rnd() % 100) < g_timeout_pct)
    use_timeout = true;
  if (use_timeout) {
    Thread* t = timed[g_mode == 2 ? 0 : Rnd() % timed.size()];
    t->timed_out = true;
    t->pred = nullptr;
    t->timed = false;
    return t;
  }
  Thread* chosen = cand[0];
  if (cand.size() > 1) {
    if (g_mode == 0) {
      if (!cur_ok || (int)(Rnd() % 100) < g_p)
        chosen = cand[Rnd() % cand.size()];
    } else if (g_mode == 1) {
      for (int64_t c : g_change)
        if (c == g_steps && g_cur) g_cur->prio = g_low--;
      for (Thread* t : cand)
        if (t->prio > chosen->prio) chosen = t;
    } else {
      int k = 0;
      if (g_script_pos < g_script.size()) k = g_script[g_script_pos];
      ++g_script_pos;
      if (k >= (int)cand.size()) k = 0;
      chosen = cand[k];
      g_trace += std::to_string(cand.size()) + ":" + std::to_string(k) + ":" +
                 (cur_ok ? "1 " : "0 ");
    }
  }
  chosen->pred = nullptr;
  chosen->timed = false;
  return chosen;
}

void SwitchTo(Thread* next, Thread* self) {
  if (next == self) return;
  g_cur = next;
  sem_post(&next->sem);
  if (self)
    while (sem_wait(&self->sem) != 0) {
    }
}

using CreateFn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*),
                         void*);
using JoinFn = int (*)(pthread_t, void**);
CreateFn RealCreate() {
  static CreateFn f = nullptr;
  if (!f) f = (CreateFn)dlsym(RTLD_NEXT, "pthread_create");
  return f;
}
JoinFn RealJoin() {
  static JoinFn f = nullptr;
  if (!f) f = (JoinFn)dlsym(RTLD_NEXT, "pthread_join");
  return f;
}

struct Boot {
  void* (*fn)(void*);
  void* arg;
  Thread* self;
};

void* Trampoline(void* p) {
  Boot b = *static_cast<Boot*>(p);
  delete static_cast<Boot*>(p);
  t_self = b.self;
  while (sem_wait(&b.self->sem) != 0) {
  }
  void* r = b.fn(b.arg);
  b.self->finished = true;
  Thread* next = Pick();
  g_cur = next;
  sem_post(&next->sem);
  while (sem_wait(&b.self->exit_sem) != 0) {
  }
  return r;
}
}  // namespace

void Start(const vh::json& cfg) {
  g_rng = cfg.value("seed", 1) * 2654435761u + 88172645463325252ull;
  for (int i = 0; i < 8; ++i) Rnd();
  const std::string mode = cfg.value("mode", "random");
  g_mode = mode == "random" ? 0 : mode == "pct" ? 1 : 2;
  g_p = cfg.value("p", 30);
  g_mem = cfg.value("mem", 0);
  g_limit = cfg.value("limit", 200000);
  g_timeout_pct = cfg.value("timeout_pct", 5);
  if (g_mode == 1) {
    const int len = cfg.value("len", 200);
    for (int i = 0; i < cfg.value("d", 3); ++i)
      g_change.push_back(1 + Rnd() % len);
  }
  if (g_mode == 2) {
    for (int c : cfg["choices"]) g_script.push_back(c);
    vh::SetExplorationTrace([] { return g_trace; });
  }
  ResetMem();
  Thread* t = new Thread;
  t->id = 0;
  t->prio = Rnd() % 1000;
  sem_init(&t->sem, 0, 0);
  t->handle = pthread_self();
  g_threads.push_back(t);
  g_cur = t;
  t_self = t;
  g_active = true;
}

bool Active() { return g_active && t_self != nullptr; }
int Self() { return t_self ? t_self->id : -1; }

void Yield() {
  if (!Active() || g_noyield > 0) return;
  SwitchTo(Pick(), t_self);
}

void MemYield() {
  if (g_mem == 0 || --g_mem_left > 0) return;
  ResetMem();
  Yield();
}

bool BlockUntil(const std::function<bool()>& pred, bool timed) {
  if (!Active()) {
    if (!pred()) abort();
    return true;
  }
  Thread* self = t_self;
  self->timed_out = false;
  self->pred = &pred;
  self->timed = timed;
  SwitchTo(Pick(), self);
  self->pred = nullptr;
  self->timed = false;
  if (self->timed_out) {
    self->timed_out = false;
    return false;
  }
  return true;
}

void (*g_acquire_hook)(const void*) = nullptr;
void SetAcquireHook(void (*f)(const void*)) { g_acquire_hook = f; }
void NoYieldBegin() { ++g_noyield; }
void NoYieldEnd() { --g_noyield; }

}  // namespace vsched

using namespace vsched;

extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a,
                              void* (*fn)(void*), void* arg) {
  if (!Active()) return RealCreate()(t, a, fn, arg);
  Thread* th = new Thread;
  th->id = g_threads.size();
  th->prio = Rnd() % 1000;
  sem_init(&th->sem, 0, 0);
  sem_init(&th->exit_sem, 0, 0);
  g_threads.push_back(th);
  int r = RealCreate()(t, a, Trampoline, new Boot{fn, arg, th});
  if (r != 0) abort();
  th->handle = *t;
  Yield();
  return r;
}

extern "C" int pthread_join(pthread_t t, void** ret) {
  if (Active()) {
    for (Thread* th : g_threads)
      if (th != t_self && pthread_equal(th->handle, t)) {
        BlockUntil([th] { return th->finished; }, false);
        sem_post(&th->exit_sem);
        break;
      }
  }
  return RealJoin()(t, ret);
}

// std::mutex / std::condition_variable and sleeps of managed threads.
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  using Fn = int (*)(pthread_mutex_t*);
  static Fn real = nullptr;
  if (!real) real = (Fn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
  static Fn tryl = nullptr;
  if (!tryl) tryl = (Fn)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  if (!Active() || g_noyield > 0) return real(m);
  int r;
  while ((r = tryl(m)) == 16 /*EBUSY*/) Yield();
  return r;
}

extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  using Fn = int (*)(pthread_cond_t*, pthread_mutex_t*);
  static Fn real = nullptr;
  if (!real) real = (Fn)dlsym(RTLD_NEXT, "pthread_cond_wait");
  if (!Active()) return real(c, m);
  pthread_mutex_unlock(m);
  Yield();
  return pthread_mutex_lock(m);  // a spurious wakeup
}

extern "C" int __cxa_guard_acquire(long long* g) {
  using Fn = int (*)(long long*);
  static Fn real = nullptr;
  if (!real) real = (Fn)dlsym(RTLD_NEXT, "__cxa_guard_acquire");
  int r = real(g);
  if (r && Active()) ++g_noyield;
  return r;
}
extern "C" void __cxa_guard_release(long long* g) {
  using Fn = void (*)(long long*);
  static Fn real = nullptr;
  if (!real) real = (Fn)dlsym(RTLD_NEXT, "__cxa_guard_release");
  real(g);
  if (Active()) --g_noyield;
}
extern "C" int nanosleep(const struct timespec*, struct timespec*) {
  if (Active()) Yield();
  return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*,
                               struct timespec*) {
  if (Active()) Yield();
  return 0;
}
extern "C" int nice(int) { return 10; }
