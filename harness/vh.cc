#include "vh.h"

#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <vector>
#include <array>

#include "glog/logging.h"

namespace vh {
namespace {
int g_fd = -1;
std::function<std::string()> g_explore;

void WriteAll(int fd, const std::string& s) {
  size_t n = 0;
  while (n < s.size()) {
    ssize_t r = write(fd, s.data() + n, s.size() - n);
    if (r < 0) {
      if (errno == EINTR) continue;
      _exit(97);
    }
    n += r;
  }
}

struct Result {
  std::vector<std::string> lines;
  std::string explore;
};

// A process forked before anything else happened. It forks one child per run
// and does not touch the heap in between, so every child starts from the same
// memory image whatever ran before: a run depends on its scenario only.
char g_buf[64 << 20];
int g_req[2], g_resp[2];

bool ReadAll(int fd, char* p, size_t n) {
  while (n > 0) {
    ssize_t r = read(fd, p, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    p += r;
    n -= r;
  }
  return true;
}

void RawWrite(int fd, const char* p, size_t n) {
  while (n > 0) {
    ssize_t r = write(fd, p, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) _exit(98);
    p += r;
    n -= r;
  }
}

void Zygote(const Handler& handler, const Options& options) {
  sigset_t set, old;
  sigemptyset(&set);
  sigaddset(&set, SIGCHLD);
  sigprocmask(SIG_BLOCK, &set, &old);
  uint32_t len;
  while (ReadAll(g_req[0], (char*)&len, 4)) {
    if (len >= sizeof g_buf || !ReadAll(g_req[0], g_buf, len)) _exit(96);
    g_buf[len] = 0;
    int err = memfd_create("stderr", 0);
    pid_t pid = fork();
    if (pid < 0) _exit(95);
    if (pid == 0) {
      sigprocmask(SIG_SETMASK, &old, nullptr);
      close(g_req[0]);
      g_fd = g_resp[1];
      if (err >= 0) dup2(err, 2);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      {
        json scenario = json::parse(g_buf);
        handler(scenario);
      }
      Finish(json());
    }
    timespec ts{options.timeout_ms / 1000, (options.timeout_ms % 1000) * 1000000l};
    int status = 0;
    bool hang = false;
    for (;;) {
      pid_t w = waitpid(pid, &status, WNOHANG);
      if (w == pid) break;
      if (sigtimedwait(&set, nullptr, &ts) < 0 && errno == EAGAIN) {
        if (waitpid(pid, &status, WNOHANG) == pid) break;
        hang = true;
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        break;
      }
    }
    char line[700];
    if (hang) {
      strcpy(line, "\n!H\n");
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
      strcpy(line, "\n!O\n");
    } else {
      int n = snprintf(line, sizeof line, "\n!C %d ",
                       WIFSIGNALED(status) ? WTERMSIG(status) : -WEXITSTATUS(status));
      int m = err >= 0 ? pread(err, line + n, 300, 0) : 0;
      for (int i = 0; i < m; ++i)
        if (line[n + i] < 32 || line[n + i] > 126) line[n + i] = ' ';
      if (m < 0) m = 0;
      line[n + m] = '\n';
      line[n + m + 1] = 0;
    }
    if (err >= 0) close(err);
    RawWrite(g_resp[1], line, strlen(line));
  }
  _exit(0);
}

void StartZygote(const Handler& handler, const Options& options) {
  if (pipe(g_req) != 0 || pipe(g_resp) != 0) abort();
  pid_t pid = fork();
  if (pid < 0) abort();
  if (pid == 0) {
    close(g_req[1]);
    close(g_resp[0]);
    Zygote(handler, options);
  }
  close(g_req[0]);
  close(g_resp[1]);
}

Result RunChild(const json& scenario, const Handler& handler,
                const Options& options) {
  const std::string req = scenario.dump();
  const uint32_t len = req.size();
  RawWrite(g_req[1], (const char*)&len, 4);
  RawWrite(g_req[1], req.data(), len);
  static std::string buf;
  Result res;
  for (;;) {
    size_t nl;
    while ((nl = buf.find('\n')) == std::string::npos) {
      static char tmp[1 << 16];
      ssize_t n = read(g_resp[0], tmp, sizeof tmp);
      if (n < 0 && errno == EINTR) continue;
      if (n <= 0) {
        fprintf(stderr, "zygote died\n");
        exit(4);
      }
      buf.append(tmp, n);
    }
    // Consume all complete lines.
    size_t pos = 0;
    bool done = false;
    while (!done && (nl = buf.find('\n', pos)) != std::string::npos) {
      std::string line = buf.substr(pos, nl - pos);
      pos = nl + 1;
      if (line.empty()) continue;
      if (line[0] == '#') {
        res.explore = line.substr(1);
      } else if (line[0] == '!') {
        done = true;
        if (line[1] == 'H') {
          res.lines.push_back("{\"e\":\"Hang\"}");
        } else if (line[1] == 'C') {
          int sig = 0, used = 0;
          sscanf(line.c_str() + 2, "%d%n", &sig, &used);
          json e = {{"e", "Crash"}, {"sig", sig}, {"msg", line.substr(2 + used)}};
          res.lines.push_back(e.dump());
        }
      } else if (line[0] == '{' && line.back() == '}') {
        res.lines.push_back(line);
      }  // else: an event cut short by the crash
    }
    buf.erase(0, pos);
    if (done) return res;
  }
}

void Output(const json& scenario, const Result& r, std::ostream& out) {
  out << "{\"id\":" << scenario.value("id", 0) << ",\"in\":" << scenario.dump()
      << ",\"ev\":[";
  bool first = true;
  for (const auto& l : r.lines) {
    if (!first) out << ",";
    first = false;
    out << l;
  }
  out << "]}\n";
}
}  // namespace

void Emit(const json& event) {
  std::string s = event.dump();
  s += '\n';
  WriteAll(g_fd, s);
}

void SetExplorationTrace(std::function<std::string()> f) { g_explore = f; }

void Finish(const json& event) {
  if (!event.is_null()) Emit(event);
  if (g_explore) WriteAll(g_fd, "#" + g_explore() + "\n");
  _exit(0);
}

// Scenario field "sched": {"mode":"dfs","bound":B,"max":N} asks for a
// preemption-bounded exhaustive exploration of schedules: the child reports
// its choice sequence as "n:c:p ..." (number of enabled threads, index chosen,
// whether the running thread was enabled); the parent enumerates.
int Main(int argc, char** argv, const Handler& handler, Options options) {
  // Fixed addresses make containers ordered or hashed by address repeatable.
  if (!getenv("VH_NOASLR")) {
    setenv("VH_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  mallopt(M_ARENA_MAX, 1);
  google::InitGoogleLogging(argv[0]);
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = 3;
  if (argc < 3) {
    fprintf(stderr, "usage: %s scenarios.ndjson traces.ndjson\n", argv[0]);
    return 2;
  }
  StartZygote(handler, options);
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    json s = json::parse(line);
    if (s.contains("sched") && s["sched"].value("mode", "") == "dfs") {
      const int bound = s["sched"].value("bound", 2);
      const int max_runs = s["sched"].value("max", 1000);
      std::vector<std::vector<int>> stack = {{}};
      std::set<std::string> seen;
      int runs = 0;
      while (!stack.empty() && runs < max_runs) {
        std::vector<int> prefix = stack.back();
        stack.pop_back();
        json sc = s;
        sc["sched"] = {{"mode", "script"}, {"choices", prefix}};
        Result r = RunChild(sc, handler, options);
        ++runs;
        // Parse the exploration trace.
        std::vector<std::array<int, 3>> ch;
        const char* c = r.explore.c_str();
        int n, k, pr, used;
        while (sscanf(c, "%d:%d:%d%n", &n, &k, &pr, &used) == 3) {
          ch.push_back({n, k, pr});
          c += used;
        }
        int preempt = 0;
        std::vector<int> chosen;
        for (size_t i = 0; i < ch.size(); ++i) {
          if (i >= prefix.size()) {
            for (int alt = ch[i][0] - 1; alt >= 1; --alt) {
              // choice 0 is the default (continue with the running thread).
              int cost = preempt + (ch[i][2] ? 1 : 0);
              if (cost > bound) continue;
              std::vector<int> np = chosen;
              np.push_back(alt);
              stack.push_back(np);
            }
          }
          if (ch[i][1] != 0 && ch[i][2]) ++preempt;
          chosen.push_back(ch[i][1]);
        }
        std::string all;
        for (auto& l : r.lines) all += l + "\n";
        if (seen.insert(all).second) {
          sc["sched"]["choices"] = chosen;
          Output(sc, r, out);
        }
      }
      json st = {{"id", s.value("id", 0)},
                 {"dfs_runs", runs},
                 {"dfs_complete", stack.empty()}};
      std::cout << st.dump() << "\n";
    } else {
      Result r = RunChild(s, handler, options);
      Output(s, r, out);
    }
  }
  return 0;
}
}  // namespace vh
