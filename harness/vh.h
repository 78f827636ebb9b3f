// Shared support of the replay / bounded stand-in harnesses: they drive the real, freshly compiled code and compare
// it with an executable reading of the property.  A case that fails is a concrete failing input.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <memory>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <limits>
#include <random>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vh {
static char g_case[4096] = "startup";
static bool g_done = false, g_child = false;
static long g_evals = 0, g_fail = 0;
static std::set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static std::set<std::string> g_known;
static unsigned long g_seed = 1;
static bool g_thorough = false;
static int g_scale = 1;
static std::string g_scratch;
static int g_limit = 30;

inline void say(const char* tag, const char* msg) {
  char buf[9000];
  int n = snprintf(buf, sizeof buf, "\n@@%s@@ case: %s :: %s\n", tag, g_case, msg);
  if (n > (int)sizeof buf) n = sizeof buf;
  ssize_t r = write(1, buf, n); (void)r;
}
inline void on_death() { if (!g_done && !g_child) { say("FAIL", "sanitizer error (memory error in the code under test)"); } }
inline void on_alarm(int) { if (!g_child) say("FAIL", "does not terminate"); _exit(3); }
inline void on_term() { if (!g_child) say("FAIL", "uncaught exception / abort"); _exit(3); }
inline void on_exit_h() { if (!g_done && !g_child) { say("FAIL", "process exited inside the code under test"); fflush(stdout); _exit(3); } }
inline void on_sig(int s) { if (!g_child) { char m[64]; snprintf(m, 64, "killed by signal %d", s); say("FAIL", m); } _exit(3); }

inline void init(int argc, char** argv) {
  const char* s = getenv("VERIF_SEED"); if (s) g_seed = strtoul(s, 0, 10);
  const char* t = getenv("VERIF_TIER"); g_thorough = t && !strcmp(t, "thorough");
  const char* sc = getenv("VH_SCALE"); if (sc) g_scale = atoi(sc);
  if (g_thorough) g_scale *= 8;
  const char* d = getenv("VH_SCRATCH"); g_scratch = d ? d : "/tmp";
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  signal(SIGALRM, on_alarm); signal(SIGABRT, on_sig); signal(SIGFPE, on_sig);
  std::set_terminate(on_term);
  atexit(on_exit_h);
  (void)argc; (void)argv;
}
inline uint64_t hsh(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }
inline void begin(const std::string& desc, bool nontrivial = true) {
  snprintf(g_case, sizeof g_case, "%s", desc.c_str());
  g_evals++;
  if (nontrivial) { if (g_distinct.insert(hsh(g_case)).second && (g_samples.size() < 3 || (g_evals % 997 == 0 && g_samples.size() < 8))) g_samples.push_back(desc); }
  alarm(g_limit);
}
inline void fail(const std::string& msg) {
  say("FAIL", msg.c_str()); g_fail++;
  if (g_fail >= 5) { g_done = true; fflush(stdout); _exit(2); }
}
inline bool check(bool ok, const std::string& msg) { if (!ok) fail(msg); return ok; }
inline void known(const std::string& id, const std::string& msg) {
  if (g_known.insert(id).second) say(("KNOWN:" + id).c_str(), msg.c_str());
}
inline std::string str(const char* f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline bool close(double a, double b, double tol = 1e-4) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  double m = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
  return std::fabs(a - b) <= tol * m;
}
// relative-to-magnitude comparison for sums: scale = sum of |terms|
inline bool close_sum(double a, double b, double scale, double tol = 1e-5) { return a == b || std::fabs(a - b) <= tol * (scale + 1e-6); }
struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s = 0) : g(s * 7919 + g_seed * 1000003 + 17) {}
  uint64_t u() { return g(); }
  int i(int lo, int hi) { return lo + (int)(g() % (uint64_t)(hi - lo + 1)); }
  double f(double lo = -1, double hi = 1) { return lo + (hi - lo) * ((g() >> 11) * (1.0 / 9007199254740992.0)); }
  bool b(double p = 0.5) { return f(0, 1) < p; }
  int d(int hi, bool big = true) { int k = i(0, 999); return big && k < 4 ? i(200, 300) : big && k < 40 ? i(hi, 45) : i(1, hi); }   // a dimension: mostly small, now and then large
  // one of several dimensions whose product stays below the budget: mostly small, now and then large
  int d(int hi, double& budget) { int k = d(hi, budget >= 2000); if (k > budget) k = 1; budget /= k; return k; }
  float q() { return (float)(i(-64, 64)) / 8.0f; }   // exactly representable, ties happen
};
// run f in a child; returns wait status; child output is discarded
inline int in_child(const std::function<void()>& f, int secs = 20) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    g_child = true;
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
    alarm(secs);
    f();
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  return st;
}
inline bool child_ok(int st) { return WIFEXITED(st) && WEXITSTATUS(st) == 0; }
inline int finish() {
  g_done = true; alarm(0);
  std::string o = "\n@@STATS@@ {\"evaluations\": " + std::to_string(g_evals) + ", \"distinct\": " + std::to_string(g_distinct.size()) + ", \"samples\": [";
  for (size_t k = 0; k < g_samples.size(); k++) {
    std::string e; for (char c : g_samples[k]) { if (c == '"' || c == '\\') e += '\\'; if ((unsigned char)c >= 32) e += c; }
    o += (k ? ", \"" : "\"") + e + "\"";
  }
  o += "]}\n";
  fputs(o.c_str(), stdout); fflush(stdout);
  return g_fail ? 2 : 0;
}
}
#include <cstdarg>
