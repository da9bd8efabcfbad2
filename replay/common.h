// Support for the executable contracts: seeded cases, failure reports, expected refusals.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <random>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
namespace rp {
static char g_case[4096];
static uint64_t g_cases = 0;
static double g_secs = 10;
static std::mt19937_64 g_rng(1);
static timespec g_t0;
inline double elapsed() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec - g_t0.tv_sec + (t.tv_nsec - g_t0.tv_nsec) * 1e-9; }
inline bool more(double frac = 1.0) { return elapsed() < g_secs * frac; }
inline void put(const char* s) { size_t n = strlen(s); while (n) { ssize_t k = ::write(1, s, n); if (k <= 0) return; s += k; n -= k; } }
inline void onsig(int s) {
  put("CASE "); put(g_case); put("\nFAIL ");
  put(s == SIGALRM ? "no progress (deadlock or endless loop)" : s == SIGABRT ? "unexpected abort" : "crash (signal)");
  put("\n"); _exit(3);
}
template <class... A> inline void CASE(const char* fmt, A... a) { ++g_cases; snprintf(g_case, sizeof g_case, fmt, a...); }
inline void CASE(const char* s) { ++g_cases; snprintf(g_case, sizeof g_case, "%s", s); }
inline void CASES(const std::string& s) { ++g_cases; snprintf(g_case, sizeof g_case, "%s", s.c_str()); }
inline void fail(const std::string& m) { put("CASE "); put(g_case); put("\nFAIL "); put(m.c_str()); put("\n"); _exit(3); }
#define EXPECT(c, msg) do { if (!(c)) rp::fail(std::string(msg) + " [" #c "]"); } while (0)
inline uint64_t rnd() { return g_rng(); }
inline uint64_t rnd(uint64_t lo, uint64_t hi) { return lo + g_rng() % (hi - lo + 1); }
inline int64_t rndi(int64_t lo, int64_t hi) { return lo + (int64_t)(g_rng() % (uint64_t)(hi - lo + 1)); }
inline double rndd(double lo, double hi) { return lo + (hi - lo) * (double)(g_rng() >> 11) / 9007199254740992.0; }
// Outcome of f in a child process: 0 returned, 1 refused (abort or exception), 2 crash/sanitizer report, 3 hang.
inline int outcome(const std::function<void()>& f, int secs = 20) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(secs);
    if (!freopen("/dev/null", "w", stderr)) {}
    try { f(); } catch (...) { _exit(77); }
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st) == 0 ? 0 : WEXITSTATUS(st) == 77 ? 1 : 2;
  if (WTERMSIG(st) == SIGABRT) return 1;
  if (WTERMSIG(st) == SIGALRM) return 3;
  return 2;
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void ondeath() { put("CASE "); put(g_case); put("\n"); }
inline bool refused(const std::function<void()>& f) { return outcome(f) == 1; }
inline void init(int argc, char** argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  g_secs = argc > 2 ? atof(argv[2]) : 10;
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(ondeath);
  g_rng.seed(seed); clock_gettime(CLOCK_MONOTONIC, &g_t0);
  signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig); signal(SIGALRM, onsig);
  alarm((unsigned)(g_secs * 3 + 45));
}
inline int done() { printf("CASES %llu\n", (unsigned long long)g_cases); fflush(stdout); _exit(0); }
}  // namespace rp
