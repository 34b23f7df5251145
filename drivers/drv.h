// Common part of the concrete drivers: a history that is printed when the code under test
// departs from the reference model, a watchdog, a seeded generator and a time budget.
#ifndef DRV_H
#define DRV_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <sanitizer/asan_interface.h>

extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99"; }
static std::string H; // history of the current case
static const char *PROP = "?";
static FILE *OUT = stdout; // the report; at a debug level the library itself writes on stdout
static bool THOROUGH = false;
static unsigned long cases = 0;
static double T0, BUDGET;
static uint64_t rs;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static uint64_t rnd() {
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return rs * 0x2545F4914F6CDD1DULL;
}
static uint64_t rnd(uint64_t n) { return rnd() % n; }
static void h(const char *f, ...) {
  char b[512];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (H.size() < 200000) H += b;
}
static void fail(const char *f, ...) {
  char b[1024];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  fprintf(OUT, "FAIL %s: %s\nhistory:\n%s\n", PROP, b, H.c_str());
  fflush(OUT);
  _exit(1);
}
static void on_death() {
  fprintf(OUT, "\nFAIL %s: invalid memory access in the code under test\nhistory:\n%s\n", PROP, H.c_str());
  fflush(OUT);
}
static volatile unsigned long wd_cases = ~0ul;
static int wd_same = 0;
static void on_alarm(int) {
  if (cases == wd_cases) {
    if (++wd_same >= 3) {
      fprintf(OUT, "FAIL %s: the code under test does not return\nhistory:\n%s\n", PROP, H.c_str());
      fflush(OUT);
      _exit(1);
    }
  } else { wd_same = 0; wd_cases = cases; }
  alarm(5);
}
static void on_crash(int s) {
  fprintf(OUT, "FAIL %s: signal %d in the code under test\nhistory:\n%s\n", PROP, s, H.c_str());
  fflush(OUT);
  _exit(1);
}
static void begin() { H.clear(); cases++; }
static bool spent(double part = 1.0) { return now() - T0 > BUDGET * part; }
static int drv_start(int argc, char **argv) {
  PROP = argv[1];
  THOROUGH = argc > 2 && !strcmp(argv[2], "thorough");
  rs = (argc > 3 ? strtoull(argv[3], 0, 10) : 1) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
  BUDGET = argc > 4 ? atof(argv[4]) : 40;
  T0 = now();
#if defined(RTMLIB_DEBUG) && RTMLIB_DEBUG > 0
  OUT = fdopen(dup(1), "w");
  if (!OUT || !freopen("/dev/null", "w", stdout)) _exit(98);
#endif
  setvbuf(OUT, 0, _IOFBF, 1 << 16);
#ifdef __SANITIZE_ADDRESS__
  __asan_set_death_callback(on_death);
#else
  signal(SIGSEGV, on_crash);
  signal(SIGBUS, on_crash);
#endif
  signal(SIGALRM, on_alarm);
  signal(SIGFPE, on_crash);
  signal(SIGILL, on_crash);
  signal(SIGABRT, on_crash);
  alarm(5);
  return 0;
}
static int drv_end() {
  alarm(0);
  fprintf(OUT, "OK %s cases=%lu %.1f s\n", PROP, cases, now() - T0);
  fflush(OUT);
  _exit(0);
}
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
#endif
