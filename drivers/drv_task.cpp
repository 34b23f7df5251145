// C24: the monitoring thread run step by step against enable(), disable() and setPeriod() calls placed
// at every one of its accesses and system calls; the operating system's part is simulated.
#include "drv.h"
#include "hook.h"
#include <cstddef>
#include <cassert>
#include <new>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
struct stop_case {};
static void *(*th_fn)(void *); static void *th_arg; static int created;
static int fake_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a);
static int fake_join(pthread_t t, void **r);
static int fake_clock(clockid_t, struct timespec *t);
static int fake_nanosleep(const struct timespec *, struct timespec *);
static int fake_wait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *ts);
static int fake_lock(pthread_mutex_t *), fake_unlock(pthread_mutex_t *);
#define clock_gettime fake_clock
#define nanosleep fake_nanosleep
#define usleep(a) fake_nanosleep(0, 0)
#define sched_yield() fake_nanosleep(0, 0)
#define pthread_create fake_create
#define pthread_join fake_join
#define pthread_cond_timedwait fake_wait
#define pthread_mutex_lock fake_lock
#define pthread_mutex_unlock fake_unlock
#define private public
#define protected public
#include <periodicmonitor.h>
#undef private
#undef protected
#undef clock_gettime
#undef nanosleep
#undef usleep
#undef sched_yield
#undef pthread_create
#undef pthread_join
#undef pthread_cond_timedwait
#undef pthread_mutex_lock
#undef pthread_mutex_unlock

static void body();
struct mon_t : public RTML_monitor<'m', 'o', 'n'> {
  mon_t(useconds_t p) : RTML_monitor<'m', 'o', 'n'>(p) {}
  mon_t(useconds_t p, unsigned a, unsigned b) : RTML_monitor<'m', 'o', 'n'>(p, a, b) {}
  void run() { body(); }
};
typedef long long ll;
static const ll G = 1000000000LL;
static mon_t *M;
static int step_no, waits, bodies, lockd, late;
static bool en, dis, disb, enb, woke, retry, dset, err;
static ll vt, dl, start[3]; static int nf;
static std::vector<useconds_t> periods;       // in force since the last deadline was computed
struct act { int at; char what; useconds_t p; };
static std::vector<act> plan;
static unsigned spurious; static int failing;

static void doing(const act &a) {
  if (a.what == 'E') { h("  [step %d] enable()\n", step_no); M->enable(); en = true; }
  else if (a.what == 'D') { h("  [step %d] disable()\n", step_no); M->disable(); dis = true; }
  else { h("  [step %d] setPeriod(%u)\n", step_no, a.p); M->setPeriod(a.p); periods.push_back(a.p); CHECK(M->getPeriod() == a.p, "getPeriod does not return the period just set"); }
}
static void step() {
  bool was = hook_armed;
  hook_armed = false;
  for (auto &a : plan) if (a.at == step_no) doing(a);
  step_no++;
  if (disb && ++late > 200) fail("the task goes on after a stop was requested");
  hook_armed = was;
}
static void on_access(void *p, int n, char k) {
  char *st = (char *)&M->_task.st, *pe = (char *)&M->_task.period;
  if (((char *)p + n > st && (char *)p < st + sizeof(status)) || ((char *)p + n > pe && (char *)p < pe + sizeof(useconds_t))) step();
}
struct quiet { bool w; quiet() : w(hook_armed) { hook_armed = false; } ~quiet() { hook_armed = w; } };
static int fake_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a) {
  created++; th_fn = f; th_arg = a;
  CHECK(((task *)a)->st == UNACTIVATE, "the thread is created while the task's status is %d", (int)((task *)a)->st);
  *t = (pthread_t)0x5aa5123412345678ULL;
  return 0;
}
static int join_result, joins; static pthread_t joined;
static int fake_join(pthread_t t, void **r) { joins++; joined = t; if (r && !join_result) *r = (void *)1; return join_result; }
static void check_join() {
  static const int rs[] = {0, EINVAL, ESRCH, EDEADLK};
  for (int k = 0; k < 4; k++) {
    join_result = rs[k]; joins = 0;
    int r = M->join();
    CHECK(joins == 1 && joined == (pthread_t)0x5aa5123412345678ULL, "join waits for another thread");
    CHECK((r == 0) == (join_result == 0), "join returns %d, pthread_join returned %d", r, join_result);
  }
}
static int fake_clock(clockid_t, struct timespec *t) {
  quiet q;
  step();
  vt += 1 + rnd(3000);
  t->tv_sec = vt / G; t->tv_nsec = vt % G;
  h("clock: %lld.%09lld\n", vt / G, vt % G);
  if (en) { if (!nf) start[0] = vt; start[2] = start[1]; start[1] = vt; if (nf < 2) nf++; }
  return 0;
}
static int fake_nanosleep(const struct timespec *, struct timespec *) {
  quiet q;
  step();
  h("sleep before the start\n");
  CHECK(!M->isRunning(), "isRunning before the start");
  CHECK(!enb, "enabled before the last sleep, the task does not start");
  CHECK(!disb, "stopped before the last sleep, the task does not end");
  step();
  disb = dis; enb = en;
  if (step_no > 60) throw stop_case();
  return 0;
}
static int fake_lock(pthread_mutex_t *) { CHECK(!lockd, "the lock is taken twice"); lockd = 1; return 0; }
static int fake_unlock(pthread_mutex_t *) { CHECK(lockd, "the lock is released without being held"); lockd = 0; return 0; }
static bool running_ok() { return M->isRunning() == !dis; }
static int fake_wait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *ts) {
  quiet q;
  step();
  h("wait until %ld.%09ld\n", (long)ts->tv_sec, (long)ts->tv_nsec);
  CHECK(en, "the task runs before enable");
  CHECK(lockd, "wait without the lock");
  CHECK(retry || !disb, "another period after a stop request");
  CHECK(retry || !woke, "the body did not run for the previous deadline");
  CHECK(running_ok(), "isRunning is %d", (int)M->isRunning());
  CHECK(ts->tv_nsec >= 0 && ts->tv_nsec < G, "deadline out of range");
  ll d = (ll)ts->tv_sec * G + ts->tv_nsec;
  bool ok = false;
  if (retry) ok = d == dl;
  else for (useconds_t p : periods) {
    if (dset) ok = ok || d == dl + (ll)p * 1000;
    else for (int k = 0; k < 3; k++) ok = ok || (nf && (k < 2 || nf == 2) && d == start[k] + (ll)p * 1000);
  }
  CHECK(ok, "the deadline is %lld.%09lld, the previous one %lld.%09lld, the period %u us", d / G, d % G, dset ? dl / G : start[0] / G, dset ? dl % G : start[0] % G, (unsigned)periods.back());
  dl = d; dset = true;
  periods.assign(1, M->getPeriod());
  step();
  if (++waits > 12) throw stop_case();
  if (spurious & 1) { spurious >>= 1; retry = true; h("  woken before the deadline\n"); return 0; }
  spurious >>= 1;
  if (failing && waits == failing) { err = true; h("  wait fails\n"); return EPERM; }
  if (vt < d) vt = d + rnd(2000);
  if (rnd(5) == 0) vt += rnd(3) * G;
  retry = false; woke = true; disb = dis;
  h("  deadline reached%s\n", dis ? " (stop requested)" : "");
  return ETIMEDOUT;
}
static void body() {
  quiet q;
  step();
  h("body\n");
  CHECK(en, "the body runs before enable");
  CHECK(!disb, "the body runs after a stop was requested");
  CHECK(woke, "the body runs twice for one deadline");
  CHECK(running_ok(), "isRunning is %d in the body", (int)M->isRunning());
  CHECK(!lockd, "the body runs with the lock held");
  woke = false; bodies++;
  periods.assign(1, M->getPeriod());
  step();
}
static char room[sizeof(mon_t) + 64] __attribute__((aligned(64)));
static void one(useconds_t period, bool prio) {
  memset(room, rnd(2) ? 0xff : 0, sizeof room);
  created = step_no = waits = bodies = lockd = late = nf = 0;
  en = dis = disb = enb = woke = retry = dset = err = false;
  vt = rnd(4) == 0 ? 2 * G - 1000 : (ll)rnd(1ULL << 60) % (1700000000LL * G);
  M = (mon_t *)room;
  h("period %u\n", (unsigned)period);
  if (prio) new (room) mon_t(period, (unsigned)SCHED_OTHER, 0u); else new (room) mon_t(period);
  CHECK(created == 1, "%d threads created", created);
  CHECK(th_arg == (void *)&M->_task, "the thread is given another task");
  CHECK(M->getPeriod() == period, "the period is %u", (unsigned)M->getPeriod());
  CHECK(!M->isRunning(), "running before enable");
  CHECK(!memcmp(M->id, "mon", 3), "id");
  check_join();
  hook_ranges = 0; hook_fn = on_access;
  hook_range(&M->_task, sizeof M->_task);
  periods.assign(1, period);
  try {
    hook_armed = true;
    th_fn(th_arg);
    hook_armed = false;
    h("thread ended\n");
    CHECK(dis || err, "the task ends though no stop was requested");
    CHECK(!dis || !M->isRunning(), "isRunning after the end");
    act late[] = {{0, 'E', 0}, {0, 'D', 0}, {0, 'E', 0}};
    if (dis) for (auto &a : late) { doing(a); CHECK(!M->isRunning(), "isRunning after the end"); }
  } catch (stop_case &) { hook_armed = false; }
}
int main(int argc, char **argv) {
  drv_start(argc, argv);
  static const useconds_t ps[] = {0, 1, 999, 1000, 500000, 999999, 1000000, 1000001, 2500000, 60000000, 4294967295u};
  for (int e = 0; e < 24 && !spent(0.5); e++)
    for (int d = -1; d < 40; d++)
      for (int s = 0; s < 3; s++) {
        begin();
        plan.clear();
        plan.push_back(act{e, 'E', 0});
        if (d >= 0) plan.insert(rnd(2) ? plan.begin() : plan.end(), act{d, 'D', 0});
        spurious = s == 2 ? rnd(8) : s; failing = 0;
        one(ps[rnd(11)], rnd(2));
      }
  for (int d = 0; d < 12; d++) { begin(); plan.clear(); plan.push_back(act{d, 'D', 0}); spurious = 0; failing = 0; one(1000, d & 1); }
  begin(); plan.clear(); one(1000, false);
  while (!spent(THOROUGH ? 1.0 : 0.5)) {
    begin();
    plan.clear();
    int n = 1 + rnd(8);
    for (int k = 0; k < n; k++) {
      int w = rnd(8);
      plan.push_back(act{(int)rnd(48), w < 2 ? 'E' : w < 3 ? 'D' : 'P', rnd(2) ? ps[rnd(11)] : (useconds_t)rnd(1ULL << 32)});
    }
    if (rnd(4)) plan.push_back(act{(int)rnd(6), 'E', 0});
    spurious = rnd(3) ? 0 : rnd(64); failing = rnd(6) ? 0 : 1 + rnd(4);
    one(ps[rnd(11)], rnd(2));
  }
  return drv_end();
}
