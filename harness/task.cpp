// Verification harness for the periodic monitor. Only instantiates and wraps
// the real headers. The operating system's side (pthread_*, nanosleep,
// clock_gettime) and the monitor's body are external.
#include <cstddef>
#include <cassert>
#include <cstring>
#include <new>
#include <unistd.h>
#include <periodicmonitor.h>

#define K(name, val) extern "C" { extern const unsigned long name; const unsigned long name = (val); }

extern "C" void vf_body(void *);

struct mon_t : public RTML_monitor<'m', 'o', 'n'> {
  mon_t(const useconds_t p) : RTML_monitor<'m', 'o', 'n'>(p) {}
  mon_t(const useconds_t p, unsigned int pol, unsigned int prio) : RTML_monitor<'m', 'o', 'n'>(p, pol, prio) {}
  void run();
};
void mon_t::run() { vf_body(this); }

K(sz_monitor, sizeof(mon_t))
K(off_task, offsetof(mon_t, _task))
K(off_st, offsetof(mon_t, _task.st))
K(off_thread, offsetof(mon_t, _task.thread))
K(off_period, offsetof(mon_t, _task.period))
K(st_ACTIVATE, ACTIVATE)
K(st_UNACTIVATE, UNACTIVATE)
K(st_RUNNING, RUNNING)
K(st_ABORT, ABORT)
K(st_ABORTED, ABORTED)
K(k_ETIMEDOUT, ETIMEDOUT)

extern "C" {
void vf_mon_ctor(void *p, useconds_t period) { new (p) mon_t(period); }
void vf_mon_ctor_prio(void *p, useconds_t period, unsigned pol, unsigned prio) { new (p) mon_t(period, pol, prio); }
int vf_mon_enable(mon_t *m) { return m->enable(); }
int vf_mon_disable(mon_t *m) { return m->disable(); }
int vf_mon_isRunning(const mon_t *m) { return m->isRunning(); }
useconds_t vf_mon_getPeriod(const mon_t *m) { return m->getPeriod(); }
void vf_mon_setPeriod(mon_t *m, const useconds_t *p) { m->setPeriod(*p); }
int vf_mon_join(mon_t *m) { return m->join(); }
}
