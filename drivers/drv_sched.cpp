// C05: pushes of several writers run step by step against each other: a scheduler decides at every
// access of the shared objects which push goes on; the record published, the slot written and the value
// returned are compared with what the page held at the moment it was replaced.
#include "drv.h"
#include "hook.h"
#include <new>
#include <sched.h>
#include <ucontext.h>
static int fake_yield();
static int fake_clock(clockid_t, struct timespec *t);
#define clock_gettime fake_clock
#define sched_yield fake_yield
#define private public
#define protected public
#include <event.h>
#include <circularbuffer.h>
#include <writer.h>
#undef private
#undef protected
#undef clock_gettime
#undef sched_yield

typedef Event<int> E;
static const int MAXW = 4;
struct done_case {};
struct push_t { bool all, out; E e; int stamped; };
static ucontext_t main_ctx, ctx[MAXW];
static char *stacks[MAXW];
static int writers, cur, alive;
static bool ended[MAXW];
static unsigned sw_num, sw_den;
static unsigned long steps, limit;
static std::vector<int> script;         // run lengths, writer by writer; afterwards random
static size_t script_at; static int script_left;
static int burst;
static unsigned long long vclock;

static int pick() {
  int k = (int)rnd(writers);
  while (ended[k]) k = (k + 1) % writers;
  return k;
}
static void go(int k) {
  if (k == cur) return;
  int was = cur;
  cur = k;
  swapcontext(&ctx[was], &ctx[k]);
}
static void reschedule(bool must) {
  if (++steps > limit) fail("the pushes do not come to an end (%lu steps)", steps);
  if (script_at < script.size()) {
    if (!must && script_left-- > 0) return;
    script_at++;
    script_left = script_at < script.size() ? script[script_at] : 0;
    int k = (cur + 1) % writers;
    while (ended[k]) k = (k + 1) % writers;
    go(k);
    return;
  }
  if (must || rnd(sw_den) < sw_num) go(pick());
}
static int fake_yield() {
  bool was = hook_armed;
  hook_armed = false;
  if (was) { h("w%d: waits\n", cur); reschedule(true); }
  hook_armed = was;
  return 0;
}
static int fake_clock(clockid_t, struct timespec *t) {
  bool was = hook_armed;
  hook_armed = false;
  vclock += 1 + rnd(3);
  t->tv_sec = vclock / 1000000000; t->tv_nsec = vclock % 1000000000;
  hook_armed = was;
  return 0;
}

template <size_t N> struct world {
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef typename B::state_t S;
  static world *me;
  struct { char pad0[64]; char b[sizeof(B)] __attribute__((aligned(64))); char w[MAXW][(sizeof(W) + 63) / 64 * 64] __attribute__((aligned(64))); char pad1[64]; } room;
  B &b() { return *(B *)room.b; }
  W &w(int k) { return *(W *)room.w[k]; }
  std::vector<push_t> todo[MAXW];
  // what the push under way of each writer has done
  int published[MAXW]; size_t slot[MAXW]; bool discards[MAXW];
  page_t page;                       // as last seen
  std::deque<E> model;               // retained events, oldest first
  E now_pushing[MAXW];
  std::vector<int> order; std::vector<size_t> order_slot;
  static S *rec(const page_t &p) { return (S *)p.stateref; }
  page_t peek() { page_t p; memcpy(&p, (void *)&b().page, sizeof p); return p; }
  static size_t inc(size_t i) { return i + 1 > N ? 0 : i + 1; }
  bool in(void *p, int n, void *q, size_t m) { return (char *)p + n > (char *)q && (char *)p < (char *)q + m; }
  const char *owner(S *r) {
    static char s[32];
    if (r == &b().state_global) return "the buffer";
    for (int k = 0; k < writers; k++) if (in(r, 1, room.w[k], sizeof(W))) { sprintf(s, "w%d", k); return s; }
    return "nobody";
  }

  void access(void *p, int n, char kind) {
    reschedule(false);
    int k = cur;
    if (kind == 'r' || kind == 'l') return;
    page_t pg = peek();
    if (in(p, n, (void *)&b().page, sizeof(page_t))) {
      if (kind == 'w') fail("w%d writes the page other than atomically", k);
      return;
    }
    S *r = rec(pg);
    if (in(p, n, r, sizeof(S))) fail("w%d writes into the record published (of %s)", k, owner(r));
    if (in(p, n, &b().state_global, sizeof(S))) fail("w%d writes into the buffer's record", k);
    for (int j = 0; j < writers; j++)
      if (j != k && in(p, n, room.w[j], sizeof(W))) fail("w%d writes into w%d", k, j);
    if (in(p, n, &b().array[0], sizeof b().array)) {
      size_t i = ((char *)p - (char *)&b().array[0]) / sizeof(E);
      h("w%d: stores in slot %zu\n", k, i);
      if (!published[k]) fail("w%d stores in slot %zu before it has published", k, i);
      if (i != slot[k] || ((char *)p - (char *)&b().array[0]) % sizeof(E) + n > sizeof(E)) fail("w%d stores in slot %zu, its publication reserved slot %zu", k, i, slot[k]);
      return;
    }
    if (in(p, n, room.b, sizeof(B))) fail("w%d writes into the buffer at offset %ld", k, (long)((char *)p - room.b));
  }
  void wrote(void *p, int n) {
    if (!in(p, n, (void *)&b().page, sizeof(page_t))) return;
    int k = cur;
    page_t nw = peek();
    S *o = rec(page), *r = rec(nw);
    bool own = (char *)r >= room.w[k] && (char *)r + sizeof(S) <= room.w[k] + sizeof(W);
    if (!own) fail("w%d publishes a record that is not its own (of %s)", k, owner(r));
    h("w%d: publishes bottom %zu top %zu, replacing bottom %zu top %zu of %s\n", k, r->bottom, r->top, o->bottom, o->top, owner(o));
    if (published[k]) fail("w%d publishes a second time in one push", k);
    if (r == o) fail("w%d publishes the record it replaces", k);
    if (nw.counter != page.counter + 1) fail("w%d: the version counter goes from %llu to %llu", k, (unsigned long long)page.counter, (unsigned long long)nw.counter);
    size_t t = inc(o->top); bool d = t == o->bottom; size_t bt = d ? inc(o->bottom) : o->bottom;
    if (r->top != t || r->bottom != bt) fail("w%d: bottom %zu top %zu published, one step after bottom %zu top %zu is bottom %zu top %zu", k, r->bottom, r->top, o->bottom, o->top, bt, t);
    E was;
    memcpy((void *)&was, (void *)&b().array[o->pos > N ? 0 : o->pos], sizeof was);
    if (was.getData() != o->event.getData() || was.getTime() != o->event.getTime()) fail("w%d publishes before the event of the record it replaces is in slot %zu", k, o->pos);
    published[k]++;
    slot[k] = o->top;
    discards[k] = d;
    order.push_back(k); order_slot.push_back(slot[k]);
    if (d) { model.pop_front(); }
    model.push_back(now_pushing[k]);
    page = nw;
  }

  void body(int k) {
    for (size_t i = 0; i < todo[k].size(); i++) {
      push_t &q = todo[k][i];
      published[k] = 0;
      now_pushing[k] = q.e;
      E before = q.e;
      h("w%d: %s(%d, %llu)\n", k, q.all ? "push_all" : "push", q.e.getData(), (unsigned long long)q.e.getTime());
      hook_armed = true;
      typename B::error_t r = q.all ? w(k).push_all(q.e) : w(k).push(q.e);
      hook_armed = false;
      h("w%d: returns %d\n", k, (int)r);
      if (published[k] != 1) fail("w%d: the push returns without having published", k);
      if (discards[k] != (r == B::BUFFER_OVERFLOW) || (r != B::BUFFER_OVERFLOW && r != B::OK)) fail("w%d: the push returns %d, its publication %s an event", k, (int)r, discards[k] ? "discarded" : "did not discard");
      E s;
      memcpy((void *)&s, (void *)&b().array[slot[k]], sizeof s);
      if (q.e.getData() != before.getData() || (q.all && q.e.getTime() != before.getTime())) fail("w%d: the caller's event changed", k);
      if (!overtaken(k) && (s.getData() != q.e.getData() || s.getTime() != q.e.getTime())) fail("w%d: slot %zu holds (%d, %llu) on return, not the event (%d, %llu)", k, slot[k], s.getData(), (unsigned long long)s.getTime(), q.e.getData(), (unsigned long long)q.e.getTime());
      if (!q.all) for (E &m : model) if (m.getData() == q.e.getData()) m = q.e;
      q.out = true;
    }
    ended[k] = true;
    alive--;
  }
  // another push has reserved the same slot since: it may have stored there already
  bool overtaken(int k) {
    for (size_t i = order.size(); i-- > 0;) {
      if (order[i] == k) return false;
      if (order_slot[i] == slot[k]) return true;
    }
    return false;
  }
  static void entry(int k) {
    me->body(k);
    if (!alive) { swapcontext(&ctx[k], &main_ctx); }
    int n = pick();
    cur = n;
    swapcontext(&ctx[k], &ctx[n]);
  }
  static void on_access(void *p, int n, char kind) { hook_armed = false; me->access(p, n, kind); hook_armed = true; }
  static void on_wrote(void *p, int n) { hook_armed = false; me->wrote(p, n); hook_armed = true; }

  void run(int nw, int before, int each, const std::vector<int> &sc) {
    me = this;
    writers = nw;
    memset(&room, rnd(2) ? 0 : 0xa5, sizeof room);
    new (room.b) B();
    for (int k = 0; k < nw; k++) new (room.w[k]) W(b());
    model.clear(); order.clear(); order_slot.clear();
    const uint64_t times = rnd(2) ? 2 : 1000000;     // often the very time of the event in the slot
    int data = 1; vclock = rnd(1000000000000ULL);
    h("N=%zu, %d writers\n", (size_t)N, nw);
    hook_armed = false;
    for (int i = 0; i < before; i++) {
      unsigned c = (unsigned)rnd(6);
      if (c < 1) { E x; b().pull(x); if (model.size()) model.pop_front(); h("buffer pull\n"); }
      else {
        E x(data++, rnd(times));
        if (c < 3) { b().push(x); h("buffer push\n"); } else { int k = (int)rnd(nw); w(k).push_all(x); h("w%d push_all\n", k); }
        model.push_back(x); if (model.size() > N) model.pop_front();
      }
    }
    for (int k = 0; k < nw; k++) {
      todo[k].clear();
      for (int i = 0; i < each; i++) todo[k].push_back(push_t{rnd(2) != 0, false, E(data++, rnd(times)), 0});
      published[k] = 0; ended[k] = false;
      if (!stacks[k]) stacks[k] = (char *)malloc(1 << 18);
      getcontext(&ctx[k]);
      ctx[k].uc_stack.ss_sp = stacks[k]; ctx[k].uc_stack.ss_size = 1 << 18; ctx[k].uc_link = 0;
      makecontext(&ctx[k], (void (*)())entry, 1, k);
    }
    page = peek();
    hook_ranges = 0; hook_fn = on_access; hook_done = on_wrote;
    hook_range(&room, sizeof room);
    alive = nw; steps = 0; limit = 200000;
    script = sc; script_at = 0; script_left = sc.empty() ? 0 : sc[0];
    cur = sc.empty() ? (int)rnd(nw) : 0;
    swapcontext(&main_ctx, &ctx[cur]);
    hook_armed = false;
    CHECK(b().length() == model.size(), "length() is %zu after all pushes, %zu events are retained", b().length(), model.size());
    size_t bo, to;
    b().state(bo, to);
    for (size_t m = 0; m < model.size(); m++) {
      E x;
      b().pull(x);
      CHECK(x.getData() == model[m].getData() && x.getTime() == model[m].getTime(), "event %zu in order of publication is (%d, %llu), the buffer has (%d, %llu)", m, model[m].getData(), (unsigned long long)model[m].getTime(), x.getData(), (unsigned long long)x.getTime());
    }
  }
};
template <size_t N> world<N> *world<N>::me = 0;

static void any(int n, int nw, int before, int each, const std::vector<int> &sc) {
  begin();
  static world<1> a; static world<2> b; static world<3> c; static world<6> d;
  if (n == 0) a.run(nw, before, each, sc);
  else if (n == 1) b.run(nw, before, each, sc);
  else if (n == 2) c.run(nw, before, each, sc);
  else d.run(nw, before, each, sc);
}
int main(int argc, char **argv) {
  drv_start(argc, argv);
  std::vector<int> none;
  // two pushes, the first stopped after i of its steps and the second after j of its
  sw_num = 0; sw_den = 1;
  for (int n = 0; n < 3; n++)
    for (int i = 0; i < 90 && !spent(0.4); i++)
      for (int j = 0; j < 90; j += (THOROUGH ? 1 : 3)) {
        std::vector<int> sc;
        sc.push_back(i); sc.push_back(j); sc.push_back(1000); sc.push_back(1000);
        any(n, 2, (int)rnd(2 * n + 4), 1, sc);
      }
  while (!spent(THOROUGH ? 1.0 : 0.6)) {
    static const unsigned rates[][2] = {{1, 2}, {1, 6}, {1, 20}, {1, 60}, {1, 200}};
    int r = (int)rnd(5);
    sw_num = rates[r][0]; sw_den = rates[r][1];
    any((int)rnd(4), 2 + (int)rnd(3), (int)rnd(12), 1 + (int)rnd(6), none);
  }
  return drv_end();
}
