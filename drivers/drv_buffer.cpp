// C01-C04: histories of buffer and writer operations against a deque of events.
#include "drv.h"
#include <ctime>
// the clock the library reads: every value handed out is remembered
static std::vector<long long> clk;
static long long clkv = 1000;
static int drv_clock(clockid_t, struct timespec *t) {
  clkv += 1 + (clkv * 7) % 900000007;
  t->tv_sec = clkv / 1000000000; t->tv_nsec = clkv % 1000000000;
  clk.push_back(clkv);
  return 0;
}
#define clock_gettime drv_clock
#include <circularbuffer.h>
#include <writer.h>
#include <reader.h>
#undef clock_gettime
typedef Event<int> ev_t;
static ev_t mk(int d, long long t) { timespan x = t; return ev_t(d, x); }
static bool same(const ev_t &a, const ev_t &b) { return a.getData() == b.getData() && a.getTime() == b.getTime(); }
#define EV(e) (e).getData(), (long long)(e).getTime()

template <size_t N> struct Mod {
  typedef RTML_buffer<ev_t, N> B;
  typedef RTML_writer<B> W;
  std::deque<ev_t> q;
  int writers = 0;
  bool push(const ev_t &e) { q.push_back(e); if (q.size() > N) { q.pop_front(); return true; } return false; }
};

template <size_t N> static void contents(RTML_buffer<ev_t, N> &b, std::deque<ev_t> &q, const char *who) {
  size_t len = b.length();
  CHECK(len == q.size(), "%s: length() is %zu, %zu events were kept", who, len, q.size());
  // look at them without touching the buffer: read(i) from state()
  size_t bo = 0, to = 0;
  b.state(bo, to);
  for (size_t i = 0; i < q.size(); i++) {
    ev_t e = mk(-1, -1);
    size_t ix = (bo + i) % (N + 1);
    int r = b.read(e, ix);
    CHECK((r == RTML_buffer<ev_t, N>::OK && same(e, q[i])), "%s: event %zu of %zu is (%d,%lld), expected (%d,%lld)", who, i, q.size(), EV(e), EV(q[i]));
  }
  CHECK(to == (bo + q.size()) % (N + 1), "%s: state() says bottom %zu top %zu for %zu events", who, bo, to, q.size());
}

static int next_data; static long long next_time;
static ev_t some() {
  next_data = (int)rnd();
  next_time = rnd(4) ? next_time + 1 + rnd(50) : (long long)rnd();
  return mk(next_data, next_time);
}

// one operation by code
template <size_t N> static void op(int o, RTML_buffer<ev_t, N> &b, Mod<N> &m, bool only = false) {
  typedef RTML_buffer<ev_t, N> B;
  int okcode = m.writers > 1 ? B::UNSAFE : B::OK;
  ev_t e = some(), keep = e;
  if (o == 0) {
    h("push (%d,%lld)\n", EV(e));
    bool over = m.push(e);
    int r = b.push(e);
    CHECK(r == (over ? (int)B::BUFFER_OVERFLOW : okcode), "push reports %d, expected %d (full before: %d)", r, over ? (int)B::BUFFER_OVERFLOW : okcode, over);
    CHECK(same(e, keep), "push changed the caller's event");
  } else {
    bool pull = o == 1;
    h(pull ? "pull\n" : "pop\n");
    int r = pull ? b.pull(e) : b.pop(e);
    if (m.q.empty()) {
      CHECK(r == B::EMPTY, "%s on an empty buffer reports %d", pull ? "pull" : "pop", r);
      CHECK(same(e, keep), "%s on an empty buffer changed the caller's event", pull ? "pull" : "pop");
    } else {
      ev_t x = pull ? m.q.front() : m.q.back();
      if (pull) m.q.pop_front(); else m.q.pop_back();
      CHECK(r == okcode, "%s reports %d, expected %d", pull ? "pull" : "pop", r, okcode);
      CHECK(same(e, x), "%s hands out (%d,%lld), expected (%d,%lld)", pull ? "pull" : "pop", EV(e), EV(x));
    }
  }
  CHECK(b.length() == m.q.size(), "length() is %zu, %zu events are held", b.length(), m.q.size());
}

static long pow3(int n) { long r = 1; while (n--) r *= 3; return r; }
template <size_t N> static void c01() {
  typedef RTML_buffer<ev_t, N> B;
  // every short history, from every wrap-around position
  int L = N <= 2 ? 8 : 7;
  for (size_t shift = 0; shift <= N && !spent(0.3); shift++)
    for (int code = 0, all = (int)pow3(L); code < all; code++) {
      begin();
      h("N=%zu shift=%zu\n", N, shift);
      static char mem[sizeof(B)] __attribute__((aligned(16)));
      memset(mem, 0x5a, sizeof mem);
      B *b = new (mem) B();
      Mod<N> m;
      for (size_t i = 0; i < shift; i++) { op<N>(0, *b, m); op<N>(1, *b, m); }
      for (int i = 0, c = code; i < L; i++, c /= 3) op<N>(c % 3, *b, m);
      contents<N>(*b, m.q, "after the history");
    }
  for (int k = 0; k < 400 && !spent(0.8); k++) {
    begin();
    B b;
    Mod<N> m;
    m.writers = rnd(5) ? (int)rnd(3) : 2 + (int)rnd(3);
    h("N=%zu writers=%d\n", N, m.writers);
    for (int i = 0; i < m.writers; i++) b.increment_writer();
    int bias = rnd(4);
    for (int i = 0; i < 300; i++) {
      op<N>(rnd(4) < (uint64_t)bias ? 0 : (int)rnd(3), b, m);
      if (i % 7 == 0) contents<N>(b, m.q, "during the history");
    }
  }
}

template <size_t N> static void c02() {
  typedef RTML_buffer<ev_t, N> B;
  for (int k = 0; k < 300 && !spent(0.8); k++) {
    begin();
    B b;
    Mod<N> m;
    h("N=%zu\n", N);
    int n = rnd(3 * N + 3);
    for (int i = 0; i < n; i++) op<N>(rnd(3) ? 0 : (int)rnd(3), b, m);
    std::vector<ev_t> slot(N + 1);
    for (size_t i = 0; i <= N; i++) { ev_t e = mk(-1, -1); int r = b.read(e, i); CHECK(r == B::OK, "read of slot %zu reports %d", i, r); slot[i] = e; }
    size_t bo, to;
    timespanw tb, tt;
    int r = b.state(bo, to);
    CHECK(r == B::OK, "state reports %d", r);
    CHECK(bo <= N && to <= N, "state: bottom %zu, top %zu", bo, to);
    CHECK(to == (bo + m.q.size()) % (N + 1), "state: bottom %zu top %zu for %zu events", bo, to, m.q.size());
    for (size_t i = 0; i < m.q.size(); i++) CHECK(same(slot[(bo + i) % (N + 1)], m.q[i]), "slot %zu does not hold event %zu", (bo + i) % (N + 1), i);
    size_t bo2, to2;
    r = b.state(bo2, to2, tb, tt);
    CHECK(r == B::OK && bo2 == bo && to2 == to, "state with timestamps: bottom %zu top %zu, expected %zu %zu", bo2, to2, bo, to);
    CHECK((long long)tb == (long long)slot[bo].getTime() && (long long)tt == (long long)slot[to].getTime(), "state timestamps %lld %lld, slots hold %lld %lld", (long long)tb, (long long)tt, (long long)slot[bo].getTime(), (long long)slot[to].getTime());
    b.debug();
    static const size_t off[] = {0, 1, 2, 3, 7, 100, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) - N - 1, (size_t)-1 - 2 * N, (size_t)1 << 63};
    for (int j = 0; j < 40; j++) {
      size_t i = rnd(3) == 0 ? rnd(N + 1) : rnd(2) ? N + 1 + off[rnd(sizeof off / sizeof *off)] : ((uint64_t)rnd(3) << 32) + rnd(N + 2);
      bool in = i <= N;
      ev_t e = some(), keep = e;
      bool wr = rnd(2);
      h("%s index %zu\n", wr ? "write" : "read", i);
      r = wr ? b.write(e, i) : b.read(e, i);
      CHECK(r == (in ? (int)B::OK : (int)B::OUT_OF_BOUND), "%s(%zu) of a buffer with %zu slots reports %d", wr ? "write" : "read", i, N + 1, r);
      if (wr) { CHECK(same(e, keep), "write changed the caller's event"); if (in) slot[i] = e; }
      else CHECK(same(e, in ? slot[i] : keep), "read(%zu) gives (%d,%lld)", i, EV(e));
    }
    for (size_t i = 0; i <= N; i++) { ev_t e = mk(-1, -1); b.read(e, i); CHECK(same(e, slot[i]), "slot %zu holds (%d,%lld), expected (%d,%lld)", i, EV(e), EV(slot[i])); }
    b.debug();
    CHECK(b.length() == m.q.size(), "length %zu, expected %zu", b.length(), m.q.size());
    size_t b3, t3; b.state(b3, t3);
    CHECK(b3 == bo && t3 == to, "the queries moved bottom/top");
  }
}

// writers used one at a time
template <size_t N> static void wop(Mod<N> &m, RTML_writer<RTML_buffer<ev_t, N>> &w, int id, bool all) {
  typedef RTML_buffer<ev_t, N> B;
  ev_t e = some();
  if (e.getTime() == 0 && e.getData() == 0) e = mk(1, 1);
  int d = e.getData(); long long t = e.getTime();
  h("writer %d %s (%d,%lld)\n", id, all ? "push_all" : "push", d, t);
  clk.clear();
  int r = all ? w.push_all(e) : w.push(e);
  if (all) CHECK(same(e, mk(d, t)), "push_all changed the caller's event");
  else {
    bool ok = false;
    for (auto c : clk) ok |= c == (long long)e.getTime();
    CHECK(ok && e.getData() == d, "push: the caller's event is (%d,%lld), not stamped with a clock reading of this call", EV(e));
  }
  bool over = m.push(e);
  CHECK(r == (over ? (int)B::BUFFER_OVERFLOW : (int)B::OK), "reports %d, expected %s", r, over ? "BUFFER_OVERFLOW" : "OK");
}

template <size_t N> static void c04() {
  typedef RTML_buffer<ev_t, N> B;
  typedef RTML_writer<B> W;
  for (int k = 0; k < 600 && !spent(0.8); k++) {
    begin();
    B b;
    Mod<N> m;
    int nw = 1 + rnd(4);
    std::vector<W *> w;
    for (int i = 0; i < nw; i++) w.push_back(new W(b));
    h("N=%zu, %d writers\n", N, nw);
    m.writers = nw;
    bool mixed = rnd(2);
    int style = rnd(3), n = 3 + rnd(5 * N + 6);
    for (int i = 0; i < n; i++) {
      int x = style == 0 ? i % nw : style == 1 ? (int)rnd(nw) : (int)(i / 3) % nw;
      if (mixed && rnd(3) == 0) op<N>((int)rnd(3), b, m); else wop<N>(m, *w[x], x, rnd(2));
      contents<N>(b, m.q, "after the push");
    }
    for (auto x : w) delete x;
  }
}

template <size_t N> static void c03() {
  typedef RTML_buffer<ev_t, N> B;
  typedef RTML_writer<B> W;
  for (int k = 0; k < 800 && !spent(0.8); k++) {
    begin();
    B *src = new B(), *dst = new B();
    Mod<N> ms, md;
    std::vector<W *> ws, wd;
    int ns = rnd(3), nd = rnd(3);
    h("N=%zu, %d writers on the source, %d on the destination\n", N, ns, nd);
    for (int i = 0; i < ns; i++) ws.push_back(new W(*src));
    for (int i = 0; i < nd; i++) wd.push_back(new W(*dst));
    ms.writers = ns; md.writers = nd;
    int n = rnd(3 * N + 3);
    for (int i = 0; i < n; i++) {
      if (ns && rnd(3)) wop<N>(ms, *ws[rnd(ns)], 0, rnd(2)); else op<N>(rnd(3) ? 0 : (int)rnd(3), *src, ms);
      if (rnd(2)) { h("(destination) "); if (nd && rnd(3)) wop<N>(md, *wd[rnd(nd)], 100, rnd(2)); else op<N>(0, *dst, md); }
    }
    h("dst = src\n");
    *dst = *src;
    md.q = ms.q; md.writers = ms.writers;
    contents<N>(*dst, md.q, "copy");
    contents<N>(*src, ms.q, "source after the copy");
    bool gone = rnd(3) == 0;
    if (gone) {
      h("source and its writers destroyed\n");
      for (auto x : ws) { memset((void *)x, 0xa5, sizeof *x); operator delete((void *)x); }
      memset((void *)src, 0xa5, sizeof *src);
      operator delete((void *)src);
      ws.clear();
    }
    W *nw = rnd(2) ? new W(*dst) : 0;
    if (nw) md.writers++;
    for (int i = 0; i < (int)(2 * N + 4); i++) {
      if (!gone && rnd(2)) {
        h("(source) ");
        if (ns && rnd(3)) wop<N>(ms, *ws[rnd(ns)], 0, rnd(2)); else op<N>((int)rnd(3), *src, ms);
      } else {
        h("(copy) ");
        if (nw && rnd(3)) wop<N>(md, *nw, 200, rnd(2)); else op<N>((int)rnd(3), *dst, md);
      }
      contents<N>(*dst, md.q, "copy after an operation");
      if (!gone) contents<N>(*src, ms.q, "source after an operation");
    }
    if (!gone) {
      ev_t e = mk(77, 77), x;
      dst->write(e, 0);
      contents<N>(*src, ms.q, "source after a write to the copy");
    }
  }
}
// more events than 16 bits count, where code may loop over them
template <size_t N> static void c03_huge() {
  typedef RTML_buffer<ev_t, N> B;
  for (int k = 0; k < 4; k++) {
    begin();
    B *src = new B(), *dst = new B();
    Mod<N> ms;
    long n = k < 2 ? N + rnd(N) : rnd(N), gone = rnd(n + 1) / 2;
    h("N=%zu, %ld pushes, %ld pulls, dst = src\n", N, n, gone);
    for (long i = 0; i < n; i++) { ev_t e = mk((int)rnd(), (long long)(rnd() >> 2)); ms.push(e); src->push(e); }
    for (long i = 0; i < gone && !ms.q.empty(); i++) { ev_t e; src->pull(e); ms.q.pop_front(); }
    *dst = *src;
    contents<N>(*dst, ms.q, "copy");
    contents<N>(*src, ms.q, "source after the copy");
    delete src; delete dst;
  }
}
template <size_t N> static void all() {
  std::string p = PROP;
  if (p == "C01") c01<N>();
  if (p == "C02") c02<N>();
  if (p == "C03") c03<N>();
  if (p == "C04") c04<N>();
}
int main(int c, char **v) {
  drv_start(c, v);
  do { all<1>(); all<2>(); all<3>(); all<4>(); all<5>(); all<8>(); all<17>(); all<100>(); all<300>();
    if (!strcmp(PROP, "C03")) c03_huge<70000>();
  } while (THOROUGH && !spent(0.5));
  return drv_end();
}
