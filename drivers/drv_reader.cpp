// C06-C11: readers and trace readers over a buffer that receives pushes with increasing times.
#include "drv.h"
#include <cstddef>
#include <cassert>
#include <circularbuffer.h>
#include <writer.h>
#include <reader.h>
#include <rmtld3/formulas.h>
#include <rmtld3/reader.h>
typedef Event<int> ev_t;
static ev_t mk(int d, long long t) { timespan x = t; return ev_t(d, x); }
static bool same(const ev_t &a, const ev_t &b) { return a.getData() == b.getData() && a.getTime() == b.getTime(); }
#define EV(e) (e).getData(), (long long)(e).getTime()

template <size_t N> struct World {
  typedef RTML_buffer<ev_t, N> B;
  static const long S = N + 1;
  B b;
  RTML_writer<B> w;
  bool use_writer;
  std::vector<ev_t> all;      // every event pushed, by number
  std::vector<long> arr;      // number of the event in each slot, -1: none yet
  World() : w(b), arr(S, -1) { use_writer = rnd(2); }
  long T() { return all.size(); }
  void push() {
    long long t = all.empty() ? 1 + rnd(5) : (long long)all.back().getTime() + 1 + (rnd(3) ? rnd(4) : rnd(1000000));
    ev_t e = mk((int)rnd(3), t);
    arr[T() % S] = T();
    all.push_back(e);
    if (use_writer) w.push_all(e); else b.push(e);
  }
  void pushes(long k) { h("push x%ld\n", k); while (k--) push(); }
  std::string snap() {
    std::string s;
    char x[64];
    for (long i = 0; i < S; i++) { ev_t e = mk(-1, -1); b.read(e, i); snprintf(x, sizeof x, "(%d,%lld)", EV(e)); s += x; }
    size_t bo, to; b.state(bo, to);
    snprintf(x, sizeof x, " bottom %zu top %zu length %zu", bo, to, b.length());
    return s + x;
  }
};
static long amount(long N) {
  switch (rnd(10)) { case 0: return 0; case 1: case 2: return 1; case 3: return N - 1; case 4: return N; case 5: return N + 1; case 6: return N + 2; case 7: return rnd(2 * N + 3); case 8: return (1 + rnd(3)) * (N + 1); default: return rnd(N + 1); }
}

template <size_t N> struct Rd {
  typedef RTML_reader<RTML_buffer<ev_t, N>> R;
  World<N> &w;
  R r;
  long rb = 0, rt = 0, due = -1;
  Rd(World<N> &x) : w(x), r(x.b) {}
  long len() { return (rt - rb + w.S) % w.S; }
  void chk_len(const char *op) { CHECK((long)r.length() == len(), "%s: length() is %zu, %ld events are in the window", op, r.length(), len()); }
  bool newer() { return w.arr[rb] > due; }
  void pull(bool claim) {
    ev_t e = mk(-7, -7), keep = e;
    int x = r.pull(e);
    h("pull -> %d (%d,%lld)\n", x, EV(e));
    if (len() <= 1) {
      if (claim) { CHECK(x == R::UNAVAILABLE, "pull with %ld events left reports %d", len(), x); CHECK(same(e, keep), "pull reports UNAVAILABLE but changed the event"); chk_len("pull"); }
      return;
    }
    ev_t want = w.all[w.arr[rb]];
    if (claim) {
      CHECK(x != R::UNAVAILABLE, "pull with %ld events in the window reports UNAVAILABLE", len());
      CHECK(same(e, want), "pull hands out (%d,%lld), the oldest slot holds (%d,%lld)", EV(e), EV(want));
      CHECK(x == (newer() ? (int)R::READER_OVERFLOW : (int)R::AVAILABLE), "pull reports %d; the due event %s overwritten", x, newer() ? "was" : "was not");
    }
    rb = (rb + 1) % w.S;
    due = w.arr[rb];
    if (claim) chk_len("pull");
  }
  void pop(bool claim) {
    ev_t e = mk(-7, -7), keep = e;
    int x = r.pop(e);
    h("pop -> %d (%d,%lld)\n", x, EV(e));
    if (len() == 0) {
      if (claim) { CHECK(x == R::UNAVAILABLE && same(e, keep), "pop of an empty window reports %d", x); chk_len("pop"); }
      return;
    }
    long t = (rt + w.S - 1) % w.S;
    if (claim) {
      ev_t want = w.all[w.arr[t]];
      CHECK(same(e, want), "pop hands out (%d,%lld), the newest slot holds (%d,%lld)", EV(e), EV(want));
      CHECK(x == (newer() ? (int)R::READER_OVERFLOW : (int)R::AVAILABLE), "pop reports %d; the oldest event %s overwritten", x, newer() ? "was" : "was not");
    }
    rt = t;
    if (claim) chk_len("pop");
  }
  void sync(bool claim) {
    int x = r.synchronize();
    h("synchronize -> %d\n", x);
    long T = w.T(), low = std::max(0L, T - (long)N);
    bool lost = due >= 0 && due < low;
    long L = r.length();
    if (T == 0) { if (claim) CHECK(L == 0, "length() %ld on an empty buffer", L); rb = rt = 0; due = -1; return; }
    if (claim) {
      CHECK(x == R::NO_GAP || x == R::GAP, "synchronize reports %d", x);
      if (x == R::NO_GAP) {
        CHECK(due >= 0 && !lost, "synchronize reports NO_GAP although event %ld was overwritten (%ld pushed, capacity %zu)", due, T, N);
        CHECK(L == T - due, "after NO_GAP the window has %ld events, expected %ld", L, T - due);
      } else
        CHECK(L == T - low || (due >= low && L == T - due), "after GAP the window has %ld events; %ld are retained", L, T - low);
      // contents, newest first, from a copy
      R c(r);
      for (long i = 0; i < L; i++) {
        ev_t e = mk(-7, -7);
        int y = c.pop(e);
        CHECK(y != R::UNAVAILABLE && y != R::READ_ERROR && same(e, w.all[T - 1 - i]), "after synchronize the window's event %ld from the end is (%d,%lld), expected (%d,%lld)", i, EV(e), EV(w.all[T - 1 - i]));
        CHECK(y == R::AVAILABLE, "after synchronize the oldest slot is reported overwritten");
      }
      // the remembered time is that of the oldest slot: one overwrite of it must be noticed
      CHECK(r.gap() == R::NO_GAP, "gap right after synchronize");
    }
    rt = T % w.S;
    rb = (T - L % w.S + w.S) % w.S;
    due = L ? T - L : due;
    if (L == 0) due = w.arr[rb];
  }
  void gap(bool claim) {
    int x = r.gap();
    if (claim && due >= 0) CHECK(x == (newer() ? (int)R::GAP : (int)R::NO_GAP), "gap() reports %d, oldest slot %s overwritten", x, newer() ? "was" : "was not");
  }
};

template <size_t N> static void readers(bool c6, bool c7, bool c8) {
  for (int k = 0; k < 3000 && !spent(0.85); k++) {
    begin();
    h("N=%zu\n", N);
    World<N> w;
    Rd<N> r(w);
    w.pushes(amount(N));
    int n = 4 + rnd(25);
    for (int i = 0; i < n; i++) {
      int o = rnd(10);
      if (o < 3) w.pushes(amount(N));
      else if (o < 5) r.sync(c8);
      else if (o < 8) { if (c7 && rnd(2)) r.pop(c7); else r.pull(c6); }
      else if (o < 9) { if (c7 || c8) r.pop(c7); }
      else r.gap(c6);
    }
  }
}

// every reader operation leaves the buffer as it is; two readers do not disturb each other
template <size_t N> static void c09() {
  typedef RTML_reader<RTML_buffer<ev_t, N>> R;
  typedef RMTLD3_reader<R> TRC;
  for (int k = 0; k < 600 && !spent(0.85); k++) {
    begin();
    h("N=%zu\n", N);
    World<N> w;
    w.pushes(amount(N) + 1);
    // the buffer and the writer, byte by byte: no operation of the buffer takes part in the comparison
    auto raw = [&] { return std::string((const char *)&w.b, sizeof w.b) + std::string((const char *)&w.w, sizeof w.w); };
    std::string r0 = raw(), s0;
    R r(w.b);
    TRC t(w.b);
    CHECK(r0 == raw(), "constructing readers changed the buffer");
    for (int i = 0; i < 60; i++) {
      ev_t e = mk(-7, -7);
      if (rnd(12) == 0) w.pushes(amount(N));
      if (rnd(12) == 0) { long n = rnd(3) ? N : rnd(N + 1); h("pull x%ld from the buffer\n", n); while (n--) w.b.pull(e); }
      int o = rnd(20);
      r0 = raw();
      if (rnd(2)) { s0 = w.snap(); CHECK(r0 == raw(), "looking at the buffer (read, state, length) changed it"); }
      else s0.clear();
      h("op %d\n", o);
      timespan x = w.all[rnd(w.T())].getTime() + rnd(2);
      size_t c = rnd(N + 3);
      switch (o) {
      case 0: case 1: r.synchronize(); break;
      case 2: r.pull(e); break;
      case 3: r.pop(e); break;
      case 4: r.gap(); r.length(); r.debug(); break;
      case 5: case 6: t.synchronize(); t.reset(); break;
      case 7: { TRC q(w.b); R q2(w.b); } break;
      case 8: t.increment_cursor(); break;
      case 9: t.decrement_cursor(); break;
      case 10: t.pull(e); break;
      case 11: t.read(e); break;
      case 12: t.read_next(e); break;
      case 13: t.read_previous(e); break;
      case 14: t.length(); t.consumed(); t.debug(); break;
      case 15: t.set(x); t.synchronize(); t.reset(); break;
      case 16: t.set_cursor(c); t.reset(); break;
      case 17: t.get_cursor(); break;
      case 18: t.R::pull(e); t.reset(); break;
      case 19: t.R::pop(e); t.reset(); break;
      }
      bool eq = r0 == raw();
      std::string s1 = w.snap();
      CHECK(eq && (s0.empty() || s0 == s1), "reader operation %d changed the buffer\n before %s\n after  %s", o, s0.c_str(), s1.c_str());
    }
  }
}

template <size_t N> static void trace(bool c11) {
  typedef RTML_reader<RTML_buffer<ev_t, N>> R;
  typedef RMTLD3_reader<R> TRC;
  const bool huge = N > 1000;
  for (int k = 0; k < (huge ? 4 : 1500) && !spent(0.85); k++) {
    begin();
    static World<N> *wp = 0;
    delete wp;
    World<N> &w = *(wp = new World<N>());
    w.pushes(huge ? N + rnd(2 * N) : amount(N) + 1);
    TRC t(w.b);
    t.synchronize();
    long L = std::min(w.T(), (long)N), o = w.T() - L;
    int drop = rnd(3) ? 0 : rnd(huge ? 100 : L);
    while (drop--) { ev_t e; t.R::pull(e); o++; L--; }
    h("N=%zu window events %ld..%ld at slots %ld..:", N, o, o + L - 1, o % w.S);
    for (long i = 0; i < L; i++) if (!huge || i < 3 || i + 3 > L) h(" (%d,%lld)", EV(w.all[o + i]));
    h("\n");
    CHECK((long)t.R::length() == L, "window has %zu events, expected %ld", t.R::length(), L);
    size_t saved = 0; long savedc = -1;
    long c = 0; // position in the window
    t.reset();
    for (int i = 0; i < 40; i++) {
      ev_t e = mk(-7, -7), keep = e;
      bool ev = c < L, nx = c + 1 < L, pv = c > 0;
      int x;
      if (c11) {
        long p = huge ? (rnd(2) ? 0 : L - 1) : rnd(L);
        t.reset();
        for (long j = 0; j < p; j++) t.increment_cursor();
        timespan q = w.all[o + rnd(L)].getTime() + (long long)rnd(3) - 1;
        if (!rnd(6)) q = w.all[o].getTime() - 1 - rnd(3);
        if (!rnd(6)) q = w.all[o + L - 1].getTime() + rnd(3);
        long f = -1;
        for (long j = 0; j + 1 < L; j++) if ((long long)w.all[o + j].getTime() <= (long long)q && (long long)q < (long long)w.all[o + j + 1].getTime()) f = j;
        x = t.set(q);
        h("set(%lld) from position %ld -> %d\n", (long long)q, p, x);
        CHECK(x == (f >= 0 ? (int)R::AVAILABLE : (int)R::UNAVAILABLE), "set(%lld) from position %ld reports %d; event in force: %ld", (long long)q, p, x, f);
        if (f >= 0) { t.read(e); CHECK(same(e, w.all[o + f]), "set(%lld) from position %ld leaves the cursor on (%d,%lld), in force is (%d,%lld)", (long long)q, p, EV(e), EV(w.all[o + f])); }
        continue;
      }
      int op = rnd(11);
      h("cursor %ld of %ld, op %d\n", c, L, op);
      switch (op) {
      case 0: x = t.increment_cursor(); CHECK(x == (c < L ? (int)R::AVAILABLE : (int)R::UNAVAILABLE), "increment at %ld of %ld reports %d", c, L, x); if (c < L) c++; break;
      case 1: x = t.decrement_cursor(); CHECK(x == (c > 0 ? (int)R::AVAILABLE : (int)R::UNAVAILABLE), "decrement at %ld reports %d", c, x); if (c > 0) c--; break;
      case 2: if (ev) { x = t.read(e); CHECK(x == R::AVAILABLE && same(e, w.all[o + c]), "read at %ld: %d (%d,%lld)", c, x, EV(e)); } break;
      case 3: x = t.read_next(e); CHECK(x == (nx ? (int)R::AVAILABLE : (int)R::UNAVAILABLE) && same(e, nx ? w.all[o + c + 1] : keep), "read_next at %ld of %ld: %d (%d,%lld)", c, L, x, EV(e)); break;
      case 4: x = t.read_previous(e); CHECK(x == (pv ? (int)R::AVAILABLE : (int)R::UNAVAILABLE) && same(e, pv ? w.all[o + c - 1] : keep), "read_previous at %ld of %ld: %d (%d,%lld)", c, L, x, EV(e)); break;
      case 5: CHECK((long)t.length() == L - c && (long)t.consumed() == c, "length %zu consumed %zu at %ld of %ld", t.length(), t.consumed(), c, L); break;
      case 6: x = t.pull(e); CHECK(x == (nx ? (int)R::AVAILABLE : (int)R::UNAVAILABLE) && same(e, ev ? w.all[o + c] : keep), "pull at %ld of %ld: %d (%d,%lld)", c, L, x, EV(e)); if (ev) c++; break;
      case 7: if (rnd(3) == 0) { x = t.reset(); CHECK(x == R::AVAILABLE, "reset reports %d", x); c = 0; } break;
      case 8: saved = t.get_cursor(); savedc = c; break;
      case 9: if (savedc >= 0) { size_t v = saved; x = t.set_cursor(v); CHECK(x == R::AVAILABLE && v == saved, "set_cursor(%zu) reports %d", saved, x); c = savedc; } break;
      case 10: { size_t v = N + 1 + rnd(3); x = t.set_cursor(v); CHECK(x == R::UNAVAILABLE, "set_cursor(%zu) of %zu slots reports %d", v, N + 1, x); } break;
      }
      CHECK((long)t.length() == L - c && (long)t.consumed() == c, "afterwards length %zu consumed %zu, the cursor should be at %ld of %ld", t.length(), t.consumed(), c, L);
      CHECK((long)t.get_cursor() == (o + c) % w.S, "afterwards the cursor is at slot %zu, expected %ld", t.get_cursor(), (o + c) % w.S);
    }
  }
}
template <size_t N> static void all() {
  std::string p = PROP;
  if (p == "C06") readers<N>(true, false, false);
  if (p == "C07") readers<N>(false, true, false);
  if (p == "C08") readers<N>(false, false, true);
  if (p == "C09") c09<N>();
  if (p == "C10") trace<N>(false);
  if (p == "C11") trace<N>(true);
}
int main(int c, char **v) {
  drv_start(c, v);
  do { all<1>(); all<2>(); all<3>(); all<4>(); all<5>(); all<8>(); all<33>(); all<300>();
    // more events than 16 bits count, where the code loops over them
    if (!strcmp(PROP, "C11")) trace<70000>(true);
  } while (THOROUGH && !spent(0.5));
  return drv_end();
}
