// C12-C20: the RMTLD3 operators with arbitrary operands (tables of verdicts, moving the cursor at will)
// on every kind of window, against direct transcriptions of their meaning.
#include "drv.h"
#include <cstddef>
#include <cassert>
#include <circularbuffer.h>
#include <writer.h>
#include <reader.h>
#include <rmtld3/formulas.h>
#include <rmtld3/reader.h>
typedef Event<int> ev_t;
#define EV(e) (e).getData(), (long long)(e).getTime()
static ev_t mk(int d, long long t) { timespan x = t; return ev_t(d, x); }
static const char *V(int v) { return v == T_TRUE ? "TRUE" : v == T_FALSE ? "FALSE" : v == T_UNKNOWN ? "UNKNOWN" : "?"; }
static int neg(int v) { return v == T_TRUE ? T_FALSE : v == T_FALSE ? T_TRUE : T_UNKNOWN; }

#ifndef CAPN
#define CAPN 7
#endif
static const size_t CAP = CAPN;
static const bool LARGE = CAPN > 20, HUGE_ = CAPN > 1000; // HUGE_: more events than 16 bits count
typedef RTML_buffer<ev_t, CAP> B;
typedef RTML_reader<B> R;
#if CAPN > 1000
// the operators call debug(), which walks the buffer, at every event
struct TR : RMTLD3_reader<R> {
  TR(B &b) : RMTLD3_reader<R>(b) {}
  void debug() const {}
};
#else
typedef RMTLD3_reader<R> TR;
#endif

// ---- the case under evaluation
static std::vector<long long> tau;   // times of the window's events
static std::vector<int> dat;
static std::vector<int> op1, op2;    // operand verdict by event of the window
static long W0;                      // slot of the window's oldest event
static long C0;                      // cursor position in the window
static int clobber;
static long long horizon;            // operands must be evaluated below this
static bool below = true;
static unsigned long evals;
static bool plain;                   // in-between steps evaluate at times between the events
static int lookup(TR &t, timespan &x, const std::vector<int> &tab) {
  long p = ((long)t.get_cursor() - W0 + (long)CAP + 1) % ((long)CAP + 1);
  CHECK(p < (long)tau.size(), "operand evaluated with the cursor outside the window (slot %zu)", t.get_cursor());
  if ((long long)x >= horizon) below = false;
  evals++;
  if (clobber == 1) { size_t c = rnd(CAP + 1); t.set_cursor(c); }
  if (clobber == 2) { t.increment_cursor(); }
  if (clobber == 3) { t.reset(); }
  // the operand is a function of the event and of the time it is evaluated at
  return plain || (long long)x == tau[p] ? tab[p] : neg(tab[p]);
}
struct E {
  static three_valued_type eval_phi1(TR &t, timespan &x) { return (three_valued_type)lookup(t, x, op1); }
  static three_valued_type eval_phi2(TR &t, timespan &x) { return (three_valued_type)lookup(t, x, op2); }
};
// a nested operand: proposition 1 or 2, as generated monitors use them
struct NE {
  static three_valued_type eval_phi1(TR &t, timespan &x) { proposition p = 1; return prop<TR>(t, p, x); }
  static three_valued_type eval_phi2(TR &t, timespan &x) { proposition p = 2; return prop<TR>(t, p, x); }
};

// ---- meanings
static int m_until(long long t, long long b) {
  for (size_t i = C0; i < tau.size(); i++) {
    if (tau[i] >= t + b) return T_FALSE;
    if (op2[i] != T_FALSE) return op2[i];
    if (op1[i] != T_TRUE) return op1[i];
  }
  return T_UNKNOWN;
}
static int m_always(long long t, long long b) {
  for (size_t i = C0; i < tau.size(); i++) {
    if (tau[i] >= t + b) return T_TRUE;
    if (op1[i] != T_TRUE) return op1[i];
  }
  return T_UNKNOWN;
}
static int m_since(long long t, long long b) {
  for (long i = C0; i >= 0; i--) {
    if (tau[i] == t) continue;
    if (tau[i] <= t - b) return T_FALSE;
    if (op2[i] != T_FALSE) return op2[i];
    if (op1[i] != T_TRUE) return op1[i];
  }
  return tau[0] <= t - b ? T_FALSE : T_UNKNOWN;
}
static int m_hist(long long t, long long b) {
  for (long i = C0; i >= 0; i--) {
    if (tau[i] == t) continue;
    if (tau[i] <= t - b) return T_TRUE;
    if (op1[i] != T_TRUE) return op1[i];
  }
  return tau[0] <= t - b ? T_TRUE : T_UNKNOWN;
}
static int m_eunb() {
  for (size_t i = C0; i < tau.size(); i++) if (op1[i] != T_FALSE) return op1[i];
  return T_UNKNOWN;
}
static int m_ev_eq(long long t, long long b) {
  int s = T_UNKNOWN;
  long long last = -1;
  for (size_t i = C0; i < tau.size(); i++) {
    last = tau[i];
    if (tau[i] > t + b) break;
    s = op1[i];
  }
  return last < t + b ? (int)T_UNKNOWN : s;
}
static int m_past_eq(long long t, long long b) {
  int s = T_UNKNOWN;
  for (long i = C0; i >= 0; i--) {
    if (tau[i] == t) continue;
    if (t >= b && tau[i] <= t - b) break;
    s = op1[i];
  }
  return s;
}
static int m_prop(int p, long long t) {
  if (C0 + 1 < (long)tau.size() && tau[C0] <= t && t < tau[C0 + 1]) return dat[C0] == p ? T_TRUE : T_FALSE;
  return T_UNKNOWN;
}
static long long m_dur(long long t, long long u, bool &unk) {
  long long s = 0;
  unk = tau.back() <= t + u;
  for (size_t i = C0; i + 1 < tau.size(); i++) {
    long long lo = std::max(tau[i], t), hi = std::min(tau[i + 1], t + u);
    if (hi > lo && op1[i] == T_TRUE) s += hi - lo;
    if (op1[i] == T_UNKNOWN && tau[i] <= t + u && tau[i + 1] > t) unk = true;
  }
  return s;
}

// ---- the code
struct Sit {
  B *b; TR *t; long long wm;
  ~Sit() { delete t; delete b; }
};
static void build(Sit &s, const std::vector<long long> &times, const std::vector<int> &data, int before, long cursor) {
  s.b = new B();
  for (int i = 0; i < before; i++) { ev_t e = mk(9, i - before); s.b->push(e); }
  // the window starts at the first real event: what came before is consumed
  for (size_t i = 0; i < times.size(); i++) { ev_t e = mk(data[i], times[i]); s.b->push(e); }
  s.t = new TR(*s.b);
  s.t->synchronize();
  while (s.t->R::length() > times.size()) { ev_t e; s.t->R::pull(e); }
  W0 = before % (CAP + 1);
  s.t->reset();
  for (long i = 0; i < cursor; i++) s.t->increment_cursor();
}
static std::string snap(Sit &s) {
  std::string r;
  char x[96];
  for (size_t i = 0; i <= CAP; i++) { ev_t e = mk(-1, -1); s.b->read(e, i); snprintf(x, sizeof x, "(%d,%lld)", EV(e)); r += x; }
  size_t bo, to; s.b->state(bo, to);
  snprintf(x, sizeof x, " buffer %zu..%zu cursor %zu window %zu from the cursor %zu gap %d", bo, to, s.t->get_cursor(), s.t->R::length(), s.t->length(), (int)s.t->gap());
  return r + x;
}
enum Op { UNTIL, BETWEEN, SINCE, HIST, EVEQ, ALEQ, PAEQ, HIEQ, EUNB, ALW, DUR, PRP, NOPS };
static const char *name[] = {"until_less", "until_less<with_in_between>", "since_less", "historically_less", "eventually_equal", "always_equal", "pasteventually_equal", "historically_equal", "eventually_less_unbounded", "always_less", "duration_term", "prop"};

template <typename X, timespan b> static int run(int o, TR &t, timespan &x, int p, duration &d) {
  switch (o) {
  case UNTIL: return until_less<TR, X, b>(t, x);
  case BETWEEN: return until_less<TR, X, b, with_in_between>(t, x);
  case SINCE: return since_less<TR, X, b>(t, x);
  case HIST: return historically_less<TR, X, b>(t, x);
  case EVEQ: return eventually_equal<TR, X, b>(t, x);
  case ALEQ: return always_equal<TR, X, b>(t, x);
  case PAEQ: return pasteventually_equal<TR, X, b>(t, x);
  case HIEQ: return historically_equal<TR, X, b>(t, x);
  case EUNB: return eventually_less_unbounded<TR, X>(t, x);
  case ALW: return always_less<TR, X, b>(t, x);
  case DUR: d = duration_term<TR, X, b>(t, x); return 0;
  case PRP: { proposition q = p; return prop<TR>(t, q, x); }
  }
  return 0;
}
static long long bounds[] = {0, 1, 2, 3, 5, 9, 1000000007LL, 3000000000LL, 700, 1LL << 41};
static const int NB = sizeof bounds / sizeof *bounds;
template <typename X> static int runb(int bi, int o, TR &t, timespan &x, int p, duration &d) {
  switch (bi) {
  case 0: return run<X, 0>(o, t, x, p, d);
  case 1: return run<X, 1>(o, t, x, p, d);
  case 2: return run<X, 2>(o, t, x, p, d);
  case 3: return run<X, 3>(o, t, x, p, d);
  case 4: return run<X, 5>(o, t, x, p, d);
  case 5: return run<X, 9>(o, t, x, p, d);
  case 6: return run<X, 1000000007L>(o, t, x, p, d);
  case 7: return run<X, 3000000000L>(o, t, x, p, d);
  case 8: return run<X, 700>(o, t, x, p, d);
  default: return run<X, (1L << 41)>(o, t, x, p, d);
  }
}
static void tell(int o, long long b, long long t, int p) {
  h("%s bound %lld at t=%lld%s; window (data,time):", name[o], b, t, "");
  for (size_t i = 0; i < tau.size(); i++) if (!HUGE_ || i < 5 || i + 5 > tau.size() || op1[i] != op1[i - 1] || op2[i] != op2[i - 1]) h(" %s(%d,%lld|%s,%s)", (long)i == C0 ? "->" : "", dat[i], tau[i], V(op1[i]), V(op2[i]));
  h(" [operand 1, operand 2]; oldest at slot %ld; operand cursor behaviour %d; proposition %d\n", W0, clobber, p);
}
static void make(int &bi, long long &t, bool incr) {
  size_t L = 1 + rnd(CAP);
  if (LARGE && (HUGE_ || rnd(2))) L = CAP - rnd(40);
  bi = HUGE_ ? (rnd(2) ? 6 : rnd(2) ? 7 : 9) : LARGE && rnd(3) ? 6 + rnd(NB - 6) : rnd(4) ? rnd(6) : rnd(NB);
  // the events of the window at the scale of the bound
  long long scale = bounds[bi] > 100 ? bounds[bi] / (LARGE ? L + rnd(40) : 7) + 1 : 1;
  static const long long bases[] = {0, 0, 0, (1LL << 31) - 9, (1LL << 32) - 7, (1LL << 53) - 3, 1LL << 60};
  tau.clear(); dat.clear(); op1.clear(); op2.clear();
  long long x = rnd(4) * scale + (rnd(3) ? 0 : bases[rnd(7)]);
  for (size_t i = 0; i < L; i++) {
    tau.push_back(x);
    x += (1 + (LARGE ? 0 : rnd(3) ? rnd(3) : rnd(9))) * scale - (scale > 1 && rnd(3) == 0);
    dat.push_back(rnd(3));
  }
  int bias1 = rnd(3), bias2 = rnd(3);
  static const int vs[] = {T_TRUE, T_FALSE, T_UNKNOWN};
  // in a large window the verdicts differ from the rule at few events only
  const unsigned odd = LARGE ? L / 2 + 1 : 3;
  const bool mixed = LARGE ? rnd(4) == 0 : true;
  for (size_t i = 0; i < L; i++) {
    const bool x1 = LARGE ? rnd(odd) == 0 : !rnd(3), x2 = LARGE ? rnd(odd) == 0 : !rnd(3);
    op1.push_back(x1 ? vs[rnd(3)] : mixed ? vs[bias1] : vs[0]);
    op2.push_back(x2 ? vs[rnd(3)] : mixed ? vs[bias2] : vs[1]);
  }
  if (LARGE && rnd(2)) op1.swap(op2);
  C0 = rnd(L);
  if (HUGE_ || rnd(3) == 0) C0 = rnd(2) ? 0 : L - 1;
  switch (rnd(5)) {
  case 0: t = std::max(0LL, tau[rnd(L)] - (long long)rnd(2)); break;
  case 1: t = tau[C0] + rnd(3); break;
  case 2: t = std::max(0LL, tau[rnd(L)] - bounds[bi] + (long long)rnd(3) - 1); break;
  case 3: t = tau[rnd(L)] + bounds[bi] + (long long)rnd(3) - 1; if (t < 0) t = 0; break;
  default: t = tau[C0];
  }
  clobber = rnd(4);
}
static void one(int o, bool verdict, bool frame) {
  begin();
  int bi; long long t;
  make(bi, t, true);
  long long b = bounds[bi];
  int before = rnd(2 * CAP + 3);
  if (o == DUR && tau[C0] > t) t = tau[C0] + rnd(4);
  int p = rnd(3);
  Sit s;
  build(s, tau, dat, before, C0);
  tell(o, b, t, p);
  plain = o == BETWEEN;
  horizon = o == UNTIL || o == BETWEEN || o == ALW ? t + b : (1LL << 62);
  below = true;
  evals = 0;
  std::string s0 = snap(s);
  timespan x = t;
  duration d = make_duration(0, false);
  int v = runb<E>(bi, o, *s.t, x, p, d);
  if (frame) {
    std::string s1 = snap(s);
    CHECK(s0 == s1, "%s leaves a trace:\n before %s\n after  %s", name[o], s0.c_str(), s1.c_str());
    CHECK((long long)x == t, "%s changes the caller's t from %lld to %lld", name[o], t, (long long)x);
  }
  if (verdict) {
    CHECK(below, "%s evaluates an operand at or after t+b", name[o]);
    int want = v;
    switch (o) {
    case UNTIL: want = m_until(t, b); break;
    case SINCE: want = m_since(t, b); break;
    case HIST: want = m_hist(t, b); break;
    case EVEQ: case ALEQ: want = m_ev_eq(t, b); break;
    case PAEQ: case HIEQ: want = m_past_eq(t, b); break;
    case EUNB: want = m_eunb(); break;
    case ALW: want = m_always(t, b); break;
    case PRP: want = m_prop(p, t); break;
    case DUR: {
      bool unk;
      long long m = m_dur(t, b, unk);
      CHECK((bool)d.second == unk, "duration is flagged %s, expected %s", d.second ? "unknown" : "known", unk ? "unknown" : "known");
      if (tau.back() > t) CHECK((long long)d.first == m, "duration is %lld, expected %lld", (long long)d.first, m);
      break;
    }
    }
    CHECK(v == want, "%s is %s, expected %s", name[o], V(v), V(want));
    CHECK(o == DUR || v == T_TRUE || v == T_FALSE || v == T_UNKNOWN, "%s is no verdict", name[o]);
  }
}
// a definite verdict on a window stays on every longer window
static void final_one(int o) {
  begin();
  int bi; long long t;
  make(bi, t, true);
  long long b = bounds[bi];
  if (o == DUR && tau[C0] > t) t = tau[C0] + rnd(4);
  int before = rnd(2 * CAP + 3), p = rnd(3);
  bool nested = rnd(3) == 0;
  std::vector<long long> T1 = tau; std::vector<int> D1 = dat, A1 = op1, A2 = op2;
  if (tau.size() == 1) return;
  size_t L0 = 1 + rnd(tau.size() - 1);
  if ((long)L0 <= C0) C0 = L0 - 1;
  if (o == DUR && tau[C0] > t) t = tau[C0] + rnd(4);
  // what the prefix's operands know: definite verdicts are final
  std::vector<int> P1(A1.begin(), A1.begin() + L0), P2(A2.begin(), A2.begin() + L0);
  for (size_t i = 0; i < L0; i++) { if (rnd(3) == 0) P1[i] = T_UNKNOWN; if (rnd(3) == 0) P2[i] = T_UNKNOWN; }
  int v[2]; duration d[2];
  horizon = 1LL << 62;
  for (int k = 0; k < 2; k++) {
    Sit s;
    tau = T1; dat = D1; op1 = A1; op2 = A2;
    if (k == 0) { tau.resize(L0); dat.resize(L0); op1 = P1; op2 = P2; }
    build(s, tau, dat, before, C0);
    tell(o, b, t, p);
    timespan x = t;
    d[k] = make_duration(0, false);
    v[k] = nested ? runb<NE>(bi, o, *s.t, x, p, d[k]) : runb<E>(bi, o, *s.t, x, p, d[k]);
    h("%s -> %s (%lld%s)\n", nested ? "operands are propositions 1 and 2" : "", V(v[k]), (long long)d[k].first, d[k].second ? " unknown" : "");
  }
  if (o == DUR) { if (!d[0].second) CHECK(!d[1].second && d[0].first == d[1].first, "duration %lld on the shorter window, %lld%s on the longer one", (long long)d[0].first, (long long)d[1].first, d[1].second ? " (unknown)" : ""); }
  else CHECK(v[0] == T_UNKNOWN || v[0] == v[1], "%s is %s on the shorter window and %s on the longer one", name[o], V(v[0]), V(v[1]));
}
int main(int c, char **v) {
  drv_start(c, v);
  std::string p = PROP;
  std::vector<int> ops;
  bool verdict = true, frame = false;
  if (p == "C12") ops = {PRP};
  if (p == "C13") ops = {UNTIL, BETWEEN};
  if (p == "C14") ops = {SINCE, HIST};
  if (p == "C15") ops = {EVEQ, ALEQ, PAEQ, HIEQ};
  if (p == "C16") ops = {ALW};
  if (p == "C17") ops = {EUNB};
  if (p == "C18") ops = {DUR};
  if (p == "C19") { for (int i = 0; i < NOPS; i++) ops.push_back(i); verdict = false; frame = true; }
  if (p == "C20") ops = {UNTIL, ALW, EUNB, EVEQ, ALEQ, PRP, DUR};
  if (HUGE_ && p == "C13") ops = {UNTIL}; // the in-between steps go over the window once per event
  if (HUGE_ && p == "C19") ops.erase(ops.begin() + BETWEEN);
  unsigned long n = HUGE_ ? (THOROUGH ? 4000 : 400) : THOROUGH ? ~0ul : 300000;
  for (unsigned long k = 0; k < n && !spent(THOROUGH ? 0.9 : 0.6); k++) {
    int o = ops[k % ops.size()];
    if (p == "C20") final_one(o); else one(o, verdict, frame);
  }
  return drv_end();
}
