// C21-C23: connectives, durations, events and time arithmetic over all small and many boundary values.
#include "drv.h"
#include <cstddef>
#include <cassert>
static long long clk_s, clk_n; static int clk_calls; static int clk_id;
static int fake_clock(clockid_t id, struct timespec *t) { clk_calls++; clk_id = id; t->tv_sec = clk_s; t->tv_nsec = clk_n; return 0; }
#include <pthread.h>
#define clock_gettime(a, b) fake_clock(a, b)
#include <circularbuffer.h>
#include <writer.h>
#include <reader.h>
#include <rmtld3/formulas.h>
#include <rmtld3/reader.h>
#undef clock_gettime
typedef Event<int> ev_t;
static const int VS[] = {T_TRUE, T_FALSE, T_UNKNOWN};
static const char *V(int v) { return v == T_TRUE ? "TRUE" : v == T_FALSE ? "FALSE" : v == T_UNKNOWN ? "UNKNOWN" : "?"; }
static std::vector<long long> spans() {
  static const long long b[] = {0, 1, 2, 3, 7, 999999999LL, 1000000000LL, 1000000001LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 4294967297LL, (1LL << 53), (1LL << 53) + 1, (1LL << 60)};
  std::vector<long long> r;
  for (long long x : b) { r.push_back(x); if (x) r.push_back(-x); }
  if (THOROUGH) for (int i = 0; i < 300; i++) r.push_back((long long)(rnd() >> (2 + rnd(60))) * (rnd(2) ? 1 : -1));
  else for (int i = 0; i < 40; i++) r.push_back((long long)(rnd() >> (2 + rnd(60))) * (rnd(2) ? 1 : -1));
  return r;
}
static void c21() {
  for (int a : VS) {
    begin();
    three_valued_type x = (three_valued_type)a;
    h("a=%s\n", V(a));
    int n = b3_not(x);
    CHECK(n == (a == T_TRUE ? T_FALSE : a == T_FALSE ? T_TRUE : T_UNKNOWN), "b3_not is %s", V(n));
    int f = b3_to_b4(x);
    CHECK(f == (a == T_TRUE ? FV_TRUE : a == T_FALSE ? FV_FALSE : FV_UNKNOWN), "b3_to_b4 is %d", f);
    for (int b : VS) {
      begin();
      three_valued_type y = (three_valued_type)b;
      h("a=%s b=%s\n", V(a), V(b));
      int r = b3_and(x, y);
      CHECK(r == (a == T_FALSE || b == T_FALSE ? T_FALSE : a == T_TRUE && b == T_TRUE ? T_TRUE : T_UNKNOWN), "b3_and is %s", V(r));
      r = b3_or(x, y);
      CHECK(r == (a == T_TRUE || b == T_TRUE ? T_TRUE : a == T_FALSE && b == T_FALSE ? T_FALSE : T_UNKNOWN), "b3_or is %s", V(r));
      for (int c : VS) {
        three_valued_type z = (three_valued_type)c;
        int o = b3_or(x, y), n = b3_and(y, z), oo = b3_or(y, z), nn = b3_and(x, y);
        three_valued_type eo = (three_valued_type)o, en = (three_valued_type)n, eoo = (three_valued_type)oo, enn = (three_valued_type)nn;
        int w, g;
        w = b3_not(eo); g = b3_not(b3_or(x, y)); CHECK(w == g, "b3_not(b3_or) is %s, expected %s", V(g), V(w));
        w = b3_not(enn); g = b3_not(b3_and(x, y)); CHECK(w == g, "b3_not(b3_and) is %s, expected %s", V(g), V(w));
        w = b3_and(eo, eoo); g = b3_and(b3_or(x, y), b3_or(y, z)); CHECK(w == g, "b3_and(b3_or,b3_or) is %s, expected %s", V(g), V(w));
        w = b3_or(enn, en); g = b3_or(b3_and(x, y), b3_and(y, z)); CHECK(w == g, "b3_or(b3_and,b3_and) is %s, expected %s", V(g), V(w));
        w = eo == T_TRUE; g = b3_or(x, y) == T_TRUE; CHECK(w == g, "b3_or(..) == T_TRUE is %d, expected %d", g, w);
      }
    }
  }
  struct { int f, t; } m4[] = {{FV_TRUE, T_TRUE}, {FV_FALSE, T_FALSE}, {FV_UNKNOWN, T_UNKNOWN}, {FV_SYMBOL, T_UNKNOWN}};
  for (auto &m : m4) {
    begin();
    h("four-valued %d\n", m.f);
    four_valued_type x = (four_valued_type)m.f;
    int r = b4_to_b3(x);
    CHECK(r == m.t, "b4_to_b3 is %s", V(r));
  }
  std::vector<long long> vs = spans();
  for (long long a : vs) for (long long b : vs) for (int fa = 0; fa < 2; fa++) for (int fb = 0; fb < 2; fb++) {
    begin();
    h("durations %lld%s and %lld%s\n", a, fa ? " (unknown)" : "", b, fb ? " (unknown)" : "");
    duration x = make_duration(a, (bool)fa), y = make_duration(b, (bool)fb);
    CHECK((long long)x.first == a && (int)x.second == fa, "make_duration gives %lld %d", (long long)x.first, (int)x.second);
    int r = b3_lessthan(x, y);
    CHECK(r == (fa || fb ? T_UNKNOWN : a < b ? T_TRUE : T_FALSE), "b3_lessthan is %s", V(r));
    long long e;
    if (!__builtin_add_overflow(a, b, &e)) {
      duration z = sum_dur(x, y);
      CHECK((long long)z.first == e && (bool)z.second == (fa || fb), "sum is %lld %d", (long long)z.first, (int)z.second);
    }
    if (!__builtin_mul_overflow(a, b, &e)) {
      duration z = mult_dur(x, y);
      CHECK((long long)z.first == e && (bool)z.second == (fa || fb), "product is %lld %d", (long long)z.first, (int)z.second);
    }
  }
}
static void c22() {
  std::vector<long long> ts = spans();
  static const int ds[] = {0, 1, -1, 5, 256, 65536, INT32_MAX, INT32_MIN};
  for (long long t : ts) for (long long u : ts) {
    begin();
    int d = ds[rnd(8)], k = rnd(3) ? d : ds[rnd(8)];
    timespan tt = t, uu = u;
    h("events (%d,%lld) (%d,%lld)\n", d, t, k, u);
    const ev_t a(d, tt), b(k, uu);
    CHECK(a.getData() == d && (long long)a.getTime() == t, "constructor stores (%d,%lld)", a.getData(), (long long)a.getTime());
    CHECK((a < b) == (t < u), "event < event");
    CHECK((a <= b) == (t <= u), "event <= event");
    CHECK((a > b) == (t > u), "event > event");
    CHECK((a >= b) == (t >= u), "event >= event");
    CHECK((a == b) == (t == u && d == k), "event == event");
    CHECK((a != b) == !(t == u && d == k), "event != event");
    CHECK((a < uu) == (t < u), "event < time");
    CHECK((a <= uu) == (t <= u), "event <= time");
    CHECK((a > uu) == (t > u), "event > time");
    CHECK((a >= uu) == (t >= u), "event >= time");
    CHECK((a == uu) == (t == u), "event == time");
    CHECK((a != uu) == (t != u), "event != time");
    CHECK((tt < b) == (t < u), "time < event");
    CHECK((tt <= b) == (t <= u), "time <= event");
    CHECK((tt > b) == (t > u), "time > event");
    CHECK((tt >= b) == (t >= u), "time >= event");
    CHECK((tt == b) == (t == u), "time == event");
    CHECK((tt != b) == (t != u), "time != event");
    ev_t c = a;
    CHECK(c.getData() == d && (long long)c.getTime() == t, "copy construction stores (%d,%lld)", c.getData(), (long long)c.getTime());
    c = &b;
    CHECK(c.getData() == k && (long long)c.getTime() == u && b.getData() == k && (long long)b.getTime() == u, "assignment stores (%d,%lld)", c.getData(), (long long)c.getTime());
    c.setTime(tt);
    CHECK(c.getData() == k && (long long)c.getTime() == t, "setTime leaves (%d,%lld)", c.getData(), (long long)c.getTime());
    c.setData(d);
    CHECK(c.getData() == d && (long long)c.getTime() == t, "setData leaves (%d,%lld)", c.getData(), (long long)c.getTime());
    int kk = k;
    c.set(kk, uu);
    CHECK(c.getData() == k && (long long)c.getTime() == u && kk == k && (long long)uu == u, "set leaves (%d,%lld)", c.getData(), (long long)c.getTime());
    c = &c;
    CHECK(c.getData() == k && (long long)c.getTime() == u, "self assignment leaves (%d,%lld)", c.getData(), (long long)c.getTime());
  }
  begin();
  ev_t z;
  CHECK(z.getData() == 0 && z.getTime() == 0, "the default event is (%d,%lld)", z.getData(), (long long)z.getTime());
}
static void c23() {
  const long long G = 1000000000LL;
  std::vector<long long> ss = spans(), ns = {0, 1, 2, 499999999, 500000000, 500000001, 999999998, 999999999};
  for (int i = 0; i < (THOROUGH ? 12 : 4); i++) ns.push_back(rnd(G));
  for (long long s1 : ss) for (long long s2 : ss) {
    if (s1 > (1LL << 59) || s2 > (1LL << 59) || s1 < -(1LL << 59) || s2 < -(1LL << 59)) continue;
    for (long long n1 : ns) for (long long n2 : ns) {
      begin();
      h("(%lld s,%lld ns) (%lld s,%lld ns)\n", s1, n1, s2, n2);
      for (int al = 0; al < 3; al++) {
        struct timespec a = {s1, n1}, b = {s2, n2}, c = {77, 78};
        struct timespec *r = al == 0 ? &c : al == 1 ? &a : &b;
        timespecadd(&a, &b, r);
        long long es = s1 + s2, en = n1 + n2;
        if (en >= G) { es++; en -= G; }
        CHECK(r->tv_sec == es && r->tv_nsec == en, "timespecadd (result in %s) gives (%lld,%lld)", al == 0 ? "a third" : al == 1 ? "the first" : "the second", (long long)r->tv_sec, (long long)r->tv_nsec);
        struct timespec a2 = {s1, n1}, b2 = {s2, n2}, c2 = {77, 78};
        r = al == 0 ? &c2 : al == 1 ? &a2 : &b2;
        timespecsub(&a2, &b2, r);
        es = s1 - s2; en = n1 - n2;
        if (en < 0) { es--; en += G; }
        CHECK(r->tv_sec == es && r->tv_nsec == en, "timespecsub (result in %s) gives (%lld,%lld)", al == 0 ? "a third" : al == 1 ? "the first" : "the second", (long long)r->tv_sec, (long long)r->tv_nsec);
      }
      struct timespec a = {s1, n1}, b = {s2, n2};
      bool lt = s1 < s2 || (s1 == s2 && n1 < n2), eq = s1 == s2 && n1 == n2;
      CHECK((bool)timespeccmp(&a, &b, <) == lt, "timespeccmp <");
      CHECK((bool)timespeccmp(&a, &b, <=) == (lt || eq), "timespeccmp <=");
      CHECK((bool)timespeccmp(&a, &b, >) == !(lt || eq), "timespeccmp >");
      CHECK((bool)timespeccmp(&a, &b, >=) == !lt, "timespeccmp >=");
      CHECK((bool)timespeccmp(&a, &b, ==) == eq, "timespeccmp ==");
      CHECK((bool)timespeccmp(&a, &b, !=) == !eq, "timespeccmp !=");
      CHECK((bool)timespecisset(&a) == (s1 || n1), "timespecisset");
      CHECK(a.tv_sec == s1 && a.tv_nsec == n1 && b.tv_sec == s2 && b.tv_nsec == n2, "a comparison changed its operands");
      timespecclear(&a);
      CHECK(a.tv_sec == 0 && a.tv_nsec == 0, "timespecclear");
    }
  }
  std::vector<unsigned> us = {0, 1, 2, 999, 1000, 999999, 1000000, 1000001, 1999999, 2147483u, 2147484u, 4294967u, 4294968u, 2147483647u, 2147483648u, 4294967295u, 60000000u, 3600000000u};
  for (int i = 0; i < 20000; i++) us.push_back((unsigned)(rnd() >> (32 + rnd(24))));
  for (unsigned x : us) {
    begin();
    useconds_t u = x;
    struct timespec r = {5, 6};
    h("%u microseconds\n", x);
    useconds_t2timespec(&u, &r);
    CHECK(r.tv_sec == x / 1000000 && r.tv_nsec == (long)(x % 1000000) * 1000 && u == x, "useconds_t2timespec gives (%lld,%lld)", (long long)r.tv_sec, (long long)r.tv_nsec);
  }
  useconds_t arr[2] = {7, 2500000};
  struct timespec ar = {0, 0};
  begin();
  useconds_t2timespec(arr + 1, &ar);
  CHECK(ar.tv_sec == 2 && ar.tv_nsec == 500000000, "useconds_t2timespec(array + 1) gives (%lld,%lld)", (long long)ar.tv_sec, (long long)ar.tv_nsec);
  for (long long s : ss) for (long long n : ns) {
    if (s < 0 || s >= 2147483648LL * 3) continue;
    begin();
    clk_s = s; clk_n = n; clk_calls = 0;
    h("clock reads (%lld,%lld)\n", s, n);
#define clock_gettime(a, b) fake_clock(a, b)
    unsigned long long r = clockgettime();
#undef clock_gettime
    CHECK(r == (unsigned long long)s * G + n && clk_calls == 1, "clockgettime() is %llu after %d readings", r, clk_calls);
  }
}
int main(int c, char **v) {
  drv_start(c, v);
  std::string p = PROP;
  do {
    if (p == "C21") c21();
    if (p == "C22") c22();
    if (p == "C23") c23();
  } while (THOROUGH && !spent(0.7));
  return drv_end();
}
