// Verification harness, software configuration.  Only instantiates and wraps
// the real headers; every wrapper calls exactly one library entity.
#include <cstddef>
#include <cassert>
#include <cstring>
#include <new>
#include <unistd.h>
#include <circularbuffer.h>
#include <reader.h>
#include <writer.h>
#include <rmtld3/formulas.h>
#include <rmtld3/reader.h>

#ifndef VN
#define VN 7919
#endif
#ifndef VB
#define VB 71582777
#endif

#ifndef VT
#define VT int
#endif
typedef Event<VT> event_t;
typedef RTML_buffer<event_t, VN> buffer_t;
typedef RTML_reader<buffer_t> reader_t;
typedef RTML_writer<buffer_t> writer_t;
typedef RMTLD3_reader<reader_t> trace_t;

#define K(name, val) extern "C" { extern const unsigned long name; const unsigned long name = (val); }
K(off_array, offsetof(buffer_t, array))
K(off_writer, offsetof(buffer_t, writer))
K(off_size, offsetof(buffer_t, size))
K(off_size_util, offsetof(buffer_t, size_util))
K(off_state_global, offsetof(buffer_t, state_global))
K(off_page, offsetof(buffer_t, page))
K(sz_buffer, sizeof(buffer_t))
K(sz_array, sizeof(((buffer_t *)0)->array))
typedef buffer_t::state_t st_t;
K(off_st_top, offsetof(st_t, top))
K(off_st_bottom, offsetof(st_t, bottom))
K(off_st_pos, offsetof(st_t, pos))
K(off_st_event, offsetof(st_t, event))
K(sz_state, sizeof(st_t))
K(off_ev_data, offsetof(event_t, data))
K(off_ev_time, offsetof(event_t, time))
K(sz_event, sizeof(event_t))
K(sz_data, sizeof(VT))
K(sz_reader, sizeof(reader_t))
K(off_rd_top, offsetof(reader_t, top))
K(off_rd_bottom, offsetof(reader_t, bottom))
K(off_rd_timestamp, offsetof(reader_t, timestamp))
K(sz_writer, sizeof(writer_t))
K(off_wr_state, offsetof(writer_t, state))
K(off_wr_stateref, offsetof(writer_t, stateref))
K(sz_trace, sizeof(trace_t))
K(off_tr_cursor, offsetof(trace_t, cursor))
K(off_page_ref, offsetof(page_t, stateref))
K(off_page_counter, offsetof(page_t, counter))
K(e_OK, buffer_t::OK)
K(e_EMPTY, buffer_t::EMPTY)
K(e_BUFFER_OVERFLOW, buffer_t::BUFFER_OVERFLOW)
K(e_OUT_OF_BOUND, buffer_t::OUT_OF_BOUND)
K(e_UNSAFE, buffer_t::UNSAFE)
K(r_AVAILABLE, reader_t::AVAILABLE)
K(r_UNAVAILABLE, reader_t::UNAVAILABLE)
K(r_READER_OVERFLOW, reader_t::READER_OVERFLOW)
K(r_READ_ERROR, reader_t::READ_ERROR)
K(g_NO_GAP, reader_t::NO_GAP)
K(g_GAP, reader_t::GAP)
K(g_UNKNOWN_GAP, reader_t::UNKNOWN_GAP)
K(t_TRUE, T_TRUE)
K(t_FALSE, T_FALSE)
K(t_UNKNOWN, T_UNKNOWN)
K(fv_TRUE, FV_TRUE)
K(fv_FALSE, FV_FALSE)
K(fv_UNKNOWN, FV_UNKNOWN)
K(fv_SYMBOL, FV_SYMBOL)
typedef duration dur_t;
K(off_dur_first, offsetof(dur_t, first))
K(off_dur_second, offsetof(dur_t, second))

// operands of the formulas: external, specified by contract only
struct E {
  static three_valued_type eval_phi1(trace_t &, timespan &);
  static three_valued_type eval_phi2(trace_t &, timespan &);
};

extern "C" {
// ---- event
void vf_event_ctor0(void *p) { new (p) event_t(); }
void vf_event_ctor(void *p, const VT *d, const timespan *t) { new (p) event_t(*d, *t); }
VT vf_event_getData(const event_t *e) { return e->getData(); }
timespan vf_event_getTime(const event_t *e) { return e->getTime(); }
void vf_event_set(event_t *e, VT *d, timespan *t) { e->set(*d, *t); }
void vf_event_setTime(event_t *e, timespan *t) { e->setTime(*t); }
void vf_event_setData(event_t *e, VT *d) { e->setData(*d); }
void vf_event_assign(event_t *e, const event_t *o) { *e = o; }
#define CMP(n, op)                                                            \
  int vf_event_##n(const event_t *a, const event_t *b) { return *a op *b; }   \
  int vf_event_##n##_t(const event_t *a, const timespan *t) { return *a op *t; } \
  int vf_event_t_##n(const event_t *a, const timespan *t) { return *t op *a; }
CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=) CMP(eq, ==) CMP(ne, !=)
// ---- buffer
void vf_buffer_ctor(void *p) { new (p) buffer_t(); }
int vf_buffer_push(buffer_t *b, const event_t *e) { return b->push(*e); }
int vf_buffer_pull(buffer_t *b, event_t *e) { return b->pull(*e); }
int vf_buffer_pop(buffer_t *b, event_t *e) { return b->pop(*e); }
int vf_buffer_read(const buffer_t *b, event_t *e, size_t i) { return b->read(*e, i); }
int vf_buffer_write(buffer_t *b, event_t *e, size_t i) { return b->write(*e, i); }
int vf_buffer_state(const buffer_t *b, size_t *bo, size_t *to) { return b->state(*bo, *to); }
int vf_buffer_state_ts(const buffer_t *b, size_t *bo, size_t *to, timespanw *ts, timespanw *tst) { return b->state(*bo, *to, *ts, *tst); }
size_t vf_buffer_length(const buffer_t *b) { return b->length(); }
void vf_buffer_debug(const buffer_t *b) { b->debug(); }
void vf_buffer_assign(buffer_t *b, const buffer_t *o) { *b = *o; }
void vf_buffer_increment_writer(buffer_t *b) { b->increment_writer(); }
// ---- writer
void vf_writer_ctor(void *p, buffer_t *b) { new (p) writer_t(*b); }
int vf_writer_push(writer_t *w, event_t *e) { return w->push(*e); }
int vf_writer_push_all(writer_t *w, event_t *e) { return w->push_all(*e); }
// ---- reader
void vf_reader_ctor(void *p, const buffer_t *b) { new (p) reader_t(*b); }
int vf_reader_pull(reader_t *r, event_t *e) { return r->pull(*e); }
int vf_reader_pop(reader_t *r, event_t *e) { return r->pop(*e); }
int vf_reader_synchronize(reader_t *r) { return r->synchronize(); }
int vf_reader_gap(const reader_t *r) { return r->gap(); }
size_t vf_reader_length(const reader_t *r) { return r->length(); }
void vf_reader_debug(const reader_t *r) { r->debug(); }
// ---- trace reader
void vf_trace_ctor(void *p, const buffer_t *b) { new (p) trace_t(*b); }
void vf_trace_ctor_l(void *p, const buffer_t *b, size_t *l) { new (p) trace_t(*b, *l); }
int vf_trace_reset(trace_t *t) { return t->reset(); }
int vf_trace_set(trace_t *t, timespan *x) { return t->set(*x); }
int vf_trace_set_cursor(trace_t *t, size_t *c) { return t->set_cursor(*c); }
size_t vf_trace_get_cursor(trace_t *t) { return t->get_cursor(); }
int vf_trace_increment_cursor(trace_t *t) { return t->increment_cursor(); }
int vf_trace_decrement_cursor(trace_t *t) { return t->decrement_cursor(); }
int vf_trace_pull(trace_t *t, event_t *e) { return t->pull(*e); }
int vf_trace_read(trace_t *t, event_t *e) { return t->read(*e); }
int vf_trace_read_next(trace_t *t, event_t *e) { return t->read_next(*e); }
int vf_trace_read_previous(trace_t *t, event_t *e) { return t->read_previous(*e); }
size_t vf_trace_length(const trace_t *t) { return t->length(); }
size_t vf_trace_consumed(const trace_t *t) { return t->consumed(); }
void vf_trace_debug(const trace_t *t) { t->debug(); }
// ---- formulas
int vf_prop(trace_t *tr, const proposition *p, timespan *t) { return prop<trace_t>(*tr, *p, *t); }
int vf_until(trace_t *tr, timespan *t) { return until_less<trace_t, E, VB>(*tr, *t); }
int vf_until_between(trace_t *tr, timespan *t) { return until_less<trace_t, E, VB, with_in_between>(*tr, *t); }
int vf_eventually_equal(trace_t *tr, timespan *t) { return eventually_equal<trace_t, E, VB>(*tr, *t); }
int vf_always_equal(trace_t *tr, timespan *t) { return always_equal<trace_t, E, VB>(*tr, *t); }
int vf_eventually_unbounded(trace_t *tr, timespan *t) { return eventually_less_unbounded<trace_t, E>(*tr, *t); }
int vf_always_less(trace_t *tr, timespan *t) { return always_less<trace_t, E, VB>(*tr, *t); }
int vf_since(trace_t *tr, timespan *t) { return since_less<trace_t, E, VB>(*tr, *t); }
int vf_pasteventually_equal(trace_t *tr, timespan *t) { return pasteventually_equal<trace_t, E, VB>(*tr, *t); }
int vf_historically_equal(trace_t *tr, timespan *t) { return historically_equal<trace_t, E, VB>(*tr, *t); }
int vf_historically_less(trace_t *tr, timespan *t) { return historically_less<trace_t, E, VB>(*tr, *t); }
void vf_duration(trace_t *tr, timespan *t, dur_t *out) { dur_t d = duration_term<trace_t, E, VB>(*tr, *t); *out = d; }
// ---- three-valued logic
int vf_b3_and(int a, int b) { three_valued_type x = (three_valued_type)a, y = (three_valued_type)b; return b3_and(x, y); }
int vf_b3_or(int a, int b) { three_valued_type x = (three_valued_type)a, y = (three_valued_type)b; return b3_or(x, y); }
int vf_b3_not(int a) { three_valued_type x = (three_valued_type)a; return b3_not(x); }
int vf_b3_to_b4(int a) { three_valued_type x = (three_valued_type)a; return b3_to_b4(x); }
int vf_b4_to_b3(int a) { four_valued_type x = (four_valued_type)a; return b4_to_b3(x); }
int vf_b3_not_or(int a, int b) { three_valued_type x = (three_valued_type)a, y = (three_valued_type)b; return b3_not(b3_or(x, y)); }
int vf_b3_not_and(int a, int b) { three_valued_type x = (three_valued_type)a, y = (three_valued_type)b; return b3_not(b3_and(x, y)); }
int vf_b3_and_or(int a, int b, int c) { three_valued_type x = (three_valued_type)a, y = (three_valued_type)b, z = (three_valued_type)c; return b3_and(b3_or(x, y), b3_or(y, z)); }
int vf_b3_or_and(int a, int b, int c) { three_valued_type x = (three_valued_type)a, y = (three_valued_type)b, z = (three_valued_type)c; return b3_or(b3_and(x, y), b3_and(y, z)); }
int vf_b3_and_not(int a, int b) { three_valued_type x = (three_valued_type)a, y = (three_valued_type)b; return b3_and(b3_not(x), b3_not(y)); }
int vf_b3_roundtrip(int a) { three_valued_type x = (three_valued_type)a; return b4_to_b3(b3_to_b4(x)); }
int vf_b3_or_is_true(int a, int b) { three_valued_type x = (three_valued_type)a, y = (three_valued_type)b; return b3_or(x, y) == T_TRUE; }
int vf_b3_and_is_true(int a, int b) { three_valued_type x = (three_valued_type)a, y = (three_valued_type)b; return T_TRUE == b3_and(x, y); }
int vf_b3_lessthan(const dur_t *a, const dur_t *b) { return b3_lessthan((*a), (*b)); }
void vf_sum_dur(const dur_t *a, const dur_t *b, dur_t *r) { dur_t d = sum_dur(*a, *b); *r = d; }
void vf_mult_dur(const dur_t *a, const dur_t *b, dur_t *r) { dur_t d = mult_dur(*a, *b); *r = d; }
void vf_make_duration(timeabs a, int b, dur_t *r) { dur_t d = make_duration(a, (bool)b); *r = d; }
// ---- time
void vf_timespecadd(struct timespec *a, struct timespec *b, struct timespec *c) { timespecadd(a, b, c); }
void vf_timespecsub(struct timespec *a, struct timespec *b, struct timespec *c) { timespecsub(a, b, c); }
int vf_timespeccmp_lt(struct timespec *a, struct timespec *b) { return timespeccmp(a, b, <); }
int vf_timespeccmp_le(struct timespec *a, struct timespec *b) { return timespeccmp(a, b, <=); }
int vf_timespeccmp_gt(struct timespec *a, struct timespec *b) { return timespeccmp(a, b, >); }
int vf_timespeccmp_ge(struct timespec *a, struct timespec *b) { return timespeccmp(a, b, >=); }
int vf_timespeccmp_eq(struct timespec *a, struct timespec *b) { return timespeccmp(a, b, ==); }
int vf_timespeccmp_ne(struct timespec *a, struct timespec *b) { return timespeccmp(a, b, !=); }
int vf_timespecisset(struct timespec *a) { return timespecisset(a); }
void vf_timespecclear(struct timespec *a) { timespecclear(a); }
void vf_useconds(useconds_t *u, struct timespec *r) { useconds_t2timespec(u, r); }
void vf_useconds_ix(useconds_t *u, struct timespec *r) { useconds_t2timespec(u + 1, r); }
timespan vf_clockgettime() { return clockgettime(); }
}
