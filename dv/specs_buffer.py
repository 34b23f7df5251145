"""Contracts of RTML_buffer, RTML_writer, RTML_reader and RMTLD3_reader (sequential use)."""
import z3
from .contract import *

BUF = r'RTML_buffer<Event<[a-z ]+>, \d+ul>'
RD = r'RTML_reader<%s >' % BUF
TR = r'RMTLD3_reader<%s, unsigned long>' % RD
WR = r'RTML_writer<%s >' % BUF


def K(env, n):
    return env.k[n]


def c64(v):
    return z3.BitVecVal(v, 64)


def ite(c, a, b, w=32):
    return z3.If(c, tobv(a, w), tobv(b, w))


def ok_or_unsafe(env, st, b):
    return ite(z3.UGT(env.writers(st, b), 1), env.k['e_UNSAFE'], env.k['e_OK'])


def buf_req(c, b=None):
    e = c.e
    b = b if b is not None else e.ex.as_ptr(c.pre, c.a[0])
    return [('buffer invariant', z3.And(e.buf_wf(c.pre, b)))]


def P(c, i):
    return c.e.ex.as_ptr(c.pre, c.a[i])


SETTLED = 'settled: no writer is left waiting for a push that has completed'


def free_note(c, s, rec):
    k = c.e.k
    c.free(s, rec.add(k['off_st_pos']), 8)
    c.free(s, rec.add(k['off_st_event'] + k['off_ev_data']), c.e.D)
    c.free(s, rec.add(k['off_st_event'] + k['off_ev_time']), 8)


# ------------------------------------------------------------------ buffer
def buf_cases(*more, const=False):
    def cases(env):
        out = []
        for case in ('own', 'ext'):
            def build(st, case=case):
                b = env.new_buffer(st, case=case)
                return [b] + [m(env, st, b) for m in more]
            out.append(('published record: ' + case, build))
        return out
    return cases


def an_event(env, st, b):
    return env.new_event(st, 'event')


def an_index(env, st, b):
    return env.sym('index')


def a_word(env, st, b):
    rid = env.ex.new_region(st, 'word', 8, visible=True)
    env.cell(st, Ptr(rid), 8, env.sym('word'))
    return Ptr(rid)


def push_out(c):
    e, s0, b = c.e, c.pre, P(c, 0)
    ev = P(c, 1)
    t, bo = e.top(s0, b), e.bottom(s0, b)
    full = e.inc(t) == bo

    def eff(is_full):
        def fn(s):
            e.set_slot(s, b, t, e.ev_data(s0, ev), e.ev_time(s0, ev))
            e.set_top(s, b, e.inc(t))
            # the completion note for writers is the implementation's business, as long as it stays true
            free_note(c, s, e.record(s0, b))
            ens = [(SETTLED, z3.Implies(settled(e, s0, b), settled(e, s, b)))]
            if is_full:
                e.set_bottom(s, b, e.inc(bo))
                return K(e, 'e_BUFFER_OVERFLOW'), ens
            return ok_or_unsafe(e, s0, b), ens
        return fn
    return [Out('room', z3.Not(full), eff(False)), Out('full', full, eff(True))]


def pull_out(c):
    e, s0, b, ev = c.e, c.pre, P(c, 0), P(c, 1)
    bo = e.bottom(s0, b)
    some = e.length(s0, b) != 0

    def take(s):
        e.set_event(s, ev, e.data(s0, b, bo), e.time(s0, b, bo))
        e.set_bottom(s, b, e.inc(bo))
        return ok_or_unsafe(e, s0, b), []
    return [Out('event available', some, take), Out('empty', z3.Not(some), lambda s: (K(e, 'e_EMPTY'), []))]


def pop_out(c):
    e, s0, b, ev = c.e, c.pre, P(c, 0), P(c, 1)
    t = e.dec(e.top(s0, b))
    some = e.length(s0, b) != 0

    def take(s):
        e.set_event(s, ev, e.data(s0, b, t), e.time(s0, b, t))
        e.set_top(s, b, t)
        return ok_or_unsafe(e, s0, b), []
    return [Out('event available', some, take), Out('empty', z3.Not(some), lambda s: (K(e, 'e_EMPTY'), []))]


def read_out(c):
    e, s0, b, ev = c.e, c.pre, P(c, 0), P(c, 1)
    i = tobv(c.a[2], 64)
    inb = z3.ULT(i, e.S())

    def rd(s):
        e.set_event(s, ev, e.data(s0, b, i), e.time(s0, b, i))
        return K(e, 'e_OK'), []
    return [Out('index in range', inb, rd), Out('index out of range', z3.Not(inb), lambda s: (K(e, 'e_OUT_OF_BOUND'), []))]


def write_out(c):
    e, s0, b, ev = c.e, c.pre, P(c, 0), P(c, 1)
    i = tobv(c.a[2], 64)
    inb = z3.ULT(i, e.S())

    def wr(s):
        e.set_slot(s, b, i, e.ev_data(s0, ev), e.ev_time(s0, ev))
        return K(e, 'e_OK'), []
    return [Out('index in range', inb, wr), Out('index out of range', z3.Not(inb), lambda s: (K(e, 'e_OUT_OF_BOUND'), []))]


def state_out(c):
    e, s0, b = c.e, c.pre, P(c, 0)

    def fn(s):
        e.cell(s, P(c, 1), 8, e.bottom(s0, b))
        e.cell(s, P(c, 2), 8, e.top(s0, b))
        return K(e, 'e_OK'), []
    return [Out('always', z3.BoolVal(True), fn)]


def state_ts_out(c):
    e, s0, b = c.e, c.pre, P(c, 0)

    def fn(s):
        bo, t = e.bottom(s0, b), e.top(s0, b)
        e.cell(s, P(c, 1), 8, bo)
        e.cell(s, P(c, 2), 8, t)
        e.cell(s, P(c, 3), 8, e.time(s0, b, bo))
        e.cell(s, P(c, 4), 8, e.time(s0, b, t))
        return K(e, 'e_OK'), []
    return [Out('always', z3.BoolVal(True), fn)]


def length_out(c):
    e, s0, b = c.e, c.pre, P(c, 0)
    return [Out('always', z3.BoolVal(True), lambda s: (e.length(s0, b), []))]


def noop_out(c):
    return [Out('changes nothing', z3.BoolVal(True), lambda s: (None, []))]


def incw_out(c):
    e, s0, b = c.e, c.pre, P(c, 0)

    def fn(s):
        e.cell(s, b.add(e.k['off_writer']), 1, e.writers(s0, b) + 1)
        return None, []
    return [Out('always', z3.BoolVal(True), fn)]


def ctor_cases(env):
    def build(st):
        b = env.new_buffer(st, case='own', wf=False)
        # raw storage: nothing is known about it
        r = st.wregion(b.rid)
        for o in list(r.cells):
            n = r.cells[o][0]
            r.cells[o] = (n, env.sym('raw', n * 8))
        return [b]
    return [('raw storage', build)]


def ctor_out(c):
    e, b = c.e, P(c, 0)
    k = e.k

    def fn(s):
        for off in range(k['off_array'] + k['sz_array'], k['off_writer'], 8):
            c.free(s, b.add(off), 8)
        e.cell(s, b.add(k['off_writer']), 1, 0)
        e.cell(s, b.add(k['off_size']), 8, e.S())
        e.cell(s, b.add(k['off_size_util']), 8, e.N)
        g = b.add(k['off_state_global'])
        for f in ('top', 'bottom', 'pos'):
            e.cell(s, g.add(k['off_st_' + f]), 8, 0)
        ge = g.add(k['off_st_event'])
        e.cell(s, ge.add(k['off_ev_data']), e.D, 0)
        e.cell(s, ge.add(k['off_ev_time']), 8, 0)
        e.cell(s, b.add(k['off_page'] + k['off_page_ref']), 8, g)
        c.free(s, b.add(k['off_page'] + k['off_page_counter']), 8)
        c.free_zone(s, b)
        W = e.ex.witness
        z = s.mem[b.rid].zone
        ens = [('every slot starts as the default event', z3.Implies(z3.ULT(W, z.limit), z3.And([z3.Select(a, W) == 0 for a in z.arrays.values()])))]
        return None, ens
    return [Out('always', z3.BoolVal(True), fn)]


def copy_cases(env):
    out = []
    for a in ('own', 'ext'):
        for b in ('own', 'ext'):
            def build(st, a=a, b=b):
                d = env.new_buffer(st, 'dst', case=a)
                s = env.new_buffer(st, 'src', case=b)
                return [d, s]
            out.append(('destination publishes through %s, source through %s record' % (a, b), build))
    return out


def copy_out(c):
    e, s0, d, s_ = c.e, c.pre, P(c, 0), P(c, 1)
    k = e.k

    def fn(s):
        s.wregion(d.rid).zone.arrays = dict(s0.mem[s_.rid].zone.arrays)
        c.free_slot(s, d, e.S())        # the array's last element is no slot of the buffer
        for off in range(k['off_array'] + k['sz_array'], k['off_writer'], 8):
            c.free(s, d.add(off), 8)
        e.cell(s, d.add(k['off_writer']), 1, e.writers(s0, s_))
        g = d.add(k['off_state_global'])
        for f, v in (('top', e.top(s0, s_)), ('bottom', e.bottom(s0, s_)), ('pos', e.pos(s0, s_))):
            e.cell(s, g.add(k['off_st_' + f]), 8, v)
        dd, tt = e.rec_event(s0, s_)
        e.cell(s, g.add(k['off_st_event'] + k['off_ev_data']), e.D, dd)
        e.cell(s, g.add(k['off_st_event'] + k['off_ev_time']), 8, tt)
        e.cell(s, d.add(k['off_page'] + k['off_page_ref']), 8, g)
        c.free(s, d.add(k['off_page'] + k['off_page_counter']), 8)
        return None, []
    return [Out('always', z3.BoolVal(True), fn)]


def copy_hints(env, pre, args, extra, s):
    d, src = env.ex.as_ptr(pre, args[0]), env.ex.as_ptr(pre, args[1])
    W = env.ex.witness

    def copied(leaf, below):
        def f(s, i):
            if s.mem[d.rid].zone is None:
                return None
            return z3.Implies(z3.ULT(W, i) if below else z3.And(z3.UGE(W, i), z3.ULE(W, env.N)), z3.Select(s.mem[d.rid].zone.arrays[leaf], W) == z3.Select(pre.mem[src.rid].zone.arrays[leaf], W))
        return f
    return dict(slotinvs=[('slots %s it are copied (%d)' % ('before' if b else 'from', l), copied(l, b)) for l in pre.mem[d.rid].zone.arrays for b in (True, False)] +
                [('within the array', lambda s, i: z3.ULE(i, env.S() + 1))])


def two_buf_req(c):
    return [('destination invariant', z3.And(c.e.buf_wf(c.pre, P(c, 0)))), ('source invariant', z3.And(c.e.buf_wf(c.pre, P(c, 1))))]


def bounded_scan_hints(env, pre, args, extra, s):
    return dict(bounds=[('slots', lambda s: env.S() + 1), ('size', lambda s: env.S())], terms=[], variants=[])


def buffer_specs():
    S = []
    def add(name, fn, cases, outs, req=buf_req, **kw):
        S.append(Spec(fn, 'vf_buffer_' + name, cases, req, outs, **kw))
    add('push', BUF + r'::push\(', buf_cases(an_event), push_out)
    add('pull', BUF + r'::pull\(', buf_cases(an_event), pull_out)
    add('pop', BUF + r'::pop\(', buf_cases(an_event), pop_out)
    add('read', BUF + r'::read\(', buf_cases(an_event, an_index), read_out, req=lambda c: [('slot count', c.e.size(c.pre, P(c, 0)) == c.e.S())])
    add('write', BUF + r'::write\(', buf_cases(an_event, an_index), write_out, req=lambda c: [('slot count', c.e.size(c.pre, P(c, 0)) == c.e.S())])
    add('state', BUF + r'::state\(unsigned long&, unsigned long&\)', buf_cases(a_word, a_word), state_out)
    add('state_ts', BUF + r'::state\(unsigned long&, unsigned long&, long', buf_cases(a_word, a_word, a_word, a_word), state_ts_out)
    add('length', BUF + r'::length\(', buf_cases(), length_out, ret_w=64)
    add('debug', BUF + r'::debug\(', buf_cases(), noop_out, hints=debug_hints)
    add('increment_writer', BUF + r'::increment_writer\(', buf_cases(), incw_out)
    add('ctor', BUF + r'::RTML_buffer\(\)', ctor_cases, ctor_out, req=lambda c: [], callable_=False)
    add('assign', BUF + r'::operator=\(', copy_cases, copy_out, req=two_buf_req, ret_w=64, hints=copy_hints)
    return S


def debug_hints(env, pre, args, extra, s):
    return dict(bounds=[('slots', lambda s: env.S() + 2), ('size', lambda s: env.S() + 1)], cellinvs=[
        ('scan index within the array', 4, lambda s, v: z3.ULE(z3.ZeroExt(32, v), env.S() + 1)),
        ('scan index within the slots', 4, lambda s, v: z3.ULE(z3.ZeroExt(32, v), env.S())),
        ('scan index within the slots', 8, lambda s, v: z3.ULE(v, env.S())),
        ('scan index within the array', 8, lambda s, v: z3.ULE(v, env.S() + 1))])


# ------------------------------------------------------------------ readers
def reader_cases(*more, trace=False, cursor_wf=True):
    def cases(env):
        out = []
        for case in ('own', 'ext'):
            def build(st, case=case):
                b = env.new_buffer(st, case=case)
                r = env.new_reader(st, b, trace=trace, cursor_wf=cursor_wf)
                return [r] + [m(env, st, b) for m in more]
            out.append(('published record: ' + case, build))
        return out if not trace else out[:1]
    return cases


def rd_req(c):
    e, s, r = c.e, c.pre, P(c, 0)
    b = e.rbuf(s, r)
    return [('slot count', e.size(s, b) == e.S()), ('window indices', z3.And(e.valid_ix(e.rtop(s, r)), e.valid_ix(e.rbot(s, r))))]


def rd_sync_req(c):
    e, s, r = c.e, c.pre, P(c, 0)
    return rd_req(c) + [('buffer invariant', z3.And(e.buf_wf(s, e.rbuf(s, r))))]


def is_gap(c, r):
    e, s = c.e, c.pre
    return e.rts(s, r) < e.time(s, e.rbuf(s, r), e.rbot(s, r))


def gap_out(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    return [Out('always', z3.BoolVal(True), lambda s: (ite(is_gap(c, r), e.k['g_GAP'], e.k['g_NO_GAP']), []))]


def rlength_out(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    return [Out('always', z3.BoolVal(True), lambda s: (e.rlen(s0, r), []))]


def rpull_out(c):
    e, s0, r, ev = c.e, c.pre, P(c, 0), P(c, 1)
    b = e.rbuf(s0, r)
    bo = e.rbot(s0, r)
    more = z3.UGT(e.rlen(s0, r), 1)

    def take(s):
        e.set_event(s, ev, e.data(s0, b, bo), e.time(s0, b, bo))
        e.set_r(s, r, 'bottom', e.inc(bo))
        e.set_r(s, r, 'timestamp', e.time(s0, b, e.inc(bo)))
        return ite(is_gap(c, r), e.k['r_READER_OVERFLOW'], e.k['r_AVAILABLE']), []
    return [Out('more than one event', more, take), Out('at most one event', z3.Not(more), lambda s: (e.k['r_UNAVAILABLE'], []))]


def rpop_out(c):
    e, s0, r, ev = c.e, c.pre, P(c, 0), P(c, 1)
    b = e.rbuf(s0, r)
    t = e.dec(e.rtop(s0, r))
    some = e.rlen(s0, r) != 0

    def take(s):
        e.set_event(s, ev, e.data(s0, b, t), e.time(s0, b, t))
        e.set_r(s, r, 'top', t)
        return ite(is_gap(c, r), e.k['r_READER_OVERFLOW'], e.k['r_AVAILABLE']), []
    return [Out('some event', some, take), Out('empty window', z3.Not(some), lambda s: (e.k['r_UNAVAILABLE'], []))]


def sync_req(c):
    """ghost d: events pushed since the window began (the event due at the reader's bottom is number T-d of T)"""
    e, s, r = c.e, c.pre, P(c, 0)
    b = e.rbuf(s, r)
    d, T = c.x['d'], c.x['T']
    t, bo, rb, ts = e.top(s, b), e.bottom(s, b), e.rbot(s, r), e.rts(s, r)
    k = T - d
    return rd_sync_req(c) + [
        ('pushes only: T events so far', z3.And(z3.ULT(T, c64(1) << 40), z3.ULE(d, T))),
        ('the buffer has only been pushed to', z3.If(z3.ULE(T, e.N), z3.And(bo == 0, t == T), bo == e.inc(t))),
        ('the reader\'s oldest event is number T-d', z3.If(z3.ULE(d, e.S()), e.slot(rb, d) == t, z3.BoolVal(True))),
        ('its slot holds it, or a newer event, or nothing yet', z3.Or(z3.And(z3.ULE(d, e.S()), e.time(s, b, rb) == ts), ts < e.time(s, b, rb))),
        ('times increase: the slot after the newest event, when written, holds an older one',
         z3.Implies(z3.And(z3.UGT(T, e.N), t == e.N), e.time(s, b, t) < e.time(s, b, bo))),
    ]


def sync_cases(env):
    out = []
    for case in ('own', 'ext'):
        def build(st, case=case):
            b = env.new_buffer(st, case=case)
            r = env.new_reader(st, b)
            return [r], dict(d=env.sym('d'), T=env.sym('T'))
        out.append(('published record: ' + case, build))
    return out


def sync_out(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    b = e.rbuf(s0, r)
    ret = tobv(c.aret, 32) if c.actual is not None else e.sym('ret', 32)
    t, bo = e.top(s0, b), e.bottom(s0, b)

    def nogap(s):
        e.set_r(s, r, 'top', t)
        return e.k['g_NO_GAP'], [('every event since the window began is retained', z3.ULE(c.x['d'], e.N))]

    def gap(s):
        e.set_r(s, r, 'top', t)
        nb = c.free(s, r.add(e.k['off_rd_bottom']), 8)
        e.set_r(s, r, 'timestamp', e.time(s0, b, nb))
        return e.k['g_GAP'], [('the window is all the buffer retains, or all of it from the reader\'s oldest event on',
                               z3.Or(nb == bo, z3.And(nb == e.rbot(s0, r), z3.ULE(c.x['d'], e.N), z3.ULE(e.dist(bo, nb), e.length(s0, b)))))]

    def unknown(s):
        return e.k['g_UNKNOWN_GAP'], [('only when the buffer is empty', t == bo)]
    return [Out('NO_GAP', ret == e.k['g_NO_GAP'], nogap), Out('GAP', ret == e.k['g_GAP'], gap), Out('UNKNOWN_GAP', ret == e.k['g_UNKNOWN_GAP'], unknown)]


def raw_reader_cases(size_key, trace):
    def cases(env):
        def build(st):
            b = env.new_buffer(st)
            r = env.new_reader(st, b, trace=trace, wf=False)
            rg = st.wregion(r.rid)
            for o in list(rg.cells):
                rg.cells[o] = (rg.cells[o][0], env.sym('raw', rg.cells[o][0] * 8))
            return [r, b]
        return [('raw storage', build)]
    return cases


def reader_ctor_out(trace):
    def outs(c):
        e, r, b = c.e, P(c, 0), P(c, 1)

        def fn(s):
            e.cell(s, r, 8, b)
            for f in ('top', 'bottom', 'timestamp'):
                e.set_r(s, r, f, 0)
            if trace:
                e.set_r(s, r, 'cursor', 0)
                e.cell(s, r.add(e.k['off_tr_cursor'] + 8), 8, P(c, 2) if len(c.a) > 2 else r.add(e.k['off_tr_cursor']))
            return None, []
        return [Out('always', z3.BoolVal(True), fn)]
    return outs


def reader_specs():
    S = []
    def add(name, fn, cases, outs, req=rd_req, **kw):
        S.append(Spec(fn, 'vf_reader_' + name, cases, req, outs, **kw))
    add('ctor', RD + r'::RTML_reader\(', raw_reader_cases('sz_reader', False), reader_ctor_out(False), req=lambda c: [], callable_=False)
    add('pull', RD + r'::pull\(', reader_cases(an_event), rpull_out)
    add('pop', RD + r'::pop\(', reader_cases(an_event), rpop_out)
    add('gap', RD + r'::gap\(', reader_cases(), gap_out)
    add('length', RD + r'::length\(', reader_cases(), rlength_out, ret_w=64)
    add('debug', RD + r'::debug\(', reader_cases(), noop_out)
    add('synchronize', RD + r'::synchronize\(', sync_cases, sync_out, req=sync_req, callable_=False)
    S[-1].frame_requires = rd_sync_req
    return S


# ------------------------------------------------------------------ trace reader
SORTED = z3.Function('strictly_increasing_window', z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(64)), z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())


def times(e, s, b):
    return e.zone(s, b).arrays[e.k['off_ev_time']]


def sorted_window(e, s, r):
    b = e.rbuf(s, r)
    return SORTED(times(e, s, b), e.rbot(s, r), e.rtop(s, r))


def sorted_instances(e, s, r, ix):
    """what strictly_increasing_window means, for the positions given"""
    b = e.rbuf(s, r)
    bo, n = e.rbot(s, r), e.rlen(s, r)
    out = []
    for i in ix:
        for j in ix:
            if i is j:
                continue
            di, dj = e.dist(bo, i), e.dist(bo, j)
            out.append(z3.Implies(z3.And(sorted_window(e, s, r), e.valid_ix(i), e.valid_ix(j), z3.ULT(di, dj), z3.ULT(dj, n)), e.time(s, b, i) < e.time(s, b, j)))
    return out


def tr_req(c):
    e, s, r = c.e, c.pre, P(c, 0)
    b = e.rbuf(s, r)
    return [('slot count', e.size(s, b) == e.S()), ('window indices', z3.And(e.valid_ix(e.rtop(s, r)), e.valid_ix(e.rbot(s, r)))),
            ('cursor in the window', e.in_window(s, r, e.cursor(s, r)))]


def tr_req0(c):
    return tr_req(c)[:2]


def tr_req_cur(c):
    e, s, r = c.e, c.pre, P(c, 0)
    return tr_req(c)[:2] + [('cursor is a slot', e.valid_ix(e.cursor(s, r)))]


def on_event(c):
    e, s, r = c.e, c.pre, P(c, 0)
    return tr_req(c) + [('cursor on an event', e.clen(s, r) != 0)]


def A(e): return e.k['r_AVAILABLE']
def U_(e): return e.k['r_UNAVAILABLE']


def t_reset(c):
    e, s0, r = c.e, c.pre, P(c, 0)

    def fn(s):
        e.set_r(s, r, 'cursor', e.rbot(s0, r))
        return A(e), []
    return [Out('always', z3.BoolVal(True), fn)]


def t_set_cursor(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    v = e.rdb(s0, P(c, 1), 8)
    ok = e.valid_ix(v)

    def fn(s):
        e.set_r(s, r, 'cursor', v)
        return A(e), []
    return [Out('a slot', ok, fn), Out('not a slot', z3.Not(ok), lambda s: (U_(e), []))]


def t_get_cursor(c):
    e, r = c.e, P(c, 0)
    return [Out('always', z3.BoolVal(True), lambda s: (r.add(e.k['off_tr_cursor']), []))]


def t_get_cursor_w(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    return [Out('always', z3.BoolVal(True), lambda s: (e.cursor(s0, r), []))]


def t_inc(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    cu = e.cursor(s0, r)
    end = cu == e.rtop(s0, r)

    def fn(s):
        e.set_r(s, r, 'cursor', e.inc(cu))
        return A(e), []
    return [Out('before the newest end', z3.Not(end), fn), Out('at the newest end', end, lambda s: (U_(e), []))]


def t_dec(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    cu = e.cursor(s0, r)
    end = cu == e.rbot(s0, r)

    def fn(s):
        e.set_r(s, r, 'cursor', e.dec(cu))
        return A(e), []
    return [Out('after the oldest event', z3.Not(end), fn), Out('on the oldest event', end, lambda s: (U_(e), []))]


def put(c, s, i):
    e, s0 = c.e, c.pre
    b = e.rbuf(s0, P(c, 0))
    e.set_event(s, P(c, 1), e.data(s0, b, i), e.time(s0, b, i))


def t_pull(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    cu = e.cursor(s0, r)
    n = e.clen(s0, r)

    def take(ret):
        def fn(s):
            put(c, s, cu)
            e.set_r(s, r, 'cursor', e.inc(cu))
            return ret, []
        return fn
    return [Out('another event follows', z3.UGT(n, 1), take(A(e))), Out('last event', n == 1, take(U_(e))),
            Out('newest end', n == 0, lambda s: (U_(e), []))]


def t_read(c):
    e, s0, r = c.e, c.pre, P(c, 0)

    def fn(s):
        put(c, s, e.cursor(s0, r))
        return A(e), []
    return [Out('always', z3.BoolVal(True), fn)]


def t_read_next(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    ok = z3.UGT(e.clen(s0, r), 1)

    def fn(s):
        put(c, s, e.inc(e.cursor(s0, r)))
        return A(e), []
    return [Out('another event follows', ok, fn), Out('none follows', z3.Not(ok), lambda s: (U_(e), []))]


def t_read_prev(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    ok = e.cursor(s0, r) != e.rbot(s0, r)

    def fn(s):
        put(c, s, e.dec(e.cursor(s0, r)))
        return A(e), []
    return [Out('an event precedes', ok, fn), Out('none precedes', z3.Not(ok), lambda s: (U_(e), []))]


def t_length(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    return [Out('always', z3.BoolVal(True), lambda s: (e.clen(s0, r), []))]


def t_consumed(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    return [Out('always', z3.BoolVal(True), lambda s: (e.dist(e.rbot(s0, r), e.cursor(s0, r)), []))]


def set_req(c):
    e, s, r = c.e, c.pre, P(c, 0)
    b = e.rbuf(s, r)
    return tr_req(c) + [('event times of the window strictly increase', sorted_window(e, s, r)),
                        ('cursor on an event, or the slot past the newest event holds none newer',
                         z3.Or(e.clen(s, r) != 0, e.rlen(s, r) == 0, e.time(s, b, e.rtop(s, r)) <= e.time(s, b, e.dec(e.rtop(s, r)))))]


def t_set(c):
    e, s0, r = c.e, c.pre, P(c, 0)
    b = e.rbuf(s0, r)
    x = e.rdb(s0, P(c, 1), 8)
    bo, last = e.rbot(s0, r), e.dec(e.rtop(s0, r))
    # the times increase: some event is in force at x and has a successor iff x is in [oldest, newest)
    found = z3.And(z3.UGE(e.rlen(s0, r), 2), e.time(s0, b, bo) <= x, x < e.time(s0, b, last))

    def fn(s):
        cu = c.free(s, r.add(e.k['off_tr_cursor']), 8, 'cursor')
        return A(e), [('cursor on an event that has a successor', z3.And(e.valid_ix(cu), z3.ULT(e.dist(bo, cu) + 1, e.rlen(s0, r)))),
                      ('that event is the one in force', z3.And(e.time(s0, b, cu) <= x, x < e.time(s0, b, e.inc(cu))))]

    def no(s):
        cu = c.free(s, r.add(e.k['off_tr_cursor']), 8, 'cursor')
        return U_(e), [('cursor in the window', e.in_window(s0, r, cu)),
                       ('cursor on an event, if it was on one', z3.Implies(e.clen(s0, r) != 0, z3.And(e.valid_ix(cu), e.dist(cu, e.rtop(s0, r)) != 0)))]
    return [Out('an event with a successor is in force', found, fn), Out('no such event', z3.Not(found), no)]


def set_hints(env, pre, args, extra, s):
    r = env.ex.as_ptr(pre, args[0])
    b = env.rbuf(pre, r)
    x = env.rdb(pre, env.ex.as_ptr(pre, args[1]), 8)
    bo = env.rbot(pre, r)
    last = env.dec(env.rtop(pre, r))

    found = z3.And(z3.UGE(env.rlen(pre, r), 2), env.time(pre, b, bo) <= x, x < env.time(pre, b, last))

    def facts(s):
        cu = env.cursor(s, r)
        return sorted_instances(env, pre, r, [bo, last, cu, env.inc(cu), env.dec(cu)])

    def inw(s):
        return env.in_window(pre, r, env.cursor(s, r))
    invs = [('cursor in the window', inw),
            ('cursor on an event', lambda s: z3.Implies(env.rlen(pre, r) != 0, z3.UGT(env.clen(s, r), 0))),
            ('cursor where it started or on an event', lambda s: z3.Or(env.cursor(s, r) == env.cursor(pre, r), env.clen(s, r) != 0)),
            ('x before the event at the cursor', lambda s: x < env.time(pre, b, env.cursor(s, r))),
            ('x not before the event at the cursor', lambda s: x >= env.time(pre, b, env.cursor(s, r))),
            ('x not before the newest event', lambda s: z3.Implies(z3.UGE(env.rlen(pre, r), 1), x >= env.time(pre, b, last))),
            ('if x has an event in force, it is not before the cursor', lambda s: z3.Implies(found, x >= env.time(pre, b, env.cursor(s, r)))),
            ('if x has an event in force, it is before the cursor', lambda s: z3.Implies(found, x < env.time(pre, b, env.cursor(s, r))))]
    return dict(facts=facts, invs=invs, terms=[], variants=[('events from the cursor', lambda s: env.clen(s, r)), ('events before the cursor', lambda s: env.dist(bo, env.cursor(s, r)))])


def trace_cases(*more, cursor_wf=True):
    return reader_cases(*more, trace=True, cursor_wf=cursor_wf)


def trace_ctor_l_cases(env):
    base = raw_reader_cases('sz_trace', True)(env)[0][1]

    def build(st):
        a = base(st)
        return a + [a_word(env, st, None)]
    return [('raw storage', build)]


def trace_specs():
    S = []
    def add(name, fn, cases, outs, req=tr_req, **kw):
        S.append(Spec(fn and TR + fn, 'vf_trace_' + name, cases, req, outs, **kw))
    add('ctor', r'::RMTLD3_reader\(RTML_buffer<Event<[a-z ]+>, \d+ul> const&\)', raw_reader_cases('sz_trace', True), reader_ctor_out(True), req=lambda c: [], callable_=False)
    add('ctor_l', r'::RMTLD3_reader\(RTML_buffer<Event<[a-z ]+>, \d+ul> const&, ', trace_ctor_l_cases, reader_ctor_out(True), req=lambda c: [], callable_=False)
    add('reset', r'::reset\(', trace_cases(cursor_wf=False), t_reset, req=tr_req0)
    add('set', r'::set\(', trace_cases(a_word), t_set, req=set_req, hints=set_hints)
    S[-1].frame_requires = tr_req
    add('set_cursor', r'::set_cursor\(', trace_cases(a_word, cursor_wf=False), t_set_cursor, req=tr_req0)
    S.append(Spec(TR + r'::get_cursor\(', 'vf_trace_get_cursor', trace_cases(cursor_wf=False), tr_req0, t_get_cursor_w, ret_w=64, callable_=False))
    add('increment_cursor', r'::increment_cursor\(', trace_cases(), t_inc)
    add('decrement_cursor', r'::decrement_cursor\(', trace_cases(), t_dec)
    add('pull', r'::pull\(', trace_cases(an_event), t_pull)
    add('read', r'::read\(', trace_cases(an_event), t_read)
    add('read_next', r'::read_next\(', trace_cases(an_event), t_read_next)
    add('read_previous', r'::read_previous\(', trace_cases(an_event), t_read_prev)
    add('length', r'::length\(', trace_cases(), t_length, ret_w=64)
    add('consumed', r'::consumed\(', trace_cases(), t_consumed, ret_w=64)
    add('debug', r'::debug\(', trace_cases(), noop_out, req=tr_req_cur, hints=debug_hints)
    return S


# ------------------------------------------------------------------ writer, used one at a time
def writer_build(env, published):
    def build(st):
        k = env.k
        b = env.new_buffer(st, case='own' if published == 'own' else 'ext')
        rid = env.ex.new_region(st, 'writer', k['sz_writer'], visible=True)
        w = Ptr(rid)
        env.cell(st, w, 8, b)
        off = k['off_wr_state']
        i = 0
        while off + k['sz_state'] <= k['off_wr_stateref']:
            env.init_state_record(st, w.add(off), 'writer.state%d' % i)
            off += k['sz_state']
            i += 1
        env.cell(st, w.add(k['off_wr_stateref']), 8, w.add(k['off_wr_state']))
        if published.startswith('mine'):
            n = int(published[4:])
            if n >= i:
                return None
            rec = w.add(k['off_wr_state'] + n * k['sz_state'])
            env.cell(st, b.add(k['off_page'] + k['off_page_ref']), 8, rec)
            for f in env.buf_wf(st, b):
                st.assume(f)
        ev = env.new_event(st, 'event')
        return [w, ev]
    return build


def writer_cases(env):
    n = (env.k['off_wr_stateref'] - env.k['off_wr_state']) // env.k['sz_state']
    return [('published record: ' + p, writer_build(env, p)) for p in ['own', 'ext'] + ['mine%d' % i for i in range(n)]]


def wbuf(e, s, w):
    return e.ex.as_ptr(s, e.rd(s, w, 8))


def settled(e, s, b):
    """the published record's last event is in its slot (every push so far has completed)"""
    d, t = e.rec_event(s, b)
    p = e.pos(s, b)
    return z3.And(e.valid_ix(p), e.data(s, b, p) == d, e.time(s, b, p) == t)


def w_req(c):
    e, s = c.e, c.pre
    b = wbuf(e, s, P(c, 0))
    return [('buffer invariant', z3.And(e.buf_wf(s, b))), ('the last push has completed', settled(e, s, b))]


def wpush_out(stamp):
    def outs(c):
        e, s0, w, ev = c.e, c.pre, P(c, 0), P(c, 1)
        k = e.k
        b = wbuf(e, s0, w)
        t, bo = e.top(s0, b), e.bottom(s0, b)
        full = e.inc(t) == bo

        def eff(is_full):
            def fn(s):
                tm = e.ev_time(s0, ev)
                ens = []
                if stamp:
                    tm = c.free(s, ev.add(k['off_ev_time']), 8, 'stamp')
                    clk = c.actual.ghost.get('clock', ()) if c.actual is not None else ()
                    ens.append(('the event is stamped with a clock reading of this call', z3.Or([tm == r for r in clk])))
                e.set_slot(s, b, t, e.ev_data(s0, ev), tm)
                # scratch: this writer's records, the buffer's own record, which record is published
                for base in [b.add(k['off_state_global'])] + [w.add(o) for o in range(k['off_wr_state'], k['off_wr_stateref'], k['sz_state'])]:
                    for f in ('top', 'bottom', 'pos'):
                        c.free(s, base.add(k['off_st_' + f]), 8)
                    c.free(s, base.add(k['off_st_event'] + k['off_ev_data']), c.e.D)
                    c.free(s, base.add(k['off_st_event'] + k['off_ev_time']), 8)
                c.free(s, w.add(k['off_wr_stateref']), 8)
                c.free(s, b.add(k['off_page'] + k['off_page_ref']), 8)
                c.free(s, b.add(k['off_page'] + k['off_page_counter']), 8)
                if c.actual is None:
                    raise Unsupported('writer contract used at a call site')
                a = c.actual
                ens += [('top advances by one', e.top(a, b) == e.inc(t)),
                        ('bottom advances exactly when full', e.bottom(a, b) == (e.inc(bo) if is_full else bo)),
                        (SETTLED, settled(e, a, b)),
                        ('the version counter advances by one', e.counter(a, b) == e.counter(s0, b) + 1)]
                return (k['e_BUFFER_OVERFLOW'] if is_full else k['e_OK']), ens
            return fn
        return [Out('room', z3.Not(full), eff(False)), Out('full', full, eff(True))]
    return outs


def writer_ctor_cases(env):
    def build(st):
        b = env.new_buffer(st)
        k = env.k
        rid = env.ex.new_region(st, 'writer', k['sz_writer'], visible=True)
        return [Ptr(rid), b]
    return [('raw storage', build)]


def writer_ctor_out(c):
    e, s0, w, b = c.e, c.pre, P(c, 0), P(c, 1)
    k = e.k

    def fn(s):
        e.cell(s, w, 8, b)
        e.cell(s, b.add(k['off_writer']), 1, e.writers(s0, b) + 1)
        for o in range(k['off_wr_state'], k['off_wr_stateref'] + 8, 8):
            c.free(s, w.add(o), 8)
        return None, []
    return [Out('always', z3.BoolVal(True), fn)]


def writer_specs():
    return [
        Spec(WR + r'::push\(', 'vf_writer_push', writer_cases, w_req, wpush_out(True), callable_=False),
        Spec(WR + r'::push_all\(', 'vf_writer_push_all', writer_cases, w_req, wpush_out(False), callable_=False),
        Spec(WR + r'::RTML_writer\(', 'vf_writer_ctor', writer_ctor_cases, writer_ctor_out and (lambda c: []), writer_ctor_out, callable_=False)]


# ------------------------------------------------------------------ externals
def ext_clock_gettime(env):
    def h(ex, st, args):
        p = ex.as_ptr(st, args[1])
        sec, ns = ex.fresh('clock_sec', 64), ex.fresh('clock_nsec', 64)
        st.assume(z3.And(sec >= 0, sec < (1 << 32), ns >= 0, ns < 1000000000))
        ex.store(st, p, ('i', 64), sec)
        ex.store(st, p.add(8), ('i', 64), ns)
        st.ghost['clock'] = st.ghost.get('clock', ()) + (sec * 1000000000 + ns,)
        return [(st, 0)]
    return h


def ext_nop(ex, st, args):
    return [(st, 0)]


def std_externs(env):
    return {'clock_gettime': ext_clock_gettime(env), 'sched_yield': ext_nop, 'printf': ext_nop, 'fprintf': ext_nop, 'puts': ext_nop, 'putchar': ext_nop, 'fflush': ext_nop}


def all_specs():
    return buffer_specs() + reader_specs() + trace_specs() + writer_specs()
