"""Contracts of events, the three-valued connectives, durations and time arithmetic."""
import z3
from .contract import *
from .specs_buffer import P as ARG, a_word

G = 1000000000


def word(env, st, name, n=8):
    rid = env.ex.new_region(st, name, n, visible=True)
    env.cell(st, Ptr(rid), n, env.sym(name, n * 8))
    return Ptr(rid)


def rec(env, st, name, cells, size, pads=()):
    rid = env.ex.new_region(st, name, size, visible=True)
    for off, n, v in cells:
        env.cell(st, Ptr(rid, off), n, v)
    if pads:
        env.pads[rid] = list(pads)
    return Ptr(rid)


def no_req(c):
    return []


def b32(f):
    return z3.If(f, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))


def returns(val, w=32):
    def out(c):
        v = val(c)
        return [Out('value', z3.BoolVal(True), lambda s: (v, []))]
    return out


def cases(*builders, alias=()):
    """builders make the arguments; alias lists pairs of arguments that may be the same object"""
    def cs(env):
        def mk(al):
            def build(st):
                args = []
                for k, b in enumerate(builders):
                    args.append(args[al[k]] if k in al else b(env, st))
                return args
            return build
        out = [('arguments apart' if alias else 'arguments', mk({}))]
        for al in alias:
            out.append(('aliased ' + ' '.join('%d=%d' % kv for kv in sorted(al.items())), mk(al)))
        return out
    return cs


# ---- events
def ev(env, st):
    return env.new_event(st, 'event')


def int32(env, st):
    return word(env, st, 'data', env.D)


def span(env, st):
    return word(env, st, 'time', 8)


def raw_event(env, st):
    n = env.k['sz_event']
    d, t = env.k['off_ev_data'], env.k['off_ev_time']
    rid = env.ex.new_region(st, 'event', n, visible=True)
    env.pads[rid] = [(o, o + 1) for o in range(n) if not (d <= o < d + env.D or t <= o < t + 8)]
    return Ptr(rid)


def event_specs():
    S = []

    def add(name, cs, out, ret_w=32):
        S.append(Spec(None, 'vf_event_' + name, cs, no_req, out, ret_w=ret_w, callable_=False))

    def T(c, i): return c.e.ev_time(c.pre, ARG(c, i))
    def D(c, i): return c.e.ev_data(c.pre, ARG(c, i))
    def W(c, i): return c.e.rdb(c.pre, ARG(c, i), 8)

    def sets(i, data=None, tm=None):
        def out(c):
            def fn(s):
                c.e.set_event(s, ARG(c, i), data(c) if data else D(c, i), tm(c) if tm else T(c, i))
                return None, []
            return [Out('stored', z3.BoolVal(True), fn)]
        return out
    d4 = lambda c: c.e.rdb(c.pre, ARG(c, 1), c.e.D)
    add('ctor', cases(raw_event, int32, span), sets(0, d4, lambda c: W(c, 2)))
    add('ctor0', cases(raw_event), sets(0, lambda c: z3.BitVecVal(0, 8 * c.e.D), lambda c: z3.BitVecVal(0, 64)))
    add('getData', cases(ev), returns(lambda c: D(c, 0)), 'data')
    add('getTime', cases(ev), returns(lambda c: T(c, 0)), 64)
    add('set', cases(ev, int32, span), sets(0, d4, lambda c: W(c, 2)))
    add('setTime', cases(ev, span), sets(0, None, lambda c: W(c, 1)))
    add('setData', cases(ev, int32), sets(0, d4, None))
    add('assign', cases(ev, ev, alias=[{1: 0}]), sets(0, lambda c: D(c, 1), lambda c: T(c, 1)))
    cmp = dict(lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b)
    for n, f in cmp.items():
        add(n, cases(ev, ev, alias=[{1: 0}]), returns(lambda c, f=f: b32(f(T(c, 0), T(c, 1)))))
    same = lambda c: z3.And(T(c, 0) == T(c, 1), D(c, 0) == D(c, 1))
    add('eq', cases(ev, ev, alias=[{1: 0}]), returns(lambda c: b32(same(c))))
    add('ne', cases(ev, ev, alias=[{1: 0}]), returns(lambda c: b32(z3.Not(same(c)))))
    cmp.update(eq=lambda a, b: a == b, ne=lambda a, b: a != b)
    for n, f in cmp.items():
        add(n + '_t', cases(ev, span), returns(lambda c, f=f: b32(f(T(c, 0), W(c, 1)))))
        add('t_' + n, cases(ev, span), returns(lambda c, f=f: b32(f(W(c, 1), T(c, 0)))))
    return S


# ---- three-valued logic
def b3(env, st):
    return env.sym('verdict', 32)


def b3_req(n):
    def req(c):
        k = c.e.k
        return [('a verdict', z3.Or([c.a[i] == k[x] for x in ('t_TRUE', 't_FALSE', 't_UNKNOWN')])) for i in range(n)]
    return req


def b4_req(c):
    k = c.e.k
    return [('a verdict', z3.Or([c.a[0] == k[x] for x in ('fv_TRUE', 'fv_FALSE', 'fv_UNKNOWN', 'fv_SYMBOL')]))]


def dur(env, st, sym=True):
    f, s = env.k['off_dur_first'], env.k['off_dur_second']
    v = env.sym('flag', 8)
    st.assume(z3.ULE(v, 1))
    return rec(env, st, 'duration', [(f, 8, env.sym('value')), (s, 1, v)], 16, [(o, o + 1) for o in range(16) if not (f <= o < f + 8 or o == s)])


def logic_specs():
    S = []
    t3 = lambda c: [z3.BitVecVal(c.e.k[n], 32) for n in ('t_TRUE', 't_FALSE', 't_UNKNOWN')]
    t4 = lambda c: [z3.BitVecVal(c.e.k[n], 32) for n in ('fv_TRUE', 'fv_FALSE', 'fv_UNKNOWN', 'fv_SYMBOL')]

    def add(name, cs, req, out):
        S.append(Spec(None, 'vf_' + name, cs, req, out, callable_=False))

    def k_and(c):
        T, F, U = t3(c)
        a, b = c.a
        return z3.If(z3.Or(a == F, b == F), F, z3.If(z3.And(a == T, b == T), T, U))

    def k_or(c):
        T, F, U = t3(c)
        a, b = c.a
        return z3.If(z3.Or(a == T, b == T), T, z3.If(z3.And(a == F, b == F), F, U))

    def k_not(c):
        T, F, U = t3(c)
        return z3.If(c.a[0] == T, F, z3.If(c.a[0] == F, T, U))

    def to4(c):
        T, F, U = t3(c)
        T4, F4, U4, _ = t4(c)
        return z3.If(c.a[0] == T, T4, z3.If(c.a[0] == F, F4, U4))

    def to3(c):
        T, F, U = t3(c)
        T4, F4, U4, _ = t4(c)
        return z3.If(c.a[0] == T4, T, z3.If(c.a[0] == F4, F, U))
    add('b3_and', cases(b3, b3), b3_req(2), returns(k_and))
    add('b3_or', cases(b3, b3), b3_req(2), returns(k_or))
    add('b3_not', cases(b3), b3_req(1), returns(k_not))
    add('b3_to_b4', cases(b3), b3_req(1), returns(to4))
    add('b4_to_b3', cases(b3), b4_req, returns(to3))
    # connectives of connectives
    class Of:
        def __init__(self, c, *a):
            self.e, self.a = c.e, list(a)
    add('b3_not_or', cases(b3, b3), b3_req(2), returns(lambda c: k_not(Of(c, k_or(c)))))
    add('b3_not_and', cases(b3, b3), b3_req(2), returns(lambda c: k_not(Of(c, k_and(c)))))
    add('b3_and_or', cases(b3, b3, b3), b3_req(3), returns(lambda c: k_and(Of(c, k_or(Of(c, *c.a[:2])), k_or(Of(c, *c.a[1:]))))))
    add('b3_or_and', cases(b3, b3, b3), b3_req(3), returns(lambda c: k_or(Of(c, k_and(Of(c, *c.a[:2])), k_and(Of(c, *c.a[1:]))))))
    add('b3_and_not', cases(b3, b3), b3_req(2), returns(lambda c: k_and(Of(c, k_not(Of(c, c.a[0])), k_not(Of(c, c.a[1]))))))
    add('b3_roundtrip', cases(b3), b3_req(1), returns(lambda c: c.a[0]))
    add('b3_or_is_true', cases(b3, b3), b3_req(2), returns(lambda c: b32(k_or(c) == t3(c)[0])))
    add('b3_and_is_true', cases(b3, b3), b3_req(2), returns(lambda c: b32(k_and(c) == t3(c)[0])))
    first = lambda c, i: c.e.rdb(c.pre, ARG(c, i).add(c.e.k['off_dur_first']), 8)
    flag = lambda c, i: c.e.rdb(c.pre, ARG(c, i).add(c.e.k['off_dur_second']), 1)

    def less(c):
        T, F, U = t3(c)
        return z3.If(z3.Or(flag(c, 0) == 1, flag(c, 1) == 1), U, z3.If(first(c, 0) < first(c, 1), T, F))
    add('b3_lessthan', cases(dur, dur, alias=[{1: 0}]), no_req, returns(less))

    def arith(op):
        def out(c):
            v = op(first(c, 0), first(c, 1))
            w = z3.If(z3.Or(flag(c, 0) == 1, flag(c, 1) == 1), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))

            def fn(s):
                r = ARG(c, 2)
                c.e.cell(s, r.add(c.e.k['off_dur_first']), 8, v)
                c.e.cell(s, r.add(c.e.k['off_dur_second']), 1, w)
                return None, []
            return [Out('combined', z3.BoolVal(True), fn)]
        return out

    def arith_req(op):
        """the exact result fits"""
        def req(c):
            a, b = first(c, 0), first(c, 1)
            if op == '+':
                return [('the sum fits', z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))]
            return [('the product fits', z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)))]
        return req
    al = [{1: 0}, {2: 0}, {2: 1}]
    add('sum_dur', cases(dur, dur, dur, alias=al), arith_req('+'), arith(lambda a, b: a + b))
    add('mult_dur', cases(dur, dur, dur, alias=al), arith_req('*'), arith(lambda a, b: a * b))

    def mk_out(c):
        def fn(s):
            r = ARG(c, 2)
            c.e.cell(s, r.add(c.e.k['off_dur_first']), 8, c.a[0])
            c.e.cell(s, r.add(c.e.k['off_dur_second']), 1, z3.If(c.a[1] != 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
            return None, []
        return [Out('stored', z3.BoolVal(True), fn)]
    add('make_duration', cases(lambda e, s: e.sym('value'), b3, dur), no_req, mk_out)
    return S


# ---- time
def ts(env, st):
    sec, ns = env.sym('sec'), env.sym('nsec')
    return rec(env, st, 'timespec', [(0, 8, sec), (8, 8, ns)], 16)


def time_specs():
    S = []
    sec = lambda c, i: c.e.rdb(c.pre, ARG(c, i), 8)
    ns = lambda c, i: c.e.rdb(c.pre, ARG(c, i).add(8), 8)
    LIM = 1 << 61

    def norm(*ix):
        def req(c):
            return [('normalised', z3.And(sec(c, i) > -LIM, sec(c, i) < LIM, ns(c, i) >= 0, ns(c, i) < G)) for i in ix]
        return req

    def add(name, cs, req, out, ret_w=32):
        S.append(Spec(None, 'vf_' + name, cs, req, out, ret_w=ret_w, callable_=False))

    def total(c, op):
        a, b = (sec(c, 0), ns(c, 0)), (sec(c, 1), ns(c, 1))

        def fn(s):
            x, y = c.free(s, ARG(c, 2), 8), c.free(s, ARG(c, 2).add(8), 8)
            # exact over the integers: seconds and nanoseconds differ from the operands' by one carry at most
            if op == '+':
                d, e = x - (a[0] + b[0]), (a[1] + b[1]) - y
            else:
                d, e = x - (a[0] - b[0]), (a[1] - b[1]) - y
            ok = z3.Or(*[z3.And(d == k, e == k * G) for k in (-1, 0, 1)])
            return None, [('exact', ok), ('normalised', z3.And(y >= 0, y < G))]
        return [Out('result', z3.BoolVal(True), fn)]
    al = [{1: 0}, {2: 0}, {2: 1}, {1: 0, 2: 0}]
    add('timespecadd', cases(ts, ts, ts, alias=al), norm(0, 1), lambda c: total(c, '+'))
    add('timespecsub', cases(ts, ts, ts, alias=al), norm(0, 1), lambda c: total(c, '-'))
    lt = lambda c: z3.Or(sec(c, 0) < sec(c, 1), z3.And(sec(c, 0) == sec(c, 1), ns(c, 0) < ns(c, 1)))
    eq = lambda c: z3.And(sec(c, 0) == sec(c, 1), ns(c, 0) == ns(c, 1))
    for n, f in dict(lt=lt, le=lambda c: z3.Or(lt(c), eq(c)), gt=lambda c: z3.Not(z3.Or(lt(c), eq(c))), ge=lambda c: z3.Not(lt(c)), eq=eq, ne=lambda c: z3.Not(eq(c))).items():
        add('timespeccmp_' + n, cases(ts, ts, alias=[{1: 0}]), norm(0, 1), returns(lambda c, f=f: b32(f(c))))
    add('timespecisset', cases(ts), norm(0), returns(lambda c: b32(z3.Or(sec(c, 0) != 0, ns(c, 0) != 0))))

    def clear(c):
        def fn(s):
            c.e.cell(s, ARG(c, 0), 8, z3.BitVecVal(0, 64))
            c.e.cell(s, ARG(c, 0).add(8), 8, z3.BitVecVal(0, 64))
            return None, []
        return [Out('cleared', z3.BoolVal(True), fn)]
    add('timespecclear', cases(ts), no_req, clear)

    def usec(c):
        u = z3.ZeroExt(32, c.e.rdb(c.pre, ARG(c, 0), 4))

        def fn(s):
            x, y = c.free(s, ARG(c, 1), 8), c.free(s, ARG(c, 1).add(8), 8)
            return None, [('exact', z3.And(x >= 0, x <= 4295, x * G + y == u * 1000)), ('normalised', z3.And(y >= 0, y < G))]
        return [Out('converted', z3.BoolVal(True), fn)]
    add('useconds', cases(lambda e, s: word(e, s, 'useconds', 4), ts), no_req, usec)

    def two(env, st):
        return rec(env, st, 'useconds', [(0, 4, env.sym('useconds0', 32)), (4, 4, env.sym('useconds', 32))], 8)

    def usec_ix(c):
        u = z3.ZeroExt(32, c.e.rdb(c.pre, ARG(c, 0).add(4), 4))

        def fn(s):
            x, y = c.free(s, ARG(c, 1), 8), c.free(s, ARG(c, 1).add(8), 8)
            return None, [('exact', z3.And(x >= 0, x <= 4295, x * G + y == u * 1000)), ('normalised', z3.And(y >= 0, y < G))]
        return [Out('converted', z3.BoolVal(True), fn)]
    add('useconds_ix', cases(two, ts), no_req, usec_ix)

    def clk(c):
        t = c.actual.ghost.get('clock', ()) if c.actual is not None else ()
        v = t[0] if len(t) == 1 else z3.BitVec('no_single_reading', 64)
        return [Out('the reading in nanoseconds', z3.BoolVal(True), lambda s: (v, []))]
    add('clockgettime', cases(), no_req, clk, 64)
    return S


def misc_specs():
    return event_specs() + logic_specs() + time_specs()
