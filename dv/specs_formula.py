"""Contracts of the RMTLD3 operators over a trace reader.

The operands E::eval_phi1/2 are external: assumed to return one of the three verdicts, a function of the
cursor and the time they are evaluated at, and to change nothing but the cursor."""
import re
import z3
from .contract import *
from .specs_buffer import *
from .specs_buffer import P as ARG, A as AVAIL

BV64, BV32 = z3.BitVecSort(64), z3.BitVecSort(32)
PF = {i: z3.Function('operand%d' % i, BV64, BV64, BV32) for i in (1, 2)}


def operand(i, c, t):
    return PF[i](tobv(c, 64), tobv(t, 64))


def verdict(e, v):
    return z3.Or(v == e.k['t_TRUE'], v == e.k['t_FALSE'], v == e.k['t_UNKNOWN'])


def T3(e):
    return [z3.BitVecVal(e.k[n], 32) for n in ('t_TRUE', 't_FALSE', 't_UNKNOWN')]


def neg(e, v):
    T, F, U = T3(e)
    return z3.If(v == T, F, z3.If(v == F, T, U))


def eval_phi(env, i, tr, horizon=None):
    def h(ex, st, args):
        r, tp = ex.as_ptr(st, args[0]), ex.as_ptr(st, args[1])
        ex.oblige(st, 'precondition of the operand: evaluated on this trace', z3.BoolVal(same_val(r, tr)))
        c = env.cursor(st, r)
        t = tobv(ex.load(st, tp, ('i', 64)), 64)
        ex.oblige(st, 'precondition of the operand: cursor on an event of the window',
                  z3.And(env.in_window(st, r, c), env.clen(st, r) != 0))
        if horizon is not None:
            ex.oblige(st, 'precondition of the operand: evaluated below the bound only', horizon(st, t))
        out = []
        v = operand(i, c, t)
        if ex.opts.get('merge'):
            s = st.clone()
            s.assume(verdict(env, v))
            env.set_r(s, r, 'cursor', env.sym('operand_cursor'))
            return [(s, v)]
        for k in ('t_TRUE', 't_FALSE', 't_UNKNOWN'):
            s = st.clone()
            s.assume(v == env.k[k])
            if ex.feasible(s):
                env.set_r(s, r, 'cursor', env.sym('operand_cursor'))
                out.append((s, env.k[k]))
        return out
    return h


def install(horizon=None):
    def setup(env, pre, args, extra):
        tr = env.ex.as_ptr(pre, args[0])
        hz = None
        if horizon:
            hz = lambda st, t: horizon(env, pre, args, t)
        for raw in env.m.decls:
            d = env.m.demangled.get(raw, raw)
            m = re.match(r'E::eval_phi([12])\(', d)
            if m:
                env.ex.externs[d] = eval_phi(env, int(m.group(1)), tr, hz)
    return setup


BIG = 1 << 61


def targ(c):
    return c.e.rdb(c.pre, ARG(c, 1), 8)


TIMES_OK = z3.Function('times_in_range', z3.ArraySort(BV64, BV64), z3.BoolSort())


def times_ok_instances(e, s, r, ix):
    b = e.rbuf(s, r)
    return [z3.Implies(z3.And(TIMES_OK(times(e, s, b)), e.valid_ix(i)), z3.And(e.time(s, b, i) >= 0, e.time(s, b, i) < BIG)) for i in ix]


def f_req(extra=()):
    def req(c):
        e, s, r = c.e, c.pre, ARG(c, 0)
        t = targ(c)
        out = on_event(c) + [('0 <= t < 2^61', z3.And(t >= 0, t < BIG)),
                             ('event times in [0, 2^61)', TIMES_OK(times(e, s, e.rbuf(s, r))))]
        if 'sorted' in extra:
            out.append(('event times of the window strictly increase', sorted_window(e, s, r)))
        if 'tcur' in extra:
            out.append(('the event at the cursor is not after t', e.time(s, e.rbuf(s, r), e.cursor(s, r)) <= t))
        return out
    return req


def f_cases(env):
    return trace_cases(a_word)(env)


class View:
    """the trace as the operators see it, taken from the pre-state"""

    def __init__(self, env, pre, r, t):
        self.e, self.s, self.r, self.t = env, pre, r, t
        self.b = env.rbuf(pre, r)
        self.bo, self.to = env.rbot(pre, r), env.rtop(pre, r)
        self.c0 = env.cursor(pre, r)

    def tau(self, c):
        return self.e.time(self.s, self.b, c)

    def data(self, c):
        return self.e.data(self.s, self.b, c)

    def left(self, c):
        """events from c on"""
        return self.e.dist(c, self.to)

    def p(self, i, c):
        return operand(i, c, self.tau(c))


def scan_spec(name, body, ret=BV32):
    """a function of the cursor defined by recursion along the trace: instances of its defining equation"""
    f = z3.Function(name, BV64, ret)

    def unfold(v, c):
        return f(c) == body(v, f, c)
    return f, unfold


# ---- until
def until_body(P1, P2):
    def body(v, U, c):
        T, F, Un = T3(v.e)
        p1, p2 = P1(v, c), P2(v, c)
        return z3.If(v.tau(c) >= v.t + v.e.bnd, F,
                     z3.If(p2 != F, p2, z3.If(p1 != T, p1, z3.If(v.left(c) == 1, Un, U(v.e.inc(c))))))
    return body


def since_body(P1, P2):
    def body(v, S, c):
        e = v.e
        T, F, Un = T3(e)
        p1, p2 = P1(v, c), P2(v, c)
        prev = S(e.dec(c))
        oldest = c == v.bo
        # nothing decided: FALSE if the window reaches back to t-b, else UNKNOWN
        end = z3.If(v.tau(c) <= v.t - e.bnd, F, Un)
        return z3.If(v.tau(c) == v.t, z3.If(oldest, end, prev),
                     z3.If(v.tau(c) <= v.t - e.bnd, F,
                           z3.If(p2 != F, p2, z3.If(p1 != T, p1, z3.If(oldest, end, prev)))))
    return body


def always_body(v, U, c):
    T, F, Un = T3(v.e)
    p = v.p(1, c)
    return z3.If(v.tau(c) >= v.t + v.e.bnd, T, z3.If(p != T, p, z3.If(v.left(c) == 1, Un, U(v.e.inc(c)))))


def hist_body(v, S, c):
    e = v.e
    T, F, Un = T3(e)
    p = v.p(1, c)
    oldest = c == v.bo
    end = z3.If(v.tau(c) <= v.t - e.bnd, T, Un)
    prev = S(e.dec(c))
    return z3.If(v.tau(c) == v.t, z3.If(oldest, end, prev),
                 z3.If(v.tau(c) <= v.t - e.bnd, T, z3.If(p != T, p, z3.If(oldest, end, prev))))


def eunb_body(v, U, c):
    T, F, Un = T3(v.e)
    p = v.p(1, c)
    return z3.If(p != F, p, z3.If(v.left(c) == 1, Un, U(v.e.inc(c))))


p1 = lambda v, c: v.p(1, c)
p2 = lambda v, c: v.p(2, c)


class Op:
    """operator given by a recursive definition along the trace"""

    def __init__(self, name, body, fwd=True, acc=None):
        self.name, self.body, self.fwd, self.acc = name, body, fwd, acc
        self.f = z3.Function('spec_' + name, BV64, BV32) if acc is None else z3.Function('spec_' + name, BV64, BV32, BV32)

    def unfold(self, v, c):
        if self.acc is None:
            return [self.f(c) == self.body(v, self.f, c)]
        return [self.f(c, x) == self.body(v, self.f, c, x) for x in T3(v.e)]

    def value(self, v):
        if self.acc is None:
            return self.f(v.c0)
        return self.f(v.c0, z3.BitVecVal(v.e.k['t_UNKNOWN'], 32))

    def out(self, c):
        e, s0, r = c.e, c.pre, ARG(c, 0)
        v = View(e, s0, r, targ(c))
        val = self.value(v)
        return [Out('verdict', z3.BoolVal(True), lambda s: (val, []))]

    def hints(self, env, pre, args, extra, st):
        r = env.ex.as_ptr(pre, args[0])
        v = View(env, pre, r, env.rdb(pre, env.ex.as_ptr(pre, args[1]), 8))
        base = trace_hints(env, pre, v)

        def around(s):
            cu = env.cursor(s, r)
            return [cu, env.inc(cu), env.dec(cu)]

        def facts(s):
            fs = base['facts'](s)
            for x in around(s):
                fs += self.unfold(v, x)
            return fs + self.unfold(v, v.c0)
        h = dict(base)
        h['facts'] = facts
        if self.acc is None:
            for nm, pos in (('at the cursor', lambda s: env.cursor(s, r)), ('after the cursor', lambda s: env.inc(env.cursor(s, r))), ('before the cursor', lambda s: env.dec(env.cursor(s, r)))):
                h['invs'] = h['invs'] + [('the verdict is the verdict ' + nm, lambda s, pos=pos: self.f(v.c0) == self.f(pos(s)))]
        else:
            val = self.value(v)
            h['cellinvs'] = [('the verdict is the verdict at the cursor given this', 4, lambda s, x: val == self.f(env.cursor(s, r), x)),
                             ('the verdict is the verdict after the cursor given this', 4, lambda s, x: val == self.f(env.inc(env.cursor(s, r)), x)),
                             ('one of the verdicts', 4, lambda s, x: verdict(env, x))]
        return h


def trace_hints(env, pre, v):
    r = v.r

    def cu(s):
        return env.cursor(s, r)

    def facts(s):
        ix = [cu(s), env.inc(cu(s)), env.dec(cu(s)), v.c0, env.dec(v.to), v.bo]
        fs = times_ok_instances(env, pre, r, ix)
        fs += sorted_instances(env, pre, r, ix)
        for x in (cu(s), env.inc(cu(s)), env.dec(cu(s)), v.c0):
            for i in (1, 2):
                fs.append(verdict(env, v.p(i, x)))
        return fs
    terms = [('time at the cursor', lambda s: v.tau(cu(s))), ('data at the cursor', lambda s: v.data(cu(s))),
             ('time before the cursor', lambda s: v.tau(env.dec(cu(s)))), ('cursor', cu), ('initial cursor', lambda s: v.c0)]
    invs = [('cursor in the window', lambda s: env.in_window(pre, r, cu(s))),
            ('cursor on an event', lambda s: v.left(cu(s)) != 0),
            ('cursor not before where it started', lambda s: z3.ULE(v.left(cu(s)), v.left(v.c0))),
            ('cursor not after where it started', lambda s: z3.UGE(v.left(cu(s)), v.left(v.c0)))]
    variants = [('events from the cursor', lambda s: v.left(cu(s))), ('events before the cursor', lambda s: env.dist(v.bo, cu(s)))]
    return dict(facts=facts, terms=terms, invs=invs, variants=variants)


def ev_eq_body(v, F_, c, sym):
    e = v.e
    T, F, Un = T3(e)
    p = v.p(1, c)
    lim = v.t + e.bnd
    return z3.If(v.tau(c) > lim, sym, z3.If(v.left(c) == 1, z3.If(v.tau(c) < lim, Un, p), F_(e.inc(c), p)))


def past_eq_body(v, G, c, sym):
    e = v.e
    p = v.p(1, c)
    oldest = c == v.bo
    return z3.If(v.tau(c) == v.t, z3.If(oldest, sym, G(e.dec(c), sym)),
                 z3.If(z3.And(v.t >= e.bnd, v.tau(c) <= v.t - e.bnd), sym, z3.If(oldest, p, G(e.dec(c), p))))


# ---- prop
def prop_cases(env):
    def word4(env, st, b):
        rid = env.ex.new_region(st, 'proposition', 4, visible=True)
        env.cell(st, Ptr(rid), 4, env.sym('proposition', 32))
        return Ptr(rid)
    return trace_cases(word4, a_word)(env)


def prop_req(c):
    return on_event(c)


def in_force(e, n, a, z, t):
    """the event of time a, followed by one of time z if n > 1, is in force at t"""
    return z3.And(z3.UGT(n, 1), a <= t, t < z)


def prop_verdict(e, n, a, z, t, hit):
    T, F, Un = T3(e)
    return z3.If(in_force(e, n, a, z, t), z3.If(hit, T, F), Un)


def prop_out(c):
    e, s0, r = c.e, c.pre, ARG(c, 0)
    p = e.rdb(s0, ARG(c, 1), 4)
    t = e.rdb(s0, ARG(c, 2), 8)
    b = e.rbuf(s0, r)
    cu = e.cursor(s0, r)
    T, F, Un = T3(e)
    force = in_force(e, e.clen(s0, r), e.time(s0, b, cu), e.time(s0, b, e.inc(cu)), t)
    hit = e.data(s0, b, cu) == p
    return [Out('in force and equal', z3.And(force, hit), lambda s: (T, [])), Out('in force and different', z3.And(force, z3.Not(hit)), lambda s: (F, [])),
            Out('not in force', z3.Not(force), lambda s: (Un, []))]


# ---- until with in-between evaluation: no verdict claimed, operands stay below the bound, nothing changes
def between_out(c):
    e = c.e
    v = tobv(c.aret, 32) if c.actual is not None else e.sym('ret', 32)
    return [Out('one of the verdicts', z3.BoolVal(True), lambda s: (None, [('a verdict', verdict(e, v))]))]


def between_hints(env, pre, args, extra, st):
    r = env.ex.as_ptr(pre, args[0])
    t = env.rdb(pre, env.ex.as_ptr(pre, args[1]), 8)
    v = View(env, pre, r, t)
    h = trace_hints(env, pre, v)
    base = h['facts']

    def facts(s):
        c1 = env.inc(env.cursor(s, r))
        ix = [env.cursor(s, r), c1, env.inc(c1), env.dec(v.to), v.bo]
        return base(s) + sorted_instances(env, pre, r, ix) + times_ok_instances(env, pre, r, ix)
    h['facts'] = facts
    b = env.bnd
    h['cellinvs'] = [('time not before the oldest event', 8, lambda s, x: x >= v.tau(v.bo)),
                     ('time below the bound', 8, lambda s, x: z3.And(x >= 0, x < t + b)),
                     ('a position on an event of the window', 8, lambda s, x: z3.And(env.in_window(pre, r, x), env.dist(x, v.to) != 0)),
                     ('one of the verdicts', 4, lambda s, x: z3.ULE(x, 3))]
    return h


# ---- duration
DF = z3.Function('spec_duration', BV64, BV64)
DU = z3.Function('spec_duration_unknown', BV64, z3.BoolSort())


def dur_unfold(v, c):
    return dur_unfold_with(v, c, DF, DU)


def dur_unfold_with(v, c, DF, DU):
    e = v.e
    T, F, Un = T3(e)
    hi = v.t + e.bnd
    nx = e.inc(c)
    a, z = v.tau(c), v.tau(nx)
    lo_ = z3.If(a > v.t, a, v.t)
    hi_ = z3.If(z < hi, z, hi)
    ov = z3.If(hi_ > lo_, hi_ - lo_, z3.BitVecVal(0, 64))
    p = v.p(1, c)
    one = v.left(c) == 1
    past = a > hi
    meets = z3.And(a <= hi, z > v.t)
    return [DF(c) == z3.If(z3.Or(one, past), z3.BitVecVal(0, 64), z3.If(p == T, ov, z3.BitVecVal(0, 64)) + DF(nx)),
            DU(c) == z3.If(past, z3.BoolVal(False), z3.If(one, z3.BoolVal(True), z3.Or(z3.And(meets, p == Un), DU(nx))))]


def dur_cases(env):
    def out(env, st, b):
        rid = env.ex.new_region(st, 'duration', 16, visible=True)
        env.cell(st, Ptr(rid), 8, env.sym('dur_first'))
        env.cell(st, Ptr(rid, 8), 1, env.sym('dur_second', 8))
        env.pads[rid] = [(9, 16)]
        return Ptr(rid)
    return trace_cases(a_word, out)(env)


def dur_out(c):
    e, s0, r = c.e, c.pre, ARG(c, 0)
    v = View(e, s0, r, targ(c))
    o = ARG(c, 2)
    last = v.tau(e.dec(v.to))

    def fn(s):
        first = c.free(s, o.add(e.k['off_dur_first']), 8)
        e.cell(s, o.add(e.k['off_dur_second']), 1, z3.If(DU(v.c0), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        return None, [('the measure, once the window goes past t', z3.Implies(last > v.t, first == DF(v.c0)))]
    return [Out('measure and flag', z3.BoolVal(True), fn)]


def dur_hints(env, pre, args, extra, st):
    r = env.ex.as_ptr(pre, args[0])
    v = View(env, pre, r, env.rdb(pre, env.ex.as_ptr(pre, args[1]), 8))
    h = trace_hints(env, pre, v)
    base = h['facts']
    T, F, Un = T3(env)
    cu = lambda s: env.cursor(s, r)

    def facts(s):
        out = base(s)
        for x in (cu(s), env.inc(cu(s)), env.dec(cu(s)), v.c0):
            out += dur_unfold(v, x)
        return out
    h['facts'] = facts
    h['terms'] = h['terms'] + [('operand TRUE at the cursor', lambda s: z3.If(v.p(1, cu(s)) == T, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))),
                               ('operand UNKNOWN at the cursor', lambda s: z3.If(v.p(1, cu(s)) == Un, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))),
                               ('operand verdict at the cursor', lambda s: v.p(1, cu(s)))]
    b8 = lambda f: z3.If(f, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    h['cellinvs'] = [
        ('this plus the measure from the cursor is the measure', 8, lambda s, x: z3.Implies(v.tau(cu(s)) > v.t, x + DF(cu(s)) == DF(v.c0))),
        ('this or the flag from the cursor is the flag', 1, lambda s, x: z3.Implies(v.tau(cu(s)) > v.t, z3.Or(x == 1, DU(cu(s))) == DU(v.c0))),
        ('a boolean', 1, lambda s, x: z3.ULE(x, 1)), ('zero or one', 8, lambda s, x: z3.ULE(x, 1))]
    h['invs'] = h['invs'] + [
        ('measure from the cursor while not past t', lambda s: z3.Implies(v.tau(cu(s)) <= v.t, DF(cu(s)) == DF(v.c0))),
        ('flag from the cursor while not past t', lambda s: z3.Implies(v.tau(cu(s)) <= v.t, DU(cu(s)) == DU(v.c0))),
        ('cursor not past the interval', lambda s: v.tau(cu(s)) <= v.t + env.bnd)]
    if env.ex.opts.get('rotate'):       # the loop is cut where the cursor is already one event further
        pr = lambda s: env.dec(cu(s))
        h['terms'] = h['terms'] + [('operand TRUE before the cursor', lambda s: z3.If(v.p(1, pr(s)) == T, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))),
                                   ('operand UNKNOWN before the cursor', lambda s: b8(v.p(1, pr(s)) == Un)),
                                   ('operand verdict before the cursor', lambda s: v.p(1, pr(s)))]
        h['cellinvs'] = h['cellinvs'] + [
            ('this plus the measure from before the cursor is the measure', 8, lambda s, x: z3.Implies(v.tau(pr(s)) > v.t, x + DF(pr(s)) == DF(v.c0))),
            ('this or the flag from before the cursor is the flag', 1, lambda s, x: z3.Implies(v.tau(pr(s)) > v.t, z3.Or(x == 1, DU(pr(s))) == DU(v.c0)))]
        h['invs'] = h['invs'] + [
            ('cursor past where it started', lambda s: z3.ULT(v.left(cu(s)), v.left(v.c0))),
            ('measure from before the cursor while not past t', lambda s: z3.Implies(v.tau(pr(s)) <= v.t, DF(pr(s)) == DF(v.c0))),
            ('flag from before the cursor while not past t', lambda s: z3.Implies(v.tau(pr(s)) <= v.t, DU(pr(s)) == DU(v.c0))),
            ('cursor one past the interval at most', lambda s: v.tau(pr(s)) <= v.t + env.bnd)]
    return h


OPS = {}


def defined(req, unfold):
    """a use of the recursive definition where the evaluation starts (paths that never come to a loop's head)"""
    def f(c):
        v = View(c.e, c.pre, ARG(c, 0), targ(c))
        return req(c) + [('the definition at the cursor', z3.And(unfold(v, v.c0)))]
    return f


def formula_specs():
    TRE = r'RMTLD3_reader<.*>'
    S = []

    def op(name, wrapper, body, fwd=True, acc=None):
        o = Op(name, body, fwd, acc)
        OPS[name] = o
        sp = Spec(None, wrapper, f_cases, defined(f_req(), o.unfold), o.out, hints=o.hints, callable_=False)
        sp.setup = install()
        S.append(sp)
    op('until', 'vf_until', until_body(p1, p2))
    op('since', 'vf_since', since_body(p1, p2), fwd=False)
    op('always', 'vf_always_less', always_body)
    op('historically', 'vf_historically_less', hist_body, fwd=False)
    op('eventually', 'vf_eventually_unbounded', eunb_body)
    op('eventually_equal', 'vf_eventually_equal', ev_eq_body, acc=True)
    op('always_equal', 'vf_always_equal', ev_eq_body, acc=True)
    op('pasteventually_equal', 'vf_pasteventually_equal', past_eq_body, fwd=False, acc=True)
    op('historically_equal', 'vf_historically_equal', past_eq_body, fwd=False, acc=True)
    S.append(Spec(None, 'vf_prop', prop_cases, prop_req, prop_out, callable_=False))
    b = Spec(None, 'vf_until_between', f_cases, f_req(('sorted',)), between_out, hints=between_hints, callable_=False)
    b.setup = install(lambda env, pre, args, t: z3.And(t >= 0, t < env.rdb(pre, env.ex.as_ptr(pre, args[1]), 8) + env.bnd))
    b.merge = True
    S.append(b)
    d = Spec(None, 'vf_duration', dur_cases, defined(f_req(('sorted', 'tcur')), dur_unfold), dur_out, hints=dur_hints, callable_=False)
    d.frame_requires = f_req()
    d.setup = install()
    S.append(d)
    return S
