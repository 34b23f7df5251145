"""Lemmas: from the contracts of single operations to what the properties say about histories.

Each is run like a function's verification: the operations are called (their contracts are used, the code is not
entered unless a contract does not hold on this tree), and the statement about the sequence of retained events, about
another buffer, about the reader's history ... is discharged on the resulting states. Lemmas about the recursive
definitions in the operators' contracts are one induction step each."""
import z3
from .contract import *
from . import specs_buffer as B, specs_formula as F
from .specs_buffer import c64


def runs(env, st, wrapper, args):
    ex = env.ex
    st.done = False
    ex.call_function(st, wrapper, args, None)
    ends = [e for _, e in ex.run([st]) if ex.feasible(e)]
    if not ends:
        raise Unsupported('%s does not return' % wrapper)
    return ends


class Prover:
    def __init__(self, spec, env, res, cname=''):
        self.spec, self.env, self.res, self.cname = spec, env, res, cname
        self.n = len(env.ex.obls)

    def ob(self, name, st, goal, hyps=()):
        pc = (list(st.pc) if st is not None else []) + list(hyps)
        o = Obl(name, pc, goal, self.spec.short(), st.cut if st is not None else False)
        self.env.ex.obls.append(o)

    def close(self):
        for o in self.env.ex.obls[self.n:]:
            if not o.name.startswith(self.spec.short()):
                o.name = '%s%s %s' % (self.spec.short(), ' [%s]' % self.cname if self.cname else '', o.name)

    def cover(self, what, ok):
        self.res.covers.append(('%s: %s' % (self.cname, what), ok))


# ---- the buffer as the sequence of its events, oldest first
class Seq:
    def __init__(self, env, s, b):
        self.e, self.s, self.b = env, s, b
        self.n = env.length(s, b)

    def at(self, i):
        p = self.e.slot(self.e.bottom(self.s, self.b), tobv(i, 64))
        return self.e.data(self.s, self.b, p), self.e.time(self.s, self.b, p)


def same(x, y):
    return z3.And(x[0] == y[0], x[1] == y[1])


def deque(op):
    def custom(spec, env, res):
        k = env.k
        if op.startswith('writer'):
            cases = B.writer_cases(env)
        else:
            cases = B.buf_cases(B.an_event)(env)
        for cname, build in cases:
            P = Prover(spec, env, res, cname)
            st = State()
            args = build(st)
            ev = args[1]
            b = B.wbuf(env, st, args[0]) if op.startswith('writer') else args[0]
            for f in env.buf_wf(st, b):
                st.assume(f)
            if op.startswith('writer'):
                st.assume(B.settled(env, st, b))
            P.cover('precondition satisfiable', env.ex.check(st.pc) == 'sat')
            pre = st.clone()
            old = Seq(env, pre, b)
            i = env.sym('position')
            for e in runs(env, st, spec.wrapper, args):
                new = Seq(env, e, b)
                ret = tobv(e.ret, 32)
                n = old.n
                P.ob('the indices stay inside the buffer', e, z3.And(env.buf_wf(e, b)))
                P.ob('at most N events are retained', e, z3.ULE(new.n, env.N))
                evt = lambda s: (env.ev_data(s, ev), env.ev_time(s, ev))
                if op.endswith('push') or op.endswith('push_all'):
                    full = n == env.N
                    P.ob('the length grows by one up to N', e, new.n == z3.If(full, n, n + 1))
                    P.ob('with room, every event keeps its place in order', e, z3.Implies(z3.And(z3.Not(full), z3.ULT(i, n)), same(new.at(i), old.at(i))))
                    P.ob('full, the others move up by one, the oldest goes', e, z3.Implies(z3.And(full, z3.UGE(i, 1), z3.ULT(i, n)), same(new.at(i - 1), old.at(i))))
                    P.ob('the newest is the event pushed', e, same(new.at(new.n - 1), evt(e)))
                    P.ob('BUFFER_OVERFLOW exactly when full', e, (ret == k['e_BUFFER_OVERFLOW']) == full)
                    if op != 'writer_push':
                        P.ob("the caller's event is as it was", e, same(evt(e), evt(pre)))
                else:
                    some = n != 0
                    P.ob('EMPTY exactly when empty', e, (ret == k['e_EMPTY']) == z3.Not(some))
                    P.ob('the length shrinks by one', e, new.n == z3.If(some, n - 1, n))
                    P.ob('empty: nothing changes', e, z3.Implies(z3.Not(some), same(evt(e), evt(pre))))
                    if op.endswith('pull'):
                        P.ob('the oldest is handed out', e, z3.Implies(some, same(evt(e), old.at(0))))
                        P.ob('the others move up', e, z3.Implies(z3.And(some, z3.UGE(i, 1), z3.ULT(i, n)), same(new.at(i - 1), old.at(i))))
                    else:
                        P.ob('the newest is handed out', e, z3.Implies(some, same(evt(e), old.at(n - 1))))
                        P.ob('the others stay', e, z3.Implies(z3.And(some, z3.ULT(i, n - 1)), same(new.at(i), old.at(i))))
            P.close()
    return custom


# ---- copies are independent
def untouched(env, before, after, rids):
    """every byte of these objects is as before"""
    out = []
    for r in rids:
        out += [f for n, f in compare_mem_of(env, before, after, r)]
    return z3.And(out) if out else z3.BoolVal(True)


def compare_mem_of(env, before, after, rid):
    x = before.clone()
    for q, r in list(x.mem.items()):
        if q != rid and r.visible:
            r = x.wregion(q)
            r.visible = False
    return compare_mem(env, x, before, after)


def independent(op, side):
    def custom(spec, env, res):
        for cname, build in B.copy_cases(env):
            P = Prover(spec, env, res, cname)
            st = State()
            d, s = build(st)
            for b in (d, s):
                for f in env.buf_wf(st, b):
                    st.assume(f)
            ev = env.new_event(st, 'event')
            i = env.sym('index')
            P.cover('precondition satisfiable', env.ex.check(st.pc) == 'sat')
            for e in runs(env, st, 'vf_buffer_assign', [d, s]):
                mid = e.clone()
                rd, rs = env.record(e, d), env.record(e, s)
                P.ob('the copy publishes through a record of its own', e, z3.BoolVal(rd.rid == d.rid))
                P.ob('the copy holds what the source holds', e, z3.And(env.length(e, d) == env.length(e, s), env.writers(e, d) == env.writers(e, s),
                     z3.Implies(z3.ULT(i, env.length(e, s)), same(Seq(env, e, d).at(i), Seq(env, e, s).at(i)))))
                who, other = (d, s) if side == 'copy' else (s, d)
                keep = {other.rid, env.record(e, other).rid}
                for f in runs(env, e, 'vf_buffer_' + op, [who, ev] + ([i] if op == 'write' else [])):
                    P.ob('the other buffer is as it was', f, untouched(env, mid, f, keep))
                    P.ob('both still publish through different records', f, z3.BoolVal(
                        (env.record(f, d).rid, env.record(f, d).off) != (env.record(f, s).rid, env.record(f, s).off) and env.record(f, d).rid == d.rid))
            P.close()
    return custom


# ---- no operation leaves a writer waiting (C04)
def settles(op):
    def custom(spec, env, res):
        if op == 'ctor':
            cases = B.ctor_cases(env)
        elif op == 'assign':
            cases = B.copy_cases(env)
        else:
            cases = B.buf_cases(B.an_event)(env)
        for cname, build in cases:
            P = Prover(spec, env, res, cname)
            st = State()
            args = build(st)
            if op != 'ctor':
                for b in args[:2] if op == 'assign' else args[:1]:
                    for f in env.buf_wf(st, b):
                        st.assume(f)
                st.assume(B.settled(env, st, args[1] if op == 'assign' else args[0]))
            P.cover('precondition satisfiable', env.ex.check(st.pc) == 'sat')
            for e in runs(env, st, 'vf_buffer_' + op, args):
                # arrays have one witness slot: the constructor's "every slot" is instantiated at the slot named
                if op == 'ctor':
                    e.assume(env.ex.witness == 0)
                P.ob('the event last pushed is in its slot', e, B.settled(env, e, args[0]))
                P.ob('the indices stay inside the buffer', e, z3.And(env.buf_wf(e, args[0])))
            P.close()
    return custom


# ---- what the reader's history assumes is preserved (C08)
class History:
    """T events pushed so far, strictly increasing times; tau(n) the time of event n; d of them since the window began"""

    def __init__(self, env):
        self.e = env
        self.tau = z3.Function('time_of_event', z3.BitVecSort(64), z3.BitVecSort(64))

    def slots(self, s, b, T, ix):
        """the slot at i, as far as it has been written, holds the event its place says"""
        e = self.e
        t = e.top(s, b)
        out = []
        for i in ix:
            age = e.dist(i, e.dec(t))          # 0: newest
            out.append(z3.Implies(z3.And(e.valid_ix(i), z3.ULT(age, T)), e.time(s, b, i) == self.tau(T - 1 - age)))
        return out

    def increasing(self, nums):
        return [z3.Implies(z3.ULT(a, b), self.tau(a) < self.tau(b)) for a in nums for b in nums if a is not b]


def history(op):
    def custom(spec, env, res):
        k = env.k
        H = History(env)
        for case in ('own', 'ext'):
            cname = 'published record: ' + case
            P = Prover(spec, env, res, cname)
            st = State()
            b = env.new_buffer(st, case=case)
            r = env.new_reader(st, b)
            ev = env.new_event(st, 'event')
            d, T = env.sym('d'), env.sym('T')
            t, bo, rb = env.top(st, b), env.bottom(st, b), env.rbot(st, r)

            def inv(s, dd, TT):
                c = Ctx(env, s, [r])
                c.x = dict(d=dd, T=TT)
                return B.sync_req(c) + [('the window holds events pushed since it began, unless some were overwritten', z3.Or(z3.ULE(env.rlen(s, r), dd), z3.UGE(TT, env.S())))]
            for nm, f in inv(st, d, T):
                st.assume(f)
            st.assume(z3.ULT(T + 1, c64(1) << 40))
            ix = [rb, t, env.inc(t), env.inc(env.inc(t)), env.dec(t), bo, env.inc(bo), env.inc(rb)]
            for f in H.slots(st, b, T, ix):
                st.assume(f)
            nums = [T, T - 1, T - env.N, T - env.S(), T - env.N + 1, T - d, T - d + 1] + [T - 1 - env.dist(i, env.dec(t)) for i in ix]
            for f in H.increasing(nums):
                st.assume(f)
            # the reader's time is that of its first event, or it has not seen any
            st.assume(z3.Implies(z3.UGE(d, 1), env.rts(st, r) <= H.tau(T - d)))
            st.assume(z3.Implies(z3.UGT(T, 0), env.rts(st, r) <= H.tau(T - 1)))
            if op == 'push':
                st.assume(env.ev_time(st, ev) == H.tau(T))
                st.assume(env.ev_time(st, ev) >= env.rts(st, r))
            P.cover('precondition satisfiable', env.ex.check(st.pc) == 'sat')
            pre = st.clone()
            j = env.sym('slot')
            if op == 'push':
                for f in H.slots(pre, b, T, [j]):
                    st.assume(f)
                ends = runs(env, st, 'vf_buffer_push', [b, ev])
                post = [(e, d + 1, T + 1) for e in ends]
            else:
                ends = runs(env, st, 'vf_reader_' + op, [r] + ([ev] if op in ('pull', 'pop') else []))
                post = []
                for e in ends:
                    t2, rb2 = env.top(e, b), env.rbot(e, r)
                    # the event the window now begins with: the one its oldest slot holds
                    steps = z3.If(rb2 == t2, z3.If(z3.UGE(T, env.S()), env.S(), z3.BitVecVal(0, 64)), env.dist(rb2, t2))
                    changed = z3.Or(rb2 != rb, env.rts(e, r) != env.rts(pre, r))
                    post.append((e, z3.If(changed, steps, d), T))
            for e, d2, T2 in post:
                for nm, f in inv(e, d2, T2):
                    P.ob('again: ' + nm, e, f)
                if op == 'push':
                    P.ob('again: every slot written holds the event its place says', e, z3.And(H.slots(e, b, T2, [j])))
                P.ob('again: the reader has seen nothing newer than the newest event', e, z3.Implies(z3.UGT(T2, 0), env.rts(e, r) <= H.tau(T2 - 1)))
            P.close()
    return custom


# ---- verdicts along a trace
class Trace:
    """an abstract window, for the recursive definitions of the contracts"""

    def __init__(self, env, name, tau, t):
        self.e, self.t = env, t
        self.tau_, self.n_, self.p_ = tau, None, {}
        self.name = name

    def set(self, c, tau, left, p1, p2):
        self.tau_, self.n_, self.p_ = tau, left, {1: p1, 2: p2}

    def tau(self, c):
        return self.tau_(c)

    def left(self, c):
        return self.n_

    def p(self, i, c):
        return self.p_[i]


def definite(env, v):
    T, F_, U = F.T3(env)
    return z3.Or(v == T, v == F_)


def final(env, v, w):
    return z3.Implies(definite(env, v), w == v)


def final_setup(env):
    """an event of a window, and the same event of an extension of that window"""
    BV = z3.BitVecSort(64)
    tau, tau2 = z3.Function('times', BV, BV), z3.Function('times_of_the_extension', BV, BV)
    c, t = z3.BitVec('position', 64), z3.BitVec('t', 64)
    n, n2 = z3.BitVec('events_left', 64), z3.BitVec('events_left_in_the_extension', 64)
    p = [z3.BitVec('operand%d' % i, 32) for i in (1, 2)]
    q = [z3.BitVec('operand%d_on_the_extension' % i, 32) for i in (1, 2)]
    v, w = Trace(env, 'window', tau, t), Trace(env, 'extension', tau2, t)
    v.set(c, tau, n, *p)
    w.set(c, tau2, n2, *q)
    nx = env.inc(c)
    hyps = [z3.ULE(1, n), z3.ULE(n, n2), z3.ULT(n2, c64(1) << 32), tau(c) == tau2(c), z3.Implies(z3.UGE(n, 2), tau(nx) == tau2(nx)),
            z3.Implies(z3.UGE(n2, 2), tau2(c) < tau2(nx)), env.valid_ix(c), t >= 0, t < F.BIG, tau(c) >= 0, tau(c) < F.BIG, tau2(nx) >= 0, tau2(nx) < F.BIG]
    hyps += [F.verdict(env, x) for x in p + q] + [final(env, x, y) for x, y in zip(p, q)]
    return v, w, c, nx, n, n2, hyps


def finality(name):
    body = dict(until=F.until_body(F.p1, F.p2), always_less=F.always_body, eventually_unbounded=F.eunb_body, eventually_equal=F.ev_eq_body, always_equal=F.ev_eq_body).get(name)

    def custom(spec, env, res):
        P = Prover(spec, env, res)
        v, w, c, nx, n, n2, hyps = final_setup(env)
        T3 = F.T3(env)
        BV, BW = z3.BitVecSort(64), z3.BitVecSort(32)
        if name == 'duration':
            D, D2 = z3.Function('measure', BV, BV), z3.Function('measure_of_the_extension', BV, BV)
            U, U2 = z3.Function('flag', BV, z3.BoolSort()), z3.Function('flag_of_the_extension', BV, z3.BoolSort())
            eqs = [F.dur_unfold_with(v, c, D, U), F.dur_unfold_with(w, c, D2, U2)]
            hyps += eqs[0] + eqs[1] + [z3.Implies(z3.And(z3.UGE(n, 2), z3.Not(U(nx))), z3.And(z3.Not(U2(nx)), D2(nx) == D(nx)))]
            P.cover('precondition satisfiable', env.ex.check(hyps) == 'sat')
            # an unflagged measure is of a window past t+b; the operand's verdict counts where it is definite
            P.ob('an unflagged value is the value on every extension', None, z3.Implies(z3.Not(U(c)), z3.And(z3.Not(U2(c)), D2(c) == D(c))), hyps)
        elif name == 'prop':
            p, d = z3.BitVec('proposition', 32), z3.BitVec('data', 32)
            a = F.prop_verdict(env, n, v.tau(c), v.tau(nx), v.t, d == p)
            b = F.prop_verdict(env, n2, w.tau(c), w.tau(nx), v.t, d == p)
            P.cover('precondition satisfiable', env.ex.check(hyps) == 'sat')
            P.ob('a definite verdict is the verdict on every extension', None, final(env, a, b), hyps)
        elif name in ('eventually_equal', 'always_equal'):
            f, g = z3.Function('verdict', BV, BW, BW), z3.Function('verdict_on_the_extension', BV, BW, BW)
            x, y = z3.BitVec('verdict_before', 32), z3.BitVec('verdict_before_on_the_extension', 32)
            hyps += [F.verdict(env, x), F.verdict(env, y), final(env, x, y)]
            # the next position, entered with the verdict at this one
            hyps += [z3.Implies(z3.UGE(n, 2), final(env, f(nx, v.p(1, c)), g(nx, w.p(1, c))))]
            # past the end of the shorter window the extension only goes on to where it is decided
            beyond = g(nx, w.p(1, c))
            hyps += [z3.Implies(z3.And(n == 1, z3.UGE(n2, 2), w.tau(nx) > w.t + env.bnd), beyond == w.p(1, c))]
            P.cover('precondition satisfiable', env.ex.check(hyps) == 'sat')
            P.ob('a definite verdict is the verdict on every extension', None, final(env, body(v, f, c, x), body(w, g, c, y)), hyps)
            P.ob('used above: a position past t+b has the verdict before it', None, z3.Implies(w.tau(c) > w.t + env.bnd, body(w, g, c, y) == y), hyps)
        else:
            f, g = z3.Function('verdict', BV, BW), z3.Function('verdict_on_the_extension', BV, BW)
            hyps += [z3.Implies(z3.UGE(n, 2), final(env, f(nx), g(nx)))]
            P.cover('precondition satisfiable', env.ex.check(hyps) == 'sat')
            P.ob('a definite verdict is the verdict on every extension', None, final(env, body(v, f, c), body(w, g, c)), hyps)
        P.close()
    return custom


def duality(name):
    """always = not until(true, not phi); historically = not since(true, not phi)"""
    def custom(spec, env, res):
        P = Prover(spec, env, res)
        BV, BW = z3.BitVecSort(64), z3.BitVecSort(32)
        tau = z3.Function('times', BV, BV)
        c, t, n, p = z3.BitVec('position', 64), z3.BitVec('t', 64), z3.BitVec('events_left', 64), z3.BitVec('operand1', 32)
        v = Trace(env, 'window', tau, t)
        v.set(c, tau, n, p, p)
        v.bo = z3.BitVec('oldest', 64)
        T, F_, U = F.T3(env)
        f, g = z3.Function('verdict', BV, BW), z3.Function('verdict_of_the_dual', BV, BW)
        true, notp = (lambda v, c: T), (lambda v, c: F.neg(env, v.p(1, c)))
        nx = env.inc(c) if name == 'always_less' else env.dec(c)
        a, b = (F.always_body, F.until_body(true, notp)) if name == 'always_less' else (F.hist_body, F.since_body(true, notp))
        hyps = [F.verdict(env, p), f(nx) == F.neg(env, g(nx)), F.verdict(env, g(nx)), z3.UGE(n, 1)]
        P.cover('precondition satisfiable', env.ex.check(hyps) == 'sat')
        P.ob('the negation of its dual, at every event', None, a(v, f, c) == F.neg(env, b(v, g, c)), hyps)
        P.close()
    return custom


def specs():
    out = []

    def add(label, wrapper, custom):
        s = Spec(None, wrapper, None, None, None, callable_=False)
        s.custom = custom
        s.label = label
        s.kind = 'lemma'
        out.append(s)
    for op in ('push', 'pull', 'pop'):
        add('sequence of events: ' + op, 'vf_buffer_' + op, deque('buffer_' + op))
    for op in ('push', 'pull', 'pop', 'write'):
        for side in ('copy', 'source'):
            add('independence: %s on the %s' % (op, side), 'vf_buffer_assign', independent(op, side))
    for op in ('ctor', 'push', 'pull', 'pop', 'assign'):
        add('settled: ' + op, 'vf_buffer_' + op, settles(op))
    for op in ('push',):
        add('history: ' + op, 'vf_buffer_push', history(op))
    for op in ('pull', 'pop', 'synchronize'):
        add('history: ' + op, 'vf_reader_' + op, history(op))
    for n in ('until', 'always_less', 'eventually_unbounded', 'eventually_equal', 'always_equal', 'prop', 'duration'):
        add('finality: ' + n, 'vf_' + n, finality(n))
    for n in ('always_less', 'historically_less'):
        add('duality: ' + n, 'vf_' + n, duality(n))
    return out


def names(prefix):
    return [s.label for s in specs() if s.label.startswith(prefix)]
