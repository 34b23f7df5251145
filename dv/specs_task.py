"""The periodic monitor: sequential contracts of its control functions, and the monitoring thread under interference.

The thread is verified from the state its constructor leaves, with every other thread's actions between any two
of its accesses to the shared status: enable() and disable() (their contracts are the rely condition) and setPeriod().
What happened so far is kept in ghost cells, so that loops are cut by invariants over them; each call that leaves
the library (the body, the waits, the clock) carries the obligations.
"""
import z3
from .contract import *

G = 1000000000
MON = r'RTML_monitor<\(char\)109, \(char\)111, \(char\)110>'
GHOST = 'EN DIS DISB ENB WOKE RETRY DSET DS DN NF FS FN L1S L1N L2S L2N PV PREAD MTX ERR'.split()


def b64(c):
    return z3.If(c, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))


def v64(n):
    return z3.BitVecVal(n, 64)


# ------------------------------------------------------------------ sequential contracts
def mon_cases(period=False, argperiod=False):
    def cases(env):
        def build(st):
            k = env.k
            rid = env.ex.new_region(st, 'monitor', k['sz_monitor'], visible=True)
            p = Ptr(rid)
            s = env.sym('status', 32)
            env.cell(st, p.add(k['off_st']), 4, s)
            env.name(rid, k['off_st'], 'status')
            env.cell(st, p.add(k['off_period']), 4, env.sym('period', 32))
            env.name(rid, k['off_period'], 'period')
            st.assume(z3.Or([s == k['st_' + n] for n in ('ACTIVATE', 'UNACTIVATE', 'RUNNING', 'ABORT', 'ABORTED')]))
            a = [p]
            if argperiod:
                w = Ptr(env.ex.new_region(st, 'new_period', 4, visible=True))
                env.cell(st, w, 4, env.sym('new_period', 32))
                a.append(w)
            return a
        return [('any status', build)]
    return cases


def st_of(c):
    return c.e.rdb(c.pre, Ptr(c.a[0].rid, c.e.k['off_st']), 4)


def enable_out(c):
    k, p = c.e.k, c.a[0]
    s0 = st_of(c)

    def start(s):
        c.e.cell(s, p.add(k['off_st']), 4, z3.BitVecVal(k['st_ACTIVATE'], 32))
        return 0, []

    def ended(s):
        v = c.free(s, p.add(k['off_st']), 4)
        return 0, [('an ended task is not running', v != k['st_RUNNING'])]
    return [Out('waiting to be started', s0 == k['st_UNACTIVATE'], start),
            Out('ended', s0 == k['st_ABORTED'], ended),
            Out('started already, or asked to stop', z3.And(s0 != k['st_UNACTIVATE'], s0 != k['st_ABORTED']), lambda s: (0, []))]


def disable_out(c):
    k, p = c.e.k, c.a[0]
    s0 = st_of(c)

    def stop(s):
        c.e.cell(s, p.add(k['off_st']), 4, z3.BitVecVal(k['st_ABORT'], 32))
        return 0, []

    def ended(s):
        v = c.free(s, p.add(k['off_st']), 4)
        return 0, [('still ended', z3.Or(v == k['st_ABORTED'], v == k['st_ABORT']))]
    return [Out('alive', s0 != k['st_ABORTED'], stop), Out('ended', s0 == k['st_ABORTED'], ended)]


def running_out(c):
    return [Out('always', z3.BoolVal(True), lambda s: (z3.If(st_of(c) == c.e.k['st_RUNNING'], z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), []))]


def getperiod_out(c):
    return [Out('always', z3.BoolVal(True), lambda s: (c.e.rdb(c.pre, c.a[0].add(c.e.k['off_period']), 4), []))]


def setperiod_out(c):
    def fn(s):
        c.e.cell(s, c.a[0].add(c.e.k['off_period']), 4, c.e.rdb(c.pre, c.a[1], 4))
        return None, []
    return [Out('always', z3.BoolVal(True), fn)]


def join_cases(env):
    build0 = mon_cases()(env)[0][1]

    def build(st):
        ex = env.ex
        a = build0(st)
        at = a[0].add(env.k['off_thread'])
        env.cell(st, at, 8, env.sym('thread', 64))
        env.name(a[0].rid, env.k['off_thread'], 'thread')
        env.joined = env.sym('pthread_join', 32)

        def e_join(ex, s, b):
            n = len(s.pc)
            ex.oblige(s, 'join: waits for the thread of the task', tobv(b[0], 64) == env.rdb(s, at, 8))
            del s.pc[n:]
            s2 = s.clone()
            s.assume(env.joined == 0)
            s2.assume(env.joined != 0)
            if not (is_c(b[1]) and b[1] == 0):
                ex.store(s, ex.as_ptr(s, b[1]), ('i', 64), ex.fresh('returned', 64))
            return [(s, 0), (s2, env.joined)]
        ex.externs['pthread_join'] = e_join
        return a
    return [('any status', build)]


def join_out(c):
    j = c.e.joined

    def failed(s):
        r = tobv(c.free_ret(32), 32)
        return r, [('a failed join is reported', r != 0)]
    return [Out('the thread has ended', j == 0, lambda s: (0, [])), Out('it cannot be joined', j != 0, failed)]


def task_specs():
    out = []
    for n, cs, o, w in (('enable', mon_cases(), enable_out, 32), ('disable', mon_cases(), disable_out, 32), ('isRunning', mon_cases(), running_out, 32),
                        ('getPeriod', mon_cases(), getperiod_out, 32), ('setPeriod', mon_cases(argperiod=True), setperiod_out, 32), ('join', join_cases, join_out, 32)):
        s = Spec(None, 'vf_mon_' + n, cs, lambda c: [], o, ret_w=w, callable_=False)
        s.module = ('task.cpp',)
        out.append(s)
    for w in ('ctor', 'ctor_prio'):
        s = Spec(None, 'vf_mon_' + w, None, None, None, callable_=False)
        s.module = ('task.cpp',)
        s.custom = thread_run
        out.append(s)
    return out


# ------------------------------------------------------------------ the thread
class Thread:
    def __init__(self, env, res, wrapper):
        self.env, self.ex, self.res, self.wrapper = env, env.ex, res, wrapper
        self.k = env.k
        self.g = {n: 8 * i for i, n in enumerate(GHOST)}
        self.live = False

    # ghost cells
    def get(self, s, n):
        return tobv(self.ex.cell_read(s, self.grid, self.g[n], 8), 64)

    def put(self, s, n, v):
        self.ex.cell_write(s, self.grid, self.g[n], 8, simp(v) if z3.is_expr(v) else v)

    def is1(self, s, n):
        return self.get(s, n) == 1

    def status(self, s):
        return tobv(self.ex.cell_read(s, self.mon, self.k['off_st'], 4), 32)

    def need(self, s, name, f):
        n = len(s.pc)
        self.ex.oblige(s, name, f)
        del s.pc[n:]

    def settle(self, s, *ns):
        """a flag that is decided on this path becomes a constant"""
        for n in ns:
            v = self.ex.cell_read(s, self.grid, self.g[n], 8)
            if is_c(v):
                continue
            v = tobv(v, 64)
            if self.ex.must(s, v == 1):
                self.put(s, n, v64(1))
            elif self.ex.must(s, v == 0):
                self.put(s, n, v64(0))

    # -- other threads
    def env_step(self, s):
        """any number of enable()/disable() calls by other threads"""
        k, ex = self.k, self.ex
        old = self.status(s)
        new = ex.fresh('status', 32)
        en, dis = ex.fresh('enabled', 0), ex.fresh('disabled', 0)
        wait, act, ab, abd = [z3.BitVecVal(k['st_' + n], 32) for n in ('UNACTIVATE', 'ACTIVATE', 'ABORT', 'ABORTED')]
        # enable: UNACTIVATE -> ACTIVATE, nothing otherwise; disable: -> ABORT (or nothing when ended)
        s.assume(z3.If(dis, z3.Or(new == ab, z3.And(old == abd, new == abd)), z3.If(z3.And(en, old == wait), new == act, new == old)))
        ex.cell_write(s, self.mon, k['off_st'], 4, new)
        for n, f in (('EN', en), ('DIS', dis)):
            v = self.ex.cell_read(s, self.grid, self.g[n], 8)
            if not (is_c(v) and v == 1):
                self.put(s, n, b64(f) if is_c(v) else b64(z3.Or(self.is1(s, n), f)))

    def new_period(self, s):
        self.ex.cell_write(s, self.mon, self.k['off_period'], 4, self.ex.fresh('period', 32))

    def access(self, ex, s, p, kind):
        if not self.live:
            return
        p = ex.as_ptr(s, p)
        if p.rid != self.mon:
            return
        k = self.k
        if p.off == k['off_st']:
            self.env_step(s)
        elif p.off == k['off_period'] and kind == 'load':
            self.new_period(s)
            self.put(s, 'PV', z3.ZeroExt(32, tobv(ex.cell_read(s, self.mon, k['off_period'], 4), 32)))
            self.put(s, 'PREAD', v64(1))

    def runs(self, s, where):
        """isRunning, as seen from outside at this moment"""
        self.need(s, '%s: isRunning is true exactly while no stop was requested' % where, (self.status(s) == self.k['st_RUNNING']) == z3.Not(self.is1(s, 'DIS')))

    # -- the operating system
    def e_nanosleep(self, ex, s, a):
        self.env_step(s)
        self.need(s, 'before the start: isRunning is false', self.status(s) != self.k['st_RUNNING'])
        self.need(s, 'before the start: once enabled, the task starts', z3.Not(self.is1(s, 'ENB')))
        self.need(s, 'before the start: once disabled, the task ends', z3.Not(self.is1(s, 'DISB')))
        self.env_step(s)
        self.put(s, 'DISB', self.get(s, 'DIS'))
        self.put(s, 'ENB', self.get(s, 'EN'))
        r = ex.fresh('nanosleep', 32)
        s.assume(z3.Or(r == 0, r == 0xffffffff))
        return [(s, r)]

    def e_clock(self, ex, s, a):
        p = ex.as_ptr(s, a[1])
        sec, ns = ex.fresh('clock_sec', 64), ex.fresh('clock_nsec', 64)
        s.assume(z3.And(sec >= 0, sec < (1 << 32), ns >= 0, ns < G))
        ex.store(s, p, ('i', 64), sec)
        ex.store(s, p.add(8), ('i', 64), ns)
        if self.live:
            self.settle(s, 'EN', 'NF')
            en, nf = self.is1(s, 'EN'), self.get(s, 'NF')
            for n, v in (('FS', sec), ('FN', ns)):
                self.put(s, n, z3.If(z3.And(en, nf == 0), v, self.get(s, n)))
            for n in 'SN':
                self.put(s, 'L2' + n, z3.If(en, self.get(s, 'L1' + n), self.get(s, 'L2' + n)))
                self.put(s, 'L1' + n, z3.If(en, sec if n == 'S' else ns, self.get(s, 'L1' + n)))
            self.put(s, 'NF', z3.If(z3.And(en, z3.ULT(nf, 2)), nf + 1, nf))
        return [(s, 0)]

    def after(self, ss, sn, bs, bn, p):
        """(ss,sn) is (bs,bn) plus p microseconds, normalised: exact over the integers"""
        d, e = ss - bs, sn - bn
        return z3.And(sn >= 0, sn < G, z3.Or([z3.And(d == q, e == p * 1000 - v64(G) * q) for q in [self.secs(p), self.secs(p) + 1]]))

    def secs(self, p):
        return z3.UDiv(p, v64(1000000))

    def e_timedwait(self, ex, s, a):
        self.settle(s, 'EN', 'RETRY', 'DSET')
        self.env_step(s)
        p = ex.as_ptr(s, a[2])
        ss, sn = tobv(ex.load(s, p, ('i', 64)), 64), tobv(ex.load(s, p.add(8), ('i', 64)), 64)
        retry = self.is1(s, 'RETRY')
        W = 'wait: '
        self.need(s, W + 'only after enable', self.is1(s, 'EN'))
        self.need(s, W + 'the lock is held', self.is1(s, 'MTX'))
        self.need(s, W + 'none once a stop was requested before the last wake-up', z3.Or(retry, z3.Not(self.is1(s, 'DISB'))))
        self.need(s, W + 'the body ran for the previous deadline', z3.Or(retry, z3.Not(self.is1(s, 'WOKE'))))
        self.runs(s, 'wait')
        P = self.get(s, 'PV')
        dl = lambda b: self.after(ss, sn, self.get(s, b + 'S'), self.get(s, b + 'N'), P)
        nf = self.get(s, 'NF')
        first = z3.Or(z3.And(nf != 0, dl('F')), z3.And(nf != 0, dl('L1')), z3.And(nf == 2, dl('L2')))
        self.need(s, W + 'the period is read for this deadline', z3.Or(retry, self.is1(s, 'PREAD')))
        self.need(s, W + 'the deadline is the previous deadline (or the start instant) plus the period',
                  z3.If(retry, z3.And(ss == self.get(s, 'DS'), sn == self.get(s, 'DN')),
                        z3.If(self.is1(s, 'DSET'), dl('D'), first)))
        self.put(s, 'DS', ss)
        self.put(s, 'DN', sn)
        self.put(s, 'DSET', v64(1))
        self.put(s, 'PREAD', v64(0))
        self.env_step(s)
        out = []
        s2, s3 = s.clone(), s.clone()
        # deadline reached
        self.put(s, 'RETRY', v64(0))
        self.put(s, 'WOKE', v64(1))
        self.put(s, 'DISB', self.get(s, 'DIS'))
        out.append((s, self.k['k_ETIMEDOUT']))
        # woken before the deadline
        self.put(s2, 'RETRY', v64(1))
        out.append((s2, 0))
        # failure
        r = ex.fresh('timedwait', 32)
        s3.assume(z3.And(r != 0, r != self.k['k_ETIMEDOUT']))
        self.put(s3, 'ERR', v64(1))
        out.append((s3, r))
        return out

    def e_body(self, ex, s, a):
        self.settle(s, 'EN', 'DISB', 'WOKE')
        self.env_step(s)
        B = 'body: '
        p = ex.as_ptr(s, a[0])
        self.need(s, B + 'of this monitor', z3.BoolVal(p.rid == self.mon and p.off == 0 and p.idx is None))
        self.need(s, B + 'never before enable', self.is1(s, 'EN'))
        self.need(s, B + 'not after a stop was requested before its wake-up', z3.Not(self.is1(s, 'DISB')))
        self.need(s, B + 'once per wake-up', self.is1(s, 'WOKE'))
        self.runs(s, 'body')
        self.put(s, 'WOKE', v64(0))
        self.put(s, 'PREAD', v64(0))
        self.env_step(s)
        return [(s, None)]

    def e_lock(self, ex, s, a):
        self.need(s, 'lock: not held already', z3.Not(self.is1(s, 'MTX')))
        self.put(s, 'MTX', v64(1))
        return [(s, 0)]

    def e_unlock(self, ex, s, a):
        self.need(s, 'unlock: held', self.is1(s, 'MTX'))
        self.put(s, 'MTX', v64(0))
        return [(s, 0)]

    def e_init(self, ex, s, a):
        s2 = s.clone()
        r = ex.fresh('error', 32)
        s2.assume(r != 0)
        if self.live:
            self.put(s2, 'ERR', v64(1))
        return [(s, 0), (s2, r)]

    def e_create(self, ex, s, a):
        self.env_checks = True
        self.need(s, 'creation: the task waits to be enabled before its thread exists', self.status(s) == self.k['st_UNACTIVATE'])
        self.need(s, 'creation: one thread', z3.BoolVal('thread' not in s.ghost))
        fn = ex.as_ptr(s, a[2])
        s2 = s.clone()
        s.ghost['thread'] = (fn, ex.as_ptr(s, a[3]))
        ex.store(s, ex.as_ptr(s, a[0]), ('i', 64), ex.fresh('pthread', 64))
        r = ex.fresh('error', 32)
        s2.assume(r != 0)
        return [(s, 0), (s2, r)]

    # -- loops: what the invariants may be made of
    def hints(self, ex, st):
        g = self.get
        base = lambda n, d, b: (lambda s: z3.If(self.is1(s, 'DSET'), g(s, d), g(s, b)))
        terms = [('base ' + b + x, base(b, 'D' + x, b + x)) for b in ('F', 'L1', 'L2') for x in 'SN']
        terms += [('period read', lambda s: z3.Extract(31, 0, g(s, 'PV')))]
        one = lambda n, v: ('%s == %d' % (n, v), lambda s: g(s, n) == v, (self.grid, self.g[n], 8), v)
        k = self.k
        invs = [one(n, v) for n in GHOST if n not in ('DS', 'DN', 'FS', 'FN', 'L1S', 'L1N', 'L2S', 'L2N', 'PV') for v in (0, 1)]
        invs += [('%s is a flag' % n, lambda s, n=n: z3.ULE(g(s, n), 1)) for n in ('EN', 'DIS', 'DISB', 'ENB', 'RETRY', 'DSET')]
        invs += [('%s is a fraction' % n, lambda s, n=n: z3.And(g(s, n) >= 0, g(s, n) < G)) for n in ('DN', 'FN', 'L1N', 'L2N')]
        S = self.status
        dis, en = lambda s: self.is1(s, 'DIS'), lambda s: self.is1(s, 'EN')
        invs += [('readings counted', lambda s: z3.ULE(g(s, 'NF'), 2)), ('some reading', lambda s: z3.And(z3.ULE(g(s, 'NF'), 2), g(s, 'NF') != 0)), one('NF', 2),
                 ('the period fits', lambda s: z3.ULT(g(s, 'PV'), v64(1 << 32))),
                 ('status of a waiting task', lambda s: z3.If(dis(s), S(s) == k['st_ABORT'], S(s) == z3.If(en(s), z3.BitVecVal(k['st_ACTIVATE'], 32), z3.BitVecVal(k['st_UNACTIVATE'], 32)))),
                 ('status of a started task', lambda s: z3.If(dis(s), S(s) == k['st_ABORT'], S(s) == k['st_RUNNING'])),
                 ('stop seen at a wait was requested', lambda s: z3.Implies(self.is1(s, 'DISB'), dis(s))),
                 ('enable seen at a wait was requested', lambda s: z3.Implies(self.is1(s, 'ENB'), en(s)))]
        invs += [('F is L1', lambda s: z3.Implies(g(s, 'NF') == 1, z3.And(g(s, 'FS') == g(s, 'L1S'), g(s, 'FN') == g(s, 'L1N'))))]
        invs += [('%s as before the first wait' % n, lambda s, n=n, v=g(st, n): z3.Or(self.is1(s, 'RETRY'), g(s, n) == v)) for n in GHOST if n not in ('RETRY', 'EN', 'DIS')]
        def target(s, rid, o):
            r = s.mem.get(rid)
            c, d = (r.cells.get(o), r.cells.get(o + 8)) if r is not None else (None, None)
            if c is None or d is None or c[0] != 8 or d[0] != 8 or isinstance(c[1], Ptr) or isinstance(d[1], Ptr):
                return z3.BoolVal(False)
            return z3.Implies(self.is1(s, 'RETRY'), z3.And(tobv(c[1], 64) == g(s, 'DS'), tobv(d[1], 64) == g(s, 'DN')))
        for rid, r in st.mem.items():
            if r.kind == 'mem' and not r.const and rid != self.grid:
                invs += [('the deadline waited for is %s+%d' % (r.name, o), lambda s, rid=rid, o=o: target(s, rid, o)) for o in r.cells if not z3.is_false(target(st, rid, o))]
        return dict(terms=terms, invs=[], strong=invs, bounds=[], variants=[], cellinvs=[
            ('a fraction of a second', 8, lambda s, v: z3.And(v >= 0, v < G))])


def thread_run(spec, env, res):
    ex = env.ex
    k = env.k
    t = Thread(env, res, spec.wrapper)
    ok0 = lambda ex, s, a: [(s, 0)]
    ex.externs.update(dict(clock_gettime=t.e_clock, nanosleep=t.e_nanosleep, pthread_cond_timedwait=t.e_timedwait, vf_body=t.e_body,
                           pthread_mutex_lock=t.e_lock, pthread_mutex_unlock=t.e_unlock, pthread_mutex_init=t.e_init, pthread_cond_init=t.e_init,
                           pthread_create=t.e_create, pthread_attr_init=t.e_init, pthread_attr_setschedpolicy=t.e_init, pthread_attr_setstacksize=t.e_init,
                           pthread_attr_setschedparam=t.e_init, pthread_attr_destroy=t.e_init, pthread_attr_setinheritsched=t.e_init,
                           pthread_mutex_destroy=ok0, pthread_cond_destroy=ok0))
    ex.externs['sched_yield'] = ex.externs['usleep'] = ex.externs['clock_nanosleep'] = t.e_nanosleep
    st = State()
    t.mon = ex.new_region(st, 'monitor', k['sz_monitor'], visible=True)
    env.cell(st, Ptr(t.mon, k['off_st']), 4, env.sym('raw', 32))
    env.cell(st, Ptr(t.mon, k['off_period']), 4, env.sym('raw', 32))
    t.grid = ex.new_region(st, 'ghost', 8 * len(GHOST))
    for n in GHOST:
        t.put(st, n, v64(0))
    ex.on_access = t.access
    ex.loop_hints = t.hints
    args = [Ptr(t.mon), env.sym('period', 32)] + ([env.sym('policy', 32), env.sym('priority', 32)] if spec.wrapper.endswith('prio') else [])
    ex.call_function(st, spec.wrapper, args, None)
    ends = ex.run([st])
    res.paths += len(ends)
    started = [e for _, e in ends if 'thread' in e.ghost and ex.feasible(e)]
    res.covers.append(('the thread is created', bool(started)))
    name = spec.short()
    n = 0
    for e in started:
        p = e.ghost['thread']
        fn = e.mem.get(p[0].rid)
        ex.obls.append(Obl('creation: the period is the one given', e.pc, tobv(ex.cell_read(e, t.mon, k['off_period'], 4), 32) == args[1], name))
        ex.obls.append(Obl('creation: the task still waits to be enabled', e.pc, t.status(e) == k['st_UNACTIVATE'], name))
        if n:
            continue          # one of the paths that create the thread: they leave the same task
        n += 1
        s = e.clone()
        s.done = False
        s.frames = []
        s.ret = None
        s.pc = []         # the thread is verified for any task its constructor may leave: only the memory is kept
        t.live = True
        t.env_step(s)
        t.put(s, 'DISB', t.get(s, 'DIS'))
        t.put(s, 'ENB', t.get(s, 'EN'))
        # the thread may see nothing of the creating thread but the task
        ex.call_function(s, fn.fn, [p[1]], None)
        tends = ex.run([s])
        res.paths += len(tends)
        for _, x in tends:
            t.need(x, 'end: only after a stop request (or a failed system call)', z3.Or(t.is1(x, 'DIS'), t.is1(x, 'ERR')))
            t.need(x, 'end: a stopped task is not running', z3.Implies(t.is1(x, 'DIS'), t.status(x) != k['st_RUNNING']))
            res.covers.append(('the thread can end', True))
    for o in ex.obls:
        o.name = '%s %s' % (name, o.name)
