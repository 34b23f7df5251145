"""Contracts, their verification against the bodies, and their use at call sites."""
import os, re, subprocess, time, json, hashlib
import z3
from . import ir
from .sym import *

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/lib/llvm-18/bin/clang++'
CFLAGS = ['-std=c++11', '-mcx16', '-w', '-fno-access-control', '-fno-exceptions', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone']
N_MAGIC, B_MAGIC = 7919, 71582777
# other instantiations the code is compiled for: sizes around and at powers of two, capacities and bounds of various widths
CLASSES = [(12553, 93281617), (8191, (1 << 33) + 1234), (8192, 4099), (70001, (1 << 50) + 3), (1048575, 1 << 60)]


class BuildError(Exception):
    pass


def emit_ir(harness, defs=(), extra=()):
    src = os.path.join(VERIF, 'harness', harness)
    cmd = [CLANG] + CFLAGS + list(extra) + ['-I' + os.path.join(REPO, 'src')] + ['-D' + d for d in defs] + [src, '-o', '-']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang failed on %s:\n%s' % (harness, r.stderr[-3000:]))
    return r.stdout


_modcache = {}


def load_module(harness, defs=(), extra=()):
    key = (harness, tuple(defs), tuple(extra))
    if key not in _modcache:
        m = ir.parse_module(emit_ir(harness, defs, extra))
        m.k = {}
        for n, (ty, init, const) in m.globals.items():
            if const and ty == ('i', 64) and init is not None and init[0] in ('int', 'zero'):
                m.k[n] = init[1] if init[0] == 'int' else 0
        _modcache[key] = m
    return _modcache[key]


def inst_defs(n, b):
    return ('VN=%d' % n, 'VB=%d' % b)


def parametric_check():
    """The capacity and the time bound occur in the bodies only through the two constants the engine
    treats as symbols: the IR for other instantiations is the same text up to them.
    -> [(capacity, bound, difference)] for the instantiations of which this is not so"""
    from concurrent.futures import ThreadPoolExecutor

    def norm(s, n, bb):
        sz = 16 * (n + 2)

        def rep(mm):
            v = int(mm.group(0))
            if abs(v - n) <= 8:
                return 'N%+d' % (v - n)
            if abs(v - bb) <= 8:
                return 'B%+d' % (v - bb)
            if abs(v - sz) <= 512:
                return 'SZ%+d' % (v - sz)
            return mm.group(0)
        out = []
        for l in s.split('\n'):
            if l.startswith(('!', 'attributes', 'source_filename', '; Mod')):
                continue
            out.append(re.sub(r'(?<![0-9!#])[0-9]{4,}(?![0-9])', rep, re.sub(r'%s' % r'_Z[A-Za-z0-9_]+', lambda m: re.sub(r'[0-9]{4,}', rep, m.group(0)), l)))
        return out

    def text(c):
        return norm(emit_ir('sw.cpp', inst_defs(*c) if c else ()), *(c or (N_MAGIC, B_MAGIC)))
    with ThreadPoolExecutor(3) as ex:
        x, *ys = ex.map(text, [None] + CLASSES)
    res = []
    for c, y in zip(CLASSES, ys):
        if x != y:
            d = [(p, q) for p, q in zip(x, y) if p != q]
            res.append(c + (('%r vs %r' % (d[0][0][:160], d[0][1][:160])) if d else 'different length',))
    return res


class Env:
    """one verification context: executor plus the layout read from the compiled headers"""

    def __init__(self, module, opts=None, small=None, inst=None):
        nm, bm = inst or (N_MAGIC, B_MAGIC)
        self.m = module
        self.k = module.k
        self.D = module.k.get('sz_data', 4)     # bytes of event data
        o = dict(opts or {})
        if small:
            # bounded runs: a concrete capacity range
            self.small = small
        else:
            self.small = None
        self.N = z3.BitVec('N', 64)
        self.bnd = z3.BitVec('bnd', 64)
        o['magic'] = [(nm, self.N), (bm, self.bnd)]
        o['ranges'] = {'N': (1, small if small else 1 << 31), 'bnd': (0, (1 << 61) - 1)}
        self.ex = Executor(module, o)
        top = z3.BitVecVal(small if small else (1 << 31), 64)
        self.ex.axioms = [z3.UGE(self.N, 1), z3.ULE(self.N, top), self.bnd >= 0, self.bnd < (1 << 61)]
        if inst:        # the code depends on the capacity or the bound otherwise: for these values only
            self.ex.axioms += [self.N == nm, self.bnd == bm]
        self.pads = {}
        self.names = {}

    # -- building blocks
    def S(self):
        return self.N + 1

    def sym(self, name, w=64):
        return self.ex.fresh(name, w)

    def cell(self, st, p, n, v):
        self.ex.cell_write(st, p.rid, p.off, n, v)
        return v

    def rd(self, st, p, n):
        v = self.ex.cell_read(st, p.rid, p.off, n)
        return v

    def rdb(self, st, p, n):
        v = self.rd(st, p, n)
        return self.ex.ptr_to_bv(st, v) if isinstance(v, Ptr) else tobv(v, n * 8)

    def name(self, rid, off, s):
        self.names[(rid, off)] = s

    def new_event(self, st, name, data=None, time_=None):
        k = self.k
        rid = self.ex.new_region(st, name, k['sz_event'], visible=True)
        p = Ptr(rid)
        self.cell(st, p.add(k['off_ev_data']), self.D, data if data is not None else self.sym(name + '_data', 8 * self.D))
        self.cell(st, p.add(k['off_ev_time']), 8, time_ if time_ is not None else self.sym(name + '_time', 64))
        self.name(rid, k['off_ev_data'], name + '.data')
        self.name(rid, k['off_ev_time'], name + '.time')
        self.pads[rid] = [(self.D, 8)]
        return p

    def init_state_record(self, st, p, name):
        k = self.k
        for f in ('top', 'bottom', 'pos'):
            self.cell(st, p.add(k['off_st_' + f]), 8, self.sym('%s_%s' % (name, f)))
            self.name(p.rid, p.off + k['off_st_' + f], '%s.%s' % (name, f))
        e = p.add(k['off_st_event'])
        self.cell(st, e.add(k['off_ev_data']), self.D, self.sym(name + '_ev_data', 8 * self.D))
        self.cell(st, e.add(k['off_ev_time']), 8, self.sym(name + '_ev_time', 64))
        self.name(p.rid, e.off + k['off_ev_data'], name + '.event.data')
        self.name(p.rid, e.off + k['off_ev_time'], name + '.event.time')
        self.pads.setdefault(p.rid, []).append((e.off + self.D, e.off + 8))

    def new_state_record(self, st, name):
        rid = self.ex.new_region(st, name, self.k['sz_state'], visible=True)
        p = Ptr(rid)
        self.init_state_record(st, p, name)
        return p

    def new_buffer(self, st, name='buf', case='own', const=False, wf=True):
        """a buffer in an arbitrary well-formed state. case: which record is published"""
        k, ex = self.k, self.ex
        rid = ex.new_region(st, name, k['sz_buffer'], visible=True)
        r = st.wregion(rid)
        p = Ptr(rid)
        r.zone = Zone(k['off_array'], k['sz_array'] // 16, {k['off_ev_data']: 8 * self.D, k['off_ev_time']: 64},
                      {k['off_ev_data']: z3.Array('%s_data' % name, z3.BitVecSort(64), z3.BitVecSort(8 * self.D)),
                       k['off_ev_time']: z3.Array('%s_time' % name, z3.BitVecSort(64), z3.BitVecSort(64))}, self.N + 2)
        pads = self.pads.setdefault(rid, [])
        self.cell(st, p.add(k['off_writer']), 1, self.sym(name + '_writer', 8))
        self.cell(st, p.add(k['off_size']), 8, self.S())
        self.cell(st, p.add(k['off_size_util']), 8, self.N)
        for f in ('writer', 'size', 'size_util'):
            self.name(rid, k['off_' + f], '%s.%s' % (name, f))
        pads.append((k['off_writer'] + 1, k['off_size']))
        # cells the library keeps but this configuration does not use (__top/__bottom)
        o = k['sz_array'] + k['off_array']
        for off in range(o, k['off_writer'], 8):
            self.cell(st, p.add(off), 8, self.sym('%s_unused%d' % (name, off)))
            self.name(rid, off, '%s.+%d' % (name, off))
        g = p.add(k['off_state_global'])
        self.init_state_record(st, g, name + '.state_global')
        pads.append((k['off_state_global'] + k['sz_state'], k['off_page']))
        if case == 'own':
            rec = g
        else:
            rec = self.new_state_record(st, name + '_record')
        pg = p.add(k['off_page'])
        self.cell(st, pg.add(k['off_page_ref']), 8, rec)
        self.cell(st, pg.add(k['off_page_counter']), 8, self.sym(name + '_counter'))
        self.name(rid, k['off_page'] + k['off_page_ref'], name + '.page.stateref')
        self.name(rid, k['off_page'] + k['off_page_counter'], name + '.page.counter')
        if wf:
            for f in self.buf_wf(st, p):
                st.assume(f)
        return p

    # -- views
    def record(self, st, b):
        v = self.rd(st, b.add(self.k['off_page'] + self.k['off_page_ref']), 8)
        return self.ex.as_ptr(st, v)

    def top(self, st, b):
        return self.rdb(st, self.record(st, b).add(self.k['off_st_top']), 8)

    def bottom(self, st, b):
        return self.rdb(st, self.record(st, b).add(self.k['off_st_bottom']), 8)

    def set_top(self, st, b, v):
        self.cell(st, self.record(st, b).add(self.k['off_st_top']), 8, v)

    def set_bottom(self, st, b, v):
        self.cell(st, self.record(st, b).add(self.k['off_st_bottom']), 8, v)

    def pos(self, st, b):
        return self.rdb(st, self.record(st, b).add(self.k['off_st_pos']), 8)

    def counter(self, st, b):
        return self.rdb(st, b.add(self.k['off_page'] + self.k['off_page_counter']), 8)

    def rec_event(self, st, b):
        e = self.record(st, b).add(self.k['off_st_event'])
        return self.rdb(st, e.add(self.k['off_ev_data']), self.D), self.rdb(st, e.add(self.k['off_ev_time']), 8)

    def writers(self, st, b):
        return self.rdb(st, b.add(self.k['off_writer']), 1)

    def size(self, st, b):
        return self.rdb(st, b.add(self.k['off_size']), 8)

    def zone(self, st, b):
        r = st.mem[b.rid]
        if r.zone is None:
            raise Unsupported('not a buffer object')
        return r.zone

    def data(self, st, b, i):
        return z3.Select(self.zone(st, b).arrays[self.k['off_ev_data']], tobv(i, 64))

    def time(self, st, b, i):
        return z3.Select(self.zone(st, b).arrays[self.k['off_ev_time']], tobv(i, 64))

    def ev_data(self, st, e):
        return self.ev(st, e, 'off_ev_data', self.D)

    def ev_time(self, st, e):
        return self.ev(st, e, 'off_ev_time', 8)

    def ev(self, st, e, f, n):
        p = e.add(self.k[f])
        r = st.mem[p.rid]
        if r.zone is not None and (p.idx is not None or r.zone.start <= p.off < r.zone.end()):
            i = (tobv(p.idx, 64) if p.idx is not None else z3.BitVecVal(0, 64)) + (p.off - r.zone.start) // 16
            return tobv(self.ex.zone_read(st, p.rid, i, (p.off - r.zone.start) % 16, n), n * 8)
        return self.rdb(st, p, n)

    def set_event(self, st, e, data, tm):
        k = self.k
        if e.idx is not None:
            raise Unsupported('event argument inside an array')
        self.cell(st, e.add(k['off_ev_data']), self.D, data)
        self.cell(st, e.add(k['off_ev_time']), 8, tm)

    def set_slot(self, st, b, i, data, tm):
        self.ex.zone_write(st, b.rid, i, self.k['off_ev_data'], self.D, data)
        self.ex.zone_write(st, b.rid, i, self.k['off_ev_time'], 8, tm)

    def inc(self, i):
        return z3.If(i == self.N, z3.BitVecVal(0, 64), i + 1)

    def dec(self, i):
        return z3.If(i == 0, self.N, i - 1)

    def dist(self, a, b):
        """number of steps from slot a to slot b"""
        return z3.If(z3.UGE(b, a), b - a, self.S() - (a - b))

    def slot(self, a, i):
        """slot reached from a after i <= size steps"""
        x = a + i
        return z3.If(z3.UGE(x, self.S()), x - self.S(), x)

    def length(self, st, b):
        return self.dist(self.bottom(st, b), self.top(st, b))

    def valid_ix(self, i):
        return z3.ULE(i, self.N)

    def buf_wf(self, st, b):
        return [self.valid_ix(self.top(st, b)), self.valid_ix(self.bottom(st, b)), self.size(st, b) == self.S(),
                self.rdb(st, b.add(self.k['off_size_util']), 8) == self.N]

    # -- readers
    def new_reader(self, st, b, name='reader', trace=False, wf=True, cursor_wf=True):
        k = self.k
        rid = self.ex.new_region(st, name, k['sz_trace'] if trace else k['sz_reader'], visible=True)
        p = Ptr(rid)
        self.cell(st, p, 8, b)
        self.name(rid, 0, name + '.buffer')
        for f in ('top', 'bottom', 'timestamp'):
            self.cell(st, p.add(k['off_rd_' + f]), 8, self.sym('%s_%s' % (name, f)))
            self.name(rid, k['off_rd_' + f], '%s.%s' % (name, f))
        if trace:
            self.cell(st, p.add(k['off_tr_cursor']), 8, self.sym(name + '_cursor'))
            self.name(rid, k['off_tr_cursor'], name + '.cursor')
            self.cell(st, p.add(k['off_tr_cursor'] + 8), 8, p.add(k['off_tr_cursor']))
            self.name(rid, k['off_tr_cursor'] + 8, name + '.lmem')
        if wf:
            st.assume(self.valid_ix(self.rtop(st, p)))
            st.assume(self.valid_ix(self.rbot(st, p)))
            if trace and cursor_wf:
                st.assume(self.in_window(st, p, self.cursor(st, p)))
        return p

    def rbuf(self, st, r):
        return self.ex.as_ptr(st, self.rd(st, r, 8))

    def rtop(self, st, r):
        return self.rdb(st, r.add(self.k['off_rd_top']), 8)

    def rbot(self, st, r):
        return self.rdb(st, r.add(self.k['off_rd_bottom']), 8)

    def rts(self, st, r):
        return self.rdb(st, r.add(self.k['off_rd_timestamp']), 8)

    def cursor(self, st, r):
        return self.rdb(st, r.add(self.k['off_tr_cursor']), 8)

    def set_r(self, st, r, f, v):
        self.cell(st, r.add(self.k[('off_tr_' if f == 'cursor' else 'off_rd_') + f]), 8, v)

    def rlen(self, st, r):
        return self.dist(self.rbot(st, r), self.rtop(st, r))

    def clen(self, st, r):
        """events from the cursor on"""
        return self.dist(self.cursor(st, r), self.rtop(st, r))

    def in_window(self, st, r, c):
        """position c is in the window or at its newest end (c == top)"""
        return z3.And(self.valid_ix(c), z3.ULE(self.dist(self.rbot(st, r), c), self.rlen(st, r)))


class Ctx:
    """evaluation context of a contract: pre-state, arguments, and (when verifying) the actual post-state"""

    def __init__(self, env, pre, args, actual=None, ret=None):
        self.e, self.pre, self.a, self.actual, self.aret = env, pre, args, actual, ret
        self.x = {}

    def free(self, s, p, n, hint='free'):
        """the contract leaves this cell open"""
        v = self.e.rd(self.actual, p, n) if self.actual is not None else self.e.sym(hint, n * 8)
        self.e.cell(s, p, n, v)
        return self.e.ex.ptr_to_bv(s, v) if isinstance(v, Ptr) else tobv(v, n * 8)

    def free_zone(self, s, b):
        z = s.wregion(b.rid).zone
        for l, w in z.leaves.items():
            z.arrays[l] = self.actual.mem[b.rid].zone.arrays[l] if self.actual is not None else z3.Array('fz!%d' % next(self.e.ex.cnt), z3.BitVecSort(64), z3.BitVecSort(w))

    def free_slot(self, s, b, i):
        z = s.wregion(b.rid).zone
        for l, w in z.leaves.items():
            v = z3.Select(self.actual.mem[b.rid].zone.arrays[l], i) if self.actual is not None else self.e.sym('fs', w)
            z.arrays[l] = z3.Store(z.arrays[l], i, v)

    def free_ret(self, w):
        return self.aret if self.actual is not None else self.e.sym('ret', w)


class Out:
    def __init__(self, label, guard, fn):
        self.label, self.guard, self.fn = label, guard, fn


class Spec:
    """contract of one function"""

    def __init__(self, fn, wrapper, cases, requires, outcomes, ret_w=32, hints=None, doc='', callable_=True, covers=None, axioms=None, bounded=None, group=None):
        self.fn, self.wrapper, self.cases, self.requires, self.outcomes = fn, wrapper, cases, requires, outcomes
        self.ret_w, self.hints, self.doc, self.callable_, self.covers = ret_w, hints, doc, callable_, covers
        self.axioms = axioms
        self.bounded = bounded
        self.frame_requires = None  # weaker precondition of the frame alone
        self.setup = None
        self.custom = None
        self.module = None
        self.name = wrapper

    def demangled(self, m):
        """the real function's demangled name(s)"""
        if self.fn is None:
            return []
        return [d for d in m.by_demangled if re.match(self.fn, d)]

    def applier(self, env_getter):
        def apply(ex, st, args):
            env = env_getter()
            c = Ctx(env, st.clone(), args)
            for nm, f in self.requires(c):
                ex.oblige(st, 'precondition of %s: %s' % (self.short(), nm), f)
            res = []
            c = Ctx(env, st.clone(), args)
            for o in self.outcomes(c):
                g = o.guard
                if z3.is_false(z3.simplify(g)) or not ex.feasible(st, [g]):
                    continue
                s = st.clone()
                s.assume(g)
                ret, ens = o.fn(s)
                for f in ens:
                    s.assume(f[1] if isinstance(f, tuple) else f)
                res.append((s, ret))
            return res
        return apply

    def short(self):
        return getattr(self, 'label', None) or self.wrapper.replace('vf_', '')


class Result:
    def __init__(self, spec):
        self.spec = spec
        self.obls = []
        self.error = None
        self.unsupported = None
        self.paths = 0
        self.entered = set()
        self.contracts = set()
        self.externs = set()
        self.loops = []
        self.covers = []
        self.time = 0
        self.qtime = 0
        self.bounded = None


def ret_equal(env, st, actual, expected, w):
    if expected is None:
        return z3.BoolVal(True)
    if actual is None:
        return z3.BoolVal(False)
    if isinstance(actual, tuple) or isinstance(expected, tuple):
        return z3.And([ret_equal(env, st, a, b, None) for a, b in zip(actual, expected)])
    if isinstance(actual, Ptr) or isinstance(expected, Ptr):
        return env.ex.ptr_to_bv(st, actual) == env.ex.ptr_to_bv(st, expected)
    if w is None:
        w = actual.size() if z3.is_bv(actual) else expected.size() if z3.is_bv(expected) else 64
    return tobv(actual, w) == tobv(expected, w)


def compare_mem(env, pre, exp, act):
    """[(component name, formula)] for every visible region of the pre-state"""
    out = []
    ex = env.ex
    for rid, r0 in pre.mem.items():
        if not r0.visible or r0.kind != 'mem':
            continue
        re_, ra = exp.mem.get(rid), act.mem.get(rid)
        if re_ is None:
            continue
        if ra is None:
            out.append(('%s still exists' % r0.name, z3.BoolVal(False)))
            continue
        if re_ is ra:
            continue
        pads = env.pads.get(rid, [])
        keys = sorted(set(re_.cells) | set(ra.cells))
        for o in keys:
            c1, c2 = re_.cells.get(o), ra.cells.get(o)
            n = (c1 or c2)[0]
            if any(a <= o and o + n <= b for a, b in pads):
                continue
            nm = env.names.get((rid, o), '%s+%d' % (r0.name, o))
            if c1 is not None and c2 is not None and c1[0] == c2[0] and same_val(c1[1], c2[1]):
                continue
            if c1 is None and c2 is not None:
                # not described by the contract: bytes covered by another cell of the expected state?
                v1 = ex.cell_read(exp, rid, o, n)
                v2 = c2[1]
            else:
                v1 = c1[1]
                n = c1[0]
                v2 = ex.cell_read(act, rid, o, n)
            if same_val(v1, v2):
                continue
            b1 = ex.ptr_to_bv(exp, v1) if isinstance(v1, Ptr) else tobv(v1, n * 8)
            b2 = ex.ptr_to_bv(act, v2) if isinstance(v2, Ptr) else tobv(v2, n * 8)
            out.append((nm, b1 == b2))
        if re_.zone is not None and ra.zone is not None:
            for l in re_.zone.arrays:
                a1, a2 = re_.zone.arrays[l], ra.zone.arrays[l]
                if not a1.eq(a2):
                    i = ex.witness
                    out.append(('%s.slots(%s)' % (r0.name, 'data' if l == env.k['off_ev_data'] else 'time'),
                                z3.Implies(z3.ULT(i, tobv(re_.zone.limit, 64)), z3.Select(a1, i) == z3.Select(a2, i))))
    return out


def verify(spec, env, specs, focus=None):
    """generate and discharge every obligation of one contract"""
    res = Result(spec)
    ex = env.ex
    t0 = time.time()
    if spec.wrapper not in env.m.funcs:
        res.error = 'function %s not found' % spec.wrapper
        return res
    own = set(spec.demangled(env.m))
    ex.noinline_top = own
    for s in specs:
        if s.callable_ and s.fn is not None:
            for d in s.demangled(env.m):
                if d not in own:
                    ex.contracts[d] = s.applier(lambda: env)
    from .specs_buffer import std_externs
    ex.externs.update(std_externs(env))
    ex.opts['merge'] = getattr(spec, 'merge', True)
    if spec.axioms:
        ex.axioms = ex.axioms + spec.axioms(env)
    try:
        if spec.custom:
            spec.custom(spec, env, res)
        for cname, build in (spec.cases(env) if spec.cases else []):
            st = State()
            args = build(st)
            if isinstance(args, tuple) and len(args) == 2 and isinstance(args[1], dict):
                args, extra = args
            else:
                extra = {}
            c0 = Ctx(env, st, args)
            c0.x = extra
            for nm, f in spec.requires(c0):
                st.assume(f)
            # vacuity: the precondition is satisfiable, and so is each outcome
            r = ex.check(st.pc)
            if r == 'unknown':
                ex.qcache.pop(frozenset(f.get_id() for f in st.pc if not z3.is_true(f)), None)
                r = ex.check(st.pc, timeout=60000)
            if r == 'unknown':
                ex.notes.add('satisfiability of the precondition not decided in time (%s)' % cname)
            res.covers.append(('%s: precondition satisfiable' % cname, r != 'unsat'))
            pre = st.clone()
            c0 = Ctx(env, pre, args)
            c0.x = extra
            if spec.setup:
                spec.setup(env, pre, args, extra)
            ex.loop_hints = (lambda ex_, s_, sp=spec, pre=pre, args=args, extra=extra: sp.hints(env, pre, args, extra, s_)) if spec.hints else None
            if env.small and spec.hints:
                for f in ground(spec, env, pre, args, extra):
                    st.assume(f)
            ex.call_function(st, spec.wrapper, args, None)
            n0 = len(ex.obls)
            ends = ex.run([st])
            res.paths += len(ends)
            hit = set()
            labels = []
            for tag, e in ends:
                cx = Ctx(env, pre.clone(), args, actual=e, ret=e.ret)
                cx.x = extra
                outs = spec.outcomes(cx)
                labels = [o.label for o in outs]
                if not ex.feasible(e):
                    continue
                gs = []
                for o in outs:
                    g = z3.simplify(o.guard)
                    gs.append(g)
                    if z3.is_false(g):
                        continue
                    if not ex.feasible(e, [g]):
                        continue
                    hit.add(o.label)
                    exp = pre.clone()
                    # expected state starts from the pre-state; locals of the callee are gone
                    ret, ens = o.fn(exp)
                    comps = [('result', ret_equal(env, e, e.ret, ret, 8 * env.D if spec.ret_w == 'data' else spec.ret_w))] if ret is not None else []
                    comps += compare_mem(env, pre, exp, e)
                    for k, f in enumerate(ens):
                        comps.append(f if isinstance(f, tuple) else ('ensures %d' % k, f))
                    if focus is not None:
                        comps = [x for x in comps if focus(x[0])]
                    pcg = e.pc + [g] if not z3.is_true(g) else e.pc
                    goal = z3.And([f for _, f in comps]) if comps else z3.BoolVal(True)
                    ob = Obl('%s [%s] %s' % (spec.short(), cname, o.label), pcg, goal, spec.short(), e.cut)
                    ob.info = comps
                    ex.obls.append(ob)
                # the contract covers the path
                cov = Obl('%s [%s] contract cases cover the path' % (spec.short(), cname), e.pc, z3.Or(gs), spec.short(), e.cut)
                ex.obls.append(cov)
            for l in labels:
                res.covers.append(('%s: case "%s" reachable' % (cname, l), l in hit))
            for o in ex.obls[n0:]:
                if not o.name.startswith(spec.short()):
                    o.name = '%s [%s] %s' % (spec.short(), cname, o.name)
        discharge(ex, res)
    except Unsupported as u:
        res.unsupported = str(u)
        partial(ex, res)
    except Budget as b:
        res.unsupported = 'budget: %s' % b
        partial(ex, res)
    except z3.Z3Exception as z:
        res.unsupported = 'z3: %s' % z
        partial(ex, res)
    res.entered = {d for d in ex.entered if not d.startswith('vf_')}
    res.contracts = ex.used_contracts
    res.externs = ex.used_externs
    res.loops = ex.loop_log
    res.time = time.time() - t0
    res.qtime = ex.qtime
    return res


def ground(spec, env, pre, args, extra):
    """bounded runs: the instances, at every position of the buffer, of what the contract's recursive and
    quantified definitions say"""
    h = spec.hints(env, pre, args, extra, pre)
    if not h or not h.get('facts'):
        return []
    r = env.ex.as_ptr(pre, args[0])
    out, seen = [], set()
    for k in range(env.small + 1):
        s = pre.clone()
        env.set_r(s, r, 'cursor', z3.BitVecVal(k, 64))
        for f in h['facts'](s):
            # positions beyond the capacity do not exist
            f = z3.Implies(env.valid_ix(z3.BitVecVal(k, 64)), f)
            if f.get_id() not in seen:
                seen.add(f.get_id())
                out.append(f)
    return out


def partial(ex, res):
    """the run was cut short: whatever was not discharged is unknown"""
    res.obls = ex.obls
    for o in res.obls:
        if not o.status:
            o.status = 'unknown'
        if isinstance(o.info, list):
            o.info = [x[0] if isinstance(x, tuple) else x for x in o.info]


def discharge(ex, res):
    for o in ex.obls:
        if o.status:
            res.obls.append(o)
            continue
        t = time.time()
        r, model = ex.check(o.pc + [z3.Not(o.goal)], model=True)
        o.backend = ex.last_backend
        if r == 'unknown':
            r2 = cvc5_check(ex, o.pc + [z3.Not(o.goal)])
            if r2 in ('unsat', 'sat'):
                r = r2
                o.backend = 'cvc5'
        o.time = time.time() - t
        o.status = {'unsat': 'proved', 'sat': 'failed'}.get(r, 'unknown')
        if r == 'sat' and model is not None:
            o.model = model
            if isinstance(o.info, list):
                bad = []
                for nm, f in o.info:
                    if model.false(f):
                        bad.append(nm)
                o.info = bad
        elif o.status == 'unknown' and isinstance(o.info, list):
            o.info = [nm for nm, f in o.info]
        res.obls.append(o)


def cvc5_check(ex, fs, timeout=30):
    try:
        s = z3.Solver()
        s.add(*fs)
        s.add(*ex.axioms)
        s.add(*ex.base_axioms(fs))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), '--lang=smt2'], input=txt, capture_output=True, text=True, timeout=timeout + 10)
        return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
