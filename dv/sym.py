"""Path-forking symbolic executor over the parsed LLVM IR.

Everything is exact machine arithmetic (z3 bit-vectors).  Memory is a set of
regions; a region is a map offset -> cell, plus at most one "zone": an array
of fixed-size records addressed by a symbolic index (the event array), held in
SMT arrays, one per leaf.  Loops are cut at their head: the cells some
iteration changes are replaced by fresh symbols, the invariants are the largest
inductive subset (Houdini) of the candidates, and every obligation raised inside
the body is discharged under them.  Functions with a contract are replaced
by it at call sites; everything else is entered.
"""
import os
import time, itertools
import z3
from . import ir, lia
from .ir import IRError


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def mask(w):
    return (1 << w) - 1


def is_c(v):
    return isinstance(v, int)


def tobv(v, w):
    """value (int / z3 BV / z3 Bool) -> z3 BitVec of width w"""
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def tobool(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v & 1))
    if z3.is_bool(v):
        return v
    if z3.is_bv(v):
        return v == 1
    raise Unsupported('bool of %r' % (v,))


def fold(e):
    """z3 expr -> python int when it is a literal"""
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def simp(e):
    if isinstance(e, int):
        return e
    return fold(z3.simplify(e))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Ptr:
    __slots__ = ('rid', 'off', 'idx')

    def __init__(self, rid, off=0, idx=None):
        self.rid, self.off, self.idx = rid, off, idx

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.rid, self.off, self.idx)

    def add(self, n):
        return Ptr(self.rid, self.off + n, self.idx)


NULL = Ptr(None, 0)


class Dead:
    """a pointer cell not read again before it is set (found out by trying)"""

    def __init__(self, loc):
        self.loc = loc


class DeadRead(Exception):
    def __init__(self, loc):
        Exception.__init__(self)
        self.loc = loc


def same_val(a, b):
    """syntactic identity"""
    if a is b:
        return True
    if isinstance(a, Dead) or isinstance(b, Dead):
        return isinstance(a, Dead) and isinstance(b, Dead) and a.loc == b.loc
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            return False
        return a.rid == b.rid and a.off == b.off and (same_val(a.idx, b.idx) if (a.idx is not None and b.idx is not None) else a.idx is b.idx)
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    return a.eq(b)


class Zone:
    __slots__ = ('start', 'n', 'leaves', 'arrays', 'limit')
    ES = 16

    def __init__(self, start, n, leaves, arrays, limit):
        self.start, self.n, self.leaves, self.arrays, self.limit = start, n, leaves, arrays, limit

    def clone(self):
        return Zone(self.start, self.n, self.leaves, dict(self.arrays), self.limit)

    def end(self):
        return self.start + self.n * self.ES


class Region:
    __slots__ = ('name', 'size', 'cells', 'zone', 'base', 'visible', 'const', 'kind', 'fn')

    def __init__(self, name, size, base, visible=False, const=False, kind='mem'):
        self.name, self.size, self.base = name, size, base
        self.cells = {}
        self.zone = None
        self.visible = visible
        self.const = const
        self.kind = kind
        self.fn = None

    def clone(self):
        r = Region(self.name, self.size, self.base, self.visible, self.const, self.kind)
        r.cells = dict(self.cells)
        r.zone = self.zone.clone() if self.zone else None
        r.fn = self.fn
        return r


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'pos', 'regs', 'allocas', 'retreg', 'loops', 'invoke_to')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.order[0]
        self.prev = None
        self.pos = 0
        self.regs = {}
        self.allocas = []
        self.retreg = None
        self.loops = ()
        self.invoke_to = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.prev, f.pos = self.fn, self.block, self.prev, self.pos
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.retreg = self.retreg
        f.loops = self.loops
        f.invoke_to = self.invoke_to
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.frames = []
        self.pc = []
        self.ghost = {}
        self.ret = None
        self.done = False
        self.cut = False      # went through a cut loop
        self.wits = ()        # assignments that satisfied some path condition on the way here

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.ret, s.done, s.cut = self.ret, self.done, self.cut
        s.wits = self.wits
        return s

    def region(self, rid):
        return self.mem[rid]

    def wregion(self, rid):
        if rid not in self.owned:
            self.mem[rid] = self.mem[rid].clone()
            self.owned.add(rid)
        return self.mem[rid]

    def assume(self, f):
        f = f if not isinstance(f, int) else z3.BoolVal(bool(f))
        if not z3.is_true(f):
            self.pc.append(f)


class Obl:
    """one proof obligation: pc implies goal"""
    __slots__ = ('name', 'pc', 'goal', 'where', 'status', 'model', 'time', 'backend', 'cut', 'info')

    def __init__(self, name, pc, goal, where='', cut=False, info=None):
        self.name, self.pc, self.goal, self.where = name, pc, goal, where
        self.status = None
        self.model = None
        self.time = 0.0
        self.backend = None
        self.cut = cut
        self.info = info


class Model:
    """a model of a query, whichever solver produced it"""
    def __init__(self, m, tr):
        self.m, self.tr = m, tr

    def eval(self, e):
        if self.tr is None:
            return self.m.eval(e, model_completion=True)
        n = len(self.tr.side)
        x = self.tr.t(e)
        if isinstance(x, tuple):
            x = x[0]
        return self.m.eval(x, model_completion=True)

    def false(self, e):
        try:
            return z3.is_false(self.eval(e))
        except lia.NotLinear:
            return False

    def long(self, e):
        try:
            return self.eval(e).as_long()
        except (lia.NotLinear, AttributeError):
            return None


class Wit:
    """an assignment known to satisfy a set of formulas; it only ever answers 'satisfiable'"""
    __slots__ = ('val', 'ok', 'bad')

    def __init__(self, val, ok):
        self.val, self.ok = val, ok      # const id -> (const, value); ids of formulas it satisfies -> formula
        self.bad = {}                    # ids of formulas it does not satisfy -> formula


class Loop:
    def __init__(self, head, body):
        self.head, self.body = head, body
        self.cut = head             # where the loop is cut (see rotated)
        self.defs = frozenset()     # registers set between head and cut


def rotated(fn, lp):
    """the same loop cut where its body begins, past the tests of the loop condition: the state in which the
    loop is about to be left is then never a loop-head state"""
    if hasattr(lp, 'rot'):
        return lp.rot
    lp.rot = lp
    succ = lambda b: fn_succ(fn, b)
    # blocks reachable from the head inside the loop, without c
    def reach(c):
        seen, work, back = {lp.head}, [lp.head], False
        while work:
            b = work.pop()
            for x in succ(b):
                if x == lp.head:
                    back = True
                if x in lp.body and x not in seen and x != c:
                    seen.add(x)
                    work.append(x)
        return seen, back
    best = None
    for c in lp.body:
        if c == lp.head:
            continue
        pre, back = reach(c)
        if back:                     # an iteration can avoid c
            continue
        if not any(x not in lp.body for b in pre for x in succ(b)):
            continue                 # nothing leaves the loop before c
        if best is None or len(pre) < len(best[1]):
            best = (c, pre)
    if best is None or any(i.op == 'phi' for i in fn.blocks[best[0]]):
        return lp
    r = Loop(lp.head, lp.body)
    r.cut = best[0]
    r.defs = frozenset(i.res for b in lp.body for i in fn.blocks[b] if i.res is not None)
    r.rot = r
    lp.rot = r
    return r


def fn_succ(fn, b):
    last = fn.blocks[b][-1]
    if last.op == 'br':
        return [x for x in last.a[1:]]
    if last.op == 'switch':
        return [last.a[2]] + [l for _, l in last.a[3]]
    if last.op == 'invoke':
        return [last.a[3]]
    return []


def loops_of(fn):
    """natural loops from DFS back edges; head -> Loop (bodies merged)"""
    if hasattr(fn, '_loops'):
        return fn._loops
    ir.parse_body(fn)
    succ = {}
    for b in fn.order:
        last = fn.blocks[b][-1]
        if last.op == 'br':
            succ[b] = [x for x in last.a[1:]]
        elif last.op == 'switch':
            succ[b] = [last.a[2]] + [l for _, l in last.a[3]]
        elif last.op == 'invoke':
            succ[b] = [last.a[3]]
        else:
            succ[b] = []
    preds = {b: [] for b in fn.order}
    for b, ss in succ.items():
        for s in ss:
            preds[s].append(b)
    color, backs = {}, []
    stack = [(fn.order[0], iter(succ[fn.order[0]]))]
    color[fn.order[0]] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
            elif color[s] == 1:
                backs.append((b, s))
        else:
            color[b] = 2
            stack.pop()
    loops = {}
    for src, head in backs:
        body = loops.setdefault(head, Loop(head, {head})).body
        work = [src]
        while work:
            x = work.pop()
            if x in body:
                continue
            body.add(x)
            work.extend(preds[x])
    fn._loops = loops
    return loops


class Executor:
    def __init__(self, module, opts=None):
        self.m = module
        self.opts = dict(timeout_ms=20000, max_paths=6000, unroll=0, peel=0, deadline=None, magic=None)
        self.opts.update(opts or {})
        self.cnt = itertools.count()
        self.rids = itertools.count(1)
        self.obls = []            # collected obligations
        self.axioms = []          # global facts (base address distinctness ...)
        self.contracts = {}       # demangled name -> callable(ex, st, args) -> [(st, ret)]
        self.externs = {}         # demangled/raw name -> callable
        self.betac = {}
        self.loop_hints = None    # callable(st, hook) -> hints
        self.qcache = {}
        self.bcache = {}
        self.ccache = {}
        self.loop_cells = {}
        self.nw = 0
        self.bkeep = []
        self.nq = 0
        self.qtime = 0.0
        self.entered = set()
        self.used_contracts = set()
        self.used_externs = set()
        self.bases = []
        self.grid = {}
        self.loop_log = []
        self.npaths = 0
        self.fnregions = {}
        self.noinline_top = None
        self.notes = set()

    # ---------------------------------------------------------------- utils
    def fresh(self, name, w):
        n = '%s!%d' % (name, next(self.cnt))
        return z3.Bool(n) if w == 0 else z3.BitVec(n, w)

    def new_region(self, st, name, size, visible=False, const=False, kind='mem'):
        rid = next(self.rids)
        base = z3.BitVec('addr_%s_%d' % (name, rid), 64)
        self.bases.append(base)
        self.grid[base.decl().name()] = rid
        st.mem[rid] = Region(name, size, base, visible, const, kind)
        st.owned.add(rid)
        return rid

    def base_axioms(self, exprs):
        """regions do not overlap: base addresses used in the query are distinct and non-null"""
        used = set()
        for e0 in exprs:
            c = self.bcache.get(e0.get_id())
            if c is None:
                c = set()
                seen = set()
                stack = [e0]
                while stack:
                    e = stack.pop()
                    i = e.get_id()
                    if i in seen:
                        continue
                    seen.add(i)
                    if z3.is_const(e):
                        n = e.decl().name()
                        if n in self.grid:
                            c.add(n)
                    else:
                        stack.extend(e.children())
                self.bcache[e0.get_id()] = c
                self.bkeep.append(e0)
            used |= c
        ax = []
        if used:
            bs = [z3.BitVec(n, 64) for n in sorted(used)]
            # every region lives in its own 2^40-byte slot
            for b in bs:
                ax.append(z3.ULT(z3.BitVecVal(1 << 41, 64), b))
                ax.append(z3.ULT(b, z3.BitVecVal(1 << 62, 64)))
                ax.append(z3.Extract(3, 0, b) == 0)
            for i in range(len(bs)):
                for j in range(i):
                    ax.append(z3.Or(z3.ULT(bs[i] + (1 << 40), bs[j]), z3.ULT(bs[j] + (1 << 40), bs[i])))
        return ax

    def check(self, fs, timeout=None, model=False):
        """satisfiability of a conjunction; returns 'sat'/'unsat'/'unknown' (and model)"""
        if self.opts['deadline'] and time.time() > self.opts['deadline']:
            raise Budget('deadline')
        if self.lambdas:
            fs = [self._beta(f) for f in fs]
        fs = [f for f in fs if not z3.is_true(f)]
        if any(z3.is_false(f) for f in fs):
            return ('unsat', None) if model else 'unsat'
        key = frozenset(f.get_id() for f in fs)
        if not model and key in self.qcache:
            return self.qcache[key][0]
        t0 = time.time()
        allf = fs + self.axioms + self.base_axioms(fs)
        tmo = int(timeout or self.opts['timeout_ms'])
        r, mdl = self.check_lia(allf, tmo)
        if r == 'unknown':
            s = z3.Solver()
            s.set('timeout', tmo)
            s.add(*allf)
            r = str(s.check())
            mdl = Model(s.model(), None) if r == 'sat' else None
            self.last_backend = 'z3 (bit-vectors)'
        self.nq += 1
        self.qtime += time.time() - t0
        if self.opts.get('trace') and time.time() - t0 > 0.5:
            import traceback
            print('SLOW %.1f %s %s %s' % (time.time() - t0, r, self.last_backend, [f.name + ':%d' % f.lineno for f in traceback.extract_stack()[-4:-1]]))
        self.qcache[key] = (r, fs)   # keep fs alive so ids stay valid
        if model:
            return r, mdl
        return r

    last_backend = None

    def check_lia(self, fs, tmo):
        tr = self.translator
        if tr is None:
            tr = self.translator = lia.Translator(self.opts.get('ranges'))
        s = z3.Solver()
        s.set('timeout', tmo)
        seen = set()
        guards = []
        for f in fs:
            _, x, sides, gs = tr.top(f)
            if x is None:
                return 'unknown', None
            s.add(x)
            guards += gs
            for c in sides:
                if c.get_id() not in seen:
                    seen.add(c.get_id())
                    s.add(c)
        r = str(s.check())
        if r == 'sat' and guards:
            m = s.model()
            if not all(z3.is_true(m.eval(g, model_completion=True)) for g in guards):
                return 'unknown', None
        if r != 'unknown':
            self.last_backend = 'z3 (integers)'
        return r, (Model(s.model(), tr) if r == 'sat' else None)

    translator = None

    # ---- satisfiability by assignments seen before (a speed-up: 'sat' answers only, each checked by evaluation)
    def consts_of(self, e0):
        c = self.ccache.get(e0.get_id())
        if c is None:
            c, seen, stack = {}, set(), [e0]
            while stack:
                e = stack.pop()
                i = e.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_const(e):
                    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        c[i] = e
                else:
                    stack.extend(e.children())
            c = list(c.items())
            self.ccache[e0.get_id()] = c
            self.bkeep.append(e0)
        return c

    def wit_try(self, w, fs):
        """w, or an extension of it, satisfying every formula of fs; None if it does not"""
        todo = [f for f in fs if f.get_id() not in w.ok]
        if not todo:
            return w
        rest = []
        for f in todo:
            if f.get_id() in w.bad:
                return None
        for f in todo:
            cs = self.consts_of(f)
            pairs = [w.val[i] for i, _ in cs if i in w.val]
            r = z3.simplify(z3.substitute(f, *pairs) if pairs else f)
            if z3.is_true(r):
                w.ok[f.get_id()] = f
            elif z3.is_false(r):
                w.bad[f.get_id()] = f
                return None
            else:
                rest.append((f, r))
        if not rest:
            return w
        new = {}
        for _, r in rest:
            for i, c in self.consts_of(r):
                if c.decl().name() in self.grid:
                    return None
                new[i] = c
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(*[r for _, r in rest])
        if s.check() != z3.sat:
            return None
        m = s.model()
        n = Wit(dict(w.val), dict(w.ok))
        for i, c in new.items():
            n.val[i] = (c, m.eval(c, model_completion=True))
        for f, _ in rest:
            n.ok[f.get_id()] = f
        return n

    def wit_new(self, st, fs, mdl):
        """remember the model of a query, when evaluating the query under it confirms it"""
        val = {}
        for f in list(fs) + self.axioms:
            for i, c in self.consts_of(f):
                if i not in val:
                    if not z3.is_bv(c) and not z3.is_bool(c):
                        if mdl.tr is not None:
                            return
                        val[i] = (c, mdl.m.eval(c, model_completion=True))
                        continue
                    try:
                        v = mdl.eval(c)
                    except lia.NotLinear:
                        return
                    if z3.is_int_value(v) and z3.is_bv(c):
                        v = z3.BitVecVal(v.as_long(), c.size())
                    if not (z3.is_bv_value(v) or z3.is_true(v) or z3.is_false(v)):
                        return
                    val[i] = (c, v)
        w = Wit(val, {})
        for f in list(fs) + self.base_axioms(fs) + self.axioms:
            cs = self.consts_of(f)
            pairs = [val[i] for i, _ in cs if i in val]
            if not z3.is_true(z3.simplify(z3.substitute(f, *pairs) if pairs else f)):
                return
            w.ok[f.get_id()] = f
        st.wits = (w,) + st.wits[:5]

    def sat(self, st, extra, timeout=5000):
        """'sat', 'unsat' or 'unknown' for the state's path condition and extra"""
        fs = [f for f in list(st.pc) + list(extra) if not z3.is_true(f)]
        if any(z3.is_false(f) for f in fs):
            return 'unsat'
        key = frozenset(f.get_id() for f in fs)
        if key in self.qcache:
            return self.qcache[key][0]
        for k, w in enumerate(st.wits):
            n = self.wit_try(w, fs)
            if n is not None:
                if n is not w:
                    st.wits = ((n,) + st.wits)[:6]
                self.nw += 1
                return 'sat'
        r, m = self.check(fs, timeout=timeout, model=True)
        if r == 'sat' and m is not None:
            self.wit_new(st, fs, m)
        return r

    def feasible(self, st, extra=()):
        return self.sat(st, extra) != 'unsat'

    def must(self, st, f, timeout=5000):
        if isinstance(f, int):
            return bool(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.sat(st, [z3.Not(f)], timeout) == 'unsat'

    def oblige(self, st, name, goal, info=None):
        if isinstance(goal, int):
            goal = z3.BoolVal(bool(goal))
        g = z3.simplify(goal)
        where = ''
        if st.frames:
            where = self.m.demangled.get(st.frames[-1].fn.name, st.frames[-1].fn.name)
        if not z3.is_true(g):
            o = Obl(name, list(st.pc), goal, where, st.cut, info)
            self.obls.append(o)
            st.pc.append(goal)
        else:
            o = Obl(name, list(st.pc), goal, where, st.cut, info)
            o.status = 'proved'
            o.backend = 'simplify'
            self.obls.append(o)

    # ---------------------------------------------------------------- memory
    def ptr_to_bv(self, st, p):
        if isinstance(p, int) or z3.is_bv(p):
            return tobv(p, 64)
        if p.rid is None:
            return z3.BitVecVal(p.off & mask(64), 64)
        r = st.mem.get(p.rid)
        base = r.base if r is not None else self._dead_base(p.rid)
        e = base
        if p.off:
            e = e + z3.BitVecVal(p.off & mask(64), 64)
        if p.idx is not None:
            e = e + tobv(p.idx, 64) * 16
        return e

    def _dead_base(self, rid):
        for n, r in self.grid.items():
            if r == rid:
                return z3.BitVec(n, 64)
        raise Unsupported('dead region')

    def bv_to_ptr(self, st, v):
        """returns Ptr, or list of (cond, Ptr) , or raises"""
        if isinstance(v, Ptr):
            return v
        if is_c(v):
            return Ptr(None, v)
        e = z3.simplify(v)
        if z3.is_bv_value(e):
            return Ptr(None, e.as_long())
        off, base = 0, None
        terms = [e]
        flat = []
        while terms:
            x = terms.pop()
            if z3.is_app_of(x, z3.Z3_OP_BADD):
                terms.extend(x.children())
            else:
                flat.append(x)
        idx = None
        for x in flat:
            if z3.is_bv_value(x):
                off += sgn(x.as_long(), 64)
            elif z3.is_const(x) and x.decl().name() in self.grid and base is None:
                base = self.grid[x.decl().name()]
            elif z3.is_app_of(x, z3.Z3_OP_BMUL) and len(x.children()) == 2 and z3.is_bv_value(x.children()[0]) and x.children()[0].as_long() == 16 and idx is None:
                idx = x.children()[1]
            elif z3.is_app_of(x, z3.Z3_OP_ITE) and len(flat) == 1:
                c, a, b = x.children()
                return [(c, a), (z3.Not(c), b)]
            else:
                base = None
                break
        if base is None:
            raise Unsupported('pointer of unknown provenance: %s' % str(e)[:200])
        return Ptr(base, off, idx)

    def as_ptr(self, st, v):
        p = v if isinstance(v, Ptr) else self.bv_to_ptr(st, v)
        if isinstance(p, list):
            for c, a in p:
                if self.must(st, c):
                    return self.as_ptr(st, a)
            raise NeedFork([(c, None) for c, _ in p])
        return p

    def deref(self, st, p, nbytes, write):
        """check safety of an access and return (region id, 'cell', off) or (rid,'zone',index,leaf)"""
        p = self.as_ptr(st, p)
        kind = 'write' if write else 'read'
        if p.rid is None or p.rid not in st.mem:
            # null, dangling or raw address
            self.oblige(st, 'safety: %s through a valid pointer' % kind, z3.BoolVal(False))
            raise PathEnd()
        if self.on_touch:
            self.on_touch(self, st, p, nbytes, write)
        r = st.mem[p.rid]
        if r.kind != 'mem':
            raise Unsupported('access to %s' % r.kind)
        if write and r.const:
            self.oblige(st, 'safety: no write to constant %s' % r.name, z3.BoolVal(False))
            raise PathEnd()
        z = r.zone
        if p.idx is not None or (z is not None and z.start <= p.off < z.end()):
            if z is None:
                raise Unsupported('symbolic index into %s' % r.name)
            k, leaf = divmod(p.off - z.start, Zone.ES)
            i = p.idx if p.idx is not None else 0
            i = simp(tobv(i, 64) + z3.BitVecVal(k & mask(64), 64)) if not is_c(i) or p.idx is not None else k
            self.oblige(st, 'safety: %s inside the event array' % kind, z3.ULT(tobv(i, 64), tobv(z.limit, 64)))
            if leaf + nbytes > Zone.ES:
                raise Unsupported('access across records')
            return (p.rid, 'zone', i, leaf)
        if p.off < 0 or p.off + nbytes > r.size:
            self.oblige(st, 'safety: %s inside %s' % (kind, r.name), z3.BoolVal(False))
            raise PathEnd()
        return (p.rid, 'cell', p.off)

    def cell_read(self, st, rid, off, n):
        """n bytes at off -> value (int/z3/Ptr)"""
        r = st.mem[rid]
        c = r.cells.get(off)
        if c is not None and c[0] == n:
            if isinstance(c[1], Dead):
                raise DeadRead(c[1].loc)
            return c[1]
        # gather
        parts = []
        pos = off
        while pos < off + n:
            hit = None
            c = r.cells.get(pos)
            if c is not None:
                hit = (pos, c)
            else:
                for o in range(max(0, pos - 15), pos):
                    c2 = r.cells.get(o)
                    if c2 is not None and o + c2[0] > pos:
                        hit = (o, c2)
                        break
            if hit is None:
                # uninitialised bytes up to next cell
                e = pos + 1
                while e < off + n and e not in r.cells:
                    e += 1
                w = r and st.wregion(rid)
                v = self.fresh('uninit', (e - pos) * 8)
                w.cells[pos] = (e - pos, v)
                r = w
                parts.append(v)
                pos = e
                continue
            o, (cn, cv) = hit
            if isinstance(cv, Dead):
                raise DeadRead(cv.loc)
            bvv = self.ptr_to_bv(st, cv) if isinstance(cv, Ptr) else tobv(cv, cn * 8)
            lo = pos - o
            hi = min(o + cn, off + n) - o
            if lo != 0 or hi != cn:
                bvv = z3.Extract(hi * 8 - 1, lo * 8, bvv)
            parts.append(bvv)
            pos = o + hi
        if len(parts) == 1:
            return simp(parts[0])
        return simp(z3.Concat(*reversed(parts)))

    def cell_write(self, st, rid, off, n, v):
        r = st.wregion(rid)
        c = r.cells.get(off)
        if c is None or c[0] != n:
            # remove overlaps, keeping the remaining bytes
            for o in list(range(max(0, off - 15), off + n)):
                c2 = r.cells.get(o)
                if c2 is None or o + c2[0] <= off:
                    continue
                cn, cv = c2
                del r.cells[o]
                if isinstance(cv, Dead):
                    if o >= off and o + cn <= off + n:
                        continue
                    raise DeadRead(cv.loc)
                bvv = self.ptr_to_bv(st, cv) if isinstance(cv, Ptr) else tobv(cv, cn * 8)
                if o < off:
                    r.cells[o] = (off - o, simp(z3.Extract((off - o) * 8 - 1, 0, bvv)))
                if o + cn > off + n:
                    k = off + n - o
                    r.cells[off + n] = (cn - k, simp(z3.Extract(cn * 8 - 1, k * 8, bvv)))
        r.cells[off] = (n, v)

    def load_leaf(self, st, p, ty):
        n = self.m.size(ty)
        loc = self.deref(st, p, n, False)
        if loc[1] == 'cell':
            v = self.cell_read(st, loc[0], loc[2], n)
        else:
            v = self.zone_read(st, loc[0], loc[2], loc[3], n)
        if ty[0] == 'ptr':
            return self.as_ptr(st, v) if not isinstance(v, Ptr) and self._ptrlike(v) else v
        if ty[0] == 'i':
            if isinstance(v, Ptr):
                v = self.ptr_to_bv(st, v)
            if ty[1] < n * 8:
                v = (v & mask(ty[1])) if is_c(v) else simp(z3.Extract(ty[1] - 1, 0, v))
            if ty[1] == 1 and not is_c(v):
                v = v == 1
            return v
        raise Unsupported('load of %r' % (ty,))

    def _ptrlike(self, v):
        try:
            p = self.bv_to_ptr(None, v)
            return isinstance(p, (Ptr, list))
        except Unsupported:
            return False

    def zone_read(self, st, rid, i, leaf, n):
        z = st.mem[rid].zone
        if leaf in z.leaves and z.leaves[leaf] == n * 8:
            return simp(z3.Select(z.arrays[leaf], tobv(i, 64)))
        for l, w in z.leaves.items():
            if l <= leaf and leaf + n <= l + w // 8:
                e = z3.Select(z.arrays[l], tobv(i, 64))
                return simp(z3.Extract((leaf - l + n) * 8 - 1, (leaf - l) * 8, e))
        return self.fresh('pad', n * 8)

    def zone_write(self, st, rid, i, leaf, n, v):
        z = st.wregion(rid).zone
        if leaf in z.leaves and z.leaves[leaf] == n * 8:
            z.arrays[leaf] = z3.Store(z.arrays[leaf], tobv(i, 64), tobv(v, n * 8))
            return
        for l, w in z.leaves.items():
            if l < leaf + n and leaf < l + w // 8:
                raise Unsupported('partial write into a record')

    def load(self, st, p, ty):
        ty = self.m.resolve(ty)
        if ty[0] in ('i', 'ptr'):
            return self.load_leaf(st, p, ty)
        if ty[0] == 'struct':
            return tuple(self.load(st, self.as_ptr(st, p).add(self.m.field_offset(ty, k)[0]), f) for k, f in enumerate(ty[1]))
        if ty[0] == 'arr':
            es = self.m.size(ty[2])
            return tuple(self.load(st, self.as_ptr(st, p).add(es * k), ty[2]) for k in range(ty[1]))
        raise Unsupported('load of %r' % (ty,))

    def store(self, st, p, ty, v):
        ty = self.m.resolve(ty)
        if ty[0] in ('i', 'ptr'):
            n = self.m.size(ty)
            loc = self.deref(st, p, n, True)
            if ty[0] == 'i':
                if isinstance(v, Ptr):
                    pass
                elif ty[1] == 1:
                    v = v if is_c(v) else tobv(v, 8)
                elif ty[1] < n * 8 and not is_c(v):
                    v = z3.ZeroExt(n * 8 - ty[1], v)
            if loc[1] == 'cell':
                self.cell_write(st, loc[0], loc[2], n, v)
            else:
                self.zone_write(st, loc[0], loc[2], loc[3], n, v)
            return
        if ty[0] == 'struct':
            for k, f in enumerate(ty[1]):
                self.store(st, self.as_ptr(st, p).add(self.m.field_offset(ty, k)[0]), f, v[k])
            return
        if ty[0] == 'arr':
            es = self.m.size(ty[2])
            for k in range(ty[1]):
                self.store(st, self.as_ptr(st, p).add(es * k), ty[2], v[k])
            return
        raise Unsupported('store of %r' % (ty,))

    lambdas = False

    def _beta(self, f):
        c = self.betac.get(f.get_id())
        if c is None:
            c = self.betac[f.get_id()] = (z3.simplify(f), f)
        return c[0]

    def memcpy_records(self, st, d, s, cnt):
        """copy of cnt whole records between event arrays (the ranges may overlap: memmove)"""
        d, s = self.as_ptr(st, d), self.as_ptr(st, s)
        ix = []
        for p in (d, s):
            r = st.mem.get(p.rid)
            if r is None or r.zone is None or not (p.idx is not None or r.zone.start <= p.off < r.zone.end()) or (p.off - r.zone.start) % Zone.ES:
                raise Unsupported('memcpy of symbolic size')
            if self.on_touch:
                raise Unsupported('large memcpy in the event array')
            i = tobv(p.idx, 64) if p.idx is not None else z3.BitVecVal(0, 64)
            ix.append(simp(i + z3.BitVecVal(((p.off - r.zone.start) // Zone.ES) & mask(64), 64)))
            lim = tobv(r.zone.limit, 64)
            self.oblige(st, 'safety: memcpy inside the event array', z3.And(z3.ULE(tobv(cnt, 64), lim), z3.ULE(tobv(ix[-1], 64), lim - tobv(cnt, 64))))
        if st.mem[d.rid].const:
            self.oblige(st, 'safety: no write to constant %s' % st.mem[d.rid].name, z3.BoolVal(False))
            raise PathEnd()
        src = dict(st.mem[s.rid].zone.arrays)
        z = st.wregion(d.rid).zone
        j = z3.BitVec('j!%d' % next(self.cnt), 64)
        di, si, cnt = tobv(ix[0], 64), tobv(ix[1], 64), tobv(cnt, 64)
        for l in z.leaves:
            z.arrays[l] = z3.Lambda([j], z3.If(z3.ULT(j - di, cnt), z3.Select(src[l], j - di + si), z3.Select(z.arrays[l], j)))
        self.lambdas = True

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        d, s = self.as_ptr(st, d), self.as_ptr(st, s)
        for p in (d, s):
            if p.rid is None or p.rid not in st.mem:
                self.oblige(st, 'safety: memcpy through a valid pointer', z3.BoolVal(False))
                raise PathEnd()
        if self.on_touch:
            self.on_touch(self, st, s, n, False)
            self.on_touch(self, st, d, n, True)
        rs, rd = st.mem[s.rid], st.mem[d.rid]
        if rd.const:
            self.oblige(st, 'safety: no write to constant %s' % rd.name, z3.BoolVal(False))
            raise PathEnd()

        def inzone(r, p):
            return p.idx is not None or (r.zone is not None and r.zone.start <= p.off < r.zone.end())
        if inzone(rs, s) or inzone(rd, d):
            if rs.zone and rd.zone and s.idx is None and d.idx is None and s.off == d.off and n >= rs.zone.n * Zone.ES and s.off <= rs.zone.start:
                # block copy covering the whole array
                ok = s.off + n <= rs.size and d.off + n <= rd.size
                self.oblige(st, 'safety: memcpy inside the object', z3.BoolVal(ok))
                if not ok:
                    raise PathEnd()
                w = st.wregion(d.rid)
                w.zone.arrays = dict(rs.zone.arrays)
                self._copy_cells(st, s.rid, rs.zone.end(), d.rid, rs.zone.end(), s.off + n - rs.zone.end())
                if s.off < rs.zone.start:
                    self._copy_cells(st, s.rid, s.off, d.rid, d.off, rs.zone.start - s.off)
                return
            if n % Zone.ES:
                # part of one record, leaf by leaf
                z = (rs if inzone(rs, s) else rd).zone
                p = s if inzone(rs, s) else d
                k = (p.off - z.start) % Zone.ES
                if k + n > Zone.ES:
                    raise Unsupported('memcpy of %d bytes in the event array' % n)
                for l, w_ in z.leaves.items():
                    if k <= l and l + w_ // 8 <= k + n:
                        self._copy_leaf(st, s.add(l - k), d.add(l - k), w_ // 8)
                    elif l < k + n and k < l + w_ // 8:
                        raise Unsupported('memcpy of part of a field')
                return
            if n // Zone.ES > 64:
                self.memcpy_records(st, d, s, self.magic(n // Zone.ES, 64))
                return
            z = (rs if inzone(rs, s) else rd).zone
            for r_ in range(n // Zone.ES):
                for l, w_ in z.leaves.items():
                    self._copy_leaf(st, s.add(r_ * Zone.ES + l), d.add(r_ * Zone.ES + l), w_ // 8)
                # padding of the destination becomes arbitrary
                if not inzone(st.mem[d.rid], d):
                    o = 0
                    for l, w_ in sorted(z.leaves.items()) + [(Zone.ES, 0)]:
                        if l > o:
                            self._drop(st, d.rid, d.off + r_ * Zone.ES + o, l - o)
                        o = l + w_ // 8
            return
        ok = 0 <= s.off and s.off + n <= rs.size and 0 <= d.off and d.off + n <= rd.size
        self.oblige(st, 'safety: memcpy inside the object', z3.BoolVal(ok))
        if not ok:
            raise PathEnd()
        self._copy_cells(st, s.rid, s.off, d.rid, d.off, n)

    def _copy_leaf(self, st, s, d, n):
        ls = self.deref(st, s, n, False)
        v = self.cell_read(st, ls[0], ls[2], n) if ls[1] == 'cell' else self.zone_read(st, ls[0], ls[2], ls[3], n)
        ld = self.deref(st, d, n, True)
        if ld[1] == 'cell':
            self.cell_write(st, ld[0], ld[2], n, v)
        else:
            self.zone_write(st, ld[0], ld[2], ld[3], n, v)

    def _drop(self, st, rid, off, n):
        v = self.fresh('pad', n * 8)
        self.cell_write(st, rid, off, n, v)
        del st.wregion(rid).cells[off]

    def _copy_cells(self, st, srid, so, drid, do, n):
        if n <= 0:
            return
        src = st.mem[srid]
        items = []
        # cells fully inside are copied as they are; straddling ones are cut
        covered = []
        for o, (cn, cv) in sorted(src.cells.items()):
            if o + cn <= so or o >= so + n:
                continue
            if o >= so and o + cn <= so + n:
                items.append((o - so, cn, cv))
            else:
                a, b = max(o, so), min(o + cn, so + n)
                items.append((a - so, b - a, self.cell_read(st, srid, a, b - a)))
        # destination: clear range
        r = st.wregion(drid)
        for o in list(r.cells):
            cn = r.cells[o][0]
            if o + cn <= do or o >= do + n:
                continue
            if o >= do and o + cn <= do + n:
                del r.cells[o]
            else:
                a, b = max(o, do), min(o + cn, do + n)
                self._drop(st, drid, a, b - a)
                r = st.wregion(drid)
        for o, cn, cv in items:
            r.cells[do + o] = (cn, cv)

    # ---------------------------------------------------------------- values
    def magic(self, v, w):
        mg = self.opts['magic']
        if mg and w >= 16:
            for base, sym in mg:
                if w <= 64 and -8 <= v - base <= 8:
                    k = v - base
                    s = sym if w == 64 else z3.Extract(w - 1, 0, sym)
                    return s if k == 0 else s + z3.BitVecVal(k & mask(w), w)
        return v & mask(w)

    def val(self, st, ty, v):
        k = v[0]
        if k == 'local':
            try:
                return st.frames[-1].regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register %s' % v[1])
        if k == 'int':
            if ty[0] == 'i':
                return self.magic(v[1], ty[1])
            return v[1]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(st, v[1])
        if k in ('undef',):
            if ty[0] == 'ptr':
                return self.fresh('undefptr', 64)
            rt = self.m.resolve(ty)
            if rt[0] == 'i':
                return self.fresh('undef', rt[1] if rt[1] != 1 else 0)
            if rt[0] == 'struct':
                return tuple(self.val(st, f, v) for f in rt[1])
            if rt[0] == 'arr':
                return tuple(self.val(st, rt[2], v) for _ in range(rt[1]))
            return 0
        if k == 'zero':
            rt = self.m.resolve(ty)
            if rt[0] == 'struct':
                return tuple(self.val(st, f, v) for f in rt[1])
            if rt[0] == 'arr':
                return tuple(self.val(st, rt[2], v) for _ in range(rt[1]))
            if rt[0] == 'ptr':
                return NULL
            return 0
        if k == 'agg':
            return tuple(self.val(st, t, x) for t, x in v[1])
        if k == 'str':
            return tuple(v[1])
        if k == 'expr':
            if v[1] == 'gep':
                return self.gep(st, v[2], [(t, self.val(st, t, x)) for t, x in v[3]])
            if v[1] == 'cast':
                return self.cast(st, v[2], v[3], self.val(st, v[3], v[4]), v[5])
        raise Unsupported('value %r' % (v,))

    def global_ptr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls:
            if name not in self.fnregions:
                rid = next(self.rids)
                base = z3.BitVec('addr_fn_%d' % rid, 64)
                self.grid[base.decl().name()] = rid
                r = Region('fn ' + name, 1, base, kind='fn')
                r.fn = name
                self.fnregions[name] = (rid, r)
            rid, r = self.fnregions[name]
            st.mem.setdefault(rid, r)
            return Ptr(rid, 0)
        key = 'g:' + name
        if key in self.fnregions:
            rid, r = self.fnregions[key]
            if rid not in st.mem:
                st.mem[rid] = r
            return Ptr(rid, 0)
        if name not in self.m.globals or self.m.globals[name][0] is None:
            raise Unsupported('global %s' % name)
        ty, init, const = self.m.globals[name]
        size = self.m.size(ty)
        rid = self.new_region(st, 'global_' + name, size, visible=not const)
        if const and init is not None:
            self.store(st, Ptr(rid), ty, self.val(st, ty, init))
        st.wregion(rid).const = const
        self.fnregions[key] = (rid, st.mem[rid].clone())
        return Ptr(rid, 0)

    def gep(self, st, bty, ops):
        p = ops[0][1]
        p = self.as_ptr(st, p)
        off, idx = p.off, p.idx
        ty = bty
        scale_terms = []
        for n, (ity, iv) in enumerate(ops[1:]):
            if n == 0:
                es = self.m.size(ty)
                nty = ty
            else:
                rt = self.m.resolve(ty)
                if rt[0] == 'struct':
                    if not is_c(iv):
                        raise Unsupported('symbolic struct index')
                    o, f = self.m.field_offset(rt, iv)
                    off += o
                    ty = f
                    continue
                elif rt[0] in ('arr', 'vec'):
                    es = self.m.size(rt[2])
                    nty = rt[2]
                else:
                    raise Unsupported('gep into %r' % (rt,))
            if is_c(iv):
                off += sgn(iv & mask(ity[1]), ity[1]) * es
            else:
                e = iv
                if ity[1] < 64:
                    e = z3.SignExt(64 - ity[1], e)
                if es % Zone.ES == 0:
                    if es != Zone.ES:
                        e = e * (es // Zone.ES)
                    idx = e if idx is None else idx + e
                elif es < Zone.ES:
                    # byte/word offsets: try a constant, else a multiple of the record size
                    c = simp(e)
                    if is_c(c):
                        off += sgn(c, 64) * es
                    else:
                        q = z3.simplify(e * es)
                        d = self._div16(q)
                        if d is None:
                            raise Unsupported('symbolic offset with scale %d' % es)
                        idx = d if idx is None else idx + d
                else:
                    raise Unsupported('gep scale %d' % es)
            ty = nty
        if idx is not None:
            c = simp(idx)
            if is_c(c):
                off += sgn(c, 64) * Zone.ES
                idx = None
            else:
                idx = c
        if p.rid is None and (off or idx is not None):
            return Ptr(None, off, idx)
        return Ptr(p.rid, off, idx)

    def _div16(self, q):
        if z3.is_app_of(q, z3.Z3_OP_BMUL) and len(q.children()) == 2 and z3.is_bv_value(q.children()[0]):
            c = q.children()[0].as_long()
            if c % 16 == 0:
                return q.children()[1] * (c // 16)
        return None

    def cast(self, st, op, sty, v, dty):
        if op == 'ptrtoint':
            p = v
            e = simp(self.ptr_to_bv(st, p))
            if dty[1] < 64:
                e = simp(z3.Extract(dty[1] - 1, 0, tobv(e, 64)))
            elif dty[1] > 64:
                e = simp(z3.ZeroExt(dty[1] - 64, tobv(e, 64)))
            return e
        if op == 'inttoptr':
            if sty[1] != 64:
                v = simp(z3.Extract(63, 0, v)) if sty[1] > 64 else simp(z3.ZeroExt(64 - sty[1], v))
            return self.as_ptr(st, v) if self._ptrlike(v) else v
        if op == 'bitcast':
            return v
        sw, dw = sty[1], dty[1]
        if op == 'zext':
            if is_c(v):
                return v
            if sw == 1:
                return z3.If(tobool(v), z3.BitVecVal(1, dw), z3.BitVecVal(0, dw))
            return z3.ZeroExt(dw - sw, v)
        if op == 'sext':
            if is_c(v):
                return sgn(v, sw) & mask(dw)
            if sw == 1:
                return z3.If(tobool(v), z3.BitVecVal(mask(dw), dw), z3.BitVecVal(0, dw))
            return z3.SignExt(dw - sw, v)
        if op == 'trunc':
            if isinstance(v, Ptr):
                v = self.ptr_to_bv(st, v)
            if is_c(v):
                return v & mask(dw)
            if dw == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(dw - 1, 0, v))
        raise Unsupported('cast %s' % op)

    def binop(self, st, op, flags, w, a, b):
        if w == 1:
            if is_c(a) and is_c(b):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op] & 1
            x, y = tobool(a), tobool(b)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor, 'mul': z3.And}[op](x, y)
            return simp(r)
        if isinstance(a, Ptr):
            a = self.ptr_to_bv(st, a)
        if isinstance(b, Ptr):
            b = self.ptr_to_bv(st, b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, 'safety: no division by zero', tobv(b, w) != 0)
        if is_c(a) and is_c(b):
            M = mask(w)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> b) & M if b < w else 0
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            if op in ('sdiv', 'srem'):
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & M
        x, y = tobv(a, w), tobv(b, w)
        if op == 'add': return fold(x + y) if not (is_c(b) and b == 0) else a
        if op == 'sub': return x - y if not (is_c(b) and b == 0) else a
        if op == 'mul':
            for p, q in ((a, b), (b, a)):
                if is_c(p):
                    if p == 0: return 0
                    if p == 1: return q
                    return z3.BitVecVal(p, w) * tobv(q, w)
            for p, q in ((x, y), (y, x)):
                # multiplication by an indicator
                if self.must(st, z3.ULE(p, 1)):
                    return z3.If(p == 1, q, z3.BitVecVal(0, w))
            return x * y
        if op == 'and': return simp(x & y)
        if op == 'or': return simp(x | y)
        if op == 'xor': return simp(x ^ y)
        if op in ('shl', 'lshr', 'ashr'):
            return simp({'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]())
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not is_c(b) or b & (b - 1):
                nonneg = op[0] == 'u' or self.must(st, z3.And(x >= 0, y >= 0))
                if nonneg:
                    # exact replacement when the quotient is 0 or 1 (circular indices)
                    if self.must(st, z3.ULT(x, y)):
                        return 0 if op.endswith('div') else a
                    if self.must(st, z3.And(z3.ULT(y, z3.BitVecVal(1 << (w - 2), w)), z3.ULT(x, y + y))):
                        c = z3.ULT(x, y)
                        return z3.If(c, z3.BitVecVal(0, w), z3.BitVecVal(1, w)) if op.endswith('div') else z3.If(c, x, x - y)
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)
        raise Unsupported(op)

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr) and self._ptrlike(a):
                a = self.as_ptr(st, a)
            if not isinstance(b, Ptr) and self._ptrlike(b):
                b = self.as_ptr(st, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.rid == b.rid and a.rid is not None and (a.idx is not None or b.idx is not None) and (a.off - b.off) % Zone.ES == 0:
                    ia = tobv(a.idx, 64) if a.idx is not None else z3.BitVecVal(0, 64)
                    ib = tobv(b.idx, 64) if b.idx is not None else z3.BitVecVal(0, 64)
                    lo = min(a.off, b.off)
                    ia = ia + (a.off - lo) // Zone.ES
                    ib = ib + (b.off - lo) // Zone.ES
                    if self.must(st, z3.And(z3.ULT(ia, 1 << 50), z3.ULT(ib, 1 << 50))):
                        return simp({'eq': lambda: ia == ib, 'ne': lambda: ia != ib, 'ult': lambda: z3.ULT(ia, ib), 'ule': lambda: z3.ULE(ia, ib),
                                     'ugt': lambda: z3.UGT(ia, ib), 'uge': lambda: z3.UGE(ia, ib)}[pred]())
                if pred in ('eq', 'ne'):
                    if a.rid == b.rid:
                        if a.idx is None and b.idx is None:
                            r = int(a.off == b.off)
                            return r if pred == 'eq' else 1 - r
                    elif a.idx is None and b.idx is None:
                        return 0 if pred == 'eq' else 1
            a = self.ptr_to_bv(st, a)
            b = self.ptr_to_bv(st, b)
            w = 64
        else:
            w = 64 if ty[0] == 'ptr' else ty[1]
        if is_c(a) and is_c(b):
            if pred in ('eq', 'ne'):
                return int((a == b) == (pred == 'eq'))
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[1:]])
        if w == 1:
            x, y = tobool(a), tobool(b)
            if pred == 'eq': return simp(x == y)
            if pred == 'ne': return simp(x != y)
            raise Unsupported('icmp i1 ' + pred)
        x, y = tobv(a, w), tobv(b, w)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return simp(f)

    # ---------------------------------------------------------------- control
    def branch(self, st, cond):
        """yield feasible (state, bool)"""
        if is_c(cond):
            return [(st, bool(cond))]
        c = z3.simplify(tobool(cond))
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        tf = self.feasible(st, [c])
        ff = self.feasible(st, [z3.Not(c)]) if tf else True
        if tf and ff:
            self.npaths += 1
            if self.npaths > self.opts['max_paths']:
                raise Budget('too many paths')
            s2 = st.clone()
            st.assume(c)
            s2.assume(z3.Not(c))
            return [(st, True), (s2, False)]
        if tf:
            st.assume(c)
            return [(st, True)]
        st.assume(z3.Not(c))
        return [(st, False)]

    def goto(self, st, label):
        f = st.frames[-1]
        f.prev, f.block, f.pos = f.block, label, 0

    def call_function(self, st, name, args, retreg):
        fn = ir.parse_body(self.m.funcs[name])
        if len(st.frames) > 60:
            raise Unsupported('recursion')
        self.entered.add(self.m.demangled.get(name, name))
        fr = Frame(fn)
        for (ty, pn, at), v in zip(fn.params, args):
            if 'byval' in at:
                # callee works on its own copy
                rid = self.new_region(st, 'byval', self.m.size(at['byval']))
                self.memcpy(st, Ptr(rid), v, self.m.size(at['byval']))
                fr.allocas.append(rid)
                v = Ptr(rid)
            fr.regs[pn] = v
        fr.retreg = retreg
        st.frames.append(fr)

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for rid in fr.allocas:
            st.mem.pop(rid, None)
        if not st.frames:
            st.ret = v
            st.done = True
            return
        if fr.retreg is not None:
            st.frames[-1].regs[fr.retreg] = v
        if fr.invoke_to:
            self.goto(st, fr.invoke_to)

    def run(self, states, stop=None):
        """run until stop(st) says so (string tag) or the outermost frame returns; -> [(tag, st)]"""
        work = list(states)
        out = []
        first = set(id(s) for s in work)
        while work:
            st = work.pop()
            while True:
                if st.done:
                    out.append(('done', st))
                    break
                fr = st.frames[-1]
                if stop is not None:
                    tag = stop(st)
                    if tag and not (id(st) in first):
                        out.append((tag, st))
                        break
                if fr.pos == 0 and id(st) not in first:
                    lp = loops_of(fr.fn).get(fr.block)
                    if lp is not None and not (fr.loops and fr.loops[-1] == fr.block):
                        ex = self.loop(st, lp)
                        work.extend(ex)
                        for s in ex:
                            first.discard(id(s))
                        break
                first.discard(id(st))
                try:
                    succ = self.block(st)
                except PathEnd:
                    break
                except NeedFork as nf:
                    # split the path on the conditions and retry
                    for c, _ in nf.conds:
                        s2 = st.clone()
                        s2.assume(c)
                        if self.feasible(s2):
                            work.append(s2)
                    break
                if len(succ) == 1 and succ[0] is st:
                    continue
                work.extend(succ)
                break
        return out

    def block(self, st):
        """execute from the current position to the end of the block (or a call); -> successor states"""
        fr = st.frames[-1]
        ins_list = fr.fn.blocks[fr.block]
        n = len(ins_list)
        # phis first
        if fr.pos == 0:
            ph = []
            while fr.pos < n and ins_list[fr.pos].op == 'phi':
                i = ins_list[fr.pos]
                ty, inc = i.a
                for v, lab in inc:
                    if lab == fr.prev:
                        ph.append((i.res, self.val(st, ty, v)))
                        break
                else:
                    raise Unsupported('phi without incoming edge')
                fr.pos += 1
            for r, v in ph:
                fr.regs[r] = v
        while fr.pos < n:
            i = ins_list[fr.pos]
            op = i.op
            a = i.a
            regs = fr.regs
            if op == 'load':
                if self.on_access and not a[2]:
                    self.on_access(self, st, self.val(st, ('ptr',), a[1]), 'load')
                regs[i.res] = self.atomic_load(st, a[1], a[0]) if a[2] else self.load(st, self.val(st, ('ptr',), a[1]), a[0])
                if self._split_after is not None:
                    sp, self._split_after = self._split_after, None
                    fr.pos += 1
                    return sp(st, i.res)
            elif op == 'store':
                v = self.val(st, a[0], a[1])
                if self.on_access:
                    self.on_access(self, st, self.val(st, ('ptr',), a[2]), 'store')
                self.store(st, self.val(st, ('ptr',), a[2]), a[0], v)
            elif op == 'alloca':
                cnt = 1
                if a[1] is not None:
                    cnt = self.val(st, *a[1])
                    if not is_c(cnt):
                        raise Unsupported('variable alloca')
                rid = self.new_region(st, 'local_%s' % i.res, self.m.size(a[0]) * cnt)
                fr.allocas.append(rid)
                regs[i.res] = Ptr(rid)
            elif op == 'gep':
                regs[i.res] = self.gep(st, a[0], [(t, self.val(st, t, v)) for t, v in a[1]])
            elif op == 'bin':
                regs[i.res] = self.binop(st, a[0], a[1], a[2][1], self.val(st, a[2], a[3]), self.val(st, a[2], a[4]))
            elif op == 'icmp':
                regs[i.res] = self.icmp(st, a[0], a[1], self.val(st, a[1], a[2]), self.val(st, a[1], a[3]))
            elif op == 'cast':
                regs[i.res] = self.cast(st, a[0], a[1], self.val(st, a[1], a[2]), a[3])
            elif op == 'br':
                if a[0] is None:
                    self.goto(st, a[1])
                    return [st]
                out = []
                for s, b in self.branch(st, self.val(st, ('i', 1), a[0])):
                    self.goto(s, a[1] if b else a[2])
                    out.append(s)
                return out
            elif op == 'switch':
                return self.switch(st, a)
            elif op == 'ret':
                v = None if a is None else self.val(st, a[0], a[1])
                self.do_ret(st, v)
                return [st]
            elif op in ('call', 'invoke'):
                rv = self.call(st, i)
                if rv is not None:
                    return rv
                if op == 'invoke':
                    self.goto(st, a[3])
                    return [st]
                if len(st.frames) and st.frames[-1] is not fr:
                    return [st]
                continue
            elif op == 'select':
                c = self.val(st, ('i', 1), a[0])
                x, y = self.val(st, a[1], a[2]), self.val(st, a[1], a[3])
                if is_c(c):
                    regs[i.res] = x if c else y
                elif a[1][0] == 'i' and not isinstance(x, Ptr) and not isinstance(y, Ptr):
                    if a[1][1] == 1:
                        regs[i.res] = simp(z3.If(tobool(c), tobool(x), tobool(y)))
                    elif is_c(x) and is_c(y):
                        # keep small enumerations concrete along a path
                        out = []
                        for s, b in self.branch(st, c):
                            f2 = s.frames[-1]
                            f2.regs[i.res] = x if b else y
                            f2.pos += 1
                            out.append(s)
                        return out
                    else:
                        w = a[1][1]
                        regs[i.res] = z3.If(tobool(c), tobv(x, w), tobv(y, w))
                else:
                    out = []
                    for s, b in self.branch(st, c):
                        f2 = s.frames[-1]
                        f2.regs[i.res] = x if b else y
                        f2.pos += 1
                        out.append(s)
                    return out
            elif op == 'extractvalue':
                v = self.val(st, a[0], a[1])
                for k in a[2]:
                    v = v[k]
                regs[i.res] = v
            elif op == 'insertvalue':
                v = self.val(st, a[0], a[1])
                e = self.val(st, a[2], a[3])

                def ins(v, ks):
                    l = list(v)
                    l[ks[0]] = e if len(ks) == 1 else ins(l[ks[0]], ks[1:])
                    return tuple(l)
                regs[i.res] = ins(v, a[4])
            elif op == 'freeze':
                regs[i.res] = self.val(st, a[0], a[1])
            elif op == 'fence':
                pass
            elif op == 'cmpxchg':
                return self.cmpxchg(st, i)
            elif op == 'atomicrmw':
                o, ty, p, v = a
                p = self.val(st, ('ptr',), p)
                v = self.val(st, ty, v)
                if self.on_access:
                    self.on_access(self, st, p, 'rmw')
                old = self.load(st, p, ty)
                if o == 'xchg':
                    new = v
                elif o in ('add', 'sub', 'and', 'or', 'xor'):
                    new = self.binop(st, o, (), ty[1], old, v)
                else:
                    raise Unsupported('atomicrmw ' + o)
                self.store(st, p, ty, new)
                regs[i.res] = old
            elif op == 'unreachable':
                self.oblige(st, 'safety: unreachable code is not reached', z3.BoolVal(False))
                raise PathEnd()
            else:
                raise Unsupported('instruction %s' % i.text.strip())
            fr.pos += 1
        raise Unsupported('fell off block')

    _split_after = None

    def atomic_load(self, st, pv, ty):
        p = self.val(st, ('ptr',), pv)
        if self.on_access:
            self.on_access(self, st, p, 'load')
        if self.on_atomic_load:
            return self.on_atomic_load(self, st, p, ty)
        return self.load(st, p, ty)

    on_touch = None           # interference: called at every access, before it
    on_access = None          # interference: called before every access to memory
    on_atomic_load = None
    on_cmpxchg = None

    def cmpxchg(self, st, i):
        ty, p, c, n = i.a
        p = self.val(st, ('ptr',), p)
        cv, nv = self.val(st, ty, c), self.val(st, ty, n)
        if self.on_access:
            self.on_access(self, st, p, 'rmw')
        if self.on_cmpxchg:
            res = self.on_cmpxchg(self, st, p, ty, cv, nv)
        else:
            old = self.load(st, p, ty)
            res = []
            for s, b in self.branch(st, self.icmp(st, 'eq', ty, old, cv)):
                if b:
                    self.store(s, p, ty, nv)
                res.append((s, old, int(b)))
        out = []
        for s, old, ok in res:
            f = s.frames[-1]
            f.regs[i.res] = (old, ok)
            f.pos += 1
            out.append(s)
        return out

    def switch(self, st, a):
        ty, cv, d, cases = a
        v = self.val(st, ty, cv)
        w = ty[1]
        if is_c(v):
            for c, l in cases:
                if c & mask(w) == v:
                    self.goto(st, l)
                    return [st]
            self.goto(st, d)
            return [st]
        out = []
        neg = []
        for c, l in cases:
            e = tobv(v, w) == z3.BitVecVal(c & mask(w), w)
            if self.feasible(st, [e]):
                s = st.clone()
                s.assume(e)
                self.goto(s, l)
                out.append(s)
            neg.append(z3.Not(e))
        if self.feasible(st, neg):
            for e in neg:
                st.assume(e)
            self.goto(st, d)
            out.append(st)
        self.npaths += len(out) - 1
        return out

    def call(self, st, i):
        """None: handled in place (position advanced).  list: successor states."""
        rty, callee, args = i.a[:3]
        fr = st.frames[-1]
        if callee[0] == 'glob':
            name = self.m.aliases.get(callee[1], callee[1])
        else:
            p = self.val(st, ('ptr',), callee)
            p = self.as_ptr(st, p)
            r = st.mem.get(p.rid)
            if r is None or r.kind != 'fn':
                raise Unsupported('indirect call')
            name = r.fn
            if name.startswith('ghost:'):
                args = [(t, self.val(st, t, v)) for t, v in args]
                return self._apply(st, i, self.externs[name], [v for _, v in args])
        if name.startswith('llvm.'):
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                d, s, n = [self.val(st, t, v) for t, v in args[:3]]
                if is_c(n):
                    self.memcpy(st, d, s, n)
                else:
                    q = z3.LShR(tobv(n, 64), 4)
                    if not self.must(st, z3.Extract(3, 0, tobv(n, 64)) == 0):
                        raise Unsupported('memcpy of symbolic size')
                    self.memcpy_records(st, d, s, q)
            elif name.startswith('llvm.memset'):
                d, v, n = [self.val(st, t, x) for t, x in args[:3]]
                if not is_c(n) or not is_c(v):
                    raise Unsupported('memset')
                d = self.as_ptr(st, d)
                k = 0
                while k < n:
                    c = min(8 if (d.off + k) % 8 == 0 else 1, n - k)
                    if c not in (1, 2, 4, 8):
                        c = 1
                    self.store(st, d.add(k), ('i', 8 * c), int.from_bytes(bytes([v & 255]) * c, 'little'))
                    k += c
            elif name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.donothing', 'llvm.stackrestore', 'llvm.experimental.noalias')):
                pass
            elif name.startswith('llvm.assume'):
                pass
            elif name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                t = args[0][0]
                x, y = [tobv(self.val(st, tt, v), t[1]) for tt, v in args[:2]]
                c = {'llvm.umin': z3.ULT(x, y), 'llvm.umax': z3.UGT(x, y), 'llvm.smin': x < y, 'llvm.smax': x > y}[name[:9]]
                fr.regs[i.res] = simp(z3.If(c, x, y))
            elif name.startswith('llvm.trap'):
                self.oblige(st, 'safety: no trap', z3.BoolVal(False))
                raise PathEnd()
            elif name.startswith('llvm.expect'):
                fr.regs[i.res] = self.val(st, *args[0])
            elif name.startswith('llvm.stacksave'):
                fr.regs[i.res] = NULL
            else:
                raise Unsupported('intrinsic ' + name)
            fr.pos += 1
            return None
        dem = self.m.demangled.get(name, name)
        vals = [self.val(st, t, v) for t, v in args]
        h = self.externs.get(dem) or self.externs.get(name)
        if h is not None:
            self.used_externs.add(dem)
            return self._apply(st, i, h, vals)
        c = self.contracts.get(dem)
        if c is not None and not (self.noinline_top is not None and dem in self.noinline_top):
            self.used_contracts.add(dem)
            return self._apply(st, i, c, vals)
        if name in self.m.funcs:
            fr.pos += 1
            inv = i.a[3] if i.op == 'invoke' else None
            self.call_function(st, name, vals, i.res)
            st.frames[-1].invoke_to = inv
            if self.opts.get('merge'):
                d = len(st.frames)
                return self.merge([s for _, s in self.run([st], lambda s: 'ret' if len(s.frames) < d else None)])
            return [st]
        raise Unsupported('call of external function %s' % dem)

    def _apply(self, st, i, h, vals):
        res = h(self, st, vals)
        out = []
        for s, rv in res:
            f = s.frames[-1]
            if i.res is not None:
                f.regs[i.res] = rv
            f.pos += 1
            if i.op == 'invoke':
                self.goto(s, i.a[3])
            out.append(s)
        if self.opts.get('merge'):
            out = self.merge(out)
        return out

    # ---------------------------------------------------------------- joining paths
    def merge(self, states):
        """join states at the same program point: a fresh selector says which one the joint state is"""
        states = [s for s in states if self.feasible(s)] if len(states) > 1 else states
        groups = []
        for s in states:
            for g in groups:
                if self.joinable(g[0], s):
                    g.append(s)
                    break
            else:
                groups.append([s])
        return [g[0] if len(g) == 1 else self.join(g) for g in groups]

    def joinable(self, a, b):
        if a.done or b.done or len(a.frames) != len(b.frames) or a.ghost != b.ghost:
            return False
        for f, g in zip(a.frames, b.frames):
            if f.fn is not g.fn or f.block != g.block or f.pos != g.pos or f.prev != g.prev or f.allocas != g.allocas or f.loops != g.loops:
                return False
            for k in f.regs.keys() & g.regs.keys():
                if not self.blendable(f.regs[k], g.regs[k]):
                    return False
        if a.mem.keys() != b.mem.keys():
            return False
        for rid, r in a.mem.items():
            q = b.mem[rid]
            if q is r:
                continue
            if r.cells.keys() != q.cells.keys():
                return False
            for o, c in r.cells.items():
                if c[0] != q.cells[o][0] or not self.blendable(c[1], q.cells[o][1]):
                    return False
        return True

    def blendable(self, x, y):
        if x is y or same_val(x, y):
            return True
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            return len(x) == len(y) and all(self.blendable(p, q) for p, q in zip(x, y))
        ok = lambda v: isinstance(v, int) or z3.is_bv(v) or z3.is_bool(v)
        return ok(x) and ok(y) and (z3.is_bv(x) or z3.is_bv(y) or z3.is_bool(x) or z3.is_bool(y) or True)

    def blend(self, sel, vs, ty):
        x = vs[0]
        if all(v is x or (not isinstance(v, (tuple, list)) and same_val(v, x)) for v in vs[1:]):
            return x
        if isinstance(x, (tuple, list)):
            fs = self.m.resolve(ty)[1] if ty else [None] * len(x)
            fs = list(fs) if isinstance(fs, (tuple, list)) else [self.m.resolve(ty)[2]] * len(x)
            return type(x)([self.blend(sel, [v[k] for v in vs], fs[k]) for k in range(len(x))])
        bits = ty[1] if ty and ty[0] == 'i' else None
        if any(z3.is_bool(v) for v in vs if not isinstance(v, int)):
            vs = [tobool(v) for v in vs]
        else:
            w = bits or next((v.size() for v in vs if not isinstance(v, int)), None)
            if w is None:
                raise Unsupported('joining numbers of unknown width')
            vs = [tobv(v, w) for v in vs]
        e = vs[-1]
        for k in range(len(vs) - 2, -1, -1):
            e = z3.If(sel == k, vs[k], e)
        return e

    def join(self, ss):
        sel = self.fresh('path', 8)
        n = 0
        m = min(len(s.pc) for s in ss)
        while n < m and all(s.pc[n] is ss[0].pc[n] or s.pc[n].eq(ss[0].pc[n]) for s in ss[1:]):
            n += 1
        r = ss[0].clone()
        r.wits = tuple(w for s in ss for w in s.wits[:2])[:6]
        r.pc = list(ss[0].pc[:n])
        r.pc.append(z3.ULT(sel, len(ss)))
        for k, s in enumerate(ss):
            if len(s.pc) > n:
                r.pc.append(z3.Implies(sel == k, z3.And(s.pc[n:]) if len(s.pc) > n + 1 else s.pc[n]))
        r.cut = any(s.cut for s in ss)
        for fi, f in enumerate(r.frames):
            for k in list(f.regs):
                vs = [s.frames[fi].regs.get(k) for s in ss]
                if any(v is None for v in vs):
                    if not all(v is None for v in vs):
                        del f.regs[k]
                    continue
                f.regs[k] = self.blend(sel, vs, self.regtype(f, k))
        for rid in list(r.mem):
            if all(s.mem[rid] is ss[0].mem[rid] for s in ss[1:]):
                continue
            w = r.wregion(rid)
            for o, c in list(w.cells.items()):
                w.cells[o] = (c[0], self.blend(sel, [s.mem[rid].cells[o][1] for s in ss], ('i', c[0] * 8))) + tuple(c[2:])
            if w.zone is not None:
                for l in w.zone.arrays:
                    vs = [s.mem[rid].zone.arrays[l] for s in ss]
                    e = vs[-1]
                    for k in range(len(vs) - 2, -1, -1):
                        if not vs[k].eq(e):
                            e = z3.If(sel == k, vs[k], e)
                    w.zone.arrays[l] = e
        return r

    def regtype(self, f, k):
        for b in f.fn.blocks.values():
            for i in b:
                if getattr(i, 'res', None) == k and i.op in ('call', 'invoke'):
                    return i.a[0]
        return None

    # ---------------------------------------------------------------- loops
    def live_cells(self, st):
        return st

    def diff_cells(self, head, back, known=()):
        """locations of head's regions whose content differs in back"""
        out = set()
        for rid, r in head.mem.items():
            if r.kind != 'mem' or r.const:
                continue
            r2 = back.mem.get(rid)
            if r2 is None or r2 is r:
                continue
            keys = set(r.cells) | set(r2.cells)
            for o in keys:
                c1, c2 = r.cells.get(o), r2.cells.get(o)
                if c1 is not None and (rid, o, c1[0]) in known and (c2 is None or c2[0] == c1[0]):
                    continue
                if c1 is not None and c2 is not None and c1[0] == c2[0]:
                    if same_val(c1[1], c2[1]):
                        continue
                    if not isinstance(c1[1], Ptr) and not isinstance(c2[1], Ptr) and self.must(back, tobv(c1[1], c1[0] * 8) == tobv(c2[1], c2[0] * 8)):
                        continue
                    out.add((rid, o, c1[0]))
                elif c1 is None and c2 is not None:
                    # cell first written inside the loop; bytes were uninitialised at the head
                    out.add((rid, o, c2[0]))
                elif c1 is not None:
                    out.add((rid, o, c1[0]))
            if r.zone is not None and r2.zone is not None:
                for l in r.zone.arrays:
                    if not r.zone.arrays[l].eq(r2.zone.arrays[l]):
                        out.add((rid, 'zone', l))
        return out

    def head_phis(self, st):
        f = st.frames[-1]
        return [i for i in f.fn.blocks[f.block] if i.op == 'phi']

    def phival(self, s, i):
        f = s.frames[-1]
        if f.prev is None:
            return f.regs[i.res]
        for v, lab in i.a[1]:
            if lab == f.prev:
                return self.val(s, i.a[0], v)
        raise Unsupported('phi without incoming edge')

    def generalise(self, vals):
        """pointers into the same region that differ in the record index only"""
        if len(vals) < 2 or len({v.rid for v in vals}) != 1 or vals[0].rid is None:
            return None
        offs = {v.off % Zone.ES for v in vals}
        if len(offs) != 1 or all(v.idx is None and v.off == vals[0].off for v in vals):
            return None
        return (vals[0].rid, vals[0].off)

    def havoc(self, st, M, ptrvals, phis=(), livep=None):
        """fresh symbols for the locations in M; pointer cells fork over the pointer values seen"""
        heads = [st.clone()]
        for i, vals in phis:
            if all(isinstance(v, Ptr) for v in vals):
                g = self.generalise(vals)
                if g:
                    new = [Ptr(g[0], g[1], self.fresh('pix', 64))]
                else:
                    new = []
                    for v in vals:
                        if not any(same_val(v, x) for x in new):
                            new.append(v)
            elif any(isinstance(v, Ptr) for v in vals):
                raise Unsupported('mixed phi')
            else:
                w = i.a[0][1]
                new = [self.fresh('phi', 0 if w == 1 else w)]
            nh = []
            for s in heads:
                for v in new:
                    s2 = s.clone()
                    s2.frames[-1].regs[i.res] = v
                    nh.append(s2)
            heads = nh
        if phis:
            for s in heads:
                s.frames[-1].prev = None
                s.frames[-1].pos = len(phis)
        for loc in sorted(M, key=str):
            rid, o, n = loc
            if o == 'zone':
                for s in heads:
                    z = s.wregion(rid).zone
                    z.arrays[n] = z3.Array('hz!%d' % next(self.cnt), z3.BitVecSort(64), z3.BitVecSort(z.leaves[n]))
                continue
            pv = ptrvals.get(loc)
            if pv and livep is not None and loc not in livep:
                for s in heads:
                    self.cell_write(s, rid, o, n, Dead(loc))
            elif pv and len(pv) > 3 and self.generalise(pv):
                g = self.generalise(pv)
                for s in heads:
                    self.cell_write(s, rid, o, n, Ptr(g[0], g[1], self.fresh('pix', 64)))
            elif pv:
                nh = []
                for s in heads:
                    for p in pv:
                        s2 = s.clone()
                        self.cell_write(s2, rid, o, n, p)
                        nh.append(s2)
                heads = nh
            else:
                for s in heads:
                    v = self.fresh('h_%s_%s' % (s.mem[rid].name, o), n * 8)
                    self.cell_write(s, rid, o, n, v)
        if len(heads) > 16:
            raise Unsupported('too many pointer modes in a loop')
        return heads

    def run_body(self, st, lp):
        """one pass over the loop from its head. -> (backs, exits)"""
        depth = len(st.frames)
        st.frames[-1].loops = st.frames[-1].loops + (lp.head,)
        fn = st.frames[-1].fn

        def stop(s):
            d = len(s.frames)
            if d < depth:
                return 'exit'
            if d == depth:
                f = s.frames[-1]
                if f.pos == 0:
                    if f.block == lp.cut:
                        return 'back'
                    if f.block not in lp.body:
                        return 'exit'
            return None
        res = self.run([st], stop)
        backs, exits = [], []
        for tag, s in res:
            if tag == 'back':
                backs.append(s)
            else:
                exits.append(s)
            if len(s.frames) >= depth and s.frames[depth - 1].loops and s.frames[depth - 1].loops[-1] == lp.head:
                s.frames[depth - 1].loops = s.frames[depth - 1].loops[:-1]
        return backs, exits

    def loc_name(self, st, l):
        return '%s+%s' % (st.mem[l[0]].name if l[0] in st.mem else l[0], l[1:])

    def quiet(self):
        return _Quiet(self)

    def loop(self, st, lp):
        K = self.opts['unroll']
        if K:
            return self.loop_unroll(st, lp, K)
        fname = self.m.demangled.get(st.frames[-1].fn.name, '')
        depth = len(st.frames)
        exits_pre = []
        entry = [st]
        if self.opts.get('rotate'):
            lp = rotated(st.frames[-1].fn, lp)
            if lp.cut != lp.head:
                entry, exits_pre = self.run_body(st, lp)
                for s in entry:
                    for k in lp.defs:
                        s.frames[-1].regs.pop(k, None)
                entry = self.merge(entry) if self.opts.get('merge') else entry
        # optional peeling
        for _ in range(self.opts['peel']):
            nxt = []
            for s in entry:
                b, e = self.run_body(s.clone(), lp)
                nxt += b
                exits_pre += e
            entry = self.merge(nxt) if self.opts.get('merge') else nxt
        out = list(exits_pre)
        for s in entry:
            stay, gone = self.peel_entry(s, lp)
            out += gone
            for q in stay:
                out += self.loop_one(q, lp, fname)
        return out

    def peel_entry(self, st, lp):
        """an entry on which a flag read at the head ends the loop at once needs no invariant"""
        f = st.frames[-1]
        locs = []
        for i in f.fn.blocks[lp.cut]:
            if i.op == 'load' and not i.a[2] and i.a[0] == ('i', 8):
                try:
                    p = self.val(st, ('ptr',), i.a[1])
                except Exception:
                    continue
                r = st.mem.get(p.rid) if isinstance(p, Ptr) else None
                o = p.off if r is not None else None
                c = r.cells.get(o) if r is not None and r.kind == 'mem' and isinstance(o, int) else None
                if c is not None and c[0] == 1 and not is_c(c[1]) and not isinstance(c[1], (Ptr, Dead)):
                    locs.append(c[1])
        stay, gone = [st], []
        for v in locs[:2]:
            nxt = []
            for q in stay:
                two = []
                for f in (tobv(v, 8) == 0, tobv(v, 8) != 0):
                    q2 = q.clone()
                    q2.assume(f)
                    if self.feasible(q2):
                        cont = self._continue(q2, [], lp)
                        two.append((q2, cont))
                if any(c is not None for _, c in two):
                    for q2, c in two:
                        if c is None:
                            nxt.append(q2)
                        else:
                            gone += c[0]
                            self.obls += c[1]
                else:
                    nxt.append(q)
            stay = nxt
        return stay, gone

    def loop_unroll(self, st, lp, K):
        out = []
        cur = [st]
        for k in range(K):
            nxt = []
            for s in cur:
                b, e = self.run_body(s, lp)
                nxt += b
                out += e
            cur = nxt
            if not cur:
                return out
        for s in cur:
            s.frames[-1].loops = s.frames[-1].loops
            self.obls.append(Obl('bounded: loop unwound within the bound', list(s.pc), z3.BoolVal(False), self.m.demangled.get(s.frames[-1].fn.name, ''), False))
        return out

    def loop_one(self, st, lp, fname):
        # pass 0: does the loop come back at all?
        nobl = len(self.obls)
        backs, exits = self.run_body(st.clone(), lp)
        backs = [b for b in backs if self.feasible(b)]
        if not backs:
            return exits
        # constant-trip loops: keep unrolling while every decision is concrete
        del self.obls[nobl:]
        entry = st
        phis = self.head_phis(entry)
        phivals = {i.res: [self.phival(entry, i)] for i in phis}
        hints = self.loop_hints(self, entry) if self.loop_hints else None
        M = set()
        ptrvals = {}
        stay, _ = self.peel(entry, backs, lp)
        backs = stay or backs

        def note(bs):
            grew = False
            for i in phis:
                for b in bs:
                    v = self.phival(b, i)
                    cur = phivals[i.res]
                    if not any(same_val(v, x) for x in cur):
                        if not isinstance(v, Ptr) or not (self.generalise(cur) and self.generalise(cur + [v])):
                            grew = grew or isinstance(v, Ptr)
                        cur.append(v)
            for b in bs:
                for loc in self.diff_cells(entry, b, M):
                    if loc not in M and not (loc[1] != 'zone' and any(
                            l[0] == loc[0] and l[1] != 'zone' and l[1] <= loc[1] and loc[1] + loc[2] <= l[1] + l[2] for l in M)):
                        M.add(loc)
                        grew = True
            # pointer-valued cells
            for loc in list(M):
                rid, o, n = loc
                if o == 'zone':
                    continue
                vals = []
                for s in [entry] + bs:
                    c = s.mem[rid].cells.get(o) if rid in s.mem else None
                    if c is not None and c[0] == n and isinstance(c[1], Ptr):
                        vals.append(c[1])
                if vals:
                    cur = ptrvals.setdefault(loc, [])
                    for v in vals:
                        if not any(same_val(v, x) for x in cur):
                            if not (len(cur) > 3 and self.generalise(cur) and self.generalise(cur + [v])):
                                grew = True
                            cur.append(v)
            return grew
        # what this loop changed when it was met before is a good first guess
        for loc in self.loop_cells.get((fname, lp.head), ()):
            if loc[0] in entry.mem and (loc[1] == 'zone' or loc[1] not in entry.mem[loc[0]].cells or entry.mem[loc[0]].cells[loc[1]][0] == loc[2]):
                c = entry.mem[loc[0]].cells.get(loc[1]) if loc[1] != 'zone' else None
                if c is None or not isinstance(c[1], Ptr):
                    M.add(loc)
        # normalise overlapping locations
        note(backs)
        # optimistic invariants: assumed while the body is explored, dropped when an iteration breaks them
        strong = list(hints.get('strong', ())) if hints else []
        okn = lambda pc, s: {id(x[1]) for x in self.holding(pc, [(x[0], x[1], x[1](s)) for x in strong])}
        for s in ([entry] + backs if strong else []):
            k = okn(s.pc, s)
            strong = [x for x in strong if id(x[1]) in k]
        livep = set() if self.opts.get('deadptr') else None
        for rnd in range(32):
            self._norm(M)
            heads = self.havoc(entry, M, ptrvals, [(i, phivals[i.res]) for i in phis], livep)
            nobl = len(self.obls)
            allb, alle, left = [], [], []
            dead = False
            for h in heads:
                h.cut = True
                for x in strong:
                    if len(x) > 2 and x[2] in M:
                        self.cell_write(h, x[2][0], x[2][1], x[2][2], x[3])
                for x in strong:
                    h.assume(z3.simplify(x[1](h)))
                h0 = h.clone()
                facts = self._facts(hints, h0)
                for f in facts:
                    h.assume(f)
                try:
                    hb, he = self.run_body(h, lp)
                except DeadRead as dr:
                    if livep is None or dr.loc in livep or dr.loc not in M:
                        raise
                    livep.add(dr.loc)
                    dead = True
                    break
                hb, gone = self.peel(h0, hb, lp)
                left += [(h0, c) for c in gone]
                allb += [(h0, b) for b in hb]
                alle += [(h0, e) for e in he]
            if dead:
                del self.obls[nobl:]
                continue
            newb = [b for _, b in allb]
            grew, ns = note(newb), len(strong)
            if os.environ.get('VF_DBG'):
                print(fname[-40:], lp.head, lp.cut, rnd, len(heads), len(newb), sorted((self.loc_name(entry, l) for l in M)), {str(k): len(v) for k, v in ptrvals.items()}, livep, flush=True)
            for b in newb:
                k = okn(b.pc, b)
                strong = [x for x in strong if id(x[1]) in k]
            if not grew and len(strong) == ns:
                break
            del self.obls[nobl:]
        else:
            raise Unsupported('loop analysis does not converge')
        if self.opts.get('loop_cache'):
            self.loop_cells[(fname, lp.head)] = [l for l in M if l not in ptrvals]
        body_obls = self.obls[nobl:]
        del self.obls[nobl:]
        # ---- candidates and Houdini
        cands = self.candidates(entry, lp, M, hints, backs + newb) + self.ptr_candidates(entry, M, ptrvals, phis, hints)
        # initiation
        pc0 = entry.pc + self._facts(hints, entry)
        live = []
        todo = []
        hs = list({id(h0): h0 for h0, _ in allb + alle + left}.values())
        for nm, f in cands:
            g = f(entry)
            if g is None or any(f(h0) is None for h0 in hs):
                continue
            todo.append((nm, f, g))
        live = [(nm, f) for nm, f, _ in self.holding(pc0, todo)]
        ext = []   # states continued through one more pass instead of being covered
        n_init = len(live)
        contset = {}
        while True:
            changed = False
            for bi, (h0, b) in enumerate(allb):
                hyp = [f(h0) for _, f in live]
                pcb = b.pc + hyp + self._facts(hints, b)
                if bi in contset:
                    continue
                if self.sat(b, hyp + self._facts(hints, b), timeout=4000) == 'unsat':
                    continue
                goals = [(nm, f, self._orfalse(f(b))) for nm, f in live]
                ok = self.holding(pcb, goals)
                okn = {id(f) for _, f, _ in ok}
                bad = [nm for nm, f, g in goals if id(f) not in okn]
                if bad:
                    # cover-or-continue: a path that leaves at once needs no invariant
                    cont = self._continue(b, hyp, lp)
                    if cont is not None:
                        contset[bi] = (h0, cont)
                        continue
                    live = [(nm, f) for nm, f in live if nm not in bad]
                    changed = True
            if not changed:
                break
        # ---- assemble
        out = []

        def finish(h0, s):
            for _, f in live:
                s.assume(f(h0))
            s.cut = True
            if self.feasible(s):
                out.append(s)
        for h0, e in alle:
            finish(h0, e)
        for bi, (h0, cont) in contset.items():
            for e in cont[0]:
                finish(h0, e)
            body_obls += cont[1]
        for h0, cont in left:
            for e in cont[0]:
                finish(h0, e)
            body_obls += cont[1]
        allinv = []
        for h0, _ in ([(h, None) for h in {id(h): h for h, _ in allb + alle + left}.values()]):
            allinv.append(h0)
        for o in body_obls:
            if o.status == 'proved':
                self.obls.append(o)
                continue
            # attach the invariants of the head the obligation's path started from
            for h0 in allinv:
                if len(allinv) == 1 or self._from(h0, o):
                    o.pc = o.pc + [f(h0) for _, f in live]
                    break
            o.cut = True
            self.obls.append(o)
        # ---- termination
        if hints and hints.get('variants'):
            ok = None
            for nm, v in hints['variants']:
                good = True
                for bi, (h0, b) in enumerate(allb):
                    if bi in contset:
                        continue
                    hyp = [f(h0) for _, f in live]
                    a0, a1 = v(h0), v(b)
                    if self.check(b.pc + hyp + [z3.Not(z3.ULT(a1, a0))], timeout=8000) != 'unsat':
                        good = False
                        break
                if good:
                    ok = nm
                    break
            o = Obl('termination: loop variant decreases', [], z3.BoolVal(ok is not None), fname, True)
            o.status = 'proved' if ok else 'failed'
            o.backend = 'z3'
            o.info = ok
            self.obls.append(o)
        self.loop_log.append(dict(function=fname, head=lp.head, modified=len(M), candidates=len(cands), initiated=n_init,
                                  invariants=[nm for nm, _ in live], continued=len(contset)))
        return out

    def holding(self, pc, goals):
        """the goals (name, f, formula) that pc implies; counterexamples prune several at once"""
        live = [x for x in goals if not z3.is_true(z3.simplify(x[2]))]
        gone = set()
        while live:
            r, m = self.check(pc + [z3.Not(z3.And([g for _, _, g in live]))], timeout=8000, model=True)
            if r == 'unsat':
                break
            hit = [x for x in live if m is not None and m.false(x[2])] if r == 'sat' else []
            if not hit:
                hit = [x for x in live if self.check(pc + [z3.Not(x[2])], timeout=4000) != 'unsat']
                if not hit:
                    break
            gone |= {id(x) for x in hit}
            live = [x for x in live if id(x) not in gone]
        return [x for x in goals if id(x) not in gone]

    def _from(self, h0, o):
        n = len(h0.pc)
        return len(o.pc) >= n and all(o.pc[k] is h0.pc[k] or o.pc[k].eq(h0.pc[k]) for k in range(n))

    def _continue(self, b, hyp, lp):
        s = b.clone()
        for h in hyp:
            s.assume(h)
        n0 = len(self.obls)
        try:
            bb, ee = self.run_body(s, lp)
        except (Unsupported, Budget):
            del self.obls[n0:]
            return None
        obls = self.obls[n0:]
        del self.obls[n0:]
        if any(self.feasible(x) for x in bb):
            return None
        return (ee, obls)

    def peel(self, h, backs, lp):
        """split iterations by the flags they set; those after which the loop is left at once need no invariant"""
        stay, gone = [], []
        flags = {}
        for b in backs:
            for rid, r in b.mem.items():
                if r.kind == 'mem' and r is not h.mem.get(rid):
                    for o, (n, v) in r.cells.items():
                        if n == 1 and is_c(v):
                            flags.setdefault((rid, o), set()).add(v)
        disagree = any(len(v) > 1 for v in flags.values())
        for b in backs:
            pieces = [b]
            for rid, r in b.mem.items():
                if r.kind != 'mem' or r is h.mem.get(rid):
                    continue
                for o, (n, v) in r.cells.items():
                    if n != 1 or is_c(v) or isinstance(v, (Ptr, Dead)):
                        continue
                    r0 = h.mem.get(rid)
                    c0 = r0.cells.get(o) if r0 is not None else None
                    if c0 is not None and c0[0] == 1 and same_val(c0[1], v):
                        continue
                    np = []
                    for q in pieces:
                        two = []
                        for f in (tobv(v, 8) == 0, tobv(v, 8) != 0):
                            q2 = q.clone()
                            q2.assume(f)
                            if self.feasible(q2):
                                two.append(q2)
                        np += two if len(two) == 2 else [q]
                    if len(np) > 4:
                        break
                    pieces = np
            if len(pieces) == 1 and not disagree:
                stay.append(b)
                continue
            for q in pieces:
                cont = self._continue(q, [], lp)
                if cont is None:
                    stay.append(q)
                else:
                    gone.append(cont)
        return stay, gone

    def _norm(self, M):
        """merge overlapping byte ranges of the same region"""
        cells = {}
        for loc in list(M):
            if loc[1] == 'zone':
                continue
            cells.setdefault(loc[0], []).append((loc[1], loc[2]))
        for rid, l in cells.items():
            l.sort()
            res = []
            for o, n in l:
                if res and o < res[-1][0] + res[-1][1]:
                    if (o, n) == res[-1]:
                        continue
                    e = max(res[-1][0] + res[-1][1], o + n)
                    res[-1] = (res[-1][0], e - res[-1][0])
                else:
                    res.append((o, n))
            for o, n in l:
                M.discard((rid, o, n))
            for o, n in res:
                M.add((rid, o, n))

    def _facts(self, hints, s):
        if not hints or not hints.get('facts'):
            return []
        return [f for f in hints['facts'](s)]

    def candidates(self, entry, lp, M, hints, backs):
        c = []
        cells = [(rid, o, n) for rid, o, n in sorted(M, key=str) if o != 'zone']

        def rd(s, loc):
            rid, o, n = loc
            if rid not in s.mem:
                return None
            try:
                v = self.cell_read(s, rid, o, n)
            except DeadRead:
                return None
            if isinstance(v, Ptr):
                return None
            return tobv(v, n * 8)
        for loc in cells:
            rid, o, n = loc
            nm = '%s+%s' % (entry.mem[rid].name, o)
            ev = entry.mem[rid].cells.get(o)
            if ev is not None and isinstance(ev[1], Ptr):
                continue
            consts = set()
            allc = True
            for s in [entry] + backs:
                cc = s.mem[rid].cells.get(o) if rid in s.mem else None
                if cc is None or cc[0] != n or not is_c(cc[1]):
                    allc = False
                else:
                    consts.add(cc[1])
            w = n * 8
            if len(consts) <= 8:
                for k in consts:
                    c.append(('%s == %d' % (nm, k), lambda s, loc=loc, k=k, w=w: self._eqc(rd(s, loc), k, w)))
                if len(consts) > 1:
                    c.append(('%s in %s' % (nm, sorted(consts)), lambda s, loc=loc, ks=tuple(consts), w=w: self._inc(rd(s, loc), ks, w)))
            if hints:
                for tn, cw, cf in hints.get('cellinvs', []):
                    if cw != n:
                        continue
                    def candc(s, loc=loc, cf=cf):
                        v = rd(s, loc)
                        return None if v is None else cf(s, v)
                    if candc(entry) is not None:
                        c.append(('%s: %s' % (nm, tn), candc))
                for tn, tf in hints.get('slotinvs', []):
                    if n not in (4, 8):
                        continue
                    def cands(s, loc=loc, tf=tf, n=n):
                        v = rd(s, loc)
                        return None if v is None else tf(s, v if n == 8 else z3.ZeroExt(32, v))
                    if cands(entry) is not None:
                        c.append(('%s: %s' % (nm, tn), cands))
                for tn, tf in hints.get('terms', []):
                    def cand(s, loc=loc, tf=tf, w=w):
                        v = rd(s, loc)
                        t = tf(s)
                        if v is None or t is None:
                            return None
                        t = tobv(t, w) if is_c(t) or z3.is_bool(t) else t
                        if t.size() != w:
                            return None
                        return v == t
                    if cand(entry) is not None:
                        c.append(('%s == %s' % (nm, tn), cand))
                for tn, tf in hints.get('bounds', []):
                    def candb(s, loc=loc, tf=tf, w=w):
                        v = rd(s, loc)
                        t = tf(s)
                        if v is None or t is None:
                            return None
                        t = tobv(t, w) if is_c(t) else t
                        if t.size() != w:
                            return None
                        return z3.ULT(v, t)
                    if candb(entry) is not None:
                        c.append(('%s < %s' % (nm, tn), candb))
        for k, la in enumerate(cells):
            for lb in cells[:k]:
                if la[2] == lb[2] and la[2] >= 4:
                    def ceq(s, la=la, lb=lb):
                        x, y = rd(s, la), rd(s, lb)
                        return None if x is None or y is None else x == y
                    if ceq(entry) is not None:
                        c.append(('%s == %s' % (la, lb), ceq))
        if hints:
            for nm, f in hints.get('invs', []):
                if f(entry) is not None:
                    c.append((nm, f))
        return c

    def ptr_candidates(self, entry, M, ptrvals, phis, hints=None):
        c = []
        slotinvs = hints.get('slotinvs', []) if hints else []

        def ix(s, get):
            try:
                v = get(s)
            except (KeyError, Unsupported):
                return None
            if not isinstance(v, Ptr) or v.rid not in s.mem or s.mem[v.rid].zone is None:
                return None
            z = s.mem[v.rid].zone
            if (v.off - z.start) % Zone.ES:
                return None
            i = tobv(v.idx, 64) if v.idx is not None else z3.BitVecVal(0, 64)
            return i + z3.BitVecVal(((v.off - z.start) // Zone.ES) & mask(64), 64), z
        gets = [('phi ' + i.res, lambda s, i=i: self.phival(s, i)) for i in phis if i.a[0][0] == 'ptr']
        for loc in M:
            if loc[1] != 'zone' and ptrvals.get(loc):
                gets.append(('pointer cell %s' % (loc,), lambda s, loc=loc: self.cell_read(s, *loc)))
        W = self.witness
        for k, (na, ga) in enumerate(gets):
            for nb, gb in gets[:k]:
                def same(s, ga=ga, gb=gb):
                    x, y = ix(s, ga), ix(s, gb)
                    return None if x is None or y is None else x[0] == y[0]
                c.append(('%s and %s denote the same index' % (na, nb), same))
        for nm, g in gets:
            def lt(s, g=g):
                r = ix(s, g)
                return None if r is None else z3.ULT(r[0], tobv(r[1].limit, 64))

            def le(s, g=g):
                r = ix(s, g)
                return None if r is None else z3.ULE(r[0], tobv(r[1].limit, 64))
            c += [(nm + ' inside the array', lt), (nm + ' not past the array', le)]
            for l in (0, 8):
                def zero(s, g=g, l=l):
                    r = ix(s, g)
                    if r is None or l not in r[1].arrays:
                        return None
                    return z3.Implies(z3.ULT(W, r[0]), z3.Select(r[1].arrays[l], W) == 0)
                c.append((nm + ' records before it are zero (%d)' % l, zero))
            for tn, tf in slotinvs:
                def slots(s, g=g, tf=tf):
                    r = ix(s, g)
                    return None if r is None else tf(s, r[0])
                c.append((nm + ': ' + tn, slots))
        return c

    witness = z3.BitVec('any_slot', 64)

    def _orfalse(self, g):
        return z3.BoolVal(False) if g is None else g

    def _eqc(self, v, k, w):
        return None if v is None else v == z3.BitVecVal(k, w)

    def _inc(self, v, ks, w):
        return None if v is None else z3.Or([v == z3.BitVecVal(k, w) for k in ks])


class _Quiet:
    def __init__(self, ex):
        self.ex = ex

    def __enter__(self):
        self.n = len(self.ex.obls)

    def __exit__(self, *a):
        del self.ex.obls[self.n:]


class PathEnd(Exception):
    pass


class NeedFork(Exception):
    def __init__(self, conds):
        self.conds = conds
