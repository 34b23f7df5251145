"""A push contended by other writers: RTML_writer::push / push_all verified against every interleaving.

Rely (what the others may do between any two of this push's accesses):
  R1  publish: the page is replaced by one naming a record of theirs, with a larger version counter; that record
      holds indices inside the buffer;
  R2  write their own records, but never the one currently published (so the published record stays as it is
      for as long as the page does);
  R3  write slots of the buffer, but not the one this push has reserved, once it has; the event of the record
      published, once in its slot, stays there as long as the record is published;
  R4  publish only once the event of the record they replace is in its slot.
Guarantee (obligations), matching the rely of the others: exactly one successful compare-and-swap, of page content
with a counter one higher and a record one step after the one it replaces, whose event is in the buffer by then; the
record names the slot reserved and the caller's event; the record written is never the one published; the buffer is
written nowhere but in the slot reserved, after the reservation, with the caller's event.

The time between two accesses of the page is a window: in a quiet window nobody publishes, and what the published
record holds is stable; otherwise whatever is read from it is arbitrary.
"""
import z3
from .contract import *
from .specs_buffer import writer_cases, writer_build, wbuf, P, WR

GHOST = 'PUB NOISY FRESH DONE TOP BOT'.split()


class World:
    def __init__(self, env, args, st):
        self.env, self.ex, self.k = env, env.ex, env.k
        k = self.k
        self.w = args[0]
        self.ev = args[1]
        self.b = wbuf(env, st, self.w)
        self.page = self.b.add(k['off_page'])
        self.initial = env.record(st, self.b)
        self.others = env.new_state_record(st, 'record_of_another_writer')
        self.grid = self.ex.new_region(st, 'ghost', 8 * len(GHOST))
        self.g = {n: 8 * i for i, n in enumerate(GHOST)}
        for n in GHOST[1:]:
            self.put(st, n, 0)
        self.put(st, 'NOISY', 1)
        self.put(st, 'FRESH', 0)
        self.ex.cell_write(st, self.grid, self.g['PUB'], 8, self.initial)
        self.live = True

    def put(self, s, n, v):
        self.ex.cell_write(s, self.grid, self.g[n], 8, v)

    def get(self, s, n):
        return self.ex.cell_read(s, self.grid, self.g[n], 8)

    def isflag(self, s, n, v):
        x = self.get(s, n)
        return x == v if is_c(x) else self.ex.must(s, tobv(x, 64) == v)

    def need(self, s, name, f):
        n = len(s.pc)
        self.ex.oblige(s, name, f)
        del s.pc[n:]

    def pub(self, s):
        return self.ex.cell_read(s, self.grid, self.g['PUB'], 8)

    # -- what the others do
    def arbitrary_record(self, s, p, valid):
        env, k = self.env, self.k
        for f in ('top', 'bottom', 'pos'):
            v = env.sym('published_' + f)
            env.cell(s, p.add(k['off_st_' + f]), 8, v)
            if valid:
                s.assume(env.valid_ix(v))
        e = p.add(k['off_st_event'])
        env.cell(s, e.add(k['off_ev_data']), env.D, env.sym('published_data', 8 * env.D))
        env.cell(s, e.add(k['off_ev_time']), 8, env.sym('published_time'))

    def in_record(self, p, rec):
        return p.rid == rec.rid and rec.off <= p.off < rec.off + self.k['sz_state']

    def slots_change(self, s):
        z = s.wregion(self.b.rid).zone
        done = self.get(s, 'DONE')
        for l in list(z.arrays):
            new = z3.Array('slots!%d' % next(self.ex.cnt), z3.BitVecSort(64), z3.BitVecSort(z.leaves[l]))
            if not (is_c(done) and done == 0):
                t = tobv(self.get(s, 'TOP'), 64)
                s.assume(z3.Implies(tobv(done, 64) != 0, z3.Select(new, t) == z3.Select(z.arrays[l], t)))
            if self.isflag(s, 'NOISY', 0):
                i, e = self.completion(s)
                s.assume(z3.Implies(z3.Select(z.arrays[l], i) == e[l], z3.Select(new, i) == e[l]))
            z.arrays[l] = new

    def completion(self, s):
        """the slot and the event (leaf by leaf) of the push published last"""
        env, k = self.env, self.k
        r = self.pub(s)
        e = r.add(k['off_st_event'])
        i = env.rdb(s, r.add(k['off_st_pos']), 8)
        return i, {k['off_ev_data']: env.rdb(s, e.add(k['off_ev_data']), env.D), k['off_ev_time']: env.rdb(s, e.add(k['off_ev_time']), 8)}

    def complete(self, s):
        i, e = self.completion(s)
        a = s.wregion(self.b.rid).zone.arrays
        return z3.And(*[z3.Select(a[l], i) == e[l] for l in e])

    def touch(self, ex, s, p, n, write):
        if not self.live or p.rid not in s.mem:
            return
        r = s.mem[p.rid]
        k = self.k
        inz = r.zone is not None and (p.idx is not None or r.zone.start <= p.off < r.zone.end())
        if write:
            if p.rid == self.b.rid:
                if inz:
                    i = (tobv(p.idx, 64) if p.idx is not None else z3.BitVecVal(0, 64)) + (p.off - r.zone.start) // 16
                    done = tobv(self.get(s, 'DONE'), 64)
                    self.need(s, 'store in the buffer: only in the slot this push has reserved, once it has',
                              z3.And(done == 1, i == tobv(self.get(s, 'TOP'), 64)))
                elif not self.cas:
                    self.need(s, 'store in the buffer: nothing but slots', z3.BoolVal(False))
            elif p.rid in (self.initial.rid, self.others.rid) and p.rid != self.w.rid:
                self.need(s, 'store: no record of another writer', z3.BoolVal(False))
            elif p.rid == self.w.rid and p.idx is None:
                pub = self.pub(s)
                if pub.rid == p.rid and p.off < pub.off + k['sz_state'] and pub.off < p.off + n:
                    self.need(s, 'store: never into the record currently published', z3.BoolVal(False))
            return
        if inz and p.rid == self.b.rid:
            self.slots_change(s)
        elif p.rid != self.w.rid and (self.in_record(p, self.initial) or self.in_record(p, self.others)):
            if self.others.rid == p.rid or self.initial.rid != self.b.rid:
                pub = None
                if not self.isflag(s, 'NOISY', 0):
                    self.arbitrary_record(s, self.initial if self.in_record(p, self.initial) else self.others, False)
                else:
                    pub = self.pub(s)
                    rec = self.initial if self.in_record(p, self.initial) else self.others
                    if (rec.rid, rec.off) != (pub.rid, pub.off):
                        self.arbitrary_record(s, rec, False)

    cas = False

    def windows(self, s):
        """the page at its next access: as it was in a quiet window, else published anew; and whether a quiet window follows"""
        ex, env, k = self.ex, self.env, self.k
        now = []
        if self.isflag(s, 'FRESH', 1) and not self.isflag(s, 'NOISY', 1):
            q = s if self.isflag(s, 'NOISY', 0) else s.clone()
            if q is not s:
                q.assume(tobv(self.get(s, 'NOISY'), 64) == 0)
                s.assume(tobv(self.get(s, 'NOISY'), 64) != 0)
                self.put(q, 'NOISY', 0)
                self.put(s, 'NOISY', 1)
                now = [q] if ex.feasible(q) else []
            else:
                now = [s]
        if not now or now[0] is not s:
            known = self.isflag(s, 'FRESH', 1)
            opts = [self.others] if known else [self.initial, self.others]
            for rec in opts:
                x = s.clone()
                done = self.get(x, 'DONE')
                if not (is_c(done) and done == 0):      # nobody overtakes a push that is not complete
                    x.assume(z3.Implies(tobv(done, 64) != 0, self.complete(x)))
                old = env.counter(x, self.b)
                new = env.sym('version')
                env.cell(x, self.page.add(k['off_page_ref']), 8, rec)
                env.cell(x, self.page.add(k['off_page_counter']), 8, new)
                if known:
                    x.assume(z3.And(z3.UGT(new, tobv(old, 64)), new != z3.BitVecVal((1 << 64) - 1, 64)))
                else:
                    x.assume(new != z3.BitVecVal((1 << 64) - 1, 64))
                # published records hold indices of the buffer and stay as they were published
                self.arbitrary_record(x, rec, True)
                ex.cell_write(x, self.grid, self.g['PUB'], 8, rec)
                now.append(x)
        out = []
        for x in now:
            self.put(x, 'FRESH', 1)
            y = x.clone()
            self.put(x, 'NOISY', 0)
            self.put(y, 'NOISY', 1)
            x.ghost['window'], y.ghost['window'] = 'quiet', 'noisy'       # these do not join
            out += [x, y]
        return out

    def page_load(self, ex, st, p, ty):
        p = ex.as_ptr(st, p)
        if not self.live or p.rid != self.b.rid or p.off != self.page.off:
            return ex.load(st, p, ty)

        def split(s, res):
            out = []
            for x in self.windows(s):
                x.frames[-1].regs[res] = ex.load(x, p, ty)
                out.append(x)
            return out
        ex._split_after = split
        return None

    def page_cas(self, ex, st, p, ty, cv, nv):
        p = ex.as_ptr(st, p)
        k, env = self.k, self.env
        out = []
        if not self.live or p.rid != self.b.rid or p.off != self.page.off:
            raise Unsupported('compare-and-swap of something other than the page')
        for x in self.windows(st):
            cur = ex.load(x, p, ty)
            same = tobv(cur, 128) == tobv(cv, 128)
            ok = x.clone()
            ok.assume(same)
            x.assume(z3.Not(same))
            if ex.feasible(x):
                out.append((x, cur, 0))
            # the swap needs the page as it is now: whatever follows in this window is after the publication
            if self.isflag(ok, 'NOISY', 1):
                pass
            if not ex.feasible(ok):
                continue
            out.append((ok, cur, 1))
            self.published(ok, p, ty, nv)
        return out

    def published(self, s, p, ty, nv):
        ex, env, k = self.ex, self.env, self.k
        C = 'publication: '
        self.need(s, C + 'one only', tobv(self.get(s, 'DONE'), 64) == 0)
        old = self.pub(s)
        self.need(s, C + 'the event of the record it replaces is in the buffer', self.complete(s))
        ot, ob = env.rdb(s, old.add(k['off_st_top']), 8), env.rdb(s, old.add(k['off_st_bottom']), 8)
        oc = env.counter(s, self.b)
        self.cas = True
        ex.store(s, p, ty, nv)
        self.cas = False
        rec = None
        try:
            rec = ex.as_ptr(s, env.rd(s, self.page.add(k['off_page_ref']), 8))
        except Unsupported:
            pass
        own = rec is not None and rec.rid == self.w.rid and rec.idx is None and k['off_wr_state'] <= rec.off and rec.off + k['sz_state'] <= s.mem[self.w.rid].size
        self.need(s, C + 'a record of this writer', z3.BoolVal(bool(own)))
        if not own:
            raise PathEnd()
        self.need(s, C + 'a record other than the one it replaces', z3.BoolVal((rec.rid, rec.off) != (old.rid, old.off)))
        self.need(s, C + 'the version counter is one higher', env.counter(s, self.b) == oc + 1)
        t, b = env.rdb(s, rec.add(k['off_st_top']), 8), env.rdb(s, rec.add(k['off_st_bottom']), 8)
        self.need(s, C + 'top one step after the top it replaces', t == env.inc(ot))
        self.need(s, C + 'bottom one step on exactly when the buffer was full', b == z3.If(env.inc(ot) == ob, env.inc(ob), ob))
        e = rec.add(k['off_st_event'])
        self.need(s, C + 'the record names the slot reserved and the event', z3.And(
            env.rdb(s, rec.add(k['off_st_pos']), 8) == ot, env.rdb(s, e.add(k['off_ev_data']), env.D) == env.ev_data(s, self.ev),
            env.rdb(s, e.add(k['off_ev_time']), 8) == env.ev_time(s, self.ev)))
        self.put(s, 'DONE', 1)
        self.put(s, 'TOP', ot)
        self.put(s, 'BOT', ob)
        ex.cell_write(s, self.grid, self.g['PUB'], 8, rec)
        # from here on the others may publish at any time
        self.put(s, 'FRESH', 1)
        self.put(s, 'NOISY', 1)
        s.ghost['window'] = 'published'


def contended(spec, env, res):
    ex, k = env.ex, env.k
    name = spec.short()
    ex.opts['deadptr'] = True
    ex.opts['peel'] = 0
    ex.contracts.clear()          # every access counts: the callees are entered
    for cname, build in writer_cases(env):
        if not cname.endswith(' ' + spec.case):
            continue
        st = State()
        args = build(st)
        w = World(env, args, st)
        for f in [env.size(st, w.b) == env.S()]:
            st.assume(f)
        res.covers.append(('%s: precondition satisfiable' % cname, ex.check(st.pc) == 'sat'))
        pre = st.clone()
        ex.on_touch, ex.on_atomic_load, ex.on_cmpxchg = w.touch, w.page_load, w.page_cas
        ex.loop_hints = lambda ex_, s_: dict(terms=[], invs=[], bounds=[], variants=[], facts=None, cellinvs=[('an index', 8, lambda s, v: env.valid_ix(v))])
        n0 = len(ex.obls)
        ex.call_function(st, spec.wrapper, args, None)
        ends = ex.run([st])
        w.live = False
        res.paths += len(ends)
        ends = [(n, e) for n, e in ends if ex.feasible(e)]
        res.covers.append(('%s: the push returns' % cname, bool(ends)))
        if not ends:
            raise Unsupported('no path returns')
        for _, e in ends:
            done = tobv(w.get(e, 'DONE'), 64)
            ex.obls.append(Obl('return: published exactly once', list(e.pc), done == 1, name, e.cut))
            t = tobv(w.get(e, 'TOP'), 64)
            f = z3.And(env.data(e, w.b, t) == env.ev_data(e, w.ev), env.time(e, w.b, t) == env.ev_time(e, w.ev))
            if spec.wrapper.endswith('_all'):
                f = z3.And(f, env.ev_data(e, w.ev) == env.ev_data(pre, w.ev), env.ev_time(e, w.ev) == env.ev_time(pre, w.ev))
            else:
                f = z3.And(f, env.ev_data(e, w.ev) == env.ev_data(pre, w.ev))
            ex.obls.append(Obl('return: the event is in the slot reserved', list(e.pc), z3.Implies(done == 1, f), name, e.cut))
            full = env.inc(t) == tobv(w.get(e, 'BOT'), 64)
            ex.obls.append(Obl('return: reports BUFFER_OVERFLOW exactly when the publication discarded an event', list(e.pc),
                               z3.Implies(done == 1, tobv(e.ret, 32) == z3.If(full, z3.BitVecVal(k['e_BUFFER_OVERFLOW'], 32), z3.BitVecVal(k['e_OK'], 32))), name, e.cut))
        for o in ex.obls[n0:]:
            if not o.name.startswith(name):
                o.name = '%s [%s] %s' % (name, cname, o.name)


CASES = ('own', 'ext', 'mine0', 'mine1')


def conc_specs():
    out = []
    for n in ('push', 'push_all'):
        for c in CASES:
            s = Spec(None, 'vf_writer_' + n, None, None, None, callable_=False)
            s.custom = contended
            s.merge = True
            s.case = c
            s.unwind = 1        # within one attempt; what fails there fails on a real path
            s.label = 'writer_%s contended %s' % (n, c)
            out.append(s)
    return out


def names():
    return [s.label for s in conc_specs()]
