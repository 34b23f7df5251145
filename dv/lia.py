"""Exact translation of bit-vector formulas into linear integer arithmetic.

Every bit-vector term of width w becomes an integer term in [0, 2^w); additions and
subtractions that can leave the range are corrected by an explicit case split, so the
translation loses nothing: the two formulas are equisatisfiable.  Terms that are not
linear raise NotLinear and the bit-vector solver takes the query."""
import z3


class NotLinear(Exception):
    pass


class Translator:
    def __init__(self, ranges=None):
        self.ranges = ranges or {}
        self.cache = {}
        self.side = []
        self.keep = []
        self.n = 0
        self.own = {}      # node id -> side conditions it introduced
        self.tops = {}
        self.guards = {}   # node id -> condition under which its translation is exact

    def top(self, f):
        """translated conjunct and the side conditions of its terms (cached per conjunct)"""
        i = f.get_id()
        r = self.tops.get(i)
        if r is None:
            try:
                x = self.t(f)
            except NotLinear:
                self.tops[i] = r = (f, None, None, None)
                return r
            sides, guards, seen, stack = [], [], set(), [f]
            while stack:
                n = stack.pop()
                k = n.get_id()
                if k in seen:
                    continue
                seen.add(k)
                sides.extend(self.own.get(k, ()))
                if k in self.guards:
                    guards.append(self.guards[k])
                stack.extend(n.children())
            self.tops[i] = r = (f, x, sides, guards)
        return r

    def fresh(self, hi):
        self.n += 1
        v = z3.Int('lia!%d' % self.n)
        self.side.append(z3.And(v >= 0, v < hi))
        return v

    # returns (expr, lo, hi) for bit-vectors, expr for booleans / arrays
    def t(self, e):
        i = e.get_id()
        if i in self.cache:
            return self.cache[i]
        # iterative post-order to keep the python stack small
        stack = [e]
        while stack:
            x = stack[-1]
            if x.get_id() in self.cache:
                stack.pop()
                continue
            todo = [c for c in x.children() if c.get_id() not in self.cache]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.keep.append(x)
            m = len(self.side)
            self.guard = None
            self.cache[x.get_id()] = self.conv(x)
            if self.guard is not None:
                self.guards[x.get_id()] = self.guard
            if len(self.side) > m:
                self.own[x.get_id()] = self.side[m:]
                del self.side[m:]
        return self.cache[i]

    def sort(self, s):
        if s.kind() == z3.Z3_BV_SORT:
            return z3.IntSort()
        if s.kind() == z3.Z3_ARRAY_SORT:
            return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        return s

    def wrap(self, v, lo, hi, w):
        """v has the exact integer value, within [lo, hi]; bring it into [0, 2^w)"""
        M = 1 << w
        if 0 <= lo and hi < M:
            return (v, lo, hi)
        if -M <= lo and hi < M:
            return (z3.If(v < 0, v + M, v), 0, M - 1)
        if 0 <= lo and hi < 2 * M:
            return (z3.If(v >= M, v - M, v), 0, M - 1)
        if -M <= lo and hi < 2 * M:
            return (z3.If(v < 0, v + M, z3.If(v >= M, v - M, v)), 0, M - 1)
        self.n += 1
        q = z3.Int('lia!q%d' % self.n)
        r = self.fresh(M)
        self.side.append(v == q * M + r)
        return (r, 0, M - 1)

    def signed(self, x, w):
        v, lo, hi = x
        H = 1 << (w - 1)
        if hi < H:
            return v
        if lo >= H:
            return v - (1 << w)
        return z3.If(v < H, v, v - (1 << w))

    def conv(self, x):
        if not z3.is_app(x):
            raise NotLinear('binder')
        k = x.decl().kind()
        ch = [self.cache[c.get_id()] for c in x.children()]
        if z3.is_bv(x):
            w = x.size()
            M = 1 << w
            if z3.is_bv_value(x):
                v = x.as_long()
                return (z3.IntVal(v), v, v)
            if k == z3.Z3_OP_UNINTERPRETED:
                if not ch:
                    v = z3.Int('i_' + x.decl().name())
                    lo, hi = self.ranges.get(x.decl().name(), (0, M - 1))
                    self.side.append(z3.And(v >= lo, v <= hi))
                    return (v, lo, hi)
                f = self.fun(x.decl())
                v = f(*[c[0] if isinstance(c, tuple) else c for c in ch])
                self.side.append(z3.And(v >= 0, v < M))
                return (v, 0, M - 1)
            if k == z3.Z3_OP_SELECT:
                v = z3.Select(ch[0], ch[1][0])
                self.side.append(z3.And(v >= 0, v < M))
                return (v, 0, M - 1)
            if k == z3.Z3_OP_ITE:
                c, a, b = ch
                return (z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]))
            if k == z3.Z3_OP_BADD:
                r = ch[0]
                for c in ch[1:]:
                    # a large constant is a subtraction
                    if c[1] == c[2] and c[1] > M // 2:
                        r = self.wrap(r[0] - (M - c[1]), r[1] - (M - c[1]), r[2] - (M - c[1]), w)
                    elif r[1] == r[2] and r[1] > M // 2:
                        r = self.wrap(c[0] - (M - r[1]), c[1] - (M - r[1]), c[2] - (M - r[1]), w)
                    else:
                        r = self.wrap(r[0] + c[0], r[1] + c[1], r[2] + c[2], w)
                return r
            if k == z3.Z3_OP_BSUB:
                r = ch[0]
                for c in ch[1:]:
                    r = self.wrap(r[0] - c[0], r[1] - c[2], r[2] - c[1], w)
                return r
            if k == z3.Z3_OP_BNEG:
                c = ch[0]
                return self.wrap(-c[0], -c[2], -c[1], w)
            if k == z3.Z3_OP_BMUL:
                r = ch[0]
                for c in ch[1:]:
                    if r[1] != r[2] and c[1] != c[2]:
                        r = self.product(r, c, w)
                        continue
                    a, b = (r, c) if r[1] == r[2] else (c, r)
                    kc = a[1] if a[1] <= M // 2 else a[1] - M
                    lo, hi = sorted((kc * b[1], kc * b[2]))
                    r = self.wrap(kc * b[0], lo, hi, w)
                return r
            if k == z3.Z3_OP_ZERO_EXT:
                return ch[0]
            if k == z3.Z3_OP_SIGN_EXT:
                w0 = x.children()[0].size()
                v, lo, hi = ch[0]
                if hi < (1 << (w0 - 1)):
                    return ch[0]
                return (z3.If(v < (1 << (w0 - 1)), v, v + (M - (1 << w0))), 0, M - 1)
            if k == z3.Z3_OP_CONCAT:
                v, lo, hi = ch[0]
                for c, cx in zip(ch[1:], x.children()[1:]):
                    s = 1 << cx.size()
                    v, lo, hi = v * s + c[0], lo * s + c[1], hi * s + c[2]
                return (v, lo, hi)
            if k == z3.Z3_OP_EXTRACT:
                h, l = x.params()
                return self.bits(ch[0], h, l)
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
                a, b = ch
                if b[1] != b[2] or b[1] == 0:
                    raise NotLinear('division')
                d = b[1]
                q = self.fresh(a[2] // d + 1)
                r = self.fresh(d)
                self.side.append(a[0] == q * d + r)
                return (q, 0, a[2] // d) if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else (r, 0, d - 1)
            if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
                # towards zero, divisor a positive constant
                a, b = ch
                H = 1 << (w - 1)
                if b[1] != b[2] or b[1] == 0 or b[1] >= H:
                    raise NotLinear('division')
                d = b[1]
                sv = self.signed(a, w)
                ab = z3.If(sv < 0, -sv, sv)
                q = self.fresh(H // d + 1)
                r = self.fresh(d)
                self.side.append(ab == q * d + r)
                o = q if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else r
                if a[2] < H:
                    return (o, 0, a[2] // d if o is q else d - 1)
                return (z3.If(z3.And(sv < 0, o != 0), M - o, o), 0, M - 1)
            if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT):
                return self.bitwise(k, ch, w)
            if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and ch[1][1] == ch[1][2]:
                s = ch[1][1]
                if s >= w:
                    return (z3.IntVal(0), 0, 0)
                if k == z3.Z3_OP_BSHL:
                    a = ch[0]
                    return self.wrap(a[0] * (1 << s), a[1] << s, a[2] << s, w)
                return self.bits(ch[0], w - 1, s)
            raise NotLinear(x.decl().name())
        if z3.is_array(x):
            if k == z3.Z3_OP_UNINTERPRETED and not ch:
                return z3.Const('i_' + x.decl().name(), self.sort(x.sort()))
            if k == z3.Z3_OP_STORE:
                return z3.Store(ch[0], ch[1][0], ch[2][0])
            if k == z3.Z3_OP_ITE:
                return z3.If(*ch)
            if k == z3.Z3_OP_CONST_ARRAY:
                return z3.K(z3.IntSort(), ch[0][0])
            raise NotLinear(x.decl().name())
        # booleans
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return x
            return self.fun(x.decl())(*[c[0] if isinstance(c, tuple) else c for c in ch])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            vs = [c[0] if isinstance(c, tuple) else c for c in ch]
            return vs[0] == vs[1] if k == z3.Z3_OP_EQ else z3.Distinct(*vs)
        cmpu = {z3.Z3_OP_ULT: lambda a, b: a < b, z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_UGT: lambda a, b: a > b, z3.Z3_OP_UGEQ: lambda a, b: a >= b}
        if k in cmpu:
            return cmpu[k](ch[0][0], ch[1][0])
        cmps = {z3.Z3_OP_SLT: lambda a, b: a < b, z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SGT: lambda a, b: a > b, z3.Z3_OP_SGEQ: lambda a, b: a >= b}
        if k in cmps:
            w = x.children()[0].size()
            return cmps[k](self.signed(ch[0], w), self.signed(ch[1], w))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_ITE, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_IFF):
            if k == z3.Z3_OP_AND: return z3.And(*ch)
            if k == z3.Z3_OP_OR: return z3.Or(*ch)
            if k == z3.Z3_OP_NOT: return z3.Not(ch[0])
            if k == z3.Z3_OP_IMPLIES: return z3.Implies(ch[0], ch[1])
            if k == z3.Z3_OP_XOR: return z3.Xor(ch[0], ch[1])
            if k == z3.Z3_OP_ITE: return z3.If(*ch)
            if k == z3.Z3_OP_TRUE: return z3.BoolVal(True)
            if k == z3.Z3_OP_FALSE: return z3.BoolVal(False)
            return ch[0] == ch[1]
        raise NotLinear(x.decl().name())

    def bits(self, a, h, l):
        v, lo, hi = a
        n = h - l + 1
        if l == 0:
            if hi < (1 << n):
                return a
            q = self.fresh((hi >> n) + 1)
            r = self.fresh(1 << n)
            self.side.append(v == q * (1 << n) + r)
            return (r, 0, (1 << n) - 1)
        r0 = self.fresh(1 << l)
        q0 = self.fresh((hi >> l) + 1)
        self.side.append(v == q0 * (1 << l) + r0)
        return self.bits((q0, 0, hi >> l), n - 1, 0)

    def bitwise(self, k, ch, w):
        M = 1 << w
        if k == z3.Z3_OP_BNOT:
            c = ch[0]
            return (M - 1 - c[0], M - 1 - c[2], M - 1 - c[1])
        if len(ch) != 2:
            raise NotLinear('bitwise')
        a, b = ch
        if a[1] == a[2]:
            a, b = b, a
        if k == z3.Z3_OP_BAND and b[1] == b[2] and (b[1] & (b[1] + 1)) == 0:
            return self.bits(a, b[1].bit_length() - 1, 0) if b[1] else (z3.IntVal(0), 0, 0)
        if a[2] <= 1 and b[2] <= 1:
            x, y = a[0] == 1, b[0] == 1
            f = {z3.Z3_OP_BAND: z3.And, z3.Z3_OP_BOR: z3.Or, z3.Z3_OP_BXOR: z3.Xor}[k](x, y)
            return (z3.If(f, z3.IntVal(1), z3.IntVal(0)), 0, 1)
        if w <= 8:
            small = z3.And(a[0] <= 1, b[0] <= 1)
            f = {z3.Z3_OP_BAND: z3.And, z3.Z3_OP_BOR: z3.Or, z3.Z3_OP_BXOR: z3.Xor}[k](a[0] == 1, b[0] == 1)
            self.note_guard(small)
            return (z3.If(small, z3.If(f, z3.IntVal(1), z3.IntVal(0)), self.fresh(M)), 0, M - 1)
        raise NotLinear('bitwise')

    def note_guard(self, g):
        self.guard = g if self.guard is None else z3.And(self.guard, g)

    def product(self, a, b, w):
        """exact when a factor is 0 or 1; otherwise some number of the right width (the guard tells)"""
        M = 1 << w
        x, y = a[0], b[0]
        self.note_guard(z3.Or(x <= 1, y <= 1))
        v = z3.If(y == 0, z3.IntVal(0), z3.If(y == 1, x, z3.If(x == 0, z3.IntVal(0), z3.If(x == 1, y, self.fresh(M)))))
        return (v, 0, M - 1)

    def fun(self, d):
        doms = [self.sort(d.domain(i)) for i in range(d.arity())]
        return z3.Function('i_' + d.name(), *(doms + [self.sort(d.range())]))
