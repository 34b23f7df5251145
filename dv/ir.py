"""Parser for the textual LLVM IR that clang emits from the real headers."""
import re, subprocess

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"])*")
 |(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#[0-9]+)
 |(?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[0-9A-Fa-f]+)
 |(?P<word>[a-zA-Z_.$][-a-zA-Z0-9_.$]*)
 |(?P<dots>\.\.\.)
 |(?P<punct>[][(){}<>,=*:|])
)''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('cannot tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


class Toks:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r got %r in %r' % (v, self.peek(), self.t))

    def end(self):
        return self.i >= len(self.t)


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
               'returned', 'inreg', 'immarg', 'nofree', 'nest', 'swiftself', 'inalloca', 'allocptr', 'dead_on_unwind', 'writable'}
PAREN_ATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'captures', 'range', 'memory', 'preallocated', 'nofpclass', 'initializes'}


def skip_attrs(t):
    info = {}
    while True:
        k, v = t.peek()
        if k == 'word' and v in PARAM_ATTRS:
            t.next()
            info[v] = True
        elif k == 'word' and v in PAREN_ATTRS:
            t.next()
            if t.accept('('):
                depth = 1
                if v in ('sret', 'byval'):
                    info[v] = parse_type(t)
                while depth:
                    x = t.next()[1]
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                    elif x is None:
                        raise IRError('attr paren')
            else:
                t.next()  # align N
        else:
            return info


def parse_type(t):
    k, v = t.next()
    if k == 'word':
        if v == 'ptr':
            if t.peek()[1] == 'addrspace':
                raise IRError('addrspace')
            ty = ('ptr',)
        elif re.fullmatch(r'i[0-9]+', v):
            ty = ('i', int(v[1:]))
        elif v in ('void', 'label', 'metadata', 'token', 'opaque'):
            ty = (v,)
        elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            ty = ('fp', v)
        else:
            raise IRError('type %r' % v)
    elif k == 'loc':
        ty = ('named', v[1:].strip('"'))
    elif v == '[':
        n = int(t.next()[1])
        if t.next()[1] != 'x':
            raise IRError('array')
        e = parse_type(t)
        t.expect(']')
        ty = ('arr', n, e)
    elif v == '{':
        fs = []
        if not t.accept('}'):
            while True:
                fs.append(parse_type(t))
                if t.accept('}'):
                    break
                t.expect(',')
        ty = ('struct', tuple(fs), False)
    elif v == '<':
        if t.peek()[1] == '{':
            t.next()
            fs = []
            if not t.accept('}'):
                while True:
                    fs.append(parse_type(t))
                    if t.accept('}'):
                        break
                    t.expect(',')
            t.expect('>')
            ty = ('struct', tuple(fs), True)
        else:
            n = int(t.next()[1])
            t.next()
            e = parse_type(t)
            t.expect('>')
            ty = ('vec', n, e)
    else:
        raise IRError('type %r' % (v,))
    # function type suffix
    while t.peek()[1] == '(' and ty[0] != 'label' and getattr(t, 'allow_fty', False):
        depth = 0
        while True:
            x = t.next()[1]
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
        ty = ('fn', ty)
    return ty


def parse_const_expr_or_val(t, ty):
    """value of known type -> ('local',n) ('glob',n) ('int',v) ('null',) ('undef',) ('zero',) ('agg',[(ty,val)..]) ('str',bytes) ('expr',op,...)"""
    k, v = t.next()
    if k == 'loc':
        return ('local', v[1:].strip('"'))
    if k == 'glob':
        return ('glob', v[1:].strip('"'))
    if k == 'num':
        if ty[0] == 'fp':
            return ('fp', v)
        if '.' in v:
            return ('fp', v)
        return ('int', int(v))
    if k == 'word':
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'getelementptr':
            flags = []
            while t.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                flags.append(t.next()[1])
            if t.peek()[1] == 'inrange':
                t.next(); t.expect('(')
                while not t.accept(')'):
                    t.next()
            t.expect('(')
            bty = parse_type(t)
            ops = []
            while t.accept(','):
                t.accept('inrange')
                oty = parse_type(t)
                ops.append((oty, parse_const_expr_or_val(t, oty)))
            t.expect(')')
            return ('expr', 'gep', bty, ops)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            t.expect('(')
            oty = parse_type(t)
            val = parse_const_expr_or_val(t, oty)
            if t.next()[1] != 'to':
                raise IRError('cast')
            dty = parse_type(t)
            t.expect(')')
            return ('expr', 'cast', v, oty, val, dty)
        raise IRError('const %r' % v)
    if k == 'str':
        s = v
        if s.startswith('c'):
            s = s[1:]
        s = s[1:-1]
        b = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                b += s[i].encode('latin-1', 'replace')
                i += 1
        return ('str', bytes(b))
    if v in ('{', '[') or (v == '<' and t.peek()[1] == '{'):
        close = {'{': '}', '[': ']', '<': '}'}[v]
        if v == '<':
            t.next()
        items = []
        if not t.accept(close):
            while True:
                ety = parse_type(t)
                items.append((ety, parse_const_expr_or_val(t, ety)))
                if t.accept(close):
                    break
                t.expect(',')
        if v == '<':
            t.expect('>')
        return ('agg', items)
    raise IRError('value %r %r' % (k, v))


def parse_typed(t):
    ty = parse_type(t)
    skip_attrs(t)
    return ty, parse_const_expr_or_val(t, ty)


class Instr:
    __slots__ = ('op', 'res', 'a', 'text', 'dbg')

    def __init__(self, op, res, a, text):
        self.op, self.res, self.a, self.text = op, res, a, text

    def __repr__(self):
        return self.text.strip()


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []   # (type, name, attrs)
        self.blocks = {}   # label -> [Instr]
        self.order = []
        self.ret = None
        self.text = []


class Module:
    def __init__(self):
        self.types, self.funcs, self.decls, self.globals, self.aliases = {}, {}, set(), {}, {}
        self.demangled = {}

    # ---- layout
    def size_align(self, ty):
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return p, min(p, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'fp':
            return {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}[ty[1]]
        if k == 'arr':
            s, a = self.size_align(ty[2])
            return s * ty[1], a
        if k == 'vec':
            s, a = self.size_align(ty[2])
            return s * ty[1], s * ty[1]
        if k == 'named':
            return self.size_align(self.types[ty[1]])
        if k == 'struct':
            off, al = 0, 1
            for f in ty[1]:
                s, a = self.size_align(f)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError('size of %r' % (ty,))

    def size(self, ty):
        return self.size_align(ty)[0]

    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.types[ty[1]]
        return ty

    def field_offset(self, ty, i):
        ty = self.resolve(ty)
        if ty[0] == 'struct':
            off = 0
            for j, f in enumerate(ty[1]):
                s, a = self.size_align(f)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a
                if j == i:
                    return off, f
                off += s
        raise IRError('field %r %r' % (ty, i))


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'}
ORD = {'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst', 'unordered'}


def parse_call(t, res, text, op):
    while t.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'nnan', 'ninf', 'nsz', 'fast', 'contract', 'arcp', 'reassoc', 'afn') or t.peek()[1] in PARAM_ATTRS or t.peek()[1] in PAREN_ATTRS:
        if t.peek()[1] in PARAM_ATTRS or t.peek()[1] in PAREN_ATTRS:
            skip_attrs(t)
        else:
            t.next()
    ty = parse_type(t)
    if t.peek()[1] == '(' and t.peek()[0] == 'punct':
        # function type given explicitly
        depth = 0
        while True:
            x = t.next()[1]
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
    if t.peek() == ('word', 'asm'):
        return Instr('asm', res, (ty,), text)
    callee = parse_const_expr_or_val(t, ('ptr',))
    t.expect('(')
    args = []
    if not t.accept(')'):
        while True:
            aty = parse_type(t)
            if aty[0] == 'metadata':
                depth = 0
                while not (depth == 0 and t.peek()[1] in (',', ')')):
                    x = t.next()[1]
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                args.append((aty, ('undef',)))
            else:
                skip_attrs(t)
                args.append((aty, parse_const_expr_or_val(t, aty)))
            if t.accept(')'):
                break
            t.expect(',')
    return Instr(op, res, (ty, callee, args), text)


def parse_instr(line):
    t = Toks(tokenize(line))
    res = None
    if t.peek()[0] == 'loc' and t.peek(1)[1] == '=':
        res = t.next()[1][1:].strip('"')
        t.next()
    op = t.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = t.next()[1]
    if op in BINOPS:
        flags = set()
        while t.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint'):
            flags.add(t.next()[1])
        ty = parse_type(t)
        a = parse_const_expr_or_val(t, ty)
        t.expect(',')
        b = parse_const_expr_or_val(t, ty)
        return Instr('bin', res, (op, flags, ty, a, b), line)
    if op in CASTS:
        while t.peek()[1] in ('nneg', 'nuw', 'nsw'):
            t.next()
        ty = parse_type(t)
        a = parse_const_expr_or_val(t, ty)
        if t.next()[1] != 'to':
            raise IRError(line)
        return Instr('cast', res, (op, ty, a, parse_type(t)), line)
    if op == 'alloca':
        t.accept('inalloca')
        ty = parse_type(t)
        n = None
        while t.accept(','):
            if t.peek()[1] == 'align':
                t.next(); t.next()
            elif t.peek()[0] == 'meta':
                break
            else:
                n = parse_typed(t)
        return Instr('alloca', res, (ty, n), line)
    if op == 'load':
        atomic = t.accept('atomic')
        t.accept('volatile')
        ty = parse_type(t)
        t.expect(',')
        pty = parse_type(t)
        p = parse_const_expr_or_val(t, pty)
        return Instr('load', res, (ty, p, atomic), line)
    if op == 'store':
        atomic = t.accept('atomic')
        t.accept('volatile')
        ty = parse_type(t)
        v = parse_const_expr_or_val(t, ty)
        t.expect(',')
        pty = parse_type(t)
        p = parse_const_expr_or_val(t, pty)
        return Instr('store', None, (ty, v, p, atomic), line)
    if op == 'getelementptr':
        while t.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            t.next()
        bty = parse_type(t)
        ops = []
        while t.accept(','):
            if t.peek()[0] == 'meta':
                break
            ops.append(parse_typed(t))
        return Instr('gep', res, (bty, ops), line)
    if op == 'icmp':
        t.accept('samesign')
        pred = t.next()[1]
        ty = parse_type(t)
        a = parse_const_expr_or_val(t, ty)
        t.expect(',')
        b = parse_const_expr_or_val(t, ty)
        return Instr('icmp', res, (pred, ty, a, b), line)
    if op == 'br':
        if t.peek()[1] == 'label':
            t.next()
            return Instr('br', None, (None, t.next()[1][1:].strip('"')), line)
        ty = parse_type(t)
        c = parse_const_expr_or_val(t, ty)
        t.expect(','); t.expect('label')
        a = t.next()[1][1:].strip('"')
        t.expect(','); t.expect('label')
        b = t.next()[1][1:].strip('"')
        return Instr('br', None, (c, a, b), line)
    if op == 'switch':
        ty = parse_type(t)
        c = parse_const_expr_or_val(t, ty)
        t.expect(','); t.expect('label')
        d = t.next()[1][1:].strip('"')
        t.expect('[')
        cases = []
        while not t.accept(']'):
            cty = parse_type(t)
            cv = parse_const_expr_or_val(t, cty)
            t.expect(','); t.expect('label')
            cases.append((cv[1], t.next()[1][1:].strip('"')))
        return Instr('switch', None, (ty, c, d, cases), line)
    if op == 'ret':
        if t.peek()[1] == 'void':
            return Instr('ret', None, None, line)
        return Instr('ret', None, parse_typed(t), line)
    if op in ('call', 'invoke'):
        ins = parse_call(t, res, line, 'call')
        if op == 'invoke':
            while t.peek()[1] != 'to':
                t.next()
            t.next(); t.expect('label')
            nd = t.next()[1][1:].strip('"')
            ins.op = 'invoke'
            ins.a = ins.a + (nd,)
        return ins
    if op == 'phi':
        while t.peek()[1] in ('nnan', 'ninf', 'fast'):
            t.next()
        ty = parse_type(t)
        inc = []
        while True:
            t.expect('[')
            v = parse_const_expr_or_val(t, ty)
            t.expect(',')
            inc.append((v, t.next()[1][1:].strip('"')))
            t.expect(']')
            if not t.accept(','):
                break
            if t.peek()[0] == 'meta':
                break
        return Instr('phi', res, (ty, inc), line)
    if op == 'select':
        cty, c = parse_typed(t)
        t.expect(',')
        aty, a = parse_typed(t)
        t.expect(',')
        bty, b = parse_typed(t)
        return Instr('select', res, (c, aty, a, b), line)
    if op == 'extractvalue':
        ty, v = parse_typed(t)
        idx = []
        while t.accept(','):
            if t.peek()[0] == 'meta':
                break
            idx.append(int(t.next()[1]))
        return Instr('extractvalue', res, (ty, v, idx), line)
    if op == 'insertvalue':
        ty, v = parse_typed(t)
        t.expect(',')
        ety, e = parse_typed(t)
        idx = []
        while t.accept(','):
            if t.peek()[0] == 'meta':
                break
            idx.append(int(t.next()[1]))
        return Instr('insertvalue', res, (ty, v, ety, e, idx), line)
    if op == 'cmpxchg':
        t.accept('weak'); t.accept('volatile')
        pty, p = parse_typed(t)
        t.expect(',')
        ty, c = parse_typed(t)
        t.expect(',')
        ty2, n = parse_typed(t)
        return Instr('cmpxchg', res, (ty, p, c, n), line)
    if op == 'atomicrmw':
        t.accept('volatile')
        o = t.next()[1]
        pty, p = parse_typed(t)
        t.expect(',')
        ty, v = parse_typed(t)
        return Instr('atomicrmw', res, (o, ty, p, v), line)
    if op == 'freeze':
        ty, v = parse_typed(t)
        return Instr('freeze', res, (ty, v), line)
    if op in ('fence', 'unreachable', 'resume', 'landingpad'):
        return Instr(op, res, (), line)
    if op in ('fadd', 'fmul', 'fdiv', 'fsub', 'fcmp', 'fneg', 'frem', 'va_arg', 'extractelement', 'insertelement', 'shufflevector', 'cleanup', 'catch', 'filter'):
        return Instr('unsupported', res, (op,), line)
    raise IRError('instruction: %s' % line)


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            name, body = l.split(' = type ', 1)
            name = name[1:].strip('"')
            if body.strip() == 'opaque':
                m.types[name] = ('struct', (), False)
            else:
                m.types[name] = parse_type(Toks(tokenize(body)))
        elif l.startswith('@'):
            mm = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
            name, body = mm.group(1).strip('"'), mm.group(2)
            if re.search(r'\balias\b', body.split('(')[0] if '(' in body else body):
                tgt = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', body)[-1].strip('"')
                m.aliases[name] = tgt
            else:
                mm = re.search(r'\b(global|constant)\b (.*)$', body)
                if mm:
                    ext = re.search(r'\bexternal\b|\bextern_weak\b', body[:mm.start()]) is not None
                    try:
                        t = Toks(tokenize(mm.group(2)))
                        ty = parse_type(t)
                        init = None
                        if not ext and not t.end() and t.peek()[1] != ',':
                            init = parse_const_expr_or_val(t, ty)
                        m.globals[name] = (ty, init, mm.group(1) == 'constant')
                    except IRError:
                        m.globals[name] = (None, None, False)
        elif l.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
            m.decls.add(mm.group(1).strip('"'))
        elif l.startswith('define'):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
            f = Function(mm.group(1).strip('"'))
            t = Toks(tokenize(l[mm.end() - 1:]))
            t.expect('(')
            if not t.accept(')'):
                while True:
                    if t.accept('...'):
                        t.expect(')')
                        break
                    ty = parse_type(t)
                    at = skip_attrs(t)
                    nm = t.next()[1][1:].strip('"')
                    f.params.append((ty, nm, at))
                    if t.accept(')'):
                        break
                    t.expect(',')
            f.attrs_line = l
            i += 1
            cur = None
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            f.text = body
            f.body_lines = body
            m.funcs[f.name] = f
        i += 1
    names = list(m.funcs) + list(m.decls) + list(m.aliases)
    out = subprocess.run(['c++filt'], input='\n'.join(names), text=True, capture_output=True).stdout.split('\n')
    m.demangled = dict(zip(names, out))
    m.by_demangled = {}
    for n, d in m.demangled.items():
        m.by_demangled.setdefault(d, n)
    return m


def parse_body(f):
    """lazily parse the blocks of a function"""
    if f.order:
        return f
    cur = None
    body = f.body_lines
    j = 0
    first = True
    while j < len(body):
        l = body[j]
        if not l.strip() or l.lstrip().startswith(';'):
            j += 1
            continue
        mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
        if mm:
            cur = mm.group(1).strip('"')
            f.blocks[cur] = []
            f.order.append(cur)
            j += 1
            continue
        if cur is None:
            # implicit entry label: number of params
            cur = '%d' % sum(1 for p in f.params if p[1].isdigit())
            f.blocks[cur] = []
            f.order.append(cur)
        s = l
        if 'switch ' in s and '[' in s and ']' not in s:
            while ']' not in body[j]:
                j += 1
                s += ' ' + body[j]
        elif re.match(r'\s*(%\S+ = )?invoke ', s) and ' unwind ' not in s:
            j += 1
            s += ' ' + body[j]
        elif re.match(r'\s*(%\S+ = )?landingpad ', s):
            while j + 1 < len(body) and re.match(r'\s+(cleanup|catch|filter)', body[j + 1]):
                j += 1
        s = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', s)
        f.blocks[cur].append(parse_instr(s))
        j += 1
    return f
