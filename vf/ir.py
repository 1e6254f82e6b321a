"""Parser for the textual LLVM IR that rustc + opt produce for the crate under verification.

Types:   ('i',n) ('f',32|64) ('ptr',) ('vec',n,t) ('arr',n,t) ('st',[t..],packed) ('void',) ('label',) ('meta',)
Operands: ('reg',name) ('int',ty,v) ('null',) ('undef',ty) ('zero',ty) ('agg',ty,[ops]) ('glob',name)
          ('ce',opcode,ty,[ops],extra) ('fn',name)
"""
import re

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*") |
 (?P<reg>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
 (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
 (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*)) |
 (?P<attr>\#[0-9]+) |
 (?P<hex>0x[HKLMR]?[0-9A-Fa-f]+) |
 (?P<num>-?[0-9]+(?:\.[0-9]+)?(?:e[-+]?[0-9]+)?) |
 (?P<word>[a-zA-Z$._][-a-zA-Z$._0-9]*) |
 (?P<p>\.\.\.|[<>{}\[\](),=*:])
)''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '':
                break
            raise IRError('cannot tokenize: %r' % s[i:i + 60])
        k = m.lastgroup
        v = m.group(k)
        if k in ('reg', 'glob'):
            v = v[1:]
            if v.startswith('"'):
                v = v[1:-1]
        out.append((k, v))
        i = m.end()
    return out


class Instr:
    __slots__ = ('res', 'op', 'ty', 'a', 'x', 'text')

    def __init__(self, res, op, ty, a, x, text):
        self.res, self.op, self.ty, self.a, self.x, self.text = res, op, ty, a, x, text


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (ty, name, attrs)
        self.ret = None
        self.blocks = {}      # name -> [Instr]
        self.order = []
        self.attrs = None
        self.entry = None
        self.declared_only = False


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (ty, init operand or None, is_const)
        self.funcs = {}
        self.attrgroups = {}  # '#n' -> text
        self.pending = {}     # tokens of the type definitions not read yet

    def define_type(self, nm):
        p = P(self.pending.pop(nm), self)
        p.next(); p.expect('='); p.expect('type')
        self.types[nm] = ('opaque', nm) if p.peek()[1] == 'opaque' else p.type()


PARAM_ATTRS = {'noalias', 'nonnull', 'readonly', 'readnone', 'writeonly', 'nocapture', 'zeroext', 'signext', 'noundef', 'inreg',
               'returned', 'immarg', 'nofree', 'nosync', 'swiftself', 'writable', 'dead_on_unwind', 'inalloca', 'nest'}
FNWORDS = {'private', 'internal', 'external', 'linkonce_odr', 'weak', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'hidden',
           'protected', 'fastcc', 'ccc', 'coldcc', 'nonlazybind', 'weak_odr', 'linkonce', 'available_externally', 'common', 'appending',
           'thread_local', 'extern_weak', 'default'}


def size_align(ty):
    """(size, align) in bytes under the x86-64 data layout"""
    k = ty[0]
    if k == 'i':
        n = ty[1]
        b = max(1, (n + 7) // 8)
        p = 1
        while p < b:
            p *= 2
        if n == 128:
            return 16, 16
        return p, min(p, 8)
    if k == 'f':
        return ty[1] // 8, ty[1] // 8
    if k == 'ptr':
        return 8, 8
    if k == 'vec':
        es = size_align(ty[2])[0]
        if ty[2] == ('i', 1):
            b = (ty[1] + 7) // 8
            return b, b
        b = es * ty[1]
        p = 1
        while p < b:
            p *= 2
        return p, p
    if k == 'arr':
        s, a = size_align(ty[2])
        return s * ty[1], a
    if k == 'st':
        off = 0
        al = 1
        for t in ty[1]:
            s, a = size_align(t)
            if ty[2]:
                a = 1
            al = max(al, a)
            off = (off + a - 1) // a * a + s
        return (off + al - 1) // al * al, al
    raise IRError('size of %r' % (ty,))


def field_offset(ty, i):
    off = 0
    for j, t in enumerate(ty[1]):
        s, a = size_align(t)
        if ty[2]:
            a = 1
        off = (off + a - 1) // a * a
        if j == i:
            return off
        off += s
    raise IRError('field')


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def isv(self, v):
        return self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] in ('p', 'word')

    def accept(self, v):
        if self.isv(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r at %r' % (v, self.t[self.i:self.i + 8]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                return ('i', int(v[1:]))
            if v == 'float':
                return ('f', 32)
            if v == 'double':
                return ('f', 64)
            if v == 'ptr':
                if self.isv('addrspace'):
                    self.i += 4
                return ('ptr',)
            if v == 'void':
                return ('void',)
            if v == 'label':
                return ('label',)
            if v == 'metadata':
                return ('meta',)
            raise IRError('type %s' % v)
        if k == 'reg':
            if v in self.m.pending:
                self.m.define_type(v)
            if v not in self.m.types:
                return ('opaque', v)
            return self.m.types[v]
        if v == '<':
            if self.isv('{'):
                self.next()
                ts = self.typelist('}')
                self.expect('>')
                return ('st', ts, True)
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if v == '{':
            return ('st', self.typelist('}'), False)
        raise IRError('type %r' % v)

    def typelist(self, end):
        ts = []
        if self.accept(end):
            return ts
        while True:
            ts.append(self.type())
            if self.accept(end):
                return ts
            self.expect(',')

    def istype(self):
        k, v = self.peek()
        if k == 'word':
            return v in ('float', 'double', 'ptr', 'void', 'label', 'metadata') or (v[0] == 'i' and v[1:].isdigit())
        if k == 'reg':
            return v in self.m.types
        return v in ('<', '[', '{')

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'allocsize', 'initializes', 'captures'):
                self.next()
                if v == 'align' and not self.isv('('):
                    self.next()
                    continue
                if self.accept('('):
                    d = 1
                    while d:
                        q = self.next()[1]
                        if q == '(':
                            d += 1
                        elif q == ')':
                            d -= 1
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return

    def value(self, ty):
        k, v = self.next()
        if k == 'reg':
            return ('reg', v)
        if k == 'glob':
            return ('glob', v)
        if k == 'num':
            if ty[0] == 'f':
                import struct
                f = float(v)
                if ty[1] == 32:
                    return ('int', ty, struct.unpack('<I', struct.pack('<f', f))[0])
                return ('int', ty, struct.unpack('<Q', struct.pack('<d', f))[0])
            return ('int', ty, int(v) & ((1 << ty[1]) - 1))
        if k == 'hex':
            bits = int(v, 16)
            if ty == ('f', 32):
                import struct
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                if d != d:
                    # NaN: move the payload by hand
                    s = bits >> 63
                    mant = (bits >> 29) & 0x7fffff
                    b = (s << 31) | (0xff << 23) | mant
                else:
                    try:
                        b = struct.unpack('<I', struct.pack('<f', d))[0]
                    except OverflowError:
                        b = 0x7f800000 | ((bits >> 63) << 31)
                return ('int', ty, b)
            return ('int', ty, bits)
        if k == 'str':
            if v.startswith('c"'):
                bs = []
                s = v[2:-1]
                i = 0
                while i < len(s):
                    if s[i] == '\\' and s[i + 1] == '\\':
                        bs.append(92)
                        i += 2
                    elif s[i] == '\\':
                        bs.append(int(s[i + 1:i + 3], 16))
                        i += 3
                    else:
                        bs.append(ord(s[i]))
                        i += 1
                return ('agg', ty, [('int', ('i', 8), b) for b in bs])
        if k == 'word':
            if v in ('true', 'false'):
                return ('int', ty, 1 if v == 'true' else 0)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'null':
                return ('null',)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'none':
                return ('null',)
            if v == 'getelementptr':
                while self.isv('inbounds') or self.isv('nuw') or self.isv('nusw'):
                    self.next()
                if self.isv('inrange'):
                    self.next()
                self.expect('(')
                bt = self.type()
                ops = []
                while self.accept(','):
                    while self.isv('inrange'):
                        self.next()
                    t = self.type()
                    ops.append((t, self.value(t)))
                self.expect(')')
                return ('ce', 'gep', ('ptr',), ops, bt)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type()
                o = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ce', v, t2, [(t, o)], None)
            if v in ('sub', 'add', 'xor'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                t = self.type(); a = self.value(t)
                self.expect(',')
                t = self.type(); b = self.value(t)
                self.expect(')')
                return ('ce', v, t, [(t, a), (t, b)], None)
            if v == 'splat':
                self.expect('(')
                t = self.type(); a = self.value(t)
                self.expect(')')
                return ('agg', ty, [a] * ty[1])
            if v in ('metadata',):
                pass
        if v == '<' and self.isv('{'):
            self.next()
            ops = self.opslist('}')
            self.expect('>')
            return ('agg', ty, ops)
        if v == '<':
            return ('agg', ty, self.opslist('>'))
        if v == '[':
            return ('agg', ty, self.opslist(']'))
        if v == '{':
            return ('agg', ty, self.opslist('}'))
        if k == 'meta':
            # metadata operand: skip the rest
            return ('undef', ty)
        raise IRError('value %r %r' % (k, v))

    def opslist(self, end):
        ops = []
        if self.accept(end):
            return ops
        while True:
            t = self.type()
            ops.append(self.value(t))
            if self.accept(end):
                return ops
            self.expect(',')

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign', 'nusw'}


def parse_instr(line, mod):
    p = P(tokenize(line), mod)
    res = None
    if p.peek()[0] == 'reg' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    flags = set()
    while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
        flags.add(p.next()[1])
    if op in BINOPS:
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(res, op, t, [a, b], flags, line)
    if op == 'fneg' or op == 'freeze':
        t = p.type()
        return Instr(res, op, t, [p.value(t)], None, line)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(res, op, t, [a, b], pred, line)
    if op in CASTS:
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Instr(res, op, t2, [a], (t, flags), line)
    if op == 'alloca':
        if p.isv('inalloca'):
            p.next()
        t = p.type()
        n = None
        if p.accept(',') and p.istype():
            nt = p.type()
            n = p.value(nt)
        return Instr(res, op, t, [] if n is None else [n], None, line)
    if op == 'load':
        if p.isv('volatile'):
            p.next()
        t = p.type()
        p.expect(',')
        pt, v = p.tv()
        return Instr(res, op, t, [v], None, line)
    if op == 'store':
        if p.isv('volatile'):
            p.next()
        t, v = p.tv()
        p.expect(',')
        pt, q = p.tv()
        return Instr(None, op, t, [v, q], None, line)
    if op == 'getelementptr':
        bt = p.type()
        p.expect(',')
        pt, b = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            t = p.type()
            idx.append((t, p.value(t)))
        return Instr(res, 'gep', bt, [b], (idx, 'inbounds' in flags), line)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
        return Instr(res, op, t, [], inc, line)
    if op == 'select':
        ct, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        t, b = p.tv()
        return Instr(res, op, t, [c, a, b], ct, line)
    if op in ('call', 'invoke'):
        while p.peek()[0] == 'word' and p.peek()[1] in FNWORDS:
            p.next()
        p.skip_attrs()
        while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        if p.isv('('):   # function type
            d = 0
            while True:
                q = p.next()[1]
                if q == '(':
                    d += 1
                elif q == ')':
                    d -= 1
                    if d == 0:
                        break
        if p.peek()[1] == 'asm':
            raise IRError('inline asm')
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            p.skip_attrs()
            if at == ('meta',):
                # skip to , or ) at depth 0
                d = 0
                while not (d == 0 and (p.isv(',') or p.isv(')'))):
                    q = p.next()[1]
                    if q == '(':
                        d += 1
                    elif q == ')':
                        d -= 1
                args.append((at, ('undef', at)))
            else:
                args.append((at, p.value(at)))
            p.accept(',')
        x = {'callee': callee, 'args': args}
        if op == 'invoke':
            # to label %a unwind label %b
            while not p.isv('to'):
                p.next()
            p.next(); p.next()
            x['normal'] = p.next()[1]
        return Instr(res, op, t, [], x, line)
    if op == 'br':
        if p.isv('label'):
            p.next()
            return Instr(None, 'br', None, [], [p.next()[1]], line)
        t = p.type()
        c = p.value(t)
        p.expect(','); p.expect('label'); a = p.next()[1]
        p.expect(','); p.expect('label'); b = p.next()[1]
        return Instr(None, 'condbr', None, [c], [a, b], line)
    if op == 'switch':
        t = p.type()
        c = p.value(t)
        p.expect(','); p.expect('label'); d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); cv = p.value(ct)
            p.expect(','); p.expect('label')
            cases.append((cv[2], p.next()[1]))
        return Instr(None, 'switch', t, [c], (d, cases), line)
    if op == 'ret':
        t = p.type()
        if t == ('void',):
            return Instr(None, 'ret', t, [], None, line)
        return Instr(None, 'ret', t, [p.value(t)], None, line)
    if op == 'unreachable':
        return Instr(None, op, None, [], None, line)
    if op == 'extractvalue':
        t, v = p.tv()
        ix = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            ix.append(int(p.next()[1]))
        return Instr(res, op, t, [v], ix, line)
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        t2, e = p.tv()
        ix = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            ix.append(int(p.next()[1]))
        return Instr(res, op, t, [v, e], ix, line)
    if op == 'extractelement':
        t, v = p.tv()
        p.expect(',')
        ti, i = p.tv()
        return Instr(res, op, t, [v, i], ti, line)
    if op == 'insertelement':
        t, v = p.tv()
        p.expect(',')
        te, e = p.tv()
        p.expect(',')
        ti, i = p.tv()
        return Instr(res, op, t, [v, e, i], ti, line)
    if op == 'shufflevector':
        t, a = p.tv()
        p.expect(',')
        t, b = p.tv()
        p.expect(',')
        tm, m = p.tv()
        return Instr(res, op, t, [a, b, m], tm, line)
    if op in ('landingpad', 'resume', 'cleanuppad', 'fence', 'atomicrmw', 'cmpxchg', 'va_arg', 'indirectbr'):
        return Instr(res, 'unsupported', None, [], op, line)
    raise IRError('opcode %s: %s' % (op, line))


LBL = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')


def parse_header(line, mod, decl):
    body = line[len('declare' if decl else 'define'):]
    p = P(tokenize(body), mod)
    while p.peek()[0] == 'word' and p.peek()[1] in FNWORDS:
        p.next()
    p.skip_attrs()
    while p.peek()[0] == 'word' and p.peek()[1] in FNWORDS:
        p.next()
    ret = p.type()
    name = p.next()[1]
    f = Function(name)
    f.ret = ret
    p.expect('(')
    n = 0
    while not p.accept(')'):
        if p.accept('...'):
            continue
        t = p.type()
        p.skip_attrs()
        nm = str(n)
        if p.peek()[0] == 'reg':
            nm = p.next()[1]
        f.params.append((t, nm))
        n += 1
        p.accept(',')
    rest = p.t[p.i:]
    f.attrs = [v for k, v in rest if k == 'attr']
    return f


def parse_module(text, want=None):
    """want: iterable of function names to parse bodies of lazily (None: all). Bodies are parsed on demand."""
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    glines = []
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            t = tokenize(ln)
            mod.pending[t[0][1]] = t
    for nm in list(mod.pending):
        if nm in mod.pending:
            mod.define_type(nm)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            pass
        elif ln.startswith('@'):
            glines.append(ln)
        elif ln.startswith('declare'):
            f = parse_header(ln, mod, True)
            f.declared_only = True
            mod.funcs[f.name] = f
        elif ln.startswith('define'):
            hdr = ln
            j = i + 1
            while lines[j] != '}':
                j += 1
            h = hdr.rstrip()
            assert h.endswith('{'), h
            h = h[:-1]
            h = re.sub(r'personality ptr @\S+', '', h)
            f = parse_header(h, mod, False)
            f.raw = lines[i + 1:j]
            mod.funcs[f.name] = f
            i = j
        elif ln.startswith('attributes'):
            m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
            mod.attrgroups[m.group(1)] = m.group(2)
        i += 1
    for ln in glines:
        p = P(tokenize(ln), mod)
        nm = p.next()[1]
        p.expect('=')
        const = False
        while True:
            k, v = p.peek()
            if k == 'word' and v in FNWORDS:
                p.next()
            elif k == 'word' and v in ('constant', 'global'):
                const = v == 'constant'
                p.next()
                break
            elif k == 'word' and v == 'alias':
                break
            elif k == 'p' and v == '(' or k == 'word':
                p.next()
            else:
                p.next()
        t = p.type()
        init = None
        if p.peek()[0] is not None and not p.isv(','):
            init = p.value(t)
        mod.globals[nm] = (t, init, const)
    return mod


def body(f, mod):
    """parse the body of f on first use"""
    if f.order or f.declared_only:
        return f
    cur = None
    raw = f.raw
    # join multi-line switch instructions
    out = []
    k = 0
    while k < len(raw):
        ln = raw[k]
        if ln.lstrip().startswith('switch') and ']' not in ln:
            parts = [ln]
            while ']' not in raw[k]:
                k += 1
                parts.append(raw[k])
            ln = ' '.join(parts)
        out.append(ln)
        k += 1
    for ln in out:
        s = ln.strip()
        if not s or s.startswith(';'):
            continue
        m = LBL.match(ln)
        if m and not ln.startswith(' '):
            nm = m.group(1)
            if nm.startswith('"'):
                nm = nm[1:-1]
            cur = nm
            f.blocks[cur] = []
            f.order.append(cur)
            if f.entry is None:
                f.entry = cur
            continue
        if cur is None:
            # unnamed entry block: number = count of unnamed params
            cur = str(sum(1 for t, n_ in f.params if n_.isdigit()))
            f.blocks[cur] = []
            f.order.append(cur)
            f.entry = cur
        # strip trailing comment
        if ';' in s:
            s = re.sub(r'\s;[^"]*$', '', s)
        f.blocks[cur].append(parse_instr(s, mod))
    lower_switches(f)
    return f


def lower_switches(f):
    """switch -> chain of icmp/condbr (phi predecessors renamed accordingly)"""
    edges = []
    order = []
    for b in f.order:
        order.append(b)
        t = f.blocks[b][-1]
        if t.op != 'switch':
            continue
        d, cases = t.x
        cases = [(v, l) for v, l in cases if l != d]
        if not cases:
            f.blocks[b][-1] = Instr(None, 'br', None, [], [d], t.text)
            continue
        preds = {}
        cur = b
        blk = f.blocks[b]
        blk.pop()
        for k, (v, l) in enumerate(cases):
            r = '%s.sw%d' % (b, k)
            blk.append(Instr(r, 'icmp', t.ty, [t.a[0], ('int', t.ty, v)], 'eq', t.text))
            nxt = d if k == len(cases) - 1 else '%s.sw%d' % (b, k + 1)
            blk.append(Instr(None, 'condbr', None, [('reg', r)], [l, nxt], t.text))
            preds.setdefault(l, []).append(cur)
            if nxt == d:
                preds.setdefault(d, []).append(cur)
            else:
                cur = nxt
                blk = f.blocks[cur] = []
                order.append(cur)
        edges.append((b, preds))
    f.order[:] = order
    for b, preds in edges:
        for l, ps in preds.items():
            for I in f.blocks[l]:
                if I.op != 'phi':
                    break
                v = [x for x, q in I.x if q == b]
                if v:
                    I.x[:] = [(x, q) for x, q in I.x if q != b] + [(v[0], q) for q in ps]


def feats(f, mod):
    out = set()
    for a in f.attrs or []:
        t = mod.attrgroups.get(a, '')
        m = re.search(r'"target-features"="([^"]*)"', t)
        if m:
            for x in m.group(1).split(','):
                if x.startswith('+'):
                    out.add(x[1:])
    return out


# ------------------------------------------------------------------ identity of code up to renaming
_TOK = re.compile(r'^.*@llvm\.experimental\.noalias\.scope\.decl.*$|!\d+|%("[^"]*"|[\w.$-]+)|@("[^"]*"|[\w.$-]+)| #\d+|, ![\w.]+ !\d+|^("[^"]*"|[\w.$-]+):|;.*$', re.M)


def digest(mod, name, stack=()):
    """hash of a function's text with local names, and the names of the functions and constants it uses, replaced by
    their content: two functions with the same digest have the same behaviour"""
    import hashlib
    memo = mod.__dict__.setdefault('_digests', {})
    if name in memo:
        return memo[name]
    f = mod.funcs[name]
    if f.declared_only:
        return 'extern ' + name
    loc = {}

    def unq(s):
        return s[1:-1] if s.startswith('"') else s

    def rep(m):
        l, g, lab = m.group(1), m.group(2), m.group(3)
        if l is not None:
            l = unq(l)
            if l in mod.types:
                return '%' + repr(mod.types[l])
            return '%%v%d' % loc.setdefault(l, len(loc))
        if lab is not None:
            return '%%v%d:' % loc.setdefault(unq(lab), len(loc))
        if g is not None:
            g = unq(g)
            if g in mod.funcs:
                return '@self' if g == name else '@rec' + str(stack.index(g)) if g in stack else '@' + digest(mod, g, stack + (name,))
            if g in mod.globals:
                return '@' + gdigest(mod, g, ())
            return '@' + g
        return ''
    sig = repr([(a[0] if isinstance(a, tuple) else repr(a)) for a in getattr(f, 'params', [])])
    for a in getattr(f, 'params', []):
        n = a[1] if isinstance(a, tuple) and len(a) > 1 else None
        if isinstance(n, str):
            loc.setdefault(n, len(loc))
    text = sig + '\n' + _TOK.sub(rep, '\n'.join(f.raw))
    h = ('X86' if '@X86' in text or 'llvm.x86' in text else '') + hashlib.sha256(text.encode()).hexdigest()[:20]
    if not stack:
        memo[name] = h
    return h


def gdigest(mod, g, stack):
    import hashlib
    t, init, const = mod.globals[g]
    r = repr((t, init, const))
    for m in sorted(set(re.findall(r"'([^']+)'", r))):
        if m in mod.globals and m != g and m not in stack:
            r += gdigest(mod, m, stack + (g,))
        elif m in mod.funcs:
            r += m
    return hashlib.sha256(r.encode()).hexdigest()[:20]
