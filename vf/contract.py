"""Contracts of functions over slices: one specification text, used symbolically by the verifier and concretely on the
compiled code when a failed obligation is replayed."""
import ctypes
import mmap
import random
import time
import z3
from . import x86, native, norm
from .bv import *
from .sym import Exec, Violation, Budget, CReg, SReg, PathDead, assemble

MAXBYTES = (1 << 63) - 1
CT = {8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}
ELW = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'f32': 32, 'u64': 64, 'i64': 64, 'f64': 64}


class S:           # scalar argument
    def __init__(self, name, w=64, ty='usize', ghost=False, derive=None):
        self.name, self.w, self.ty = name, w, ty
        self.ghost = ghost        # not an argument of the function, only of its contract
        self.derive = derive      # value as a function of the scalars before it


class Sl:          # pointer to the first element of a slice of `ln` elements
    def __init__(self, name, el, ln, rw=False, maxlen=None):
        self.name, self.el, self.w, self.sz, self.ln, self.rw, self.maxlen = name, el, ELW[el], ELW[el] // 8, ln, rw, maxlen
        self.ty = '*%s %s' % ('mut' if rw else 'const', el)


class Ve:          # pointer to one vector
    def __init__(self, name, el, n, ty=None):
        self.name, self.el, self.w, self.n = name, el, ELW[el], n
        self.ty = '*const ' + (ty or '%sx%d' % (el, n))


class Ou:          # pointer to an output buffer of n lanes of w bits
    def __init__(self, name, w, n, ty):
        self.name, self.w, self.n, self.ty = name, w, n, '*mut ' + ty


class Con:
    def __init__(self, prop, fn, name, cpu, args, body, post, pre=None, gen=None, panics=None, cases=None, mode='do', ret=None, small=40, cost=1, module='it',
                 note=None, retries=300, extra='', dedup=None):
        self.prop, self.fn, self.name, self.cpu, self.args, self.body = prop, fn, name, cpu, args, body
        self.post, self.pre, self.gen, self.panics, self.mode, self.ret, self.small, self.cost = post, pre, gen, panics, mode, ret, small, cost
        self.cases = cases or [{}]
        self.module = module
        self.extra = extra
        self.dedup = dedup
        self.retries = retries

    def source(self):
        return '#[no_mangle] pub unsafe extern "C" fn %s(%s)%s{%s}\n' % (
            self.name, ','.join('%s:%s' % (a.name, a.ty) for a in self.args if not ghost(a)), ' -> %s' % self.ret if self.ret else '', self.body)


def ghost(a):
    return isinstance(a, S) and a.ghost


class Fail(Exception):
    pass


class SymCtx:
    """the specification's view of a symbolic run"""
    sym = True

    def __init__(self, ex, con, case):
        self.ex, self.con, self.case = ex, con, case
        self.s, self.rel = {}, {}         # rel: outputs counted from what earlier steps left
        self.ret = None
        self.arg = {a.name: a for a in con.args}

    def elem(self, name, idx):
        a = self.arg[name]
        r = self.orig[name]
        idx = bv(idx, 64) if not isint(idx) else idx
        o = mul(idx, a.sz, 64)
        return concat([(r.init_byte(simp(add(o, i, 64))), 8) for i in range(a.sz)])

    def cur(self, name, idx):
        a = self.arg[name]
        return self.ex.rd(self.ex.mem[name], simp(mul(idx, a.sz, 64)), a.sz)

    def vec(self, name):
        return self.vecs[name]

    def out(self, name, i=0):
        a = self.arg[name]
        r = self.ex.mem[name]
        v = assemble(r.getbytes(i * a.w // 8, a.w // 8))
        if v is POISON:
            raise Violation('uninitialised-result', 'post:%s[%d]' % (name, i), self.ex.small_model() if self.ex.check() == z3.sat else None)
        return sub(v, self.rel[name, i], a.w) if (name, i) in self.rel else v

    def split(self, e):
        return self.ex.choose_int(e, 64)

    def when(self, c):
        return self.ex.decide(c)

    def req(self, c, label):
        if isint(c):
            if c:
                self.ex.ok('post:' + label, 'syntactic')
                return
        self.ex.require(c, 'post', label)

    def eq(self, got, want, w, label):
        e = eq(got, want, w)
        if not isint(e):
            s = z3.simplify(e)
            if z3.is_true(s):
                self.ex.ok('post:' + label, 'simplify')
                return
        self.req(e, label)


class NatCtx:
    sym = False

    def __init__(self, con, case, inp, res):
        self.con, self.case, self.inp = con, case, inp
        self.s = {a.name: inp[a.name] for a in con.args if isinstance(a, S)}
        self.rel = {}
        self.arg = {a.name: a for a in con.args}
        self.res = res
        self.ret = res['ret'] if res else None

    def elem(self, name, idx):
        l = self.inp[name]
        return l[idx] if 0 <= idx < len(l) else 0

    def cur(self, name, idx):
        return self.res['slices'][name][idx]

    def vec(self, name):
        return self.inp[name]

    def out(self, name, i=0):
        v = self.res['outs'][name][i]
        return sub(v, self.rel[name, i], self.arg[name].w) if (name, i) in self.rel else v

    def split(self, e):
        return e

    def when(self, c):
        return bool(c)

    def req(self, c, label):
        if not isint(c):
            c = back(z3.simplify(c))
        if isint(c) and not c:
            raise Fail(label)

    def eq(self, got, want, w, label):
        if not eq(got, want, w):
            raise Fail('%s: got %#x, expected %#x' % (label, got, want))


class Job:
    def __init__(self, con, case, hooks=None):
        self.con, self.case = con, case
        self.modkey = (con.cpu, con.mode, con.module)
        self.fn = '%s@%s' % (con.fn, con.cpu)
        self.label = '%s%s@%s' % (con.name, ''.join('[%s=%s]' % kv for kv in sorted(case.items())), con.cpu)
        self.cost = con.cost
        self.mkhooks = hooks
        self.symbol = con.name
        self.dedup = (con.dedup, repr(sorted(case.items())), con.mode) if con.dedup is not None else None

    def rename(self, viol):
        return viol

    # ------------------------------------------------------------------ symbolic
    def run(self, mods, tier):
        con = self.con
        ex = Exec(mods[self.modkey], con.name, mods['feats', con.cpu], merge=True, timeout_ms=60000 if tier == 'quick' else 300000, x86=x86.TABLE,
                  max_steps=20000000, max_paths=20000)
        t0 = time.time()
        ex.deadline = t0 + (420 if tier == 'quick' else 1500)
        box = {}
        res = {'label': self.label, 'status': 'proved', 'viol': None}
        if self.mkhooks:
            ex.hooks = self.mkhooks(self, ex, box)

        def setup(ex):
            c = box['c'] = SymCtx(ex, con, self.case)
            c.vecs, c.orig = {}, {}
            args = []
            ex.small = []
            for a in con.args:
                if isinstance(a, S):
                    if a.name in self.case:
                        v = self.case[a.name]
                    elif a.derive:
                        v = simp(a.derive(c.s))
                    else:
                        v = z3.BitVec(a.name, a.w)
                        if a.w == 64:
                            ex.small.append(z3.ULE(v, bv(con.small, 64)))
                    c.s[a.name] = v
            for a in con.args:
                if isinstance(a, S):
                    args.append(c.s[a.name])
                elif isinstance(a, Sl):
                    n = c.s[a.ln]
                    if not isint(n):
                        ex.assume(z3.ULE(n, bv(MAXBYTES // a.sz if a.maxlen is None else a.maxlen, 64)))
                    r = SReg(a.name, simp(mul(n, a.sz, 64)), a.sz, True, ro=not a.rw)
                    ex.mem[a.name] = r
                    c.orig[a.name] = r.clone()
                    args.append(Ptr(a.name, 0))
                elif isinstance(a, Ve):
                    r = CReg(a.name, a.n * a.w // 8, 64, ro=True)
                    ls = [z3.BitVec('%s_%d' % (a.name, i), a.w) for i in range(a.n)]
                    for i, l in enumerate(ls):
                        r.put(i * a.w // 8, l, a.w // 8)
                    ex.mem[a.name] = r
                    c.vecs[a.name] = ls
                    args.append(Ptr(a.name, 0))
                else:
                    ex.mem[a.name] = CReg(a.name, a.n * a.w // 8, 64)
                    args.append(Ptr(a.name, 0))
            if con.pre:
                for p in con.pre(c):
                    ex.assume(p)
            for k in c.s:
                c.s[k] = simp(ex.sb(c.s[k]))
            args = [('fn', a.name) if getattr(a, 'fnptr', 0) else c.s[a.name] if isinstance(a, S) else v for a, v in zip(con.args, args) if not ghost(a)]
            if ex.npaths == 1:
                ex.covered = ex.check() == z3.sat
            return args

        def post(ex, r):
            c = box['c']
            if r[0] == 'panic':
                if ex.check() == z3.unsat:
                    raise PathDead()
                if con.panics == 'may':
                    ex.ok('panic allowed', 'fold')
                    return
                if con.panics is None:
                    raise Violation('no-panic', ex.site(), ex.small_model(), r[1][:80])
                ex.require(con.panics(c), 'panics-only-when-required', 'post', r[1][:60])
                return
            if con.panics is not None and con.panics != 'may':
                p = con.panics(c)
                ex.require(not_(p), 'must-panic', 'post')
            c.ret = r[1]
            con.post(c)
        try:
            vs = ex.run(setup, post)
            if vs:
                v = vs[0]
                res['status'] = 'violated'
                res['viol'] = {'kind': v.kind, 'site': v.site, 'detail': v.detail, 'inputs': self.inputs(v.model)}
            elif not getattr(ex, 'covered', False) or not [p for p in ex.paths if p != 'dead']:
                res['status'] = 'vacuous'
        except Unsup as e:
            res['status'], res['why'] = 'unsupported', 'unsupported construct: %s' % e
        except Budget as e:
            res['status'], res['why'] = 'budget', 'resource limit: %s' % e
        res['obl'] = {k: (v[0], v[1]) for k, v in ex.obl.items()}
        res.update(steps=ex.steps, paths=ex.npaths, queries=ex.queries, qtime=ex.qtime, time=time.time() - t0, intrin=sorted(ex.intrins), called=sorted(ex.called))
        return res

    def inputs(self, m):
        if m is None:
            return None
        out = {}
        for a in self.con.args:
            if isinstance(a, S):
                out[a.name] = self.case[a.name] if a.name in self.case else a.derive(out) & M(a.w) if a.derive else m.eval(z3.BitVec(a.name, a.w), model_completion=True).as_long()
        for a in self.con.args:
            if isinstance(a, Ve):
                out[a.name] = [m.eval(z3.BitVec('%s_%d' % (a.name, i), a.w), model_completion=True).as_long() for i in range(a.n)]
            elif isinstance(a, Sl):
                n = out[a.ln]
                if n > 4096:
                    out[a.name] = None
                    continue
                f = z3.Function('B_' + a.name, z3.BitVecSort(64), z3.BitVecSort(8))
                b = bytes(m.eval(f(z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(n * a.sz))
                out[a.name] = [int.from_bytes(b[i * a.sz:(i + 1) * a.sz], 'little') for i in range(n)]
        return out

    # ------------------------------------------------------------------ concrete
    def thunk(self, so, inp, at_end=True):
        con = self.con

        def f():
            lib = ctypes.CDLL(so)
            fn = getattr(lib, con.name)
            args, keep, slices, outs = [], [], {}, {}
            for a in con.args:
                if ghost(a):
                    continue
                if isinstance(a, S):
                    args.append(CT[a.w](inp[a.name]))
                elif isinstance(a, Sl):
                    data = inp[a.name]
                    nb = len(data) * a.sz
                    p, k = guarded(nb, at_end)
                    keep.append(k)
                    raw = b''.join(x.to_bytes(a.sz, 'little') for x in data)
                    ctypes.memmove(p, raw, nb)
                    slices[a.name] = (p, nb, a.sz)
                    args.append(ctypes.c_void_p(p))
                elif isinstance(a, Ve):
                    b = aligned(CT[a.w] * a.n, inp[a.name], keep)
                    args.append(ctypes.c_void_p(ctypes.addressof(b)))
                else:
                    b = aligned(CT[a.w] * a.n, [0xA5A5A5A5A5A5A5A5 & M(a.w)] * a.n, keep)
                    outs[a.name] = b
                    args.append(ctypes.c_void_p(ctypes.addressof(b)))
            fn.restype = ctypes.c_uint64 if con.ret else None
            r = fn(*args)
            res = {'ret': r, 'outs': {k: list(b) for k, b in outs.items()}, 'slices': {}}
            for k, (p, nb, sz) in slices.items():
                raw = ctypes.string_at(p, nb)
                res['slices'][k] = [int.from_bytes(raw[i:i + sz], 'little') for i in range(0, nb, sz)]
            return res
        return f

    def admissible(self, inp):
        for a in self.con.args:
            if isinstance(a, Sl) and (inp[a.name] is None or len(inp[a.name]) != inp[a.ln]):
                return False
        if self.con.pre:
            c = NatCtx(self.con, self.case, inp, None)
            for p in self.con.pre(c):
                if not isint(p):
                    p = back(z3.simplify(p))
                if not isint(p) or not p:
                    return False
        return True

    def judge(self, inp, r):
        """None when the run satisfies the contract"""
        con = self.con
        c = NatCtx(con, self.case, inp, r[1] if r[0] == 'ok' else None)
        must = bool(con.panics(c)) if con.panics and con.panics != 'may' else False
        if r[0] == 'died':
            if (must or con.panics == 'may') and r[1] in (6, 4):
                return None
            return 'process killed by signal %s (%s)' % (r[1], {6: 'panic/abort', 4: 'panic/abort', 11: 'illegal memory access', 7: 'illegal memory access', 14: 'did not terminate'}.get(r[1], '?'))
        if r[0] != 'ok':
            return None
        if must:
            return 'returned instead of panicking'
        try:
            con.post(c)
        except Fail as e:
            return str(e)
        return None

    def random_inputs(self, rnd):
        con = self.con
        inp = dict(self.case)
        g = con.gen(rnd, self.case) if con.gen else {}
        for a in con.args:
            if isinstance(a, S) and a.name not in inp:
                inp[a.name] = a.derive(inp) & M(a.w) if a.derive else g[a.name] if a.name in g else rnd.randrange(con.small)
        for a in con.args:
            if isinstance(a, Sl):
                inp[a.name] = g[a.name] if a.name in g else [rnd.getrandbits(a.w) for _ in range(inp[a.ln])]
            elif isinstance(a, Ve):
                inp[a.name] = [rnd.getrandbits(a.w) for _ in range(a.n)]
        return inp

    def confirm(self, res, env, seed, tier, tries=None):
        so = env.native(self.modkey)
        rnd = random.Random('%d%s' % (seed, self.label))
        tries = tries or self.con.retries
        cands = []
        if res.get('viol') and res['viol'].get('inputs'):
            cands.append(res['viol']['inputs'])
        while len(cands) < tries:
            cands.append(self.random_inputs(rnd))
        cands = [c for c in cands if self.admissible(c)]
        runs = [(c, e) for c in cands for e in (True, False)]
        for k in range(0, len(runs), 100):
            part = runs[k:k + 100]
            for (inp, e), r in zip(part, native.batch([self.thunk(so, i, e) for i, e in part])):
                d = self.judge(inp, r)
                if d:
                    return {'function': self.con.source(), 'inputs': inp, 'observed': d, 'cpu': self.con.cpu,
                            'library': 'compiled with -C target-cpu=%s, mode %s (d: debug assertions, o: overflow checks)' % (self.con.cpu, self.con.mode)}
        return None


def aligned(ty, vals, keep):
    raw = ctypes.create_string_buffer(ctypes.sizeof(ty) + 64)
    keep.append(raw)
    b = ty.from_buffer(raw, -ctypes.addressof(raw) % 64)
    b[:] = vals
    return b


def guarded(nb, at_end):
    """address of nb bytes that end (or start) at an inaccessible page"""
    pg = 4096
    n = (nb + pg - 1) // pg or 1
    m = mmap.mmap(-1, (n + 2) * pg)
    base = ctypes.addressof(ctypes.c_char.from_buffer(m))
    libc = ctypes.CDLL(None, use_errno=True)
    libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
    libc.mprotect(base, pg, 0)
    libc.mprotect(base + (n + 1) * pg, pg, 0)
    return (base + (n + 1) * pg - nb if at_end else base + pg), m
