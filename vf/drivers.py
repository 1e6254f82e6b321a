"""Contracts of the drivers (C02-C04): loops over an arbitrary iterator and an arbitrary function. The iterator and the
function are opaque: the code calls them through pointers, and the verifier answers every call from their contracts, over
a ghost sequence of N full vectors and a tail of R elements. The loops are cut at their headers with an invariant: the
templates for it are read off the first iterations, and proved for an arbitrary iteration."""
import ctypes
import random
import z3
from . import build, ir, native
from .bv import *
from .contract import S, Sl, Ve, Ou, Con, Job, ELW, CT, Fail, aligned, guarded, MAXBYTES
from .iters import PRELUDE, ELS, W, vec, SliceArg
from .sym import Exec, Violation, PathDead, SReg, CReg, MergeAbort, succs, assemble

B64 = z3.BitVecSort(64)
UF = {n: z3.Function(n, B64, z3.BitVecSort(w)) for n, w in (('VEC', 8), ('VEC2', 8), ('OUT', 8), ('ACC', 64))}


class Fn(S):
    """a pointer to an opaque function"""
    fnptr = True

    def __init__(self, name, ty):
        S.__init__(self, name, 64, ty)


# ------------------------------------------------------------------ loops
def indirect(mod, f, seen=None):
    """may calling f call through a pointer?"""
    seen = set() if seen is None else seen
    r = getattr(f, 'indirect', None)
    if r is not None:
        return r
    if f.name in seen or f.declared_only:
        return False
    seen.add(f.name)
    ir.body(f, mod)
    r = False
    for b in f.blocks:
        r = r or calls_out(mod, f, b, seen)
    f.indirect = r
    return r


def calls_out(mod, f, b, seen=None):
    for I in f.blocks[b]:
        if I.op == 'call':
            c = I.x['callee']
            if c[0] != 'glob':
                return True
            g = mod.funcs.get(c[1])
            if g is not None and not c[1].startswith('llvm.') and indirect(mod, g, seen):
                return True
    return False


def headers(mod, f):
    """headers of the innermost loops of f which call through a pointer"""
    h = getattr(f, 'cuts', None)
    if h is not None:
        return h
    nodes = list(f.order)
    pred = {b: [] for b in nodes}
    for b in nodes:
        for s in succs(f, b):
            pred[s].append(b)
    dom = {b: set(nodes) for b in nodes}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in nodes:
            if b == f.entry or not pred[b]:
                continue
            s = set.intersection(*[dom[p] for p in pred[b]]) | {b}
            if s != dom[b]:
                dom[b] = s
                ch = True
    loops = {}
    for b in nodes:
        for s in succs(f, b):
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += pred[x]
    out = {h: l for h, l in loops.items() if any(calls_out(mod, f, b) for b in l)}
    f.cuts = {h for h, l in out.items() if not any(h2 != h and h2 in l for h2 in out)}
    return f.cuts


def shift(e, d, strides, memo):
    """e with the sequences looked up d places further"""
    if type(e) is int or e is POISON:
        return e
    k = e.get_id()
    if k in memo:
        return memo[k]
    if z3.is_app(e) and e.num_args():
        ch = [shift(x, d, strides, memo) for x in e.children()]
        n = e.decl().name()
        if n in strides and z3.eq(e.decl(), UF[n]):
            r = UF[n](bv(simp(add(e.arg(0), mul(d, strides[n], 64), 64)), 64))
        else:
            r = e.decl()(*ch)
    else:
        r = e
    memo[k] = r
    return r


class Inv:
    """the invariant of one loop: how every part of the state depends on the number t of iterations"""

    def __init__(self, strides):
        self.parts = {}          # key -> (kind, ...)
        self.strides = strides
        self.step = {}
        self.bufs = []

    def learn(self, key, vs, w):
        self.parts[key] = self.tmpl(vs, w)

    def tmpl(self, vs, w):
        a, b, c = vs
        if isinstance(b, (list, tuple)) and not isinstance(b, Ptr) and not (len(b) == 2 and isinstance(b[0], str)):
            if not isinstance(a, (list, tuple)):
                a = [POISON] * len(b)
            return ('list', [self.tmpl((x, y, z), w) for x, y, z in zip(a, b, c)])
        if same(a, b) and same(b, c):
            return ('same',)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(c, Ptr) and a.r == b.r == c.r:
            return ('ptr', self.tmpl((a.o, b.o, c.o), 64))
        if isinstance(b, (Ptr, tuple)):
            return ('same',) if same(b, c) and same(a, b) else ('havoc',)
        if not isinstance(a, (Ptr, tuple)) and a is not POISON and w and b is not POISON and c is not POISON:
            d1, d2 = simp(sub(b, a, w)), simp(sub(c, b, w))
            if type(d1) is int and d1 == d2:
                return ('lin', d1)
        if b is not POISON and same(simp(shift(b, 1, self.strides, {})), simp(c)):
            return ('def', b)
        return ('havoc',)

    def at(self, part, v0, t, ex, w, fresh):
        """the value after t >= 1 iterations; fresh: an unknown value where nothing is claimed"""
        k = part[0]
        if k == 'same':
            return v0
        if k == 'list':
            v0 = v0 if isinstance(v0, (list, tuple)) else [POISON] * len(part[1])
            return [self.at(p, x, t, ex, w, fresh) for p, x in zip(part[1], v0)]
        if k == 'ptr':
            return Ptr(v0.r, self.at(part[1], v0.o, t, ex, 64, fresh))
        if k == 'lin':
            return simp(add(v0, mul(part[1], t, w), w))
        if k == 'def':
            return simp(shift(part[1], simp(sub(t, 1, 64)), self.strides, {}))
        return fresh(w)

    def agrees(self, part, v0, t, v, ex, w):
        """list of conditions for v to be the value after t iterations"""
        k = part[0]
        if k == 'list':
            v0 = v0 if isinstance(v0, (list, tuple)) else [POISON] * len(part[1])
            if not isinstance(v, (list, tuple)):
                return [False]
            out = []
            for p, x, y in zip(part[1], v0, v):
                out += self.agrees(p, x, t, y, ex, w)
            return out
        if k == 'havoc':
            return []
        if k == 'ptr':
            return self.agrees(part[1], v0.o, t, v.o, ex, 64) if isinstance(v, Ptr) and v.r == v0.r else [False]
        want = self.at(part, v0, t, ex, w, None)
        if same(want, v):
            return []
        if isinstance(v, (Ptr, tuple)) or isinstance(want, (Ptr, tuple)) or v is POISON or want is POISON:
            if isinstance(v, Ptr) and isinstance(want, Ptr) and v.r == want.r:
                return [eq(v.o, want.o, 64)]
            return [False]
        return [eq(want, v, w)]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r == b.r and same(a.o, b.o)
    if type(a) is int or type(b) is int or a is POISON or b is POISON or isinstance(a, (Ptr, tuple)) or isinstance(b, (Ptr, tuple)):
        return type(a) is type(b) and a == b
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a.eq(b) if a.sort() == b.sort() else False


def width(ty):
    return ty[1] if ty[0] in 'if' else width(ty[2]) if ty[0] in ('vec', 'arr') else 64 if ty[0] == 'ptr' else None


def cells(r):
    """{(offset, length): value}"""
    out = {}
    for o in sorted(r.cells):
        v, n, k = r.cells[o]
        if k == 0 and all(r.cells.get(o + i, (None,))[0] is v and r.cells[o + i][2] == i for i in range(n)):
            out[o, n] = v
        elif not any(p < o < p + m for p, m in list(out)[-1:]):
            if isinstance(v, (Ptr, tuple)):
                continue
            out[o, 1] = v if v is POISON else extract(v, 8 * k + 7, 8 * k, 8 * n)
    return out


class Buf(SReg):
    """a region of which the bytes [base, base + bytes) have been set from a sequence by the loop"""

    def over(ex, orig, base, nbytes, uf):
        r = Buf.__new__(Buf)
        r.__dict__.update(orig.__dict__)
        r.log = []
        r.ex, r.orig, r.at0, r.nbytes, r.uf = ex, orig, base, nbytes, uf
        return r

    def clone(self):
        r = Buf.__new__(Buf)
        r.__dict__.update(self.__dict__)
        r.log = list(self.log)
        return r

    def init_byte(self, off):
        d = simp(sub(off, self.at0, 64))
        x = simp(sub(d, self.nbytes, 64))
        if type(x) is int:
            inside = sgn(x, 64) < 0          # offsets in use stay below 2^63
        else:
            inside = self.ex.decide(ult(d, self.nbytes, 64))
        if inside:
            return UF[self.uf](bv(d, 64))
        return self.ex.rd(self.orig, off, 1)


class Loops:
    """hooks of one run: phase 'look' reads the templates off three iterations, phase 'prove' uses and proves them"""

    def __init__(self, job, phase, invs):
        self.job, self.phase, self.invs = job, phase, invs
        self.weaken = job.weaken

    def state(self, ex, f, env, blk):
        st = {}
        for I in f.blocks[blk]:
            if I.op != 'phi':
                break
            st['phi', I.res] = env[I.res]
        for nm, r in ex.mem.items():
            if r.ro:
                continue
            if r.kind == 'c':
                for k, v in cells(r).items():
                    st[('mem', nm) + k] = v
        for g, v in ex.ghost.items():
            if g in self.job.counters:
                st['ghost', g] = v
        return st

    def block(self, ex, f, env, blk, prev):
        if blk not in headers(ex.mod, f):
            return None
        key = (f.name, blk)
        L = ex.ghost.setdefault('loops', {}).setdefault(key, {'n': 0})
        if ex.inmerge:
            raise MergeAbort()
        L['n'] += 1
        if self.phase == 'look':
            L.setdefault('seen', []).append((self.state(ex, f, env, blk), {nm: len(r.log) for nm, r in ex.mem.items() if r.kind == 's'}, set(ex.mem)))
            if L['n'] == 3:
                self.find(ex, f, blk, key, L['seen'])
                raise PathDead()
            return None
        inv = self.invs.get(key)
        if inv is None:
            return None
        if L['n'] == 1:
            self.cut(ex, f, env, blk, L, inv)
        else:
            self.back(ex, f, env, blk, L, inv)
        return None

    def widths(self, f, blk):
        w = {}
        for I in f.blocks[blk]:
            if I.op != 'phi':
                break
            w['phi', I.res] = width(I.ty)
        return w

    def find(self, ex, f, blk, key, seen):
        if key in self.invs:
            return
        inv = Inv(self.job.strides)
        (s0, l0, m0), (s1, l1, _), (s2, l2, _) = seen
        ws = self.widths(f, blk)
        inv.w = {}
        for k, v in s1.items():
            w = ws.get(k, 64) if k[0] == 'phi' else 8 * k[3] if k[0] == 'mem' else 64
            inv.w[k] = w
            if k[0] == 'mem' and k[1] not in m0:
                continue
            inv.learn(k, (s0.get(k, POISON), v, s2.get(k, POISON)), w)
            if (key, k) in self.weaken:
                inv.parts[k] = ('havoc',)
        inv.bufs = [nm for nm in l0 if l1.get(nm) != l0[nm]]
        self.invs[key] = inv

    def cut(self, ex, f, env, blk, L, inv):
        L['s0'] = self.state(ex, f, env, blk)
        L['logs'] = {nm: r.clone() for nm, r in ex.mem.items() if r.kind == 's'}
        L['regs'] = set(ex.mem)
        t = z3.BitVec('iterations_%s' % len(ex.ghost['loops']), 64)
        L['t'] = t
        ex.assume(z3.ULE(t, bv(1 << 62, 64)))
        if ex.decide(eq(t, 0, 64)):
            L['t'] = 0
            self.job.arrived(ex)
        else:
            nf = [0]

            def fresh(w):
                nf[0] += 1
                return z3.BitVec('any_%s_%d' % (len(ex.ghost['loops']), nf[0]), w) if w else POISON
            for k, p in inv.parts.items():
                v0 = L['s0'].get(k, POISON)
                if k[0] == 'phi':
                    env[k[1]] = inv.at(p, v0, t, ex, inv.w[k], fresh)
                elif k[0] == 'ghost':
                    ex.ghost[k[1]] = inv.at(p, v0, t, ex, 64, fresh)
                elif k[1] in ex.mem:
                    r = ex.mem[k[1]]
                    if p[0] == 'same':
                        continue
                    if p[0] == 'havoc':
                        for i in range(k[3]):
                            r.cells.pop(k[2] + i, None)
                    else:
                        r.put(k[2], inv.at(p, v0, t, ex, inv.w[k], fresh), k[3])
            self.job.bound(ex)
            for nm in inv.bufs:
                base, cnt, uf, unit = self.job.buffer(ex, nm)
                r = ex.mem[nm]
                ex.mem[nm] = Buf.over(ex, r, base, simp(mul(ex.ghost[cnt], unit, 64)), uf)
                # part of the invariant: every byte set so far was inside the region
                ex.assume(ule(add(base, mul(ex.ghost[cnt], unit, 64), 64), r.size, 64))
        L['g0'] = {g: ex.ghost[g] for g in self.job.counters}
        L['cur'] = {nm: len(r.log) for nm, r in ex.mem.items() if r.kind == 's'}

    def back(self, ex, f, env, blk, L, inv):
        t1 = simp(add(L['t'], 1, 64))
        now = self.state(ex, f, env, blk)
        key = (f.name, blk)
        prog = [ult(L['g0'][g], ex.ghost[g], 64) for g in self.job.counters]
        ex.require(lor(*prog), 'loop-progress', detail='no vector was taken in an iteration')
        for k, p in inv.parts.items():
            if k[0] == 'mem' and k[1] not in L['regs']:
                continue
            for c in inv.agrees(p, L['s0'].get(k, POISON), t1, now.get(k, POISON), ex, inv.w[k]):
                ok = True
                if c is False:
                    ok = False
                elif not isint(c):
                    c = zs(ex.sb(c))
                    ok = z3.is_true(c) or ex.known(c) is True or ex.check(z3.Not(c)) == z3.unsat
                else:
                    ok = bool(c)
                if not ok:
                    if k[0] == 'ghost':
                        raise Violation('loop-invariant', '%s %s' % (f.name, k), ex.small_model() if ex.check() == z3.sat else None)
                    self.weaken.add((key, k))
                    self.job.again = True
                    break
                ex.ok('loop-invariant:%s/%s:%s' % (f.name, blk, k), 'z3')
        for k in now:
            if k[0] == 'mem' and k[1] in L['regs'] and k not in inv.parts and not same(now[k], L['s0'].get(k, POISON)):
                raise Unsup('loop changes %s in a way the first iterations do not' % (k,))
        for nm, r in ex.mem.items():
            if r.kind != 's' or nm not in L['regs']:
                continue
            new = r.log[L['cur'][nm]:]
            if nm not in inv.bufs:
                if new:
                    raise Unsup('loop writes to %s' % nm)
                continue
            base, cnt, uf, unit = self.job.buffer(ex, nm)
            k0, k1 = L['g0'][cnt], ex.ghost[cnt]
            n = simp(mul(sub(k1, k0, 64), unit, 64))
            if type(n) is not int:
                raise Unsup('number of vectors in an iteration')
            start = simp(add(base, mul(k0, unit, 64), 64))
            ex.require(ule(add(start, n, 64), r.size, 64), 'loop-invariant', detail='the bytes set so far are inside the region')
            for wo, wv, wn in new:
                d = simp(ex.sb(sub(wo, start, 64)))
                ex.require(ule(d, n - wn, 64) if n >= wn else 0, 'loop-frame', detail='write outside the bytes of this iteration')
            for i in range(n):
                v = ex.rd(r, simp(add(start, i, 64)), 1)
                if v is POISON:
                    raise Violation('loop-fills-buffer', '%s byte %d' % (nm, i), ex.small_model() if ex.check() == z3.sat else None)
                ex.require(eq(v, UF[uf](bv(simp(add(mul(k0, unit, 64), i, 64)), 64)), 8), 'loop-fills-buffer', detail='byte %d' % i)
        raise PathDead()


class DJob(Job):
    def __init__(self, con, case):
        Job.__init__(self, con, case)
        self.weaken = set()
        self.counters, self.strides = con.counters, con.strides

    def buffer(self, ex, nm):
        return self.con.buffer(self, ex, nm)

    def bound(self, ex):
        """what the counters satisfy, as part of the invariant: they follow from how the opaque functions answer"""
        self.con.bound(self, ex)

    def arrived(self, ex):
        self.con.arrived(ex)

    def run(self, mods, tier):
        con = self.con
        first = None
        for attempt in range(4):
            invs = {}
            self.again = False
            L = Loops(self, 'look', invs)
            post, con.phase = con.post, 'look'
            con.post = lambda c: None
            self.mkhooks = lambda job, ex, box: con.hooks(self, ex, box, L)
            r = Job.run(self, mods, tier)
            con.post = post
            if r['status'] not in ('proved', 'vacuous'):
                return self.merge(first, r)
            con.phase = 'prove'
            P = Loops(self, 'prove', invs)
            self.mkhooks = lambda job, ex, box: con.hooks(self, ex, box, P)
            r = Job.run(self, mods, tier)
            first = self.merge(first, r)
            if not self.again:
                break
        else:
            if first['status'] == 'proved':
                first['status'], first['why'] = 'unsupported', 'no loop invariant found'
        return first

    def merge(self, a, b):
        if a:
            for k in ('steps', 'paths', 'queries', 'qtime', 'time'):
                b[k] += a[k]
        return b

    def inputs(self, m):
        if m is None:
            return None
        inp = {}
        for a in self.con.args:
            if isinstance(a, S) and not isinstance(a, Fn):
                inp[a.name] = self.case[a.name] if a.name in self.case else a.derive(inp) & M(a.w) if a.derive else m.eval(z3.BitVec(a.name, a.w), model_completion=True).as_long()
        return self.fill(inp, random.Random(1))

    def fill(self, inp, rnd):
        return self.con.fill(inp, rnd)

    def random_inputs(self, rnd):
        return self.fill(self.con.gen(rnd, self.case), rnd)

    def admissible(self, inp):
        return inp is not None

    def thunk(self, so, inp, at_end=True):
        return lambda: self.con.native(ctypes.CDLL(so), inp, at_end)

    def judge(self, inp, r):
        if r[0] == 'died':
            if self.con.mustpanic(inp) and r[1] in (6, 4):
                return None
            return 'process killed by signal %s (%s)' % (r[1], {6: 'panic/abort', 4: 'panic/abort', 11: 'illegal memory access', 7: 'illegal memory access', 14: 'did not terminate'}.get(r[1], '?'))
        if r[0] != 'ok':
            return None
        if self.con.mustpanic(inp):
            return 'returned instead of panicking'
        return self.con.oracle(inp, r[1])


# ------------------------------------------------------------------ the opaque iterator
OPITER = '''
struct Op<V:Packed>{nx:extern "C" fn(*mut V)->u64,en:extern "C" fn(*mut V,*mut usize)->u64,ln:usize,sl:usize,sp:usize,d:V}
impl<V:Packed> SIMDObject for Op<V>{type Scalar=V::Scalar;type Vector=V;#[inline(always)]fn width(&self)->usize{V::WIDTH}}
impl<V:Packed> SIMDSized for Op<V>{#[inline(always)]fn scalar_len(&self)->usize{self.sl}}
impl<V:Packed> ExactSizeIterator for Op<V>{#[inline(always)]fn len(&self)->usize{self.ln}}
impl<V:Packed> Iterator for Op<V>{type Item=V;#[inline(always)]fn next(&mut self)->Option<V>{let mut v=self.d;if (self.nx)(&mut v)!=0{self.sp+=V::WIDTH;Some(v)}else{None}}
#[inline(always)]fn size_hint(&self)->(usize,Option<usize>){(self.ln,Some(self.ln))}}
impl<V:Packed> SIMDIterable for Op<V>{#[inline(always)]fn scalar_pos(&self)->usize{self.sp}#[inline(always)]fn advance(&mut self,n:usize){self.sp+=n}#[inline(always)]fn default(&self)->V{self.d}}
impl<V:Packed> SIMDIterator for Op<V>{#[inline(always)]fn end(&mut self)->Option<(V,usize)>{let mut v=self.d;let mut n=0usize;if (self.en)(&mut v,&mut n)!=0{self.sp=self.sl;Some((v,n))}else{None}}}
struct Zop<V:Packed,U:Packed>{nx:extern "C" fn(*mut V,*mut U)->u64,en:extern "C" fn(*mut V,*mut U,*mut usize)->u64,ln:usize,sl:usize,sp:usize,d:V,e:U}
impl<V:Packed,U:Packed> SIMDZippedObject for Zop<V,U>{type Scalars=(V::Scalar,U::Scalar);type Vectors=(V,U);#[inline(always)]fn width(&self)->usize{V::WIDTH}#[inline(always)]fn size(&self)->usize{<V::Scalar as Packable>::SIZE}}
impl<V:Packed,U:Packed> ExactSizeIterator for Zop<V,U>{#[inline(always)]fn len(&self)->usize{self.ln}}
impl<V:Packed,U:Packed> Iterator for Zop<V,U>{type Item=(V,U);#[inline(always)]fn next(&mut self)->Option<(V,U)>{let mut v=self.d;let mut u=self.e;if (self.nx)(&mut v,&mut u)!=0{self.sp+=V::WIDTH;Some((v,u))}else{None}}
#[inline(always)]fn size_hint(&self)->(usize,Option<usize>){(self.ln,Some(self.ln))}}
'''


def wrlanes(ex, p, lanes, sz):
    r, o = ex.bounds(p, len(lanes) * sz, 'w')
    for i, v in enumerate(lanes):
        ex.wr(r, simp(add(o, i * sz, 64)), v, sz)


def rdlanes(ex, p, n, sz):
    r, o = ex.bounds(p, n * sz, 'r')
    return [ex.rd(r, simp(add(o, i * sz, 64)), sz) for i in range(n)]


def elements(ex, r, e, n, sz):
    """elements e .. e + n of a region"""
    if not n:
        return []
    bs = ex.rdbytes(r, simp(mul(e, sz, 64)), n * sz)
    return [assemble(bs[i * sz:(i + 1) * sz]) for i in range(n)]


def seq(uf, k, unit, i, sz):
    """lane i of vector k of a sequence"""
    return concat([(UF[uf](bv(simp(add(mul(k, unit, 64), i * sz + j, 64)), 64)), 8) for j in range(sz)])


def tail_lanes(w, bits, tag='tail'):
    return [z3.BitVec('%s_%d' % (tag, i), bits) for i in range(w)]


def last(ex, k, N):
    """tell the arrival after the last full vector from the others (the equation is then known to the simplifier)"""
    if not ex.decide(eq(k, N, 64)):
        ex.assume(ult(k, N, 64))


class Drv(Con):
    """a driver run over the opaque iterator"""
    counters = ('k', 'kf')
    two = None

    def setdims(self, cpu, el):
        self.el, self.W_, self.bits = el, W(cpu, el), ELW[el]
        self.sz = self.bits // 8
        self.unit = self.W_ * self.sz
        self.strides = {'VEC': self.unit, 'VEC2': self.unit, 'OUT': self.unit, 'ACC': 1}

    def buffer(self, job, ex, nm):
        return 0, 'k', 'VEC', self.unit

    def bound(self, job, ex):
        N = ex.ghost['c'].s['N']
        ex.assume(z3.ULE(bv(ex.ghost['k'], 64), bv(N, 64)))
        if self.calls_f:
            ex.assume(eq(ex.ghost['kf'], ex.ghost['k'], 64))
        self.arrived(ex)

    def arrived(self, ex):
        last(ex, ex.ghost['k'], ex.ghost['c'].s['N'])
    calls_f = False

    def hooks(self, job, ex, box, L):
        def g(ex):
            if 'k' not in ex.ghost:
                ex.ghost.update(k=0, kf=0, ended=0, c=box['c'])
            return ex.ghost

        def nx(ex, args, I):
            if ex.inmerge:
                raise MergeAbort()
            G = g(ex)
            k, N = G['k'], G['c'].s['N']
            if self.phase == 'look' and isint(k) and k < 3:
                ex.assume(z3.ULT(bv(3, 64), bv(N, 64)))
            if G['ended'] or not ex.decide(ult(k, N, 64)):
                if not G['ended']:
                    ex.assume(eq(k, N, 64))
                return 0
            for p, uf in zip(args, ('VEC', 'VEC2')):
                wrlanes(ex, p, [seq(uf, k, self.unit, i, self.sz) for i in range(self.W_)], self.sz)
            G['k'] = simp(add(k, 1, 64))
            return 1

        def en(ex, args, I):
            if ex.inmerge:
                raise MergeAbort()
            G = g(ex)
            s = G['c'].s
            if G['ended']:
                return 0
            ex.require(eq(G['k'], s['N'], 64), 'end-after-the-last-vector')
            R = ex.choose_int(s['R'], 64)
            G['ended'], G['R'] = 1, R
            if R == 0:
                return 0
            for p, tag in zip(args[:-1], ('tail', 'tail2')):
                wrlanes(ex, p, tail_lanes(self.W_, self.bits, tag), self.sz)
            r, o = ex.bounds(args[-1], 8, 'w')
            ex.wr(r, o, self.W_ - R, 8)
            return 1

        def fn(ex, args, I):
            if ex.inmerge:
                raise MergeAbort()
            return self.call_f(ex, g(ex), args)

        def alloc(ex, args, I):
            g(ex)
            size, align = args
            align = align if isint(align) else ex.choose_int(align, 64)
            if align & align - 1 or not align:
                ex.require(0, 'allocation-layout')
            ex.require(ule(size, 1 << 63, 64), 'allocation-layout')
            ex.ghost['na'] = ex.ghost.get('na', 0) + 1
            return ex.newreg('heap%d' % ex.ghost['na'], simp(size), align, sym=True, init=False)

        def extern(ex, name, args, I):
            if '__rust_alloc' in name and 'zeroed' not in name and 'error' not in name:
                return alloc(ex, args, I)
            if '__rust_dealloc' in name:
                return None
            raise Unsup('call to external %s' % name)

        def block(ex, f, env, blk, prev):
            g(ex)
            return L.block(ex, f, env, blk, prev)
        return {'nx': nx, 'en': en, 'f': fn, 'block': block, 'extern': extern}

    def call_f(self, ex, G, args):
        """the function given to do_each or reduce"""
        s = G['c'].s
        kf, N = G['kf'], s['N']
        vecs = [(p, uf, tag) for p, uf, tag in zip(args[self.accs:], ('VEC', 'VEC2'), ('tail', 'tail2'))]
        if ex.decide(ult(kf, N, 64)):
            want = [[seq(uf, kf, self.unit, i, self.sz) for i in range(self.W_)] for _, uf, _ in vecs]
            ex.require(ult(kf, G['k'], 64), 'vectors-in-order')
        else:
            R = G.get('R', 0)
            ex.require(land(eq(kf, N, 64), R != 0), 'called-once-per-vector')
            want = [tail_lanes(self.W_, self.bits, tag) for _, _, tag in vecs]
        for (p, _, _), wl in zip(vecs, want):
            for i, (v, x) in enumerate(zip(rdlanes(ex, p, self.W_, self.sz), wl)):
                if v is POISON:
                    ex.require(0, 'argument-initialised')
                ex.require(eq(v, x, self.bits), 'called-with-the-vectors-in-order', detail='lane %d' % i)
        G['kf'] = simp(add(kf, 1, 64))
        if self.accs:
            ex.require(eq(args[0], UF['ACC'](bv(kf, 64)), 64), 'called-with-the-accumulator')
            return UF['ACC'](bv(G['kf'], 64))
        return None
    accs = 0

    # ---- native
    def mustpanic(self, inp):
        return False

    def callbacks(self, inp, log):
        w, sz, unit = self.W_, self.sz, self.unit
        vs = [self.bytes(inp[n]) for n in (['v', 'v2'] if self.two else ['v'])]
        ts = [self.bytes(inp[n]) for n in (['t', 't2'] if self.two else ['t'])]
        st = {'k': 0, 'ended': False, 'kf': 0}
        P = ctypes.c_void_p

        def nx(*ps):
            if st['ended'] or st['k'] >= inp['N']:
                return 0
            for p, b in zip(ps, vs):
                ctypes.memmove(p, b[st['k'] * unit:(st['k'] + 1) * unit], unit)
            st['k'] += 1
            return 1

        def en(*ps):
            if st['ended'] or inp['R'] == 0:
                st['ended'] = True
                return 0
            st['ended'] = True
            for p, b in zip(ps[:-1], ts):
                ctypes.memmove(p, b, unit)
            ctypes.memmove(ps[-1], (w - inp['R']).to_bytes(8, 'little'), 8)
            return 1

        def f(*a):
            row = []
            if self.accs:
                row.append(a[0])
            for p in a[self.accs:]:
                row.append(ctypes.string_at(p, unit))
            log.append(row)
            st['kf'] += 1
            return self.outf(st['kf'], a, row, inp)
        U = ctypes.c_uint64
        nv = 2 if self.two else 1
        return (ctypes.CFUNCTYPE(U, *[P] * nv)(nx), ctypes.CFUNCTYPE(U, *[P] * (nv + 1))(en),
                ctypes.CFUNCTYPE(U if self.accs else None, *([U] * self.accs + [P] * nv))(f))

    def outf(self, n, a, row, inp):
        return inp['accs'][n] if self.accs else None

    def bytes(self, lanes):
        return b''.join(x.to_bytes(self.sz, 'little') for x in lanes)

    def unbytes(self, b):
        return [int.from_bytes(b[i:i + self.sz], 'little') for i in range(0, len(b), self.sz)]

    def lanes(self, rnd, n):
        return [rnd.getrandbits(self.bits) for _ in range(n)]

    def fill(self, inp, rnd):
        if inp['N'] > 40 or inp.get('fl', 0) > 4000 or inp['ln'] > 4000:
            return None
        for a in ('v', 'v2'):
            inp[a] = self.lanes(rnd, inp['N'] * self.W_)
        for a in ('t', 't2', 'd', 'e'):
            inp[a] = self.lanes(rnd, self.W_)
        if 'fl' in inp:
            inp['p'] = self.lanes(rnd, inp['fl'])
        inp['accs'] = [rnd.getrandbits(64) for _ in range(inp['N'] + 8)]
        return inp

    def gen_(self, rnd, case):
        N, R = rnd.randrange(0, 5), rnd.randrange(0, self.W_ + 1)
        sp = rnd.choice([0, rnd.randrange(0, 40)])
        tot = N * self.W_ + R
        return {'N': N, 'R': R, 'ln': N + rnd.choice([0, 0, 1, 5]), 'sp': sp, 'sl': sp + tot,
                'fl': rnd.choice([tot, tot, tot + 1, max(0, tot - 1), rnd.randrange(0, tot + 3 * self.W_ + 1), N * self.W_, (N + 1) * self.W_]), 'j': 0, 'where': 0}


def ghosts(w, unit):
    def pre(c):
        s = c.s
        yield ule(s['R'], w, 64)
        yield ule(s['ln'], (1 << 62) // unit, 64)
        yield ule(s['N'], s['ln'], 64)
        yield ule(s['sp'], 1 << 62, 64)
    return pre


OPARGS = [S('N', ghost=True), S('R', ghost=True), S('ln'), S('sp')]


def opargs(cpu, el, el2=None):
    w, v = W(cpu, el), vec(cpu, el)
    a = [S('N', ghost=True), S('R', ghost=True), S('ln'), S('sp'), S('sl', derive=lambda s: add(add(s['sp'], mul(s['N'], w, 64), 64), s['R'], 64))]
    if el2 is None:
        a += [Fn('nx', 'extern "C" fn(*mut %s)->u64' % v), Fn('en', 'extern "C" fn(*mut %s,*mut usize)->u64' % v), Ve('d', el, w, v)]
        return a, 'let mut it=Op::<%s>{nx:nx,en:en,ln:ln,sl:sl,sp:sp,d:*d};' % v
    u = vec(cpu, el2)
    a += [Fn('nx', 'extern "C" fn(*mut %s,*mut %s)->u64' % (v, u)), Fn('en', 'extern "C" fn(*mut %s,*mut %s,*mut usize)->u64' % (v, u)), Ve('d', el, w, v), Ve('e', el2, w, u)]
    return a, 'let mut it=Zop::<%s,%s>{nx:nx,en:en,ln:ln,sl:sl,sp:sp,d:*d,e:*e};' % (v, u)


# ------------------------------------------------------------------ C02
class Collect(Drv):
    def __init__(self, cpu, el, fn, mode):
        self.setdims(cpu, el)
        self.whole = fn.endswith('_all')
        self.isfill = 'fill' in fn
        w = self.W_
        a, mk = opargs(cpu, el)
        a += [S('j', ghost=True), S('where', ghost=True), Ou('q', 64, 2, 'u64')]
        if self.isfill:
            a += [S('fl'), SliceArg('p', el, 'fl', True, rw=True)]
            body = mk + 'let r=it.%s(from_raw_parts_mut(p,fl));*q=r.len() as u64;*q.add(1)=(r.as_mut_ptr()==p) as u64;' % fn
        else:
            body = mk + 'let v=it.%s();*q=v.len() as u64;*q.add(1)=(v.capacity()>=v.len()) as u64;let r=v.as_ptr();std::mem::forget(v);r' % fn
        Con.__init__(self, 'C02', '%s<%s>' % (fn, el), '%s_%s%s' % (fn, el, '_rel' if not mode else ''), cpu, a, body, self.post_, pre=self.pre_, gen=self.gen_, panics=self.panics_ if self.isfill else None,
                     mode=mode, ret=None if self.isfill else '*const %s' % el, module='drv_C02', cost=50 * self.W_)

    def pre_(self, c):
        yield from ghosts(self.W_, self.unit)(c)
        yield ule(c.s['where'], 2, 64)
        if self.isfill:
            yield ule(c.s['fl'], (1 << 62) // self.sz, 64)

    def total(self, c):
        R = c.split(c.s['R'])
        return add(mul(c.s['N'], self.W_, 64), (self.W_ if R else 0) if self.whole else R, 64)

    def panics_(self, c):
        return ult(c.s['fl'], self.total(c), 64)

    def post_(self, c):
        ex, s = c.ex, c.s
        tot = self.total(c)
        R = c.split(s['R'])
        if self.isfill:
            c.eq(c.out('q', 0), s['fl'], 64, 'returns the slice')
            c.eq(c.out('q', 1), 1, 64, 'returns the same slice')
            reg = ex.mem['p']
        else:
            c.eq(c.out('q', 0), tot, 64, 'number of elements')
            c.eq(c.out('q', 1), 1, 64, 'capacity covers the length')
            if ex.decide(eq(tot, 0, 64)):
                return
            if not isinstance(c.ret, Ptr) or c.ret.o != 0:
                raise Unsup('result pointer %r' % (c.ret,))
            reg = ex.mem[c.ret.r]
        w, N, sz = self.W_, s['N'], self.sz

        def got(e, n):
            if n:
                ex.bounds(Ptr(reg.name, simp(mul(e, sz, 64))), n * sz, 'r')
            for v in elements(ex, reg, e, n, sz):
                if v is POISON:
                    raise Violation('uninitialised-result', 'post', ex.small_model() if ex.check() == z3.sat else None)
                yield v
        where = c.split(s['where'])
        if where == 0:
            m = s['j']
            if not ex.decide(ult(m, N, 64)):
                return
            for i, v in enumerate(got(mul(m, w, 64), w)):
                c.eq(v, seq('VEC', m, self.unit, i, sz), self.bits, 'element of a full vector')
        elif where == 1:
            n = w if self.whole and R else R
            for i, v in enumerate(got(mul(N, w, 64), n)):
                c.eq(v, tail_lanes(w, self.bits)[w - n + i], self.bits, 'element of the tail')
        elif self.isfill:
            j = s['j']
            if not ex.decide(ult(j, s['fl'], 64)):
                return
            if not ex.decide(ule(tot, j, 64)):
                return
            c.eq(next(got(j, 1)), c.elem('p', j), self.bits, 'the rest of the slice is unchanged')

    def expected(self, inp):
        t = inp['t'] if self.whole and inp['R'] else inp['t'][self.W_ - inp['R']:]
        return inp['v'] + (t if inp['R'] else [])

    def mustpanic(self, inp):
        return self.isfill and inp['fl'] < len(self.expected(inp))

    def native(self, lib, inp, at_end):
        keep, log = [], []
        cb = self.callbacks(inp, log)
        d = aligned(CT[self.bits] * self.W_, inp['d'], keep)
        q = (ctypes.c_uint64 * 2)()
        S64 = ctypes.c_size_t
        args = [S64(inp['ln']), S64(inp['sp']), S64(inp['sl']), cb[0], cb[1], ctypes.byref(d), q]
        f = getattr(lib, self.name)
        f.restype = ctypes.c_void_p
        if self.isfill:
            p, m = guarded(inp['fl'] * self.sz, at_end)
            ctypes.memmove(p, self.bytes(inp['p']), inp['fl'] * self.sz)
            f(*args, S64(inp['fl']), ctypes.c_void_p(p))
            return {'n': q[0], 'ok': q[1], 'data': self.unbytes(ctypes.string_at(p, inp['fl'] * self.sz))}
        p = f(*args)
        n = q[0]
        return {'n': n, 'ok': q[1], 'data': self.unbytes(ctypes.string_at(p, n * self.sz)) if n < 10000 and n else []}

    def oracle(self, inp, r):
        e = self.expected(inp)
        if self.isfill:
            e = e + inp['p'][len(e):]
        if r['n'] != len(e):
            return 'length %d, expected %d' % (r['n'], len(e))
        if not r['ok']:
            return 'the result is not the slice given, or its capacity is below its length'
        if r['data'] != e:
            i = [x == y for x, y in zip(r['data'], e)].index(False)
            return 'element %d is %#x, expected %#x' % (i, r['data'][i], e[i])
        return None


# ------------------------------------------------------------------ C04
class Visit(Drv):
    calls_f = True

    def __init__(self, cpu, el, fn, two):
        self.setdims(cpu, el)
        self.two = two
        self.accs = int(fn == 'simd_reduce')
        a, mk = opargs(cpu, el, two)
        vs = [vec(cpu, el)] + ([vec(cpu, two)] if two else [])
        a.append(Fn('f', 'extern "C" fn(%s%s)%s' % ('u64,' if self.accs else '', ','.join('*const ' + v for v in vs), '->u64' if self.accs else '')))
        if self.accs:
            a.append(S('a0', ty='u64'))
        ptr = '&v.0,&v.1' if two else '&v'
        t = 'SIMDZippedIterator' if two else 'SIMDIterator'
        body = mk + ('%s::simd_reduce(&mut it,a0,|a:u64,v|{f(a,%s)})' % (t, ptr) if self.accs else '%s::simd_do_each(&mut it,|v|{f(%s)});' % (t, ptr))
        Con.__init__(self, 'C04', '%s::%s<%s>' % (t, fn, el), '%s_%s%s' % (fn, 'zip_' if two else '', el), cpu, a, body, self.post_, pre=self.pre_, gen=self.gen_, mode='do',
                     ret='u64' if self.accs else None, module='drv_C04', cost=20)

    def pre_(self, c):
        yield from ghosts(self.W_, self.unit)(c)
        if self.accs:
            yield eq(c.s['a0'], UF['ACC'](bv(0, 64)), 64)

    def post_(self, c):
        R = c.split(c.s['R'])
        n = add(c.s['N'], int(R > 0), 64)
        c.eq(c.ex.ghost['kf'], n, 64, 'every vector visited once')
        c.eq(c.ex.ghost['ended'], 1, 64, 'the tail was asked for')
        if self.accs:
            c.eq(c.ret, UF['ACC'](bv(simp(n), 64)), 64, 'the final accumulator')

    def native(self, lib, inp, at_end):
        keep, log = [], []
        cb = self.callbacks(inp, log)
        d = aligned(CT[self.bits] * self.W_, inp['d'], keep)
        S64 = ctypes.c_size_t
        args = [S64(inp['ln']), S64(inp['sp']), S64(inp['sl']), cb[0], cb[1], ctypes.byref(d)]
        if self.two:
            args.append(ctypes.byref(aligned(CT[self.bits] * self.W_, inp['e'], keep)))
        args.append(cb[2])
        if self.accs:
            args.append(ctypes.c_uint64(inp['accs'][0]))
        f = getattr(lib, self.name)
        f.restype = ctypes.c_uint64 if self.accs else None
        return {'ret': f(*args), 'log': log}

    def oracle(self, inp, r):
        want = []
        for k in range(inp['N'] + (inp['R'] > 0)):
            row = [inp['accs'][k]] if self.accs else []
            for v, t in (('v', 't'), ('v2', 't2')) if self.two else (('v', 't'),):
                row.append(self.bytes(inp[v][k * self.W_:(k + 1) * self.W_] if k < inp['N'] else inp[t]))
            want.append(row)
        if len(r['log']) != len(want):
            return 'the function was called %d times, expected %d' % (len(r['log']), len(want))
        for k, (a, b) in enumerate(zip(r['log'], want)):
            if a != b:
                return 'call %d has other arguments than expected' % k
        if self.accs and r['ret'] != inp['accs'][len(want)]:
            return 'the result is not the last accumulator'
        return None


# ------------------------------------------------------------------ C03
class ForEach(Drv):
    calls_f = True
    counters = ('kf',)

    def __init__(self, cpu, el, kind, mode):
        self.setdims(cpu, el)
        from .iters import KINDS
        w, v = self.W_, vec(cpu, el)
        mk = KINDS[kind][1].format(el=el)
        a = [S('N', ghost=True), S('R', ghost=True), S('j', ghost=True), S('where', ghost=True), S('pos'), S('len'), SliceArg('p', el, 'len', True, rw=True), Ve('d', el, w, v), Fn('f', 'extern "C" fn(*mut %s)' % v)]
        body = mk + 'it.advance(pos);it.simd_for_each(|v|{f(v)});'
        Con.__init__(self, 'C03', 'SIMDIter<%s %s>::simd_for_each' % (kind, el), 'foreach_%s_%s%s' % (kind, el, '' if mode else '_rel'), cpu, a, body, self.post_, pre=self.pre_, gen=self.gen_, mode=mode,
                     module='drv_C03', cost=50 * self.W_)

    def pre_(self, c):
        s, w = c.s, self.W_
        yield ule(s['len'], (1 << 62) // self.sz, 64)
        yield ule(s['where'], 2, 64)
        if c.when(ult(s['pos'], s['len'], 64)):
            yield ule(s['R'], w - 1, 64)
            yield ule(s['N'], (1 << 62) // self.unit, 64)
            R = c.split(s['R'])
            yield eq(s['len'], add(add(s['pos'], mul(s['N'], w, 64), 64), R, 64), 64)
        else:
            yield eq(s['N'], 0, 64)
            yield eq(s['R'], 0, 64)

    def buffer(self, job, ex, nm):
        return simp(mul(ex.ghost['c'].s['pos'], self.sz, 64)), 'kf', 'OUT', self.unit

    def bound(self, job, ex):
        ex.assume(z3.ULE(bv(ex.ghost['kf'], 64), bv(ex.ghost['c'].s['N'], 64)))
        self.arrived(ex)

    def arrived(self, ex):
        last(ex, ex.ghost['kf'], ex.ghost['c'].s['N'])

    def call_f(self, ex, G, args):
        c = G['c']
        s = c.s
        kf, N, w, sz = G['kf'], s['N'], self.W_, self.sz
        if self.phase == 'look' and isint(kf) and kf < 3:
            ex.assume(z3.ULT(bv(3, 64), bv(N, 64)))
        got = rdlanes(ex, args[0], w, sz)
        if ex.decide(ult(kf, N, 64)):
            for i in range(w):
                ex.require(eq(got[i], c.elem('p', add(s['pos'], add(mul(kf, w, 64), i, 64), 64)), self.bits), 'called-with-the-elements-in-order', detail='lane %d' % i)
            out = [seq('OUT', kf, self.unit, i, sz) for i in range(w)]
        else:
            ex.require(eq(kf, N, 64), 'called-once-per-vector')
            R = ex.choose_int(s['R'], 64)
            ex.require(int(R != 0), 'called-once-per-vector')
            for i in range(w - R, w):
                ex.require(eq(got[i], c.elem('p', add(s['pos'], add(mul(kf, w, 64), i - (w - R), 64), 64)), self.bits), 'called-with-the-elements-in-order', detail='lane %d' % i)
            out = tail_lanes(w, self.bits)
        wrlanes(ex, args[0], out, sz)
        G['kf'] = simp(add(kf, 1, 64))
        return None

    def post_(self, c):
        ex, s, w = c.ex, c.s, self.W_
        R = c.split(s['R'])
        N, pos, sz = s['N'], s['pos'], self.sz
        c.eq(ex.ghost['kf'], add(N, int(R > 0), 64), 64, 'every vector visited once')
        where = c.split(s['where'])
        if where == 0:
            j = s['j']
            if not ex.decide(ult(j, pos, 64)):
                return
            if not ex.decide(ult(j, s['len'], 64)):
                return
            c.eq(c.cur('p', j), c.elem('p', j), self.bits, 'elements before the position are unchanged')
        elif where == 1:
            m = s['j']
            if not ex.decide(ult(m, N, 64)):
                return
            for i, v in enumerate(elements(ex, ex.mem['p'], add(pos, mul(m, w, 64), 64), w, sz)):
                c.eq(v, seq('OUT', m, self.unit, i, sz), self.bits, 'element replaced by the result')
        else:
            for i, v in enumerate(elements(ex, ex.mem['p'], add(pos, mul(N, w, 64), 64), R, sz)):
                c.eq(v, tail_lanes(w, self.bits)[w - R + i], self.bits, 'remaining element replaced by the result')

    def gen_(self, rnd, case):
        ln = rnd.choice([rnd.randrange(0, 2 * self.W_ + 1), rnd.randrange(0, 6 * self.W_)])
        return {'len': ln, 'pos': rnd.choice([0, rnd.randrange(0, ln + 2), max(0, ln - rnd.randrange(0, self.W_ + 2))]), 'N': 0, 'R': 0, 'j': 0, 'where': 0}

    def fill(self, inp, rnd):
        if inp['len'] > 4000 or inp['pos'] > 1 << 62:
            return None
        inp['p'] = self.lanes(rnd, inp['len'])
        inp['d'] = self.lanes(rnd, self.W_)
        inp['outs'] = [self.lanes(rnd, self.W_) for _ in range(inp['len'] // self.W_ + 4)]
        return inp

    def native(self, lib, inp, at_end):
        keep, log = [], []

        def f(p):
            log.append(self.unbytes(ctypes.string_at(p, self.unit)))
            ctypes.memmove(p, self.bytes(inp['outs'][len(log) - 1]), self.unit)
        cb = ctypes.CFUNCTYPE(None, ctypes.c_void_p)(f)
        d = aligned(CT[self.bits] * self.W_, inp['d'], keep)
        nb = inp['len'] * self.sz
        p, m = guarded(nb, at_end)
        ctypes.memmove(p, self.bytes(inp['p']), nb)
        S64 = ctypes.c_size_t
        fn = getattr(lib, self.name)
        fn.restype = None
        fn(S64(inp['pos']), S64(inp['len']), ctypes.c_void_p(p), ctypes.byref(d), cb)
        return {'data': self.unbytes(ctypes.string_at(p, nb)), 'log': log}

    def oracle(self, inp, r):
        w, pos, ln = self.W_, inp['pos'], inp['len']
        left = max(0, ln - pos)
        N, R = left // w, left % w
        want = list(inp['p'])
        if len(r['log']) != N + (R > 0):
            return 'the function was called %d times, expected %d' % (len(r['log']), N + (R > 0))
        for k in range(N):
            if r['log'][k] != inp['p'][pos + k * w:pos + (k + 1) * w]:
                return 'call %d was not given the elements in order' % k
            want[pos + k * w:pos + (k + 1) * w] = inp['outs'][k]
        if R:
            if r['log'][N][w - R:] != inp['p'][ln - R:]:
                return 'the last call was not given the remaining elements'
            want[ln - R:] = inp['outs'][N][w - R:]
        if r['data'] != want:
            i = [x == y for x, y in zip(r['data'], want)].index(False)
            return 'element %d is %#x, expected %#x' % (i, r['data'][i], want[i])
        return None


def light(cpu, el, tier):
    """the quick check leaves out what differs from another contract only in the type of the elements or the target"""
    keep = {'x86-64': ('u8', 'i16', 'u32', 'i64', 'f32', 'f64'), 'haswell': ('u16', 'u32', 'f64'), 'nehalem': ('u32',)}
    return tier == 'quick' and el not in keep[cpu]


def c02(cpus, tier='quick'):
    out = []
    for cpu in cpus:
        for el in ELS:
            if light(cpu, el, tier):
                continue
            for fn in ('scalar_collect', 'scalar_fill', 'scalar_collect_all', 'scalar_fill_all'):
                for mode in ('do', '') if el == 'f32' or el == 'u8' and tier != 'quick' else ('do',):
                    out.append(Collect(cpu, el, fn, mode))
    return out


def c03(cpus, tier='quick'):
    out = []
    for cpu in cpus:
        for el in ELS:
            if light(cpu, el, tier):
                continue
            for kind in ('mut', 'mutmut'):
                if tier == 'quick' and el == 'u8' and kind == 'mutmut':
                    continue
                for mode in ('do', '') if kind == 'mut' and (el != 'u8' or tier != 'quick') else ('do',):
                    out.append(ForEach(cpu, el, kind, mode))
    return out


ZIPS = '''
impl<V:Packed,U:Packed> SIMDZippedIterable for Zop<V,U>{#[inline(always)]fn scalar_pos(&self)->usize{self.sp}#[inline(always)]fn scalar_len(&self)->usize{self.sl}#[inline(always)]fn vector_pos(&self)->usize{self.sp/V::WIDTH}
#[inline(always)]fn advance(&mut self,n:usize){self.sp+=n}#[inline(always)]fn default(&self)->(V,U){(self.d,self.e)}}
impl<V:Packed,U:Packed> SIMDZippedIterator for Zop<V,U>{#[inline(always)]fn end(&mut self)->Option<((V,U),usize)>{let mut v=self.d;let mut u=self.e;let mut n=0usize;if (self.en)(&mut v,&mut u,&mut n)!=0{self.sp=self.sl;Some(((v,u),n))}else{None}}}
'''


def c04(cpus, tier='quick'):
    out = []
    for cpu in cpus:
        for el in ELS:
            for fn in ('simd_reduce', 'simd_do_each'):
                for two in (None, {'u8': 'i8', 'u32': 'f32', 'f64': 'u64', 'i16': 'u16'}.get(el)):
                    if two or two is None:
                        out.append(Visit(cpu, el, fn, two))
    seen, res = set(), []
    for c in out:
        if (c.cpu, c.name) not in seen:
            seen.add((c.cpu, c.name))
            res.append(c)
    return res


ALLD = {'C02': c02, 'C03': c03, 'C04': c04}


def jobs(prop, cpus=build.CPUS, tier='quick'):
    mods, out = {}, []
    for c in ALLD[prop](cpus, tier):
        m = mods.setdefault((c.cpu, c.mode, c.module), [PRELUDE + OPITER + ZIPS, []])
        m[0] += c.source()
        m[1].append(c.name)
        out += [DJob(c, case) for case in c.cases]
    return {k: tuple(v) for k, v in mods.items()}, out


NOTES = ['the iterator is any iterator which yields N full vectors, then nothing, then a tail of R <= width elements from end(), and whose len() is at least N (C01, C05, C07, C10 prove this of the crate\'s iterators)',
         'the function passed in is any function of its arguments which returns (it does not panic)',
         'a collected result fits the address space (allocation succeeds)']
