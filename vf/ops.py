"""Contracts of the vector operations.

Every entry names the real trait method (called through its trait from a generated `extern "C"` wrapper), the vector types
that must provide it, and the postcondition of every output lane as a function of the input lanes."""
import json
import os
from .bv import *

ELS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'f32': 32, 'u64': 64, 'i64': 64, 'f64': 64}


class V:
    """a vector type"""

    def __init__(self, el, n):
        self.el, self.n, self.w = el, n, ELS[el]
        self.name = '%sx%d' % (el, n)
        self.signed = el[0] == 'i'
        self.fl = el[0] == 'f'
        self.bits = n * self.w
        self.bytes = self.bits // 8

    def __repr__(self):
        return self.name

    def scale(self, el):
        return V(el, self.bits // ELS[el])


ALL = [V(e, b // ELS[e]) for b in (128, 256, 512) for e in ELS]
BYNAME = {v.name: v for v in ALL}
INTS = [v for v in ALL if not v.fl]
FLS = [v for v in ALL if v.fl]


class Out:
    """one output: element width, lanes (1 for scalars)"""

    def __init__(self, ty, w, n, mode='eq'):
        self.ty, self.w, self.n, self.mode = ty, w, n, mode


class Item:
    """one wrapper = one function under contract"""

    def __init__(self, prop, op, v, name, body, ins, outs, spec, scal=(), pre=None, panics=None, modes='d', cases=None, extra=''):
        self.prop, self.op, self.v, self.name = prop, op, v, name
        self.body = body          # Rust statements; a0,a1.. are the inputs, s0.. the scalars; must bind r0,r1..
        self.ins = ins            # [V]
        self.outs = outs          # [Out]
        self.spec = spec          # (ins lanes, scalars) -> [lanes]
        self.scal = scal          # [(rust type, width)]
        self.pre = pre            # (ins, scalars) -> cond
        self.panics = panics      # (ins, scalars) -> cond under which it must panic
        self.cases = cases or [()]    # list of tuples of concrete values for the leading scalars
        self.extra = extra

    def source(self):
        ps = ['a%d:*const %s' % (i, v.name) for i, v in enumerate(self.ins)]
        ps += ['s%d:%s' % (i, t) for i, (t, w) in enumerate(self.scal)]
        ps += ['o%d:*mut %s' % (i, o.ty) for i, o in enumerate(self.outs)]
        b = ''.join('let mut a%d=ptr::read_unaligned(a%d);' % (i, i) for i in range(len(self.ins)))
        e = ''.join('ptr::write_unaligned(o%d,r%d);' % (i, i) for i in range(len(self.outs)))
        return '#[no_mangle] pub unsafe extern "C" fn %s(%s){%s%s %s}\n' % (self.name, ','.join(ps), b, self.body, e)


PRELUDE = '''#![allow(improper_ctypes_definitions, unused, non_camel_case_types)]
extern crate faster;
use faster::*;
use faster::arch::current::vecs::*;
use std::ptr;
'''

# ------------------------------------------------------------------ spec helpers


def pairs(f):
    def spec(v):
        def s(i, sc):
            a, b = i
            out = []
            for k in range(0, v.n, 2):
                out.append(f(v)(a[k], a[k + 1]))
                out.append(f(v)(b[k], b[k + 1]))
            return [out]
        return s
    return spec


def lanewise1(f):
    return lambda v: (lambda i, sc: [[f(v)(x) for x in i[0]]])


def lanewise2(f):
    return lambda v: (lambda i, sc: [[f(v)(x, y) for x, y in zip(i[0], i[1])]])


def vadd(v):
    return (lambda x, y: farith('add', x, y, v.w)) if v.fl else (lambda x, y: add(x, y, v.w))


def vsub(v):
    return (lambda x, y: farith('sub', x, y, v.w)) if v.fl else (lambda x, y: sub(x, y, v.w))


def vsadd(v):
    return (lambda x, y: sat_add_s(x, y, v.w)) if v.signed else (lambda x, y: sat_add_u(x, y, v.w))


def vssub(v):
    return (lambda x, y: sat_sub_s(x, y, v.w)) if v.signed else (lambda x, y: sat_sub_u(x, y, v.w))


def vmin(v):
    if v.fl:
        return lambda x, y: ('between', x, y, 'ole')
    return (lambda x, y: smin(x, y, v.w)) if v.signed else (lambda x, y: umin(x, y, v.w))


def vmax(v):
    if v.fl:
        return lambda x, y: ('between', x, y, 'oge')
    return (lambda x, y: smax(x, y, v.w)) if v.signed else (lambda x, y: umax(x, y, v.w))


def vabs(v):
    if v.fl:
        return lambda x: and_(x, M(v.w - 1), v.w)
    return lambda x: iabs(x, v.w)


def nonan(i, sc):
    return None


def veq(v):
    def f(x, y):
        c = fcmp('oeq', x, y, v.w) if v.fl else eq(x, y, v.w)
        return ite(c, M(v.w), 0, v.w)
    return f


def vne(v):
    return lambda x, y: xor(veq(v)(x, y), M(v.w), v.w)


def uname(v):
    return V('u%d' % v.w, v.n)


def to64(x, v):
    return sext(x, v.w, 64) if v.signed else zext(x, v.w, 64)


def sum_spec(v):
    def s(i, sc):
        if v.fl:
            return [[('fsum', 'add', list(i[0]))]]
        acc = 0
        for x in i[0]:
            acc = add(acc, x, v.w)
        return [[acc]]
    return s


def prod_spec(v):
    def s(i, sc):
        if v.fl:
            return [[('fsum', 'mul', list(i[0]))]]
        acc = 1
        for x in i[0]:
            acc = mul(acc, x, v.w)
        return [[acc]]
    return s


def sumup_spec(v):
    def s(i, sc):
        acc = 0
        for x in i[0]:
            acc = add(acc, to64(x, v), 64)
        return [[acc]]
    return s


def bytes_of(l, w):
    out = []
    for x in l:
        for k in range(w // 8):
            out.append(extract(x, 8 * k + 7, 8 * k, w))
    return out


def recast(l, w1, w2):
    bs = bytes_of(l, w1)
    q = w2 // 8
    return [concat([(b, 8) for b in bs[k:k + q]]) for k in range(0, len(bs), q)]


def popcnt_spec(neg):
    def mk(v):
        def s(i, sc):
            acc = 0
            for x in i[0]:
                acc = add(acc, zext(ctpop(x, v.w), v.w, 64), 64)
            return [[sub(v.bits, acc, 64) if neg else acc]]
        return s
    return mk


def up_spec(v, t):
    def conv(x):
        if t.fl and v.fl:
            return fpext(x, v.w, t.w)
        if t.fl:
            return sitofp(x, v.w, t.w) if v.signed else uitofp(x, v.w, t.w)
        return sext(x, v.w, t.w) if v.signed else zext(x, v.w, t.w)

    def s(i, sc):
        h = v.n // 2
        return [[conv(x) for x in i[0][:h]], [conv(x) for x in i[0][h:]]]
    return s


def down_spec(v, t):
    def conv(x):
        if v.fl:
            return fptrunc(x, v.w, t.w)
        if v.signed:
            return sat_s(x, v.w, t.w) if t.signed else sat_su(x, v.w, t.w)
        return sat_us(x, v.w, t.w) if t.signed else sat_u(x, v.w, t.w)
    return lambda i, sc: [[conv(x) for x in i[0]] + [conv(x) for x in i[1]]]


def default_bits(v):
    return 0


def candidates():
    """every (operation, type) the crate could provide; the committed table ops_table.json lists those it must provide"""
    out = []

    def it(prop, op, v, body, ins, outs, spec, **k):
        nm = 'w_%s_%s' % (op, k.pop('tag', v.name))
        out.append(Item(prop, op, v, nm, body, ins, outs, spec, **k))

    def one(v):
        return [Out(v.name, v.w, v.n)]

    def scal(v, mode='eq'):
        return [Out(v.el, v.w, 1, mode)]

    for v in ALL:
        n = v.name
        # --- sums
        it('C14', 'sum', v, 'let r0=faster::Sum::sum(&a0);', [v], scal(v, 'fsum' if v.fl else 'eq'), sum_spec(v))
        if not v.fl:
            it('C14', 'sum_upcast', v, 'let r0=faster::UpcastSum::sum_upcast(&a0);', [v], [Out('i64', 64, 1)], sumup_spec(v))
        # --- horizontal
        for op, tr, f in (('hadd', 'HAdd', vadd), ('hsub', 'HSub', vsub)):
            it('C15', op, v, 'let r0=faster::%s::%s(&a0,a1);' % (tr, op), [v, v], one(v), pairs(f)(v))
        if not v.fl:
            for op, tr, f in (('saturating_hadd', 'SaturatingHAdd', vsadd), ('saturating_hsub', 'SaturatingHSub', vssub)):
                it('C15', op, v, 'let r0=faster::%s::%s(&a0,a1);' % (tr, op), [v, v], one(v), pairs(f)(v))
        # --- lanewise
        it('C16', 'abs', v, 'let r0:%s=unsafe{std::mem::transmute(faster::Abs::abs(&a0))};' % n, [v], one(v), lanewise1(vabs)(v))
        for op, f in (('min', vmin), ('max', vmax)):
            it('C16', op, v, 'let r0=faster::Cmp::%s(&a0,a1);' % op, [v, v], [Out(v.name, v.w, v.n, 'between' if v.fl else 'eq')], lanewise2(f)(v),
               pre=(lambda w: (lambda i, sc: land(*[not_(isnan(x, w)) for l in i for x in l])))(v.w) if v.fl else None)
        if not v.fl:
            for op, tr, f in (('saturating_add', 'SaturatingAdd', vsadd), ('saturating_sub', 'SaturatingSub', vssub)):
                it('C16', op, v, 'let r0=faster::%s::%s(&a0,a1);' % (tr, op), [v, v], one(v), lanewise2(f)(v))
        # --- comparisons
        u = uname(v)
        it('C17', 'eq_mask', v, 'let r0:%s=faster::Eq::eq_mask(&a0,a1);' % u.name, [v, v], one(u), lanewise2(veq)(v))
        it('C17', 'ne_mask', v, 'let r0:%s=faster::Eq::ne_mask(&a0,a1);' % u.name, [v, v], one(u), lanewise2(vne)(v))
        # --- casts
        for e in ELS:
            if ELS[e] == 2 * v.w:
                t = v.scale(e)
                it('C18', 'upcast', v, 'let (r0,r1)=faster::Upcast::<%s>::upcast(a0);' % t.name, [v], one(t) + one(t), up_spec(v, t), tag=n + '_' + t.name)
            if 2 * ELS[e] == v.w:
                t = v.scale(e)
                it('C18', 'downcast', v, 'let r0:%s=faster::Downcast::<%s>::saturating_downcast(a0,a1);' % (t.name, t.name), [v, v], one(t), down_spec(v, t), tag=n + '_' + t.name)
        # --- endianness, reinterpretation
        sw = (lambda v: (lambda i, sc: [[bswap(x, v.w) for x in i[0]]]))(v)
        same = lambda i, sc: [list(i[0])]
        for op, sp in (('swap_bytes', sw), ('to_be', sw), ('from_be', sw), ('to_le', same), ('from_le', same)):
            it('C19', op, v, 'let r0=faster::Reendianize::%s(&a0);' % op, [v], one(v), sp)
        for e in ELS:
            t = v.scale(e)
            fn = 'be_%ss%s' % (e, '_unchecked' if e[0] == 'f' else '')
            it('C19', 'be_%ss' % e, v, 'let r0:%s=faster::Transmute::%s(&a0);' % (t.name, fn), [v], one(t),
               (lambda v, t: (lambda i, sc: [recast(i[0], v.w, t.w)]))(v, t))
        # --- popcount
        it('C20', 'count_ones', v, 'let r0=faster::Popcnt::count_ones(&a0);', [v], [Out('usize', 64, 1)], popcnt_spec(False)(v))
        it('C20', 'count_zeroes', v, 'let r0=faster::Popcnt::count_zeroes(&a0);', [v], [Out('usize', 64, 1)], popcnt_spec(True)(v))
        # --- destride
        it('C21', 'destride_two', v, 'let (r0,r1)=faster::Destride::destride_two(a0,a1);', [v, v], one(v) * 2,
           lambda i, sc: [(i[0] + i[1])[k::2] for k in range(2)])
        it('C21', 'destride_four', v, 'let (r0,r1,r2,r3)=faster::Destride::destride_four(a0,a1,a2,a3);', [v] * 4, one(v) * 4,
           lambda i, sc: [(i[0] + i[1] + i[2] + i[3])[k::4] for k in range(4)])
        # --- floats
        if v.fl:
            for op in ('ceil', 'floor', 'trunc'):
                it('C22', op, v, 'let r0=faster::Round::%s(&a0);' % op, [v], one(v), lanewise1((lambda op: (lambda v: (lambda x: fround(op, x, v.w))))(op))(v))
            it('C22', 'round', v, 'let r0=faster::Round::round(&a0);', [v], [Out(v.name, v.w, v.n, 'nearest')], lanewise1(lambda v: (lambda x: ('nearest', x)))(v))
            it('C22', 'sqrt', v, 'let r0=faster::Sqrt::sqrt(&a0);', [v], one(v), lanewise1(lambda v: (lambda x: fsqrt(x, v.w)))(v))
            it('C22', 'recip', v, 'let r0=faster::Recip::recip(&a0);', [v], [Out(v.name, v.w, v.n, 'approx')], lanewise1(lambda v: (lambda x: ('approx', 'rcp', x)))(v))
            it('C22', 'rsqrt', v, 'let r0=faster::Rsqrt::rsqrt(&a0);', [v], [Out(v.name, v.w, v.n, 'approx')], lanewise1(lambda v: (lambda x: ('approx', 'rsqrt', x)))(v))
        # --- merges
        h = v.n // 2
        it('C13', 'merge_halves', v, 'let r0=faster::Merge::merge_halves(&a0,a1);', [v, v], one(v), (lambda h: (lambda i, sc: [i[0][:h] + i[1][h:]]))(h))
        it('C13', 'merge_interleaved', v, 'let r0=faster::Merge::merge_interleaved(&a0,a1);', [v, v], one(v),
           lambda i, sc: [[(i[0] if k % 2 == 0 else i[1])[k] for k in range(len(i[0]))]])
        it('C13', 'merge_partitioned', v, 'let r0=faster::Merge::merge_partitioned(&a0,a1,s0);', [v, v], one(v),
           lambda i, sc: [i[0][:sc[0]] + i[1][sc[0]:]], scal=[('usize', 64)], cases=[(k,) for k in range(v.n + 1)])
        oob = (lambda v: (lambda i, sc: ult(v.n, sc[0], 64)))(v)
        it('C13', 'merge_partitioned_oob', v, 'let r0=faster::Merge::merge_partitioned(&a0,a1,s0);', [v, v], one(v), None, scal=[('usize', 64)], pre=oob, panics=lambda i, sc: 1)
        # --- construction and access
        P = '<%s as faster::vecs::Packed>::' % n if False else '<%s as faster::Packed>::' % n
        PT = '<%s as faster::Pattern>::' % n
        el = [(v.el, v.w)]
        it('C12', 'splat', v, 'let r0:%s=%ssplat(s0);' % (n, P), [], one(v), (lambda v: (lambda i, sc: [[sc[0]] * v.n]))(v), scal=el)
        it('C12', 'default', v, 'let r0:%s=%sdefault();' % (n, P), [], one(v), (lambda v: (lambda i, sc: [[0] * v.n]))(v))
        it('C12', 'coalesce', v, 'let r0=%scoalesce(a0);' % P, [v], scal(v), lambda i, sc: [[i[0][0]]],
           pre=(lambda v: (lambda i, sc: land(*[(fcmp('oeq', x, i[0][0], v.w) if v.fl else eq(x, i[0][0], v.w)) for x in i[0]])))(v))
        it('C11', 'extract', v, 'let r0=%sextract(&a0,s0);' % P, [v], scal(v), lambda i, sc: [[i[0][sc[0]]]], scal=[('usize', 64)],
           cases=[(k,) for k in range(v.n)])
        it('C11', 'extract_oob', v, 'let r0=%sextract(&a0,s0);' % P, [v], scal(v), None, scal=[('usize', 64)],
           pre=(lambda v: (lambda i, sc: ule(v.n, sc[0], 64)))(v), panics=lambda i, sc: 1)
        it('C12', 'extract_unchecked', v, 'let r0=%sextract_unchecked(&a0,s0);' % P, [v], scal(v), lambda i, sc: [[i[0][sc[0]]]], scal=[('usize', 64)],
           cases=[(k,) for k in range(v.n)])
        rp = lambda i, sc: [i[0][:sc[0]] + [sc[1]] + i[0][sc[0] + 1:]]
        it('C11', 'replace', v, 'let r0=%sreplace(&mut a0,s0,s1);' % P, [v], one(v), rp, scal=[('usize', 64)] + el, cases=[(k,) for k in range(v.n)])
        it('C11', 'replace_oob', v, 'let r0=%sreplace(&mut a0,s0,s1);' % P, [v], one(v), None, scal=[('usize', 64)] + el,
           pre=(lambda v: (lambda i, sc: ule(v.n, sc[0], 64)))(v), panics=lambda i, sc: 1)
        it('C12', 'replace_unchecked', v, 'let r0=%sreplace_unchecked(&mut a0,s0,s1);' % P, [v], one(v), rp, scal=[('usize', 64)] + el, cases=[(k,) for k in range(v.n)])
        it('C12', 'product', v, 'let r0=%sproduct(&a0);' % P, [v], scal(v, 'fsum' if v.fl else 'eq'), prod_spec(v))
        it('C12', 'scalar_reduce', v, 'let mut k=0usize; let r0=%sscalar_reduce(&a0,[0 as %s;%d],|mut acc,x|{acc[k]=x;k+=1;acc});' % (P, v.el, v.n), [v],
           [Out('[%s;%d]' % (v.el, v.n), v.w, v.n)], lambda i, sc: [list(i[0])])
        it('C12', 'width', v, 'let r0=a0.width();', [v], [Out('usize', 64, 1)], (lambda v: (lambda i, sc: [[v.n]]))(v))
        it('C12', 'halfs', v, 'let r0:%s=%shalfs(s0,s1);' % (n, PT), [], one(v), (lambda v: (lambda i, sc: [[sc[0]] * (v.n // 2) + [sc[1]] * (v.n // 2)]))(v), scal=el * 2)
        it('C12', 'interleave', v, 'let r0:%s=%sinterleave(s0,s1);' % (n, PT), [], one(v), (lambda v: (lambda i, sc: [[sc[0], sc[1]] * (v.n // 2)]))(v), scal=el * 2)
        it('C12', 'partition', v, 'let r0:%s=%spartition(s1,s2,s0);' % (n, PT), [], one(v),
           (lambda v: (lambda i, sc: [[sc[1]] * sc[0] + [sc[2]] * (v.n - sc[0])]))(v), scal=[('usize', 64)] + el * 2, cases=[(k,) for k in range(v.n + 1)])
        it('C12', 'partition_mask', v, 'let r0:%s=%spartition_mask(s0);' % (n, PT), [], one(v),
           (lambda v: (lambda i, sc: [[0] * sc[0] + [M(v.w)] * (v.n - sc[0])]))(v), scal=[('usize', 64)], cases=[(k,) for k in range(v.n + 1)])
        onev = f2i(1.0, v.w) if v.fl else 1
        it('C12', 'partition_oob', v, 'let r0:%s=%spartition(s1,s2,s0);' % (n, PT), [], one(v), None, scal=[('usize', 64)] + el * 2, pre=oob, panics=lambda i, sc: 1)
        it('C12', 'partition_mask_oob', v, 'let r0:%s=%spartition_mask(s0);' % (n, PT), [], one(v), None, scal=[('usize', 64)], pre=oob, panics=lambda i, sc: 1)
        it('C12', 'ones', v, 'let r0:%s=%sones();' % (n, PT), [], one(v), (lambda v: (lambda i, sc: [[M(v.w)] * v.n]))(v))
        it('C12', 'zeroes', v, 'let r0:%s=%szeroes();' % (n, PT), [], one(v), (lambda v: (lambda i, sc: [[0] * v.n]))(v))
    return out


def table():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ops_table.json')
    return json.load(open(p))


def items(cpu, prop=None):
    t = set(table()[cpu])
    return [i for i in candidates() if i.name in t and (prop is None or i.prop == prop)]
