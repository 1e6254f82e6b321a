"""Value algebra: integers are Python ints (unsigned, masked) or z3 bit-vectors, i1 is 0/1 or a z3 Bool,
floats are IEEE bit patterns.  Float arithmetic (+ - * / sqrt) is kept as uninterpreted functions shared by the
code and the contract; comparisons, sign operations, conversions and rounding are exact."""
import z3

POISON = type('Poison', (), {'__repr__': lambda s: 'POISON'})()


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r, self.o = r, o

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.o)


def isint(x):
    return type(x) is int


def M(n):
    return (1 << n) - 1


def zs(e):
    return z3.simplify(e, bv_le2extract=False)


def zsom(e):
    return z3.simplify(e, som=True, bv_le2extract=False)


def sgn(x, n):
    x &= M(n)
    return x - (1 << n) if x >> (n - 1) else x


_bvval = {}


def bv(x, n):
    if type(x) is int:
        k = (x, n)
        r = _bvval.get(k)
        if r is None:
            if len(_bvval) > 100000:
                _bvval.clear()
            r = z3.BitVecVal(x, n)
            _bvval[k] = r
        return r
    return x


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def bo(x):
    if type(x) is int:
        return TRUE if x else FALSE
    return x


def back(e):
    """z3 expr -> int when it is a literal"""
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def simp(e):
    if type(e) is int or e is POISON:
        return e
    return back(z3.simplify(e, som=True))


# ---------------- integer ops (n = width)

def add(a, b, n):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & M(n)
        if a == 0:
            return b
    elif type(b) is int and b == 0:
        return a
    return bv(a, n) + bv(b, n)


def sub(a, b, n):
    if type(b) is int:
        if type(a) is int:
            return (a - b) & M(n)
        if b == 0:
            return a
    elif a is b:
        return 0
    return bv(a, n) - bv(b, n)


def mul(a, b, n):
    if type(a) is int and type(b) is int:
        return (a * b) & M(n)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
    return bv(a, n) * bv(b, n)


def and_(a, b, n):
    if type(a) is int and type(b) is int:
        return a & b
    if type(a) is int:
        a, b = b, a
    if n == 1:
        if type(b) is int:
            return a if b else 0
        return z3.And(a, b)
    if type(b) is int:
        if b == 0:
            return 0
        if b == M(n):
            return a
    return bv(a, n) & bv(b, n)


def or_(a, b, n):
    if type(a) is int and type(b) is int:
        return a | b
    if type(a) is int:
        a, b = b, a
    if n == 1:
        if type(b) is int:
            return 1 if b else a
        return z3.Or(a, b)
    if type(b) is int:
        if b == 0:
            return a
        if b == M(n):
            return b
    return bv(a, n) | bv(b, n)


def xor(a, b, n):
    if type(a) is int and type(b) is int:
        return a ^ b
    if type(a) is int:
        a, b = b, a
    if n == 1:
        if type(b) is int:
            return not_(a) if b else a
        return z3.Xor(a, b)
    if type(b) is int and b == 0:
        return a
    if type(b) is int and b == M(n):
        return ~a
    return bv(a, n) ^ bv(b, n)


def not_(a):
    if type(a) is int:
        return a ^ 1
    return z3.Not(a)


def shl(a, b, n):
    if type(b) is int:
        if b >= n:
            return POISON
        if type(a) is int:
            return (a << b) & M(n)
        if b == 0:
            return a
    return bv(a, n) << bv(b, n)


def lshr(a, b, n):
    if type(b) is int:
        if b >= n:
            return POISON
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
    return z3.LShR(bv(a, n), bv(b, n))


def ashr(a, b, n):
    if type(b) is int:
        if b >= n:
            return POISON
        if type(a) is int:
            return (sgn(a, n) >> b) & M(n)
        if b == 0:
            return a
    return bv(a, n) >> bv(b, n)


def zext(a, n, m):
    if type(a) is int:
        return a
    if n == m:
        return a
    if n == 1:
        return z3.If(a, bv(1, m), bv(0, m))
    return z3.ZeroExt(m - n, a)


def sext(a, n, m):
    if type(a) is int:
        return sgn(a, n) & M(m)
    if n == m:
        return a
    if n == 1:
        return z3.If(a, bv(M(m), m), bv(0, m))
    return z3.SignExt(m - n, a)


def trunc(a, n, m):
    if type(a) is int:
        return a & M(m)
    if n == m:
        return a
    if m == 1:
        return extract(a, 0, 0, n) == bv(1, 1)
    return extract(a, m - 1, 0, n)


def extract(a, hi, lo, n):
    if type(a) is int:
        return (a >> lo) & M(hi - lo + 1)
    if hi == n - 1 and lo == 0:
        return a
    d = a.decl().kind()
    if d == z3.Z3_OP_EXTRACT:
        base = a.decl().params()[1]
        y = a.arg(0)
        if y.decl().kind() in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_EXTRACT):
            return extract(y, hi + base, lo + base, y.size())
        return z3.Extract(hi + base, lo + base, y)
    if d in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        x = a.arg(0)
        w = x.size()
        if hi < w:
            return extract(x, hi, lo, w)
        if lo >= w and d == z3.Z3_OP_ZERO_EXT:
            return 0
    if d == z3.Z3_OP_CONCAT:
        pos = 0
        for i in range(a.num_args() - 1, -1, -1):
            x = a.arg(i)
            w = x.size()
            if lo >= pos and hi < pos + w:
                r = extract(back(x), hi - pos, lo - pos, w)
                return r
            pos += w
    if d == z3.Z3_OP_ITE and (z3.is_bv_value(a.arg(1)) or z3.is_bv_value(a.arg(2))):
        x = extract(back(a.arg(1)), hi, lo, n)
        y = extract(back(a.arg(2)), hi, lo, n)
        if hi == lo:
            return z3.If(a.arg(0), bv(x, 1), bv(y, 1))
        return ite(a.arg(0), x, y, hi - lo + 1)
    return z3.Extract(hi, lo, a)


def concat(parts):
    """parts: [(value, width)] low first"""
    out = []      # low first, merged
    for v, w in parts:
        if out:
            pv, pw = out[-1]
            if type(pv) is int and type(v) is int:
                out[-1] = (pv | (v << pw), pw + w)
                continue
            if type(pv) is not int and type(v) is not int and pv.decl().kind() == z3.Z3_OP_EXTRACT and v.decl().kind() == z3.Z3_OP_EXTRACT:
                h1, l1 = pv.decl().params()
                h2, l2 = v.decl().params()
                if l2 == h1 + 1 and pv.arg(0).eq(v.arg(0)):
                    b = pv.arg(0)
                    out[-1] = (extract(b, h2, l1, b.size()), pw + w)
                    continue
        out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    return z3.Concat(*[bv(v, w) for v, w in reversed(out)])


def ite(c, a, b, n):
    if type(c) is int:
        return a if c else b
    if a is b:
        return a
    if a is POISON or b is POISON:
        raise Unsup('poison in select')
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
            return Ptr(a.r, ite(c, a.o, b.o, 64))
        raise Unsup('pointer select')
    if type(a) is int and type(b) is int and a == b:
        return a
    if n == 1:
        if type(a) is int and type(b) is int:
            return c if a else z3.Not(c)
        return z3.If(c, bo(a), bo(b))
    a_, b_ = bv(a, n), bv(b, n)
    if a_.eq(b_):
        return a
    return z3.If(c, a_, b_)


class Unsup(Exception):
    """construct outside the verifier's reach"""


def eq(a, b, n):
    if type(a) is int and type(b) is int:
        return int(a == b)
    if n == 1:
        return bo(a) == bo(b)
    a_, b_ = bv(a, n), bv(b, n)
    if a_.eq(b_):
        return 1
    return a_ == b_


def ult(a, b, n):
    if type(a) is int and type(b) is int:
        return int(a < b)
    return z3.ULT(bv(a, n), bv(b, n))


def ule(a, b, n):
    if type(a) is int and type(b) is int:
        return int(a <= b)
    return z3.ULE(bv(a, n), bv(b, n))


def slt(a, b, n):
    if type(a) is int and type(b) is int:
        return int(sgn(a, n) < sgn(b, n))
    return bv(a, n) < bv(b, n)


def sle(a, b, n):
    if type(a) is int and type(b) is int:
        return int(sgn(a, n) <= sgn(b, n))
    return bv(a, n) <= bv(b, n)


def icmp(p, a, b, n):
    if p == 'eq':
        return eq(a, b, n)
    if p == 'ne':
        return not_(eq(a, b, n))
    if n == 1:
        a, b = zext(a, 1, 8), zext(b, 1, 8)
        if p[0] == 's':
            a, b = b, a
        n = 8
        p = 'u' + p[1:]
    return {'ult': lambda: ult(a, b, n), 'ule': lambda: ule(a, b, n), 'ugt': lambda: ult(b, a, n), 'uge': lambda: ule(b, a, n),
            'slt': lambda: slt(a, b, n), 'sle': lambda: sle(a, b, n), 'sgt': lambda: slt(b, a, n), 'sge': lambda: sle(b, a, n)}[p]()


def land(*xs):
    ys = []
    for x in xs:
        if type(x) is int:
            if not x:
                return 0
        else:
            ys.append(x)
    if not ys:
        return 1
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def lor(*xs):
    ys = []
    for x in xs:
        if type(x) is int:
            if x:
                return 1
        else:
            ys.append(x)
    if not ys:
        return 0
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def umax(a, b, n):
    return ite(ult(a, b, n), b, a, n)


def umin(a, b, n):
    return ite(ult(a, b, n), a, b, n)


def smax(a, b, n):
    return ite(slt(a, b, n), b, a, n)


def smin(a, b, n):
    return ite(slt(a, b, n), a, b, n)


def sadd_ov(a, b, n):
    s = add(sext(a, n, n + 1), sext(b, n, n + 1), n + 1)
    return not_(eq(s, sext(trunc(s, n + 1, n), n, n + 1), n + 1))


def ssub_ov(a, b, n):
    s = sub(sext(a, n, n + 1), sext(b, n, n + 1), n + 1)
    return not_(eq(s, sext(trunc(s, n + 1, n), n, n + 1), n + 1))


def uadd_ov(a, b, n):
    if type(b) is int and b == 0 or type(a) is int and a == 0:
        return 0
    if type(a) is int:
        a, b = b, a
    return ult(sub(M(n), a, n), b, n) if type(b) is not int else ult(M(n) - b, a, n)


def usub_ov(a, b, n):
    return ult(a, b, n)


def umul_ov(a, b, n):
    if type(a) is int and type(b) is int:
        return int(a * b > M(n))
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b in (0, 1):
            return 0
        return ult(M(n) // b, a, n)
    return not_(eq(extract(mul(zext(a, n, 2 * n), zext(b, n, 2 * n), 2 * n), 2 * n - 1, n, 2 * n), 0, n))


def smul_ov(a, b, n):
    s = mul(sext(a, n, 2 * n), sext(b, n, 2 * n), 2 * n)
    return not_(eq(s, sext(trunc(s, 2 * n, n), n, 2 * n), 2 * n))


def sat_add_s(a, b, n):
    s = add(sext(a, n, n + 1), sext(b, n, n + 1), n + 1)
    return sat_s(s, n + 1, n)


def sat_sub_s(a, b, n):
    s = sub(sext(a, n, n + 1), sext(b, n, n + 1), n + 1)
    return sat_s(s, n + 1, n)


def sat_s(s, n, m):
    """signed n-bit -> signed m-bit saturation"""
    hi = M(m - 1)
    lo = (-(1 << (m - 1))) & M(n)
    return ite(slt(hi, s, n), hi, ite(slt(s, lo, n), 1 << (m - 1), trunc(s, n, m), m), m)


def sat_su(s, n, m):
    """signed n-bit -> unsigned m-bit saturation"""
    return ite(slt(s, 0, n), 0, ite(slt(M(m), s, n), M(m), trunc(s, n, m), m), m)


def sat_u(s, n, m):
    """unsigned n-bit -> unsigned m-bit saturation"""
    return ite(ult(M(m), s, n), M(m), trunc(s, n, m), m)


def sat_us(s, n, m):
    """unsigned n-bit -> signed m-bit saturation"""
    return ite(ult(M(m - 1), s, n), M(m - 1), trunc(s, n, m), m)


def sat_add_u(a, b, n):
    return sat_u(add(zext(a, n, n + 1), zext(b, n, n + 1), n + 1), n + 1, n)


def sat_sub_u(a, b, n):
    return ite(ult(a, b, n), 0, sub(a, b, n), n)


def bswap(a, n):
    return concat([(extract(a, i + 7, i, n), 8) for i in range(n - 8, -1, -8)])


def ctpop(a, n):
    r = 0
    for i in range(n):
        r = add(r, zext(extract(a, i, i, n), 1 if False else 1, n) if type(a) is int else z3.ZeroExt(n - 1, bv(extract(a, i, i, n), 1)), n)
    return r


def iabs(a, n):
    return ite(slt(a, 0, n), sub(0, a, n), a, n)


# ---------------- floats (bit patterns)
FS = {32: z3.Float32(), 64: z3.Float64()}
EXPB = {32: (8, 23), 64: (11, 52)}
_uf = {}


def fuf(name, n, k, m=None):
    key = (name, n, k, m)
    f = _uf.get(key)
    if f is None:
        f = z3.Function('f%s%d' % (name, n), *([z3.BitVecSort(n)] * k + [z3.BitVecSort(m or n)]))
        _uf[key] = f
    return f


import struct
import math


def i2f(x, n):
    return struct.unpack('<f' if n == 32 else '<d', struct.pack('<I' if n == 32 else '<Q', x))[0]


def f2i(x, n):
    if n == 32:
        try:
            return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError:
            return 0x7f800000 if x > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def farith(op, a, b, n):
    if type(a) is int and type(b) is int:
        x, y = i2f(a, n), i2f(b, n)
        try:
            if op == 'add':
                return f2i(x + y, n)
            if op == 'sub':
                return f2i(x - y, n)
            if op == 'mul':
                return f2i(x * y, n)      # double product of two f32 is exact, so one rounding
            if op == 'div' and y != 0:
                return f2i(x / y, n)
        except OverflowError:
            pass
    a_, b_ = bv(a, n), bv(b, n)
    if op in ('add', 'mul') and a_.get_id() > b_.get_id():
        a_, b_ = b_, a_
    return fuf(op, n, 2)(a_, b_)


def fsqrt(a, n):
    if type(a) is int:
        x = i2f(a, n)
        if x >= 0:
            return f2i(math.sqrt(x), n) if x != math.inf else a
    return fuf('sqrt', n, 1)(bv(a, n))


def isnan(a, n):
    e, m = EXPB[n]
    return ult(M(e) << m, and_(a, M(n - 1), n), n)


def fkey(a, n):
    """order-preserving signed key; -0 and +0 both map to 0"""
    mag = and_(a, M(n - 1), n)
    return ite(slt(a, 0, n), sub(0, mag, n), mag, n)


def fcmp(p, a, b, n):
    if p == 'true':
        return 1
    if p == 'false':
        return 0
    uno = lor(isnan(a, n), isnan(b, n))
    if p == 'uno':
        return uno
    if p == 'ord':
        return not_(uno)
    ka, kb = fkey(a, n), fkey(b, n)
    c = {'eq': lambda: eq(ka, kb, n), 'ne': lambda: not_(eq(ka, kb, n)), 'lt': lambda: slt(ka, kb, n),
         'le': lambda: sle(ka, kb, n), 'gt': lambda: slt(kb, ka, n), 'ge': lambda: sle(kb, ka, n)}[p[1:]]()
    return land(not_(uno), c) if p[0] == 'o' else lor(uno, c)


def tofp(a, n):
    return z3.fpBVToFP(bv(a, n), FS[n])


def fromfp(e):
    return z3.fpToIEEEBV(e)


RM = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': z3.RNE()}


def _cround(mode, x):
    if x != x or x in (math.inf, -math.inf):
        return x
    if mode == 'floor':
        r = math.floor(x)
    elif mode == 'ceil':
        r = math.ceil(x)
    elif mode == 'trunc':
        r = math.trunc(x)
    elif mode == 'rint':
        r = round(x)
    else:
        r = math.floor(abs(x))
        if abs(x) - r >= 0.5:
            r += 1
        r = math.copysign(r, x)
    return math.copysign(float(abs(r)), x)


def fround(mode, a, n):
    if type(a) is int and not (a & M(n - 1)) > (M(EXPB[n][0]) << EXPB[n][1]):
        return f2i(_cround(mode, i2f(a, n)), n)
    return fuf('r' + mode, n, 1)(bv(a, n))


def sitofp(a, n, m):
    if type(a) is int:
        return f2i(float(sgn(a, n)), m) if m == 64 and n <= 53 or n <= 24 else back(z3.simplify(fromfp(z3.fpSignedToFP(z3.RNE(), bv(a, n), FS[m]))))
    return fromfp(z3.fpSignedToFP(z3.RNE(), a, FS[m]))


def uitofp(a, n, m):
    if type(a) is int:
        return back(z3.simplify(fromfp(z3.fpUnsignedToFP(z3.RNE(), bv(a, n), FS[m]))))
    return fromfp(z3.fpUnsignedToFP(z3.RNE(), a, FS[m]))


def fpext(a, n, m):
    if type(a) is int and i2f(a, n) == i2f(a, n):
        return f2i(i2f(a, n), m)
    return fuf('ext%d' % m, n, 1, m)(bv(a, n))


def fptrunc(a, n, m):
    if type(a) is int and i2f(a, n) == i2f(a, n):
        return f2i(i2f(a, n), m)
    return fuf('trunc%d' % m, n, 1, m)(bv(a, n))


def fptosi(a, n, m):
    return fuf('tosi%d' % m, n, 1, m)(bv(a, n))


def fptoui(a, n, m):
    return fuf('toui%d' % m, n, 1, m)(bv(a, n))
