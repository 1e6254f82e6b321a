"""Contracts of the x86 vector intrinsics the crate reaches (assumed; `selftest` compares them with the hardware)."""
import z3
from .bv import *


def _lane128(n, w):
    return 128 // w


def hop(f):
    """phadd/phsub style: per 128-bit lane, pairs of a then pairs of b"""
    def g(ex, a, ts):
        n, w = ts[0][1], ts[0][2][1]
        k = 128 // w
        out = []
        for l in range(0, n, k):
            for s in (a[0], a[1]):
                for i in range(l, l + k, 2):
                    x, y = s[i], s[i + 1]
                    out.append(POISON if x is POISON or y is POISON else f(x, y, w))
        return out
    return g


def pack(f, m):
    def g(ex, a, ts):
        n, w = ts[0][1], ts[0][2][1]
        k = 128 // w
        out = []
        for l in range(0, n, k):
            for s in (a[0], a[1]):
                out += [POISON if x is POISON else f(x, w, m) for x in s[l:l + k]]
        return out
    return g


def blendv(ex, a, ts):
    out = []
    for x, y, m in zip(*a):
        if m is POISON:
            out.append(POISON)
            continue
        c = extract(m, 7, 7, 8)
        if isint(c):
            out.append(y if c else x)
        else:
            out.append(ite(c == bv(1, 1), y, x, 8))
    return out


def pshufb(ex, a, ts):
    out = []
    n = ts[0][1]
    for i in range(n):
        m = a[1][i]
        b = i & ~15
        if m is POISON:
            out.append(POISON)
            continue
        if isint(m):
            out.append(0 if m & 128 else a[0][b + (m & 15)])
        else:
            r = 0
            for k in range(16):
                r = ite(eq(and_(m, 15, 8), k, 8), a[0][b + k], r, 8)
            out.append(ite(eq(extract(m, 7, 7, 8), 1, 1) if False else (extract(m, 7, 7, 8) == bv(1, 1)), 0, r, 8))
    return out


def psadbw(ex, a, ts):
    n = ts[0][1]
    out = []
    for q in range(0, n, 8):
        acc = 0
        for i in range(q, q + 8):
            x, y = a[0][i], a[1][i]
            if x is POISON or y is POISON:
                acc = POISON
                break
            if isint(y) and y == 0:
                d = x
            elif isint(x) and x == 0:
                d = y
            else:
                d = ite(ult(x, y, 8), sub(y, x, 8), sub(x, y, 8), 8)
            acc = add(acc, zext(d, 8, 64), 64)
        out.append(acc)
    return out


CMP = {0: 'oeq', 1: 'olt', 2: 'ole', 3: 'uno', 4: 'une', 5: 'uge', 6: 'ugt', 7: 'ord', 8: 'ueq', 9: 'ult', 10: 'ule', 11: 'false',
       12: 'one', 13: 'oge', 14: 'ogt', 15: 'true'}


def fcmpv(ex, a, ts):
    w = ts[0][2][1]
    p = CMP[a[2] & 15]
    return [POISON if x is POISON or y is POISON else ite(fcmp(p, x, y, w), M(w), 0, w) for x, y in zip(a[0], a[1])]


def fsel(p):
    def g(ex, a, ts):
        w = ts[0][2][1]
        return [POISON if x is POISON or y is POISON else ite(fcmp(p, x, y, w), x, y, w) for x, y in zip(a[0], a[1])]
    return g


RMODE = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'rint'}


def roundv(ex, a, ts):
    w = ts[0][2][1]
    m = a[1] & 7
    return [POISON if x is POISON else fround(RMODE[m], x, w) for x in a[0]]


def approx(nm):
    def g(ex, a, ts):
        w = ts[0][2][1]
        return [POISON if x is POISON else fuf(nm, w, 1)(bv(x, w)) for x in a[0]]
    return g


_f = lambda op: (lambda x, y, n: farith(op, x, y, n))
TABLE = {}
for nm in ('llvm.x86.sse3.hadd.ps', 'llvm.x86.sse3.hadd.pd', 'llvm.x86.avx.hadd.ps.256', 'llvm.x86.avx.hadd.pd.256'):
    TABLE[nm] = hop(_f('add'))
for nm in ('llvm.x86.sse3.hsub.ps', 'llvm.x86.sse3.hsub.pd', 'llvm.x86.avx.hsub.ps.256', 'llvm.x86.avx.hsub.pd.256'):
    TABLE[nm] = hop(_f('sub'))
for nm in ('llvm.x86.ssse3.phadd.w.128', 'llvm.x86.ssse3.phadd.d.128', 'llvm.x86.avx2.phadd.w', 'llvm.x86.avx2.phadd.d'):
    TABLE[nm] = hop(add)
for nm in ('llvm.x86.ssse3.phsub.w.128', 'llvm.x86.ssse3.phsub.d.128', 'llvm.x86.avx2.phsub.w', 'llvm.x86.avx2.phsub.d'):
    TABLE[nm] = hop(sub)
for nm in ('llvm.x86.ssse3.phadd.sw.128', 'llvm.x86.avx2.phadd.sw'):
    TABLE[nm] = hop(sat_add_s)
for nm in ('llvm.x86.ssse3.phsub.sw.128', 'llvm.x86.avx2.phsub.sw'):
    TABLE[nm] = hop(sat_sub_s)
for nm in ('llvm.x86.sse2.packssdw.128', 'llvm.x86.avx2.packssdw'):
    TABLE[nm] = pack(sat_s, 16)
for nm in ('llvm.x86.sse2.packsswb.128', 'llvm.x86.avx2.packsswb'):
    TABLE[nm] = pack(sat_s, 8)
for nm in ('llvm.x86.sse41.packusdw', 'llvm.x86.avx2.packusdw'):
    TABLE[nm] = pack(sat_su, 16)
for nm in ('llvm.x86.sse2.packuswb.128', 'llvm.x86.avx2.packuswb'):
    TABLE[nm] = pack(sat_su, 8)
for nm in ('llvm.x86.sse41.pblendvb', 'llvm.x86.avx2.pblendvb'):
    TABLE[nm] = blendv
for nm in ('llvm.x86.ssse3.pshuf.b.128', 'llvm.x86.avx2.pshuf.b'):
    TABLE[nm] = pshufb
for nm in ('llvm.x86.sse2.psad.bw', 'llvm.x86.avx2.psad.bw'):
    TABLE[nm] = psadbw
for nm in ('llvm.x86.sse.cmp.ps', 'llvm.x86.sse2.cmp.pd', 'llvm.x86.avx.cmp.ps.256', 'llvm.x86.avx.cmp.pd.256'):
    TABLE[nm] = fcmpv
for nm in ('llvm.x86.sse.max.ps', 'llvm.x86.sse2.max.pd', 'llvm.x86.avx.max.ps.256', 'llvm.x86.avx.max.pd.256'):
    TABLE[nm] = fsel('ogt')
for nm in ('llvm.x86.sse.min.ps', 'llvm.x86.sse2.min.pd', 'llvm.x86.avx.min.ps.256', 'llvm.x86.avx.min.pd.256'):
    TABLE[nm] = fsel('olt')
for nm in ('llvm.x86.sse41.round.ps', 'llvm.x86.sse41.round.pd', 'llvm.x86.avx.round.ps.256', 'llvm.x86.avx.round.pd.256'):
    TABLE[nm] = roundv
for nm in ('llvm.x86.sse.rcp.ps', 'llvm.x86.avx.rcp.ps.256'):
    TABLE[nm] = approx('rcp')
for nm in ('llvm.x86.sse.rsqrt.ps', 'llvm.x86.avx.rsqrt.ps.256'):
    TABLE[nm] = approx('rsqrt')


def shiftv(op):
    """pslli/psrli/psrai with an immediate or scalar count"""
    def g(ex, a, ts):
        w = ts[0][2][1]
        c = a[1]
        if isinstance(c, list):
            raise Unsup('vector shift count')
        if not isint(c):
            raise Unsup('symbolic shift count')
        c &= 255 if c < 256 else 255
        if op == 'sra':
            return [ashr(x, min(c, w - 1), w) for x in a[0]]
        if c >= w:
            return [0] * len(a[0])
        return [(shl if op == 'sll' else lshr)(x, c, w) for x in a[0]]
    return g


for w in ('w', 'd', 'q'):
    for k, o in (('pslli', 'sll'), ('psrli', 'srl'), ('psrai', 'sra')):
        TABLE['llvm.x86.sse2.%s.%s' % (k, w)] = shiftv(o)
        TABLE['llvm.x86.avx2.%s.%s' % (k, w)] = shiftv(o)


def movmsk(ex, a, ts):
    w = ts[0][2][1]
    parts = []
    for x in a[0]:
        if x is POISON:
            return POISON
        parts.append((extract(x, w - 1, w - 1, w), 1))
    return zext(concat(parts), len(parts), 32) if not isint(concat(parts)) else concat(parts)


for nm in ('llvm.x86.sse2.pmovmskb.128', 'llvm.x86.avx2.pmovmskb', 'llvm.x86.sse.movmsk.ps', 'llvm.x86.sse2.movmsk.pd', 'llvm.x86.avx.movmsk.ps.256', 'llvm.x86.avx.movmsk.pd.256'):
    TABLE[nm] = movmsk


def pmadd(ex, a, ts):
    n = ts[0][1]
    return [add(mul(sext(a[0][i], 16, 32), sext(a[1][i], 16, 32), 32), mul(sext(a[0][i + 1], 16, 32), sext(a[1][i + 1], 16, 32), 32), 32) for i in range(0, n, 2)]


TABLE['llvm.x86.sse2.pmadd.wd'] = pmadd
TABLE['llvm.x86.avx2.pmadd.wd'] = pmadd


def pmulh(s):
    def g(ex, a, ts):
        e = sext if s else zext
        return [extract(mul(e(x, 16, 32), e(y, 16, 32), 32), 31, 16, 32) for x, y in zip(a[0], a[1])]
    return g


for nm, s in (('llvm.x86.sse2.pmulh.w', 1), ('llvm.x86.avx2.pmulh.w', 1), ('llvm.x86.sse2.pmulhu.w', 0), ('llvm.x86.avx2.pmulhu.w', 0)):
    TABLE[nm] = pmulh(s)


def psign(ex, a, ts):
    w = ts[0][2][1]
    return [ite(slt(y, 0, w), sub(0, x, w), ite(eq(y, 0, w), 0, x, w), w) for x, y in zip(a[0], a[1])]


for w in ('b', 'w', 'd'):
    TABLE['llvm.x86.ssse3.psign.%s.128' % w] = psign
    TABLE['llvm.x86.avx2.psign.%s' % w] = psign


def pavg(ex, a, ts):
    w = ts[0][2][1]
    return [extract(add(add(zext(x, w, w + 1), zext(y, w, w + 1), w + 1), 1, w + 1), w, 1, w + 1) for x, y in zip(a[0], a[1])]


for nm in ('llvm.x86.sse2.pavg.b', 'llvm.x86.sse2.pavg.w', 'llvm.x86.avx2.pavg.b', 'llvm.x86.avx2.pavg.w'):
    TABLE[nm] = pavg


def pmaddubs(ex, a, ts):
    n = ts[0][1]
    out = []
    for i in range(0, n, 2):
        p = mul(zext(a[0][i], 8, 17), sext(a[1][i], 8, 17), 17)
        q = mul(zext(a[0][i + 1], 8, 17), sext(a[1][i + 1], 8, 17), 17)
        out.append(sat_s(add(sext(p, 17, 18), sext(q, 17, 18), 18), 18, 16))
    return out


TABLE['llvm.x86.ssse3.pmadd.ub.sw.128'] = pmaddubs
TABLE['llvm.x86.avx2.pmadd.ub.sw'] = pmaddubs


def vperm(ex, a, ts):
    out = []
    n = ts[0][1]
    for m in a[1]:
        if not isint(m):
            raise Unsup('symbolic permutation')
        out.append(a[0][m % n])
    return out


TABLE['llvm.x86.avx2.permd'] = vperm
TABLE['llvm.x86.avx2.permps'] = vperm


def blendvf(ex, a, ts):
    w = ts[0][2][1]
    out = []
    for x, y, m in zip(*a):
        c = extract(m, w - 1, w - 1, w)
        out.append(ite(c if isint(c) else c == bv(1, 1), y, x, w))
    return out


for nm in ('llvm.x86.sse41.blendvps', 'llvm.x86.sse41.blendvpd', 'llvm.x86.avx.blendv.ps.256', 'llvm.x86.avx.blendv.pd.256'):
    TABLE[nm] = blendvf
