"""Compare the assumed contracts of the x86 intrinsics (x86.py) with the processor, on boundary and random operands.
This is a test of the trusted base, run by setup.sh; it decides no property."""
import ctypes
import os
import random
import struct
import subprocess
import sys
import z3
from . import x86
from .bv import *

# name: (C expression, element bits of the operands, bytes of a vector, element bits of the result, operands, immediates)
I, T = {}, 'llvm.x86.'


def put(nm, expr, w, size, out=None, ops=2, imm=None, fl=False):
    I[T + nm] = (expr, w, size, w if out is None else out, ops, imm, fl)


for s, p, sz in (('', '_mm', 16), ('avx', '_mm256', 32)):
    for a in ('add', 'sub'):
        for t, w in (('ps', 32), ('pd', 64)):
            put('sse3.h%s.%s' % (a, t) if not s else 'avx.h%s.%s.256' % (a, t), '%s_h%s_%s(A,B)' % (p, a, t), w, sz, fl=True)
        for t, w, e in (('w', 16, 'epi16'), ('d', 32, 'epi32')):
            put('ssse3.ph%s.%s.128' % (a, t) if not s else 'avx2.ph%s.%s' % (a, t), '%s_h%s_%s(A,B)' % (p, a, e), w, sz)
        put('ssse3.ph%s.sw.128' % a if not s else 'avx2.ph%s.sw' % a, '%s_h%ss_epi16(A,B)' % (p, a), 16, sz)
    for t, w, e in (('sswb', 16, 'packs_epi16'), ('ssdw', 32, 'packs_epi32'), ('uswb', 16, 'packus_epi16'), ('usdw', 32, 'packus_epi32')):
        put(('sse41.pack' + t if t == 'usdw' else 'sse2.pack%s.128' % t) if not s else 'avx2.pack' + t, '%s_%s(A,B)' % (p, e), w, sz, w // 2)
    put('sse41.pblendvb' if not s else 'avx2.pblendvb', p + '_blendv_epi8(A,B,C)', 8, sz, ops=3)
    put('ssse3.pshuf.b.128' if not s else 'avx2.pshuf.b', p + '_shuffle_epi8(A,B)', 8, sz)
    put('sse2.psad.bw' if not s else 'avx2.psad.bw', p + '_sad_epu8(A,B)', 8, sz, 64)
    put('ssse3.pmadd.ub.sw.128' if not s else 'avx2.pmadd.ub.sw', p + '_maddubs_epi16(A,B)', 8, sz, 16)
    put('sse2.pmadd.wd' if not s else 'avx2.pmadd.wd', p + '_madd_epi16(A,B)', 16, sz, 32)
    for n, e in (('pmulh.w', 'mulhi_epi16'), ('pmulhu.w', 'mulhi_epu16')):
        put(('sse2.' if not s else 'avx2.') + n, '%s_%s(A,B)' % (p, e), 16, sz)
    for n, e, w in (('b', 'epi8', 8), ('w', 'epi16', 16), ('d', 'epi32', 32)):
        put('ssse3.psign.%s.128' % n if not s else 'avx2.psign.' + n, '%s_sign_%s(A,B)' % (p, e), w, sz)
        if n != 'd':
            put(('sse2.pavg.' if not s else 'avx2.pavg.') + n, '%s_avg_epu%d(A,B)' % (p, w), w, sz)
    for n, w in (('w', 16), ('d', 32), ('q', 64)):
        for k, e in (('pslli', 'slli'), ('psrli', 'srli'), ('psrai', 'srai')):
            if (n, k) != ('q', 'psrai'):
                put(('sse2.' if not s else 'avx2.') + k + '.' + n, '%s_%s_epi%d(A,IMM)' % (p, e, w), w, sz, ops=1, imm=(0, 1, 7, w - 1, w, 200))
    for t, w in (('ps', 32), ('pd', 64)):
        sse = 'sse.' if w == 32 else 'sse2.'
        put('avx.cmp.%s.256' % t if s else sse + 'cmp.' + t, ('%s_cmp_%s(A,B,IMM)' % (p, t)), w, sz, imm=range(16) if s else range(8))
        for m in ('min', 'max'):
            put('avx.%s.%s.256' % (m, t) if s else sse + m + '.' + t, '%s_%s_%s(A,B)' % (p, m, t), w, sz)
        put('avx.round.%s.256' % t if s else 'sse41.round.' + t, '%s_round_%s(A,IMM)' % (p, t), w, sz, ops=1, imm=(0, 1, 2, 3, 8, 9, 10, 11))
        put('avx.blendv.%s.256' % t if s else 'sse41.blendv' + t, '%s_blendv_%s(A,B,C)' % (p, t), w, sz, ops=3)
        put('avx.movmsk.%s.256' % t if s else sse + 'movmsk.' + t, '%s_movemask_%s(A)' % (p, t), w, sz, 0, ops=1)
    put('avx2.pmovmskb' if s else 'sse2.pmovmskb.128', p + '_movemask_epi8(A)', 8, sz, 0, ops=1)
UNTESTED = {'rcp', 'rsqrt'}      # any value is allowed: nothing to compare


def source():
    out = '#include <immintrin.h>\n'
    for n, (e, w, sz, ow, ops, imm, fl) in I.items():
        k = '' if 'epi' in e or 'epu' in e else 'd' if ('_pd(' in e) else ''
        ty = '__m%d%s' % (sz * 8, 'd' if '_pd(' in e else '' if '_ps(' in e else 'i')
        rt = 'int' if ow == 0 else ty
        for i in imm if imm is not None else [None]:
            x = e.replace('IMM', str(i)).replace('A', '(*(const %s*)a)' % ty).replace('B', '(*(const %s*)b)' % ty).replace('C', '(*(const %s*)c)' % ty)
            out += 'void t_%s(const void*a,const void*b,const void*c,void*o){*(%s*)o=%s;}\n' % (fname(n, i), rt, x)
    return out


def fname(n, i):
    return n.replace('.', '_') + ('' if i is None else '_%d' % i)


SPECIAL = {32: [0, 0x80000000, 0x3f800000, 0xbfc00000, 0x40200000, 0x7f800000, 0xff800000, 0x7fc00000, 0x4f800000, 0x00000001, 0x3effffff, 0xc0200000, 0x4b000001, 0xbf000000, 0x3f000000, 0x4affffff],
           64: [0, 1 << 63, 0x3ff0000000000000, 0xbff8000000000000, 0x4004000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x43f0000000000000, 1, 0x3fdfffffffffffff, 0xc004000000000000, 0x4330000000000001, 0xbfe0000000000000, 0x3fe0000000000000, 0x432fffffffffffff]}


def lanes(rnd, w, n, how):
    out = []
    for _ in range(n):
        k = rnd.randrange(4)
        if how == 'f':
            v = rnd.choice(SPECIAL[w]) if k else struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', rnd.uniform(-1e6, 1e6)))[0]
        else:
            v = rnd.choice([0, 1, M(w), 1 << (w - 1), (1 << (w - 1)) - 1, 127, 128, 255]) & M(w) if k == 0 else rnd.getrandbits(w)
        out.append(v)
    return out


def nan(v, w):
    e, m = (0x7f800000, 0x7fffff) if w == 32 else (0x7ff0000000000000, 0xfffffffffffff)
    return v & e == e and v & m


def value(v):
    if isint(v):
        return v
    s = z3.simplify(v)
    return s.as_long() if z3.is_bv_value(s) else None        # a rounding of NaN: any NaN


def main(so, rounds):
    lib = ctypes.CDLL(so)
    rnd = random.Random(5)
    bad, done = [], 0
    for n, (e, w, sz, ow, ops, imm, fl) in I.items():
        if n not in x86.TABLE:
            bad.append(n + ': no contract')
            continue
        isf = '_ps(' in e or '_pd(' in e
        for i in imm if imm is not None else [None]:
            f = getattr(lib, 't_' + fname(n, i))
            for r in range(rounds):
                a = [lanes(rnd, w, sz * 8 // w, 'f' if isf else 'i') for _ in range(ops)]
                raw = []
                for v in a:
                    b = ctypes.create_string_buffer(sz + 32)
                    p = ctypes.addressof(b) + -ctypes.addressof(b) % 32
                    ctypes.memmove(p, b''.join(x.to_bytes(w // 8, 'little') for x in v), sz)
                    raw.append((b, p))
                o = ctypes.create_string_buffer(64 + 32)
                q = ctypes.addressof(o) + -ctypes.addressof(o) % 32
                f(*[ctypes.c_void_p(x[1]) for x in (raw + raw + raw)[:3]], ctypes.c_void_p(q))
                got = ctypes.string_at(q, sz if ow else 4)
                ty = ('vec', sz * 8 // w, ('f' if isf else 'i', w))
                if fl:
                    fmt = '<f' if w == 32 else '<d'
                    k = 128 // w
                    fv = [[struct.unpack(fmt, x.to_bytes(w // 8, 'little'))[0] for x in v] for v in a]
                    want = []
                    for l in range(0, len(fv[0]), k):
                        for s in fv:
                            for j in range(l, l + k, 2):
                                y = s[j] + s[j + 1] if 'hadd' in n else s[j] - s[j + 1]
                                try:
                                    want.append(int.from_bytes(struct.pack(fmt, y), 'little'))
                                except OverflowError:
                                    want.append(None)
                    # the order of the operands in the contract
                    c = x86.TABLE[n](None, [[z3.BitVec('v%d_%d' % (s, j), w) for j in range(len(fv[0]))] for s in range(2)], [ty] * 2)
                    names = [[str(x) for x in t.children()] for t in c]
                    j = 0
                    for l in range(0, len(fv[0]), k):
                        for s in range(2):
                            for m in range(l, l + k, 2):
                                assert sorted(names[j]) == sorted(['v%d_%d' % (s, m), 'v%d_%d' % (s, m + 1)]), n
                                j += 1
                else:
                    want = x86.TABLE[n](None, a + ([i] if i is not None else []), [ty] * ops)
                    want = [value(x) for x in want] if isinstance(want, list) else value(want)
                if ow == 0:
                    gv = int.from_bytes(got, 'little')
                    ok = gv == want
                else:
                    gv = [int.from_bytes(got[j:j + ow // 8], 'little') for j in range(0, sz, ow // 8)]
                    ok = all(y is None or x == y or isf and nan(x, w) and nan(y, w) and 'cmp' not in n for x, y in zip(gv, want)) and len(gv) == len(want)
                done += 1
                if not ok:
                    bad.append('%s imm=%s operands=%s: processor %s, contract %s' % (n, i, a, gv, want))
                    break
    left = sorted(n for n in x86.TABLE if n not in I and not any('.%s.' % u in n for u in UNTESTED))
    print('x86 contracts: %d intrinsics compared with the processor on %d operand sets, %d differ; not compared: %s' % (len(I), done, len(bad), ', '.join(left) or 'none'))
    for b in bad[:10]:
        print('  ' + b[:600])
    return bool(bad)


if __name__ == '__main__':
    d = sys.argv[1]
    os.makedirs(d, exist_ok=True)
    open(d + '/x86check.c', 'w').write(source())
    if 'avx2' not in open('/proc/cpuinfo').read():
        print('x86 contracts: this processor has no AVX2; not compared')
        raise SystemExit(0)
    subprocess.run(['clang', '-O1', '-mavx2', '-w', '-shared', '-fPIC', '-o', d + '/x86check.so', d + '/x86check.c'], check=True)
    raise SystemExit(main(d + '/x86check.so', int(sys.argv[2]) if len(sys.argv) > 2 else 40))
