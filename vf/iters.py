"""Contracts of the iterators over slices (C01, C05-C11): each wrapper builds the iterator through the crate's public
constructors at an arbitrary state (slice, position, default) and performs one step of it."""
import copy
import z3
from . import build
from .bv import *
from .contract import S, Sl, Ve, Ou, Con, Job, ELW

PRELUDE = '''#![allow(improper_ctypes_definitions, unused, non_camel_case_types, unused_mut)]
extern crate faster;
use faster::*;
use faster::vecs::*;
use faster::arch::current::vecs::*;
use std::slice::{from_raw_parts, from_raw_parts_mut};
use std::mem::ManuallyDrop;
'''
ELS = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'f32', 'u64', 'i64', 'f64']
UNS = {'u8': 'u8', 'i8': 'u8', 'u16': 'u16', 'i16': 'u16', 'u32': 'u32', 'i32': 'u32', 'f32': 'u32', 'u64': 'u64', 'i64': 'u64', 'f64': 'u64'}


def vbits(cpu):
    return 256 if cpu in ('haswell', 'sandybridge') else 128


def W(cpu, el):
    return vbits(cpu) // ELW[el]


def vec(cpu, el):
    return '%sx%d' % (el, W(cpu, el))


# how a SIMD iterator over p[..len] is made; every form must behave the same
KINDS = {
    'ref': (False, 'let s0:&[{el}]=from_raw_parts(p,len);let mut it=s0.simd_iter(*d);'),
    'refref': (False, 'let s0:&[{el}]=from_raw_parts(p,len);let s1=&s0;let mut it=<&[{el}] as IntoSIMDRefIterator>::simd_iter(s1,*d);'),
    'mut': (True, 'let s0:&mut [{el}]=from_raw_parts_mut(p,len);let mut it=s0.simd_iter_mut(*d);'),
    'mutmut': (True, 'let mut s0:&mut [{el}]=from_raw_parts_mut(p,len);let mut it=<&mut [{el}] as IntoSIMDRefMutIterator>::simd_iter_mut(&mut s0,*d);'),
    'vec': (True, 'let s0:Vec<{el}>=Vec::from_raw_parts(p,len,len);let mut it=ManuallyDrop::new(s0.into_simd_iter(*d));'),
}


class SliceArg(Sl):
    """a slice whose pointer may be passed as mutable although nothing may be written to it"""

    def __init__(self, name, el, ln, mutptr, rw=False):
        Sl.__init__(self, name, el, ln, rw=rw)
        self.ty = '*%s %s' % ('mut' if mutptr else 'const', el)


def gen_len(w):
    def g(rnd, case):
        k = rnd.random()
        ln = rnd.randrange(0, 3 * w + 2) if k < .8 else rnd.randrange(0, 8 * w)
        return {'len': ln, 'pos': max(0, rnd.randrange(-2, ln + 2)) if rnd.random() < .8 else rnd.choice([rnd.getrandbits(64), (1 << 64) - rnd.randrange(1, w + 2)])}
    return g


def has_full(c, w, ln='len', pos='pos'):
    return land(ule(c.s[pos], c.s[ln], 64), ule(w, sub(c.s[ln], c.s[pos], 64), 64))


def slice_step(cpu, el, kind, what, prop, module):
    w = W(cpu, el)
    mutp, mk = KINDS[kind]
    v = vec(cpu, el)
    args = [SliceArg('p', el, 'len', mutp), S('len'), S('pos'), Ve('d', el, w, v), Ou('o', ELW[el], w, v), Ou('q', 64, 2, 'u64')]
    mk = mk.format(el=el) + 'it.advance(pos);'
    if what == 'next':
        body = mk + 'let r=it.next();*q=it.scalar_pos() as u64;match r{Some(v)=>{*o=v;1},None=>0}'

        def post(c):
            if c.when(has_full(c, w)):
                c.eq(c.ret, 1, 64, 'yields a vector')
                for i in range(w):
                    c.eq(c.out('o', i), c.elem('p', add(c.s['pos'], i, 64)), ELW[el], 'lane %d' % i)
                c.eq(c.out('q', 0), add(c.s['pos'], w, 64), 64, 'position advanced')
            else:
                c.eq(c.ret, 0, 64, 'yields nothing')
                c.eq(c.out('q', 0), c.s['pos'], 64, 'position kept')
        return Con(prop, 'SIMDIter<%s %s>::next' % (kind, el), 'next_%s_%s' % (kind, el), cpu, args, body, post, dedup=('next', w, ELW[el]), ret='u64', gen=gen_len(w), module=module)
    if what == 'end':
        body = mk + 'let r=it.end();*q=it.scalar_pos() as u64;match r{Some((v,n))=>{*o=v;*q.add(1)=n as u64;1},None=>0}'

        def pre(c):
            if c.when(ult(c.s['pos'], c.s['len'], 64)):
                yield ule(sub(c.s['len'], c.s['pos'], 64), w, 64)
                c.split(sub(c.s['len'], c.s['pos'], 64))

        def post(c):
            if c.when(ult(c.s['pos'], c.s['len'], 64)):
                r = c.split(sub(c.s['len'], c.s['pos'], 64))
                n = w - r
                c.eq(c.ret, 1, 64, 'yields the tail')
                c.eq(c.out('q', 1), n, 64, 'number of default lanes')
                for i in range(w):
                    want = c.vec('d')[i] if i < n else c.elem('p', add(c.s['pos'], i - n, 64))
                    c.eq(c.out('o', i), want, ELW[el], 'lane %d' % i)
                c.eq(c.out('q', 0), c.s['len'], 64, 'position at the end')
            else:
                c.eq(c.ret, 0, 64, 'yields nothing')
                c.eq(c.out('q', 0), c.s['pos'], 64, 'position kept')

        def gen(rnd, case):
            ln = rnd.choice([rnd.randrange(0, w + 1), rnd.randrange(w, 4 * w)])
            return {'len': ln, 'pos': min(ln + rnd.choice([0, 1, 1 << 63]), max(0, ln - rnd.randrange(0, w + 1)))}
        return Con(prop, 'SIMDIter<%s %s>::end' % (kind, el), 'end_%s_%s' % (kind, el), cpu, args, body, post, dedup=('end', w, ELW[el]), pre=pre, ret='u64', gen=gen, module=module)
    if what == 'early':
        # calling end while more than one vector is left: unspecified result, but no access outside the slice
        body = mk + 'let r=it.end();match r{Some((v,n))=>{*o=v;*q.add(1)=n as u64;1},None=>0}'

        def pre(c):
            return [land(ult(c.s['pos'], c.s['len'], 64), ult(w, sub(c.s['len'], c.s['pos'], 64), 64))]

        def post(c):
            pass
        return Con(prop, 'SIMDIter<%s %s>::end (early)' % (kind, el), 'early_%s_%s' % (kind, el), cpu, args, body, post, dedup=('early', w, ELW[el]), pre=pre, ret='u64', gen=gen_len(w), module=module,
                   panics='may', mode='')
    if what == 'book':
        args = [SliceArg('p', el, 'len', mutp), S('len'), S('pos'), S('amt'), Ve('d', el, w, v), Ou('o', ELW[el], w, v), Ou('q', 64, 9, 'u64')]
        body = mk + ('*q=it.width() as u64;*q.add(1)=it.size() as u64;*q.add(2)=it.scalar_len() as u64;*q.add(3)=it.vector_len() as u64;*q.add(4)=it.len() as u64;'
                     '*q.add(5)=it.scalar_pos() as u64;*q.add(6)=it.vector_pos() as u64;it.advance(amt);*q.add(7)=it.scalar_pos() as u64;'
                     'if it.scalar_pos()<=it.scalar_len(){it.finalize();}*q.add(8)=it.scalar_pos() as u64;*o=SIMDIterable::default(&*(&it as &dyn_free));').replace(
                         'SIMDIterable::default(&*(&it as &dyn_free))', 'it.default()')

        def pre(c):
            return [ule(c.s['amt'], sub(M(64), c.s['pos'], 64), 64)]

        def post(c):
            L, P = c.s['len'], c.s['pos']
            E = add(P, c.s['amt'], 64)
            sh = w.bit_length() - 1
            for k, (want, nm) in enumerate([(w, 'width'), (ELW[el] // 8, 'size'), (L, 'scalar_len'), (lshr(L, sh, 64), 'vector_len'), (lshr(L, sh, 64), 'len'),
                                            (P, 'scalar_pos'), (lshr(P, sh, 64), 'vector_pos'), (E, 'advance'), (ite(ule(E, L, 64), L, E, 64), 'finalize')]):
                c.eq(c.out('q', k), want, 64, nm)
            for i in range(w):
                c.eq(c.out('o', i), c.vec('d')[i], ELW[el], 'default lane %d' % i)

        def gen(rnd, case):
            g = gen_len(w)(rnd, case)
            g['amt'] = rnd.randrange(0, 3 * w)
            return g
        return Con(prop, 'SIMDIter<%s %s> bookkeeping' % (kind, el), 'book_%s_%s' % (kind, el), cpu, args, body, post, dedup=('book', w, ELW[el]), pre=pre, gen=gen, module=module)


# ------------------------------------------------------------------ steps taken after other steps
HIST = ('u8', 'u32', 'f64')       # element types for which the steps are also verified after an earlier step


def after(con, tag, at, ins, moved, room=None, back=0, before=None):
    """`con` once more, with the earlier steps `ins` inserted before the text `at`; `moved(c)` is what they change: new
    values of the state, and outputs which count from there (None: nothing)"""
    if at not in con.body:
        raise KeyError('%s: %s' % (con.name, at))
    n = copy.copy(con)
    n.name = con.name + '_' + tag
    n.hist = True
    n.fn = '%s (after %s)' % (con.fn, tag)
    n.body = con.body.replace(at, ins + at, 1)
    n.dedup = None if con.dedup is None else (tag,) + tuple(con.dedup)

    def shifted(c, f):
        saved = c.s, c.rel
        m = moved(c)
        if m:
            c.s = dict(c.s, **m[0])
            c.rel = m[1]
        try:
            return f()
        finally:
            c.s, c.rel = saved

    def pre(c):
        if room:
            for x in room(c):
                yield x
        if con.pre:
            saved = c.s
            m = (before or moved)(c)
            c.s = dict(c.s, **m[0]) if m else c.s
            now = c.s
            for x in con.pre(c):
                c.s = saved
                yield x
                c.s = now
            c.s = saved
    n.pre = pre
    n.post = lambda c: shifted(c, lambda: con.post(c))

    def gen(rnd, case):
        g = con.gen(rnd, case)
        key = 'k' if 'k' in g else 'pos'
        if back and rnd.random() < .6 and back <= g[key] < 1 << 32:
            g[key] -= back
        return g
    n.gen = gen
    if con.panics not in (None, 'may'):
        n.panics = lambda c: shifted(c, lambda: con.panics(c))
    return n


def after_next(c, w, ln='len', pos='pos', rel=None):
    """what one call of next() changes"""
    if c.when(has_full(c, w, ln, pos)):
        return {pos: add(c.s[pos], w, 64)}, rel or {}


def after_end(w, ln='len', pos='pos', rel=None):
    def room(c):
        if c.when(ult(c.s[pos], c.s[ln], 64)):
            yield ule(sub(c.s[ln], c.s[pos], 64), w, 64)
            c.split(sub(c.s[ln], c.s[pos], 64))

    def moved(c):
        if c.when(ult(c.s[pos], c.s[ln], 64)):
            return {pos: c.s[ln]}, rel or {}
    return room, moved


def histories(con, it, at, w, ln='len', pos='pos', rel=None, tags=('n', 'e')):
    """`con` after a call of next, and after a call of end"""
    out = []
    if 'n' in tags:
        def early(c):
            c.when(has_full(c, w, ln, pos))      # two paths from the start
            yield from ()
        out.append(after(con, 'n', at, 'let _=%s.next();' % it, lambda c: after_next(c, w, ln, pos, rel), early, back=w))
    if 'e' in tags:
        room, moved = after_end(w, ln, pos, rel)
        out.append(after(con, 'e', at, 'let _=%s.end();' % it, moved, room))
    return out


def c01(cpus):
    out = []
    for cpu in cpus:
        for el in ELS:
            for kind in KINDS:
                for what in ('next', 'end', 'book', 'early'):
                    c = slice_step(cpu, el, kind, what, 'C01', 'it_C01')
                    out.append(c)
                    if el in HIST and kind in ('ref', 'mut') and what in ('next', 'end'):
                        out += histories(c, 'it', 'let r=it.', W(cpu, el))
    return out



# ------------------------------------------------------------------ C11/C12: loads and stores at an offset
ARR = {
    'slice': 'let s0:&[{el}]=from_raw_parts(p,len);let a=s0;',
    'mutslice': 'let s0:&mut [{el}]=from_raw_parts_mut(p,len);let mut a=s0;',
    'vec': 'let s0:Vec<{el}>=Vec::from_raw_parts(p,len,len);let mut a=ManuallyDrop::new(s0);',
    'iter': 'let s0:&[{el}]=from_raw_parts(p,len);let a=s0.simd_iter(faster::vecs::Packed::default());',
}
MUTARR = ('mutslice', 'vec')


def fits(c, n, off='off', ln='len'):
    return land(ule(c.s[off], c.s[ln], 64), ule(n, sub(c.s[ln], c.s[off], 64), 64))


def gen_off(n):
    def g(rnd, case):
        ln = rnd.randrange(0, 3 * n + 2)
        off = rnd.randrange(0, max(1, ln - n + 1)) if rnd.random() < .6 else rnd.choice([ln, ln + 1, max(0, ln - n + 1), (1 << 64) - rnd.randrange(1, n + 2), (1 << 63) + rnd.randrange(0, 4),
                                                                               (1 << 62) // 2 * rnd.randrange(1, 4), (1 << 64) // 4 - rnd.randrange(0, 3)])
        return {'len': ln, 'off': off, 'j': rnd.randrange(0, max(ln, 1))}
    return g


def access(cpu, el, n, form, what, mode, prop, module):
    """what: load, load_unchecked, store, store_unchecked, load_scalar, ..., through Packed (form None) or the array traits"""
    v = '%sx%d' % (el, n)
    w = ELW[el]
    scal = 'scalar' in what
    k = 1 if scal else n
    unch = 'unchecked' in what
    ld = what.startswith('load')
    checked = not unch
    mutp = form in MUTARR or not ld
    args = [SliceArg('p', el, 'len', mutp, rw=not ld), S('len'), S('off')]
    if not ld:
        args.append(S('j', ghost=True))
        args.append(Ve('a', el, k, el if scal else v))
    else:
        args.append(Ou('o', w, k, el if scal else v))
    if form is None:
        mk = 'let s0:&[{el}]=from_raw_parts(p,len);' if ld else 'let s0:&mut [{el}]=from_raw_parts_mut(p,len);'
        call = '<%s as faster::vecs::Packed>::' % v + (('%s(s0,off)' % what) if ld else ('%s(*a,s0,off)' % what))
    else:
        mk = ARR[form]
        t = 'faster::iters::' + ('SIMDArray' if ld else 'SIMDArrayMut')
        mk = mk.replace('let a=', 'let arr=').replace('let mut a=', 'let mut arr=')
        R = '&*arr' if form == 'vec' else '&arr'
        call = ('%s::%s(%s,off)' % (t, what, R)) if ld else ('%s::%s(&mut arr,*a,off)' % (t, what))
    body = mk.format(el=el) + ('*o=%s;' % call if ld else call + ';')

    def pre(c):
        if unch:
            yield fits(c, k)
        if not ld:
            yield ult(c.s['j'], c.s['len'], 64)

    def panics(c):
        return not_(fits(c, k))

    def post(c):
        if ld:
            for i in range(k):
                c.eq(c.out('o', i), c.elem('p', add(c.s['off'], i, 64)), w, 'lane %d' % i)
        else:
            j = c.s['j']
            d = sub(j, c.s['off'], 64)
            if c.when(ult(d, k, 64)):
                q = c.split(d)
                c.eq(c.cur('p', j), c.vec('a')[q], w, 'stored lane')
            else:
                c.eq(c.cur('p', j), c.elem('p', j), w, 'other elements unchanged')
    nm = '%s_%s_%s' % (what, v, form or 'packed')
    return Con(prop, ('<%s>::%s' % (form, what)) if form else '%s::%s' % (v, what), nm, cpu, args, body, post, pre=pre, panics=panics if checked else None, gen=gen_off(k), mode=mode,
               module=module, dedup=(what, w, n, form is None))


def vectypes():
    return [(e, b // ELW[e]) for b in (128, 256, 512) for e in ELS]


def accesses(cpus, prop):
    out = []
    for cpu in cpus:
        for chk in ((True,) if prop == 'C11' else (False,)):
            for mode in (('do', '') if chk else ('do',)):
                sfx = '' if chk else '_unchecked'
                for el, n in vectypes():
                    for w in ('load', 'store'):
                        out.append(access(cpu, el, n, None, w + sfx, mode, prop, 'acc_' + prop))
                for el in ELS:
                    for form in ARR:
                        for w in ('load', 'load_scalar'):
                            out.append(access(cpu, el, W(cpu, el), form, w + sfx, mode, prop, 'acc_' + prop))
                        if form == 'mutslice':
                            for w in ('store', 'store_scalar'):
                                out.append(access(cpu, el, W(cpu, el), form, w + sfx, mode, prop, 'acc_' + prop))
    return out


# ------------------------------------------------------------------ C09: unpack, pack, unroll
def c09(cpus):
    out = []
    for cpu in cpus:
        for el in ELS:
            w = W(cpu, el)
            v = vec(cpu, el)
            mk = KINDS['ref'][1].format(el=el) + 'it.advance(pos);'
            base = [SliceArg('p', el, 'len', False), S('len'), S('pos'), Ve('d', el, w, v)]

            def small(c):
                yield ule(c.s['pos'], M(63), 64)

            def upost(c):
                c.eq(c.out('q', 1), c.s['pos'], 64, 'packing keeps the position')
                c.eq(c.out('q', 2), c.s['len'], 64, 'packing keeps the length')
                if c.when(ult(c.s['pos'], c.s['len'], 64)):
                    c.eq(c.ret, 1, 64, 'yields an element')
                    c.eq(c.out('o', 0), c.elem('p', c.s['pos']), ELW[el], 'the element at the position')
                    c.eq(c.out('q', 0), add(c.s['pos'], 1, 64), 64, 'position advanced by one')
                else:
                    c.eq(c.ret, 0, 64, 'yields nothing')
                    c.eq(c.out('q', 0), c.s['pos'], 64, 'position kept')
            body = mk + ('let u=it.unpack();let it=u.pack();*q.add(1)=it.scalar_pos() as u64;*q.add(2)=it.scalar_len() as u64;let mut u=it.unpack();let r=u.next();'
                         'let it=u.pack();*q=it.scalar_pos() as u64;match r{Some(x)=>{*o=x;1},None=>0}')
            out.append(Con('C09', 'Unpacked::next, pack', 'unpack_' + el, cpu, base + [Ou('o', ELW[el], 1, el), Ou('q', 64, 3, 'u64')], body, upost, pre=small, ret='u64',
                           gen=lambda rnd, case, w=w: dict(gen_len(w)(rnd, case), pos=rnd.randrange(0, 2 * w)), module='it_C09', dedup=('unpack', ELW[el])))

            # unroll: state = the position; amt is a case
            def unpost(c, w=w, v=v, el=el):
                amt, L, P = c.s['amt'], c.s['len'], c.s['pos']
                sh = w.bit_length() - 1
                left = ite(ult(P, L, 64), lshr(sub(L, P, 64), sh, 64), 0, 64)
                m = amt if c.when(ule(amt, left, 64)) else c.split(left)
                c.eq(c.out('q', 1), amt, 64, 'chunk_len')
                c.eq(c.out('q', 0), add(P, m * w, 64), 64, 'position advanced by the vectors handed out')
                if m == 0:
                    c.eq(c.ret, 0, 64, 'yields nothing')
                else:
                    c.eq(c.ret, m, 64, 'number of vectors')
                    for k in range(m):
                        for i in range(w):
                            c.eq(c.out('o', k * w + i), c.elem('p', add(P, k * w + i, 64)), ELW[el], 'vector %d lane %d' % (k, i))
            body = mk + ('let k={let mut u=it.unroll(amt);*q.add(1)=u.chunk_len() as u64;match u.next(){Some(vs)=>{let mut k=0;while k<vs.len(){*o.add(k)=vs[k];k+=1;}k as u64},None=>0}};'
                         '*q=it.scalar_pos() as u64;k')
            amts = range(0, 9) if el in ('u64', 'f32') else (1, 2, 3, 8)

            def unpre(c, w=w):
                yield ule(c.s['pos'], M(63), 64)
                if c.when(ult(c.s['pos'], c.s['len'], 64)):
                    left = sub(c.s['len'], c.s['pos'], 64)
                    if not c.when(ule(c.s['amt'] * w, left, 64)):
                        c.split(lshr(left, w.bit_length() - 1, 64))
            out.append(Con('C09', 'Unrolled::next', 'unroll_' + el, cpu, base + [S('amt'), Ou('o', ELW[el], 8 * w, v), Ou('q', 64, 2, 'u64')], body, unpost, pre=unpre, ret='u64',
                           gen=lambda rnd, case, w=w: dict((lambda L: {'len': L, 'pos': rnd.randrange(0, L + 2)})(rnd.randrange(0, 12 * w))), module='it_C09', cases=[{'amt': a} for a in amts],
                           dedup=('unroll', ELW[el]), cost=8))
            if el in ('u32', 'f64'):
                def moved(c, w=w):
                    if c.when(ult(c.s['pos'], c.s['len'], 64)):
                        left = sub(c.s['len'], c.s['pos'], 64)
                        m = c.s['amt'] if c.when(ule(c.s['amt'] * w, left, 64)) else c.split(lshr(left, w.bit_length() - 1, 64))
                        return {'pos': add(c.s['pos'], m * w, 64)}, {}
                h = after(out[-1], 'n', 'match u.next()', 'let _=u.next().is_some();', moved, lambda c: [ule(c.s['pos'], M(62), 64)], back=w)
                h.cases = [{'amt': a} for a in (1, 2, 3, 5)]
                out.append(h)
            out.append(Con('C09', 'SIMDIterable::unroll (amount above 8)', 'unrollbig_' + el, cpu, base + [S('amt')], mk + 'let u=it.unroll(amt);', lambda c: None, mode='',
                           panics=lambda c: ult(8, c.s['amt'], 64), gen=gen_len(w), module='it_C09', dedup=('unrollbig',)))

            def cppost(c, w=w):
                sh = w.bit_length() - 1
                c.eq(c.out('q', 0), lshr(c.s['pos'], sh, 64) // c.s['amt'] if isint(c.s['pos']) else z3.UDiv(lshr(c.s['pos'], sh, 64), bv(c.s['amt'], 64)), 64, 'chunk_pos')
            if el in ('u64', 'u8'):
                out.append(Con('C09', 'Unrolled::chunk_pos', 'chunkpos_' + el, cpu, base + [S('amt'), Ou('q', 64, 1, 'u64')], mk + 'let u=it.unroll(amt);*q=u.chunk_pos() as u64;', cppost,
                               gen=gen_len(w), module='it_C09', cases=[{'amt': a} for a in range(1, 9)], dedup=('chunkpos', w)))
    return out


# ------------------------------------------------------------------ C05/C06: maps and zips
def others(cpu, el):
    """output vector types of a map over el vectors"""
    b = vbits(cpu)
    t = [(e, b // ELW[e]) for e in dict.fromkeys([el, 'u8', 'i16', 'f32', 'u64'])]
    if el in ('u8', 'u32', 'f64'):
        t += [(el, b * 2 // ELW[el])] + ([(el, b // 2 // ELW[el])] if b == 256 else [])
    return t


def with_histories(cpu, cons, it, pick, ln='len', pos='pos', rel=None):
    """the next and end steps among `cons`, also after an earlier step"""
    out = []
    for c in cons:
        out.append(c)
        p = c.name.split('_')
        if p[0].lstrip('amz') in ('next', 'end') and pick(p):
            el = p[2] if p[0][0] == 'z' else p[1]
            out += histories(c, it, 'let r=%s.' % it, W(cpu, el), ln, pos, rel)
    return out


def nscaled(n, w1, w2):
    return n * w2 // w1


def zipargs(cpu, els, lens=None):
    a, mk = [], ''
    for k, e in enumerate(els):
        ln = 'len' if lens is None else lens[k]
        a.append(SliceArg('p%d' % k, e, ln, False))
        mk += 'let s%d:&[%s]=from_raw_parts(p%d,%s);let mut i%d=s%d.simd_iter(*d%d);' % (k, e, k, ln, k, k, k)
    return a, mk


def tup(els, f):
    return '(' + ','.join(f(k) for k in range(len(els))) + ')'


def lanes_next(c, w, p, i, pos='pos'):
    return c.elem(p, add(c.s[pos], i, 64))


def zipped(cpu, els, what, mapped=None, prop='C06', module='it_C06'):
    """zip of slice iterators over els (all at the same position); mapped: output vector type of a map over the zip"""
    w = W(cpu, els[0])
    N = len(els)
    sl, mk = zipargs(cpu, els)
    args = sl + [S('len'), S('pos')] + [Ve('d%d' % k, e, w, vec(cpu, e)) for k, e in enumerate(els)]
    outs = [Ou('o%d' % k, ELW[e], w, vec(cpu, e)) for k, e in enumerate(els)]
    mk += ''.join('i%d.advance(pos);' % k for k in range(N)) + 'let mut z=%s.zip();' % tup(els, lambda k: 'i%d' % k)
    put = ''.join('*o%d=v.%d;' % (k, k) for k in range(N))
    if mapped:
        me, mn = mapped
        args += [Ve('fr', me, mn, '%sx%d' % (me, mn))]
        outs.append(Ou('o', ELW[me], mn, '%sx%d' % (me, mn)))
        mk += 'let mut cnt=0u64;let mut rc=%s;' % tup(els, lambda k: '*d%d' % k)
        vt = tup(els, lambda k: vec(cpu, els[k]))
        wrap = lambda call: ('let r={let mut m=z.simd_map(|v:%s|->%sx%d{rc=v;cnt+=1;*fr});let r=%s;*q=m.scalar_pos() as u64;r};*q.add(2)=cnt;let v=rc;' % (vt, me, mn, call))
    else:
        wrap = lambda call: 'let r=%s;*q=z.scalar_pos() as u64;' % call.replace('m.', 'z.')
    args += outs + [Ou('q', 64, 12, 'u64')]
    tag = '%d_%s' % (N, els[0]) + ('_' + '%sx%d' % mapped if mapped else '')
    fnn = ('SIMDZipMap' if mapped else 'Zip') + '<%s>' % ','.join(els)
    key = (what, tuple(ELW[e] for e in els), mapped and (ELW[mapped[0]], mapped[1]), w)

    def check_map(c, yes):
        if mapped:
            c.eq(c.out('q', 2), 1 if yes else 0, 64, 'number of calls of the function')
            if yes:
                for i in range(mapped[1]):
                    c.eq(c.out('o', i), c.vec('fr')[i], ELW[mapped[0]], 'result lane %d' % i)
    if what == 'next':
        body = mk + wrap('m.next()') + ('match r{Some(x)=>{*o=x;%s1},None=>0}' % put if mapped else 'match r{Some(v)=>{%s1},None=>0}' % put)

        def post(c):
            if c.when(has_full(c, w)):
                c.eq(c.ret, 1, 64, 'yields vectors')
                for k, e in enumerate(els):
                    for i in range(w):
                        c.eq(c.out('o%d' % k, i), c.elem('p%d' % k, add(c.s['pos'], i, 64)), ELW[e], 'component %d lane %d' % (k, i))
                check_map(c, True)
                c.eq(c.out('q', 0), add(c.s['pos'], w, 64), 64, 'position advanced')
            else:
                c.eq(c.ret, 0, 64, 'yields nothing')
                check_map(c, False)
                c.eq(c.out('q', 0), c.s['pos'], 64, 'position kept')
        return Con(prop, fnn + '::next', 'znext_' + tag, cpu, args, body, post, ret='u64', gen=gen_len(w), module=module, dedup=key, cost=N)
    if what == 'end':
        body = mk + wrap('m.end()') + ('match r{Some((x,n))=>{*o=x;*q.add(1)=n as u64;%s1},None=>0}' % put if mapped else 'match r{Some((v,n))=>{*q.add(1)=n as u64;%s1},None=>0}' % put)

        def post(c):
            if c.when(ult(c.s['pos'], c.s['len'], 64)):
                r = c.split(sub(c.s['len'], c.s['pos'], 64))
                n = w - r
                c.eq(c.ret, 1, 64, 'yields the tail')
                c.eq(c.out('q', 1), nscaled(n, w, mapped[1]) if mapped else n, 64, 'number of filler lanes')
                for k, e in enumerate(els):
                    for i in range(w):
                        want = c.vec('d%d' % k)[i] if i < n else c.elem('p%d' % k, add(c.s['pos'], i - n, 64))
                        c.eq(c.out('o%d' % k, i), want, ELW[e], 'component %d lane %d' % (k, i))
                check_map(c, True)
                c.eq(c.out('q', 0), c.s['len'], 64, 'position at the end')
            else:
                c.eq(c.ret, 0, 64, 'yields nothing')
                check_map(c, False)
                c.eq(c.out('q', 0), c.s['pos'], 64, 'position kept')
        return Con(prop, fnn + '::end', 'zend_' + tag, cpu, args, body, post, pre=end_pre(w), ret='u64', gen=gen_end(w), module=module, dedup=key, cost=3 * N * w)
    if what == 'book':
        x = 'm' if mapped else 'z'
        pre_ = ('let mut m=z.simd_map(|v:%s|->%sx%d{*fr});' % (vt, mapped[0], mapped[1])) if mapped else ''
        body = mk + pre_ + ('*q=X.width() as u64;*q.add(1)=X.size() as u64;*q.add(2)=X.scalar_len() as u64;*q.add(3)=X.len() as u64;*q.add(4)=X.scalar_pos() as u64;'
                            'X.advance(amt);*q.add(5)=X.scalar_pos() as u64;if X.scalar_pos()<=X.scalar_len(){X.finalize();}*q.add(6)=X.scalar_pos() as u64;').replace('X', x)
        if mapped:
            body += 'let df:%sx%d=m.default();*o=df;' % mapped
            if mapped[1] == w:
                body += '*q.add(7)=m.vector_len() as u64;*q.add(8)=m.vector_pos() as u64;'
        else:
            body += 'let v=z.default();%s*q.add(7)=z.vector_len() as u64;*q.add(8)=z.vector_pos() as u64;' % put
        args = args[:-1] + [S('amt'), args[-1]]

        def pre(c):
            return [ule(c.s['amt'], sub(M(64), c.s['pos'], 64), 64)]

        def post(c):
            L, P = c.s['len'], c.s['pos']
            E = add(P, c.s['amt'], 64)
            F = ite(ule(E, L, 64), L, E, 64)
            sh = w.bit_length() - 1
            for k, (want, nm) in enumerate([(mapped[1] if mapped else w, 'width'), (ELW[mapped[0] if mapped else els[0]] // 8, 'size'), (L, 'scalar_len'), (lshr(L, sh, 64), 'len'),
                                            (P, 'scalar_pos'), (E, 'advance'), (F, 'finalize'), (lshr(L, sh, 64), 'vector_len'), (lshr(F, sh, 64), 'vector_pos')]):
                if k < 7 or not mapped or mapped[1] == w:
                    c.eq(c.out('q', k), want, 64, nm)
            if mapped:
                for i in range(mapped[1]):
                    c.eq(c.out('o', i), 0, ELW[mapped[0]], 'default lane %d' % i)
            else:
                for k, e in enumerate(els):
                    for i in range(w):
                        c.eq(c.out('o%d' % k, i), c.vec('d%d' % k)[i], ELW[e], 'default %d lane %d' % (k, i))
        return Con(prop, fnn + ' bookkeeping', 'zbook_' + tag, cpu, args, body, post, pre=pre, gen=lambda rnd, case: dict(gen_len(w)(rnd, case), amt=rnd.randrange(0, 3 * w)), module=module,
                   dedup=key)


def zip_reject(cpu, els):
    N = len(els)
    lens = ['l%d' % k for k in range(N)]
    sl, mk = zipargs(cpu, els, lens)
    args = sl + [S(x) for x in lens] + [Ve('d%d' % k, e, W(cpu, e), vec(cpu, e)) for k, e in enumerate(els)]
    body = mk + 'let z=%s.zip();' % tup(els, lambda k: 'i%d' % k)
    ws = {W(cpu, e) for e in els}

    def panics(c):
        return 1 if len(ws) > 1 else not_(land(*[eq(c.s['l0'], c.s[x], 64) for x in lens[1:]]))

    def gen(rnd, case):
        L = rnd.randrange(0, 40)
        g = {x: L for x in lens}
        if rnd.random() < .7:
            g[rnd.choice(lens)] = L + rnd.choice([1, 1, 2, 3, 4, 16])
        return g
    return Con('C06', 'IntoSIMDZip<%s>::zip' % ','.join(els), 'zrej_%d_%s' % (N, '_'.join(els[:3])), cpu, args, body, lambda c: None, panics=panics, gen=gen, mode='', module='it_C06')


def end_pre(w):
    def pre(c):
        if c.when(ult(c.s['pos'], c.s['len'], 64)):
            yield ule(sub(c.s['len'], c.s['pos'], 64), w, 64)
            c.split(sub(c.s['len'], c.s['pos'], 64))
    return pre


def gen_end(w):
    def gen(rnd, case):
        ln = rnd.choice([rnd.randrange(0, w + 1), rnd.randrange(w, 4 * w)])
        return {'len': ln, 'pos': min(ln + rnd.choice([0, 1, 1 << 63]), max(0, ln - rnd.randrange(0, w + 1)))}
    return gen


MIX = {32: ['u32', 'f32', 'i32'], 64: ['i64', 'u64', 'f64'], 16: ['u16', 'i16'], 8: ['i8', 'u8']}


def mixed(n, first, b):
    m = MIX[b]
    k = m.index(first)
    return [m[(k + i) % len(m)] for i in range(n)]


def c06(cpus):
    out = []
    for cpu in cpus:
        for n in range(2, 14):
            sets = [mixed(n, 'u32' if n % 2 else 'f32', 32)]
            if n == 2:
                sets = [mixed(2, e, ELW[e]) for e in ELS]
            elif n == 3:
                sets = [mixed(3, e, ELW[e]) for e in ('u32', 'f64', 'u16', 'i8')]
            for els in sets:
                for what in ('next', 'end', 'book'):
                    out += with_histories(cpu, [zipped(cpu, els, what)], 'z', lambda p: p[1] in '2 3' and p[2] in HIST + ('u16', 'f32'))
                out.append(zip_reject(cpu, els))
        for els in (['u8', 'u16'], ['u32', 'u64'], ['f32', 'f64'], ['i16', 'i32'], ['u32', 'f32', 'f64']):
            out.append(zip_reject(cpu, els))
    return out


def mapped_slice(cpu, el, to, what):
    w = W(cpu, el)
    v = vec(cpu, el)
    me, mn = to
    mt = '%sx%d' % to
    mk = KINDS['ref'][1].format(el=el) + 'it.advance(pos);let mut cnt=0u64;let mut rc=*d;'
    args = [SliceArg('p', el, 'len', False), S('len'), S('pos'), Ve('d', el, w, v), Ve('fr', me, mn, mt), Ou('o', ELW[me], mn, mt), Ou('rec', ELW[el], w, v)]
    mm = 'let r={let mut m=it.simd_map(|v:%s|->%s{rc=v;cnt+=1;*fr});let r=m.CALL();*q=m.scalar_pos() as u64;r};*q.add(2)=cnt;*rec=rc;' % (v, mt)
    key = ('map', what, ELW[el], w, ELW[me], mn)
    tag = '%s_%s' % (el, mt)
    fnn = 'SIMDMap<%s -> %s>' % (v, mt)

    def res(c, yes):
        c.eq(c.out('q', 2), 1 if yes else 0, 64, 'number of calls of the function')
        if yes:
            for i in range(mn):
                c.eq(c.out('o', i), c.vec('fr')[i], ELW[me], 'result lane %d' % i)
    if what == 'next':
        def post(c):
            if c.when(has_full(c, w)):
                c.eq(c.ret, 1, 64, 'yields a vector')
                for i in range(w):
                    c.eq(c.out('rec', i), c.elem('p', add(c.s['pos'], i, 64)), ELW[el], 'argument lane %d' % i)
                res(c, True)
                c.eq(c.out('q', 0), add(c.s['pos'], w, 64), 64, 'position advanced')
            else:
                c.eq(c.ret, 0, 64, 'yields nothing')
                res(c, False)
                c.eq(c.out('q', 0), c.s['pos'], 64, 'position kept')
        return Con('C05', fnn + '::next', 'mnext_' + tag, cpu, args + [Ou('q', 64, 12, 'u64')], mk + mm.replace('CALL', 'next') + 'match r{Some(x)=>{*o=x;1},None=>0}', post, ret='u64',
                   gen=gen_len(w), module='it_C05', dedup=key)
    if what == 'end':
        def post(c):
            if c.when(ult(c.s['pos'], c.s['len'], 64)):
                r = c.split(sub(c.s['len'], c.s['pos'], 64))
                n = w - r
                c.eq(c.ret, 1, 64, 'yields the tail')
                c.eq(c.out('q', 1), nscaled(n, w, mn), 64, 'number of filler lanes')
                for i in range(w):
                    want = c.vec('d')[i] if i < n else c.elem('p', add(c.s['pos'], i - n, 64))
                    c.eq(c.out('rec', i), want, ELW[el], 'argument lane %d' % i)
                res(c, True)
                c.eq(c.out('q', 0), c.s['len'], 64, 'position at the end')
            else:
                c.eq(c.ret, 0, 64, 'yields nothing')
                res(c, False)
                c.eq(c.out('q', 0), c.s['pos'], 64, 'position kept')
        return Con('C05', fnn + '::end', 'mend_' + tag, cpu, args + [Ou('q', 64, 12, 'u64')], mk + mm.replace('CALL', 'end') + 'match r{Some((x,n))=>{*o=x;*q.add(1)=n as u64;1},None=>0}',
                   post, pre=end_pre(w), ret='u64', gen=gen_end(w), module='it_C05', dedup=key, cost=3 * w)
    body = KINDS['ref'][1].format(el=el) + 'it.advance(pos);let mut m=it.simd_map(|v:%s|->%s{*fr});' % (v, mt) + (
        '*q=m.width() as u64;*q.add(1)=m.size() as u64;*q.add(2)=m.scalar_len() as u64;*q.add(3)=m.len() as u64;*q.add(4)=m.scalar_pos() as u64;'
        'm.advance(amt);*q.add(5)=m.scalar_pos() as u64;if m.scalar_pos()<=m.scalar_len(){m.finalize();}*q.add(6)=m.scalar_pos() as u64;*o=m.default();')
    if mn == w:
        body += '*q.add(7)=m.vector_len() as u64;*q.add(8)=m.vector_pos() as u64;'

    def post(c):
        L, P = c.s['len'], c.s['pos']
        E = add(P, c.s['amt'], 64)
        F = ite(ule(E, L, 64), L, E, 64)
        sh = w.bit_length() - 1
        for k, (want, nm) in enumerate([(mn, 'width'), (ELW[me] // 8, 'size'), (L, 'scalar_len'), (lshr(L, sh, 64), 'len'), (P, 'scalar_pos'), (E, 'advance'), (F, 'finalize'),
                                        (lshr(L, sh, 64), 'vector_len'), (lshr(F, sh, 64), 'vector_pos')]):
            if k < 7 or mn == w:
                c.eq(c.out('q', k), want, 64, nm)
        for i in range(mn):
            c.eq(c.out('o', i), 0, ELW[me], 'default lane %d' % i)
    return Con('C05', fnn + ' bookkeeping', 'mbook_' + tag, cpu, [a for a in args if a.name != 'rec'] + [S('amt'), Ou('q', 64, 12, 'u64')], body, post,
               pre=lambda c: [ule(c.s['amt'], sub(M(64), c.s['pos'], 64), 64)], gen=lambda rnd, case: dict(gen_len(w)(rnd, case), amt=rnd.randrange(0, 3 * w)), module='it_C05', dedup=key)


def c05(cpus):
    out = []
    for cpu in cpus:
        for el in ELS:
            for to in others(cpu, el):
                for what in ('next', 'end', 'book'):
                    out += with_histories(cpu, [mapped_slice(cpu, el, to, what)], 'm', lambda p: p[1] in HIST and p[2][:-2].rstrip('x') in (p[1], 'f32', 'u8'), rel={('q', 2): 1})
        for els in (['u8', 'i8'], ['u32', 'f32'], ['f64', 'i64'], ['i16', 'u16'], ['f32', 'f32', 'f32']):
            for to in others(cpu, els[0]):
                for what in ('next', 'end', 'book'):
                    out += with_histories(cpu, [zipped(cpu, els, what, to, 'C05', 'it_C05')], 'm', lambda p: p[1] == '2' and p[3] == p[2] + 'x%d' % W(cpu, p[2]) and p[2] in HIST, rel={('q', 2): 1})
    return out


# ------------------------------------------------------------------ C07: strides
def strides(cpus):
    out = []
    for cpu in cpus:
        for el in ELS:
            w = W(cpu, el)
            v = vec(cpu, el)
            combos = []
            for s, f in ((2, 'stride_two'), (3, 'stride_three'), (4, 'stride_four'), (9, 'stride_nine')):
                for b in (range(s) if el in ('u32', 'f64') else (0, s - 1)):
                    combos.append((s, b, f))
            for s in (range(1, 10) if el in ('u32', 'f64') else (2, 5)):
                for b in (range(s) if el == 'u32' else (0, s - 1) if s > 1 else (0,)):
                    combos.append((s, b, 'stride_into'))
            for s, b, f in combos:
                out += strided(cpu, el, s, b, f)
            for mode in ('do', ''):
                out += strided(cpu, el, 3, 1, 'stride_three', 'C11', mode)
            out += [c for c in strided(cpu, el, 2, 1, 'stride_two', 'C11', '')]
    return out


ARRT = """struct Arr<'s,A:SIMDArray>(Vec9<'s,A>,usize);type Vec9<'s,A>=[Option<PackedStride<'s,A>>;9];
impl<'s,A:SIMDArray> std::iter::FromIterator<PackedStride<'s,A>> for Arr<'s,A>{#[inline(always)]fn from_iter<I:IntoIterator<Item=PackedStride<'s,A>>>(i:I)->Self{
let mut r=Arr([None,None,None,None,None,None,None,None,None],0);let mut i=i.into_iter();while let Some(x)=i.next(){if r.1<9{r.0[r.1]=Some(x);}r.1+=1;}r}}
"""


def strided(cpu, el, s, b, f, prop='C07', mode='do'):
    w = W(cpu, el)
    v = vec(cpu, el)
    mod = 'it_' + prop
    # len = m*s + t: m elements in each stride
    base = [SliceArg('p', el, 'len', False), S('m', ghost=True), S('t', ghost=True), S('len', derive=lambda d: add(mul(d['m'], s, 64), d['t'], 64))]
    dd = [Ve('d%d' % k, el, w, v) for k in range(s)]
    mk = 'let s0:&[%s]=from_raw_parts(p,len);' % el
    if f == 'stride_into':
        mk += 'let df=[%s];let c:Arr<&[%s]>=Stride::stride_into(&s0,%d,&df[..]);*q.add(5)=c.1 as u64;let mut it=match c.0[%d]{Some(ref x)=>x.clone(),None=>panic!()};' % (
            ','.join('*d%d' % k for k in range(s)), el, s, b)
    else:
        mk += '*q.add(5)=%d;let mut it=Stride::%s(&s0,(%s)).%d;' % (s, f, ','.join('*d%d' % k for k in range(s)), b)
    tag = '%s_%d_%d_%s' % (el, s, b, f)

    def idx(c, k, i):
        """slice index of element k+i of the stride"""
        return add(add(mul(k, s, 64), i * s, 64), b, 64)

    def bound(c):
        yield ule(c.s['t'], s - 1, 64)
        yield ule(c.s['m'], (1 << 63) // (ELW[el] // 8) // s, 64)

    def gen(rnd, case):
        m = rnd.randrange(0, 3 * w + 2)
        return {'m': m, 't': rnd.randrange(s), 'k': max(0, m - rnd.randrange(0, 2 * w + 2)), 'amt': rnd.randrange(0, 2 * w), 'off': rnd.choice([rnd.randrange(0, m + 2)] * 3 + [rnd.getrandbits(64)] +
                [((1 << 64) * rnd.randrange(0, s) // s + rnd.randrange(-2 * w, w)) & M(64)] * 3)}
    fnn = 'PackedStride<%s, %d of %d via %s>' % (el, b, s, f)
    cons = []

    def mkc(what, args, body, post, pre, **kw):
        cons.append(Con(prop, fnn + '::' + what, '%s_%s' % (what, tag), cpu, args, mk + body, post, pre=pre, gen=gen, module=mod, mode=mode, 
                        dedup=(what, ELW[el], s, b, f, prop), extra='', **kw))
    O, Q = Ou('o', ELW[el], w, v), Ou('q', 64, 12, 'u64')
    if prop == 'C11':
        # loads through the stride at any offset
        def lpost(c):
            for i in range(w):
                c.eq(c.out('o', i), c.elem('p', idx(c, c.s['off'], i)), ELW[el], 'lane %d' % i)

        def cnt(c):
            # elements of the stride inside the slice: ceil((len-b)/s)
            return c.s['m'] if c.when(ule(c.s['t'], b, 64)) else add(c.s['m'], 1, 64)

        def lpanics(c, n=w):
            k = cnt(c)
            return 0 if c.when(ule(c.s['off'], k, 64)) and c.when(ule(n, sub(k, c.s['off'], 64), 64)) else 1

        def spanics(c):
            return lpanics(c, 1)

        def lbound(c):
            yield from bound(c)
            lpanics(c)

        def sbound(c):
            yield from bound(c)
            spanics(c)

        def spost(c):
            c.eq(c.out('o', 0), c.elem('p', idx(c, c.s['off'], 0)), ELW[el], 'element')
        mkc('load', base + [S('off')] + dd + [O, Q], '*o=SIMDArray::load(&it,off);', lpost, lbound, panics=lpanics)
        mkc('load_scalar', base + [S('off')] + dd + [Ou('o', ELW[el], 1, el), Q], '*o=SIMDArray::load_scalar(&it,off);', spost, sbound, panics=spanics)
        return cons
    adv = 'it.advance(k);'

    def common(c):
        c.eq(c.out('q', 5), s, 64, 'number of iterators')

    def pre_state(c):
        yield ule(c.s['t'], s - 1, 64)
        yield ule(c.s['m'], (1 << 63) // (ELW[el] // 8) // s, 64)
        yield ule(c.s['k'], c.s['m'], 64)

    def npost(c):
        common(c)
        k, m = c.s['k'], c.s['m']
        left = sub(m, k, 64)
        if c.when(eq(c.ret, 1, 64)):
            c.req(ule(w, left, 64), 'a full vector is left')
            for i in range(w):
                c.eq(c.out('o', i), c.elem('p', idx(c, k, i)), ELW[el], 'lane %d' % i)
            c.eq(c.out('q', 0), add(k, w, 64), 64, 'position advanced')
        else:
            c.eq(c.ret, 0, 64, 'yields a vector or nothing')
            c.req(ule(left, w, 64), 'at most one vector is left')
            c.eq(c.out('q', 0), k, 64, 'position kept')
    mkc('next', base + [S('k')] + dd + [O, Q], adv + 'let r=it.next();*q=it.scalar_pos() as u64;match r{Some(v)=>{*o=v;1},None=>0}', npost, pre_state, ret='u64', cost=w)

    def end_pre_(c):
        yield ule(c.s['t'], s - 1, 64)
        yield ule(c.s['m'], (1 << 63) // (ELW[el] // 8) // s, 64)
        yield ule(c.s['k'], c.s['m'], 64)
        yield ule(sub(c.s['m'], c.s['k'], 64), w, 64)
        c.split(sub(c.s['m'], c.s['k'], 64))

    def epost(c):
        common(c)
        k, m = c.s['k'], c.s['m']
        r = c.split(sub(m, k, 64))
        c.eq(c.out('q', 0), m, 64, 'position at the end')
        if r == 0:
            c.eq(c.ret, 0, 64, 'yields nothing')
            return
        n = w - r
        c.eq(c.ret, 1, 64, 'yields the tail')
        c.eq(c.out('q', 1), n, 64, 'number of default lanes')
        for i in range(w):
            c.eq(c.out('o', i), c.vec('d%d' % b)[i] if i < n else c.elem('p', idx(c, k, i - n)), ELW[el], 'lane %d' % i)
    mkc('end', base + [S('k')] + dd + [O, Q], adv + 'let r=it.end();*q=it.scalar_pos() as u64;match r{Some((v,n))=>{*o=v;*q.add(1)=n as u64;1},None=>0}', epost, end_pre_, ret='u64', cost=2 * w)

    def bpost(c):
        common(c)
        k, m = c.s['k'], c.s['m']
        E = add(k, c.s['amt'], 64)
        for i, (want, nm) in enumerate([(w, 'width'), (m, 'scalar_len'), (k, 'scalar_pos'), (E, 'advance'), (m, 'finalize')]):
            c.eq(c.out('q', i), want, 64, nm)
        c.eq(c.out('q', 6), lshr(m, w.bit_length() - 1, 64), 64, 'len')
        for i in range(w):
            c.eq(c.out('o', i), c.vec('d%d' % b)[i], ELW[el], 'default lane %d' % i)

    def bpre(c):
        yield ule(c.s['t'], s - 1, 64)
        yield ule(c.s['m'], (1 << 63) // (ELW[el] // 8) // s, 64)
        yield ule(c.s['k'], c.s['m'], 64)
        yield ule(c.s['amt'], sub(c.s['m'], c.s['k'], 64), 64)
    mkc('book', base + [S('k'), S('amt')] + dd + [O, Q], adv + '*q=it.width() as u64;*q.add(1)=it.scalar_len() as u64;*q.add(2)=it.scalar_pos() as u64;it.advance(amt);*q.add(3)=it.scalar_pos() as u64;'
        'it.finalize();*q.add(4)=it.scalar_pos() as u64;*q.add(6)=it.len() as u64;*o=it.default();', bpost, bpre)
    return cons


# ------------------------------------------------------------------ C08: stride zip
DESTRIDE = ('u8', 'i8', 'u16', 'i16', 'u32', 'i32')      # the element types stride_zip exists for


def c08(cpus):
    out = []
    for cpu in cpus:
        for el in DESTRIDE:
            w = W(cpu, el)
            v = vec(cpu, el)
            for kind in ('ref', 'vec'):
                mutp, mk = KINDS[kind]
                mk = mk.format(el=el) + 'it.advance(pos);' + ('let mut z=it.stride_zip();' if kind == 'ref' else 'let mut z=ManuallyDrop::new(ManuallyDrop::into_inner(it).stride_zip());')
                args = [SliceArg('p', el, 'len', mutp), S('len'), S('pos'), Ve('d', el, w, v), Ou('o', ELW[el], w, v), Ou('o2', ELW[el], w, v), Ou('q', 64, 4, 'u64')]
                put = '*o=a;*o2=b;'

                def npost(c, w=w, el=el):
                    c.eq(c.out('q', 0), 0, 64, 'position starts at zero')
                    if c.when(land(ule(c.s['pos'], c.s['len'], 64), ule(2 * w, sub(c.s['len'], c.s['pos'], 64), 64))):
                        c.eq(c.ret, 1, 64, 'yields a pair of vectors')
                        for i in range(w):
                            c.eq(c.out('o', i), c.elem('p', add(c.s['pos'], 2 * i, 64)), ELW[el], 'even lane %d' % i)
                            c.eq(c.out('o2', i), c.elem('p', add(c.s['pos'], 2 * i + 1, 64)), ELW[el], 'odd lane %d' % i)
                        c.eq(c.out('q', 1), w, 64, 'position advanced')
                    else:
                        c.eq(c.ret, 0, 64, 'yields nothing')
                out.append(Con('C08', 'StrideZip<%s %s>::next' % (kind, el), 'sznext_%s_%s' % (kind, el), cpu, args, mk + '*q=z.scalar_pos() as u64;let r=z.next();*q.add(1)=z.scalar_pos() as u64;'
                               'match r{Some((a,b))=>{%s1},None=>0}' % put, npost, pre=lambda c: [ule(c.s['pos'], M(63), 64)], ret='u64',
                               gen=lambda rnd, case, w=w: (lambda L: {'len': L, 'pos': rnd.randrange(0, L + 2)})(rnd.randrange(0, 6 * w)), module='it_C08', dedup=('sznext', ELW[el])))

                def epre(c, w=w):
                    yield ule(c.s['pos'], M(63), 64)
                    if c.when(ult(c.s['pos'], c.s['len'], 64)):
                        yield ult(sub(c.s['len'], c.s['pos'], 64), 2 * w, 64)
                        c.split(sub(c.s['len'], c.s['pos'], 64))

                def epost(c, w=w, el=el):
                    r = c.split(sub(c.s['len'], c.s['pos'], 64)) if c.when(ult(c.s['pos'], c.s['len'], 64)) else 0
                    pairs = r // 2
                    if pairs == 0:
                        c.eq(c.ret, 0, 64, 'yields nothing')
                        return
                    n = w - pairs
                    c.eq(c.ret, 1, 64, 'yields the tail')
                    c.eq(c.out('q', 2), n, 64, 'number of default lanes')
                    for i in range(w):
                        if i >= n:
                            c.eq(c.out('o', i), c.elem('p', add(c.s['pos'], 2 * (i - n), 64)), ELW[el], 'even lane %d' % i)
                            c.eq(c.out('o2', i), c.elem('p', add(c.s['pos'], 2 * (i - n) + 1, 64)), ELW[el], 'odd lane %d' % i)
                        else:
                            c.eq(c.out('o', i), c.vec('d')[i], ELW[el], 'even default lane %d' % i)
                            c.eq(c.out('o2', i), c.vec('d')[i], ELW[el], 'odd default lane %d' % i)
                gen = lambda rnd, case, w=w: (lambda L, R: {'len': L, 'pos': max(0, L - R)})(rnd.randrange(0, 5 * w), rnd.randrange(0, 2 * w))
                for first in (2, 1, 0):
                    out.append(Con('C08', 'StrideZip<%s %s>::end' % (kind, el), 'szend%d_%s_%s' % (first, kind, el), cpu, args, mk + 'if let Some(_)=z.next(){return 7}' * first +
                                   'match z.end(){Some(((a,b),n))=>{%s*q.add(2)=n as u64;1},None=>0}' % put, epost, pre=epre, ret='u64', gen=gen, module='it_C08', dedup=('szend', first, ELW[el]), cost=8 * w))
    hs = []
    for c in out:
        hs.append(c)
        p = c.name.split('_')
        if p[1] == 'ref' and p[2] in ('u8', 'u16', 'u32') and p[0] in ('sznext', 'szend0'):
            w = W(c.cpu, p[2])
            at = 'let r=z.next' if p[0] == 'sznext' else 'match z.end'
            hs.append(after(c, 'n', at, 'let _=z.next();', lambda c, w=w: ({'pos': add(c.s['pos'], 2 * w, 64)}, {('q', 1): w}) if c.when(has_full(c, 2 * w)) else None, back=2 * w))

            def room(c, w=w):
                if c.when(ult(c.s['pos'], c.s['len'], 64)):
                    yield ult(sub(c.s['len'], c.s['pos'], 64), 2 * w, 64)
                    c.split(sub(c.s['len'], c.s['pos'], 64))
            hs.append(after(c, 'e', at, 'let _=z.end();', lambda c: ({'pos': c.s['len']}, {}) if c.when(ult(c.s['pos'], c.s['len'], 64)) else None, room))
    return hs


# ------------------------------------------------------------------ C10: adapter of a scalar iterator
SRC = """#[derive(Clone)]struct Items<T>{p:*const T,n:usize,k:usize}
impl<T:Copy> Iterator for Items<T>{type Item=T;#[inline(always)]fn next(&mut self)->Option<T>{if self.k<self.n{let r=unsafe{*self.p.add(self.k)};self.k+=1;Some(r)}else{None}}
#[inline(always)]fn nth(&mut self,j:usize)->Option<T>{if j<self.n-self.k{self.k+=j;self.next()}else{self.k=self.n;None}}
#[inline(always)]fn size_hint(&self)->(usize,Option<usize>){(self.n-self.k,Some(self.n-self.k))}}
impl<T:Copy> ExactSizeIterator for Items<T>{}
"""


def c10(cpus):
    out = []
    for cpu in cpus:
        types = [(el, W(cpu, el)) for el in ELS] + [('u8', 64), ('f32', 16), ('i64', 8)]
        for el, w in types:
            v = '%sx%d' % (el, w)
            args = [SliceArg('p', el, 'len', False), S('len'), S('pos'), Ve('d', el, w, v), Ve('s', el, w, v), Ou('o', ELW[el], w, v), Ou('q', 64, 10, 'u64')]
            # pos items have been consumed already
            mk = 'let src=Items{p:p,n:len,k:pos};let mut it=SIMDAdapter::<Items<%s>,%s>{iter:src,scratch:*s,default:*d,position:pos};' % (el, v)

            def within(c):
                yield ule(c.s['pos'], c.s['len'], 64)

            def npost(c, w=w, el=el):
                if c.when(has_full(c, w)):
                    c.eq(c.ret, 1, 64, 'yields a vector')
                    for i in range(w):
                        c.eq(c.out('o', i), c.elem('p', add(c.s['pos'], i, 64)), ELW[el], 'lane %d' % i)
                    c.eq(c.out('q', 0), add(c.s['pos'], w, 64), 64, 'position advanced')
                    c.eq(c.out('q', 1), add(c.s['pos'], w, 64), 64, 'items consumed')
                else:
                    c.eq(c.ret, 0, 64, 'yields nothing')
                    c.eq(c.out('q', 0), c.s['pos'], 64, 'position kept')
                    c.eq(c.out('q', 1), c.s['pos'], 64, 'no item consumed')
            gen = lambda rnd, case, w=w: (lambda L: {'len': L, 'pos': rnd.randrange(0, L + 1), 'amt': rnd.randrange(0, 2 * w)})(rnd.randrange(0, 5 * w))
            fin = '*q=it.scalar_pos() as u64;*q.add(1)=it.iter.k as u64;'
            out.append(Con('C10', 'SIMDAdapter<%s>::next' % v, 'anext_' + v, cpu, args, mk + 'let r=it.next();' + fin + 'match r{Some(v)=>{*o=v;1},None=>0}', npost, pre=within, ret='u64',
                           gen=gen, module='it_C10', dedup=('anext', ELW[el], w), cost=w))

            def epre(c, w=w):
                yield ule(c.s['pos'], c.s['len'], 64)
                yield ule(sub(c.s['len'], c.s['pos'], 64), w, 64)
                c.split(sub(c.s['len'], c.s['pos'], 64))

            def epost(c, w=w, el=el):
                r = c.split(sub(c.s['len'], c.s['pos'], 64))
                c.eq(c.out('q', 0), c.s['len'], 64, 'position at the end')
                c.eq(c.out('q', 1), c.s['len'], 64, 'items consumed')
                if r == 0:
                    c.eq(c.ret, 0, 64, 'yields nothing')
                    return
                n = w - r
                c.eq(c.ret, 1, 64, 'yields the tail')
                c.eq(c.out('q', 2), n, 64, 'number of default lanes')
                for i in range(w):
                    c.eq(c.out('o', i), c.vec('d')[i] if i < n else c.elem('p', add(c.s['pos'], i - n, 64)), ELW[el], 'lane %d' % i)
            egen = lambda rnd, case, w=w: (lambda L: {'len': L, 'pos': max(0, L - rnd.randrange(0, w + 1))})(rnd.randrange(0, 5 * w))
            out.append(Con('C10', 'SIMDAdapter<%s>::end' % v, 'aend_' + v, cpu, args, mk + 'let r=it.end();' + fin + 'match r{Some((v,n))=>{*o=v;*q.add(2)=n as u64;1},None=>0}', epost,
                           pre=epre, ret='u64', gen=egen, module='it_C10', dedup=('aend', ELW[el], w), cost=4 * w))

            def bpost(c, w=w, el=el):
                sh = w.bit_length() - 1
                for k, (want, nm) in enumerate([(w, 'width'), (ELW[el] // 8, 'size'), (c.s['len'], 'scalar_len'), (lshr(c.s['len'], sh, 64), 'len'), (c.s['pos'], 'scalar_pos')]):
                    c.eq(c.out('q', k), want, 64, nm)
                for i in range(w):
                    c.eq(c.out('o', i), c.vec('d')[i], ELW[el], 'default lane %d' % i)
            out.append(Con('C10', 'SIMDAdapter<%s> bookkeeping' % v, 'abook_' + v, cpu, args, mk + '*q=it.width() as u64;*q.add(1)=it.size() as u64;*q.add(2)=it.scalar_len() as u64;'
                           '*q.add(3)=it.len() as u64;*q.add(4)=it.scalar_pos() as u64;*o=SIMDIterable::default(&it);', bpost, pre=within, gen=gen, module='it_C10', dedup=('abook', ELW[el], w)))

            def vpost(c):
                e = add(c.s['pos'], c.s['amt'], 64)
                c.eq(c.out('q', 0), e, 64, 'position advanced')
                c.eq(c.out('q', 1), e, 64, 'items skipped')
            amts = [{'amt': a} for a in (0, 1, 2, w - 1, w, w + 1)]

            def vpre(c):
                yield ule(c.s['pos'], c.s['len'], 64)
                yield ule(c.s['amt'], sub(c.s['len'], c.s['pos'], 64), 64)
            out.append(Con('C10', 'SIMDAdapter<%s>::advance' % v, 'aadv_' + v, cpu, args[:3] + [S('amt')] + [args[3], args[4], args[6]], mk + 'it.advance(amt);' + fin, vpost, pre=vpre, gen=gen,
                           cases=[dict(t) for t in {tuple(a.items()) for a in amts}], module='it_C10', dedup=('aadv', ELW[el], w)))
    hs = []
    for cpu in cpus:
        for c in out:
            if c.cpu == cpu:
                hs.append(c)
                p = c.name.split('_')
                if p[0] in ('anext', 'aend') and p[1] in ('u8x%d' % W(cpu, 'u8'), 'u32x%d' % W(cpu, 'u32'), 'f64x%d' % W(cpu, 'f64'), 'f32x16'):
                    w = int(p[1].split('x')[1])
                    hs += histories(c, 'it', 'let r=it.', w)
    return hs


def c11(cpus):
    return accesses(cpus, 'C11') + [c for c in strides(cpus) if c.prop == 'C11']


def c07(cpus):
    cons = [c for c in strides(cpus) if c.prop == 'C07']
    out = []
    for cpu in cpus:
        for c in cons:
            p = c.name.split('_')
            if c.cpu != cpu:
                continue
            out.append(c)
            if p[0] not in ('next', 'end') or p[1] not in ('u16', 'f32', 'i64') or p[2] not in '2 3' or p[3] != '1':
                continue
            w = W(cpu, p[1])
            room, moved = after_end(w, 'm', 'k')
            out.append(after(c, 'e', 'let r=it.', 'let _=it.end();', moved, room))
            # with exactly one vector left, next may leave it to end
            n = copy.copy(c)
            if p[0] == 'end':
                def pre(c, p2=p[2], w=w):
                    yield ule(c.s['k'], c.s['m'], 64)
                    left = sub(c.s['m'], c.s['k'], 64)
                    yield ule(left, 2 * w, 64)
                    c.split(left)
                    yield ule(c.s['t'], int(p2) - 1, 64)
                    yield ule(c.s['m'], (1 << 63) // 8 // int(p2), 64)
                n.pre = pre
            out.append(after(n, 'n', 'let r=it.', '*q.add(6)=it.next().is_some() as u64;', lambda c, w=w: ({'k': add(c.s['k'], w, 64)}, {}) if c.when(eq(c.out('q', 6), 1, 64)) else None,
                             back=w, before=lambda c: None))
    return out


def c12(cpus):
    return accesses(cpus, 'C12')


EXTRA = {'it_C07': ARRT, 'it_C10': SRC}


ALLC = {'C01': c01, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12}


def jobs(prop, cpus=build.CPUS, tier='quick'):
    mods, out = {}, []
    cons = ALLC[prop](cpus)
    if tier == 'quick':
        # the steps after earlier steps: for one target of every width of vectors (the thorough check does all)
        cons = [c for c in cons if not getattr(c, 'hist', False) or c.cpu == 'x86-64' or c.cpu == 'haswell' and 'u32' in c.name]
        # nehalem has the vectors of x86-64 (the operations on them, which differ, have contracts of their own: C11 to C22)
        cons = [c for c in cons if c.cpu != 'nehalem' or '_u32' in c.name or '_f64' in c.name]
    for c in cons:
        key = (c.cpu, c.mode, c.module)
        m = mods.setdefault(key, [PRELUDE + EXTRA.get(c.module, ''), []])
        m[0] += c.extra + c.source()
        m[1].append(c.name)
        out += [Job(c, case) for case in c.cases]
    return {k: tuple(v) for k, v in mods.items()}, out
