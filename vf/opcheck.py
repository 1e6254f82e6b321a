"""Discharge the contract of one vector-operation wrapper (all inputs) and replay failures on the compiled code."""
import ctypes
import mmap
import os
import random
import struct
import time
import z3
from . import build, ir, ops, x86
from .bv import *
from .sym import Exec, Violation, Budget, CReg, PathDead
from . import norm
from . import native


def lanes_in(v, k):
    return [z3.BitVec('a%d_%d' % (k, i), v.w) for i in range(v.n)]


class OpTask:
    def __init__(self, item, cpu, case):
        self.item, self.cpu, self.case = item, cpu, case

    def label(self):
        c = ''.join('[%s]' % x for x in self.case)
        return '%s.%s%s@%s' % (self.item.op, self.item.name.split('_' + self.item.op + '_', 1)[1] if ('_' + self.item.op + '_') in self.item.name else self.item.v.name, c, self.cpu)


def prove_lane(ex, got, want, out, name):
    w = out.w
    if got is POISON:
        raise Violation('uninitialised-or-poison-result', name, None)
    if isinstance(got, Ptr):
        raise Violation('pointer-result', name, None)
    if isinstance(want, tuple):
        k = want[0]
        if k == 'fsum':
            if norm.leaves_equal(got, want[2], want[1], w):
                ex.ok('post:' + name, 'fp-normal-form')
                return
            raise Violation('post', name, None, 'not a %s-combination of every lane exactly once' % want[1])
        if k == 'between':
            _, x, y, p = want
            c = land(lor(eq(got, x, w), eq(got, y, w)), fcmp(p, got, x, w), fcmp(p, got, y, w))
            ex.require(c, 'post', name)
            return
        if k == 'nearest':
            x = want[1]
            c = lor(eq(got, fround('round', x, w), w), eq(got, fround('rint', x, w), w))
            ex.require(c, 'post', name)
            return
        if k == 'approx':
            x = want[2]
            one = f2i(1.0, w)
            alts = [fuf(want[1], w, 1)(bv(x, w))]
            if want[1] == 'rcp':
                alts.append(farith('div', one, x, w))
            else:
                alts.append(farith('div', one, fsqrt(x, w), w))
                alts.append(fsqrt(farith('div', one, x, w), w))
            ex.require(lor(*[eq(got, a, w) for a in alts]), 'post', name)
            return
    e = eq(got, want, w)
    if isint(e) and e:
        ex.ok('post:' + name, 'syntactic')
        return
    if not isint(e):
        s = z3.simplify(e)
        if z3.is_true(s):
            ex.ok('post:' + name, 'simplify')
            return
        if norm.lin_equal(got, want, w):
            ex.ok('post:' + name, 'linear-normal-form')
            return
    ex.require(e, 'post', name)


def run(task, mod, feats, timeout_ms=20000, budget_s=120, seed=1):
    it = task.item
    ex = Exec(mod, it.name, feats, merge=True, timeout_ms=timeout_ms, x86=x86.TABLE)
    t0 = time.time()
    ex.deadline = t0 + budget_s
    st = {}

    def setup(ex):
        args = []
        ins = []
        for k, v in enumerate(it.ins):
            r = CReg('in%d' % k, v.bytes, v.w // 8, ro=True)
            ls = lanes_in(v, k)
            for i, l in enumerate(ls):
                r.put(i * v.w // 8, l, v.w // 8)
            ex.mem['in%d' % k] = r
            args.append(Ptr('in%d' % k, 0))
            ins.append(ls)
        sc = []
        for k, (t, w) in enumerate(it.scal):
            x = task.case[k] if k < len(task.case) else z3.BitVec('s%d' % k, w)
            sc.append(x)
            args.append(x)
        for k, o in enumerate(it.outs):
            ex.mem['out%d' % k] = CReg('out%d' % k, o.n * o.w // 8, o.w // 8)
            args.append(Ptr('out%d' % k, 0))
        if it.pre:
            c = it.pre(ins, sc)
            if c is not None:
                ex.assume(c)
        st['ins'], st['sc'] = ins, sc
        if ex.npaths == 1:
            ex.covered = ex.check() == z3.sat
        return args

    def post(ex, r):
        ins, sc = st['ins'], st['sc']
        if r[0] == 'panic':
            if it.panics:
                ex.ok('panics-as-required', 'path')
                return
            if ex.check() == z3.unsat:
                raise PathDead()
            m = None
            if ex.check() == z3.sat:
                m = ex.model()
            raise Violation('no-panic', ex.site(), m, r[1][:60])
        if it.panics:
            m = ex.model() if ex.check() == z3.sat else None
            raise Violation('must-panic', 'post', m)
        want = it.spec(ins, sc)
        for k, o in enumerate(it.outs):
            reg = ex.mem['out%d' % k]
            for i in range(o.n):
                nb = o.w // 8
                from .sym import assemble
                got = assemble(reg.getbytes(i * nb, nb))
                prove_lane(ex, got, want[k][i], o, 'out%d.lane%d' % (k, i))

    res = {'label': task.label(), 'status': 'proved', 'viol': None, 'case': task.case, 'name': it.name, 'cpu': task.cpu, 'op': it.op}
    try:
        vs = ex.run(setup, post)
        if vs:
            v = vs[0]
            res['status'] = 'violated'
            res['viol'] = {'kind': v.kind, 'site': v.site, 'detail': v.detail, 'inputs': concrete_inputs(it, task.case, v.model)}
        elif not getattr(ex, 'covered', False) or not ([p for p in ex.paths if p != 'dead']):
            res['status'] = 'vacuous'
    except Unsup as e:
        res['status'] = 'unsupported'
        res['why'] = str(e)
    except Budget as e:
        res['status'] = 'budget'
        res['why'] = str(e)
    res['obl'] = {k: (v[0], v[1]) for k, v in ex.obl.items()}
    res['steps'], res['paths'], res['queries'], res['qtime'], res['time'] = ex.steps, ex.npaths, ex.queries, ex.qtime, time.time() - t0
    res['intrin'] = sorted(ex.intrins)
    res['called'] = sorted(ex.called)
    return res


def concrete_inputs(it, case, model):
    if model is None:
        return None
    ins = [[model.eval(l, model_completion=True).as_long() for l in lanes_in(v, k)] for k, v in enumerate(it.ins)]
    sc = [case[k] if k < len(case) else model.eval(z3.BitVec('s%d' % k, w), model_completion=True).as_long() for k, (t, w) in enumerate(it.scal)]
    return {'ins': ins, 'sc': sc}


# ------------------------------------------------------------------------------------------ native replay
CT = {8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}


def native_call(so, it, inp, timeout=20):
    """('ok', outs) | ('died', sig)"""
    def f():
        lib = ctypes.CDLL(so)
        fn = getattr(lib, it.name)
        bufs = []
        args = []
        for v, ls in zip(it.ins, inp['ins']):
            b = (CT[v.w] * v.n)(*ls)
            bufs.append(b)
            args.append(ctypes.c_void_p(ctypes.addressof(b)))
        for (t, w), x in zip(it.scal, inp['sc']):
            if t == 'f32':
                args.append(ctypes.c_float(i2f(x, 32)))
            elif t == 'f64':
                args.append(ctypes.c_double(i2f(x, 64)))
            else:
                args.append(CT[w](x))
        outs = []
        for o in it.outs:
            b = (CT[o.w] * o.n)(*([0xA5A5A5A5A5A5A5A5 & M(o.w)] * o.n))
            outs.append(b)
            args.append(ctypes.c_void_p(ctypes.addressof(b)))
        fn.restype = None
        fn(*args)
        return [list(b) for b in outs]
    return native.forked(f, timeout)


def oracle(it, inp, outs):
    """None when the native outputs satisfy the contract, else a description"""
    want = it.spec(inp['ins'], inp['sc'])
    for k, o in enumerate(it.outs):
        for i in range(o.n):
            g, w = outs[k][i], want[k][i]
            if isinstance(w, tuple):
                if w[0] == 'fsum':
                    xs = [i2f(x, o.w) for x in w[2]]
                    if any(x != x or abs(x) == math.inf for x in xs):
                        continue
                    gv = i2f(g, o.w)
                    if w[1] == 'add':
                        e = math.fsum(xs)
                        tol = len(xs) * (2.0 ** -23 if o.w == 32 else 2.0 ** -52) * math.fsum(abs(x) for x in xs)
                    else:
                        e = 1.0
                        for x in xs:
                            e *= x
                        if abs(e) > 1e30:
                            continue
                        tol = len(xs) * (2.0 ** -22 if o.w == 32 else 2.0 ** -50) * abs(e)
                    if not abs(gv - e) <= tol:
                        return 'output %d lane %d: got %r, expected %r (tolerance %g)' % (k, i, gv, e, tol)
                    continue
                if w[0] == 'between':
                    x, y, p = w[1:]
                    if isnan(x, o.w) or isnan(y, o.w):
                        continue
                    if not ((g == x or g == y) and fcmp(p, g, x, o.w) and fcmp(p, g, y, o.w)):
                        return 'output %d lane %d: got %r for %r, %r' % (k, i, i2f(g, o.w), i2f(x, o.w), i2f(y, o.w))
                    continue
                if w[0] == 'nearest':
                    a, b = fround('round', w[1], o.w), fround('rint', w[1], o.w)
                    if not isint(a) or not isint(b):
                        continue
                    if g not in (a, b):
                        return 'output %d lane %d: got %r for %r' % (k, i, i2f(g, o.w), i2f(w[1], o.w))
                    continue
                if w[0] == 'approx':
                    x = i2f(w[2], o.w)
                    if x != x or x == 0 or abs(x) > 1e30 or abs(x) < 1e-30 or (w[1] == 'rsqrt' and x < 0):
                        continue
                    e = 1 / x if w[1] == 'rcp' else 1 / math.sqrt(x)
                    if not abs(i2f(g, o.w) - e) <= abs(e) * 0.001:
                        return 'output %d lane %d: got %r, expected about %r' % (k, i, i2f(g, o.w), e)
                    continue
            if not isint(w):
                w = back(z3.simplify(w))
                if not isint(w):
                    continue
            if g != w:
                if getattr(o, 'fl', False) or o.ty[0] == 'f':
                    if isnan(g, o.w) and isnan(w, o.w):
                        continue
                return 'output %d lane %d: got %#x, expected %#x' % (k, i, g, w)
    return None


def rand_inputs(it, case, rnd):
    def val(w, fl):
        k = rnd.randrange(6)
        if fl:
            if k < 4:
                return f2i(float(rnd.randrange(-9, 10)) + (rnd.choice([0, .25, .5, .75]) if k == 0 else 0), w)
            if k == 4:
                return f2i(rnd.uniform(-1e6, 1e6), w)
            return rnd.choice([0, 1 << (w - 1), f2i(1.5, w), f2i(-2.5, w)])
        if k == 0:
            return rnd.choice([0, 1, M(w), 1 << (w - 1), M(w - 1)])
        if k == 1:
            return rnd.randrange(16)
        if k == 2:
            h = w // 2
            return rnd.choice([M(h), 1 << h, M(h - 1), 1 << (h - 1), (-(1 << (h - 1))) & M(w), (-(1 << (h - 1)) - 1) & M(w)])
        return rnd.getrandbits(w)
    ins = []
    for v in it.ins:
        ls = [val(v.w, v.fl) for _ in range(v.n)]
        if it.op == 'coalesce':
            ls = [ls[0]] * v.n
        if ins and rnd.randrange(3) == 0:
            ls = [x if rnd.randrange(2) else y for x, y in zip(ls, ins[0])] if len(ins[0]) == len(ls) else ls
        ins.append(ls)
    sc = [case[k] if k < len(case) else val(w, t[0] == 'f') for k, (t, w) in enumerate(it.scal)]
    return {'ins': ins, 'sc': sc}


def confirm(task, res, so, seed, tries=400):
    """look for a concrete input on which the compiled code breaks the contract"""
    it = task.item
    cands = []
    if res['viol'] and res['viol'].get('inputs'):
        cands.append(res['viol']['inputs'])
    rnd = random.Random(seed)
    cands += [rand_inputs(it, task.case, rnd) for _ in range(tries)]
    for inp in cands:
        if it.pre:
            c = it.pre(inp['ins'], inp['sc'])
            if c is not None:
                if not isint(c):
                    c = back(z3.simplify(c))
                if not c:
                    continue
        r = native_call(so, it, inp)
        if it.panics:
            if r[0] == 'ok':
                return inp, 'returned instead of panicking'
            if r[1] not in (6, 4):
                return inp, 'killed by signal %s instead of panicking' % r[1]
            continue
        if r[0] != 'ok':
            return inp, 'process killed by signal %s (panic or illegal access)' % r[1]
        d = oracle(it, inp, r[1])
        if d:
            return inp, d
    return None
