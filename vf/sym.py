"""Symbolic executor / verification-condition generator over LLVM IR.

One `Exec` runs one function of the compiled crate on symbolic inputs.  Every path is enumerated (decisions are
re-executed from a prefix), small acyclic diamonds are merged into if-then-else values.  Everything that could go wrong on
the way (out-of-bounds access, reachable panic, poison, target-feature escape) is an obligation discharged by z3.
"""
import math
import re
import time
import z3
from . import ir
from .bv import *

ALIGN = re.compile(r', align (\d+)')


class PathDead(Exception):
    pass


class MergeAbort(Exception):
    pass


class Violation(Exception):
    """obligation failed on the current path; carries a model"""

    def __init__(self, kind, site, model, detail=''):
        Exception.__init__(self, '%s at %s %s' % (kind, site, detail))
        self.kind, self.site, self.model, self.detail = kind, site, model, detail


class Budget(Exception):
    pass


class Panic(Exception):
    def __init__(self, fn):
        self.fn = fn


class CReg:
    """region of concrete size: byte -> (value, nbytes, k)"""
    kind = 'c'

    def __init__(self, name, size, align=16, ro=False):
        self.name, self.size, self.align, self.ro = name, size, align, ro
        self.cells = {}

    def clone(self):
        r = CReg.__new__(CReg)
        r.__dict__.update(self.__dict__)
        r.cells = dict(self.cells)
        return r

    def put(self, off, v, n):
        c = self.cells
        if n == 1:
            c[off] = (v, 1, 0)
        else:
            for k in range(n):
                c[off + k] = (v, n, k)

    def getbytes(self, off, n):
        c = self.cells
        return [c.get(off + k) for k in range(n)]


class SReg:
    """region of symbolic size; initial contents are an uninterpreted function of the byte offset (or uninitialised)"""
    kind = 's'

    def __init__(self, name, size, align=1, init=True, ro=False):
        self.name, self.size, self.align, self.ro = name, size, align, ro
        self.fn = z3.Function('B_' + name, z3.BitVecSort(64), z3.BitVecSort(8)) if init else None
        self.log = []          # (off, value, nbytes)

    def clone(self):
        r = SReg.__new__(SReg)
        r.__dict__.update(self.__dict__)
        r.log = list(self.log)
        return r

    def init_byte(self, off):
        if self.fn is None:
            return POISON
        return self.fn(bv(off, 64))


def assemble(bs):
    """[(value, nbytes, k) or None] low first -> value of 8*len bits"""
    f = bs[0]
    n = len(bs)
    if f is None:
        if any(b is not None for b in bs):
            return POISON
        return POISON
    v = f[0]
    if f[1] == n and f[2] == 0:
        ok = True
        for i in range(1, n):
            b = bs[i]
            if b is None or b[0] is not v or b[2] != i or b[1] != n:
                ok = False
                break
        if ok:
            return v
    parts = []
    i = 0
    while i < n:
        b = bs[i]
        if b is None:
            return POISON
        v, w, k = b
        j = i + 1
        while j < n and bs[j] is not None and bs[j][0] is v and bs[j][1] == w and bs[j][2] == k + (j - i):
            j += 1
        if v is POISON:
            return POISON
        if isinstance(v, Ptr):
            raise Unsup('partial pointer load')
        cnt = j - i
        parts.append((extract(v, 8 * (k + cnt) - 1, 8 * k, 8 * w), 8 * cnt))
        i = j
    return concat(parts)


class Obl:
    __slots__ = ('name', 'status', 'backend', 'time')

    def __init__(self, name, status, backend, t):
        self.name, self.status, self.backend, self.time = name, status, backend, t


class Exec:
    def __init__(self, mod, fname, cpu_feats, merge=True, timeout_ms=20000, max_steps=3000000, max_paths=4000, x86=None, hooks=None):
        self.mod, self.fname = mod, fname
        self.feats = cpu_feats
        self.merge_ok = merge
        self.timeout = timeout_ms
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.x86 = x86 or {}
        self.hooks = hooks or {}
        self.obl = {}              # name -> [count, backend set, time]
        self.sites = set()
        self.intrins = set()
        self.called = set()
        self.steps = 0
        self.npaths = 0
        self.queries = 0
        self.qtime = 0.0
        self.deadline = None
        self.concrete = False
        self.small = []            # extra constraints tried when a counter-model is extracted
        self.ghost = {}
        self.subst = []
        self.ub = {}
        self.facts = []
        self.nslack = 0
        self.slacks = True
        self.lfacts = []
        self.lra = None
        self.lqueries = 0
        self.keepalive = []
        self.pool = []
        self.alive = []
        self.unsl = []

    # ----------------------------------------------------------------- obligations
    def ok(self, name, backend):
        o = self.obl.get(name)
        if o is None:
            self.obl[name] = [1, backend]
        else:
            o[0] += 1
            if backend == 'z3':
                o[1] = 'z3'

    def check(self, *conds):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        t = time.time()
        self.queries += 1
        r = self.solver.check(*[bo(c) for c in conds])
        self.qtime += time.time() - t
        return r

    def model(self):
        return self.solver.model()

    def small_model(self, *conds):
        """a model of the current path (after a sat answer), with small sizes when there is one"""
        m = self.solver.model()
        if self.small and self.check(*conds, *self.small) == z3.sat:
            m = self.solver.model()
        return m

    def assume(self, c):
        if type(c) is int:
            if not c:
                raise PathDead()
            return
        self.solver.add(c)
        self.pc.append(c)
        if self.alive:
            x = z3.substitute(c, *self.unsl) if self.unsl else c
            self.alive = [m for m in self.alive if z3.is_true(m.eval(x, model_completion=True))]
        if z3.is_eq(c):
            self.learn(c)
        else:
            self.learn_ub(c)
            if self.slacks:
                self.slack(c, not self.inmerge)

    def learn(self, c):
        """an equation on the path that is linear in a variable: eliminate the variable from later terms"""
        a, b = c.arg(0), c.arg(1)
        if not z3.is_bv(a) or a.size() != 64:
            return
        d = simp(self.sb(a - b))
        if type(d) is int:
            return
        ts = list(d.children()) if z3.is_app_of(d, z3.Z3_OP_BADD) else [d]
        best = None
        for t in ts:
            if z3.is_const(t) and not z3.is_bv_value(t):
                x, sg = t, 1
            elif z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == M(64) and z3.is_const(t.arg(1)):
                x, sg = t.arg(1), -1
            else:
                continue
            rest = [u for u in ts if u is not t]
            r = z3.BitVecVal(0, 64)
            for u in rest:
                r = r + u
            r = zsom(-r if sg == 1 else r)
            if any(u.eq(x) for u in _consts(r)):
                continue
            neg = sum(1 for k, u in linear(r) if sgn(k, 64) < 0)
            if best is None or neg < best[0]:
                best = neg, x, r
        if best:
            self.elim(*best[1:])
        else:
            self.scaled(d)

    def scaled(self, d):
        """q*x = k over the integers"""
        ls = linear(d)
        at = [(sgn(q, 64), u) for q, u in ls if u is not None]
        k = -sum(sgn(q, 64) for q, u in ls if u is None)
        if len(at) != 1 or not z3.is_const(at[0][1]):
            return
        q, x = at[0]
        if q < 0:
            q, k = -q, -k
        t = self.ub.get(x.get_id())
        if k < 0 or k % q or not t or q * t[1] >> 63 or k >> 62:
            return
        self.elim(x, z3.BitVecVal(k // q, 64))

    def elim(self, x, r):
        self.subst = [(k, zsom(z3.substitute(v, (x, r)))) for k, v in self.subst] + [(x, r)]
        i = x.get_id()
        lin = {0 if u is None else u.get_id(): (sgn(k, 64), u) for k, u in linear(r)}
        self.keepalive.append(r)
        if any(k < 0 for k, u in lin.values()):
            d = self.form(linear(r))
            if d is not None:
                d = dict(d)
                d[i] = (-1, x)
                self.lfacts = self.lfacts + [d, {j: (-q, u) for j, (q, u) in d.items()}]
            return
        facts = []
        for f, top in self.facts:
            if i in f:
                q = f[i][0]
                g = {j: v for j, v in f.items() if j != i}
                for j, (k, u) in lin.items():
                    g[j] = (g[j][0] if j in g else 0) + k * q, u
                f = g
            facts.append((f, top))
        if i in self.ub and self.span(linear(r)) is not None:
            facts.append((lin, self.ub[i][1]))
        self.facts = facts
        if self.span(linear(r)) is None:
            return
        lin[i] = (-1, x)
        self.lfacts = self.lfacts + [lin, {j: (-q, u) for j, (q, u) in lin.items()}]

    def learn_ub(self, c):
        """x <= e on the path: keep the upper bound of e as the upper bound of x"""
        neg = False
        while z3.is_not(c):
            neg, c = not neg, c.arg(0)
        if z3.is_and(c) and not neg:
            for x in c.children():
                self.learn_ub(x)
            return
        k = c.decl().kind()
        if k not in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            return
        a, b = c.arg(0), c.arg(1)
        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = b, a
        if neg:
            a, b = b, a
        if a.size() != 64 or not (z3.is_const(a) and not z3.is_bv_value(a)):
            return
        u = self.span(linear(b))
        if u is not None:
            i = a.get_id()
            if i not in self.ub or u[1] < self.ub[i][1]:
                self.ub = dict(self.ub)
                self.ub[i] = (a, u[1])

    def form(self, lin):
        """the linear form over the integers, {id: (coefficient, atom)}, with a constant that makes it equal to the machine term;
        None when the term may wrap around"""
        d = {}
        for k, u in lin:
            i = 0 if u is None else u.get_id()
            d[i] = (d[i][0] if i in d else 0) + sgn(k, 64), u
        lo, hi = self.extent(d)
        if lo >> 64 != hi >> 64:
            if self.lfacts and len(d) <= 8 and self.proves(d) and self.proves(minus({0: (M(64), None)}, d)):
                return d
            return None
        if lo >> 64:
            d[0] = (d[0][0] if 0 in d else 0) - (lo >> 64 << 64), None
        return d

    def narrow(self, e, high):
        """the linear form of a term of less than 64 bits made of low parts of 64-bit terms that fit (or a high part that is zero)"""
        w = e.size()
        if high and z3.is_app_of(e, z3.Z3_OP_EXTRACT) and e.arg(0).size() == 64 and e.params()[0] == 63:
            sp = self.span(linear(e.arg(0)))
            if sp is None or sp[1] >> e.params()[1]:
                return None
            return {}
        d = {}
        for k, u in linear(e):
            if u is None:
                x = {0: (sgn(k, w), None)}
            else:
                if not (z3.is_app_of(u, z3.Z3_OP_EXTRACT) and u.arg(0).size() == 64 and u.params() == [w - 1, 0]):
                    return None
                x = self.form(linear(u.arg(0)))
                if x is None or self.extent(x)[1] >> w:
                    return None
            for i, (q, v) in x.items():
                d[i] = (d[i][0] if i in d else 0) + q * (1 if u is None else sgn(k, w)), v
        lo, hi = self.extent(d)
        if lo >> w != hi >> w:
            return None
        if lo >> w:
            d[0] = (d[0][0] if 0 in d else 0) - (lo >> w << w), None
        return d

    def span(self, lin):
        """range of a linear form, or None when it may wrap around"""
        d = self.form(lin)
        return None if d is None else self.extent(d)

    def extent(self, d):
        """range of {id: (coefficient, atom)} over the integers, from the bounds of the atoms and the sums known to be bounded"""
        lo = hi = 0
        for k, u in d.values():
            if u is None:
                lo, hi = lo + k, hi + k
                continue
            x = self.ub.get(u.get_id())
            m = k * (x[1] if x else M(64))
            lo, hi = lo + min(m, 0), hi + max(m, 0)
        if self.facts and len(d) > 1:
            hi = min(hi, self.tight(d, hi))
            lo = max(lo, -self.tight({i: (-k, u) for i, (k, u) in d.items()}, -lo))
        return lo, hi

    def tight(self, d, hi):
        for f, top in self.facts:
            # f (all coefficients positive) <= top
            c = None
            for i, (k, u) in f.items():
                if u is not None:
                    x = d.get(i)
                    q = x[0] // k if x else 0
                    if q > 0:
                        c = q if c is None else min(c, q)
            if not c:
                continue
            r = c * top
            for i in set(d) | set(f):
                k = (d[i][0] if i in d else 0) - (c * f[i][0] if i in f else 0)
                u = d[i][1] if i in d else f[i][1]
                if u is None:
                    r += k
                elif k > 0:
                    x = self.ub.get(i)
                    r += k * (x[1] if x else M(64))
            hi = min(hi, r)
        return hi

    def proves(self, d):
        """d >= 0 follows from the linear facts of the path (decided in linear real arithmetic)"""
        if self.lra is None:
            self.lra, self.lrastack = z3.SimpleSolver(), []
            self.lra.set('timeout', 1000)
        n = 0
        while n < len(self.lrastack) and n < len(self.lfacts) and self.lrastack[n] is self.lfacts[n]:
            n += 1
        while len(self.lrastack) > n:
            self.lra.pop()
            self.lrastack.pop()
        for f in self.lfacts[n:]:
            self.lra.push()
            self.lra.add(self.lin_real(f) >= 0)
            self.lrastack.append(f)
        ids, st = {}, [d] + self.lfacts
        for f in st:
            for i, (q, u) in f.items():
                if u is not None:
                    ids[i] = u
        self.lqueries += 1
        b = []
        for i, u in ids.items():
            x = z3.Real('a%d' % i)
            b.append(x >= 0)
            t = self.ub.get(i)
            b.append(x <= (t[1] if t else M(64)))
        self.lra.push()
        self.lra.add(*b)
        self.lra.add(self.lin_real(d) <= -1)
        r = self.lra.check()
        self.lra.pop()
        return r == z3.unsat

    def lin_real(self, d):
        return z3.Sum([z3.RealVal(q) if u is None else q * z3.Real('a%d' % i) for i, (q, u) in d.items()])

    def slack(self, c, elim=True):
        """an inequality between linear forms that do not wrap around: D >= 0; replace a variable through D = e with a new e >= 0"""
        neg = False
        while z3.is_not(c):
            neg, c = not neg, c.arg(0)
        if (z3.is_or(c) and neg) or (z3.is_and(c) and not neg):
            for x in c.children():
                self.slack(z3.Not(x) if neg else x, elim)
            return
        k = c.decl().kind()
        if k not in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            return
        a, b = c.arg(0), c.arg(1)
        if a.size() != 64:
            return
        strict = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = b, a
        if neg:
            a, b, strict = b, a, not strict
        a, b = zsom(self.sb(a)), zsom(self.sb(b))
        la, lb = self.form(linear(a)), self.form(linear(b))
        if la is None or lb is None:
            return
        d = minus(lb, la)
        d = {i: (q, u) for i, (q, u) in d.items() if q}
        k0 = (d.pop(0)[0] if 0 in d else 0) - (1 if strict else 0)
        if not d or len(d) > 6:
            return
        g = 0
        for q, u in d.values():
            g = math.gcd(g, q)
        k0 //= g
        d = {i: (q // g, u) for i, (q, u) in d.items()}
        if len(d) > 1 or any(q > 0 for q, u in d.values()):
            f = dict(d)
            f[0] = (k0, None)
            self.keepalive.append(c)
            self.lfacts = self.lfacts + [f]
        if len(d) == 1 and not k0:
            return
        if all(q < 0 for q, u in d.values()):
            # a bound on a sum
            if k0 < 0:
                return
            if len(d) == 1:
                (i, (q, u)), = d.items()
                top = k0 // -q
                if i not in self.ub or top < self.ub[i][1]:
                    self.ub = dict(self.ub)
                    self.ub[i] = (u, top)
            else:
                f = {i: (-q, u) for i, (q, u) in d.items()}
                f[0] = (0, None)
                self.facts = self.facts + [(f, k0)]
            return
        if not elim:
            return
        # eliminate an atom of coefficient 1 so that all coefficients of its value are positive
        for i, (q, u) in d.items():
            if q == 1 and z3.is_const(u) and -k0 >= 0 and all(x[0] < 0 for j, x in d.items() if j != i):
                break
        else:
            return
        self.nslack += 1
        e = z3.BitVec('slack%d' % self.nslack, 64)
        r = e + z3.BitVecVal(-k0, 64)
        f = {e.get_id(): (1, e), 0: (-k0, None)}
        for j, (q2, u2) in d.items():
            if j != i:
                r = r + z3.BitVecVal(-q2, 64) * u2
                f[j] = (-q2, u2)
        r = zsom(r)
        top = self.ub[i][1] if i in self.ub else M(64)
        self.ub = dict(self.ub)
        self.ub[e.get_id()] = (e, max(top + k0, 0))
        g = minus(d, {e.get_id(): (1, e), 0: (-k0, None)})
        self.lfacts = self.lfacts + [g, {i: (-q, u) for i, (q, u) in g.items()}]
        self.solver.add(u == r, z3.ULE(e, bv(max(top + k0, 0), 64)))
        x = z3.BitVecVal(k0, 64)
        for q2, u2 in d.values():
            x = x + z3.BitVecVal(q2, 64) * u2
        self.unsl = self.unsl + [(e, zs(z3.substitute(x, *self.unsl) if self.unsl else x))]
        self.pc.append(u == r)
        self.elim(u, r)
        self.facts = self.facts + [(f, top)]

    def known(self, c):
        """the truth value of c when interval arithmetic over the upper bounds decides it (None: not decided)"""
        if type(c) is int:
            return bool(c)
        k = c.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_NOT:
            r = self.known(c.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = k == z3.Z3_OP_OR
            un = False
            saved = self.ub, self.facts, self.lfacts
            try:
                for x in c.children():
                    r = self.known(x)
                    if r is stop:
                        return stop
                    if r is None:
                        un = True
                        # the others matter only when x does not settle the value
                        self.learn_ub(z3.Not(x) if stop else x)
                        self.slack(z3.Not(x) if stop else x, False)
            finally:
                self.ub, self.facts, self.lfacts = saved
            return None if un else not stop
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) or (k == z3.Z3_OP_EQ and z3.is_bv(c.arg(0))):
            a, b = c.arg(0), c.arg(1)
            if a.size() != 64:
                # z3 rewrites x <= C to high(x) == 0 and low(x) <= C
                la, lb = self.narrow(a, k == z3.Z3_OP_EQ), self.narrow(b, k == z3.Z3_OP_EQ)
            else:
                la, lb = self.form(linear(a)), self.form(linear(b))
            if la is None or lb is None:
                return None
            d = minus(la, lb)
            lo, hi = self.extent(d)
            if k == z3.Z3_OP_EQ:
                if lo == hi == 0:
                    return True
                if lo > 0 or hi < 0:
                    return False
                if not self.lfacts or len(d) > 8:
                    return None
                n = {i: (-q, u) for i, (q, u) in d.items()}
                if self.proves(minus(d, {0: (1, None)})) or self.proves(minus(n, {0: (1, None)})):
                    return False
                return True if self.proves(d) and self.proves(n) else None
            # as d <= c
            if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                d = {i: (-q, u) for i, (q, u) in d.items()}
                lo, hi = -hi, -lo
            c0 = -1 if k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT) else 0
            if hi <= c0:
                return True
            if lo > c0:
                return False
            if not self.lfacts or len(d) > 8:
                return None
            if self.proves(minus({0: (c0, None)}, d)):
                return True
            return False if self.proves(minus(d, {0: (c0 + 1, None)})) else None
        return None

    def sb(self, e):
        if type(e) is int or not self.subst or e is POISON:
            return e
        return z3.substitute(e, *self.subst)

    def require(self, cond, kind, site=None, detail=''):
        """cond must hold on this path"""
        site = site or self.site()
        name = '%s:%s' % (kind, site)
        if type(cond) is int:
            if cond:
                self.ok(name, 'fold')
                return
            r = self.check()
            if r == z3.unsat:
                raise PathDead()
            raise Violation(kind, site, self.small_model() if r == z3.sat else None, detail)
        c = zs(cond)
        if z3.is_true(c):
            self.ok(name, 'simplify')
            return
        if self.subst:
            c = zsom(self.sb(c))
            if z3.is_true(c):
                self.ok(name, 'simplify')
                return
        if self.known(c) is True:
            self.ok(name, 'simplify')
            return
        if self.quotients(c):
            self.ok(name, 'z3-int')
            return
        r = self.check(z3.Not(c))
        if r == z3.unsat:
            self.ok(name, 'z3')
            return
        raise Violation(kind, site, self.small_model(z3.Not(c)) if r == z3.sat else None, detail + ('' if r == z3.sat else ' (solver: unknown)'))

    def quotients(self, c):
        """an equation between quotients by constants of linear forms that do not wrap around, proved over the integers"""
        if not (z3.is_eq(c) and z3.is_bv(c.arg(0)) and c.arg(0).size() == 64):
            return False
        vs, used = {}, []
        a, b = self.as_int(c.arg(0), vs, used), self.as_int(c.arg(1), vs, used)
        if a is None or b is None or not used:
            return False
        s = z3.Solver()
        s.set('timeout', 10000)
        for i, (x, top) in vs.items():
            s.add(x >= 0, x <= top)
        for f in self.lfacts:
            if all(u is None or i in vs for i, (q, u) in f.items()):
                s.add(z3.Sum([z3.IntVal(q) if u is None else q * vs[i][0] for i, (q, u) in f.items()]) >= 0)
        s.add(a != b)
        t = time.time()
        self.queries += 1
        r = s.check()
        self.qtime += time.time() - t
        return r == z3.unsat

    def as_int(self, e, vs, used):
        d = self.form(linear(e))
        if d is None:
            return None
        ts = []
        for i, (q, u) in d.items():
            if u is None:
                ts.append(z3.IntVal(q))
                continue
            if z3.is_const(u):
                if i not in vs:
                    vs[i] = z3.Int('i%d' % i), self.ub[i][1] if i in self.ub else M(64)
                x = vs[i][0]
            else:
                k, y = u.decl().kind(), None
                if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(u.arg(1)) and u.arg(1).as_long():
                    y, n = u.arg(0), u.arg(1).as_long()
                elif k == z3.Z3_OP_CONCAT and u.num_args() == 2 and z3.is_bv_value(u.arg(0)) and not u.arg(0).as_long() and z3.is_app_of(u.arg(1), z3.Z3_OP_EXTRACT):
                    h, l = u.arg(1).params()
                    if h == 63 and u.arg(1).arg(0).size() == 64 and u.arg(0).size() == l:
                        y, n = u.arg(1).arg(0), 1 << l
                if y is None:
                    return None
                # nested quotients of natural numbers: (a / m) / n = a / (m * n)
                y = simp(y)
                while True:
                    l = linear(y)
                    if len(l) != 1 or l[0][0] != 1 or l[0][1] is None:
                        break
                    z = l[0][1]
                    if z.decl().kind() in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(z.arg(1)) and z.arg(1).as_long():
                        n *= z.arg(1).as_long()
                        y = z.arg(0)
                    elif z.decl().kind() == z3.Z3_OP_CONCAT and z.num_args() == 2 and z3.is_bv_value(z.arg(0)) and not z.arg(0).as_long() and z3.is_app_of(z.arg(1), z3.Z3_OP_EXTRACT) \
                            and z.arg(1).params()[0] == 63 and z.arg(1).arg(0).size() == 64 and z.arg(0).size() == z.arg(1).params()[1]:
                        n <<= z.arg(1).params()[1]
                        y = z.arg(1).arg(0)
                    else:
                        break
                x = self.as_int(y, vs, used)
                if x is None:
                    return None
                used.append(u)
                x = x / n
            ts.append(q * x)
        return z3.Sum(ts) if ts else z3.IntVal(0)

    def site(self):
        return '%s/%s' % (self.curfn, self.cursite)

    # ----------------------------------------------------------------- path control
    def decide(self, c, tag=''):
        if type(c) is int:
            return bool(c)
        c = zs(self.sb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        h = self.cursite
        if not self.inmerge and self.dpos < len(self.prefix):
            t, hh, d = self.prefix[self.dpos]
            if hh != h or t not in 'sf':
                raise Unsup('path replay out of step')
            self.dpos += 1
            if t == 'f':
                self.assume(c if d else z3.Not(c))
            return d
        f = self.feasible2(c)
        if f != (True, True):
            if not self.inmerge:
                self.dpos += 1
                self.prefix = self.prefix + [('s', h, f[0])]
            return f[0]
        if self.inmerge:
            raise MergeAbort()
        self.dpos += 1
        self.todo.append(self.prefix + [('f', h, False)])
        self.prefix = self.prefix + [('f', h, True)]
        self.assume(c)
        return True

    def feasible2(self, c):
        r = self.known(zsom(self.sb(c)))
        if r is not None:
            return (r, not r)
        x = z3.substitute(c, *self.unsl) if self.unsl else c
        y = [z3.is_true(m.eval(x, model_completion=True)) for m in self.alive]
        if True not in y:
            r1 = self.check(c)
            if r1 == z3.unsat:
                return (False, True)
            if r1 == z3.sat:
                self.keep()
        if False not in y:
            r2 = self.check(z3.Not(c))
            if r2 == z3.unsat:
                return (True, False)
            if r2 == z3.sat:
                self.keep()
        return (True, True)

    def keep(self):
        m = self.solver.model()
        self.alive = self.alive[-7:] + [m]
        self.pool = self.pool[-23:] + [m]

    def choose_int(self, e, n, limit=80):
        """fork on the value of a symbolic integer"""
        if type(e) is int:
            return e
        e = simp(self.sb(e))
        if type(e) is int:
            return e
        h = self.cursite
        if not self.inmerge and self.dpos < len(self.prefix):
            t, hh, v = self.prefix[self.dpos]
            if hh != h or t != 'c':
                raise Unsup('path replay out of step')
            self.dpos += 1
            self.assume(e == bv(v, n))
            return v
        if self.check() != z3.sat:
            raise PathDead()
        v = self.model().eval(e, model_completion=True).as_long()
        vals = [v]
        if self.check(e != bv(v, n)) != z3.unsat:
            if self.inmerge:
                raise MergeAbort()
            if self.check(z3.UGE(e, bv(limit, n))) == z3.unsat:
                vals = [k for k in range(limit) if self.check(e == bv(k, n)) != z3.unsat]
            else:
                self.solver.push()
                try:
                    self.solver.add(e != bv(v, n))
                    while True:
                        if len(vals) > limit:
                            raise Unsup('too many values for a symbolic integer')
                        r = self.check()
                        if r == z3.unsat:
                            break
                        if r != z3.sat:
                            raise Budget('solver: unknown')
                        w = self.model().eval(e, model_completion=True).as_long()
                        vals.append(w)
                        self.solver.add(e != bv(w, n))
                finally:
                    self.solver.pop()
        v = vals[0]
        if not self.inmerge:
            self.dpos += 1
            for k in vals[1:]:
                self.todo.append(self.prefix + [('c', h, k)])
            self.prefix = self.prefix + [('c', h, v)]
        self.assume(e == bv(v, n))
        return v

    def run(self, setup, post, on_violation=None):
        """setup(ex) -> args ; post(ex, ('ret', v) | ('panic', fn)).  Returns list of Violations."""
        self.todo = [[]]
        self.violations = []
        self.paths = []
        while self.todo:
            prefix = self.todo.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Budget('paths')
            self.prefix = prefix
            self.dpos = 0
            self.inmerge = 0
            self.pc = []
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout)
            self.mem = {}
            self.ghost = {}
            self.subst = []
            self.ub = {}
            self.facts = []
            self.nslack = 0
            self.lfacts = []
            self.alive = list(self.pool)
            self.unsl = []
            self.bases = {}
            self.globs = {}
            self.nreg = 0
            self.curfn, self.cursite = self.fname, 'entry'
            self.depth = 0
            try:
                args = setup(self)
                try:
                    r = ('ret', self.call_fn(self.fname, args))
                except Panic as p:
                    r = ('panic', p.fn)
                self.curfn, self.cursite = self.fname, 'post'
                post(self, r)
                self.paths.append(r[0])
            except PathDead:
                self.paths.append('dead')
            except Violation as v:
                v.prefix = prefix
                self.violations.append(v)
                if on_violation is None or on_violation(self, v) is not True:
                    return self.violations
        return self.violations

    # ----------------------------------------------------------------- memory
    def newreg(self, name, size, align=16, sym=False, init=False, ro=False):
        self.nreg += 1
        if sym:
            self.mem[name] = SReg(name, size, align, init, ro)
        else:
            self.mem[name] = CReg(name, size, align, ro)
        return Ptr(name, 0)

    def bounds(self, p, n, what, align=1):
        if not isinstance(p, Ptr):
            if p is POISON:
                self.require(0, 'poison-pointer')
            raise Unsup('access through integer pointer')
        if p.r is None:
            self.require(0, 'null-or-dangling')
        r = self.mem[p.r]
        o = p.o
        if type(o) is not int:
            o = simp(o)
        if what == 'w' and r.ro:
            self.require(0, 'write-to-readonly', detail='region ' + str(p.r))
        if type(o) is int and type(r.size) is int:
            self.require(int(o + n <= r.size), 'in-bounds', detail='%s+%d..%d of %s bytes' % (p.r, o, o + n, r.size))
        else:
            sz = bv(r.size, 64)
            oo = bv(o, 64)
            self.require(z3.And(z3.ULE(oo, sz), z3.ULE(bv(n, 64), sz - oo)), 'in-bounds', detail='region %s' % p.r)
        if align > 1:
            if r.align < align:
                self.require(0, 'alignment', detail='align %d of region aligned %d' % (align, r.align))
            elif type(o) is int:
                if o % align:
                    self.require(0, 'alignment')
            else:
                self.require(eq(and_(o, align - 1, 64), 0, 64), 'alignment')
        return r, o

    def rd(self, r, o, n):
        """n bytes at o in region r -> value"""
        return assemble(self.rdbytes(r, o, n))

    def rdbytes(self, r, o, n):
        if r.kind == 'c':
            if type(o) is not int:
                o = self.choose_int(o, 64)
            return r.getbytes(o, n)
        # symbolic region
        bs = None
        pend = list(range(n))
        bs = [None] * n
        for wo, wv, wn in reversed(r.log):
            if not pend:
                break
            d = simp(self.sb(sub(o, wo, 64)))
            if type(d) is int:
                d = sgn(d, 64)
                np = []
                for j in pend:
                    k = d + j
                    if 0 <= k < wn:
                        bs[j] = (wv, wn, k)
                    else:
                        np.append(j)
                pend = np
                continue
            if self.known(zsom(self.sb(z3.ULE(bv(add(o, n, 64), 64), bv(wo, 64))))) is True or self.known(zsom(self.sb(z3.ULE(bv(add(wo, wn, 64), 64), bv(o, 64))))) is True:
                continue
            # disjoint under the path condition?
            if self.check(z3.Or(z3.ULT(d, bv(wn, 64)), z3.UGT(d, bv((1 << 64) - n, 64)))) == z3.unsat:
                continue
            # maybe overlapping: decide the relative offset
            v = None
            if self.decide(z3.Or(z3.ULT(d, bv(wn, 64)), z3.UGT(d, bv((1 << 64) - n, 64)))):
                v = sgn(self.choose_int(d, 64, 200), 64)
                np = []
                for j in pend:
                    k = v + j
                    if 0 <= k < wn:
                        bs[j] = (wv, wn, k)
                    else:
                        np.append(j)
                pend = np
        for j in pend:
            bs[j] = (r.init_byte(simp(add(o, j, 64))), 1, 0)
        return bs

    def wr(self, r, o, v, n):
        if r.kind == 'c':
            if type(o) is not int:
                o = self.choose_int(o, 64)
            r.put(o, v, n)
        else:
            r.log.append((o, v, n))

    def load(self, p, ty, align=1):
        n = ir.size_align(ty)[0]
        r, o = self.bounds(p, n, 'r', align)
        return self.load_in(r, o, ty)

    def load_in(self, r, o, ty):
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            v = self.rd(r, o, n)
            if ty[1] % 8 and v is not POISON:
                v = trunc(v, 8 * n, ty[1])
            return v
        if k == 'f':
            return self.rd(r, o, ty[1] // 8)
        if k == 'ptr':
            v = self.rd(r, o, 8)
            if type(v) is int:
                return Ptr(None, v)
            if v is not POISON and not isinstance(v, (Ptr, tuple)):
                return self.inttoptr(v)
            return v
        if k in ('vec', 'arr'):
            if k == 'vec' and ty[2] == ('i', 1):
                raise Unsup('load of <n x i1>')
            s = ir.size_align(ty[2])[0]
            return [self.load_in(r, add(o, i * s, 64), ty[2]) for i in range(ty[1])]
        if k == 'st':
            return [self.load_in(r, add(o, ir.field_offset(ty, i), 64), t) for i, t in enumerate(ty[1])]
        raise Unsup('load %r' % (ty,))

    def store(self, p, v, ty, align=1):
        n = ir.size_align(ty)[0]
        r, o = self.bounds(p, n, 'w', align)
        self.store_in(r, o, v, ty)

    def store_in(self, r, o, v, ty):
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            if ty[1] % 8 and v is not POISON:
                v = zext(v, ty[1], 8 * n)
            self.wr(r, o, v, n)
        elif k == 'f':
            self.wr(r, o, v, ty[1] // 8)
        elif k == 'ptr':
            self.wr(r, o, v, 8)
        elif k in ('vec', 'arr'):
            if k == 'vec' and ty[2] == ('i', 1):
                raise Unsup('store of <n x i1>')
            s = ir.size_align(ty[2])[0]
            for i in range(ty[1]):
                self.store_in(r, add(o, i * s, 64), POISON if v is POISON else v[i], ty[2])
        elif k == 'st':
            for i, t in enumerate(ty[1]):
                self.store_in(r, add(o, ir.field_offset(ty, i), 64), POISON if v is POISON else v[i], t)
        else:
            raise Unsup('store %r' % (ty,))

    def memcpy(self, d, s, n):
        n = simp(n)
        if type(n) is not int:
            # symbolic length: only into/out of symbolic regions in whole -- fork
            n = self.choose_int(n, 64)
        if n == 0:
            return
        rs, os_ = self.bounds(s, n, 'r')
        rd_, od = self.bounds(d, n, 'w')
        if rs.kind == 'c':
            if type(os_) is not int:
                os_ = self.choose_int(os_, 64)
            bs = rs.getbytes(os_, n)
        else:
            bs = [None] * n
            if n % 8 == 0 and n >= 8:
                pass
            for j in range(n):
                v = self.rd(rs, simp(add(os_, j, 64)), 1)
                bs[j] = (v, 1, 0)
        if rd_.kind == 'c':
            if type(od) is not int:
                od = self.choose_int(od, 64)
            c = rd_.cells
            for j in range(n):
                b = bs[j]
                if b is None:
                    c.pop(od + j, None)
                else:
                    c[od + j] = b
        else:
            # group whole values
            j = 0
            while j < n:
                b = bs[j]
                if b is None:
                    self.wr(rd_, add(od, j, 64), POISON, 1)
                    j += 1
                    continue
                v, w, k = b
                if k == 0 and j + w <= n and all(bs[j + i] is not None and bs[j + i][0] is v and bs[j + i][2] == i and bs[j + i][1] == w for i in range(w)):
                    self.wr(rd_, add(od, j, 64), v, w)
                    j += w
                else:
                    self.wr(rd_, add(od, j, 64), assemble([b]), 1)
                    j += 1

    def base(self, r):
        b = self.bases.get(r)
        if b is None:
            b = z3.BitVec('base_%s' % r, 64)
            self.bases[r] = b
            a = self.mem[r].align
            if a > 1:
                self.assume((b & bv(a - 1, 64)) == bv(0, 64))
            self.assume(z3.ULT(b, bv(1 << 62, 64)))
            self.assume(z3.UGT(b, bv(4096, 64)))
            for r2, b2 in list(self.bases.items()):
                if r2 != r:
                    s1, s2 = bv(self.mem[r].size, 64), bv(self.mem[r2].size, 64)
                    self.assume(z3.Or(z3.ULE(b + s1, b2), z3.ULE(b2 + s2, b)))
        return b

    def ptrtoint(self, p):
        if not isinstance(p, Ptr):
            return p
        if p.r is None:
            return p.o
        return add(self.base(p.r), p.o, 64)

    def inttoptr(self, v):
        if type(v) is int:
            return Ptr(None, v)
        if isinstance(v, Ptr):
            return v
        v = simp(v)
        for r, b in self.bases.items():
            o = simp(sub(v, b, 64))
            if type(o) is int or b.get_id() not in _vars(o):
                return Ptr(r, o)
        raise Unsup('inttoptr of unknown provenance')

    # ----------------------------------------------------------------- operands
    def glob(self, name):
        if name in self.mod.funcs and name not in self.mod.globals:
            return ('fn', name)
        if name not in self.mem:
            ty, init, const = self.mod.globals[name]
            r = CReg(name, ir.size_align(ty)[0], 16, ro=const)
            self.mem[name] = r
            if init is not None:
                v = self.val(init, {})
                self.store_in(r, 0, v, ty)
        return Ptr(name, 0)

    def zero(self, ty):
        k = ty[0]
        if k in ('i', 'f'):
            return 0
        if k == 'ptr':
            return Ptr(None, 0)
        if k in ('vec', 'arr'):
            z = self.zero(ty[2])
            return [z] * ty[1]
        if k == 'st':
            return [self.zero(t) for t in ty[1]]
        raise Unsup('zero')

    def undef(self, ty):
        k = ty[0]
        if k in ('vec', 'arr'):
            z = self.undef(ty[2])
            return [z] * ty[1]
        if k == 'st':
            return [self.undef(t) for t in ty[1]]
        return POISON

    def val(self, o, env):
        k = o[0]
        if k == 'reg':
            return env[o[1]]
        if k == 'int':
            return o[2]
        if k == 'null':
            return Ptr(None, 0)
        if k == 'undef':
            return self.undef(o[1])
        if k == 'zero':
            return self.zero(o[1])
        if k == 'agg':
            return [self.val(x, env) for x in o[2]]
        if k == 'glob':
            return self.glob(o[1])
        if k == 'ce':
            op, ty, ops, x = o[1], o[2], o[3], o[4]
            if op == 'gep':
                return self.gep(self.val(ops[0][1], env), x, [(t, self.val(v, env)) for t, v in ops[1:]])
            if op == 'ptrtoint':
                return self.ptrtoint(self.val(ops[0][1], env))
            if op == 'inttoptr':
                return self.inttoptr(self.val(ops[0][1], env))
            if op == 'bitcast':
                return self.bitcast(self.val(ops[0][1], env), ops[0][0], ty)
        raise Unsup('operand %r' % (o,))

    def gep(self, p, bt, idx):
        if p is POISON:
            return POISON
        if not isinstance(p, Ptr):
            raise Unsup('gep on non pointer')
        off = p.o
        ty = bt
        first = True
        for t, i in idx:
            if i is POISON:
                return POISON
            if first:
                s = ir.size_align(ty)[0]
                first = False
            elif ty[0] == 'st':
                off = add(off, ir.field_offset(ty, i), 64)
                ty = ty[1][i]
                continue
            else:
                ty = ty[2]
                s = ir.size_align(ty)[0]
            i = sext(i, t[1], 64)
            off = add(off, mul(i, s, 64), 64)
        if type(off) is not int:
            off = simp(off)
        return Ptr(p.r, off)

    def bits(self, v, ty):
        """[(value,width)] low first"""
        if ty[0] == 'vec':
            w = ty[2][1]
            if ty[2] == ('i', 1):
                return [(x if type(x) is int or x is POISON else z3.If(x, bv(1, 1), bv(0, 1)), 1) for x in v]
            return [(x, w) for x in v]
        if ty == ('i', 1) and type(v) is not int:
            return [(z3.If(v, bv(1, 1), bv(0, 1)), 1)]
        return [(v, ty[1])]

    def bitcast(self, v, t1, t2):
        if t1 == t2:
            return v
        if t1[0] == 'ptr' and t2[0] == 'ptr':
            return v
        if v is POISON:
            return self.undef(t2)
        if t1[0] in ('i', 'f') and t2[0] in ('i', 'f'):
            return v
        if t1[0] == 'vec' and t2[0] == 'vec' and t1[1] == t2[1]:
            return v
        src = self.bits(v, t1)

        def take(lo, w):
            parts = []
            pos = 0
            for x, xw in src:
                a, b = max(lo, pos), min(lo + w, pos + xw)
                if a < b:
                    if x is POISON:
                        return POISON
                    if isinstance(x, Ptr):
                        raise Unsup('bitcast of pointer')
                    parts.append((extract(x, b - pos - 1, a - pos, xw), b - a))
                pos += xw
            return concat(parts)
        if t2[0] == 'vec':
            w = t2[2][1]
            if t1[0] == 'vec':
                w1 = t1[2][1]
                if w1 % w == 0 and w > 1:
                    out = []
                    q = w1 // w
                    for x, xw in src:
                        for j in range(q):
                            out.append(POISON if x is POISON else extract(x, w * (j + 1) - 1, w * j, w1))
                    return out
                if w % w1 == 0:
                    q = w // w1
                    out = []
                    for i in range(t2[1]):
                        ps = src[i * q:(i + 1) * q]
                        out.append(POISON if any(x is POISON for x, _ in ps) else concat(ps))
                    return out
            out = [take(i * w, w) for i in range(t2[1])]
            if w == 1:
                out = [x if type(x) is int or x is POISON else x == bv(1, 1) for x in out]
            return out
        w = t2[1]
        if any(x is POISON for x, _ in src):
            return POISON
        r = concat(src)
        if w == 1 and type(r) is not int:
            r = r == bv(1, 1)
        return r

    # ----------------------------------------------------------------- execution
    def call_fn(self, name, args):
        f = self.mod.funcs.get(name)
        if f is None or f.declared_only:
            raise Unsup('call to external %s' % name)
        ir.body(f, self.mod)
        self.called.add(name)
        fe = ir.feats(f, self.mod)
        bad = fe - self.feats
        if bad:
            self.require(0, 'target-feature', detail='%s needs %s' % (name[:80], ','.join(sorted(bad))))
        self.depth += 1
        if self.depth > 60:
            raise Unsup('recursion depth')
        env = {}
        for (t, nm), a in zip(f.params, args):
            env[nm] = a
        sv = self.curfn, self.cursite
        self.curfn = name
        try:
            r = self.run_blocks(f, env, f.entry, None, None)
        finally:
            self.depth -= 1
        self.curfn, self.cursite = sv
        return r[1]

    def run_blocks(self, f, env, blk, prev, stop):
        """run until return -> ('ret', v), or arrival at block `stop` -> ('at', pred)"""
        while True:
            if blk == stop:
                return ('at', prev)
            ins = f.blocks[blk]
            # phis
            i = 0
            n = len(ins)
            if ins[0].op == 'phi':
                vals = []
                while i < n and ins[i].op == 'phi':
                    I = ins[i]
                    for v, b in I.x:
                        if b == prev:
                            vals.append((I.res, self.val(v, env)))
                            break
                    else:
                        raise Unsup('phi')
                    i += 1
                for r, v in vals:
                    env[r] = v
            h = self.hooks.get('block')
            if h:
                nxt = h(self, f, env, blk, prev)
                if nxt is not None:
                    if nxt[0] == 'ret':
                        return nxt
            while i < n:
                I = ins[i]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget('steps')
                op = I.op
                if op == 'br':
                    prev, blk = blk, I.x[0]
                    break
                if op == 'condbr':
                    self.cursite = '%s:%d' % (blk, i)
                    c = self.val(I.a[0], env)
                    if c is POISON:
                        self.require(0, 'branch-on-poison')
                    if type(c) is not int:
                        c = back(zs(c))
                    if type(c) is int:
                        if noexit(f, I.x[1 if c else 0]):
                            self.ok('no-panic:%s' % self.site(), 'fold')
                        prev, blk = blk, I.x[0 if c else 1]
                        break
                    r = self.branch(f, env, blk, c, I.x[0], I.x[1], stop)
                    if r[0] == 'goto':
                        prev, blk = blk, r[1]
                        break
                    if r[0] == 'merged':
                        # phi values of the join block already computed
                        prev, blk = None, r[1]
                        res = self.after_merge(f, env, blk, stop)
                        if res[0] == 'stop':
                            return ('at', res[1])
                        h = self.hooks.get('block')
                        if h:
                            h(self, f, env, blk, None)
                        ins = f.blocks[blk]
                        n = len(ins)
                        i = res[1]
                        continue
                    return r
                if op == 'switch':
                    self.cursite = '%s:%d' % (blk, i)
                    c = self.val(I.a[0], env)
                    if c is POISON:
                        self.require(0, 'branch-on-poison')
                    w = I.ty[1]
                    c = simp(c) if type(c) is not int else c
                    tgt = I.x[0]
                    for cv, l in I.x[1]:
                        if self.decide(eq(c, cv, w)):
                            tgt = l
                            break
                    prev, blk = blk, tgt
                    break
                if op == 'ret':
                    v = self.val(I.a[0], env) if I.a else None
                    return ('ret', v)
                if op == 'unreachable':
                    self.cursite = '%s:%d' % (blk, i)
                    self.require(0, 'unreachable-reached')
                self.cursite = (blk, i)
                h = getattr(self, 'i_' + op, None)
                if h is None:
                    raise Unsup('instruction %s' % I.text[:80])
                r = h(I, env)
                if I.res is not None:
                    env[I.res] = r
                i += 1

    def after_merge(self, f, env, blk, stop):
        if blk == stop:
            return ('stop', ('merged',))
        ins = f.blocks[blk]
        i = 0
        while ins[i].op == 'phi':
            i += 1
        return ('cont', i)

    def branch(self, f, env, blk, c, a, b, stop):
        if self.merge_ok:
            j = ipdom(f, blk)
            if j is not None and mergeable(f, a, b, j):
                r = self.try_merge(f, env, blk, c, a, b, j)
                if r is not None:
                    return r
        t, o = (a, b) if self.decide(c) else (b, a)
        if noexit(f, o):
            self.ok('no-panic:%s' % self.site(), 'z3')
        return ('goto', t)

    def try_merge(self, f, env, blk, c, a, b, j):
        c = zs(self.sb(c))
        fs = (True, False) if z3.is_true(c) else (False, True) if z3.is_false(c) else self.feasible2(c)
        if fs != (True, True):
            t, o = (a, b) if fs[0] else (b, a)
            if noexit(f, o):
                self.ok('no-panic:%s' % self.site(), 'z3')
            return ('goto', t)
        saved = self.mem
        sv = (self.dpos, self.prefix, list(self.todo), len(self.pc))
        arms = []
        self.inmerge += 1
        try:
            for cond, tgt in ((c, a), (z3.Not(c), b)):
                self.mem = {k: v.clone() for k, v in saved.items()} if stores_in(f, tgt, j) else dict(saved)
                e2 = dict(env)
                self.solver.push()
                npc = len(self.pc)
                nsub = self.subst, self.ub, self.facts, self.unsl, self.lfacts
                alive = self.alive
                try:
                    self.assume(cond)
                    r = self.run_blocks(f, e2, tgt, blk, j)
                    arms.append((cond, r, e2, self.mem))
                except PathDead:
                    arms.append(None)
                finally:
                    self.solver.pop()
                    del self.pc[npc:]
                    self.subst, self.ub, self.facts, self.unsl, self.lfacts = nsub
                    self.alive = alive + [m for m in self.alive if not any(m is x for x in alive)]
        except (MergeAbort, Unsup, Panic):
            self.mem = saved
            self.inmerge -= 1
            if self.inmerge:
                raise MergeAbort()
            return None
        self.inmerge -= 1
        live = [x for x in arms if x is not None]
        if not live:
            raise PathDead()
        # phi values at the join
        try:
            phis = [I for I in f.blocks[j] if I.op == 'phi']
            per = []
            for x in live:
                cond, r, e2, m = x
                if r[0] != 'at':
                    raise Unsup('return in arm')
                if r[1] == ('merged',):
                    per.append([e2[I.res] for I in phis])
                else:
                    vs = []
                    for I in phis:
                        for v, pb in I.x:
                            if pb == r[1]:
                                vs.append(self.val(v, e2))
                                break
                    per.append(vs)
            if len(live) == 1:
                self.assume(live[0][0])
                for I, v in zip(phis, per[0]):
                    env[I.res] = v
                self.mem = live[0][3]
                return ('merged', j)
            vals = [self.mrg(c, x, y, I.ty) for I, x, y in zip(phis, per[0], per[1])]
            mem = self.mrgmem(c, live[0][3], live[1][3])
        except Unsup:
            self.mem = saved
            if self.inmerge:
                raise MergeAbort()
            return None
        for I, v in zip(phis, vals):
            env[I.res] = v
        self.mem = mem
        return ('merged', j)

    def mrg(self, c, x, y, ty):
        if x is y:
            return x
        if isinstance(x, list) and isinstance(y, list):
            return [self.mrg(c, p, q, elt(ty, i)) for i, (p, q) in enumerate(zip(x, y))]
        w = ty[1] if ty[0] in ('i', 'f') else 64
        return ite(c, x, y, w)

    def mrgmem(self, c, m1, m2):
        out = {}
        for k in set(m1) | set(m2):
            a, b = m1.get(k), m2.get(k)
            if a is None or b is None or a is b:
                out[k] = a or b
                continue
            if a.kind == 's':
                if a.log == b.log:
                    out[k] = a
                    continue
                raise Unsup('merge of symbolic memory')
            if a.cells == b.cells:
                out[k] = a
                continue
            r = a.clone()
            done = set()
            for o in sorted(set(a.cells) | set(b.cells)):
                if o in done:
                    continue
                x, y = a.cells.get(o), b.cells.get(o)
                if x is y or x == y:
                    continue
                if x is None or y is None:
                    r.cells.pop(o, None)     # uninitialised on one side
                    continue
                n = x[1]
                if x[2] == 0 and y[2] == 0 and x[1] == y[1]:
                    if isinstance(x[0], Ptr) != isinstance(y[0], Ptr):
                        raise Unsup('merge pointer/int')
                    v = ite(c, x[0], y[0], 8 * n)
                    for i in range(n):
                        r.cells[o + i] = (v, n, i)
                        done.add(o + i)
                else:
                    v = ite(c, assemble([x]), assemble([y]), 8)
                    r.cells[o] = (v, 1, 0)
            out[k] = r
        return out

    # ----------------------------------------------------------------- instructions
    def i_alloca(self, I, env):
        s, a = ir.size_align(I.ty)
        n = 1
        if I.a:
            n = self.val(I.a[0], env)
        m = ALIGN.search(I.text)
        return self.newreg('a%d_%s' % (self.nreg, I.res), s * n, int(m.group(1)) if m else a)

    def i_load(self, I, env):
        m = ALIGN.search(I.text)
        return self.load(self.val(I.a[0], env), I.ty, int(m.group(1)) if m else 1)

    def i_store(self, I, env):
        m = ALIGN.search(I.text)
        self.store(self.val(I.a[1], env), self.val(I.a[0], env), I.ty, int(m.group(1)) if m else 1)

    def i_gep(self, I, env):
        idx, inb = I.x
        return self.gep(self.val(I.a[0], env), I.ty, [(t, self.val(v, env)) for t, v in idx])

    def lanes2(self, fn, a, b, ty):
        if ty[0] == 'vec':
            return [POISON if x is POISON or y is POISON else fn(x, y, ty[2][1]) for x, y in zip(a, b)]
        if a is POISON or b is POISON:
            return POISON
        return fn(a, b, ty[1])

    def arith(op):
        def h(self, I, env):
            a, b = self.val(I.a[0], env), self.val(I.a[1], env)
            ty = I.ty
            if ty == ('i', 64) and (isinstance(a, Ptr) or isinstance(b, Ptr)):
                a, b = self.ptrtoint(a), self.ptrtoint(b)
            fl = I.x
            if fl and ty[0] == 'i' and a is not POISON and b is not POISON:
                n = ty[1]
                if 'nuw' in fl:
                    c = {'add': uadd_ov, 'sub': usub_ov, 'mul': umul_ov}.get(op)
                    if c:
                        self.require(not_(c(a, b, n)), 'no-unsigned-wrap')
                if 'nsw' in fl:
                    c = {'add': sadd_ov, 'sub': ssub_ov, 'mul': smul_ov}.get(op)
                    if c:
                        self.require(not_(c(a, b, n)), 'no-signed-wrap')
                if 'exact' in fl and op in ('lshr', 'ashr') and isint(b):
                    self.require(eq(and_(a, (1 << b) - 1, n), 0, n), 'exact-shift')
            if ty == ('i', 64) and type(a) is not int and type(b) is int and a is not POISON and self.ub:
                # division by a power of two
                k = 1 << b if op == 'lshr' and 0 < b < 63 else b + 1 if op == 'and' and b & (b + 1) == 0 and 0 < b < M(63) else 0
                r = self.divlin(a, k, False) if k else None
                if r:
                    return r[0 if op == 'lshr' else 1]
            return self.lanes2(self.BIN[op], a, b, ty)
        return h

    def _div(self, kind):
        def f(a, b, n):
            if isint(a) and isint(b) and b:
                if kind == 'udiv':
                    return a // b
                if kind == 'urem':
                    return a % b
                sa, sb = sgn(a, n), sgn(b, n)
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (q if kind == 'sdiv' else sa - q * sb) & M(n)
            self.require(not_(eq(b, 0, n)), 'division-by-zero')
            if kind[0] == 's':
                self.require(not_(land(eq(a, 1 << (n - 1), n), eq(b, M(n), n))), 'division-overflow')
            if isint(b) and b & (b - 1) == 0 and kind[0] == 'u':
                qr = self.divlin(a, b, False) if n == 64 and b > 1 and self.ub else None
                if qr is not None:
                    return qr[0] if kind == 'udiv' else qr[1]
                k = b.bit_length() - 1
                return lshr(a, k, n) if kind == 'udiv' else and_(a, b - 1, n)
            if isint(b) and b and kind[0] == 'u' and n == 64:
                qr = self.divlin(a, b)
                if qr is not None:
                    return qr[0] if kind == 'udiv' else qr[1]
            a, b = bv(a, n), bv(b, n)
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[kind](a, b)
        return f

    def divlin(self, a, b, ask=True):
        """a = q*b + t read off the linear form of a, when q*b + t does not overflow"""
        x = simp(self.sb(a))
        if type(x) is int:
            return x // b, x % b
        q, t, rest = 0, 0, []
        for k, u in linear(x):
            if u is None:
                t = k
                continue
            k = sgn(k, 64)
            if k % b:
                rest.append((k, u))
            else:
                q = add(q, mul((k // b) & M(64), u, 64), 64)
        if rest:
            # the terms not divisible by b are the remainder when they stay below b
            sp = self.span(rest + [(t % b, None)])
            qs = self.span(linear(simp(add(q, t // b, 64)))) if not isint(q) else (q + t // b, q + t // b)
            if sp is None or sp[1] >= b or qs is None or qs[1] * b + sp[1] > M(64):
                return None
            q = simp(add(q, t // b, 64))
            r = t % b
            for k, u in rest:
                r = add(r, mul(k & M(64), u, 64), 64)
            return q, simp(r)
        q = add(q, t // b, 64)
        q = simp(q)
        t %= b
        if type(q) is int:
            return q, t
        qs = self.span(linear(q))
        if qs is not None and qs[1] * b + t <= M(64):
            return q, t
        if ask and self.check(z3.UGT(q, bv((M(64) - t) // b, 64))) == z3.unsat:
            return q, t
        return None

    def divop(kind):
        def h(self, I, env):
            return self.lanes2(self._div(kind), self.val(I.a[0], env), self.val(I.a[1], env), I.ty)
        return h

    BIN = {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
           'fadd': lambda a, b, n: farith('add', a, b, n), 'fsub': lambda a, b, n: farith('sub', a, b, n),
           'fmul': lambda a, b, n: farith('mul', a, b, n), 'fdiv': lambda a, b, n: farith('div', a, b, n)}
    for _o in list(BIN):
        locals()['i_' + _o] = arith(_o)
    for _o in ('udiv', 'urem', 'sdiv', 'srem'):
        locals()['i_' + _o] = divop(_o)

    def i_fneg(self, I, env):
        return self.un(lambda a, n: xor(a, 1 << (n - 1), n), self.val(I.a[0], env), I.ty)

    def i_freeze(self, I, env):
        v = self.val(I.a[0], env)
        if v is POISON:
            raise Unsup('freeze of poison')
        return v

    def un(self, fn, a, ty):
        if ty[0] == 'vec':
            return [POISON if x is POISON else fn(x, ty[2][1]) for x in a]
        return POISON if a is POISON else fn(a, ty[1])

    def i_icmp(self, I, env):
        a, b = self.val(I.a[0], env), self.val(I.a[1], env)
        ty = I.ty
        if ty[0] == 'ptr':
            if a is POISON or b is POISON:
                return POISON
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                return icmp(I.x, a.o, b.o, 64) if I.x in ('eq', 'ne') else icmp(I.x, self.ptrtoint(a), self.ptrtoint(b), 64)
            # in-bounds pointers of live regions are never null / never equal across regions at element addresses
            if I.x in ('eq', 'ne') and isinstance(a, Ptr) and isinstance(b, Ptr) and (a.r is None) != (b.r is None):
                z = a if a.r is None else b
                if z.o == 0:
                    return int(I.x == 'ne')
            return icmp(I.x, self.ptrtoint(a), self.ptrtoint(b), 64)
        if ty == ('i', 64) and (isinstance(a, Ptr) or isinstance(b, Ptr)):
            a, b = self.ptrtoint(a), self.ptrtoint(b)
        return self.lanes2(lambda x, y, n: icmp(I.x, x, y, n), a, b, ty)

    def i_fcmp(self, I, env):
        a, b = self.val(I.a[0], env), self.val(I.a[1], env)
        return self.lanes2(lambda x, y, n: fcmp(I.x, x, y, n), a, b, I.ty)

    def cast(fn):
        def h(self, I, env):
            v = self.val(I.a[0], env)
            t1 = I.x[0]
            t2 = I.ty
            if t1[0] == 'vec':
                return [POISON if x is POISON else fn(x, t1[2][1], t2[2][1]) for x in v]
            if v is POISON:
                return POISON
            if isinstance(v, Ptr):
                v = self.ptrtoint(v)
            return fn(v, t1[1], t2[1])
        return h
    for _o, _f in (('trunc', trunc), ('zext', zext), ('sext', sext), ('sitofp', sitofp), ('uitofp', uitofp), ('fpext', fpext),
                   ('fptrunc', fptrunc), ('fptosi', fptosi), ('fptoui', fptoui)):
        locals()['i_' + _o] = cast(_f)

    def i_ptrtoint(self, I, env):
        v = self.val(I.a[0], env)
        if I.ty != ('i', 64):
            raise Unsup('ptrtoint width')
        return v if v is POISON else self.ptrtoint(v)

    def i_inttoptr(self, I, env):
        v = self.val(I.a[0], env)
        return v if v is POISON else self.inttoptr(v)

    def i_bitcast(self, I, env):
        return self.bitcast(self.val(I.a[0], env), I.x[0], I.ty)

    def i_select(self, I, env):
        c, a, b = (self.val(x, env) for x in I.a)
        if I.x[0] == 'vec':
            return [POISON if q is POISON or (q is not POISON and not isint(q) and (x is POISON or y is POISON)) else ite(q, x, y, I.ty[2][1]) for q, x, y in zip(c, a, b)]
        if c is POISON:
            self.require(0, 'select-on-poison')
        if not isint(c):
            c = back(zs(c))
        if isint(c):
            return a if c else b
        try:
            return self.mrg(c, a, b, I.ty)
        except Unsup:
            return a if self.decide(c) else b

    def i_extractvalue(self, I, env):
        v = self.val(I.a[0], env)
        for i in I.x:
            v = v[i]
        return v

    def i_insertvalue(self, I, env):
        v, e = self.val(I.a[0], env), self.val(I.a[1], env)

        def ins(v, ix):
            if not ix:
                return e
            v = list(v)
            v[ix[0]] = ins(v[ix[0]], ix[1:])
            return v
        return ins(v, I.x)

    def i_extractelement(self, I, env):
        v = self.val(I.a[0], env)
        i = self.val(I.a[1], env)
        if i is POISON:
            return POISON
        if not isint(i):
            i = self.choose_int(i, I.x[1])
        if i >= len(v):
            self.require(0, 'lane-index', detail='extractelement %d of %d' % (i, len(v)))
        return v[i]

    def i_insertelement(self, I, env):
        v = list(self.val(I.a[0], env))
        e = self.val(I.a[1], env)
        i = self.val(I.a[2], env)
        if i is POISON:
            self.require(0, 'lane-index')
        if not isint(i):
            i = self.choose_int(i, I.x[1])
        if i >= len(v):
            self.require(0, 'lane-index', detail='insertelement %d of %d' % (i, len(v)))
        v[i] = e
        return v

    def i_shufflevector(self, I, env):
        a, b, m = (self.val(x, env) for x in I.a)
        ab = list(a) + list(b)
        return [POISON if k is POISON else ab[k] for k in m]

    # ----------------------------------------------------------------- calls
    PANIC = re.compile(r'panick|panic_|slice_index_|slice_start|slice_end|expect_failed|unwrap_failed|handle_alloc_error|capacity_overflow|begin_panic|bounds_check|cell.*already')

    def i_call(self, I, env):
        x = I.x
        cal = x['callee']
        if cal[0] != 'glob':
            cv = self.val(cal, env)
            if isinstance(cv, tuple) and cv[0] == 'fn':
                name = cv[1]
            else:
                raise Unsup('indirect call')
        else:
            name = cal[1]
        if name.startswith('llvm.'):
            return self.intrinsic(name, I, env)
        hk = self.hooks.get(name)
        args = None
        if hk:
            args = [self.val(v, env) for t, v in x['args']]
            return hk(self, args, I)
        if self.PANIC.search(name):
            if self.inmerge:
                if self.check() == z3.unsat:
                    raise PathDead()
                raise MergeAbort()
            raise Panic(name)
        f = self.mod.funcs.get(name)
        if f is not None and not f.declared_only:
            args = [self.val(v, env) for t, v in x['args']]
            return self.call_fn(name, args)
        gh = self.hooks.get('extern')
        if gh:
            args = [self.val(v, env) for t, v in x['args']]
            return gh(self, name, args, I)
        raise Unsup('call to external %s' % name)

    def intrinsic(self, name, I, env):
        args = I.x['args']
        if name.startswith('llvm.assume'):
            c = self.val(I.x['args'][0][1] if isinstance(I.x['args'][0], tuple) and len(I.x['args'][0]) == 2 and not isinstance(I.x['args'][0][0], str) else I.x['args'][0], env)
            if c is POISON:
                self.require(0, 'undefined-behaviour', detail='assume on poison')
            self.require(c, 'undefined-behaviour', detail='compiler assumption does not hold')
            return None
        if name.startswith(('llvm.experimental.noalias', 'llvm.lifetime', 'llvm.dbg', 'llvm.donothing')):
            return None
        a = [self.val(v, env) for t, v in args]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(a[0], a[1], a[2])
            return None
        if name.startswith('llvm.memset'):
            n = self.choose_int(simp(a[2]), 64, 5) if not isint(a[2]) else a[2]
            if n:
                r, o = self.bounds(a[0], n, 'w')
                for i in range(n):
                    self.wr(r, add(o, i, 64), a[1], 1)
            return None
        if name.startswith('llvm.trap'):
            self.require(0, 'trap')
        if name.startswith('llvm.x86.'):
            self.intrins.add(name)
            need = x86_feature(name)
            if need and need not in self.feats:
                self.require(0, 'target-feature', detail='%s needs %s' % (name, need))
            fn = self.x86.get(name)
            if fn is None:
                raise Unsup('no contract for %s' % name)
            self.sites.add('intrinsic-contract:' + name)
            return fn(self, a, [t for t, v in args])
        base = name[5:]
        ty = I.ty
        m = re.match(r'([a-z]+(?:\.[a-z]+)*)((?:\.[vip0-9f]+)*)$', base)
        op = m.group(1) if m else base
        # strip type suffixes of the form .v4i32 / .i64 / .f32
        op = re.sub(r'\.(v\d+)?[ifp]\d+.*$', '', base)
        if op.endswith('.with.overflow'):
            k = op.split('.')[0]
            ov = {'uadd': uadd_ov, 'usub': usub_ov, 'umul': umul_ov, 'sadd': sadd_ov, 'ssub': ssub_ov, 'smul': smul_ov}[k]
            ar = {'add': add, 'sub': sub, 'mul': mul}[k[1:]]
            n = args[0][0][1]
            p, q = a[0], a[1]
            if isinstance(p, Ptr) or isinstance(q, Ptr):
                p, q = self.ptrtoint(p), self.ptrtoint(q)
            if p is POISON or q is POISON:
                return [POISON, POISON]
            return [ar(p, q, n), ov(p, q, n)]
        B2 = {'sadd.sat': sat_add_s, 'uadd.sat': sat_add_u, 'ssub.sat': sat_sub_s, 'usub.sat': sat_sub_u,
              'smax': smax, 'smin': smin, 'umax': umax, 'umin': umin, 'copysign': lambda x, y, n: or_(and_(x, M(n - 1), n), and_(y, 1 << (n - 1), n), n),
              'maxnum': fmaxnum, 'minnum': fminnum}
        if op in B2:
            return self.lanes2(B2[op], a[0], a[1], ty)
        B1 = {'ctpop': ctpop, 'bswap': bswap, 'fabs': lambda x, n: and_(x, M(n - 1), n), 'sqrt': fsqrt,
              'floor': lambda x, n: fround('floor', x, n), 'ceil': lambda x, n: fround('ceil', x, n), 'trunc': lambda x, n: fround('trunc', x, n),
              'round': lambda x, n: fround('round', x, n), 'rint': lambda x, n: fround('rint', x, n), 'nearbyint': lambda x, n: fround('rint', x, n),
              'roundeven': lambda x, n: fround('rint', x, n), 'bitreverse': lambda x, n: concat([(extract(x, i, i, n), 1) for i in range(n - 1, -1, -1)])}
        if op in B1:
            return self.un(B1[op], a[0], ty)
        if op == 'abs':
            return self.un(iabs, a[0], ty)
        if op == 'expect':
            return a[0]
        if op in ('fshl', 'fshr') and isint(a[2]):
            n = ty[1]
            s = a[2] % n
            if op == 'fshl':
                return or_(shl(a[0], s, n), lshr(a[1], n - s, n) if s else 0, n)
            return or_(shl(a[0], n - s, n) if s else 0, lshr(a[1], s, n), n)
        if op.startswith('vector.reduce.'):
            k = op.split('.')[2]
            n = args[-1][0][2][1]
            fn = {'add': add, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'smax': smax, 'smin': smin, 'umax': umax, 'umin': umin,
                  'fadd': lambda x, y, n: farith('add', x, y, n), 'fmul': lambda x, y, n: farith('mul', x, y, n)}[k]
            vs = a[-1]
            acc = a[0] if len(a) == 2 else vs[0]
            for x in (vs if len(a) == 2 else vs[1:]):
                if x is POISON or acc is POISON:
                    return POISON
                acc = fn(acc, x, n)
            return acc
        if op in ('ctlz', 'cttz') and isint(a[0]):
            n = ty[1]
            v = a[0]
            if v == 0:
                return n
            return n - v.bit_length() if op == 'ctlz' else (v & -v).bit_length() - 1
        raise Unsup('intrinsic %s' % name)


def tie(k, a, b, n):
    """equal operands (possibly zeros of opposite sign): either one"""
    if isint(a) and isint(b):
        return a
    return ite(fuf(k + 'tie', n, 2, 1)(bv(a, n), bv(b, n)) == bv(1, 1), a, b, n)


def fmaxnum(a, b, n):
    return ite(isnan(a, n), b, ite(isnan(b, n), a, ite(fcmp('ogt', a, b, n), a, ite(fcmp('ogt', b, a, n), b, tie('max', a, b, n), n), n), n), n)


def fminnum(a, b, n):
    return ite(isnan(a, n), b, ite(isnan(b, n), a, ite(fcmp('olt', a, b, n), a, ite(fcmp('olt', b, a, n), b, tie('min', a, b, n), n), n), n), n)


def elt(ty, i):
    if ty[0] in ('vec', 'arr'):
        return ty[2]
    return ty[1][i]


def minus(a, b):
    d = dict(a)
    for i, (q, u) in b.items():
        d[i] = (d[i][0] if i in d else 0) - q, u
    return d


def linear(e):
    """[(coefficient, atom or None)] of a 64-bit term"""
    out = []
    for u in (e.children() if z3.is_app_of(e, z3.Z3_OP_BADD) else [e]):
        if z3.is_bv_value(u):
            out.append((u.as_long(), None))
        elif z3.is_app_of(u, z3.Z3_OP_BMUL) and u.num_args() == 2 and z3.is_bv_value(u.arg(0)):
            out.append((u.arg(0).as_long(), u.arg(1)))
        elif z3.is_app_of(u, z3.Z3_OP_BNEG):
            out.append((M(e.size()), u.arg(0)))
        else:
            out.append((1, u))
    return out


def _consts(e):
    seen, out, st = set(), [], [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if not z3.is_bv_value(x):
                out.append(x)
        else:
            st.extend(x.children())
    return out


def _vars(e):
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            out.add(x.get_id())
        st.extend(x.children())
    return out


FEATMAP = [('avx512', 'avx512'), ('avx2', 'avx2'), ('avx', 'avx'), ('sse42', 'sse4.2'), ('sse41', 'sse4.1'), ('ssse3', 'ssse3'),
           ('sse3', 'sse3'), ('sse2', 'sse2'), ('sse', 'sse'), ('fma', 'fma'), ('bmi', 'bmi2')]


def x86_feature(name):
    k = name.split('.')[2]
    for p, f in FEATMAP:
        if k == p or k.startswith(p):
            if f == 'avx512':
                return 'avx512'
            return f
    return None


# --------------------------------------------------------------------- CFG helpers
def succs(f, b):
    t = f.blocks[b][-1]
    if t.op in ('br', 'condbr'):
        return list(t.x)
    if t.op == 'switch':
        return [t.x[0]] + [l for _, l in t.x[1]]
    return []


def noexit(f, b):
    return f.blocks[b][-1].op == 'unreachable'


def ipdom(f, blk):
    pd = getattr(f, 'pdom', None)
    if pd is None:
        pd = f.pdom = compute_ipdom(f)
    return pd.get(blk)


def compute_ipdom(f):
    """immediate post-dominators, ignoring blocks that end in unreachable (panics)"""
    nodes = [b for b in f.order if not noexit(f, b)]
    ns = set(nodes)
    EXIT = None
    succ = {b: [s for s in succs(f, b) if s in ns] or [EXIT] for b in nodes}
    # iterative set-based (functions are small)
    full = set(nodes) | {EXIT}
    pdom = {b: set(full) for b in nodes}
    pdom[EXIT] = {EXIT}
    ch = True
    order = list(reversed(nodes))
    while ch:
        ch = False
        for b in order:
            s = None
            for x in succ[b]:
                s = set(pdom[x]) if s is None else s & pdom[x]
            s = s | {b}
            if s != pdom[b]:
                pdom[b] = s
                ch = True
    out = {}
    for b in nodes:
        cand = pdom[b] - {b}
        # the closest: the one whose pdom set is largest
        best = max(cand, key=lambda c: len(pdom[c])) if cand else None
        out[b] = best
    return out


def region(f, start, stop, limit=40):
    """blocks reachable from start before stop; None when cyclic or too large"""
    seen = {}
    order = []

    def dfs(b, path):
        if b == stop or b in seen and seen[b] == 2:
            return True
        if seen.get(b) == 1:
            return False
        if len(seen) > limit:
            return False
        seen[b] = 1
        for s in succs(f, b):
            if not dfs(s, path):
                return False
        seen[b] = 2
        order.append(b)
        return True
    if not dfs(start, []):
        return None
    return order


def mergeable(f, a, b, j):
    c = getattr(f, 'mcache', None)
    if c is None:
        c = f.mcache = {}
    k = (a, b, j)
    r = c.get(k)
    if r is None:
        ra, rb = region(f, a, j), region(f, b, j)
        r = ra is not None and rb is not None
        c[k] = r
    return r


def stores_in(f, a, j):
    c = getattr(f, 'scache', None)
    if c is None:
        c = f.scache = {}
    k = (a, j)
    r = c.get(k)
    if r is None:
        r = False
        for b in region(f, a, j) or []:
            for I in f.blocks[b]:
                if I.op == 'store' or I.op == 'alloca' or I.op == 'call' and not (I.x['callee'][0] == 'glob' and I.x['callee'][1].startswith('llvm.') and not I.x['callee'][1].startswith('llvm.mem')):
                    r = True
        c[k] = r
    return r
