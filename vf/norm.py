"""Normal-form back end: equality of n-bit sums by linear normalisation, of float sums/products by their multiset of leaves."""
import z3
from collections import Counter
from .bv import *


# An n-bit term is read as an integer linear form over atoms that is congruent to it modulo 2^n; extensions are entered only
# when the interval of the form shows that the narrow term did not wrap.  Atoms over one 8-bit slice of an input are compared
# as functions of that slice, by their 256-entry tables.

class Form:
    __slots__ = ('t', 'c')

    def __init__(self, t, c):
        self.t, self.c = t, c


class Norm:
    def __init__(self, lim=100000):
        self.memo = {}
        self.atoms = {}
        self.keep = []
        self.left = lim
        self.tabs = {}

    def sym(self, v, n):
        v &= M(n)
        return v - (1 << n) if v >> (n - 1) and n > 1 else v

    def mk(self, t, c, n):
        return Form({k: w for k, w in ((k, self.sym(v, n)) for k, v in t.items()) if w}, self.sym(c, n))

    def atom(self, x, signed=False):
        k = (x.get_id(), signed)
        if k not in self.atoms:
            n = x.size()
            self.atoms[k] = (x, signed, (-(1 << (n - 1)), M(n - 1)) if signed else (0, self.ub(x)))
        return k

    def ub(self, x):
        if z3.is_bv_value(x):
            return x.as_long()
        k = x.decl().kind()
        if k == z3.Z3_OP_ITE:
            return max(self.ub(x.arg(1)), self.ub(x.arg(2)))
        if k == z3.Z3_OP_ZERO_EXT:
            return self.ub(x.arg(0))
        return M(x.size())

    def rng(self, f):
        lo = hi = f.c
        for k, v in f.t.items():
            a, b = self.atoms[k][2]
            if v > 0:
                lo += v * a
                hi += v * b
            else:
                lo += v * b
                hi += v * a
        return lo, hi

    def fit(self, f, n, lo0, hi0):
        """the exact integer form when f modulo 2^n lies in [lo0, hi0], else None"""
        lo, hi = self.rng(f)
        k = -((lo - lo0) >> n)
        if lo + (k << n) >= lo0 and hi + (k << n) <= hi0:
            return Form(f.t, f.c + (k << n))
        return None

    def unsigned(self, x):
        n = x.size()
        f = self.form(x)
        g = self.fit(f, n, 0, M(n))
        return g or Form({self.atom(x): 1}, 0)

    def signed(self, x):
        n = x.size()
        f = self.form(x)
        g = self.fit(f, n, -(1 << (n - 1)), M(n - 1))
        return g or Form({self.atom(x, True): 1}, 0)

    def comb(self, parts, n, c=0):
        t = {}
        for f, m in parts:
            c += f.c * m
            for k, v in f.t.items():
                t[k] = t.get(k, 0) + v * m
        return self.mk(t, c, n)

    def form(self, x):
        """linear form congruent to x modulo 2^size"""
        i = x.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r
        self.left -= 1
        if self.left < 0:
            raise Unsup('normal form too large')
        self.keep.append(x)
        n = x.size()
        k = x.decl().kind()
        ch = x.children()
        if z3.is_bv_value(x):
            r = Form({}, self.sym(x.as_long(), n))
        elif k == z3.Z3_OP_BADD:
            r = self.comb([(self.form(y), 1) for y in ch], n)
        elif k == z3.Z3_OP_BSUB:
            r = self.comb([(self.form(y), -1 if j else 1) for j, y in enumerate(ch)], n)
        elif k == z3.Z3_OP_BNEG:
            r = self.comb([(self.form(ch[0]), -1)], n)
        elif k == z3.Z3_OP_BNOT:
            r = self.comb([(self.form(ch[0]), -1)], n, -1)
        elif k == z3.Z3_OP_BMUL and len(ch) == 2 and (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])):
            p, q = (ch[0], ch[1]) if z3.is_bv_value(ch[0]) else (ch[1], ch[0])
            r = self.comb([(self.form(q), p.as_long())], n)
        elif k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            r = self.comb([(self.form(ch[0]), 1 << ch[1].as_long())], n) if ch[1].as_long() < n else Form({}, 0)
        elif k == z3.Z3_OP_ZERO_EXT:
            r = self.comb([(self.unsigned(ch[0]), 1)], n)
        elif k == z3.Z3_OP_SIGN_EXT:
            r = self.comb([(self.signed(ch[0]), 1)], n)
        elif k == z3.Z3_OP_EXTRACT and x.decl().params()[1] == 0:
            f = self.form(ch[0])
            r = self.mk(f.t, f.c, n)
        elif k == z3.Z3_OP_CONCAT:
            pos = 0
            parts = []
            for y in reversed(ch):
                parts.append((self.unsigned(y), 1 << pos))
                pos += y.size()
            r = self.comb(parts, n)
        else:
            r = self.mk({self.atom(x): 1}, 0, n)
        self.memo[i] = r
        return r

    def slice(self, x):
        """(variable, byte index) when x depends on one byte of one variable only"""
        st, seen, out = [x], set(), None
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if len(seen) > 400:
                return None
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if not z3.is_bv(e) or e.size() > 8:
                    return None
                s = (e, 0)
            elif e.decl().kind() == z3.Z3_OP_EXTRACT and z3.is_const(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                hi, lo = e.decl().params()
                if hi // 8 != lo // 8:
                    return None
                s = (e.arg(0), lo // 8)
            elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return None
            else:
                st.extend(e.children())
                continue
            if out is not None and (out[0].get_id(), out[1]) != (s[0].get_id(), s[1]):
                return None
            out = s
        return out

    def table(self, x, signed, var, byte):
        X = z3.BitVec('slice8', 8)
        w = var.size()
        if w <= 8:
            sub = X if w == 8 else z3.Extract(w - 1, 0, X)
        else:
            parts = []
            if w - 8 * byte - 8 > 0:
                parts.append(z3.BitVecVal(0, w - 8 * byte - 8))
            parts.append(X)
            if byte:
                parts.append(z3.BitVecVal(0, 8 * byte))
            sub = z3.Concat(*parts) if len(parts) > 1 else X
        c = z3.simplify(z3.substitute(x, (var, sub)))
        k = (c.get_id(), signed)
        t = self.tabs.get(k)
        if t is None:
            t = []
            n = x.size()
            for v in range(256):
                r = z3.simplify(z3.substitute(c, (X, z3.BitVecVal(v, 8))))
                if not z3.is_bv_value(r):
                    raise Unsup('table')
                r = r.as_long()
                t.append(sgn(r, n) if signed else r)
            self.tabs[k] = t
            self.keep.append(c)
        return t

    def zero(self, f, n):
        if not f.t:
            return f.c & M(n) == 0
        groups = {}
        for k, co in f.t.items():
            x, signed, _ = self.atoms[k]
            s = self.slice(x)
            if s is None:
                return False
            g = groups.setdefault((s[0].get_id(), s[1]), [s, []])
            g[1].append((x, signed, co))
        c = f.c
        for s, l in groups.values():
            acc = [0] * 256
            for x, signed, co in l:
                for v, y in enumerate(self.table(x, signed, *s)):
                    acc[v] += co * y
            acc = {v & M(n) for v in acc}
            if len(acc) != 1:
                return False
            c += acc.pop()
        return c & M(n) == 0


def lin_equal(a, b, n):
    try:
        N = Norm()
        fa, fb = N.form(bv(a, n)), N.form(bv(b, n))
        return N.zero(N.comb([(fa, 1), (fb, -1)], n), n)
    except (Unsup, RecursionError):
        return False


def leaves(e, op, n):
    """multiset of the leaves of a tree of float `op` applications; identity elements are dropped"""
    ident = {'add': (0, 1 << (n - 1)), 'mul': (f2i(1.0, n),)}[op]
    nm = 'f%s%d' % (op, n)
    c = Counter()
    st = [e]
    while st:
        x = st.pop()
        if type(x) is int:
            if x not in ident:
                c[x] += 1
            continue
        if z3.is_bv_value(x):
            if x.as_long() not in ident:
                c[x.as_long()] += 1
            continue
        if x.decl().name() == nm:
            st.extend(x.children())
        else:
            c[x.get_id()] += 1
    return c


def leaves_equal(e, lanes, op, n):
    want = Counter()
    ident = {'add': (0, 1 << (n - 1)), 'mul': (f2i(1.0, n),)}[op]
    for l in lanes:
        if type(l) is int:
            if l not in ident:
                want[l] += 1
        else:
            want[l.get_id()] += 1
    return leaves(e, op, n) == want
