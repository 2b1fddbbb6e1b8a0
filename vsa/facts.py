"""What is known on a path: a conjunction of literals with linear bounds."""
from .terms import *


class Facts(object):
    __slots__ = ('ub', 'lits', '_memo')

    def __init__(self, ub=None, lits=frozenset()):
        self.ub = ub or {}        # key (T, constant-free linear term) -> upper bound
        self.lits = lits
        self._memo = {}

    # -- bounds
    def bound(self, t):
        """(lo, hi) of an atomic term"""
        lo, hi = intrinsic(t)
        u = self.ub.get(t)
        if u is not None and (hi is None or u < hi):
            hi = u
        u = self.ub.get(mklin(0, {t: -1}))
        if u is not None and (lo is None or -u > lo):
            lo = -u
        if t.op == 'mul':
            l2 = 1
            h2 = 1
            for x in t.a[0]:
                l, h = self.bound(x)
                if l is None or l < 0:
                    l2 = None
                    break
                l2 *= l
                h2 = None if (h2 is None or h is None) else h2 * h
            if l2 is not None:
                lo = l2 if lo is None else max(lo, l2)
                if h2 is not None:
                    hi = h2 if hi is None else min(hi, h2)
        if t.op == 'fd':
            l, h = self.bound(t.a[0]) if t.a[0].op not in ('L',) else self.linbound(t.a[0])
            n = cint(t.a[1])
            if n is not None and n > 0:
                if l is not None:
                    lo = l // n if lo is None else max(lo, l // n)
                if h is not None:
                    hi = h // n if hi is None else min(hi, h // n)
            elif l is not None and l >= 0:
                l2, h2 = self.linbound(t.a[1])
                if l2 is not None and l2 > 0:
                    lo = 0 if lo is None else max(lo, 0)
        if t.op == 'bits' and t.a[2] is None:
            l, h = self.linbound(t.a[0])
            if l is not None:
                lo = l >> t.a[1] if lo is None else max(lo, l >> t.a[1])
            if h is not None:
                hi = h >> t.a[1] if hi is None else min(hi, h >> t.a[1])
        if t.op == 'len' and t.a[0].op == 'sl' and hi is None and t.a[0].a[2] is not None:
            l, h = self.linbound(sub(t.a[0].a[2], t.a[0].a[1]))
            if h is not None and h >= 0:
                hi = h
        return lo, hi

    def linbound(self, t):
        c, d = lin(t)
        lo = hi = c
        for x, k in d.items():
            l, h = self.bound(x)
            if k < 0:
                l, h = h, l
            lo = None if (lo is None or l is None) else lo + k * l
            hi = None if (hi is None or h is None) else hi + k * h
        return lo, hi

    def upper(self, c, d):
        hi = c
        for x, k in d.items():
            l, h = self.bound(x)
            b = h if k > 0 else l
            if b is None:
                return None
            hi += k * b
        return hi

    def _le(self, c, d, depth, used=()):
        u = self.upper(c, d)
        if u is not None and u <= 0:
            return True
        if not d:
            return c <= 0
        if depth == 0:
            return False
        for key, ub in self.ub.items():
            if key in used:
                continue
            kc, kd = lin(key)
            for t, k in kd.items():
                m = d.get(t)
                if m is None or m * k <= 0:
                    continue
                if abs(m) % abs(k):
                    continue
                r = m // k
                if r <= 0:
                    continue
                nd = dict(d)
                for x, kk in kd.items():
                    nd[x] = nd.get(x, 0) - r * kk
                nd = {x: v for x, v in nd.items() if v}
                # key - ub <= 0, so  L = r*(key-ub) + rest
                if self._le(c + r * ub, nd, depth - 1, used + (key,)):
                    return True
                break
        return False

    def le(self, t, depth=2):
        """entails t <= 0 ?"""
        c, d = lin(t)
        return self._le(c, d, depth)

    # -- literals
    def entails(self, l):
        if l is TRUE:
            return True
        if l is FALSE:
            return False
        r = self._memo.get(l)
        if r is None:
            r = self._entails(l)
            self._memo[l] = r
        return r

    def _entails(self, l):
        if l in self.lits:
            return True
        op = l.op
        if op == 'le':
            return self.le(l.a[0])
        if op == 'eq0':
            if self.le(l.a[0]) and self.le(neg(l.a[0])):
                return True
            c, d = lin(l.a[0])
            if len(d) == 1:
                (x, k), = d.items()
                if k == 1:
                    return self._only(x, -c)
            return False
        if op == 'eq':
            a, b = l.a
            for x, y in ((a, b), (b, a)):
                if isc(y) and self._only(x, y.a[0]):
                    return True
            return False
        if op == 'ne0':
            t = l.a[0]
            if self.le(add(t, C(1))) or self.le(sub(C(1), t)):
                return True
            c, d = lin(t)
            if len(d) == 1:
                (x, k), = d.items()
                if k == 1:
                    for q in self.lits:
                        if q.op in ('in', 'nin') and q.a[0] is x:
                            vals = _consts(q.a[1])
                            if vals is not None and (-c in vals) == (q.op == 'nin'):
                                return True
            return False
        if op == 'ne':
            a, b = l.a
            for x, y in ((a, b), (b, a)):
                if isc(y):
                    for q in self.lits:
                        if q.op in ('in', 'nin') and q.a[0] is x:
                            vals = _consts(q.a[1])
                            if vals is not None and (y.a[0] in vals) == (q.op == 'nin'):
                                return True
                        if q.op == 'eq' and x in q.a:
                            o = q.a[0] if q.a[1] is x else q.a[1]
                            if isc(o) and (type(o.a[0]) is not type(y.a[0]) or o.a[0] != y.a[0]):
                                return True
                        if y.a[0] is None and q.op == 'ty' and q.a[0] is x:
                            return True
                    if y.a[0] is None and (x.op in NONNONE):
                        return True
            return False
        if op == 'nin':
            x, coll = l.a
            vals = _consts(coll)
            if vals is not None:
                return all(self.entails(eq(x, C(v), False)) for v in vals)
            return False
        if op == 'in':
            x, coll = l.a
            vals = _consts(coll)
            if vals is not None:
                if any(self.entails(eq(x, C(v), True)) for v in vals):
                    return True
                if vals and all(isinstance(v, int) for v in vals):
                    lo, hi = self.linbound(x)
                    if lo is not None and hi is not None and hi - lo < 64:
                        return all(w in vals or self.entails(eq(x, C(w), False)) for w in range(lo, hi + 1))
                for q in self.lits:
                    if q.op == 'in' and q.a[0] is x:
                        v2 = _consts(q.a[1])
                        if v2 is not None and set(v2) <= set(vals):
                            return True
            return False
        if op == 'nty':
            x, c = l.a
            for q in self.lits:
                if q.op == 'ty' and q.a[0] is x and q.a[1] is not c:
                    return True
            return False
        if op == 't':
            return any(q.op == 'ty' and q.a[0] is l.a[0] for q in self.lits)
        return False

    def _only(self, x, v):
        """x is one of a few constants and all but v are excluded"""
        for q in self.lits:
            if q.op == 'in' and q.a[0] is x:
                vals = _consts(q.a[1])
                if vals is not None and len(vals) <= 16 and v in vals and all(w == v or self.entails(eq(x, C(w), False)) for w in vals):
                    return True
        return False

    def refutes(self, l):
        return self.entails(negl(l))

    def add(self, l):
        """facts with l assumed, or None when that is impossible"""
        if l is TRUE or l in self.lits:
            return self
        if l is FALSE:
            return None
        if self.refutes(l):
            return None
        if l.op == 'le':
            return self._addle(l.a[0])
        if l.op == 'eq0':
            t = l.a[0]
            f = self._addle(t)
            if f is not None:
                f = f._addle(neg(t))
            if f is not None:
                f = Facts(f.ub, f.lits | {l})
                # a pending x != c on the same term
                if negl(l) in f.lits:
                    return None
            return f
        f = Facts(self.ub, self.lits | {l})
        if l.op == 'ne0':
            # tighten an end point
            t = l.a[0]
            if f.le(t):
                return f._addle(add(t, C(1)))
            if f.le(neg(t)):
                return f._addle(sub(C(1), t))
        if l.op == 'in':
            vals = _consts(l.a[1])
            if vals is not None and vals and all(isinstance(v, int) for v in vals):
                f = f._addle(sub(l.a[0], C(max(vals))))
                if f is not None:
                    f = f._addle(sub(C(min(vals)), l.a[0]))
        return f

    def _addle(self, t):
        c, d = lin(t)
        if not d:
            return self if c <= 0 else None
        key = mklin(0, d)
        old = self.ub.get(key)
        if old is not None and old <= -c:
            return self
        ub = dict(self.ub)
        ub[key] = -c
        f = Facts(ub, self.lits)
        # an excluded end point tightens the bound
        if len(d) == 1:
            (x, k), = d.items()
            if k in (1, -1):
                v = -c if k == 1 else c
                q = eqnum(sub(x, C(v)), False)
                if q in f.lits:
                    return f._addle(add(t, C(1)))
        return f

    def addall(self, ls):
        f = self
        for l in ls:
            f = f.add(l)
            if f is None:
                return None
        return f

    def join(self, o):
        if self is o:
            return self
        ub = {}
        for k in set(self.ub) | set(o.ub):
            a, b = self.ub.get(k), o.ub.get(k)
            if a is None:
                a = self.upper(*lin(k))
            if b is None:
                b = o.upper(*lin(k))
            if a is not None and b is not None:
                m = max(a, b)
                hi = intrinsic(k)[1]
                if hi is None or m < hi:
                    ub[k] = m
        lits = set(self.lits & o.lits)
        for l in self.lits - o.lits:
            if l.op in ('ne0', 'ne', 'nin', 'nty') and o.entails(l):
                lits.add(l)
        for l in o.lits - self.lits:
            if l.op in ('ne0', 'ne', 'nin', 'nty') and self.entails(l):
                lits.add(l)
        return Facts(ub, frozenset(lits))

    def literals(self):
        out = []
        for k, u in self.ub.items():
            out.append(mk('le', add(k, C(-u))))
        for l in self.lits:
            out.append(l)
        return out

    def __repr__(self):
        return ' & '.join(sorted(show(l) for l in self.literals()))


def _consts(t):
    if t.op == 'c' and isinstance(t.a[0], (tuple, frozenset)):
        return t.a[0]
    if t.op == 'c' and isinstance(t.a[0], bytes):
        return tuple(t.a[0])
    if t.op in ('list', 'tuple', 'set'):
        if all(isc(x) for x in t.a[0]):
            return tuple(x.a[0] for x in t.a[0])
    if t.op == 'dict':
        if all(isc(k) for k, v in t.a[0]):
            return tuple(k.a[0] for k, v in t.a[0])
    return None


EMPTY = Facts()
