"""Refutation of equality between two summaries.

Two normal forms that differ may still denote the same function of the inputs.  A
difference is reported only if the formulas of the two summaries are told apart by an
assignment of values to the atoms (parameters, attributes, bytes of buffers, results
of other functions); formulas are evaluated, no program is.
"""
import random
import re
import struct
from .terms import *


class Unknown(Exception):
    pass


class Fault(Unknown):
    """the term has no value: it reads past the end of a buffer"""


VOCAB = None       # operations the reference summaries are written in; others have no agreed meaning


def word(t):
    return t.op + ':' + t.a[0] if t.op in ('m', 'ext', 'op') and isinstance(t.a[0], str) else t.op


COUNTS = re.compile('cluster|number|lba|index|lsn|page|count|reference|sector|_size$|Value')


def counts(s):
    """a parameter or attribute that by its name holds an on-disk number, which is never negative"""
    return s[0] in ('p', 'at') and isinstance(s[-1], str) and COUNTS.search(s[-1]) is not None


class Sym(object):
    """a value of which only the identity is known"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Sym) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return '<%08x>' % (hash(self.k) & 0xffffffff)


class Root(object):
    def __init__(self, seed, length, zero):
        self.seed, self.len, self.zero = seed, length, zero
        self.patch = {}

    def byte(self, a):
        r = self.patch.get(a)
        if r is None:
            h = hash((self.seed, a, 17))
            r = 0 if (h >> 9) % 100 < self.zero else 0xff if (h >> 17) % 5 == 0 else (h >> 20) & 0xff
        return r


class BV(object):
    """a piece of a buffer"""
    __slots__ = ('r', 's', 'n')

    def __init__(self, r, s, n):
        self.r, self.s, self.n = r, s, n

    def raw(self, limit=4096):
        if self.n > limit:
            raise Unknown()
        return bytes(self.r.byte(self.s + i) for i in range(self.n))

    def key(self):
        if self.n <= 256:
            return ('B', self.raw())
        return ('BV', self.r.seed, self.s, self.n, hash(BV(self.r, self.s, 64).raw()))


class PhiV(object):
    def __init__(self, xs):
        self.xs = xs


def key(v):
    """hashable identity of a value"""
    if isinstance(v, BV):
        return v.key()
    if isinstance(v, (bytes, bytearray)):
        return ('B', bytes(v))
    if isinstance(v, Sym):
        return v.k
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, int):
        return ('i', v)
    if isinstance(v, (tuple, list)):
        return tuple(key(x) for x in v)
    if isinstance(v, dict):
        return ('d',) + tuple((key(a), key(b)) for a, b in v.items())
    if isinstance(v, (set, frozenset)):
        return ('set', frozenset(key(x) for x in v))
    if isinstance(v, PhiV):
        return ('phi',) + tuple(key(x) for x in v.xs)
    return (type(v).__name__, v)


def same(a, b):
    """True, False"""
    if isinstance(a, PhiV):
        return any(same(x, b) for x in a.xs)
    if isinstance(b, PhiV):
        return any(same(a, x) for x in b.xs)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return key(a) == key(b)


NUMCTX = {'mul', 'bits', 'fd', 'mod', 'and', 'or', 'xor', 'shl', 'shr', 'le', 'eq0', 'ne0'}
LEAF = {'p', 'cp', 'at', 'call', 'm', 'ext', 'g', 'LV', 'el', 'idx', 'x', 'acc', 'dyn', 'opened', 'mut', 'app', 'file', 'lv', 'rg'}


def sig(t):
    o = t.op
    if o in ('p', 'g', 'x', 'lv'):
        return (o,) + tuple(a for a in t.a if isinstance(a, str))
    if o in ('cp', 'at'):
        return ('at', t.a[1])
    if o in ('call', 'm', 'ext'):
        return (o, t.a[0])
    if o == 'hv':
        return ('at', t.a[0])
    if o == 'LV':
        return (o, t.a[0])
    if o in ('el', 'idx', 'file'):
        return (o, sig(t.a[0]) if isinstance(t.a[0], T) else '')
    return (o,)


STRM = {'decode', 'format', 'lower', 'upper', 'strftime', 'zfill'}


class Types(object):
    """how the atoms are used, over both summaries"""

    def __init__(self, terms, defs=None, lvdefs=None):
        self.defs = defs or {}
        self.lvdefs = lvdefs or {}
        self.loose = set()
        self.matched = False
        self.lopsided = set()
        self.flags = {}
        self.consts = {}
        self.lens = {}
        self.ints = {0, 1, 2}
        seen = set()
        for t in terms:
            subterms(t, seen)
        for t in seen:
            o = t.op
            if o == 'L':
                for x, _k in t.a[1]:
                    self.flag(x, 'num')
            if o in ('le', 'eq0', 'ne0'):
                c, d = lin(t.a[0])
                if abs(c) < 1 << 64:
                    self.ints.add(abs(c))
                    self.ints.add(abs(c) + 1)
                    self.ints.add(max(0, abs(c) - 1))
                if len(d) == 1:
                    (x, k), = d.items()
                    if x.op == 'len':
                        for e in (-1, 0, 1):
                            self.lens.setdefault(sig(x.a[0]), set()).add(max(0, -c * k + e))
                    else:
                        for e in (-1, 0, 1):
                            self.consts.setdefault(sig(x), set()).add(-c * k + e)
            if o == 'bits':
                for e in (t.a[1], t.a[1] + (t.a[2] or 0)):
                    if e < 80:
                        self.ints |= {1 << e, (1 << e) - 1, (1 << e) + 3}
            if o == 'and':
                for x in t.a:
                    if isc(x) and isinstance(x.a[0], int) and 0 < x.a[0] < 1 << 80:
                        self.ints |= {x.a[0], x.a[0] + 1, 2 * x.a[0] + 1}
            if o in ('shl', 'shr') and not isc(t.a[1]):
                d = lin(t.a[1])[1]
                if len(d) == 1 and abs(next(iter(d.values()))) == 1:
                    self.flag(next(iter(d)), 'shift')
            if o in ('fd', 'mod') and not isc(t.a[1]):
                self.flag(t.a[1], 'div')
            if o in NUMCTX:
                for x in t.a:
                    if isinstance(x, T):
                        self.flag(x, 'num')
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, T):
                                self.flag(y, 'num')
            if o == 'f':
                self.flag(t.a[0], 'bytes')
                self.flag(t.a[1], 'num')
            if o == 'sl':
                self.flag(t.a[0], 'bytes')
                for x in t.a[1:]:
                    if isinstance(x, T):
                        self.flag(x, 'num')
            if o == 'len':
                self.flag(t.a[0], 'seq')
            if o == 'cat':
                for x in t.a[0]:
                    self.flag(x, 'bytes')
            if o == 'm' and t.a[0] in ('decode', 'rstrip', 'find', 'startswith', 'endswith') and isinstance(t.a[1], T):
                self.flag(t.a[1], 'bytes' if t.a[0] == 'decode' else 'bs')
            if o in ('eq', 'ne'):
                for x, y in (t.a, t.a[::-1]):
                    if isc(y):
                        if y.a[0] is None:
                            self.flag(x, 'none')
                        elif isinstance(y.a[0], bool):
                            self.flag(x, 'bool')
                        else:
                            self.consts.setdefault(sig(x), set()).add(y.a[0])
                            self.flag(x, 'const')
            if o in ('in', 'nin') and isinstance(t.a[1], T):
                c = t.a[1]
                vs = ()
                if c.op in ('list', 'tuple', 'set'):
                    vs = [x.a[0] for x in c.a[0] if isc(x)]
                elif isc(c) and isinstance(c.a[0], (tuple, frozenset, list)):
                    vs = [x.a[0] if isinstance(x, T) else x for x in c.a[0]]
                elif c.op == 'dict':
                    vs = [k.a[0] for k, _v in c.a[0] if isinstance(k, T) and isc(k)]
                for v in vs:
                    if isinstance(v, (int, str, bytes)):
                        self.consts.setdefault(sig(t.a[0]), set()).add(v)
                        self.flag(t.a[0], 'const')
            if o in ('in', 'nin') and isinstance(t.a[1], tuple):
                for x in t.a[1]:
                    if isinstance(x, T) and isc(x):
                        self.consts.setdefault(sig(t.a[0]), set()).add(x.a[0])
                        self.flag(t.a[0], 'const')

    def flag(self, x, f):
        self.flags.setdefault(sig(x), set()).add(f)


class Valuation(object):
    def __init__(self, types, seed):
        self.ty = types
        self.seed = seed
        self.over = {}
        self.roots = {}
        self.memo = {}
        self.rmemo = {}

    # ------------------------------------------------ atoms

    def rng(self, k):
        return random.Random(hash((self.seed, k)))

    def atom(self, k, s):
        """value of an uninterpreted term with identity k, used as s says"""
        if k in self.over:
            return self.over[k]
        r = self.rmemo.get(k)
        if r is None:
            r = self.rmemo[k] = (self.fresh(k, s),)
        return r[0]

    def fresh(self, k, s):
        g = self.rng(k)
        fl = self.ty.flags.get(s, ())
        cs = self.ty.consts.get(s)
        if 'none' in fl and g.random() < 0.3:
            return None
        if cs and g.random() < 0.6:
            v = g.choice(sorted(cs, key=repr))
            if not ('bytes' in fl and isinstance(v, int)) and not ((s[0] in ('call', 'LV', 'm') or counts(s)) and isinstance(v, int) and v < 0):
                return v
        if 'bytes' in fl or s[0] == 'file':
            return self.root(k, s, g)
        if 'num' in fl and 'seq' not in fl and 'bs' not in fl:
            x = g.random()
            if 'shift' in fl and x < 0.8:
                return g.randrange(3, 60)
            if 'div' in fl and x < 0.6:
                return g.choice([1, 8, 16, 512, 1024, 4096])
            if x < 0.35:
                return g.choice(sorted(self.ty.ints))
            if x < 0.8:
                return g.randrange(0, 4096)
            return g.randrange(0, 1 << 34)
        if 'bool' in fl:
            return g.random() < 0.5
        if 'bs' in fl and 'num' not in fl:
            return self.root(k, s, g)
        return Sym(k)

    def root(self, k, s, g=None):
        r = self.roots.get(k)
        if r is None:
            g = g or self.rng(k)
            ls = sorted(self.ty.lens.get(s, ()))
            if self.roomy:
                n = 1 << 62
            elif s[0] == 'file':
                n = 1 << 62 if g.random() < 0.8 or not ls else g.choice(ls)
            elif ls and g.random() < 0.6:
                n = g.choice(ls)
            else:
                n = g.choice([16, 64, 512, 1024, 4096, 65536, 1 << 20])
            r = self.roots[k] = Root((self.seed, k), n, g.choice([0, 50, 90]))
        return BV(r, 0, r.len)

    # ------------------------------------------------ terms

    def ev(self, t):
        if t.op == 'c':
            return t.a[0]
        if t in self.memo:
            r = self.memo[t]
            if r is Unknown or r is Fault:
                raise r()
            return r
        try:
            r = self.ev1(t)
        except Fault:
            self.memo[t] = Fault
            raise Fault()
        except (Unknown, RecursionError):
            self.memo[t] = Unknown
            raise Unknown()
        except (TypeError, ValueError, ZeroDivisionError, OverflowError, IndexError, KeyError, struct.error, AttributeError, UnicodeError, MemoryError, LookupError):
            self.memo[t] = Unknown
            raise Unknown()
        self.memo[t] = r
        return r

    def evs(self, x):
        if isinstance(x, T):
            return self.ev(x)
        if isinstance(x, tuple):
            return tuple(self.evs(y) for y in x)
        return x

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            if isinstance(v, int) and v.bit_length() > 70000:
                raise Unknown()
            return v
        if v is None:
            raise Fault()
        raise Unknown()

    def seq(self, v):
        if isinstance(v, bytes):
            r = Root(('const', v), len(v), 0)
            r.patch = dict(enumerate(v))
            return BV(r, 0, len(v))
        return v

    def ev1(self, t):
        o, a = t.op, t.a
        if o == 'L':
            r = a[0]
            for x, k in a[1]:
                v = self.ev(x)
                if not isinstance(v, (int, float)) and r == 0 and all(k2 == 1 for _x, k2 in a[1]):
                    vs = [self.ev(y) for y, _k in a[1]]
                    if any(isinstance(y, (int, float)) or y is None for y in vs):
                        raise Unknown()
                    return Sym(('plus', frozenset(key(y) for y in vs)))
                r = r + self.num(x) * k
            return r
        if o == 'mul':
            r = 1
            for x in a[0]:
                r = r * self.num(x)
            return r
        if o == 'bits':
            v = self.num(a[0])
            v = v >> a[1]
            return v if a[2] is None else v & ((1 << a[2]) - 1)
        if o == 'fd':
            return self.num(a[0]) // self.num(a[1])
        if o == 'mod':
            return self.num(a[0]) % self.num(a[1])
        if o == 'and':
            x, y = self.ev(a[0]), self.ev(a[1])
            return x & y
        if o == 'or':
            r = 0
            for x in a[0]:
                r |= self.num(x)
            return r
        if o == 'xor':
            return self.num(a[0]) ^ self.num(a[1])
        if o == 'shl':
            n = self.num(a[1])
            if n > 2048:
                raise Unknown()
            return self.num(a[0]) << n
        if o == 'shr':
            return self.num(a[0]) >> self.num(a[1])
        if o == 'f':
            b = self.seq(self.ev(a[0]))
            off = self.num(a[1])
            w = self.num(a[2])
            if isinstance(b, tuple) and w == 1:
                return b[off]
            if not isinstance(b, BV) or w > 8192:
                raise Unknown()
            if isinstance(off, float):
                raise Unknown()
            if off < 0:
                off += b.n
            if off < 0 or off + w > b.n:
                raise Fault()
            raw = bytes(b.r.byte(b.s + off + i) for i in range(w))
            return int.from_bytes(raw, 'big' if a[4] == '>' else 'little', signed=bool(a[3]))
        if o == 'sl':
            b = self.ev(a[0])
            lo = self.num(a[1])
            hi = self.num(a[2]) if a[2] is not None else None
            if isinstance(b, BV):
                s, e, _ = slice(lo, hi).indices(b.n) if b.n < 1 << 62 else (self.clamp(lo, b.n), self.clamp(hi, b.n), 1)
                return BV(b.r, b.s + s, max(0, e - s))
            if isinstance(b, (bytes, str, tuple)):
                return b[lo:hi]
            raise Unknown()
        if o == 'len':
            b = self.ev(a[0])
            if isinstance(b, BV):
                return b.n
            if isinstance(b, (bytes, str, tuple, dict)):
                return len(b)
            if isinstance(b, Sym):
                return self.atom(('len', b.k), ('len',)) if ('len', b.k) in self.over else self.rng(('len', b.k)).choice([0, 1, 2, 3, 7])
            raise Unknown()
        if o == 'cat':
            xs = [self.ev(x) for x in a[0]]
            if all(isinstance(x, tuple) for x in xs):
                return sum(xs, ())
            if all(isinstance(x, str) for x in xs):
                return ''.join(xs)
            if all(isinstance(x, (bytes, BV)) for x in xs):
                if sum(x.n if isinstance(x, BV) else len(x) for x in xs) <= 4096:
                    return b''.join(x.raw() if isinstance(x, BV) else x for x in xs)
                big = [x for x in xs if (x.n if isinstance(x, BV) else len(x)) > 0]
                if len(big) == 1:
                    return big[0]
            return Sym(('cat',) + tuple(key(x) for x in xs))
        if o == 'rep':
            x, n = self.ev(a[0]), self.num(a[1])
            if n > 4096:
                return Sym(('rep', key(x), n))
            return x * max(0, n)
        if o == 'b':
            v = self.lit(a[0])
            if v is None:
                raise Unknown()
            return v
        if o == 'ite':
            v = self.lit(a[0])
            if v is None:
                raise Unknown()
            return self.ev(a[1] if v else a[2])
        if o == 'phi':
            out = []
            for x in a[0]:
                out.append(self.ev(x))
            return PhiV(out)
        if o in ('tuple', 'list'):
            return tuple(self.ev(x) for x in a[0])
        if o == 'set':
            xs = [self.ev(x) for x in a[0]]
            return frozenset(key(x) if isinstance(x, (BV, tuple)) else x for x in xs)
        if o == 'dict':
            return {key(self.ev(k)): self.ev(v) for k, v in a[0]}
        if o == 'fmt':
            return ''.join(self.ev(x) if x.op != 'hole' else self.hole(x) for x in a[0])
        if o == 'hole':
            return self.hole(t)
        if o == 'file':
            return self.atom(('file', key(self.ev(a[0]))), sig(t))
        if o == 'idx':
            return self.idx(self.ev(a[0]), self.ev(a[1]), t)
        if o == 'el':
            b = self.ev(a[0])
            if isinstance(b, bytes):
                b = tuple(b)
            if isinstance(b, (frozenset, set)):
                b = tuple(sorted(b, key=repr))
            if isinstance(b, dict):
                return self.unkey(self.pick(('el', key(b)), list(b)))
            if isinstance(b, tuple):
                if not b:
                    raise Unknown()
                return self.pick(('el', key(b)), b)
            if isinstance(b, BV):
                if not b.n:
                    raise Unknown()
                return b.r.byte(b.s + self.rng(('el', b.r.seed)).randrange(min(b.n, 64)))
            return self.atom(('el', key(b)), sig(t))
        if o == 'ext':
            return self.ext(t)
        if o == 'm':
            return self.meth(t)
        if o == 'at' and t in self.ty.defs:
            for ls, v in self.ty.defs[t]:
                if all(self.lit(l) is True for l in ls):
                    return self.ev(v)
        if o == 'at':
            b = self.ev(a[0])
            if isinstance(b, Sym) and isinstance(b.k, tuple) and b.k[:2] == ('ext', 'ctypes.c_int8') and a[1] == 'value':
                x = b.k[2][0][1] & 0xff
                return x - 256 if x > 127 else x
            if isinstance(b, Sym) and isinstance(b.k, tuple) and b.k[0] == 'ntup':
                for n, v in self.ntups[b.k]:
                    if n == a[1]:
                        return v
            return self.atom(('at', key(b), a[1]), sig(t))
        if o == 'cp':
            return self.atom(('at', key(self.ev(a[0])), a[1]), sig(t))
        if o == 'ntup':
            fs = tuple((n, self.ev(v)) for n, v in a[1])
            s = Sym(('ntup', a[0]) + tuple((n, key(v)) for n, v in fs))
            self.ntups[s.k] = fs
            return s
        if o == 'LV' and a[0] in self.ty.loose:
            raise Unknown()
        if o in ('p', 'g', 'x', 'LV', 'lv', 'acc'):
            k = (o,) + tuple(x for x in a if not isinstance(x, T))
            return self.atom(k, sig(t))
        if o in ('self', 'cls', 'fn', 'module', 'bi', 'ntcls', 'lambda'):
            return Sym((o,) + tuple(repr(x) for x in a))
        if o == 'top' or o == 'undef':
            raise Unknown()
        if o == 'lam':
            return Sym(('lam', key(self.ev(a[0]))))
        if o in ('sorted', 'reversed'):
            b = self.ev(a[0])
            if isinstance(b, tuple) and len(b) < 2:
                return b
            return self.atom((o, key(b)) + tuple(key(self.ev(x)) for x in a[1:]), sig(t))
        if o in ('app',):
            l, x = self.ev(a[0]), self.ev(a[1])
            if isinstance(l, tuple):
                return l + (x,)
            return Sym(('app', key(l), key(x)))
        if o == 'raised':
            raise Unknown()
        if o in ('le', 'eq0', 'ne0', 'eq', 'ne', 'in', 'nin', 't', 'nt', 'ty', 'nty', 'isinst', 'ninst', 'true', 'false'):
            v = self.lit(t)
            if v is None:
                raise Unknown()
            return v
        if VOCAB is not None and word(t) not in VOCAB:
            raise Unknown()
        # structural
        parts = tuple(self.evs(x) for x in a)
        if o in ('st', 'st2', 'sti', 'sts', 'step', 'emit', 'new', 'rd'):
            return (o,) + parts
        return self.atom((o,) + tuple(key(x) for x in parts), sig(t))

    ntups = {}
    roomy = False

    def clamp(self, i, n):
        if i is None:
            return n
        if i < 0:
            i += n
        return max(0, min(i, n))

    def unkey(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] in ('i', 'b', 'str', 'B', 'NoneType', 'float'):
            return k[1]
        return Sym(k)

    def pick(self, k, xs):
        i = self.over.get(('pick', k))
        if i is None:
            i = self.rng(('pick', k)).randrange(len(xs))
        return xs[i % len(xs)]

    def hole(self, x):
        v = self.ev(x.a[0])
        sp = x.a[1]
        if isinstance(v, PhiV):
            v = v.xs[0]
        if isinstance(v, BV) and v.n == 0 and sp == '':
            return ''
        if isinstance(v, (int, str, float)) or v is None:
            if isinstance(sp, str) and not (isinstance(v, bool) and sp):
                try:
                    return format(v, sp)
                except (ValueError, TypeError):
                    raise Unknown()
        return '{%x}' % (hash((key(v), repr(sp))) & 0xffffffffffff)

    def idx(self, b, i, t):
        if isinstance(b, dict):
            k = key(i)
            if k in b:
                return b[k]
            raise Fault()
        if isinstance(b, (tuple, str, bytes)) and isinstance(i, int):
            if not -len(b) <= i < len(b):
                return Sym(('error', 'IndexError', len(b), i))
            return b[i]
        if isinstance(b, BV) and isinstance(i, int):
            if i < 0:
                i += b.n
            if not 0 <= i < b.n:
                raise Unknown()
            return b.r.byte(b.s + i)
        return self.atom(('idx', key(b), key(i)), sig(t))

    def ext(self, t):
        name, args, kws = t.a[0], t.a[1], t.a[2] if len(t.a) > 2 else ()
        vs = [self.evs(x) for x in args]
        kw = {k: self.evs(v) for k, v in kws} if kws else {}
        if not kw:
            if name == 'abs' and isinstance(vs[0], int):
                return abs(vs[0])
            if name == 'int' and len(vs) == 1 and isinstance(vs[0], (int, float)):
                return int(vs[0])
            if name == 'bool' and len(vs) == 1:
                return self.truth(vs[0])
            if name == 'hex' and isinstance(vs[0], int):
                return hex(vs[0])
            if name in ('str',) and len(vs) == 1 and isinstance(vs[0], (str, int)):
                return str(vs[0])
            if name in ('min', 'max') and vs and all(isinstance(x, int) for x in vs) and len(vs) > 1:
                return min(vs) if name == 'min' else max(vs)
            if name in ('min', 'max') and len(vs) == 1 and isinstance(vs[0], tuple) and vs[0] and all(isinstance(x, int) for x in vs[0]):
                return min(vs[0]) if name == 'min' else max(vs[0])
            if name in ('set', 'frozenset'):
                if not vs:
                    return frozenset()
                if isinstance(vs[0], (tuple, frozenset)):
                    return frozenset(key(x) if isinstance(x, (BV, tuple)) else x for x in vs[0])
            if name in ('tuple', 'list', 'sorted') and len(vs) == 1:
                v = vs[0]
                if isinstance(v, dict):
                    v = tuple(self.unkey(k) for k in v)
                if isinstance(v, tuple):
                    return tuple(sorted(v)) if name == 'sorted' else v
            if name in ('bytes', 'bytearray') and len(vs) == 1 and isinstance(vs[0], (bytes, BV)):
                return vs[0]
            if name == 'chr' and isinstance(vs[0], int):
                return chr(vs[0])
            if name == 'sum' and len(vs) == 1 and isinstance(vs[0], tuple):
                return sum(vs[0])
        if VOCAB is not None and 'ext:' + name not in VOCAB:
            raise Unknown()
        k = ('ext', name, tuple(key(x) for x in vs), tuple((a, key(b)) for a, b in sorted(kw.items())))
        if name == 'ctypes.c_int8':
            return Sym(k)
        return self.atom(k, sig(t))

    def meth(self, t):
        name = t.a[0]
        ob = self.ev(t.a[1])
        args = self.evs(t.a[2]) if len(t.a) > 2 else ()
        kws = t.a[3] if len(t.a) > 3 else ()
        kw = {k: self.evs(v) for k, v in kws} if kws else {}
        o = ob
        if name in ('rstrip', 'lstrip', 'strip', 'decode', 'lower', 'upper', 'startswith', 'endswith', 'find', 'split', 'replace', 'join', 'zfill', 'encode', 'format', 'ljust', 'rjust', 'count', 'index', 'hex'):
            if isinstance(o, BV) and o.n <= 4096:
                o = o.raw()
            ar = [x.raw() if isinstance(x, BV) and x.n <= 4096 else x for x in args]
            if isinstance(o, (bytes, str)) and not any(isinstance(x, (Sym, BV, PhiV)) for x in ar) and not any(isinstance(x, (Sym, BV)) for x in kw.values()):
                if not (name == 'join' and any(not isinstance(x, (bytes, str)) for x in (ar[0] if ar else ()))):
                    r = getattr(o, name)(*ar, **kw)
                    return tuple(r) if isinstance(r, list) else r
        if isinstance(o, dict):
            if name == 'keys':
                return tuple(self.unkey(k) for k in o)
            if name == 'values':
                return tuple(o.values())
            if name == 'items':
                return tuple((self.unkey(k), v) for k, v in o.items())
            if name == 'get':
                k = key(args[0])
                return o[k] if k in o else (args[1] if len(args) > 1 else None)
        if VOCAB is not None and 'm:' + name not in VOCAB or name in self.ty.lopsided:
            raise Unknown()
        k = ('m', name, key(ob), tuple(key(x) for x in args), tuple((a, key(b)) for a, b in sorted(kw.items())))
        return self.atom(k, sig(t))

    # ------------------------------------------------ literals

    def truth(self, v):
        if isinstance(v, Sym):
            k = ('t', v.k)
            if k in self.over:
                return self.over[k]
            if isinstance(v.k, tuple) and v.k and v.k[0] in ('self', 'cls', 'fn', 'module', 'ntup', 'cat'):
                return True
            return self.rng(k).random() < 0.7
        if isinstance(v, BV):
            return v.n > 0
        if isinstance(v, PhiV):
            raise Unknown()
        return bool(v)

    def flag(self, k, p=0.5):
        if k in self.over:
            return self.over[k]
        return self.rng(k).random() < p

    def lit(self, l):
        """True, False, or None when it cannot be evaluated"""
        m = self.memo.get(l)
        if m is not None:
            return None if m is Unknown or m is Fault else m
        try:
            r = self.lit1(l)
        except Fault:
            self.memo[l] = Fault
            return None
        except (Unknown, RecursionError):
            r = None
        except (TypeError, ValueError, ZeroDivisionError, OverflowError, IndexError, KeyError, AttributeError, UnicodeError, MemoryError):
            r = None
        self.memo[l] = Unknown if r is None else r
        return r

    def pkey(self, x):
        """identity of an exceptional event"""
        return ('raised',) + tuple(key(self.evs(y)) if isinstance(y, (T, tuple)) else y for y in x.a)

    def lit1(self, l):
        o, a = l.op, l.a
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'le':
            return self.num(a[0]) <= 0
        if o in ('eq0', 'ne0'):
            return (self.num(a[0]) == 0) == (o == 'eq0')
        if o in ('eq', 'ne'):
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, PhiV) or isinstance(y, PhiV):
                return None
            if isinstance(x, Sym) or isinstance(y, Sym):
                if isinstance(x, Sym) and isinstance(y, Sym) and x.k == y.k:
                    r = True
                elif x is None or y is None:
                    r = False
                else:
                    kx, ky = sorted((repr(key(x)), repr(key(y))))
                    r = self.flag(('eq', kx, ky), 0.2)
            else:
                if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
                    r = x == y
                else:
                    r = same(x, y)
            return r == (o == 'eq')
        if o in ('t', 'nt'):
            if a[0].op in ('raised', 'caught'):
                r = self.over.get(self.pkey(a[0]) if a[0].op == 'raised' else ('caught',) + tuple(repr(y) for y in a[0].a), False)
            else:
                v = self.ev(a[0])
                if isinstance(v, Sym) and ('t', v.k) not in self.over and 'seq' in self.ty.flags.get(sig(a[0]), ()):
                    r = self.ev(mk('len', a[0])) > 0
                else:
                    r = self.truth(v)
            return r == (o == 't')
        if o in ('in', 'nin'):
            x = self.ev(a[0])
            c = self.evs(a[1])
            if isinstance(c, BV) and c.n <= 4096:
                c = c.raw()
            if isinstance(x, BV) and x.n <= 4096:
                x = x.raw()
            if isinstance(x, PhiV):
                return None
            if isinstance(c, dict):
                r = key(x) in c
            elif isinstance(c, (bytes, str)) and isinstance(x, (int, bytes, str)):
                r = x in c
            elif isinstance(c, (tuple, frozenset)):
                kx = key(x)
                r = any(key(y) == kx for y in c) if isinstance(c, tuple) else (x in c or kx in c)
            else:
                r = self.flag(('in', key(x), key(c)), 0.3)
            return r == (o == 'in')
        if o in ('ty', 'nty', 'isinst', 'ninst'):
            x = self.ev(a[0])
            c = tuple(repr(y) for y in a[1:])
            if isinstance(x, Sym) or isinstance(x, BV):
                r = self.flag(('ty', key(x), c), 0.5)
            else:
                return None
            return r == (o in ('ty', 'isinst'))
        return None

    # ------------------------------------------------ forcing

    def touch(self):
        self.memo = {}

    def setint(self, t, v, depth=0):
        """make an integer term take a value; False if it cannot be done here"""
        o, a = t.op, t.a
        if depth > 6:
            return False
        if o == 'L':
            xs = list(a[1])
            g = random.Random(hash((self.seed, v, len(self.over), depth)))
            g.shuffle(xs)
            for x, k in xs:
                try:
                    cur = self.num(t)
                    mine = self.num(x)
                except Unknown:
                    try:
                        self.num(x)
                    except Unknown:
                        if self.setint(x, g.choice([0, 1, 2, 512, 1024]), depth + 1):
                            return True
                    continue
                d = v - cur
                if isinstance(d, float) or d % k:
                    continue
                if self.setint(x, mine + d // k, depth + 1):
                    # the others may depend on what was set: approach it
                    for _ in range(12):
                        try:
                            cur, mine = self.num(t), self.num(x)
                        except Unknown:
                            break
                        d = v - cur
                        if not d or d % k or not self.setint(x, mine + d // k, depth + 1):
                            break
                    return True
            return False
        if o == 'bits':
            try:
                cur = self.num(a[0])
            except Unknown:
                return False
            if a[2] is None:
                if v < 0:
                    return False
                return self.setint(a[0], (v << a[1]) | (cur & ((1 << a[1]) - 1)), depth + 1)
            m = ((1 << a[2]) - 1) << a[1]
            if v < 0 or v >> a[2]:
                return False
            return self.setint(a[0], (cur & ~m) | (v << a[1]), depth + 1)
        if o == 'f':
            try:
                b = self.ev(a[0])
                off, w = self.num(a[1]), self.num(a[2])
            except Unknown:
                return False
            if not isinstance(b, BV) or not isinstance(off, int) or off < 0 or w > 64 or b.r.seed[0] == 'const':
                return False
            if off + w > b.n:
                return False
            try:
                raw = v.to_bytes(w, 'big' if a[4] == '>' else 'little', signed=bool(a[3]))
            except OverflowError:
                return False
            for i, x in enumerate(raw):
                b.r.patch[b.s + off + i] = x
            self.touch()
            return True
        if o == 'len':
            try:
                b = self.ev(a[0])
            except Unknown:
                return False
            if v < 0:
                return False
            if isinstance(b, BV):
                if b.r.seed[0] == 'const':
                    return False
                b.r.len = b.s + v
                self.touch()
                return True
            if isinstance(b, Sym):
                self.over[('len', b.k)] = v
                self.touch()
                return True
            return False
        if o == 'mul':
            fs = list(a[0])
            for x in fs:
                try:
                    r = 1
                    for y in fs:
                        if y is not x:
                            r *= self.num(y)
                except Unknown:
                    continue
                if r and v % r == 0 and self.setint(x, v // r, depth + 1):
                    return True
            return False
        if o == 'fd':
            try:
                return self.setint(a[0], v * self.num(a[1]), depth + 1)
            except Unknown:
                return False
        if o in ('shr', 'shl', 'mod'):
            try:
                cur, k = self.num(a[0]), self.num(a[1])
            except Unknown:
                return False
            if not isinstance(cur, int) or not isinstance(k, int) or v < 0 or k < 0 or o != 'mod' and k > 128:
                return False
            if o == 'shr':
                return self.setint(a[0], (v << k) | (cur & ((1 << k) - 1)), depth + 1)
            if o == 'shl':
                return v % (1 << k) == 0 and self.setint(a[0], v >> k, depth + 1)
            return v < k and self.setint(a[0], cur - cur % k + v, depth + 1)
        if o == 'or' and len(a) == 1 and isinstance(a[0], tuple):
            for x in a[0]:
                try:
                    r = 0
                    for y in a[0]:
                        if y is not x:
                            r |= self.num(y)
                except (Unknown, TypeError):
                    continue
                if v >= 0 and r >= 0 and r & v == r and self.setint(x, v & ~r, depth + 1):
                    return True
            return False
        if o == 'ite':
            g = self.lit(a[0])
            if g is None:
                return False
            return self.setint(a[1] if g else a[2], v, depth + 1)
        if o in ('ext',) and t.a[0] == 'abs':
            return self.setint(t.a[1][0], v, depth + 1)
        if o == 'at' and a[0].op == 'ext' and a[0].a[0] == 'ctypes.c_int8':
            return False
        if (o in ('call', 'LV', 'm') or counts(sig(t))) and v < 0:
            return False
        return self.setval(t, v)

    def akey(self, t):
        """identity of an atom term"""
        o, a = t.op, t.a
        if o in ('at', 'cp'):
            return ('at', key(self.ev(a[0])), a[1])
        if o in ('p', 'g', 'x', 'LV', 'lv', 'acc'):
            return (o,) + tuple(x for x in a if not isinstance(x, T))
        if o in ('el', 'file'):
            return (o, key(self.ev(a[0])))
        if o == 'idx':
            return ('idx', key(self.ev(a[0])), key(self.ev(a[1])))
        if o == 'ext':
            return ('ext', a[0], tuple(key(self.evs(x)) for x in a[1]), tuple((p, key(self.evs(q))) for p, q in sorted(a[2])) if len(a) > 2 else ())
        if o == 'm':
            kws = a[3] if len(a) > 3 else ()
            return ('m', a[0], key(self.ev(a[1])), tuple(key(x) for x in self.evs(a[2])) if len(a) > 2 else (), tuple((p, key(self.evs(q))) for p, q in sorted(kws)))
        if o in ('call', 'dyn', 'opened', 'mut'):
            return (o,) + tuple(key(self.evs(x)) for x in a)
        return None

    def setval(self, t, v):
        if t in self.ty.defs:
            for ls, x in self.ty.defs[t]:
                if all(self.lit(l) is True for l in ls):
                    return self.setval(x, v) if not isc(x) else x.a[0] == v
            return False
        try:
            if t.op == 'el':
                b = self.ev(t.a[0])
                if isinstance(b, dict):
                    b = tuple(self.unkey(k) for k in b)
                if isinstance(b, tuple):
                    for i, x in enumerate(b):
                        if same(x, v):
                            bb = self.ev(t.a[0])
                            self.over[('pick', ('el', key(bb)))] = i
                            self.touch()
                            return True
                    return False
            if t.op in ('tuple', 'list') and isinstance(v, tuple):
                return len(t.a[0]) == len(v) and all([same(self.ev(x), y) or self.setval(x, y) for x, y in zip(t.a[0], v)])
            if t.op in ('f', 'L', 'bits', 'len', 'mul', 'shr', 'shl', 'mod', 'fd', 'or'):
                return isinstance(v, int) and self.setint(t, v)
            if t.op == 'ite':
                g = self.lit(t.a[0])
                return g is not None and self.setval(t.a[1] if g else t.a[2], v)
            if t.op == 'sl' and isinstance(v, bytes):
                b = self.ev(t.a[0])
                lo = self.num(t.a[1])
                if isinstance(b, BV) and b.r.seed[0] != 'const' and lo >= 0 and lo + len(v) <= b.n:
                    if t.a[2] is not None and self.num(t.a[2]) - lo != len(v):
                        return False
                    for i, x in enumerate(v):
                        b.r.patch[b.s + lo + i] = x
                    self.touch()
                    return True
                return False
            k = self.akey(t)
        except Unknown:
            return False
        except Exception:
            return False
        if k is None:
            return False
        self.over[k] = v
        self.touch()
        return True

    def force(self, l, g):
        """try to make a literal true"""
        o, a = l.op, l.a
        try:
            if o == 'le':
                return self.setint(a[0], -g.choice([0, 0, 0, 1, 2, 7, 40, 513]))
            if o == 'eq0':
                return self.setint(a[0], 0)
            if o == 'ne0':
                return self.setint(a[0], g.choice([1, -1, 2, 5, 100]))
            if o in ('t', 'nt'):
                x = a[0]
                if x.op == 'raised':
                    self.over[self.pkey(x)] = o == 't'
                    self.touch()
                    return True
                if x.op == 'caught':
                    self.over[('caught',) + tuple(repr(y) for y in x.a)] = o == 't'
                    self.touch()
                    return True
                v = self.ev(x)
                if isinstance(v, Sym) and 'seq' in self.ty.flags.get(sig(x), ()):
                    return self.setint(mk('len', x), g.choice([1, 2, 16]) if o == 't' else 0)
                if isinstance(v, Sym):
                    self.over[('t', v.k)] = o == 't'
                    self.touch()
                    return True
                if isinstance(v, BV):
                    return self.setint(mk('len', x), g.choice([1, 2, 16]) if o == 't' else 0)
                if isinstance(v, int) and not isinstance(v, bool):
                    return self.setint(x, g.choice([1, 2, 7]) if o == 't' else 0)
                return self.setval(x, o == 't' if isinstance(v, bool) else (True if o == 't' else None))
            if o in ('eq', 'ne') and all(x.op in ('tuple', 'list') for x in a) and len(a[0].a[0]) == len(a[1].a[0]):
                ps = list(zip(a[0].a[0], a[1].a[0]))
                if o == 'ne':
                    ps = [g.choice(ps)]
                ok = True
                for x, y in ps:
                    l2 = eq(x, y, o == 'eq')
                    if self.lit(l2) is not True:
                        ok = self.force(l2, g) and ok
                return ok
            if o in ('eq', 'ne'):
                for x, y in (a, a[::-1]):
                    try:
                        v = self.ev(y)
                    except Unknown:
                        continue
                    if o == 'eq':
                        if self.setval(x, v):
                            return True
                    else:
                        cs = sorted(self.ty.consts.get(sig(x), ()), key=repr)
                        n = g.choice(cs) if cs and g.random() < 0.5 else (Sym(('other', g.randrange(1000))) if not isinstance(v, int) or isinstance(v, bool) else v + 1)
                        if v is None:
                            fl = self.ty.flags.get(sig(x), ())
                            n = self.root(('nn', g.randrange(10 ** 6)), sig(x)) if 'bytes' in fl else g.randrange(0, 4096) if 'num' in fl else n
                        if isinstance(v, bool):
                            n = not v
                        if self.setval(x, n):
                            return True
                # two opaque values
                x, y = self.ev(a[0]), self.ev(a[1])
                kx, ky = sorted((repr(key(x)), repr(key(y))))
                self.over[('eq', kx, ky)] = o == 'eq'
                self.touch()
                return True
            if o in ('in', 'nin'):
                c = self.evs(a[1])
                if isinstance(c, dict):
                    c = tuple(self.unkey(k) for k in c)
                if isinstance(c, (bytes, str, tuple, frozenset)):
                    if o == 'in':
                        if not len(c):
                            return False
                        v = g.choice(sorted(c, key=repr) if isinstance(c, frozenset) else list(c))
                        return self.setval(a[0], v)
                    x = self.ev(a[0])
                    return self.setval(a[0], x + g.choice([1, 2, 3, 10]) if isinstance(x, int) else Sym(('other', g.randrange(1000))))
                x = self.ev(a[0])
                self.over[('in', key(x), key(c))] = o == 'in'
                self.touch()
                return True
            if o in ('ty', 'nty', 'isinst', 'ninst'):
                x = self.ev(a[0])
                self.over[('ty', key(x), tuple(repr(y) for y in a[1:]))] = o in ('ty', 'isinst')
                self.touch()
                return True
        except Unknown:
            return False
        except Exception:
            return False
        return False


def satisfy(types, lits, seed, rounds=40):
    """a valuation under which the literals hold (those that can be evaluated), or None"""
    V = Valuation(types, seed)
    g = random.Random(seed)
    for _ in range(rounds):
        bad = [l for l in lits if V.lit(l) is not True]
        if not bad:
            return V
        l = g.choice(bad)
        if not V.force(l, g):
            # something it depends on may be out of range
            for x in subterms(l):
                if x.op in ('f', 'sl') and g.random() < 0.7:
                    try:
                        b = V.ev(x.a[0])
                        if x.op == 'f' and isinstance(b, BV) and b.r.seed[0] != 'const':
                            need = V.num(x.a[1]) + V.num(x.a[2])
                            if 0 <= need < 1 << 50 and b.n < need:
                                b.r.len = b.s + need
                                V.touch()
                    except Unknown:
                        pass
    bad = [l for l in lits if V.lit(l) is not True]
    return None if bad else V


SHAPE = {'list': 'list', 'app': 'list', 'tuple': 'tuple', 'dict': 'dict', 'set': 'set', 'fmt': 'str', 'f': 'int', 'bits': 'int', 'len': 'int', 'new': 'object', 'L': 'number'}


def shape(t, types, seen=()):
    """the kind of value a term has whatever its parts are, or None"""
    if t.op == 'c':
        v = t.a[0]
        return 'none' if v is None else 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'str' if isinstance(v, str) else 'bytes' if isinstance(v, bytes) else None
    if t.op == 'LV':
        if t.a[0] in seen:
            return 'any'
        ds = types.lvdefs.get(t.a[0])
        if not ds:
            return None
        r = {shape(d, types, seen + (t.a[0],)) for d in ds} - {'any'}
        return r.pop() if len(r) == 1 else None
    if t.op == 'm' and t.a[0] in ('join', 'decode', 'format', 'rstrip', 'lower', 'upper', 'replace', 'zfill'):
        return 'text'
    if t.op in ('mut', 'app', 'st'):
        return shape(t.a[0], types, seen) if isinstance(t.a[0], T) else None
    if t.op == 'phi':
        r = {shape(d, types, seen) for d in t.a[0]}
        return r.pop() if len(r) == 1 else None
    return SHAPE.get(t.op)


def vshape(v):
    return 'none' if v is None else 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'str' if isinstance(v, str) else 'bytes' if isinstance(v, (bytes, BV)) else None


def apart(a, b):
    """results of the same call with arguments that can never be the same"""
    if a is b or not isinstance(a, T) or not isinstance(b, T):
        return False
    if isc(a) and isc(b):
        return type(a.a[0]) is type(b.a[0]) and a.a[0] != b.a[0]
    for x, y in ((a, b), (b, a)):
        if x.op == 'fmt' and isc(y):
            n = sum(len(p) for p in flatstr(x.a))
            return y.a[0] is None or isinstance(y.a[0], str) and len(y.a[0]) < n
    if a.op != b.op or a.op not in ('call', 'el', 'tuple') or len(a.a) != len(b.a):
        return False
    u, w = list(flatterms(a.a)), list(flatterms(b.a))
    if len(u) != len(w) or [x for x in u if not isinstance(x, T)] != [x for x in w if not isinstance(x, T)]:
        return False
    return any(apart(x, y) for x, y in zip(u, w))


def flatterms(a):
    for x in a:
        if isinstance(x, tuple):
            yield from flatterms(x)
        else:
            yield x


def flatstr(a):
    for x in a:
        if isinstance(x, tuple):
            yield from flatstr(x)
        elif isinstance(x, str):
            yield x
        elif isinstance(x, T) and isc(x) and isinstance(x.a[0], str):
            yield x.a[0]


def unlike(t, v, types):
    """the term cannot have the value, by its kind"""
    a, b = shape(t, types), vshape(v)
    if a is None or b is None or a == 'any' or a == b:
        return False
    return 'none' in (a, b) or 'bool' in (a, b) and {a, b} & {'list', 'tuple', 'dict', 'set', 'str', 'bytes', 'object', 'text'} != set()


def observe(V, D, lost=False):
    """cases of the other side that may apply: [(case, certain)]"""
    out = []
    for cs in D.values():
        for c in cs:
            v = True
            for l in c.cond:
                r = V.lit(l)
                if r is False or lost and r is None and V.memo.get(l) is Fault:
                    v = False
                    break
                if r is None:
                    v = None
            if v is not False:
                out.append(c)
    return out


def defined(terms):
    """literals under which shifts and divisions within the terms have a value"""
    seen = set()
    for t in terms:
        subterms(t, seen)
    out = []
    for t in sorted(seen, key=repr):
        if t.op in ('shl', 'shr'):
            out += [l for l in (le0(neg(t.a[1])), le0(add(t.a[1], C(-64)))) if l.op == 'le']
        elif t.op in ('fd', 'mod') and not isc(t.a[1]):
            l = mk('ne0', t.a[1])
            if l.op == 'ne0':
                out.append(l)
    return out


def first_iteration(V, D, v, mine):
    """does the other side do it when its loops have just been entered"""
    lvs = {x for cs in D.values() for c in cs for t in (c.key,) + c.cond for x in subterms(t) if x.op == 'LV'}
    if not lvs:
        return False
    mine = {x for x in mine if x.a[0][0] != 'k'}
    if mine and mine <= lvs:
        # the same loop, at the same point of it
        return False
    W = Valuation(V.ty, V.seed)
    W.over, W.roots, W.rmemo = dict(V.over), V.roots, V.rmemo
    for x in lvs:
        if x.a[0][0] == 'k':
            W.over[('LV', x.a[0])] = 0
            continue
        for a in V.ty.lvdefs.get(x.a[0], ()):
            if not any(y.op == 'LV' for y in subterms(a)):
                try:
                    W.over[('LV', x.a[0])] = V.ev(a)
                except Unknown:
                    return True
                break
    for d in observe(W, D):
        try:
            if same(W.ev(d.key), v):
                return True
        except Unknown:
            if not unlike(d.key, v, V.ty):
                return True
    return False


def free_counters(V, D, v, mine):
    """does the other side do it at some iteration: counters the case does not speak of can have any value"""
    n = 0
    for cs in D.values():
        for d in cs:
            ks = {x for t in (d.key,) + d.cond for x in subterms(t) if x.op == 'LV' and x.a[0][0] == 'k'} - mine
            if not ks:
                continue
            mentions = lambda l: any(x in ks for x in subterms(l))
            if any(V.lit(l) is False and not mentions(l) for l in d.cond):
                continue
            n += 1
            if n > 12:
                return False
            W = Valuation(V.ty, V.seed)
            W.over, W.roots, W.rmemo = dict(V.over), V.roots, V.rmemo
            for _ in range(8):
                bad = [l for l in d.cond if mentions(l) and W.lit(l) is False]
                if not bad:
                    break
                done = False
                for l in bad:
                    if l.op not in ('le', 'eq0', 'ne0'):
                        continue
                    c0, at = lin(l.a[0])
                    for x, k in at.items():
                        if x in ks:
                            try:
                                cur, mineval = W.num(l.a[0]), W.num(x)
                            except Unknown:
                                continue
                            # least change that makes it true
                            if l.op == 'ne0':
                                new = mineval + 1
                            elif l.op == 'eq0':
                                new = mineval - cur // k if cur % k == 0 else None
                            else:
                                new = mineval - (cur // k if cur % k == 0 else cur // k + (1 if k > 0 else 0))
                            if new is None or new < 0 or isinstance(new, float):
                                continue
                            W.over[('LV', x.a[0])] = new
                            W.touch()
                            done = True
                            break
                    if done:
                        break
                if not done:
                    break
            if any(W.lit(l) is False for l in d.cond):
                continue
            try:
                if same(W.ev(d.key), v):
                    return True
            except Unknown:
                if not unlike(d.key, v, V.ty):
                    return True
    return False


def refute(c, D, types, points=14, tries=28, seed=1, lost=False):
    """'differs', 'agrees' or 'unknown': is there a valuation at which c applies and the other side does not do the same"""
    lits = list(c.cond)
    extra = [l for l in c.facts.literals() if l not in lits and l.op in ('le', 'eq0', 'ne0', 'eq', 'ne', 'in', 'nin', 'isinst', 'ninst', 'ty', 'nty')]
    extra = [l for l in extra if not any(x.op == 'lv' for x in subterms(l))]
    extra += [l for l in defined([c.key] + lits) if l not in lits and l not in extra]
    got = 0
    tgt = list(D.get(c.key, ()))
    g = random.Random(seed)
    have = set(lits + extra)
    mine = {x for t in [c.key] + lits for x in subterms(t) if x.op == 'LV'}
    mybits = sorted({x.a[0] for x in subterms(c.key) if x.op == 'b'}, key=repr)
    theirs = sorted({x.a[0] for k in D for x in subterms(k) if x.op == 'b' and x.a[0] not in mybits}, key=repr)[:40] if mybits else []
    for i in range(tries):
        push = []
        chosen = None
        for t, cs in types.defs.items():
            if not mine or types.matched:
                # attributes of one object were set by the same run of its constructor
                cs = [x for x in cs if not any(negl(l) in have for l in x[0])] or cs
                if chosen is not None:
                    most = max(len(chosen & set(x[0])) for x in cs)
                    cs = [x for x in cs if len(chosen & set(x[0])) == most]
            x = g.choice(cs)
            push += list(x[0])
            if chosen is None:
                chosen = set(x[0])
        base = list(push)
        if tgt and i % 4:
            # steer away from the cases of the other side that would explain it
            for d in (tgt if len(tgt) < 5 else g.sample(tgt, 4)):
                ls = [l for l in d.cond if l not in have and not c.facts.entails(l)]
                if ls:
                    push.append(negl(g.choice(ls)))
        if i % 2 and mybits:
            # a truth value that the other side computes in a different way: where the two part
            l = g.choice(mybits)
            o = g.choice(theirs) if theirs else None
            if o is not None:
                push = base + ([l, negl(o)] if g.random() < 0.5 else [negl(l), o])
        V = satisfy(types, lits + extra + push, seed * 1000 + i)
        if V is None and push:
            V = satisfy(types, lits + extra + base, seed * 1000 + i)
        if V is None:
            continue
        try:
            v = V.ev(c.key)
        except Unknown:
            continue
        got += 1
        if c.approx:
            hit = False
            for k2, cs in D.items():
                try:
                    if same(V.ev(k2), v):
                        hit = True
                        break
                except Unknown:
                    if any(x.op in ('top', 'undef') for x in subterms(k2)):
                        hit = True
                        break
            if not hit:
                return 'differs', V
        else:
            hit = False
            for d in observe(V, D, lost):
                try:
                    if same(V.ev(d.key), v):
                        hit = True
                        break
                except Fault:
                    if not lost or any(V.lit(l) is not True for l in d.cond):
                        hit = True
                        break
                except Unknown:
                    if not unlike(d.key, v, types) and not apart(d.key, c.key):
                        hit = True
                        break
            if not hit:
                hit = first_iteration(V, D, v, mine) or free_counters(V, D, v, mine)
            if not hit:
                return 'differs', V
        if got >= points:
            break
    return ('agrees' if got else 'unknown'), None


def explained(c, D, types, own, lost):
    """does the other side do it for every value the loop variables of this case arise from"""
    from .summary import Case
    from .facts import EMPTY
    lvs = {x for t in (c.key,) + c.cond for x in subterms(t) if x.op == 'LV' and x.a[0] in types.lvdefs}
    if len(lvs) != 1 or c.kind == 'step':
        return False
    X, = lvs
    todo = [(a, ()) for a in types.lvdefs[X.a[0]] if X not in subterms(a)]
    for k, cs in own.get('step', {}).items():
        if k.a[0] is X:
            todo += [(k.a[1], d.cond) for d in cs]
    if not todo or len(todo) > 6:
        return False
    for a, more in todo:
        cond = tuple(subst(l, {X: a}) for l in c.cond) + more
        if FALSE in cond:
            continue
        f = EMPTY
        for l in cond:
            f = f.add(l) or f
        c2 = Case(c.kind, subst(c.key, {X: a}), tuple(l for l in cond if l is not TRUE), f, c.approx, c.where)
        if refute(c2, D, types, lost=lost)[0] == 'differs':
            return False
    return True


def only(c, A, B, types):
    """the one result there is now, where there were several"""
    if c.kind != 'ret' or len(B.get('ret', ())) != 1 or B.get('yield') or len(A.get('ret', ())) == 0:
        return False
    if not (isc(c.key) or c.key.op in ('list', 'dict', 'set', 'tuple') and not c.key.a[0]):
        return False
    for k in A['ret']:
        if k.op == 'LV' and any(x.op in ('app', 'mut', 'st') for x in types.lvdefs.get(k.a[0], ())):
            return True
    return False


def loop_names(s):
    return {x.a[0] for c in s.cases for t in (c.key,) + c.cond for x in subterms(t) if x.op == 'LV'}


def confirm(ref, cur, diffs, seconds=30, want=6):
    """the differences, each with what the valuations say about it"""
    import time
    from .summary import index_cases, align, nothing
    if not diffs:
        return []
    t0 = time.time()
    matched = loop_names(ref) == loop_names(cur)
    cur = align(ref, cur)
    ty = typing(ref, cur)
    ty.matched = matched
    A, B = index_cases(ref), index_cases(cur)
    out = []
    n = 0
    each = {}
    # the short ones first: they are the cheapest to tell apart
    for direction, c, note in sorted(diffs, key=lambda d: (len(d[1].cond), d[0], d[1].kind)):
        g = (direction, c.kind, note)
        if n >= 2 * want or each.get(g, 0) >= want // 2 or time.time() - t0 > seconds:
            out.append((direction, c, note, 'skipped'))
            continue
        D = (A if direction == 'new' else B).get(c.kind, {})
        if nothing(direction, c.kind, A if direction == 'new' else B) or direction == 'new' and only(c, A, B, ty):
            # nothing of the kind ever happens
            n += 1
            each[g] = each.get(g, 0) + 1
            out.append((direction, c, note, 'differs'))
            continue
        r, _v = refute(c, D, ty, lost=direction == 'lost')
        if r == 'differs' and D and explained(c, D, ty, B if direction == 'new' else A, direction == 'lost'):
            r = 'agrees'
        if r != 'differs' and direction == 'lost' and (unsorted(c, D) or reordered(c, D)):
            r = 'differs'
        if r != 'differs' and direction == 'new' and confused(c, D, ty, ref):
            r = 'differs'
        if r == 'differs':
            n += 1
            each[g] = each.get(g, 0) + 1
        out.append((direction, c, note, r))
    return out


def unsorted(c, D):
    """the same is still done, but no longer in the order of a sort"""
    ss = {x for x in subterms(c.key) if x.op == 'sorted'}
    if not ss or any(x.op in ('sorted', 'ext', 'm') and (x.op == 'sorted' or 'sort' in str(x.a[0])) for k in D for x in subterms(k)):
        return False
    plain = subst(c.key, {x: x.a[0] for x in ss})
    as_list = subst(c.key, {x: mk('ext', 'list', (x.a[0],), ()) for x in ss})
    return any(k is plain or repr(k) in (repr(plain), repr(as_list), repr(as_list).replace('ext(', '')) for k in D)


def confused(c, D, ty, ref):
    """a loop variable is no longer kept, and another one, which is set to something else, stands in its place"""
    if not ty.loose or c.approx:
        return False
    ys = {x for x in subterms(c.key) if x.op == 'LV' and x.a[0] not in ty.loose and x.a[0] in ref.lvdefs}
    found = False
    for k in D:
        xs = {x for x in subterms(k) if x.op == 'LV' and x.a[0] in ty.loose}
        if len(xs) != 1:
            continue
        x, = xs
        for y in ys:
            if subst(k, {x: y}) is not c.key:
                continue
            a, b = fetched(x, ref), fetched(y, ref)
            if not a or not b or same_terms(a, b, ty):
                return False
            found = True
    return found


def fetched(x, s):
    """what the loop variable is set to, if these are only fields of the input (or constants)"""
    out, seen, todo = set(), set(), [x]
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        for d in s.lvdefs.get(v.a[0], ()):
            if d.op == 'LV':
                todo.append(d)
            elif d.op in ('f', 'c'):
                out.add(d)
            elif d.op != 'undef':
                return None
    if any(v in subterms(d) for v in seen for d in out) or not any(d.op == 'f' for d in out):
        return None
    return sorted(out, key=repr)


def reordered(c, D):
    """the same is still done, but in another order: the sort runs the other way, or by another field"""
    ss = {x for x in subterms(c.key) if x.op == 'sorted'}
    if len(ss) != 1:
        return False
    s, = ss
    for k in D:
        for x in {y for y in subterms(k) if y.op == 'sorted'}:
            if x is s or x.a[0] is not s.a[0] or subst(c.key, {s: x}) is not k:
                continue
            if x.a[1] is s.a[1] or repr(x.a[1]) == repr(s.a[1]):
                if {repr(x.a[2]), repr(s.a[2])} == {'True', 'False'}:
                    return True
            elif repr(x.a[2]) == repr(s.a[2]):
                a, b = field_of(x.a[1]), field_of(s.a[1])
                if a and b and a != b:
                    return True
    return False


def field_of(t):
    """the name in a sort key of the form 'this field of the item' or 'this method of the item'"""
    m = re.fullmatch(r"lam\(\$0\.<?(\w+)>?\)|lam\(\.(\w+)\(\$0, \(\), \(\)\)\)", repr(t))
    return m and (m.group(1) or m.group(2))


def same_terms(want, have, types, points=8, sized=True, subset=False):
    """do the two lists of terms denote the same set of values, as far as valuations tell"""
    if set(want) == set(have):
        return True
    if sized and len(want) != len(have):
        return False
    ok = 0
    for i in range(points * 2):
        V = Valuation(types, 7000 + i)
        V.roomy = i % 2 == 0
        try:
            a, b = [key(V.ev(t)) for t in want], [key(V.ev(t)) for t in have]
        except Unknown:
            continue
        if set(a) != set(b) and not (subset and (set(a) < set(b) or set(b) < set(a))):
            return False
        ok += 1
    return ok >= 3


def typing(ref, cur):
    lv = {}
    for d in (cur.lvdefs, ref.lvdefs):
        lv.update(d)
    defs = dict(ref.defs)
    from .summary import loose_lvs
    ty = Types(vocabulary(ref, cur) + [t for ts in lv.values() for t in ts] + [t for cs in defs.values() for ls, v in cs for t in ls + (v,)], defs, lv)
    ty.loose = loose_lvs(ref, cur)
    # methods that one side resolved to their code and the other did not
    use = []
    for s in (ref, cur):
        ms, fs = set(), set(q.rsplit('.', 1)[-1] for q in s.stats.get('inlined', ()))
        for t in vocabulary(s):
            for x in subterms(t):
                if x.op == 'm':
                    ms.add(x.a[0])
                elif x.op == 'call':
                    fs.add(x.a[0].rsplit('.', 1)[-1])
        use.append((ms, fs))
    (ma, fa), (mb, fb) = use
    ty.lopsided = ((ma - mb) & (fb - fa)) | ((mb - ma) & (fa - fb))
    return ty


def vocabulary(*sums):
    return [t for s in sums for c in s.cases for t in (c.key,) + tuple(c.facts.literals())]
