"""Hash-consed terms of the value-flow domain, and literals over them.

A term denotes the value an expression has, written over the roots of a
function (parameters, constructor arguments, file contents).  Integer terms are
kept in linear normal form, byte accesses are kept as fields of their root
buffer, and bit tests are kept as bit ranges, so that two expressions which
compute the same thing in different ways usually become the same object.
"""
import hashlib
import struct
from math import gcd

_TAB = {}
_CNT = [0]


class T(object):
    __slots__ = ('op', 'a', 'i', 'h')

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def _key(x):
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    if isinstance(x, T):
        return x
    return (type(x).__name__, x)


def _hk(x):
    """what the structural hash is taken of: the same in every run and every process"""
    if isinstance(x, tuple):
        return tuple(_hk(y) for y in x)
    if isinstance(x, T):
        return x.h
    if isinstance(x, frozenset):
        return repr(sorted(x, key=repr))
    if isinstance(x, int):
        return (type(x).__name__, hex(x))
    return repr(x)


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = args
        _CNT[0] += 1
        t.i = _CNT[0]
        t.h = hash(_hk(k))
        _TAB[k] = t
    return t


def C(v):
    return mk('c', v)


NONE = C(None)
TRUE_T = C(True)
FALSE_T = C(False)
ZERO = C(0)


def isc(t):
    return t.op == 'c'


def cint(t):
    """the int value of a constant term, or None"""
    if t.op == 'c' and isinstance(t.a[0], int) and not isinstance(t.a[0], bool):
        return t.a[0]
    if t.op == 'c' and isinstance(t.a[0], bool):
        return int(t.a[0])
    return None


# ---------------------------------------------------------------- linear forms

def lin(t):
    if t.op == 'c':
        v = t.a[0]
        if isinstance(v, (int, bool)):
            return int(v), {}
        return 0, {t: 1}
    if t.op == 'L':
        return t.a[0], dict(t.a[1])
    if t.op == 'b':
        b = _boolbit(t)
        if b is not None:
            return 0, {b: 1}
    return 0, {t: 1}


def _boolbit(t):
    """a boolean term that is exactly one bit -> that bit (as a 0/1 integer)"""
    l = t.a[0]
    if l.op == 'le':
        c, d = lin(l.a[0])
        if len(d) == 1 and c == 1:
            (x, k), = d.items()
            if k == -1 and intrinsic(x) == (0, 1):
                return x
    return None


def mklin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk('L', c, tuple(sorted(d.items(), key=lambda kv: kv[0].h)))


def add(a, b):
    c, d = lin(a)
    c2, d2 = lin(b)
    d = dict(d)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    return mklin(c + c2, d)


def scale(a, n):
    c, d = lin(a)
    return mklin(c * n, {t: k * n for t, k in d.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono(a, b):
    fs = []
    for x in (a, b):
        if x.op == 'mul':
            fs.extend(x.a[0])
        else:
            fs.append(x)
    return mk('mul', tuple(sorted(fs, key=lambda t: t.h)))


def mul(a, b):
    ca, cb = cint(a), cint(b)
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    out = {}
    for t, k in d1.items():
        if c2:
            out[t] = out.get(t, 0) + k * c2
        for u, m in d2.items():
            p = _mono(t, u)
            out[p] = out.get(p, 0) + k * m
    if c1:
        for u, m in d2.items():
            out[u] = out.get(u, 0) + m * c1
    return mklin(c1 * c2, out)


def _log2(n):
    if n > 0 and n & (n - 1) == 0:
        return n.bit_length() - 1
    return None


def width_bits(t):
    """intrinsic bit width of an unsigned term, or None"""
    lo, hi = intrinsic(t)
    if lo is not None and lo >= 0 and hi is not None:
        return hi.bit_length()
    return None


def bits(x, lo, w):
    """bits lo .. lo+w-1 of x (w None: all the higher ones)"""
    n = cint(x)
    if n is not None:
        v = n >> lo
        return C(v if w is None else v & ((1 << w) - 1))
    if x.op == 'L' and lo == 0 and w is not None:
        # reduce coefficients modulo 2^w
        c, d = lin(x)
        m = 1 << w
        d2 = {t: k % m for t, k in d.items() if k % m}
        if c % m != c or d2 != d:
            return bits(mklin(c % m, d2), 0, w)
    if x.op == 'L':
        c, d = lin(x)
        g = 1 << lo
        if lo and c % g == 0 and all(k % g == 0 for k in d.values()):
            return bits(mklin(c // g, {t: k // g for t, k in d.items()}), 0, w) if w is not None else mklin(c // g, {t: k // g for t, k in d.items()})
    W = width_bits(x)
    if W is not None:
        if lo >= W:
            return ZERO
        if w is None or lo + w > W:
            w = W - lo
        if lo == 0 and w >= W:
            return x
    if x.op == 'bits':
        y, l1, w1 = x.a
        if w1 is None:
            return bits(y, l1 + lo, w)
        nw = w1 - lo
        if nw <= 0:
            return ZERO
        return bits(y, l1 + lo, nw if w is None else min(w, nw))
    if lo == 0 and w is None:
        return x
    return mk('bits', x, lo, w)


def fdiv(a, b):
    n, m = cint(a), cint(b)
    if n is not None and m:
        return C(n // m)
    if m == 1:
        return a
    if m is not None:
        k = _log2(m)
        if k is not None:
            return bits(a, k, None)
        c, d = lin(a)
        if m > 0 and c % m == 0 and all(v % m == 0 for v in d.values()):
            return mklin(c // m, {t: v // m for t, v in d.items()})
    return mk('fd', a, b)


def fmod(a, b):
    if a.op == 'c' and isinstance(a.a[0], str):
        return mk('op', '%', a, b)
    n, m = cint(a), cint(b)
    if n is not None and m:
        return C(n % m)
    if m is not None and m > 0:
        k = _log2(m)
        if k is not None:
            return bits(a, 0, k)
        c, d = lin(a)
        d2 = {t: v % m for t, v in d.items() if v % m}
        return mk('mod', mklin(c % m, d2), b) if d2 else C(c % m)
    return mk('mod', a, b)


def band(a, b):
    n, m = cint(a), cint(b)
    if n is not None and m is not None:
        return C(n & m)
    if n is not None:
        a, b, n, m = b, a, m, n
    if m is not None:
        if m == 0:
            return ZERO
        W = width_bits(a)
        if m > 0:
            if W is not None:
                m &= (1 << W) - 1
                if m == 0:
                    return ZERO
            s = (m & -m).bit_length() - 1
            r = m >> s
            if r & (r + 1) == 0:
                return scale(bits(a, s, r.bit_length()), 1 << s)
        return mk('and', a, C(m))
    if a.h > b.h:
        a, b = b, a
    return mk('and', a, b)


def bor(a, b):
    n, m = cint(a), cint(b)
    if n is not None and m is not None:
        return C(n | m)
    for x, y in ((a, b), (b, a)):
        W = width_bits(y)
        if W is not None:
            c, d = lin(x)
            g = 1 << W
            if c % g == 0 and all(k % g == 0 for k in d.values()):
                return add(x, y)
    xs = []
    for x in (a, b):
        if x.op == 'or':
            xs.extend(x.a[0])
        else:
            xs.append(x)
    return mk('or', tuple(sorted(set(xs), key=lambda t: t.h)))


def bxor(a, b):
    n, m = cint(a), cint(b)
    if n is not None and m is not None:
        return C(n ^ m)
    if a.h > b.h:
        a, b = b, a
    return mk('xor', a, b)


def shl(a, b):
    n, m = cint(a), cint(b)
    if m is not None and 0 <= m <= 4096:
        return scale(a, 1 << m)
    return mk('shl', a, b)


def shr(a, b):
    m = cint(b)
    if m is not None and 0 <= m <= 4096:
        return bits(a, m, None)
    return mk('shr', a, b)


# ---------------------------------------------------------------- bytes

def is_bytes(t):
    if t.op == 'c':
        return isinstance(t.a[0], (bytes, str))
    if t.op == 'm' and t.a[0] in ('decode', 'join', 'rstrip', 'strip', 'lstrip', 'format', 'encode', 'upper', 'lower', 'replace', 'ljust', 'rjust', 'zfill'):
        return True
    if t.op == 'ext' and t.a[0] in ('str', 'hex', 'struct.pack', 'repr', 'chr', 'bytes', 'bytearray'):
        return True
    if t.op == 'ite':
        return is_bytes(t.a[1]) and is_bytes(t.a[2])
    return t.op in ('sl', 'cat', 'list', 'tuple', 'app', 'rep', 'file', 'fmt')


def mkfmt(parts):
    """a formatted string: constant pieces and (term, spec) holes"""
    out = []
    for x in parts:
        if isinstance(x, str):
            x = C(x)
        if x.op == 'hole' and x.a[1] == '':
            y = x.a[0]
            if y.op == 'fmt':
                ys = list(y.a[0])
            elif isc(y) and isinstance(y.a[0], (str, int)) and not isinstance(y.a[0], bool):
                ys = [C(str(y.a[0]))]
            else:
                ys = [x]
        elif x.op == 'fmt':
            ys = list(x.a[0])
        else:
            ys = [x]
        for y in ys:
            if isc(y):
                if y.a[0] == '':
                    continue
                if out and isc(out[-1]):
                    out[-1] = C(out[-1].a[0] + y.a[0])
                    continue
            out.append(y)
    if not out:
        return C('')
    if len(out) == 1 and isc(out[0]):
        return out[0]
    return mk('fmt', tuple(out))


def cat(a, b):
    if (a.op == 'fmt' or b.op == 'fmt') and all(x.op == 'fmt' or (isc(x) and isinstance(x.a[0], str)) for x in (a, b)):
        return mkfmt([a, b])
    if (a.op == 'fmt' or b.op == 'fmt' or (isc(a) and isinstance(a.a[0], str)) or (isc(b) and isinstance(b.a[0], str))) and not (isc(a) and isc(b)):
        if not any(x.op in ('list', 'tuple', 'app') for x in (a, b)):
            return mkfmt([x if x.op == 'fmt' or isc(x) else mk('hole', x, '') for x in (a, b)])
    if isc(a) and isc(b) and type(a.a[0]) is type(b.a[0]) and isinstance(a.a[0], (bytes, str)):
        return C(a.a[0] + b.a[0])
    if a.op == 'list' and b.op == 'list':
        return mk('list', a.a[0] + b.a[0])
    if a.op == 'tuple' and b.op == 'tuple':
        return mk('tuple', a.a[0] + b.a[0])
    xs = []
    for x in (a, b):
        if x.op == 'cat':
            xs.extend(x.a[0])
        elif isc(x) and x.a[0] in (b'', ''):
            continue
        else:
            xs.append(x)
    # adjacent slices of one buffer merge
    out = []
    for x in xs:
        if out and x.op == 'sl' and out[-1].op == 'sl' and x.a[0] is out[-1].a[0] and out[-1].a[2] is x.a[1] and out[-1].a[2] is not None:
            p = out.pop()
            out.append(mk('sl', p.a[0], p.a[1], x.a[2]))
        else:
            out.append(x)
    if not out:
        return a
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out))


def plus(a, b):
    if is_bytes(a) or is_bytes(b):
        return cat(a, b)
    return add(a, b)


def nonneg_const(t):
    n = cint(t)
    return n is not None and n >= 0


def slice_(buf, lo, hi):
    """buf[lo:hi]; lo/hi terms, hi None when open"""
    if lo is None or (isc(lo) and lo.a[0] is None):
        lo = ZERO
    if hi is not None and isc(hi) and hi.a[0] is None:
        hi = None
    l, h = cint(lo), (cint(hi) if hi is not None else None)
    if l == 0 and hi is None:
        return buf
    if isc(buf) and isinstance(buf.a[0], (bytes, str, tuple)) and l is not None and (hi is None or h is not None):
        return C(buf.a[0][l:h])
    if buf.op in ('list', 'tuple') and l is not None and (hi is None or h is not None):
        return mk(buf.op, buf.a[0][l:h])
    if buf.op == 'sl' and not (l is not None and l < 0) and not (h is not None and h < 0):
        b, lo0, hi0 = buf.a
        if hi0 is None:
            return mk('sl', b, add(lo0, lo), None if hi is None else add(lo0, hi))
        w = cint(sub(hi0, lo0))
        if hi is None:
            if l is not None and w is not None:
                return mk('sl', b, add(lo0, lo), hi0)
        elif w is not None and h is not None:
            if h <= w:
                return mk('sl', b, add(lo0, lo), add(lo0, hi))
            if l is not None and l <= w:
                return mk('sl', b, add(lo0, lo), hi0)
        elif hi is sub(hi0, lo0):
            return mk('sl', b, add(lo0, lo), hi0)
    return mk('sl', buf, lo, hi)


def base_of(buf):
    """(root, offset) of a byte term"""
    if buf.op == 'sl':
        lo = buf.a[1]
        n = cint(lo)
        if n is None or n >= 0:
            return buf.a[0], lo
    return buf, ZERO


def field(buf, off, width, signed, endian):
    b, o = base_of(buf)
    off = add(o, off)
    if isinstance(width, int):
        width = C(width)
    w = cint(width)
    if w == 1:
        endian = ''
    if isc(b) and isinstance(b.a[0], bytes) and cint(off) is not None and w is not None:
        raw = b.a[0][cint(off):cint(off) + w]
        if len(raw) == w:
            return C(int.from_bytes(raw, 'big' if endian == '>' else 'little', signed=signed))
    return mk('f', b, off, width, bool(signed), endian)


def index(buf, i):
    n = cint(i)
    if buf.op in ('tuple', 'list') and n is not None:
        xs = buf.a[0]
        if -len(xs) <= n < len(xs):
            return xs[n]
    if isc(buf) and isinstance(buf.a[0], (bytes, tuple, str)) and n is not None:
        v = buf.a[0]
        if -len(v) <= n < len(v):
            r = v[n]
            return r if isinstance(r, T) else C(r)
    if buf.op == 'dict':
        for k, v in buf.a[0]:
            if k is i:
                return v
        return mk('idx', buf, i)
    if n is not None and n < 0:
        return mk('idx', buf, i)
    if buf.op == 'sl' or buf.op in ('cp', 'file', 'at', 'p', 'lv', 'phi'):
        return field(buf, i, 1, False, '')
    return mk('idx', buf, i)


_FMT = {'B': (1, False), 'b': (1, True), 'H': (2, False), 'h': (2, True), 'L': (4, False), 'l': (4, True), 'I': (4, False), 'i': (4, True), 'Q': (8, False), 'q': (8, True)}


def unpack_fields(fmt, buf, off=ZERO):
    """fields of struct.unpack(fmt, buf); None if the format is not understood"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    s = fmt
    endian = '@'
    if s and s[0] in '<>=!@':
        endian = s[0]
        s = s[1:]
    if endian == '!':
        endian = '>'
    aligned = endian in '@'
    if endian in '@=':
        e = '<'  # the platforms we care about are little endian
    else:
        e = endian
    try:
        total = struct.calcsize(fmt)
    except struct.error:
        return None
    out = []
    pos = 0
    i = 0
    while i < len(s):
        n = ''
        while i < len(s) and s[i].isdigit():
            n += s[i]
            i += 1
        if i >= len(s):
            return None
        ch = s[i]
        i += 1
        if ch.isspace():
            continue
        cnt = int(n) if n else 1
        if ch == 'x':
            pos += cnt
            continue
        if ch == 's':
            out.append(slice_(buf, add(off, C(pos)), add(off, C(pos + cnt))))
            pos += cnt
            continue
        if ch not in _FMT:
            return None
        w, sg = _FMT[ch]
        if aligned and endian == '@':
            nat = struct.calcsize('@' + ch)
            if ch in 'Ll':
                w = nat
            for _ in range(cnt):
                pos = (pos + w - 1) // w * w
                out.append(field(buf, add(off, C(pos)), w, sg, e))
                pos += w
            continue
        for _ in range(cnt):
            out.append(field(buf, add(off, C(pos)), w, sg, e))
            pos += w
    return out, total


# ---------------------------------------------------------------- intervals

def intrinsic(t):
    op = t.op
    if op == 'c':
        n = cint(t)
        return (n, n) if n is not None else (None, None)
    if op == 'f':
        w = cint(t.a[2])
        if w is not None:
            if t.a[3]:
                return (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1)
            if w == 1 and t.a[0].op in ('phi', 'lv'):
                return (None, None)
            return (0, (1 << (8 * w)) - 1)
        return (None, None) if t.a[3] else (0, None)
    if op == 'bits':
        if t.a[2] is not None:
            return (0, (1 << t.a[2]) - 1)
        lo, hi = intrinsic(t.a[0])
        return (None if lo is None else lo >> t.a[1], None if hi is None else hi >> t.a[1])
    if op == 'LV' and t.a[0][:1] == 'k':
        return (0, None)
    if op == 'len':
        x = t.a[0]
        if x.op == 'sl' and x.a[2] is not None:
            w = cint(sub(x.a[2], x.a[1]))
            if w is not None and w >= 0 and nonneg_const(x.a[1]):
                return (0, w)
        return (0, None)
    if op == 'b':
        return (0, 1)
    if op == 'and':
        for x in t.a:
            n = cint(x)
            if n is not None and n >= 0:
                return (0, n)
        return (None, None)
    if op == 'mod':
        n = cint(t.a[1])
        if n is not None and n > 0:
            return (0, n - 1)
        return (None, None)
    if op == 'or':
        hi = 0
        for x in t.a[0]:
            l, h = intrinsic(x)
            if l is None or l < 0 or h is None:
                return (None, None)
            hi |= (1 << h.bit_length()) - 1
        return (0, hi)
    if op == 'mul':
        hi = 1
        for x in t.a[0]:
            l, h = intrinsic(x)
            if l is None or l < 0:
                return (None, None)
            hi = None if (hi is None or h is None) else hi * h
        return (0, hi)
    if op == 'fd':
        l, h = intrinsic(t.a[0])
        n = cint(t.a[1])
        if l is not None and l >= 0 and n is not None and n > 0:
            return (l // n, None if h is None else h // n)
        return (None, None)
    if op == 'L':
        c, d = lin(t)
        lo = hi = c
        for x, k in d.items():
            l, h = intrinsic(x)
            if k < 0:
                l, h = h, l
            lo = None if (lo is None or l is None) else lo + k * l
            hi = None if (hi is None or h is None) else hi + k * h
        return (lo, hi)
    if op == 'phi':
        lo = hi = 0
        first = True
        for x in t.a[0]:
            l, h = intrinsic(x)
            if first:
                lo, hi, first = l, h, False
            else:
                lo = None if (lo is None or l is None) else min(lo, l)
                hi = None if (hi is None or h is None) else max(hi, h)
        return (lo, hi)
    if op == 'ite':
        if t not in _ITERNG:
            (l1, h1), (l2, h2) = intrinsic(t.a[1]), intrinsic(t.a[2])
            _ITERNG[t] = (None if l1 is None or l2 is None else min(l1, l2), None if h1 is None or h2 is None else max(h1, h2))
        return _ITERNG[t]
    return (None, None)


_ITERNG = {}


# ---------------------------------------------------------------- literals

TRUE = mk('true')
FALSE = mk('false')

NUM_OPS = ('L', 'f', 'bits', 'len', 'mul', 'fd', 'mod', 'and', 'or', 'xor', 'shl', 'shr')
NONNONE = NUM_OPS + ('b', 'new', 'ntup', 'tuple', 'sl', 'list', 'cat', 'cls', 'fn', 'app', 'rep', 'dict', 'set', 'fmt')


_ITENUM = {}


def is_num(t):
    if t.op == 'ite':
        r = _ITENUM.get(t)
        if r is None:
            r = is_num(t.a[1]) and is_num(t.a[2])
            _ITENUM[t] = r
        return r
    return t.op in NUM_OPS or (t.op == 'c' and isinstance(t.a[0], int) and not isinstance(t.a[0], bool))


def le0(t):
    """literal  t <= 0"""
    c, d = lin(t)
    if not d:
        return TRUE if c <= 0 else FALSE
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {x: k // g for x, k in d.items()}
        c = -((-c) // g)  # ceil(c/g)
    lo, hi = intrinsic(mklin(c, d))
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    r = _lenlit(c, d, 'le')
    if r is not None:
        return r
    return mk('le', mklin(c, d))


def _lenlit(c, d, kind):
    """rewrite a bound on len(buf[lo:hi]) into a bound on len(buf)"""
    hits = [x for x in d if x.op == 'len' and x.a[0].op == 'sl']
    if len(hits) != 1 or abs(d[hits[0]]) != 1:
        return None
    x = hits[0]
    b, lo, hi = x.a[0].a
    n = cint(lo)
    if n is not None and n < 0:
        return None
    k = d[x]
    rest = mklin(c, {t: v for t, v in d.items() if t is not x})
    L = mk('len', b)
    if hi is None:
        # len(b[lo:]) = max(0, len(b) - lo)
        if kind == 'le' and k == -1:      # len >= rest
            r = cint(rest)
            if r is not None and r > 0:
                return le0(sub(add(lo, rest), L))
        if kind == 'le' and k == 1:       # len + rest <= 0 ; len <= -rest
            r = cint(rest)
            if r is not None and r <= 0:
                return le0(add(sub(L, lo), rest))
        return None
    w = sub(hi, lo)
    wc = cint(w)
    if wc is not None and wc < 0:
        return None
    if kind == 'le':
        if k == -1:                        # len(sl) >= rest
            if rest is w:
                return le0(sub(hi, L))
            r = cint(rest)
            if r is not None and wc is not None:
                if r <= 0:
                    return TRUE
                if r > wc:
                    return FALSE
                return le0(sub(add(lo, rest), L))
            if r is not None and r == 1:   # non-empty; assumes hi > lo
                return le0(sub(add(lo, C(1)), L))
        else:                              # len(sl) <= -rest
            m = neg(rest)
            if m is sub(w, C(1)):
                return le0(add(sub(L, hi), C(1)))
            r = cint(m)
            if r is not None and wc is not None:
                if r >= wc:
                    return TRUE
                if r < 0:
                    return FALSE
                return le0(sub(L, add(lo, m)))
            if r == 0:
                return le0(sub(L, lo))
    return None


def eqnum(t, positive=True):
    """literal  t == 0  (or t != 0)"""
    c, d = lin(t)
    if not d:
        return TRUE if (c == 0) == positive else FALSE
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if c % g:
        return FALSE if positive else TRUE
    d = {x: k // g for x, k in d.items()}
    c //= g
    first = min(d, key=lambda x: x.h)
    if d[first] < 0:
        d = {x: -k for x, k in d.items()}
        c = -c
    # len(slice) == width and the like
    hits = [x for x in d if x.op == 'len' and x.a[0].op == 'sl']
    if len(hits) == 1 and abs(d[hits[0]]) == 1:
        x = hits[0]
        b, lo, hi = x.a[0].a
        n = cint(lo)
        if not (n is not None and n < 0):
            rest = mklin(c, {y: v for y, v in d.items() if y is not x})
            val = neg(rest) if d[x] == 1 else rest
            L = mk('len', b)
            if hi is not None:
                w = sub(hi, lo)
                if val is w:
                    l = le0(sub(hi, L))
                    return l if positive else negl(l)
                wc, vc = cint(w), cint(val)
                if wc is not None and vc is not None:
                    if vc < 0 or vc > wc:
                        return FALSE if positive else TRUE
                    if vc == 0:
                        l = le0(sub(L, lo))
                        return l if positive else negl(l)
                    return eqnum(sub(L, add(lo, val)), positive)
                if vc == 0:
                    l = le0(sub(L, lo))
                    return l if positive else negl(l)
    z = mklin(c, d)
    lo, hi = intrinsic(z)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE if positive else TRUE
    if lo == 0:
        l = le0(z)
        return l if positive else negl(l)
    if hi == 0:
        l = le0(neg(z))
        return l if positive else negl(l)
    return mk('eq0' if positive else 'ne0', z)


def _as_field(t, w):
    return field(t, ZERO, w, False, '<')


def eq(a, b, positive=True):
    if a is b:
        # the same value-numbered term: equal
        return TRUE if positive else FALSE
    if isc(a) and isc(b):
        try:
            same = a.a[0] == b.a[0]
        except Exception:
            same = False
        return TRUE if same == positive else FALSE
    for x, y in ((a, b), (b, a)):
        if isc(y) and y.a[0] is None and x.op in NONNONE:
            return FALSE if positive else TRUE
        if isc(y) and isinstance(y.a[0], bool) and x.op == 'b':
            l = x.a[0]
            return l if (y.a[0] == positive) else negl(l)
        if isc(y) and y.a[0] in (0, 1) and isinstance(y.a[0], int) and x.op == 'b' and _boolbit(x) is None:
            l = x.a[0]
            return l if (bool(y.a[0]) == positive) else negl(l)
        if isc(y) and y.a[0] in (b'', '') and isinstance(y.a[0], (bytes, str)) and (x.op in ('sl', 'cat') or x.op == 'm' and x.a[0] in STRING_METHODS):
            l = le0(mk('len', x))
            return l if positive else negl(l)
        if isc(y) and isinstance(y.a[0], str) and len(y.a[0]) == 1 and x.op in ('idx', 'f'):
            # a character of a string
            p = x.a[1]
            if cint(p) is not None and (x.op == 'idx' or cint(x.a[2]) == 1):
                return eq(slice_(x.a[0], p, None if cint(p) == -1 else add(p, C(1))), y, positive)
        if isc(y) and isinstance(y.a[0], bytes) and len(y.a[0]) > 0 and x.op == 'sl':
            b_, lo, hi = x.a
            w = cint(sub(hi, lo)) if hi is not None else None
            if w == len(y.a[0]) and not (cint(lo) is not None and cint(lo) < 0):
                return eqnum(sub(_as_field(x, w), C(int.from_bytes(y.a[0], 'little'))), positive)
    if a.op == 'sl' and b.op == 'sl' and a.a[2] is not None and b.a[2] is not None:
        w1, w2 = cint(sub(a.a[2], a.a[1])), cint(sub(b.a[2], b.a[1]))
        if w1 is not None and w1 == w2 and w1 > 0:
            return eqnum(sub(_as_field(a, w1), _as_field(b, w2)), positive)
    if is_num(a) or is_num(b):
        if (isc(a) and not is_num(a)) or (isc(b) and not is_num(b)):
            if not (isc(a) and isinstance(a.a[0], bool)) and not (isc(b) and isinstance(b.a[0], bool)):
                return mk('eq' if positive else 'ne', *sorted((a, b), key=lambda t: t.h))
        return eqnum(sub(a, b), positive)
    return mk('eq' if positive else 'ne', *sorted((a, b), key=lambda t: t.h))


_NEG = {'eq0': 'ne0', 'ne0': 'eq0', 'eq': 'ne', 'ne': 'eq', 'in': 'nin', 'nin': 'in', 't': 'nt', 'nt': 't', 'ty': 'nty', 'nty': 'ty', 'isinst': 'ninst', 'ninst': 'isinst', 'true': 'false', 'false': 'true'}


def negl(l):
    if l.op == 'le':
        return le0(add(neg(l.a[0]), C(1)))
    if l is TRUE:
        return FALSE
    if l is FALSE:
        return TRUE
    if l.op == 'ne0':
        return eqnum(l.a[0], True)
    if l.op == 'eq0':
        return eqnum(l.a[0], False)
    return mk(_NEG[l.op], *l.a)


STRING_METHODS = ('decode', 'encode', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'join', 'split')


def truth(t):
    if t.op == 'b':
        return t.a[0]
    if isc(t):
        return TRUE if t.a[0] else FALSE
    if is_num(t):
        return eqnum(t, False)
    if t.op in ('sl', 'cat', 'app') or t.op == 'm' and t.a[0] in STRING_METHODS:
        return le0(sub(C(1), mk('len', t)))
    if t.op in ('list', 'tuple'):
        return TRUE if t.a[0] else FALSE
    if t.op in ('new', 'cls', 'fn'):
        return TRUE
    if t.op == 'ite':
        x, y = truth(t.a[1]), truth(t.a[2])
        if x is y:
            return x
        if x is TRUE and y is FALSE:
            return t.a[0]
        if x is FALSE and y is TRUE:
            return negl(t.a[0])
    return mk('t', t)


def boolterm(l):
    if l is TRUE:
        return TRUE_T
    if l is FALSE:
        return FALSE_T
    return mk('b', l)


def length(t):
    if isc(t) and isinstance(t.a[0], (bytes, str, tuple)):
        return C(len(t.a[0]))
    if t.op in ('list', 'tuple'):
        return C(len(t.a[0]))
    if t.op == 'cat':
        r = ZERO
        for x in t.a[0]:
            r = add(r, length(x))
        return r
    if t.op == 'rep' and isc(t.a[0]):
        return scale(t.a[1], len(t.a[0].a[0]))
    if t.op == 'ite':
        return ite(t.a[0], length(t.a[1]), length(t.a[2]))
    return mk('len', t)


# ---------------------------------------------------------------- substitution

def rebuild(op, a):
    if op == 'L':
        c, items = a
        r = C(c)
        for t, k in items:
            r = add(r, scale(t, k))
        return r
    if op == 'mul':
        r = C(1)
        for t in a[0]:
            r = mul(r, t)
        return r
    if op == 'f':
        return field(a[0], a[1], a[2], a[3], a[4])
    if op == 'sl':
        return slice_(a[0], a[1], a[2])
    if op == 'rep' and isc(a[0]) and isinstance(a[0].a[0], (bytes, str)) and cint(a[1]) is not None and cint(a[1]) <= 64:
        return C(a[0].a[0] * cint(a[1]))
    if op == 'bits':
        return bits(*a)
    if op == 'fd':
        return fdiv(*a)
    if op == 'mod':
        return fmod(*a)
    if op == 'and':
        return band(*a)
    if op == 'or':
        r = ZERO
        for t in a[0]:
            r = bor(r, t)
        return r
    if op == 'len':
        return length(a[0])
    if op == 'cat':
        r = a[0][0]
        for t in a[0][1:]:
            r = cat(r, t)
        return r
    if op == 'fmt':
        return mkfmt(a[0])
    if op == 'shl':
        return shl(*a)
    if op == 'shr':
        return shr(*a)
    if op == 'b':
        return boolterm(a[0])
    if op == 'le':
        return le0(a[0])
    if op in ('eq0', 'ne0'):
        return eqnum(a[0], op == 'eq0')
    if op in ('eq', 'ne'):
        return eq(a[0], a[1], op == 'eq')
    if op in ('t', 'nt'):
        l = truth(a[0])
        return l if op == 't' else negl(l)
    if op == 'idx':
        return index(*a)
    if op == 'phi':
        return phi(a[0])
    if op == 'ite':
        return ite(*a)
    return mk(op, *a)


def ser(t):
    """a text that identifies the term independently of creation order"""
    if isinstance(t, tuple):
        return '(' + ' '.join(ser(x) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t)
    r = _SER.get(t)
    if r is not None:
        return r
    if t.op == 'L':
        r = '[L %d %s]' % (t.a[0], ' '.join(sorted('%d*%s' % (k, ser(x)) for x, k in t.a[1])))
    elif t.op in ('mul', 'or', 'phi'):
        r = '[%s %s]' % (t.op, ' '.join(sorted(ser(x) for x in t.a[0])))
    elif t.op in ('eq', 'ne', 'and', 'xor'):
        r = '[%s %s]' % (t.op, ' '.join(sorted(ser(x) for x in t.a)))
    elif t.op in ('eq0', 'ne0'):
        a, b = ser(t.a[0]), ser(neg(t.a[0]))
        r = '[%s %s]' % (t.op, min(a, b))
    else:
        r = '[%s %s]' % (t.op, ' '.join(ser(x) for x in t.a))
    if len(r) > 400:
        r = '#' + hashlib.sha1(r.encode()).hexdigest()
    _SER[t] = r
    return r


_SER = {}


def _cof(t, g, pol):
    if t.op == 'ite' and t.a[0] is g:
        return t.a[1] if pol else t.a[2]
    return t


def ite(l, a, b):
    """a when l holds, else b; tests are ordered as in a decision diagram"""
    if l is TRUE or a is b:
        return a
    if l is FALSE:
        return b
    if a is TRUE_T and b is FALSE_T:
        return boolterm(l)
    if a is FALSE_T and b is TRUE_T:
        return boolterm(negl(l))
    n = negl(l)
    if ser(n) < ser(l):
        l, a, b = n, b, a
    a, b = _cof(a, l, True), _cof(b, l, False)
    if a is b:
        return a
    gs = {x.a[0] for x in (a, b) if x.op == 'ite'}
    if gs:
        g = min(gs, key=ser)
        if ser(g) < ser(l):
            x = ite(l, _cof(a, g, True), _cof(b, g, True))
            y = ite(l, _cof(a, g, False), _cof(b, g, False))
            return x if x is y else mk('ite', g, x, y)
    return mk('ite', l, a, b)


def phi(ts):
    out = []
    for t in ts:
        if t.op == 'phi':
            out.extend(t.a[0])
        else:
            out.append(t)
    out = sorted(set(out), key=lambda t: t.h)
    if len(out) == 1:
        return out[0]
    return mk('phi', tuple(out))


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('c', 'true', 'false'):
        r = t
    else:
        na = tuple(_subst(x, m, memo) for x in t.a)
        r = t if all(x is y for x, y in zip(na, t.a)) or _same(na, t.a) else rebuild(t.op, na)
    memo[t] = r
    return r


def _same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_same(p, q) for p, q in zip(x, y))
    if isinstance(x, T) or isinstance(y, T):
        return x is y
    return type(x) is type(y) and x == y


def subterms(t, seen=None):
    """all distinct terms inside t"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            stack.extend(x.a)
    return seen


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return repr(t)
    if depth > 14:
        return '...'
    s = lambda x: show(x, depth + 1)
    o, a = t.op, t.a
    if o == 'c':
        v = a[0]
        return hex(v) if isinstance(v, int) and not isinstance(v, bool) and v > 4096 else repr(v)
    if o == 'L':
        parts = []
        for x, k in a[1]:
            parts.append((s(x) if k == 1 else '-' + s(x) if k == -1 else '%d*%s' % (k, s(x))))
        if a[0]:
            parts.append(str(a[0]) if abs(a[0]) < 1 << 80 else hex(a[0])[:40])
        return '(' + ' + '.join(parts) + ')'
    if o == 'f':
        w = s(a[2])
        return '%s%s%s@%s[%s]' % ('i' if a[3] else 'u', w, 'be' if a[4] == '>' else '', s(a[0]), s(a[1]))
    if o == 'sl':
        return '%s[%s:%s]' % (s(a[0]), s(a[1]), '' if a[2] is None else s(a[2]))
    if o == 'bits':
        return 'bits(%s,%s,%s)' % (s(a[0]), a[1], a[2])
    if o == 'cp':
        return '%s.<%s>' % (s(a[0]), a[1])
    if o == 'self':
        return 'self:' + a[0]
    if o == 'at':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'le':
        return '%s <= 0' % s(a[0])
    if o == 'eq0':
        return '%s == 0' % s(a[0])
    if o == 'ne0':
        return '%s != 0' % s(a[0])
    if o == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if o == 'ne':
        return '%s != %s' % (s(a[0]), s(a[1]))
    if o == 'lv':
        return '$%s' % a[1]
    if o == 'p':
        return str(a[1])
    if o == 'ntup':
        return '%s(%s)' % (a[0], ', '.join('%s=%s' % (k, s(v)) for k, v in a[1]))
    if o == 'ite':
        return '(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if o in ('m', 'ext', 'call', 'new'):
        return '%s%s' % ('.' if o == 'm' else '', a[0]) + '(' + ', '.join(s(x) for x in a[1:]) + ')'
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))
