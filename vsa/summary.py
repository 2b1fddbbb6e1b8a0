"""Guarded-event summaries: what a function returns, yields, raises and stores, and when.

A summary lists cases  (kind, key, condition):  `key` is the value produced,
`condition` the conjunction of branch literals on the way there.  Loop variables
are named by how they start and how they step, not by their spelling, and
everything else is already in the normal form of the term domain.  Two functions
with the same summary behave the same as far as the domain sees.
"""
import ast
import hashlib
from .terms import *
from .facts import Facts, EMPTY, _consts
from .interp import Interp, State, Frame

EFFECT_EXT = {'print', 'exit', 'sys.exit', 'setattr', 'os.remove', 'os.unlink', 'os.rename', 'os.truncate', 'os.write', 'os.mkdir', 'os.makedirs'}
EFFECT_METHODS = {'write', 'writerow', 'writerows', 'writelines', 'truncate', 'close', 'flush'}
WANT = {'yield', 'setattr', 'setitem', 'delitem', 'setslice', 'mutate', 'ext', 'method', 'open', 'loop', 'callrepo', 'emit', 'read'}


class Case(object):
    __slots__ = ('kind', 'key', 'cond', 'facts', 'approx', 'where')

    def __init__(self, kind, key, cond, facts, approx, where):
        self.kind, self.key, self.cond, self.facts, self.approx, self.where = kind, key, cond, facts, approx, where

    def __repr__(self):
        return '%s %s WHEN %s%s' % (self.kind, show(self.key), ' & '.join(show(l) for l in self.cond) or 'always', ' (approx)' if self.approx else '')


class Config(object):
    """what the reference knows: functions with their parameters, classes, attributes, and which calls are unfolded"""

    def __init__(self, params, classes, attrs, inline, names=(), acc=()):
        self.params = {k: tuple(v) for k, v in params.items()}
        self.base = frozenset(self.params)
        self.classes = frozenset(classes)
        self.attrs = frozenset(attrs)
        self.inline = frozenset(inline)
        self.acc = frozenset(acc)           # functions with accumulator lists
        self.names = frozenset(names)       # global and enclosing-function variables

    @classmethod
    def of(cls, prog):
        from .interp import default_inline, growers
        return cls({q: f.params + f.kwonly for q, f in prog.funcs.items()}, list(prog.classes), prog.attr_names(),
                   [q for q, f in prog.funcs.items() if default_inline(f)], var_names(prog), [q for q, f in prog.funcs.items() if growers(f, 10)])

    def to_json(self):
        return {'params': {k: list(v) for k, v in sorted(self.params.items())}, 'classes': sorted(self.classes), 'attrs': sorted(self.attrs), 'inline': sorted(self.inline), 'names': sorted(self.names), 'acc': sorted(self.acc)}

    @classmethod
    def from_json(cls, d):
        return cls(d['params'], d['classes'], d['attrs'], d['inline'], d['names'], d['acc'])


def var_names(prog):
    out = set()
    for m in prog.modules.values():
        out |= {'%s.%s' % (m.name, x) for x in list(m.assigns) + list(m.mutated_globals)}
    for f in prog.funcs.values():
        if f.nested or getattr(f, 'is_module', False):
            out |= {'%s.%s' % (f.mod.name, x) for x in set(f.locals) | set(f.params) | set(f.kwonly)}
        out |= {'%s.%s' % (f.mod.name, x) for x in f.globals}
    return out


def units_of(prog, cfg):
    """functions that get a summary of their own"""
    return [q for q, f in prog.funcs.items() if f.parent is None or q not in cfg.inline]


class Summary(object):
    def __init__(self, qual):
        self.qual = qual
        self.cases = []
        self.vocab = set()
        self.stats = {}


def has_top(t):
    return any(x.op in ('top', 'undef') for x in subterms(t))


class Canon(object):
    """names loop variables by their initial values and steps"""

    def __init__(self, I, cfg):
        self.I = I
        self.cfg = cfg
        self.counters = set()
        self.indexed = set()
        self.color = {}
        self.lvs = set()
        self.alts = {}

    def prepare(self, roots):
        todo = list(roots)
        seen = set()
        lvs = self.lvs
        while todo:
            t = todo.pop()
            for x in subterms(t, seen):
                pass
            new = {x for x in seen if x.op in ('lv', 'rg')} - lvs
            for v in new:
                lvs.add(v)
                for a in self.raw_alts(v):
                    todo.append(a)
        for v in lvs:
            self.color[v] = 'lv'
            al = [a for a in self.raw_alts(v) if a is not v]
            if set(al) == {ZERO, add(v, C(1))}:
                self.counters.add(v)
        # a counter that indexes a sequence: the element of that iteration
        for x in seen:
            if x.op == 'idx' and x.a[1] in self.counters:
                self.indexed.add((x.a[0], x.a[1]))
        # a variable that moves by a constant: its start plus so many steps
        self.affine = {}
        for v in lvs:
            al = self.raw_alts(v)
            if len(al) != 2 or v.a[0] not in self.I.loopdepth:
                continue
            for a, b in (al, al[::-1]):
                c = cint(sub(b, v)) if is_num(b) else None
                if c and v not in subterms(a) and (is_num(a) or a.op in ('p', 'cp', 'at', 'call', 'idx', 'el')):
                    self.affine[v] = (a, c)
        ks = {v: mk('LV', 'k%d' % self.I.loopdepth[v.a[0]]) for v in self.affine}
        live = [v for v in lvs if v not in self.affine]

        def mapping(m):
            # starts may mention other loop variables
            todo = dict(self.affine)
            for _ in range(6):
                for v, (a, c) in list(todo.items()):
                    if not any(x in todo for x in subterms(a)):
                        m[v] = add(self.sub(a, m, {}), mul(C(c), ks[v]))
                        del todo[v]
            for v in todo:
                m[v] = ks[v]
            return m
        # elements that are computed with, of something that is not computed with: bytes at the position of the iteration
        self.bytesel = {}
        for x in seen:
            if x.op in ('L', 'bits', 'and', 'or', 'xor', 'shl', 'mul', 'mod', 'fd'):
                ys = [y for y, _k in x.a[1]] if x.op == 'L' else [y for a in x.a for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, T)]
                for y in ys:
                    if y.op == 'el' and y.a[1] in self.I.loopdepth and stretch(y.a[0]):
                        self.bytesel[y.a[1]] = mk('LV', 'k%d' % self.I.loopdepth[y.a[1]])
        tag = {}

        def refine():
            m = mapping({v: mk('LV', self.color[v]) for v in live})
            memo = {}
            nc = {}
            for v in live:
                al = set()
                for a in self.raw_alts(v):
                    if a is v:
                        continue
                    al.add(self.text(self.sub(a, m, memo)))
                nc[v] = hashlib.sha1(('|'.join(sorted(al)) + tag.get(v, '')).encode()).hexdigest()[:10]
            self.color = nc
        for rnd in range(4):
            refine()
        # variables that go through the same values, told apart by when they do
        for rnd in range(2):
            groups = {}
            for v in live:
                groups.setdefault(self.color[v], []).append(v)
            m = mapping({v: mk('LV', self.color[v]) for v in live})
            again = False
            rel = set()
            for x in seen:
                if x.op in ('eq', 'ne', 'le', 'eq0', 'ne0'):
                    here = [y for y in subterms(x) if y.op == 'lv' and y in self.color]
                    for y in here:
                        if sum(self.color[z] == self.color[y] for z in here) > 1:
                            rel.add(y)
            for _ in range(3):
                rel |= {y for v in list(rel) for a in self.raw_alts(v) for y in subterms(a) if y.op == 'lv'}
            for c, vs in groups.items():
                if len(vs) < 2:
                    continue
                when = self.I.lv_when
                if not all(v in when for v in vs):
                    # compared with one another
                    if len(vs) > 4 or not set(vs) <= rel:
                        continue
                    when = {v: self.I.lv_when.get(v) or self.I.lv_when2.get(v) for v in vs}
                    if not all(when.values()):
                        continue
                memo = {}
                ts = ['&'.join(sorted(self.text(self.sub(l, m, memo)) for l in when[v])) for v in vs]
                if len(set(ts)) == len(vs):
                    for v, t in zip(vs, ts):
                        tag[v] = '|' + t
                    again = True
            if not again:
                break
            for k in range(3):
                refine()
        for v in self.affine:
            self.color[v] = ks[v].a[0]
        self.map = mapping({v: mk('LV', self.color[v]) for v in live})
        self.memo = {}
        self.defs = {}
        for v in live:
            d = self.defs.setdefault(self.color[v], set())
            for a in self.raw_alts(v):
                if a is not v:
                    d.add(self.sub(a, self.map, self.memo))

    def raw_alts(self, v):
        if v.op == 'rg':
            it = v.a[1]
            if it.op == 'range':
                return [it.a[0], add(v, it.a[2])]
            start = it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get('start', ZERO)
            return [start, add(v, C(1))]
        r = self.alts.get(v)
        if r is None:
            r = []
            for a in self.I.lv_alts.get(v, ()):
                for x in leaves(a):
                    if x.op != 'undef' and x not in r:
                        r.append(x)
            self.alts[v] = r
        return r

    def text(self, t):
        return ser(t)

    def term(self, t):
        return self.sub(t, self.map, self.memo)

    def bound(self, l):
        """i < len(x), or its negation, where x[i] is the element of the iteration"""
        for x, i in self.indexed:
            b = le0(add(sub(i, length(x)), C(1)))
            if l is b or l is negl(b):
                return True
        return False

    def sub(self, t, m, memo):
        if isinstance(t, tuple):
            return tuple(self.sub(x, m, memo) for x in t)
        if not isinstance(t, T):
            return t
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        o = t.op
        if o in ('c', 'true', 'false', 'lambda'):
            r = t
        elif o in ('top', 'undef'):
            r = mk('top', 0, '')
        elif o in ('new', 'cls', 'self') and self.cfg is not None and t.a[0] not in self.cfg.classes:
            r = mk('top', 0, '')
        elif o == 'at' and self.cfg is not None and t.a[1] not in self.cfg.attrs:
            r = mk('top', 0, '')
        elif o == 'g' and self.cfg is not None and t.a[0] + '.' + t.a[1] not in self.cfg.names:
            r = mk('top', 0, '')
        elif o == 'el' and t.a[1] in self.bytesel and stretch(t.a[0]):
            b, off = self.sub(t.a[0], m, memo), self.bytesel[t.a[1]]
            if b.op == 'sl' and nonneg_const(b.a[1]):
                b, off = b.a[0], add(b.a[1], off)
            r = rebuild('f', (b, off, C(1), False, '<'))
        elif o == 'el':
            r = mk('el', self.sub(t.a[0], m, memo), 0)
        elif o == 'idx' and t.a[1] in self.counters:
            r = mk('el', self.sub(t.a[0], m, memo), 0)
        elif o == 'opened':
            r = mk('opened', 0, self.sub(t.a[1], m, memo), self.sub(t.a[2], m, memo))
        else:
            na = tuple(self.sub(x, m, memo) for x in t.a)
            r = rebuild(o, na)
        memo[t] = r
        return r


def stretch(t):
    """bytes, to all appearances"""
    return all(z.op in ('sl', 'p', 'at', 'cp', 'f', 'file', 'cat') and not (z.op == 'sl' and z.a[2] is not None) for z in leaves(t))


def leaves(t, limit=16):
    """the values a conditional value can take"""
    todo, out = [t], []
    while todo:
        x = todo.pop()
        g = None
        if len(out) + len(todo) < limit:
            g = next((y for y in subterms(x) if y.op == 'ite'), None)
        if g is None:
            if x not in out:
                out.append(x)
        else:
            todo.append(subst(x, {g: g.a[1]}))
            todo.append(subst(x, {g: g.a[2]}))
    return out


def flatten(key, s, limit=24):
    """cases of a conditional value, or conditions on one, as separate paths; all or nothing"""
    todo, out = [(key, s)], []
    while todo:
        k, q = todo.pop()
        g = gate_in(k)
        if g is None and k.op == 'b':
            g = k.a[0]
            if gate_in(g) is not None:
                g = gate_in(g)
        if g is None:
            for l in q.trail:
                g = gate_in(l)
                if g is not None:
                    break
        if g is None:
            out.append((k, q))
            continue
        if len(out) + len(todo) + 2 > limit:
            return [(key, s)]
        for l in (g, negl(g)):
            r = q.assume(l)
            if r is None:
                continue
            m = {}
            for t in (k,) + r.trail:
                for x in subterms(t):
                    if x.op == 'ite' and x.a[0] in (g, negl(g)):
                        m[x] = x.a[1] if x.a[0] is l else x.a[2]
            k2 = k
            for _ in range(4):
                n = subst(k2, m) if m else k2
                if n is k2:
                    break
                k2 = n
            if k2.op == 'b':
                k2 = TRUE_T if r.facts.entails(k2.a[0]) else FALSE_T if r.facts.refutes(k2.a[0]) else k2
            tr = []
            f = r.facts
            for t in r.trail:
                n = subst(t, m) if m else t
                if n is FALSE:
                    f = None
                    break
                if n is TRUE:
                    continue
                if n is not t:
                    f = f.add(n)
                    if f is None:
                        break
                tr.append(n)
            if f is None:
                continue
            r.facts = f
            r.trail = tuple(tr)
            todo.append((k2, r))
    return out


def root_of(t):
    while t.op in ('at', 'idx', 'sl', 'app', 'mut', 'el', 'lv'):
        if t.op == 'lv':
            return t
        t = t.a[0]
    return t


def impure(prog, qual):
    from .raises import all_mods
    r = all_mods(prog).get(qual)
    return r is not None and bool(r[0])


def known_consts(facts):
    """terms the facts pin to a constant"""
    m = {}
    for l in facts.lits:
        if l.op == 'eq':
            a, b = l.a
            if isc(b) and not isc(a):
                m[a] = b
            elif isc(a) and not isc(b):
                m[b] = a
    for k in facts.ub:
        if k.op == 'L':
            continue
        lo, hi = facts.bound(k)
        if lo is not None and lo == hi:
            m[k] = C(lo)
    # equations between several terms of which all but one are known
    for _ in range(3):
        hit = False
        for k, u in facts.ub.items():
            if k.op != 'L':
                continue
            n, ats = lin(k)
            if len(ats) < 2:
                continue
            w = facts.ub.get(mklin(0, {a: -c for a, c in ats.items()}))
            if w is None or w != -u:
                continue
            free = [a for a in ats if a not in m]
            if len(free) != 1 or abs(ats[free[0]]) != 1:
                continue
            rest = sum(c * m[a].a[0] for a, c in ats.items() if a is not free[0] and isinstance(m[a].a[0], int))
            m[free[0]] = C((u - rest) * ats[free[0]])
            hit = True
        if not hit:
            break
    return m


FIRST = ('raise', 'yield', 'effect', 'set', 'read')


def first_rounds(I, raw, inside):
    """what happens in the first iteration of the loops around it, told without loop variables"""
    def lvs(t):
        return {x for x in subterms(t) if x.op in ('lv', 'rg')}

    def start(v):
        if v.op == 'rg':
            it = v.a[1]
            if it.op == 'range':
                return it.a[0]
            return it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get('start', ZERO)
        r = I.lv_init.get(v, ())
        return next(iter(r)) if len(r) == 1 else None

    def begin(t):
        for _ in range(5):
            vs = lvs(t)
            if not vs:
                return t
            m = {v: start(v) for v in vs}
            if any(x is None for x in m.values()):
                return None
            t = subst(t, m)
        return None
    some = set()
    for i, (kind, key, s, w) in enumerate(raw):
        if i in inside and (kind == 'read' or any(lvs(t) for t in (key,) + tuple(s.trail))):
            some.add(kind)
    more = []
    for i, (kind, key, s, w) in enumerate(raw):
        if kind not in some or i not in inside:
            continue
        own = inside[i]
        if any(v.a[0] not in own for t in (key,) + tuple(s.trail) for v in lvs(t)):
            more.append(('skip ' + kind, key, s, w))
            continue
        k2 = begin(key)
        tr = [begin(l) for l in s.trail]
        if k2 is None or any(l is None for l in tr):
            more.append(('skip ' + kind, key, s, w))
            continue
        if FALSE in tr:
            continue
        f = EMPTY
        fl = [begin(l) for l in s.facts.literals()]
        for l in tr + [l for l in fl if l is not None]:
            if l is TRUE:
                continue
            g = f.add(l) if l is not FALSE else None
            if g is None:
                f = None
                break
            f = g
        if f is None:
            continue
        s2 = s.copy()
        s2.facts = f
        s2.trail = type(s.trail)(l for l in tr if l is not TRUE)
        more.append((kind + '1', k2, s2, w))
    raw[:] = [r for r in raw if r[0] != 'read'] + more


def summarize(prog, f, cfg, maxstates=80, cls=None):
    """what f does; cls: the class it is looked up on, when that is not the one that defines it"""
    I = Interp(prog, cfg.base, maxstates=maxstates)
    I.acc_funcs = cfg.acc
    I.inline_list = cfg.inline
    I.params = cfg.params
    if not hasattr(prog, '_classcache'):
        prog._classcache = {}
    I.classcache = prog._classcache
    I.want = WANT
    st = State()
    args = []
    S = None
    if f.cls is not None and not f.static and f.params and f.params[0] in ('self', 'cls'):
        S = mk('self', (cls or f.cls).qual)
        args = [S]
        if f.name != '__init__':
            attrs, inv, _e, _t = I.class_summary(cls or f.cls)
            for l in inv:
                st.facts = st.facts.add(l) or st.facts
    outer = []
    g = f.parent
    while g is not None:
        outer.insert(0, g)
        g = g.parent
    for g in outer:
        I.nfid += 1
        I.frames.append(Frame(I.nfid, g, I.frames[-1] if I.frames else None, g.mod))
        for x in set(g.locals) | set(g.params) | set(g.kwonly):
            if x in g.nested:
                continue
            v = mk('g', g.mod.name, x)
            if g.cls is not None and g.params and x == g.params[0] == 'self':
                v = mk('self', g.cls.qual)
                for l in I.class_summary(g.cls)[1]:
                    st.facts = st.facts.add(l) or st.facts
            st.env[(I.nfid, x)] = v
    names, extra = I.pnames(f)
    args += [mk('p', '', x) for x in names[len(args):]]
    for x in extra:
        d = I.eval_const_expr(f.mod, f.defaults[x]) if x in f.defaults else None
        args.append(d if d is not None else I.top('parameter'))
    kws = {k: mk('p', '', k) for k in f.kwonly}
    bind = dict(zip(f.params, args))
    bind.update(kws)
    if f.vararg:
        bind[f.vararg] = mk('p', '', '*' + f.vararg)
    if f.kwarg:
        bind[f.kwarg] = mk('p', '', '**' + f.kwarg)
    res = I.run_func(f, args, kws, st, bind=bind)
    raw = []     # kind, key, state, where

    inside = {}

    def put(kind, key, s, node, loops=None):
        if loops is not None and kind in FIRST:
            inside[len(raw)] = {x[0] for x in loops}
        raw.append((kind, key, s, getattr(node, 'lineno', 0)))

    for s, t in res:
        if not f.is_gen:
            put('ret', t, s, f.node)
        if S is not None:
            for k, v in s.heap.items():
                if k[0] is S and k[1] != '$pos' and not (v.op == 'at' and v.a[0] is S and v.a[1] == k[1]):
                    if f.node.name == '__init__' and isc(v) and v is I.class_default(f.cls, k[1]):
                        continue    # the same as not storing it
                    put('post', mk('st', k[1], v), s, f.node)
    for s, exc, node, fn in I.sinks[0]:
        put('raise', C(exc), s, node, I.raise_loops.get(id(s), (None, None))[1])
        if S is not None and f.node.name in ('seek', 'read', 'tell', 'close') and isinstance(node, ast.Raise):
            # what a refused request leaves behind
            for k, v in s.heap.items():
                if k[0] is S and k[1] != '$pos' and v.op != 'at' and not has_top(v):
                    put('post', mk('st', '%s after %s' % (k[1], exc), v), s, node)
    for ev in I.events:
        k = ev.kind
        if k == 'yield':
            put('yield', ev.value, ev.st, ev.node, ev.loops)
        elif k == 'setattr':
            if ev.obj is not S:
                put('set', mk('st2', ev.obj, ev.attr, ev.value), ev.st, ev.node, ev.loops)
        elif k == 'setitem':
            put('set', mk('sti', ev.base, ev.idx, ev.value), ev.st, ev.node, ev.loops)
        elif k == 'delitem':
            if ev.idx is not None:
                put('set', mk('sti', ev.base, ev.idx, C('deleted')), ev.st, ev.node, ev.loops)
        elif k == 'setslice':
            put('set', mk('sts', ev.base, ev.lo, ev.hi, ev.value), ev.st, ev.node, ev.loops)
        elif k == 'mutate':
            r = root_of(ev.obj)
            if r.op in ('p', 'g', 'cp'):
                put('effect', mk('m', ev.name, ev.obj, ev.args), ev.st, ev.node, ev.loops)
        elif k == 'ext':
            if ev.name in EFFECT_EXT:
                put('effect', ev.term, ev.st, ev.node, ev.loops)
        elif k == 'method':
            if ev.name in EFFECT_METHODS:
                put('effect', ev.term, ev.st, ev.node, ev.loops)
        elif k == 'read':
            put('read', mk('rd', ev.obj, ev.pos), ev.st, ev.node, ev.loops)
        elif k == 'open':
            put('effect', mk('ext', 'open', ev.args, tuple(sorted(ev.kws.items()))), ev.st, ev.node, ev.loops)
        elif k == 'emit':
            put('effect', mk('emit', ev.value), ev.st, ev.node, ev.loops)
        elif k == 'callrepo':
            if impure(prog, ev.fn_qual):
                put('effect', ev.term, ev.st, ev.node, ev.loops)
    first_rounds(I, raw, inside)
    loops = [ev for ev in I.events if ev.kind == 'loop']
    # expand booleans and phis
    exp = []
    for kind, key, s, w in raw:
        if kind in ('ret', 'yield', 'yield1') and key.op == 'b':
            for l, v in ((key.a[0], TRUE_T), (negl(key.a[0]), FALSE_T)):
                q = s.assume(l)
                if q is not None:
                    exp.append((kind, v, q, w, False))
        elif key.op == 'phi':
            for x in key.a[0]:
                exp.append((kind, x, s, w, True))
        elif kind == 'post' and key.a[1].op == 'phi':
            for x in key.a[1].a[0]:
                exp.append((kind, mk('st', key.a[0], x), s, w, True))
        else:
            exp.append((kind, key, s, w, False))
    can = Canon(I, cfg)
    roots = [t for _k, t, _s, _w, _a in exp] + [l for _k, _t, s, _w, _a in exp for l in s.trail]
    can.prepare(roots)
    used = set(can.map)
    more = [l for ev in loops for b in ev.back for l in b.trail]
    can = Canon(I, cfg)
    can.prepare(roots + more)
    out = Summary(f.qual)
    out.lvs = sorted(c for v, c in can.color.items() if v not in can.affine)
    out.lvdefs = {c: sorted(d, key=ser) for c, d in can.defs.items()}
    out.defs = {}
    seen = {}

    def emit(kind, key, s, w, ap):
        kc = known_consts(s.facts)
        key2 = key
        if kc and kind != 'step':
            key2 = subst(key, {k: v for k, v in kc.items() if k is not key or True}) if not (kind == 'post') else key
        ck = can.term(key2)
        cond = tuple(can.term(l) for l in s.trail if not can.bound(l))
        approx = ap or s.approx or any(has_top(l) for l in cond)
        cond = tuple(l for l in dict.fromkeys(cond) if not has_top(l) and l is not TRUE)
        sig = (kind, ck, frozenset(cond))
        if sig in seen:
            seen[sig].approx = seen[sig].approx and approx
            return
        fl = []
        for l in s.facts.literals():
            c = can.term(l)
            if not has_top(c):
                fl.append(c)
        if can.bytesel:
            for x in {y for t in (key,) + tuple(s.trail) for y in subterms(t) if y in can.bytesel}:
                b, i = can.sub(x.a[0], can.map, can.memo), can.bytesel[x]
                fl.append(le0(add(sub(i, length(b)), C(1))))
                if b.op == 'sl' and b.a[2] is not None and nonneg_const(b.a[1]) and not (cint(b.a[2]) or 0) < 0:
                    fl.append(le0(add(sub(i, sub(b.a[2], b.a[1])), C(1))))
        facts = EMPTY
        for l in list(cond) + fl:
            g = facts.add(l)
            if g is None:
                approx = True
                continue
            facts = g
        c = Case(kind, ck, cond, facts, approx, w)
        seen[sig] = c
        out.cases.append(c)

    def flat(kind, key, s, w, ap):
        for k2, s2 in flatten(key, s):
            if kind == 'step' and k2.a[0] is k2.a[1]:
                continue
            emit(kind, k2, s2, w, ap)

    for kind, key, s, w, ap in exp:
        flat(kind, key, s, w, ap)
    for ev in loops:
        for k, (old, lv) in ev.lvs.items():
            if lv not in used or lv in can.affine:
                continue
            for b in ev.back:
                v = b.heap.get(k) if isinstance(k[0], T) else b.env.get(k)
                if v is None or v is lv:
                    continue
                flat('step', mk('step', lv, v), b, getattr(ev.node, 'lineno', 0), False)
    if S is not None and f.name != '__init__':
        ad = prog.__dict__.get('_attrdefs', {}).get((cls or f.cls).qual, {})
        seen2 = set()
        for c in out.cases:
            for t in (c.key,) + c.cond:
                subterms(t, seen2)
        for x in sorted((x for x in seen2 if x.op == 'at' and x.a[0] is S and x.a[1] in ad), key=ser):
            out.defs[x] = [(tuple(can.term(l) for l in tr), can.term(v)) for tr, v in ad[x.a[1]]]
    for c in out.cases:
        for x in subterms(c.key):
            out.vocab.add(x.op if x.op not in ('m', 'ext', 'call', 'new', 'ntup', 'op') else (x.op, x.a[0]))
    out.stats = {'events': len(I.events), 'merges': I.merges, 'cases': len(out.cases), 'approx': sum(c.approx for c in out.cases), 'tops': sum(has_top(c.key) for c in out.cases), 'inlined': sorted(I.analysed)}
    return out


# ---------------------------------------------------------------- comparison

class Budget(Exception):
    pass


def pseudo(l):
    return l.op in ('t', 'nt') and l.a[0].op in ('raised', 'caught')


def ent(facts, l):
    """entailment where an exception that is not mentioned did not happen"""
    if pseudo(l):
        return (l in facts.lits) if l.op == 't' else (negl(l) not in facts.lits)
    return facts.entails(l)


def ref(facts, l):
    if pseudo(l):
        return (negl(l) not in facts.lits and l not in facts.lits) if l.op == 't' else (negl(l) in facts.lits)
    return facts.refutes(l)


def sides(facts, g):
    """the two ways a gate can go: [(facts, literal)]"""
    if pseudo(g):
        p = g if g.op == 't' else negl(g)
        out = [(facts, negl(p))] if p not in facts.lits else []
        f = facts.add(p)
        return out + ([(f, p)] if f is not None else [])
    out = []
    gated = [l for l in facts.literals() if not pseudo(l) and gate_in(l) is not None]
    for l in (g, negl(g)):
        f = facts.add(l)
        for m in gated:
            if f is None:
                break
            r = reduce_ite(m, f)
            if r is not m:
                f = None if r is FALSE else f if r is TRUE else f.add(r)
        if f is not None:
            out.append((f, l))
    return out


def gate_in(l):
    for x in subterms(l):
        if x.op == 'ite':
            return x.a[0]
    return None


def covered(facts, conds, budget):
    """do the facts imply the disjunction of the conjunctions?"""
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    rest = []
    gate = None
    for c in conds:
        open_ = []
        dead = False
        for l in c:
            if ent(facts, l):
                continue
            if ref(facts, l):
                dead = True
                break
            if gate_in(l) is not None:
                l = reduce_ite(l, facts)
                if l is TRUE or ent(facts, l):
                    continue
                if l is FALSE or ref(facts, l):
                    dead = True
                    break
                g = gate_in(l)
                if g is not None and gate is None:
                    gate = g
            open_.append(l)
        if dead:
            continue
        if not open_:
            return True
        rest.append(open_)
    if not rest:
        return False
    if gate is not None:
        return all(covered(f, rest, budget) for f, _l in sides(facts, gate))
    rest.sort(key=len)
    c = rest[0]
    others = rest[1:]
    f = facts
    for l in c:
        g = f.add(negl(l))
        if g is not None:
            if not others:
                return False
            if not covered(g, others, budget):
                return False
        f = f.add(l)
        if f is None:
            return True
    return True


def index_cases(s):
    d = {}
    for c in s.cases:
        d.setdefault(c.kind, {}).setdefault(c.key, []).append(c)
    return d


def loose_lvs(ref, cur):
    """loops that were rewritten into a different set of loop variables cannot be matched"""
    used = [{x.a[0] for c in s.cases for t in (c.key,) + c.cond for x in subterms(t) if x.op == 'LV' and x.a[0][0] != 'k'} for s in (ref, cur)]
    a, b = used[0] - used[1], used[1] - used[0]
    if a and b and any(has_top(t) for x in b for t in cur.lvdefs.get(x, ())):
        return a | b # what these loops compute is not known
    if a and not b:
        # what was seen before and is now not remembered at all
        a -= {x for x in a if remembered(ref, x)}
        return a
    return a | b if len(a) != len(b) else set()


def remembered(s, x):
    """the loop variable is a collection which is only asked for its members"""
    X = mk('LV', x)
    asked = False
    for c in s.cases:
        if X in subterms(c.key) and not (c.kind == 'step' and c.key.a[0] is X):
            return False
        for l in c.cond:
            if X not in subterms(l):
                continue
            if l.op in ('in', 'nin') and l.a[1] is X and X not in subterms(l.a[0]):
                asked = True
            else:
                return False
    return asked


def align(ref, cur):
    """cur with its loop variables expressed by those of ref, where that can be done"""
    from . import valuate
    ca, cb = list(ref.lvs), list(cur.lvs)
    for x in list(cb):
        if x in ca:
            ca.remove(x)
            cb.remove(x)
    ca, cb = list(dict.fromkeys(ca)), list(dict.fromkeys(cb))
    if not ca or not cb or len(ca) > 12 or len(cb) > 12:
        return cur
    m = {}
    ty = None
    hit = True
    while hit and ca and cb:
        hit = False
        for y in list(cb):
            dy = cur.lvdefs.get(y, ())
            Y = mk('LV', y)
            for x in list(ca):
                dx = ref.lvdefs.get(x, ())
                X = mk('LV', x)
                if not dx or not dy:
                    continue
                guess = [X] + [a for a in dx if X in subterms(a) and a is not X]
                bx, by = [a for a in dx if not any(z.op == 'LV' for z in subterms(a))], [subst(a, m) for a in dy if not any(z.op == 'LV' for z in subterms(a))]
                if len(bx) == len(by) == 1 and all(is_num(z) or z.op in ('p', 'at', 'cp', 'call') for z in bx + by) and all(is_num(a) for a in dx + dy if a not in bx + by):
                    # the one counts from elsewhere, or down
                    guess += [add(X, sub(by[0], bx[0])), sub(add(by[0], bx[0]), X)]
                for g in guess:
                    if ty is None:
                        ty = valuate.Types([t for d in (ref.lvdefs, cur.lvdefs) for ts in d.values() for t in ts])
                    want = [subst(g, {X: a}) for a in dx]
                    have = [subst(subst(a, m), {Y: g}) for a in dy]
                    if valuate.same_terms(want, have, ty):
                        m = {k: subst(v, {Y: g}) for k, v in m.items()}
                        m[Y] = g
                        ca.remove(x)
                        cb.remove(y)
                        hit = True
                        break
                if y not in cb:
                    break
    if ca and cb and len(ca) == len(cb) <= 6:
        if ty is None:
            ty = valuate.Types([t for d in (ref.lvdefs, cur.lvdefs) for ts in d.values() for t in ts])
        g = together(ca, cb, ref.lvdefs, {k: [subst(a, m) for a in v] for k, v in cur.lvdefs.items()}, ty)
        if g:
            m = {k: subst(v, g) for k, v in m.items()}
            m.update(g)
    if not m:
        return cur
    out = Summary(cur.qual)
    out.__dict__.update(cur.__dict__)
    out.cases = []
    for c in cur.cases:
        key = subst(c.key, m)
        cond = tuple(l for l in (subst(l, m) for l in c.cond) if l is not TRUE)
        f = EMPTY
        ap = c.approx
        for l in cond + tuple(subst(l, m) for l in c.facts.literals()):
            h = f.add(l)
            if h is None:
                ap = True
                continue
            f = h
        out.cases.append(Case(c.kind, key, cond, f, ap, c.where))
    names = {k.a[0]: [t.a[0] for t in subterms(v) if t.op == 'LV'] for k, v in m.items()}
    out.lvs = [z for x in cur.lvs for z in names.get(x, [x])]
    out.lvdefs = {k: [subst(t, m) for t in v] for k, v in cur.lvdefs.items() if k not in names}
    for k in names:
        for z in names[k]:
            if z in ref.lvdefs:
                out.lvdefs[z] = ref.lvdefs[z]
    return out


def together(ca, cb, da, db, ty):
    """a renaming of the loop variables cb into ca under which they start and go on in the same way"""
    from itertools import permutations, product
    from . import valuate
    la, lb = [mk('LV', x) for x in ca], [mk('LV', y) for y in cb]
    SA, SB = set(la), set(lb)

    def split(d, names, S):
        out = {}
        for x in names:
            base = [a for a in d.get(x, ()) if not S & set(subterms(a))]
            step = [a for a in d.get(x, ()) if S & set(subterms(a))]
            if not base:
                return None
            out[x] = (base, step)
        return out
    A, B = split(da, ca, SA), split(db, cb, SB)
    if A is None or B is None:
        return None
    memo = {}

    def starts(x, y):
        if (x, y) not in memo:
            set_anew = all(a.op == 'LV' for a in A[x][1] + B[y][1])
            memo[x, y] = bool(A[x][1]) == bool(B[y][1]) and valuate.same_terms(A[x][0], B[y][0], ty, sized=False, subset=set_anew)
        return memo[x, y]
    n = 0
    for p in permutations(ca):
        if not all(starts(x, y) for x, y in zip(p, cb)):
            continue
        n += 1
        if n > 24:
            break
        ren = {mk('LV', y): mk('LV', x) for x, y in zip(p, cb)}
        if all(not A[x][1] or valuate.same_terms(A[x][1], [subst(a, ren) for a in B[y][1]], ty, sized=False) for x, y in zip(p, cb)):
            return ren
        # the first two rounds
        def begin(D, names):
            for bs in product(*[D[x][0] for x in names]):
                yield {mk('LV', x): v for x, v in zip(names, bs)}
        many = [len(list(begin(D, names))) if sum(len(v[0]) for v in D.values()) < 14 else 999 for D, names in ((A, ca), (B, cb))]
        if max(many) > 64:
            continue
        ok = True
        sa, sb = list(begin(A, ca)), list(begin(B, cb))
        for rnd in range(2):
            k = {mk('LV', 'k%d' % i): C(rnd) for i in range(4)}
            na = {x: list(dict.fromkeys(subst(subst(a, s), k) for s in sa for a in A[x][1])) for x in ca}
            nb = {y: list(dict.fromkeys(subst(subst(a, s), k) for s in sb for a in B[y][1])) for y in cb}
            if not all(valuate.same_terms(na[x], nb[y], ty, sized=False, subset=True) for x, y in zip(p, cb)):
                ok = False
                break
            if any(len(v) > 1 for v in na.values()) or any(len(v) > 1 for v in nb.values()):
                break
            sa = [{mk('LV', x): na[x][0] for x in ca}]
            sb = [{mk('LV', y): nb[y][0] for y in cb}]
        if ok:
            return ren
    return None


def compare(ref, cur, kinds=None, budget0=4000):
    """differences between two summaries: [(direction, Case, note)] and the number of undecided cases"""
    cur = align(ref, cur)
    A, B = index_cases(ref), index_cases(cur)
    loose = loose_lvs(ref, cur)

    def unmatched(c):
        return bool(loose) and any(x.op == 'LV' and x.a[0] in loose for t in (c.key,) + c.cond for x in subterms(t))
    diffs = []
    undecided = 0
    checked = 0
    for direction, src, dst, srcsum, dstsum in (('new', B, A, cur, ref), ('lost', A, B, ref, cur)):
        for kind in src:
            if kind.startswith('skip ') or kinds is not None and kind.rstrip('1') not in kinds:
                continue
            D = dst.get(kind, {})
            if kind[-1] == '1' and hidden(src, dst, 'skip ' + kind[:-1]) or kind == 'read1' and direction == 'new':
                continue
            wild = [k for k in D if has_top(k)]
            gone = nothing(direction, kind, dst)
            for key, cases in src[kind].items():
                if has_top(key):
                    undecided += len(cases)
                    continue
                tgt = D.get(key)
                if kind == 'post' and key.a[1].op == 'at' and key.a[1].a[1] == key.a[0] and key.a[1].a[0].op == 'self':
                    continue
                for c in cases:
                    checked += 1
                    conds = [x.cond for x in tgt] if tgt else []
                    if c.approx:
                        # only the value is certain
                        if tgt or wild or compatible(c, D):
                            continue
                        if kind in ('post', 'step') and not same_slot(key, D) or unmatched(c) and not gone:
                            undecided += 1
                            continue
                        diffs.append((direction, c, 'value'))
                        continue
                    b = [budget0]
                    try:
                        if tgt and covered(c.facts, conds, b):
                            continue
                        if matched(c.facts, key, D, b):
                            continue
                    except Budget:
                        undecided += 1
                        continue
                    if kind in ('step',) and not same_slot(key, D) or unmatched(c) and not gone:
                        undecided += 1
                        continue
                    diffs.append((direction, c, 'condition' if tgt else 'value'))
    return diffs, undecided, checked


def hidden(src, dst, kind):
    """something of the kind may happen on the other side in a way that is not told, and did not before"""
    S = src.get(kind, {})
    for k, cs in dst.get(kind, {}).items():
        have = {frozenset(c.cond) for c in S.get(k, ())}
        if any(frozenset(c.cond) not in have for c in cs):
            return True
    return False


def nothing(direction, kind, dst):
    """the other side has lost all its results"""
    if direction != 'lost' or kind not in ('ret', 'yield') or dst.get(kind):
        return False
    return kind == 'ret' and not dst.get('yield') or kind == 'yield' and all(isc(k) for k in dst.get('ret', ()))


def matched(facts, key, D, budget, depth=0):
    """does the other side produce this value under these facts"""
    conds = []
    if key.op == 'step' and key.a[0] is key.a[1]:
        return True
    if key.op == 'st' and key.a[1].op == 'at' and key.a[1].a[1] == key.a[0] and key.a[1].a[0].op == 'self':
        return True
    for k2, cs2 in D.items():
        if k2 is key or (has_top(k2) and may_match(key, k2)) or (not has_top(k2) and equal_under(facts, key, k2)):
            conds += [x.cond for x in cs2]
    if conds and covered(facts, conds, budget):
        return True
    # case split on a conditional value, here or there
    gates = first_gate(key)
    if gates is None:
        for k2 in D:
            if k2.op == key.op or k2.op in ('ite', 'b'):
                gates = diff_gate(key, k2, facts)
                if gates is not None:
                    break
    if gates is None:
        kc = known_consts(facts)
        key2 = subst(key, kc) if kc else key
        conds = []
        for k2, cs2 in D.items():
            k3 = reduce_ite(k2, facts)
            if kc:
                k3 = subst(k3, kc)
            if k3 is key2 or equal_under(facts, k3, key2):
                conds += [x.cond for x in cs2]
        if conds and covered(facts, conds, budget):
            return True
        gates = pin_gate(key, D, facts)
    if gates is None or depth > 12:
        if depth > 12:
            raise Budget()
        return False
    for f, _l in sides(facts, gates):
        budget[0] -= 1
        if budget[0] < 0:
            raise Budget()
        if not matched(f, reduce_ite(key, f), D, budget, depth + 1):
            return False
    return True


def pin_gate(key, D, facts):
    """a test that fixes part of this value to a constant, made on the other side only"""
    inner = None
    for k2, cs2 in D.items():
        if k2.op != key.op or k2 is key:
            continue
        for c in cs2:
            for l in c.cond:
                if l.op in ('le', 'eq0', 'ne0', 'eq', 'ne') and not facts.entails(l) and not facts.refutes(l):
                    ats = [x for x in (lin(l.a[0])[1] if l.op in ('le', 'eq0', 'ne0') else [x for x in l.a if not isc(x)])]
                    if len(ats) != 1:
                        continue
                    if inner is None:
                        inner = set(subterms(key))
                    if ats[0] not in inner:
                        continue
                    for m in (l, negl(l)):
                        f = facts.add(m)
                        if f is not None and ats[0] in known_consts(f):
                            return l
    return None


def first_gate(t):
    best = None
    if t.op == 'b':
        return t.a[0]
    for x in subterms(t):
        if x.op == 'ite' and (best is None or ser(x.a[0]) < ser(best)):
            best = x.a[0]
    return best


def diff_gate(a, b, facts):
    """a condition on which the other value depends, undecided so far"""
    for x in subterms(b):
        if (x.op == 'ite' or (x.op == 'b' and x is b)) and not ent(facts, x.a[0]) and not ref(facts, x.a[0]):
            return x.a[0]
    return None


def reduce_ite(t, facts):
    m = {}
    if t.op == 'b':
        return TRUE_T if ent(facts, t.a[0]) else FALSE_T if ref(facts, t.a[0]) else t
    for x in subterms(t):
        if x.op == 'ite':
            if ent(facts, x.a[0]):
                m[x] = x.a[1]
            elif ref(facts, x.a[0]):
                m[x] = x.a[2]
    for _ in range(6):
        if not m:
            return t
        t2 = subst(t, m)
        if t2 is t:
            return t
        t = t2
        m = {}
        for x in subterms(t):
            if x.op == 'ite':
                if ent(facts, x.a[0]):
                    m[x] = x.a[1]
                elif ref(facts, x.a[0]):
                    m[x] = x.a[2]
    return t


def same_slot(key, D):
    """does the other side say anything about the same attribute or loop variable"""
    return any(k.op == key.op and k.a[0] is key.a[0] for k in D)


def compatible(c, D):
    return any(may_match(c.key, k) for k in D if has_top(k)) or any(equal_under(c.facts, c.key, k) for k in D)


def may_match(a, b):
    """structural match where an unknown subterm matches anything"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(may_match(x, y) for x, y in zip(a, b))
    if not isinstance(a, T) or not isinstance(b, T):
        return a == b
    if a.op == 'top' or b.op == 'top':
        return True
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and has_top(x):
            return may_match(x.a[1], y) or may_match(x.a[2], y)
    if a.op == 'L' or b.op == 'L':
        if has_top(a) or has_top(b):
            return True
        return False
    if a.op != b.op or len(a.a) != len(b.a):
        return False
    return all(may_match(x, y) for x, y in zip(a.a, b.a))


def equal_under(facts, a, b):
    if a is b:
        return True
    if isinstance(a, T) and isinstance(b, T):
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite':
                if ent(facts, x.a[0]):
                    return equal_under(facts, x.a[1], y)
                if ref(facts, x.a[0]):
                    return equal_under(facts, x.a[2], y)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal_under(facts, x, y) for x, y in zip(a, b))
    if not isinstance(a, T) or not isinstance(b, T):
        return type(a) is type(b) and a == b
    l = eq(a, b)
    if l is not FALSE and facts.entails(l):
        return True
    if a.op == b.op and a.op in ('tuple', 'list', 'new', 'ntup', 'st', 'st2', 'sti', 'sts', 'm', 'ext', 'call', 'sl', 'f', 'app', 'fmt', 'hole', 'cat', 'step') and len(a.a) == len(b.a):
        return all(equal_under(facts, x, y) for x, y in zip(a.a, b.a))
    return False
