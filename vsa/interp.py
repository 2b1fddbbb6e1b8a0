"""Abstract interpreter over the syntax tree: value-flow terms + path facts.

States are disjuncts (one per path, merged when there are too many), loops are
summarised by one iteration from a head whose assigned variables are unknown
(inductive bounds and differences are kept when every back edge preserves
them), calls to helpers are followed.  Nothing of the analysed program is run.
"""
import ast
import re
from .terms import *
from .facts import Facts, EMPTY, _consts
from .live import Liveness
from .program import Program, Func, Class, walk_own


class Unsupported(Exception):
    pass


class State(object):
    __slots__ = ('env', 'heap', 'facts', 'trail', 'approx', 'cnt')

    def __init__(self, env=None, heap=None, facts=EMPTY, trail=(), approx=False, cnt=()):
        self.cnt = cnt            # guarded blocks passed so far, by exception type
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts
        self.trail = trail        # the branch conditions taken on this path
        self.approx = approx      # a lossy merge happened on the way here

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.facts, self.trail, self.approx, self.cnt)

    def assume(self, l):
        """a copy with l assumed (None when infeasible)"""
        if l is TRUE:
            return self.copy()
        if l.op == 'nt' and l.a[0].op in ('raised', 'caught'):
            # the ordinary course of events is not recorded
            return None if negl(l) in self.facts.lits else self.copy()
        known = self.facts.entails(l)
        f = self.facts.add(l)
        if f is None:
            return None
        s = self.copy()
        s.facts = f
        if not known:
            s.trail = s.trail + (l,)
        return s


class Event(object):
    __slots__ = ('kind', 'node', 'fn', 'stack', 'st', 'd', 'loops', 'seq')

    def __init__(self, kind, node, fn, stack, st, d, loops, seq):
        self.kind, self.node, self.fn, self.stack, self.st, self.d, self.loops, self.seq = kind, node, fn, stack, st, d, loops, seq

    @property
    def facts(self):
        return self.st.facts

    def where(self):
        return '%s:%s' % (self.fn.mod.path if self.fn else '?', getattr(self.node, 'lineno', '?'))

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.where(), self.d)


class Out(object):
    __slots__ = ('norm', 'brk', 'cont', 'ret')

    def __init__(self):
        self.norm, self.brk, self.cont, self.ret = [], [], [], []


BUILTINS = set('len range int bool str bytes bytearray min max abs type isinstance hex ord chr sorted sum set list dict tuple enumerate print open super iter next zip reversed map filter any all repr round divmod hash id getattr hasattr setattr memoryview frozenset object property pow issubclass vars callable input exit format float'.split())
MUTATORS = {'append', 'add', 'extend', 'remove', 'discard', 'pop', 'update', 'insert', 'clear', 'sort', 'reverse', 'setdefault', 'popitem'}
IMPLICIT = {'struct.error', 'IndexError', 'KeyError', 'ValueError', 'TypeError', 'OverflowError', 'UnicodeDecodeError', 'UnicodeError', 'Exception', 'BaseException', 'LookupError', 'ArithmeticError', 'AttributeError', 'OSError', 'IOError', 'ZeroDivisionError', 'StopIteration', 'RecursionError', 'RuntimeError', 'MemoryError', 'NotImplementedError'}


def branches(f):
    n = 0
    for x in walk_own(f.node):
        if isinstance(x, (ast.If, ast.IfExp)):
            n += 1
        elif isinstance(x, ast.Try):
            n += 2 + len(x.handlers)
        elif isinstance(x, ast.BoolOp):
            n += len(x.values) - 1
    return n


def default_inline(f):
    """which calls are unfolded: short functions without loops"""
    if f.is_gen or f.has_loop:
        return f.parent is not None and not f.is_gen and f.nstmts <= 25
    if f.parent is not None:
        return f.nstmts <= 25
    return f.nstmts <= 14 and branches(f) <= 3


def growers(f, more):
    """local lists that are appended to in more than so many places"""
    cnt = {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend') and isinstance(n.func.value, ast.Name):
            cnt[n.func.value.id] = cnt.get(n.func.value.id, 0) + 1
    return frozenset(k for k, v in cnt.items() if v > more)


class Frame(object):
    __slots__ = ('fid', 'fn', 'parent', 'mod')

    def __init__(self, fid, fn, parent, mod):
        self.fid, self.fn, self.parent, self.mod = fid, fn, parent, mod


FILES = ('volume_object', 'file_object', 'volume_storage_object', 'old_file_object')


def flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in flat(x):
                yield y


def pinned(x, lv, facts, depth=0):
    """x, where the facts leave one value for another variable it is computed from"""
    if depth < 6 and x.op == 'ite':
        f, g = facts.add(x.a[0]), facts.add(negl(x.a[0]))
        a = x.a[1] if f is None else pinned(x.a[1], lv, f, depth + 1)
        b = x.a[2] if g is None else pinned(x.a[2], lv, g, depth + 1)
        return x if a is x.a[1] and b is x.a[2] else ite(x.a[0], a, b)
    if x.op in ('L', 'lv'):
        c, d = lin(x)
        if len(d) == 1:
            (y, k), = d.items()
            if y.op == 'lv' and y is not lv:
                lo, hi = facts.bound(y)
                if lo is not None and lo == hi:
                    return C(c + k * lo)
    return x


class Interp(object):
    MAXSTATES = 40
    GATE = 8
    CALLGROUP = 8
    CALLMAX = 24
    EVALMAX = 12
    MAXDEPTH = 10

    def __init__(self, prog, base=frozenset(), inline=None, opaque=frozenset(), force=frozenset(), loop_entry=3, maxstates=None):
        self.prog = prog
        self.base = base
        self.inline_hook = inline
        self.opaque = set(opaque)
        self.force = set(force)
        self.loop_entry = loop_entry
        if maxstates:
            self.MAXSTATES = maxstates
        self.events = []
        self.mute = 0
        self.seq = 0
        self.frames = []
        self.nonnull = set()
        self.stack = []
        self.sinks = [[]]
        self.uid = 0
        self.nfid = 0
        self.loops = []
        self.loopids = {}
        self.loopdepth = {}
        self.lv_alts = {}
        self.lv_when = {}
        self.lv_init = {}
        self.lv_when2 = {}
        self.raise_loops = {}
        self.lv_info = {}
        self.dropped = {}
        self.constcache = {}
        self.classcache = {}
        self.classwork = []
        self.classtaint = set()
        self.closures = {}
        self.elem_cls = {}
        self.analysed = set()
        self.merges = 0
        self.gen_consumer = []
        self.busy = set()
        self.want = None
        self.inline_list = None
        self.params = None

    # ------------------------------------------------------------ helpers
    def top(self, why=''):
        self.uid += 1
        return mk('top', self.uid, why)

    def record(self, kind, node, st, **d):
        self.seq += 1
        if self.mute or (self.want is not None and kind not in self.want):
            return
        self.events.append(Event(kind, node, self.frames[-1].fn if self.frames else None, tuple(self.stack), st.copy(), d, tuple(self.loops), self.seq))

    @staticmethod
    def shape(s):
        return (frozenset((k, v.i) for k, v in s.env.items()), frozenset((k[0].i, k[1], v.i) for k, v in s.heap.items()))

    def exact_merge(self, sts):
        """fold paths that hold the same values and differ in one complementary condition"""
        groups = {}
        for s in sts:
            groups.setdefault(self.shape(s), []).append(s)
        if len(groups) == len(sts):
            return sts
        out = []
        for g in groups.values():
            changed = len(g) > 1
            while changed:
                changed = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        ta, tb = frozenset(g[i].trail), frozenset(g[j].trail)
                        ok = ta <= tb or tb <= ta
                        if not ok:
                            da, db = ta - tb, tb - ta
                            ok = len(da) == 1 and len(db) == 1 and negl(next(iter(da))) is next(iter(db))
                        if ok:
                            g[i] = self.join(g[i], g[j])
                            del g[j]
                            changed = True
                            break
                    if changed:
                        break
            out += g
        return out

    def limit(self, sts):
        if len(sts) > 6:
            sts = self.exact_merge(sts)
        if len(sts) > self.GATE:
            sts = self.gate_merge(sts)
        if len(sts) <= self.MAXSTATES:
            return sts
        self.merges += 1
        # first merge states that agree on everything but facts
        groups = {}
        for s in sts:
            groups.setdefault(self.shape(s), []).append(s)
        out = []
        for g in groups.values():
            out.append(self.joinall(g) if len(g) > 1 else g[0])
        if len(out) <= self.MAXSTATES:
            return out
        # then by the constants the locals hold
        groups = {}
        for s in out:
            k = frozenset((k, v.i) for k, v in s.env.items() if v.op == 'c')
            groups.setdefault(k, []).append(s)
        out = [self.joinall(g) for g in groups.values()]
        if len(out) <= self.MAXSTATES:
            return out
        return [self.joinall(out)]

    def joinall(self, sts):
        r = sts[0]
        for s in sts[1:]:
            r = self.join(r, s)
        return r

    def gate_merge(self, sts):
        """merge paths that together decide a sequence of tests; differing values become conditional values"""
        def pseudo(l):
            return l.op == 't' and l.a[0].op in ('raised', 'caught')

        def gm(group, k):
            if len(group) == 1:
                return group
            while all(len(s.trail) > k for s in group):
                l = group[0].trail[k]
                if any(s.trail[k] is not l for s in group):
                    break
                k += 1
            ls = list(dict.fromkeys(s.trail[k] for s in group if len(s.trail) > k))
            if not ls:
                return group
            ps = [l for l in ls if pseudo(l)]
            if ps:
                l = ps[0]
            else:
                l = ls[0]
                if len(ls) != 2 or negl(l) is not ls[1] or any(len(s.trail) <= k for s in group):
                    return group
            A = [s for s in group if len(s.trail) > k and s.trail[k] is l]
            B = [s for s in group if not (len(s.trail) > k and s.trail[k] is l)]
            ra = gm(A, k + 1)
            rb = gm(B, k if ps else k + 1)
            if len(ra) == 1 and len(rb) == 1 and len(ra[0].trail) == k + 1 and len(rb[0].trail) == (k if ps else k + 1):
                j = self.join(ra[0], rb[0], gate=l)
                if j is not None:
                    j.trail = ra[0].trail[:k]
                    return [j]
            return ra + rb

        return gm(sts, 0)

    def join(self, a, b, gate=None):
        if gate is not None:
            a, b = a.copy(), b.copy()
            for k in set(a.heap) ^ set(b.heap):
                if k[1] != '$pos':
                    for x in (a, b):
                        if k not in x.heap:
                            x.heap[k] = self.attr_default(k[0], k[1])
        env = {}
        lossy = False
        phi = (lambda xy: ite(gate, xy[0], xy[1])) if gate is not None else globals()['phi']
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                env[k] = x if y is None else y
            elif x is y:
                env[k] = x
            else:
                lossy = gate is None
                p = phi([x, y])
                if p.op == 'phi' and len(p.a[0]) > 10:
                    p = self.top('phi')
                env[k] = p
        heap = {}
        for k in set(a.heap) & set(b.heap):
            x, y = a.heap[k], b.heap[k]
            if x is y:
                heap[k] = x
            else:
                lossy = lossy or (gate is None and k[1] != '$pos')
                p = phi([x, y])
                if p.op == 'phi' and len(p.a[0]) > 10:
                    p = self.top('phi')
                heap[k] = p
        for k in set(a.heap) ^ set(b.heap):
            if k[1] == '$pos':
                continue
            x = a.heap.get(k) or b.heap.get(k)
            heap[k] = phi([x, self.attr_default(k[0], k[1])])
        f = a.facts.join(b.facts)
        # numeric bounds of the new phi terms
        for k, p in env.items():
            if p.op in ('phi', 'ite') and k in a.env and k in b.env and a.env[k] is not b.env[k]:
                la, ha = a.facts.linbound(a.env[k])
                lb, hb = b.facts.linbound(b.env[k])
                if la is not None and lb is not None:
                    f = f._addle(sub(C(min(la, lb)), p)) or f
                if ha is not None and hb is not None:
                    f = f._addle(sub(p, C(max(ha, hb)))) or f
                l = eq(p, NONE, False)
                if a.facts.entails(eq(a.env[k], NONE, False)) and b.facts.entails(eq(b.env[k], NONE, False)):
                    f = f.add(l) or f
        ta, tb = set(a.trail), set(b.trail)
        approx = a.approx or b.approx or lossy
        if ta <= tb:
            tr = a.trail
        elif tb <= ta:
            tr = b.trail
        else:
            da, db = ta - tb, tb - ta
            tr = tuple(x for x in a.trail if x in tb)
            if gate is None and not (len(da) == 1 and len(db) == 1 and negl(next(iter(da))) is next(iter(db))):
                approx = True
        cnt = a.cnt
        if a.cnt != b.cnt:
            d = dict(a.cnt)
            for k, v in b.cnt:
                d[k] = max(v, d.get(k, 0))
            cnt = tuple(sorted(d.items()))
        return State(env, heap, f, tr, approx, cnt)

    # ------------------------------------------------------------ class summaries
    def class_summary(self, cls):
        """(attr -> term over the constructor's parameters, invariant literals, exceptions)"""
        if cls.qual in self.classcache:
            return self.classcache[cls.qual]
        if cls.qual in self.classwork:
            # recursion is cut; what is being computed above must not be kept
            i = self.classwork.index(cls.qual)
            self.classtaint.update(self.classwork[i + 1:])
            return ({}, [], [], {})
        self.classwork.append(cls.qual)
        init = cls.find('__init__')
        S = mk('self', cls.qual)
        attrs, inv, excs, ptypes = {}, [], [], {}
        if init is not None:
            J = Interp(self.prog, self.base, self.inline_hook, self.opaque, self.force, self.loop_entry, self.MAXSTATES)
            J.mute = 1
            for x in ('classcache', 'classwork', 'classtaint', 'want', 'inline_list', 'params'):
                setattr(J, x, getattr(self, x))
            st = State()
            names, extra = J.pnames(init)
            args = [S] + [mk('cp', S, p) for p in names[1:]]
            res = J.run_func(init, args, {}, st)
            finals = [s for s, _ in res]
            excs = [(e, s.facts) for s, e, _n, _f in J.sinks[0]]
            if finals:
                keys = set()
                for s in finals:
                    keys |= {k[1] for k in s.heap if k[0] is S and k[1] != '$pos'}
                for k in keys:
                    vals = {s.heap.get((S, k)) for s in finals}
                    if len(vals) == 1 and None not in vals:
                        v = vals.pop()
                        if v.op in ('dict', 'list', 'set') and self.prog.attr_changers.get(k):
                            continue
                        if not any(x.op in ('top', 'lv') for x in subterms(v)) or v.op == 'new':
                            attrs[k] = v
                    elif len(vals) > 1 and None not in vals and len(finals) <= 24 and not any(s.approx for s in finals) and self.prog.init_only(cls, k):
                        if not any(x.op in ('top', 'lv', 'undef', 'rg') for v in vals for x in subterms(v)) and not any(x.op in ('top', 'lv', 'undef', 'rg') for s in finals for l in s.trail for x in subterms(l)):
                            d = self.prog.__dict__.setdefault('_attrdefs', {}).setdefault(cls.qual, {})
                            d[k] = [(s.trail, s.heap[(S, k)]) for s in finals]
                f = finals[0].facts
                for s in finals[1:]:
                    f = f.join(s.facts)
                for l in f.literals():
                    if not any(x.op in ('top', 'lv', 'phi') for x in subterms(l)):
                        inv.append(l)
        # attribute types from every constructor call stored in the attribute
        types = {}
        for c in cls.mro():
            for m in c.methods.values():
                todo = [m]
                while todo:
                    g = todo.pop()
                    todo += list(g.nested.values())
                    for n in walk_own(g.node):
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                            r = self.prog.resolve_class_expr(g.mod, n.value.func) if isinstance(n.value.func, (ast.Name, ast.Attribute)) else None
                            if isinstance(r, Class):
                                for t in n.targets:
                                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                        types.setdefault(t.attr, set()).add(r)
        types = {k: next(iter(v)) for k, v in types.items() if len(v) == 1}
        r = (attrs, inv, excs, types)
        self.classwork.pop()
        if cls.qual in self.classtaint:
            self.classtaint.discard(cls.qual)
        else:
            self.classcache[cls.qual] = r
        return r

    def cp_map(self, obj, cls, terms):
        """substitution from the summary's parameters to the object's"""
        S = mk('self', cls.qual)
        m = {S: obj}
        init = cls.find('__init__')
        if init is not None:
            given = dict(obj.a[1]) if obj.op == 'new' else {}
            for p in self.pnames(init)[0][1:]:
                m[mk('cp', S, p)] = given[p] if p in given else mk('cp', obj, p)
        return m

    def pnames(self, f):
        """the reference's names for f's positional parameters, and the parameters it does not know"""
        known = self.params.get(f.qual) if self.params is not None else None
        if known is None or list(known) == f.params + f.kwonly:
            return list(f.params), []
        n = min(len(known), len(f.params))
        return list(known[:n]), f.params[n:]

    def attr_default(self, obj, name):
        """the value of obj.name when this activation has not stored it"""
        cls = self.class_of(obj, None)
        if cls is not None:
            if obj.op == 'self' and obj.a[0] == cls.qual and self.in_init(cls):
                for c in cls.mro():
                    if name in c.attrs:
                        v = self.eval_const_expr(c.mod, c.attrs[name])
                        if v is not None:
                            return v
                return mk('at', obj, name)
            if self.prog.init_only(cls, name):
                attrs, inv, excs, types = self.class_summary(cls)
                if name in attrs:
                    return subst(attrs[name], self.cp_map(obj, cls, None))
                written = any(self.prog.funcs[q].cls in self.prog.class_family(cls) for q in self.prog.attr_writers.get(name, ()))
                if not written:
                    for c in cls.mro():
                        if name in c.attrs:
                            v = self.eval_const_expr(c.mod, c.attrs[name])
                            if v is not None:
                                return v
        return mk('at', obj, name)

    def class_default(self, cls, name):
        for c in cls.mro():
            if name in c.attrs:
                return self.eval_const_expr(c.mod, c.attrs[name])
        return None

    def in_init(self, cls):
        for fr in self.frames:
            if fr.fn is not None and fr.fn.name == '__init__' and fr.fn.cls is not None and fr.fn.cls in cls.mro():
                return True
        return False

    def class_of(self, t, st):
        if st is not None:
            for l in st.facts.lits:
                if l.op == 'ty' and l.a[0] is t and l.a[1].op == 'cls':
                    return self.prog.classes.get(l.a[1].a[0])
        if t.op in ('self', 'new'):
            return self.prog.classes.get(t.a[0])
        if t.op == 'at':
            oc = self.class_of(t.a[0], st)
            if oc is not None:
                types = self.class_summary(oc)[3]
                return types.get(t.a[1])
        if t.op == 'el':
            c = self.elem_cls.get(t)
            if c is not None:
                return c
        if t.op == 'ite':
            cs = {self.class_of(x, st) for x in t.a[1:] if not (isc(x) and x.a[0] is None)}
            if len(cs) == 1:
                return cs.pop()
        if t.op in ('phi',):
            cs = {self.class_of(x, st) for x in t.a[0] if not (isc(x) and x.a[0] is None)}
            if len(cs) == 1:
                return cs.pop()
        if t.op == 'lv' and t not in self.busy:
            self.busy.add(t)
            try:
                cs = {self.class_of(x, None) for x in self.lv_alts.get(t, ()) if not (isc(x) and x.a[0] is None) and x is not t and not (x.op == 'lv' and x in self.busy)}
            finally:
                self.busy.discard(t)
            if len(cs) == 1:
                return cs.pop()
        if t.op == 'call':
            f = self.prog.funcs.get(t.a[0])
            if f is not None and not f.is_gen:
                return self.return_class(f)
        return None

    def return_class(self, f, depth=0):
        key = ('ret', f.qual)
        memo = self.prog.__dict__.setdefault('_retclass', {})
        if key not in memo:
            memo[key] = None
            cs = set()
            ok = True
            for n in walk_own(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    ok = ok and self.expr_classes(f, n.value, cs, depth)
            memo[key] = cs.pop() if ok and len(cs) == 1 else None
        return memo[key]

    def yield_class(self, f, depth=0):
        key = ('yield', f.qual)
        memo = self.prog.__dict__.setdefault('_retclass', {})
        if key not in memo:
            memo[key] = None
            cs = set()
            ok = True
            for n in walk_own(f.node):
                if isinstance(n, ast.Yield) and n.value is not None:
                    ok = ok and self.expr_classes(f, n.value, cs, depth)
                elif isinstance(n, ast.YieldFrom):
                    g = self.callee(f, n.value)
                    c = self.yield_class(g, depth + 1) if g is not None and depth < 4 else None
                    ok = ok and c is not None
                    cs.add(c)
            memo[key] = cs.pop() if ok and len(cs) == 1 else None
        return memo[key]

    def callee(self, f, e):
        """the function an expression calls, when its name tells"""
        if not isinstance(e, ast.Call):
            return None
        if isinstance(e.func, ast.Name):
            g = f
            while g is not None:
                if e.func.id in g.nested:
                    return g.nested[e.func.id]
                g = g.parent
            return f.mod.functions.get(e.func.id)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ('self', 'cls') and f.cls is not None:
            return f.cls.find(e.func.attr)
        return None

    def expr_classes(self, f, e, cs, depth=0):
        """adds the classes of what an expression of f may denote (other than None); False if one is not known"""
        if depth > 4:
            return False
        if isinstance(e, ast.Constant) and e.value is None:
            return True
        if isinstance(e, ast.IfExp):
            return self.expr_classes(f, e.body, cs, depth + 1) and self.expr_classes(f, e.orelse, cs, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_class_expr(f.mod, e.func)
            if isinstance(r, Class):
                cs.add(r)
                return True
            g = self.callee(f, e)
            if g is not None and not g.is_gen:
                c = self.return_class(g, depth + 1)
                if c is not None:
                    cs.add(c)
                    return True
            return False
        if isinstance(e, ast.Name):
            hit = False
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == e.id for t in n.targets for x in ast.walk(t)):
                    if not any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                        return False
                    if not self.expr_classes(f, n.value, cs, depth + 1):
                        return False
                    hit = True
                elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                    g = self.callee(f, n.iter)
                    c = self.yield_class(g, depth + 1) if g is not None and g.is_gen and isinstance(n.target, ast.Name) else None
                    if c is None:
                        return False
                    cs.add(c)
                    hit = True
                elif isinstance(n, (ast.AugAssign, ast.NamedExpr, ast.AnnAssign)) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                    return False
            return hit
        return False

    # ------------------------------------------------------------ names
    def eval_const_expr(self, mod, e):
        saved = (self.events, self.mute, self.frames, self.stack, self.sinks, self.loops)
        self.events, self.mute, self.frames, self.stack, self.sinks, self.loops = [], 1, [Frame(-1, None, None, mod)], [], [[]], []
        try:
            r = self.eval(e, State())
            return r[0][1] if len(r) == 1 else None
        finally:
            self.events, self.mute, self.frames, self.stack, self.sinks, self.loops = saved

    def module_name(self, mod, name):
        if name in mod.functions:
            return mk('fn', mod.functions[name].qual, -1)
        if name in mod.classes:
            return mk('cls', mod.classes[name].qual)
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == 'mod':
                return mk('module', imp[1])
            if imp[0] == 'from':
                return self.module_name(self.prog.modules[imp[1]], imp[2])
            return mk('x', imp[1])
        if name in mod.assigns:
            k = (mod.name, name)
            if k in self.constcache:
                return self.constcache[k]
            vals = mod.assigns[name]
            r = mk('g', mod.name, name)
            self.constcache[k] = r
            if len(vals) == 1 and vals[0] is not None and name not in mod.mutated_globals:
                v = self.eval_const_expr(mod, vals[0])
                if v is not None and v.op != 'top':
                    r = v
            self.constcache[k] = r
            return r
        if name in mod.mutated_globals:
            return mk('g', mod.name, name)
        if name in BUILTINS:
            return mk('bi', name)
        if name in Program.BUILTIN_EXC:
            return mk('x', name)
        return mk('g', mod.name, name)

    def lookup(self, name, st):
        fr = self.frames[-1]
        mod = fr.mod
        if fr.fn is not None and name in fr.fn.globals:
            v = st.env.get(('G:' + mod.name, name))
            return v if v is not None else self.module_name(mod, name)
        while fr is not None:
            if (fr.fid, name) in st.env:
                return st.env[(fr.fid, name)]
            if fr.fn is not None and name in fr.fn.nested:
                return mk('fn', fr.fn.nested[name].qual, fr.fid)
            if fr.fn is not None and name in fr.fn.locals:
                return mk('undef', name)
            fr = fr.parent
        v = st.env.get(('G:' + mod.name, name))
        if v is not None:
            return v
        return self.module_name(mod, name)

    def setvar(self, name, v, st):
        fr = self.frames[-1]
        if fr.fn is not None and name in fr.fn.globals:
            st.env[('G:' + fr.mod.name, name)] = v
            return
        if fr.fn is not None and name in fr.fn.nonlocals:
            p = fr.parent
            while p is not None:
                if p.fn is not None and name in p.fn.locals:
                    st.env[(p.fid, name)] = v
                    return
                p = p.parent
        st.env[(fr.fid, name)] = v

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, self.top(type(e).__name__))]
        r = m(e, st)
        if len(r) > self.EVALMAX:
            r = self.fold_results([(s.copy(), t) for s, t in r], 4 * self.MAXSTATES)
        return r

    def fold_results(self, r, most=None):
        """fewer (state, value) pairs: exactly where paths are complementary, else with loss"""
        k = ('$ret', '$')
        for s, t in r:
            s.env[k] = t
        ss = self.gate_merge(self.exact_merge([s for s, _ in r]))
        if len(ss) > (most or self.CALLMAX):
            ss = [self.joinall(ss)]
        out = []
        for s in ss:
            t = s.env.pop(k)
            out.append((s, t))
        return out

    def evals(self, es, st):
        """evaluate a list of expressions left to right -> [(st, [terms])]"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, ts in acc:
                if isinstance(e, ast.Starred):
                    for s2, t in self.eval(e.value, s):
                        if t.op in ('list', 'tuple'):
                            nxt.append((s2, ts + list(t.a[0])))
                        else:
                            nxt.append((s2, ts + [mk('star', t)]))
                    continue
                for s2, t in self.eval(e, s):
                    nxt.append((s2, ts + [t]))
            if len(nxt) > self.EVALMAX and len({len(ts) for _, ts in nxt}) == 1:
                nxt = [(s2, list(t.a[0])) for s2, t in self.fold_args([(s2.copy(), ts) for s2, ts in nxt])]
            acc = nxt
        return acc

    def fold_args(self, nxt):
        n = len(nxt[0][1])
        for s, ts in nxt:
            for i, t in enumerate(ts):
                s.env[('$ret', i)] = t
        ss = self.gate_merge(self.exact_merge([s for s, _ in nxt]))
        if len(ss) > 4 * self.MAXSTATES:
            ss = [self.joinall(ss)]
        return [(s, mk('tuple', tuple(s.env.pop(('$ret', i)) for i in range(n)))) for s in ss]

    def e_Constant(self, e, st):
        return [(st, C(e.value))]

    def e_Name(self, e, st):
        return [(st, self.lookup(e.id, st))]

    def e_Tuple(self, e, st):
        return [(s, mk('tuple', tuple(ts))) for s, ts in self.evals(e.elts, st)]

    def e_List(self, e, st):
        return [(s, mk('list', tuple(ts))) for s, ts in self.evals(e.elts, st)]

    def e_Set(self, e, st):
        return [(s, mk('set', tuple(ts))) for s, ts in self.evals(e.elts, st)]

    def e_Dict(self, e, st):
        out = []
        if any(k is None for k in e.keys):
            return [(st, self.top('dict'))]
        for s, ks in self.evals(e.keys, st):
            for s2, vs in self.evals(e.values, s):
                out.append((s2, mk('dict', tuple(zip(ks, vs)))))
        return out

    def e_JoinedStr(self, e, st):
        out = []
        holes = [v for v in e.values if isinstance(v, ast.FormattedValue)]
        for s, ts in self.evals([v.value for v in holes], st):
            it = iter(ts)
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(C(v.value))
                else:
                    spec = ''
                    if v.format_spec is not None:
                        spec = ''.join(str(x.value) if isinstance(x, ast.Constant) else '?' for x in v.format_spec.values)
                    if v.conversion not in (-1, 115):
                        spec = '!%c' % v.conversion + spec
                    parts.append(mk('hole', next(it), spec))
            out.append((s, mkfmt(parts)))
        return out

    @staticmethod
    def str_format(text, args, kws):
        """'...'.format(...) as a formatted string, None when not understood"""
        import string
        parts = []
        auto = 0
        try:
            for lit, name, spec, conv in string.Formatter().parse(text):
                if lit:
                    parts.append(C(lit))
                if name is None:
                    continue
                if name == '':
                    t = args[auto]
                    auto += 1
                elif name.isdigit():
                    t = args[int(name)]
                elif name in kws:
                    t = kws[name]
                else:
                    return None
                if spec and '{' in spec:
                    return None
                sp = spec or ''
                if conv and conv != 's':
                    sp = '!' + conv + sp
                parts.append(mk('hole', t, sp))
        except (ValueError, IndexError):
            return None
        return mkfmt(parts)

    @staticmethod
    def percent_format(text, b):
        import re
        args = list(b.a[0]) if b.op == 'tuple' else [b]
        parts = []
        pos = 0
        for m in re.finditer(r'%(?:%|([-#0 +]*\d*(?:\.\d+)?)([sdxXriu]))', text):
            parts.append(C(text[pos:m.start()]))
            pos = m.end()
            if m.group(0) == '%%':
                parts.append(C('%'))
                continue
            if not args:
                return None
            t = args.pop(0)
            k = m.group(2)
            fl = m.group(1)
            if k == 's' and not fl or k in 'diu' and not fl:
                parts.append(mk('hole', t, ''))
            elif k == 'r' and not fl:
                parts.append(mk('hole', t, '!r'))
            else:
                parts.append(mk('hole', t, fl + k))
        if args:
            return None
        parts.append(C(text[pos:]))
        return mkfmt(parts)

    def e_Lambda(self, e, st):
        self.__dict__.setdefault('lambdas', {})[id(e)] = e
        return [(st, mk('lambda', id(e)))]

    def e_NamedExpr(self, e, st):
        out = []
        for s, t in self.eval(e.value, st):
            s = s.copy()
            self.setvar(e.target.id, t, s)
            out.append((s, t))
        return out

    def e_Starred(self, e, st):
        return [(s, mk('star', t)) for s, t in self.eval(e.value, st)]

    def e_IfExp(self, e, st):
        ts, fs = self.cond(e.test, st)
        out = []
        for s in ts:
            out += self.eval(e.body, s)
        for s in fs:
            out += self.eval(e.orelse, s)
        return out

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(s, boolterm(negl(truth(t)))) if not isinstance(e.operand, ast.BoolOp) else (s, boolterm(negl(truth(t)))) for s, t in self.eval(e.operand, st)]
        out = []
        for s, t in self.eval(e.operand, st):
            if isinstance(e.op, ast.USub):
                out.append((s, neg(t)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, t))
            else:
                out.append((s, sub(neg(t), C(1))))
        return out

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        acc = [st]
        out = []
        for i, v in enumerate(e.values):
            nxt = []
            for s in acc:
                for s2, t in self.eval(v, s):
                    if i == len(e.values) - 1:
                        out.append((s2, t))
                        continue
                    l = truth(t)
                    go = s2.assume(l if isand else negl(l))
                    stop = s2.assume(negl(l) if isand else l)
                    if stop is not None:
                        if t.op == 'b' or t.op == 'c':
                            t2 = (FALSE_T if isand else TRUE_T) if t.op == 'b' else t
                        else:
                            t2 = t
                        out.append((stop, t2))
                    if go is not None:
                        nxt.append(go)
            acc = nxt
        return out

    def _compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            for x, y in ((a, b), (b, a)):
                if x.op == 'ext' and x.a[0] == 'type' and y.op in ('cls', 'ntcls', 'bi', 'x'):
                    return self.typelit(x.a[1][0], y, pos, st)
            if b is NONE and a in self.nonnull or a is NONE and b in self.nonnull:
                return FALSE if pos else TRUE
            return eq(a, b, pos)
        if isinstance(op, ast.Lt):
            return le0(add(sub(a, b), C(1)))
        if isinstance(op, ast.LtE):
            return le0(sub(a, b))
        if isinstance(op, ast.Gt):
            return le0(add(sub(b, a), C(1)))
        if isinstance(op, ast.GtE):
            return le0(sub(b, a))
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            if b.op == 'm' and b.a[0] == 'keys':
                b = b.a[1]
            vals = _consts(b)
            if vals is not None:
                if b.op != 'c' or not isinstance(b.a[0], tuple):
                    b = C(tuple(sorted(set(vals), key=lambda v: (str(type(v)), v if v is not None else 0))))
                if isc(a):
                    return TRUE if (a.a[0] in vals) == pos else FALSE
                if len(set(vals)) == 1:
                    return eq(a, C(vals[0]), pos)
                if len(vals) == 0:
                    return FALSE if pos else TRUE
                # slices against byte strings become fields
                if a.op == 'sl' and all(isinstance(v, bytes) for v in vals) and a.a[2] is not None:
                    w = cint(sub(a.a[2], a.a[1]))
                    if w is not None and all(len(v) == w for v in vals):
                        a = field(a, ZERO, w, False, '<')
                        b = C(tuple(sorted({int.from_bytes(v, 'little') for v in vals})))
            return mk('in' if pos else 'nin', a, b)
        return mk('t', self.top('cmp'))

    def never_none(self, e):
        """a table into which this module only puts written-out values"""
        nm = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None
        mod = self.frames[-1].mod if self.frames else None
        if nm is None or mod is None:
            return False
        c = self.prog.__dict__.setdefault('stored_values', {})
        if mod.name not in c:
            d = c[mod.name] = {}
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript):
                            x = t.value
                            k = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                            d.setdefault(k, []).append(n.value)
        vs = c[mod.name].get(nm)
        return bool(vs) and all(isinstance(v, (ast.Tuple, ast.List, ast.Dict, ast.Set, ast.JoinedStr, ast.BinOp)) or isinstance(v, ast.Constant) and v.value is not None for v in vs)

    def typelit(self, x, c, pos, st):
        if x.op == 'ntup' and c.op == 'ntcls':
            return TRUE if (x.a[0] == c.a[0]) == pos else FALSE
        if x.op in ('new', 'self') and c.op == 'cls':
            if x.op == 'new':
                return TRUE if (x.a[0] == c.a[0]) == pos else FALSE
        if isc(x) and x.a[0] is None:
            return FALSE if pos else TRUE
        return mk('ty' if pos else 'nty', x, c)

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            return [(s, boolterm(self._compare(e.ops[0], ts[0], ts[1], s))) for s, ts in self.evals([e.left, e.comparators[0]], st)]
        ts_, fs_ = self.cond(e, st)
        return [(s, TRUE_T) for s in ts_] + [(s, FALSE_T) for s in fs_]

    # conditions split states
    def cond(self, e, st):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            T_, F_ = [], []
            acc = [st]
            for i, v in enumerate(e.values):
                nxt = []
                for s in acc:
                    t, f = self.cond(v, s)
                    if isand:
                        F_ += f
                        nxt += t
                    else:
                        T_ += t
                        nxt += f
                acc = nxt
            if isand:
                T_ += acc
            else:
                F_ += acc
            return self.limit(T_), self.limit(F_)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st)
            return f, t
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts = []
            left = e.left
            T_, F_ = [], []
            for s, ts in self.evals([e.left] + list(e.comparators), st):
                acc = [s]
                for i, op in enumerate(e.ops):
                    nxt = []
                    for q in acc:
                        l = self._compare(op, ts[i], ts[i + 1], q)
                        a, b = q.assume(l), q.assume(negl(l))
                        if a is not None:
                            nxt.append(a)
                        if b is not None:
                            F_.append(b)
                    acc = nxt
                T_ += acc
            return T_, F_
        T_, F_ = [], []
        for s, t in self.eval(e, st):
            a, b = self.split(truth(t), s)
            T_ += a
            F_ += b
        return self.limit(T_), self.limit(F_)

    def split(self, l, s):
        T_, F_ = [], []
        for x in l.a:
            if isinstance(x, T):
                c = [x] if x.op == 'ite' else [y for y, _k in x.a[1] if y.op == 'ite'] if x.op == 'L' else []
                for t in c[:1]:
                    for g, v in ((t.a[0], t.a[1]), (negl(t.a[0]), t.a[2])):
                        q = s.assume(g)
                        if q is not None:
                            self.resolve(q, t, v)
                            a, b = self.split(subst(l, {t: v}), q)
                            T_ += a
                            F_ += b
                    return T_, F_
        neg_in = False
        q = l
        if q.op == 'nin':
            q = negl(q)
            neg_in = True
        if q.op == 'in':
            vals = _consts(q.a[1])
            if vals is not None and len(set(vals)) <= 4:
                x = q.a[0]
                cur = s
                for v in dict.fromkeys(vals):
                    if cur is None:
                        break
                    el = eq(x, C(v), True)
                    a = cur.assume(el)
                    if a is not None:
                        T_.append(a)
                    cur = cur.assume(negl(el))
                if cur is not None:
                    F_.append(cur)
                return (F_, T_) if neg_in else (T_, F_)
            if vals is not None:
                a = s.assume(q)
                if a is not None:
                    T_.append(a)
                b = s.assume(negl(q))
                if b is not None:
                    F_.append(b)
                return (F_, T_) if neg_in else (T_, F_)
        a, b = s.assume(l), s.assume(negl(l))
        if a is not None:
            T_.append(a)
        if b is not None:
            F_.append(b)
        return T_, F_

    def e_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.evals([e.left, e.right], st):
            out.append((s, self.binop(e.op, a, b)))
        return out

    def binop(self, op, a, b):
        n = type(op).__name__
        if n == 'Add':
            return plus(a, b)
        if n == 'Sub':
            if a.op in ('set', 'lv', 'ext') and b.op in ('set',):
                return mk('op', '-', a, b)
            return sub(a, b)
        if n == 'Mult':
            if is_bytes(a) or is_bytes(b):
                if is_bytes(b):
                    a, b = b, a
                n_ = cint(b)
                if isc(a) and n_ is not None and n_ * max(1, len(a.a[0])) <= 8192:
                    return C(a.a[0] * n_)
                return mk('rep', a, b)
            return mul(a, b)
        if n == 'FloorDiv':
            return fdiv(a, b)
        if n == 'Mod':
            if isc(a) and isinstance(a.a[0], str):
                r = self.percent_format(a.a[0], b)
                if r is not None:
                    return r
            return fmod(a, b)
        if n == 'BitAnd':
            return band(a, b)
        if n == 'BitOr':
            return bor(a, b)
        if n == 'BitXor':
            return bxor(a, b)
        if n == 'LShift':
            return shl(a, b)
        if n == 'RShift':
            return shr(a, b)
        if n == 'Pow':
            x, y = cint(a), cint(b)
            if x is not None and y is not None and 0 <= y < 200:
                return C(x ** y)
            if x == 2:
                return mk('shl', C(1), b)
        x, y = (a.a[0] if isc(a) else None), (b.a[0] if isc(b) else None)
        if n == 'Div' and isinstance(x, (int, float)) and isinstance(y, (int, float)) and y:
            return C(x / y)
        return mk('op', n, a, b)

    def e_Subscript(self, e, st):
        out = []
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            if sl.step is not None:
                parts = [sl.lower, sl.upper, sl.step]
                have = [x for x in parts if x is not None]
                out = []
                for s, ts in self.evals([e.value] + have, st):
                    vs = list(ts[1:])
                    out.append((s, mk('stepslice', ts[0], tuple(NONE if x is None else vs.pop(0) for x in parts))))
                return out
            es = [e.value] + [x for x in (sl.lower, sl.upper) if x is not None]
            for s, ts in self.evals(es, st):
                b = ts[0]
                k = 1
                lo = hi = None
                if sl.lower is not None:
                    lo = ts[k]
                    k += 1
                if sl.upper is not None:
                    hi = ts[k]
                self.record('slice', e, s, base=b, lo=lo or ZERO, hi=hi)
                out.append((s, slice_(b, lo, hi)))
            return out
        for s, (b, i) in self.evals([e.value, e.slice], st):
            self.record('index', e, s, base=b, idx=i)
            if b.op == 'm' and b.a[0] == 'keys':
                pass
            out.append((s, index(b, i)))
        return out

    def expand(self, pairs):
        """case split on conditional values"""
        out = []
        todo = list(pairs)
        while todo:
            s, t = todo.pop(0)
            if t.op != 'ite' or len(out) + len(todo) > 24:
                out.append((s, t))
                continue
            for l, x in ((t.a[0], t.a[1]), (negl(t.a[0]), t.a[2])):
                q = s.assume(l)
                if q is not None:
                    self.resolve(q, t, x)
                    todo.append((q, x))
        return out

    def resolve(self, s, t, x):
        m, memo = {t: x}, {}
        for k, v in s.env.items():
            r = subst(v, m, memo)
            if r is not v:
                s.env[k] = r
        for k, v in s.heap.items():
            r = subst(v, m, memo)
            if r is not v:
                s.heap[k] = r

    def e_Attribute(self, e, st):
        out = []
        for s, b in self.expand(self.eval(e.value, st)):
            out.append((s, self.getattr_(b, e.attr, s, e)))
        return out

    def getattr_(self, b, name, s, node=None):
        if b.op == 'module':
            return self.module_name(self.prog.modules[b.a[0]], name)
        if b.op == 'x':
            return mk('x', b.a[0] + '.' + name)
        if b.op == 'ext' and b.a[0] == 'struct.Struct' and name == 'size' and isc(b.a[1][0]):
            try:
                import struct as _s
                return C(_s.calcsize(b.a[1][0].a[0]))
            except Exception:
                pass
        if b.op == 'ntup':
            for k, v in b.a[1]:
                if k == name:
                    return v
        if (b, name) in s.heap:
            return s.heap[(b, name)]
        if b.op == 'cls':
            c = self.prog.classes[b.a[0]]
            f = c.find(name)
            if f is not None:
                return mk('fn', f.qual, -1)
            for k in c.mro():
                if name in k.attrs:
                    v = self.eval_const_expr(k.mod, k.attrs[name])
                    if v is not None:
                        return v
        cls = self.class_of(b, s)
        if cls is not None:
            f = cls.find(name)
            if f is not None:
                if f.prop:
                    r = self.call_func(f, [b], {}, s, node)
                    if len(r) == 1:
                        return r[0][1]
                    return self.top('prop')
                return mk('bm', b, f.qual)
            return self.attr_default(b, name)
        if b.op == 'phi':
            vals = []
            for x in b.a[0]:
                if x.op in ('ntup', 'new', 'self') or (x, name) in s.heap:
                    vals.append(self.getattr_(x, name, s))
                else:
                    vals = None
                    break
            if vals:
                return phi(vals)
        return mk('at', b, name)

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, 'gen')

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set')

    def comp(self, e, st, kind):
        """a comprehension is the loop it abbreviates"""
        if kind == 'set':
            init, add = 'set()', 'add'
        else:
            init, add = '[]', 'append'
        return self.desugar(e, st, init, lambda nm, elt: [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), add, ast.Load()), [elt], []))])

    def desugar(self, e, st, init, body):
        nm = '$c%d_%d' % (e.lineno, e.col_offset)
        inner = body(nm, e.elt)
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                inner = [ast.If(c, inner, [])]
            inner = [ast.For(g.target, g.iter, inner, [])]
        cache = self.__dict__.setdefault('desugared', {})
        k = (id(e), init)
        if k not in cache:
            src = [ast.Assign([ast.Name(nm, ast.Store())], ast.parse(init, mode='eval').body if isinstance(init, str) else init)] + inner
            for x in src:
                ast.copy_location(x, e)
                ast.fix_missing_locations(x)
            cache[k] = (e, src)
        out = []
        fr = self.frames[-1]
        for s in self.block(cache[k][1], [st]).norm:
            v = s.env.get((fr.fid, nm))
            s = s.copy()
            s.env.pop((fr.fid, nm), None)
            out.append((s, v if v is not None else self.top('comp')))
        return out

    def e_DictComp(self, e, st):
        e2 = self.__dict__.setdefault('dictcomp', {}).get(id(e))
        if e2 is None:
            e2 = ast.copy_location(ast.ListComp(e.key, e.generators), e)
            self.dictcomp[id(e)] = e2
            e2.keep = e
        return self.desugar(e2, st, '{}', lambda nm, k: [ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), k, ast.Store())], e.value)])

    def comp_call(self, e, st):
        """any/all/sum/next over a comprehension"""
        if not (isinstance(e.func, ast.Name) and e.args and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and not e.keywords):
            return None
        n = e.func.id
        c = e.args[0]
        if self.lookup(n, st).op != 'bi':
            return None
        asg = lambda nm, v: ast.Assign([ast.Name(nm, ast.Store())], v)
        if n == 'any' and len(e.args) == 1:
            return self.desugar(c, st, 'False', lambda nm, x: [ast.If(x, [asg(nm, ast.Constant(True)), ast.Break()], [])]) if len(c.generators) == 1 else None
        if n == 'all' and len(e.args) == 1:
            return self.desugar(c, st, 'True', lambda nm, x: [ast.If(ast.UnaryOp(ast.Not(), x), [asg(nm, ast.Constant(False)), ast.Break()], [])]) if len(c.generators) == 1 else None
        if n == 'sum' and len(e.args) == 1:
            return self.desugar(c, st, '0', lambda nm, x: [ast.AugAssign(ast.Name(nm, ast.Store()), ast.Add(), x)])
        if n == 'next' and len(e.args) == 2 and len(c.generators) == 1:
            return self.desugar(c, st, e.args[1], lambda nm, x: [asg(nm, x), ast.Break()])
        return None

    def e_Yield(self, e, st):
        if e.value is None:
            self.record('yield', e, st, value=NONE)
            return [(st, self.top('sent'))]
        out = []
        for s, t in self.eval(e.value, st):
            self.record('yield', e, s, value=t)
            if self.gen_consumer and self.gen_consumer[-1] is not None:
                self.gen_consumer[-1].append((s, t))
            out.append((s, self.top('sent')))
        return out

    def e_YieldFrom(self, e, st):
        if isinstance(e.value, ast.Call):
            r = self.try_inline_gen(e.value, st)
            if r is not None:
                return [(s, NONE) for s in r]
        out = []
        for s, t in self.eval(e.value, st):
            el = mk('el', t, id(e))
            self.record('yield', e, s, value=el)
            out.append((s, NONE))
        return out

    def try_inline_gen(self, call, st):
        """run a generator helper in place; its yields become ours"""
        out = []
        for s, ft in self.eval(call.func, st):
            f = None
            selfarg = None
            if ft.op == 'fn':
                f = self.prog.funcs[ft.a[0]]
            elif ft.op == 'bm':
                f = self.prog.funcs[ft.a[1]]
                selfarg = ft.a[0]
            if f is None or not f.is_gen or not self.should_inline(f, gen=True):
                return None
            for s2, args in self.evals(call.args, s):
                kws = {}
                acc = [(s2, {})]
                for k in call.keywords:
                    acc = [(s4, dict(d, **{k.arg: t})) for s3, d in acc for s4, t in self.eval(k.value, s3)]
                for s3, d in acc:
                    a = ([selfarg] if selfarg is not None else []) + args
                    for s4, _ in self.run_func(f, a, d, s3, ft.a[1] if ft.op == 'fn' else -1):
                        out.append(s4)
        return out

    # ------------------------------------------------------------ calls
    def should_inline(self, f, gen=False):
        if f.is_gen and not gen:
            return False
        if f.qual in self.opaque:
            return False
        if len(self.stack) > self.MAXDEPTH:
            return False
        if f.qual in self.stack:
            return False
        if f.qual in self.force:
            return True
        if self.inline_hook is not None:
            r = self.inline_hook(f)
            if r is not None:
                return r
        if f.qual not in self.base:
            return True
        if self.inline_list is not None:
            return f.qual in self.inline_list
        return default_inline(f)

    def bind_args(self, f, args, kws, st):
        env = {}
        params = list(f.params)
        for p, a in zip(params, args):
            env[p] = a
        if len(args) > len(params) and f.vararg:
            env[f.vararg] = mk('tuple', tuple(args[len(params):]))
        for k, v in kws.items():
            env[k] = v
        for p in params + f.kwonly:
            if p not in env:
                if p in f.defaults:
                    v = self.eval_const_expr(f.mod, f.defaults[p])
                    env[p] = v if v is not None else self.top('default')
                else:
                    env[p] = mk('p', f.qual, p)
        return env

    def run_func(self, f, args, kws, st, closure=-1, bind=None):
        """execute f from st -> [(state, return term)]; exceptions go to the sink"""
        self.analysed.add(f.qual)
        self.nfid += 1
        fid = self.nfid
        parent = None
        if f.parent is not None:
            for fr in reversed(self.frames):
                if fr.fid == closure or (closure == -1 and fr.fn is f.parent):
                    parent = fr
                    break
        fr = Frame(fid, f, parent, f.mod)
        s = st.copy()
        env = bind if bind is not None else self.bind_args(f, args, kws, st)
        for k, v in env.items():
            s.env[(fid, k)] = v
        self.frames.append(fr)
        self.stack.append(f.qual)
        loops = self.loops
        try:
            o = self.block(f.body, [s])
        finally:
            self.frames.pop()
            self.stack.pop()
        out = [(s, NONE) for s in o.norm] + o.ret
        res = []
        for s, t in out:
            s.env = {k: v for k, v in s.env.items() if k[0] != fid} if not f.nested or True else s.env
            res.append((s, t))
        return res

    def call_func(self, f, args, kws, st, node, closure=-1):
        if self.should_inline(f):
            objcls = None
            if f.cls is not None and args and f.params and f.params[0] == 'self' and f.parent is None:
                o = args[0]
                c = self.class_of(o, st)
                if c is not None and o.op not in ('self', 'new') and f.name != '__init__':
                    st = self.with_invariants(o, c, st)
            r = self.run_func(f, args, kws, st, closure)
            # group the results by value, then merge when there are many
            if len(r) > 4:
                r = self.fold_results([(s.copy(), t) for s, t in r])
            return r
        env = self.bind_args(f, args, kws, st)
        names = f.params + f.kwonly
        t = self.callterm(f, env, names)
        self.record('callrepo', node, st, fn_qual=f.qual, args=tuple(env[p] for p in names), term=t)
        s = st
        if not f.is_gen:
            for exc in self.raise_types(f.qual):
                q = st.copy()
                q.trail = q.trail + (self.raised(f.qual, exc, t),)
                self.sinks[-1].append((q, exc, node, self.frames[-1].fn if self.frames else None))
            s = self.havoc_call(f, st, t, [env[p] for p in names])
        return [(s, t)]

    def callterm(self, f, env, names):
        """an unfolded call, in terms of the parameters the reference knows"""
        if self.base and f.qual not in self.base:
            return self.top('unknown function')
        known = self.params.get(f.qual) if self.params is not None else None
        if known is not None and list(known) != names:
            if len(known) > len(names):
                return self.top('signature')
            for p in names[len(known):]:
                d = self.eval_const_expr(f.mod, f.defaults[p]) if p in f.defaults else None
                if d is None or env[p] is not d:
                    return self.top('signature')
            names = names[:len(known)]
        return mk('call', f.qual, tuple(env[p] for p in names))

    def raised(self, qual, exc, t):
        a = () if any(x.op in ('top', 'undef') for x in subterms(t)) else t.a[1]
        return mk('t', mk('raised', qual, exc, a))

    def raise_types(self, qual):
        from .raises import raises_of
        return raises_of(self.prog, qual)

    def mods_of(self, f):
        from .raises import mods_of
        return mods_of(self.prog, f)

    def within(self, o, a):
        """may the callee reach the object o from the argument a"""
        if a is o:
            return True
        if a.op in ('new', 'list', 'tuple', 'dict', 'set', 'ntup'):
            return any(self.within(o, x) for x in flat(a.a))
        if a.op in ('c', 'f', 'sl', 'L', 'fmt', 'b', 'fn', 'p'):
            return False
        return o in subterms(a) and not (a.op == 'at' and a.a[1] in FILES)

    def havoc_call(self, f, st, t, args):
        mods, reads = self.mods_of(f)
        s = st
        changed = False
        for k in list(st.heap):
            if (k[1] in mods) or (k[1] == '$pos' and reads):
                if not changed:
                    s = st.copy()
                    changed = True
                if k[1] == '$pos' or t.op == 'top':
                    s.heap[k] = self.top('havoc ' + str(k[1]))
                elif any(self.within(k[0], a) for a in args) or k[0].op not in ('self', 'new'):
                    s.heap[k] = mk('hv', k[1], t, s.heap[k])
        for a in mods:
            pass
        return s

    def with_invariants(self, o, c, st):
        attrs, inv, excs, types = self.class_summary(c)
        if not inv:
            return st
        m = self.cp_map(o, c, None)
        f = st.facts
        for l in inv:
            g = f.add(subst(l, m))
            if g is not None:
                f = g
        if f is st.facts:
            return st
        s = st.copy()
        s.facts = f
        return s

    def construct(self, c, args, kws, st, node):
        init = c.find('__init__')
        if init is None:
            t = mk('new', c.qual, tuple())
            self.record('new', node, st, cls=c.qual, args={}, term=t)
            return [(st, t)]
        env = self.bind_args(init, [NONE] + args, kws, st)
        names, extra = self.pnames(init)
        items = tuple((q, env[p]) for q, p in zip(names[1:], init.params[1:])) + tuple((p, env[p]) for p in init.kwonly)
        for p in extra:
            d = self.eval_const_expr(init.mod, init.defaults[p]) if p in init.defaults else None
            if d is None or env[p] is not d:
                items += (('?', self.top('signature')),)
        t = mk('new', c.qual, items)
        self.record('new', node, st, cls=c.qual, args=dict(items), term=t)
        attrs, inv, excs, types = self.class_summary(c)
        m = self.cp_map(t, c, None)
        seen = set()
        for exc, facts in excs:
            f = st.facts
            for l in facts.literals():
                l2 = subst(l, m)
                g = f.add(l2)
                if g is None:
                    f = None
                    break
                f = g
            if f is None:
                continue
            if exc in seen:
                continue
            s = st.copy()
            s.trail = s.trail + (self.raised(init.qual, exc, t),)
            self.sinks[-1].append((s, exc, node, self.frames[-1].fn if self.frames else None))
            seen.add(exc)
        for exc in self.raise_types(init.qual):
            if exc not in seen:
                q = st.copy()
                q.trail = q.trail + (self.raised(init.qual, exc, t),)
                self.sinks[-1].append((q, exc, node, self.frames[-1].fn if self.frames else None))
        s = st.copy()
        f = s.facts
        for l in inv:
            g = f.add(subst(l, m))
            if g is None:
                return []
            f = g
        s.facts = f
        for k in list(s.heap):
            if k[1] == '$pos':
                s.heap[k] = self.top('pos')
        return [(s, t)]

    def e_Call(self, e, st):
        r = self.comp_call(e, st)
        if r is not None:
            return r
        # super().__init__ and friends
        fn = e.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
            fr = self.frames[-1]
            cls = fr.fn.cls
            selft = self.lookup('self', st)
            f = None
            if cls is not None:
                for c in cls.mro()[1:]:
                    if fn.attr in c.methods:
                        f = c.methods[fn.attr]
                        break
            out = []
            for s, args, kws in self.args(e, st):
                if f is not None:
                    out += self.call_func(f, [selft] + args, kws, s, e)
                else:
                    out.append((s, self.top('super')))
            return out
        out = []
        if isinstance(fn, ast.Attribute):
            for s0, b in self.eval(fn.value, st) if fn.attr in MUTATORS else self.expand(self.eval(fn.value, st)):
                ft = self.getattr_(b, fn.attr, s0, e)
                for s, args, kws in self.args(e, s0):
                    if ft.op in ('fn', 'bm', 'cls', 'ntcls', 'x', 'bi', 'partial'):
                        out += self.apply(ft, args, kws, s, e)
                    else:
                        # the receiver may have been refined while evaluating arguments
                        out += self.method(b, fn.attr, args, kws, s, e)
            return out
        for s0, ft in self.eval(fn, st):
            for s, args, kws in self.args(e, s0):
                out += self.apply(ft, args, kws, s, e)
        return out

    def args(self, e, st):
        out = []
        for s, a in self.evals(e.args, st):
            acc = [(s, {})]
            for k in e.keywords:
                nxt = []
                for s2, d in acc:
                    for s3, t in self.eval(k.value, s2):
                        d2 = dict(d)
                        if k.arg is not None:
                            d2[k.arg] = t
                        nxt.append((s3, d2))
                acc = nxt
            for s2, d in acc:
                out.append((s2, a, d))
        return out

    def apply(self, ft, args, kws, s, e):
        if ft.op == 'fn':
            f = self.prog.funcs[ft.a[0]]
            return self.call_func(f, args, kws, s, e, ft.a[1])
        if ft.op == 'bm':
            f = self.prog.funcs[ft.a[1]]
            if f.static:
                return self.call_func(f, args, kws, s, e)
            return self.call_func(f, [ft.a[0]] + args, kws, s, e)
        if ft.op == 'cls':
            return self.construct(self.prog.classes[ft.a[0]], args, kws, s, e)
        if ft.op == 'ntcls':
            fields = ft.a[1]
            d = dict(zip(fields, args))
            d.update(kws)
            t = mk('ntup', ft.a[0], tuple((k, d.get(k, NONE)) for k in fields))
            self.record('newnt', e, s, name=ft.a[0], term=t)
            return [(s, t)]
        if ft.op == 'bi':
            return self.builtin(ft.a[0], args, kws, s, e)
        if ft.op == 'x':
            return self.external(ft.a[0], args, kws, s, e)
        t = mk('dyn', ft, tuple(args), tuple(sorted(kws.items())))
        self.record('dyncall', e, s, func=ft, args=tuple(args), kws=kws, term=t)
        return [(s, t)]

    def builtin(self, n, args, kws, s, e):
        a = args[0] if args else None
        if n == 'len' and a is not None:
            return [(s, length(a))]
        if n in ('int', 'index') and len(args) == 1:
            if is_num(a) or cint(a) is not None:
                return [(s, a)]
        if n == 'bool' and len(args) == 1:
            return [(s, boolterm(truth(a)))]
        if n in ('bytes', 'bytearray') and len(args) == 1 and not kws and a.op in ('p', 'at', 'cp') and re.search('size|length|count|left|width|padding', str(a.a[-1])):
            return [(s, self.binop(ast.Mult(), C(b'\x00'), a))]
        if n in ('bytes', 'bytearray', 'memoryview') and len(args) == 1:
            if a.op in ('sl', 'cat', 'cp', 'at', 'p', 'file') or (isc(a) and isinstance(a.a[0], bytes)):
                return [(s, a)]
        if n in ('bytes', 'bytearray') and len(args) == 1 and not kws and (is_num(a) or cint(a) is not None):
            return [(s, self.binop(ast.Mult(), C(b'\x00'), a))]
        if n in ('bytes', 'bytearray') and not args:
            return [(s, C(b''))]
        if n in ('list', 'tuple') and len(args) == 1 and a.op in ('list', 'tuple'):
            return [(s, mk(n, a.a[0]))]
        if n == 'sorted' and len(args) == 1 and not (a.op == 'dict' or a.op == 'm' and a.a[0] == 'keys' and a.a[1].op == 'dict' or a.op in ('list', 'tuple', 'set') and all(isc(x) for x in a.a[0])):
            return [(s, mk('sorted', a, self.lam(kws.get('key', NONE), s), kws.get('reverse', C(False))))]
        if kws and n in ('min', 'max') and 'key' in kws:
            kws = dict(kws, key=self.lam(kws['key'], s))
        if n in ('list', 'tuple', 'sorted') and len(args) == 1 and not kws:
            d = a.a[1] if a.op == 'm' and a.a[0] == 'keys' else a
            if d.op == 'dict' and all(isinstance(k, T) and isc(k) for k, _v in d.a[0]):
                ks = [k.a[0] for k, _v in d.a[0]]
                try:
                    return [(s, mk('tuple' if n == 'tuple' else 'list', tuple(C(k) for k in (sorted(ks) if n == 'sorted' else ks))))]
                except TypeError:
                    pass
        if n in ('set', 'frozenset') and len(args) == 1:
            if a.op in ('list', 'tuple', 'set'):
                return [(s, mk('set', a.a[0]))]
        if n in ('set', 'list', 'dict') and not args and not kws:
            return [(s, mk(n, ()))]
        if n == 'isinstance' and len(args) == 2:
            if a is not None and args[1].op in ('cls', 'ntcls'):
                c = self.prog.classes.get(args[1].a[0]) if args[1].op == 'cls' else None
                if c is None or not c.subclasses:
                    return [(s, boolterm(self.typelit(a, args[1], True, s)))]
            if args[1].op == 'tuple':
                out = []
                cur = [s]
                for k in args[1].a[0]:
                    nxt = []
                    for q in cur:
                        l = self.typelit(a, k, True, q)
                        x, y = q.assume(l), q.assume(negl(l))
                        if x is not None:
                            out.append((x, TRUE_T))
                        if y is not None:
                            nxt.append(y)
                    cur = nxt
                return out + [(q, FALSE_T) for q in cur]
            return [(s, boolterm(mk('isinst', a, args[1])))]
        if n in ('min', 'max') and len(args) == 2:
            l = le0(sub(args[0], args[1]))
            out = []
            x, y = s.assume(l), s.assume(negl(l))
            if x is not None:
                out.append((x, args[0] if n == 'min' else args[1]))
            if y is not None:
                out.append((y, args[1] if n == 'min' else args[0]))
            return out
        if n == 'divmod' and len(args) == 2:
            return [(s, mk('tuple', (fdiv(*args), fmod(*args))))]
        if n == 'hex' and len(args) == 1 and cint(a) is not None:
            return [(s, C(hex(cint(a))))]
        if n == 'str' and len(args) == 1 and not kws:
            return [(s, mkfmt([mk('hole', a, '')]))]
        if n == 'chr' and len(args) == 1 and cint(a) is not None:
            return [(s, C(chr(cint(a))))]
        if n == 'range':
            lo, hi, step = ZERO, a, C(1)
            if len(args) >= 2:
                lo, hi = args[0], args[1]
            if len(args) == 3:
                step = args[2]
            return [(s, mk('range', lo, hi, step))]
        if n == 'open':
            self.record('open', e, s, args=tuple(args), kws=kws)
            return [(s, mk('opened', e.lineno, tuple(args), tuple(sorted(kws.items()))))]
        t = mk('ext', n, tuple(args), tuple(sorted(kws.items())))
        self.record('ext', e, s, name=n, args=tuple(args), kws=kws, term=t)
        if n in ('exit', 'quit'):
            self.raise_(s, 'SystemExit', e)
            return []
        return [(s, t)]

    def external(self, n, args, kws, s, e):
        if n in ('struct.unpack', 'struct.unpack_from') and len(args) >= 2 and isc(args[0]) and isinstance(args[0].a[0], (str, bytes)):
            buf = args[1]
            off = ZERO
            if n.endswith('_from'):
                off = args[2] if len(args) > 2 else kws.get('offset', ZERO)
            r = unpack_fields(args[0].a[0], buf, off)
            if r is not None:
                fs, total = r
                self.record('unpack', e, s, fmt=args[0].a[0], total=total, buf=buf, off=off, exact=not n.endswith('_from'))
                return [(s, mk('tuple', tuple(fs)))]
        if n == 'struct.calcsize' and isc(args[0]):
            import struct as _s
            try:
                return [(s, C(_s.calcsize(args[0].a[0])))]
            except Exception:
                pass
        if n in ('int.from_bytes',):
            pass
        if n in ('collections.namedtuple', 'namedtuple') and len(args) >= 2 and isc(args[0]):
            fl = None
            if args[1].op in ('list', 'tuple') and all(isc(x) for x in args[1].a[0]):
                fl = tuple(x.a[0] for x in args[1].a[0])
            elif isc(args[1]) and isinstance(args[1].a[0], str):
                fl = tuple(args[1].a[0].replace(',', ' ').split())
            if fl is not None:
                mod = self.frames[-1].mod.name if self.frames else '?'
                return [(s, mk('ntcls', mod + '.' + args[0].a[0], fl))]
        t = mk('ext', n, tuple(args), tuple(sorted(kws.items())))
        self.record('ext', e, s, name=n, args=tuple(args), kws=kws, term=t)
        if n == 'sys.exit':
            self.raise_(s, 'SystemExit', e)
            return []
        return [(s, t)]

    def method(self, b, name, args, kws, s, e):
        if b.op == 'bi' and b.a[0] == 'int' and name == 'from_bytes':
            order = args[1] if len(args) > 1 else kws.get('byteorder', C('big'))
            signed = kws.get('signed', FALSE_T)
            if isc(order) and isc(signed):
                buf = args[0]
                if buf.op == 'sl' and buf.a[2] is not None:
                    return [(s, field(buf, ZERO, sub(buf.a[2], buf.a[1]), bool(signed.a[0]), '<' if order.a[0] == 'little' else '>'))]
        if b.op == 'bi' and b.a[0] == 'bytes' and name == 'fromhex':
            pass
        if name == 'seek' and len(args) >= 1:
            whence = args[1] if len(args) > 1 else kws.get('whence', ZERO)
            s = s.copy()
            w = cint(whence)
            pos = None
            if w == 0:
                pos = args[0]
            elif w == 1:
                cur = s.heap.get((b, '$pos'))
                pos = add(cur, args[0]) if cur is not None else None
            elif w == 2:
                pos = add(mk('len', mk('file', b)), args[0])
            self.record('seek', e, s, obj=b, pos=args[0], whence=whence, abs=pos)
            s.heap[(b, '$pos')] = pos if pos is not None else self.top('pos')
            return [(s, s.heap[(b, '$pos')])]
        if name == 'tell' and not args:
            p = s.heap.get((b, '$pos'))
            if p is not None:
                return [(s, p)]
            t = self.top('tell')
            s = s.copy()
            s.heap[(b, '$pos')] = t
            return [(s, t)]
        if name == 'read' and len(args) <= 1:
            s = s.copy()
            p = s.heap.get((b, '$pos'))
            if p is None:
                p = mk('pos0', b)
            n = args[0] if args else kws.get('size')
            F = mk('file', b)
            t = slice_(F, p, add(p, n) if n is not None else None)
            self.record('read', e, s, obj=b, pos=p, size=n, term=t)
            s.heap[(b, '$pos')] = add(p, n) if n is not None else self.top('eof')
            return [(s, t)]
        if name in MUTATORS:
            s = s.copy()
            self.record('mutate', e, s, obj=b, name=name, args=tuple(args), recv=e.func.value)
            self.mutate(e.func.value, b, name, args, s, kws)
            return [(s, self.top('mut.' + name) if name in ('pop', 'setdefault', 'popitem') else NONE)]
        if name == 'keys' and b.op == 'dict' and not args:
            return [(s, mk('m', 'keys', b))]
        if name == 'copy' and not args and b.op in ('list', 'set', 'dict', 'lv', 'app'):
            return [(s, b)]
        if name == '_replace' and not args:
            fs = None
            if b.op == 'ntup':
                cls, fs = b.a[0], dict(b.a[1])
            else:
                for l in s.facts.lits:
                    if l.op == 'ty' and l.a[0] is b and l.a[1].op == 'ntcls':
                        cls, fs = l.a[1].a[0], {k: self.getattr_(b, k, s) for k in l.a[1].a[1]}
            if fs is not None and all(k in fs for k in kws):
                return [(s, mk('ntup', cls, tuple((k, kws.get(k, v)) for k, v in fs.items())))]
        if name == '_asdict' and b.op == 'ntup' and not args:
            return [(s, mk('dict', tuple((C(k), v) for k, v in b.a[1])))]
        if name == 'get' and 1 <= len(args) <= 2 and not kws and b.op in ('dict', 'at', 'p', 'lv', 'mut', 'g', 'cp'):
            out = []
            t_, f_ = self.split(self._compare(ast.In(), args[0], b, s), s)
            for q in t_:
                v = self.under(index(b, args[0]), b, args[0], q)
                if v.op == 'idx' and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and self.never_none(e.func.value):
                    self.nonnull.add(v)
                out.append((q, v))
            for q in f_:
                out.append((q, args[1] if len(args) > 1 else NONE))
            return out
        if name in ('startswith', 'endswith') and len(args) == 1 and isc(args[0]) and isinstance(args[0].a[0], (bytes, str)) and args[0].a[0]:
            c = args[0].a[0]
            piece = slice_(b, ZERO, C(len(c))) if name == 'startswith' else slice_(b, C(-len(c)), None)
            return [(s, boolterm(eq(piece, args[0])))]
        if b.op == 'ext' and b.a[0] == 'struct.Struct' and name in ('unpack', 'unpack_from') and b.a[1]:
            return self.external('struct.' + name, [b.a[1][0]] + list(args), kws, s, e)
        if name == 'format' and isc(b) and isinstance(b.a[0], str) and not any(x.op == 'star' for x in args):
            t = self.str_format(b.a[0], args, kws)
            if t is not None:
                return [(s, t)]
        t = mk('m', name, b, tuple(args), tuple(sorted(kws.items())))
        self.record('method', e, s, obj=b, name=name, args=tuple(args), kws=kws, term=t)
        return [(s, t)]

    def under(self, t, b, i, s):
        """an element of a written-out table whose index the facts pin down"""
        if b.op == 'dict':
            for k, v in b.a[0]:
                if isinstance(k, T) and s.facts.entails(eq(i, k)):
                    return v
        return t

    acc_funcs = frozenset()

    def accumulators(self, f):
        """local lists a function only grows, in many places: their contents are kept as emitted items"""
        if f is None:
            return ()
        r = getattr(f, '_accs', None)
        if r is None:
            r = f._accs = growers(f, 0 if f.qual in self.acc_funcs else 10)
        return r

    def emit(self, node, s, v):
        self.record('emit', node, s, value=v)

    def lam(self, t, s):
        """what a function given as an argument computes"""
        if t.op != 'lambda':
            if t.op == 'ext' and t.a[0].endswith('attrgetter') and len(t.a[1]) == 1 and isc(t.a[1][0]) and isinstance(t.a[1][0].a[0], str) and '.' not in t.a[1][0].a[0]:
                return mk('lam', mk('at', mk('p', '', '$0'), t.a[1][0].a[0]))
            if t.op == 'ext' and t.a[0].endswith('itemgetter') and len(t.a[1]) == 1:
                return mk('lam', mk('idx', mk('p', '', '$0'), t.a[1][0]))
            if t.op == 'cls':
                return t
            if t.op == 'at' and t.a[1] == 'get':
                return mk('lam', mk('idx', t.a[0], mk('p', '', '$0')))
            f = self.prog.funcs.get(t.a[0]) if t.op == 'fn' and isinstance(t.a[0], str) else None
            if f is not None and f.mod is self.frames[-1].mod and isinstance(f.node, ast.FunctionDef):
                body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                g = f.node.args
                if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and len(g.args) == 1 and not (g.defaults or g.vararg or g.kwonlyargs or g.kwarg):
                    s = s.copy()
                    s.env[(self.frames[-1].fid, g.args[0].arg)] = mk('p', '', '$0')
                    r = self.eval_quiet(body[0].value, s)
                    return mk('lam', r) if r is not None else self.top('function')
            return t if t is NONE or isc(t) else self.top('function')
        e = self.lambdas[t.a[0]]
        if e.args.defaults or e.args.vararg or e.args.kwonlyargs:
            return self.top('lambda')
        fr = self.frames[-1]
        s = s.copy()
        for i, x in enumerate(e.args.args):
            s.env[(fr.fid, x.arg)] = mk('p', '', '$%d' % i)
        r = self.eval_quiet(e.body, s)
        return mk('lam', r) if r is not None else self.top('lambda')

    def mutate(self, target, b, name, args, s, kws={}):
        if b.op == 'acc':
            for x in args:
                if name == 'extend' and x.op in ('list', 'tuple'):
                    for y in x.a[0]:
                        self.emit(target, s, y)
                else:
                    self.emit(target, s, x if name == 'append' else mk('op', name, x))
            return
        if name == 'append' and b.op == 'list' and len(args) == 1:
            v = mk('list', b.a[0] + (args[0],))
        elif name == 'extend' and b.op == 'list' and len(args) == 1 and args[0].op in ('list', 'tuple'):
            v = mk('list', b.a[0] + args[0].a[0])
        elif name in ('append', 'add') and len(args) == 1:
            v = mk('app', b, args[0])
        elif name == 'extend' and len(args) == 1 and (args[0].op in ('list', 'tuple') and not any(x.op == 'star' for x in args[0].a[0]) or isc(args[0]) and isinstance(args[0].a[0], tuple)):
            v = b
            for x in (args[0].a[0] if args[0].op != 'c' else [C(y) for y in args[0].a[0]]):
                v = mk('app', v, x)
        elif name == 'sort':
            v = mk('sorted', b, self.lam(kws.get('key', NONE), s), kws.get('reverse', C(False)))
        elif name == 'reverse':
            v = mk('reversed', b)
        else:
            v = mk('mut', b, name, tuple(args))
        if isinstance(target, ast.Name):
            fr = self.frames[-1]
            while fr is not None:
                if (fr.fid, target.id) in s.env:
                    s.env[(fr.fid, target.id)] = v
                    return
                fr = fr.parent
            k = ('G:' + self.frames[-1].mod.name, target.id)
            s.env[k] = v
        elif isinstance(target, ast.Attribute):
            r = self.eval_quiet(target.value, s)
            if r is not None:
                s.heap[(r, target.attr)] = v

    def eval_quiet(self, e, s):
        self.mute += 1
        n = len(self.sinks[-1])
        try:
            r = self.eval(e, s)
        finally:
            self.mute -= 1
            del self.sinks[-1][n:]
        return r[0][1] if len(r) == 1 else None

    # ------------------------------------------------------------ statements
    def block(self, stmts, states):
        o = Out()
        cur = states
        for n in stmts:
            if not cur:
                break
            nxt = []
            if len(cur) > 2 and isinstance(n, (ast.While, ast.For, ast.Try)):
                cur = self.gate_merge(self.exact_merge(cur))
            for s in cur:
                r = self.stmt(n, s)
                nxt += r.norm
                o.brk += r.brk
                o.cont += r.cont
                o.ret += r.ret
            cur = self.limit(self.prune(n, nxt))
        o.norm = cur
        if len(o.brk) > self.MAXSTATES:
            o.brk = self.limit(o.brk)
        if len(o.cont) > self.MAXSTATES:
            o.cont = self.limit(o.cont)
        return o

    def prune(self, n, sts):
        """forget locals that are not read again"""
        fr = self.frames[-1]
        f = fr.fn
        if f is None or getattr(f, 'is_module', False):
            return sts
        lv = getattr(f, '_live', None)
        if lv is None:
            lv = f._live = Liveness(f.node)
        live = lv.after.get(id(n))
        if live is None:
            return sts
        for s in sts:
            dead = [k for k in s.env if k[0] == fr.fid and k[1] not in live and k[1] not in lv.keep and not k[1].startswith('$')]
            for k in dead:
                del s.env[k]
        return sts

    def prune_names(self, h, sts):
        fr = self.frames[-1]
        f = fr.fn
        if f is None or getattr(f, 'is_module', False) or not h.body:
            return
        lv = getattr(f, '_live', None)
        if lv is None:
            lv = f._live = Liveness(f.node)
        live = lv.entry.get(id(h))
        if live is None:
            return
        for s in sts:
            for k in [k for k in s.env if k[0] == fr.fid and k[1] not in live and k[1] not in lv.keep and not k[1].startswith('$')]:
                del s.env[k]

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(type(n).__name__)
        return m(n, st)

    def norm(self, states):
        o = Out()
        o.norm = states
        return o

    def s_Pass(self, n, st):
        return self.norm([st])

    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_FunctionDef = s_ClassDef = s_Pass

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return self.norm([st])
        return self.norm([s for s, _ in self.eval(n.value, st)])

    def s_Assign(self, n, st):
        out = []
        for s, t in self.eval(n.value, st):
            s = s.copy()
            for tg in n.targets:
                self.assign(tg, t, s, n)
            out.append(s)
        return self.norm(out)

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return self.norm([st])
        out = []
        for s, t in self.eval(n.value, st):
            s = s.copy()
            self.assign(n.target, t, s, n)
            out.append(s)
        return self.norm(out)

    def s_AugAssign(self, n, st):
        load = n.target
        if isinstance(load, ast.Name):
            le = ast.copy_location(ast.Name(id=load.id, ctx=ast.Load()), load)
        elif isinstance(load, ast.Attribute):
            le = ast.copy_location(ast.Attribute(value=load.value, attr=load.attr, ctx=ast.Load()), load)
        else:
            le = ast.copy_location(ast.Subscript(value=load.value, slice=load.slice, ctx=ast.Load()), load)
        out = []
        for s, (a, b) in self.evals([le, n.value], st):
            s = s.copy()
            if a.op == 'acc':
                self.mutate(n.target, a, 'extend', [b], s)
            else:
                self.assign(n.target, self.binop(n.op, a, b), s, n)
            out.append(s)
        return self.norm(out)

    def assign(self, tg, t, s, n):
        if isinstance(tg, ast.Name):
            if t.op == 'list' and tg.id in self.accumulators(self.frames[-1].fn):
                for x in t.a[0]:
                    self.emit(n, s, x)
                t = mk('acc', 0)
            self.setvar(tg.id, t, s)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            k = len(tg.elts)
            for i, e in enumerate(tg.elts):
                if t.op in ('tuple', 'list') and len(t.a[0]) == k:
                    v = t.a[0][i]
                elif t.op == 'ntup' and len(t.a[1]) == k:
                    v = t.a[1][i][1]
                elif t.op == 'phi' and all(x.op == 'tuple' and len(x.a[0]) == k for x in t.a[0]):
                    v = phi([x.a[0][i] for x in t.a[0]])
                else:
                    v = mk('idx', t, C(i))
                self.assign(e, v, s, n)
        elif isinstance(tg, ast.Attribute):
            b = self.eval_quiet(tg.value, s)
            if b is not None:
                self.record('setattr', n, s, obj=b, attr=tg.attr, value=t)
                s.heap[(b, tg.attr)] = t
        elif isinstance(tg, ast.Subscript):
            b = self.eval_quiet(tg.value, s)
            if isinstance(tg.slice, ast.Slice):
                lo = self.eval_quiet(tg.slice.lower, s) if tg.slice.lower else ZERO
                hi = self.eval_quiet(tg.slice.upper, s) if tg.slice.upper else None
                w = cint(sub(hi, lo)) if hi is not None and lo is not None else None
                if b is not None and w is not None and 0 < w <= 8 and (t.op == 'sl' and t.a[2] is not None and cint(sub(t.a[2], t.a[1])) == w or isc(t) and isinstance(t.a[0], bytes) and len(t.a[0]) == w):
                    # as many bytes as there were
                    for i in range(w):
                        self.record('setitem', n, s, base=b, idx=add(lo, C(i)), value=C(t.a[0][i]) if isc(t) else field(t.a[0], add(t.a[1], C(i)), 1, False, '<'))
                elif b is not None:
                    self.record('setslice', n, s, base=b, lo=lo, hi=hi, value=t)
            else:
                i = self.eval_quiet(tg.slice, s)
                if b is not None and i is not None:
                    self.record('setitem', n, s, base=b, idx=i, value=t)
            if b is not None and b.op in ('dict', 'list', 'set') and isinstance(tg.value, ast.Name):
                self.setvar(tg.value.id, mk('mut', b, 'setitem', ()), s) if (self.frames[-1].fid, tg.value.id) in s.env else None
            elif b is not None and isinstance(tg.value, ast.Attribute):
                o = self.eval_quiet(tg.value.value, s)
                if o is not None and s.heap.get((o, tg.value.attr)) is b and not (b.op == 'mut' and b.a[1] == 'setitem'):
                    s.heap[(o, tg.value.attr)] = mk('mut', b, 'setitem', ())
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, self.top('star'), s, n)

    def s_Delete(self, n, st):
        for tg in n.targets:
            if isinstance(tg, ast.Subscript):
                b = self.eval_quiet(tg.value, st)
                if b is not None:
                    i = self.eval_quiet(tg.slice, st) if not isinstance(tg.slice, ast.Slice) else None
                    self.record('delitem', n, st, base=b, idx=i)
        return self.norm([st])

    def s_Assert(self, n, st):
        t, f = self.cond(n.test, st)
        for s in f:
            self.raise_(s, 'AssertionError', n)
        return self.norm(t)

    def s_Return(self, n, st):
        o = Out()
        if n.value is None:
            o.ret = [(st, NONE)]
            rs = o.ret
        else:
            rs = self.eval(n.value, st)
            o.ret = rs
        for s, t in rs:
            self.record('return', n, s, value=t)
        return o

    def s_Break(self, n, st):
        o = Out()
        o.brk = [st]
        return o

    def s_Continue(self, n, st):
        o = Out()
        o.cont = [st]
        return o

    def raise_(self, s, exc, n):
        self.record('raise', n, s, exc=exc)
        self.raise_loops[id(s)] = (s, tuple(self.loops))
        self.sinks[-1].append((s, exc, n, self.frames[-1].fn if self.frames else None))

    def s_Raise(self, n, st):
        o = Out()
        if n.exc is None:
            self.raise_(st, getattr(self, 'cur_exc', ['Exception'])[-1] if getattr(self, 'cur_exc', None) else 'Exception', n)
            return o
        exc = self.prog.exc_name(self.frames[-1].mod, n.exc)
        if isinstance(n.exc, ast.Call):
            states = [s for s, _ in self.evals(n.exc.args, st)]
        else:
            states = [st]
        for s in states[:4]:
            self.raise_(s, exc if isinstance(exc, str) else 'Exception', n)
        return o

    def s_If(self, n, st):
        t, f = self.cond(n.test, st)
        o = Out()
        if t:
            r = self.block(n.body, t)
            o.norm += r.norm
            o.brk += r.brk
            o.cont += r.cont
            o.ret += r.ret
        if f:
            if n.orelse:
                r = self.block(n.orelse, f)
                o.norm += r.norm
                o.brk += r.brk
                o.cont += r.cont
                o.ret += r.ret
            else:
                o.norm += f
        return o

    def s_With(self, n, st):
        states = [st]
        for it in n.items:
            nxt = []
            for s in states:
                for s2, t in self.eval(it.context_expr, s):
                    s2 = s2.copy()
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, t, s2, n)
                    nxt.append(s2)
            states = nxt
        return self.block(n.body, states)

    def handler_types(self, h):
        if h.type is None:
            return ['BaseException']
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        mod = self.frames[-1].mod
        return [self.prog.exc_name(mod, x) or 'Exception' for x in es]

    def s_Try(self, n, st):
        o = Out()
        sink = []
        st = st.copy()
        cnt = dict(st.cnt)
        for h in n.handlers:
            for t in self.handler_types(h):
                if t in IMPLICIT:
                    cnt[t] = cnt.get(t, 0) + 1
        st.cnt = tuple(sorted(cnt.items()))
        self.sinks.append(sink)
        try:
            r = self.block(n.body, [st])
        finally:
            self.sinks.pop()
        o.brk += r.brk
        o.cont += r.cont
        o.ret += r.ret
        norm = r.norm
        if n.orelse and norm:
            r2 = self.block(n.orelse, norm)
            norm = r2.norm
            o.brk += r2.brk
            o.cont += r2.cont
            o.ret += r2.ret
        o.norm += norm
        pending = sink
        for h in n.handlers:
            types = self.handler_types(h)
            hit, rest = [], []
            for item in pending:
                s, exc, nd, fn = item
                if set(self.prog.exc_bases(exc)) & set(types):
                    hit.append(item)
                else:
                    rest.append(item)
            pending = rest
            states = []
            n0 = len(st.trail)
            for s, exc, nd, fn in hit:
                s = s.copy()
                if len(s.trail) > n0 and s.trail[-1].op == 't' and s.trail[-1].a[0].op == 'raised':
                    # the call happened, so the conditions that lead to it hold
                    s.trail = s.trail[:n0] + s.trail[-1:]
                states.append(s)
            self.prune_names(h, states)
            states = self.exact_merge(states)
            names = {exc for s, exc, nd, fn in hit}
            for t in types:
                if t in IMPLICIT:
                    s = st.copy()
                    self.havoc_try(n.body, s, mk('caught', t, cnt[t]))
                    s.trail = s.trail + (mk('t', mk('caught', t, cnt[t])),)
                    states.append(s)
            if not states:
                continue
            states = self.limit(states)
            if h.name:
                for s in states:
                    self.setvar(h.name, mk('exc', tuple(sorted(names))), s)
            if not hasattr(self, 'cur_exc'):
                self.cur_exc = []
            self.record('except', h, states[0], types=tuple(types), caught=tuple(sorted(names)))
            self.cur_exc.append(types[0])
            r = self.block(h.body, states)
            self.cur_exc.pop()
            o.norm += r.norm
            o.brk += r.brk
            o.cont += r.cont
            o.ret += r.ret
        self.sinks[-1].extend(pending)
        if n.finalbody:
            for k in ('norm', 'brk', 'cont'):
                ss = getattr(o, k)
                if ss:
                    r = self.block(n.finalbody, ss)
                    setattr(o, k, r.norm)
                    o.ret += r.ret
            nr = []
            for s, t in o.ret:
                r = self.block(n.finalbody, [s])
                for s2 in r.norm:
                    nr.append((s2, t))
            o.ret = nr
        return o

    # ------------------------------------------------------------ loops
    def assigned_in(self, nodes):
        names, attrs, calls, recv = set(), set(), False, set()
        for b in nodes:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    attrs.add(n.attr)
                elif isinstance(n, ast.Call):
                    calls = True
                    if isinstance(n.func, ast.Attribute):
                        if n.func.attr in MUTATORS:
                            if isinstance(n.func.value, ast.Name):
                                names.add(n.func.value.id)
                            elif isinstance(n.func.value, ast.Attribute):
                                attrs.add(n.func.value.attr)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Name):
                        recv.add(n.value.id)
                    elif isinstance(n.value, ast.Attribute):
                        attrs.add(n.value.attr)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
        return names, attrs, calls, recv

    def havoc_nodes(self, nodes, s, tag, make=None):
        """forget what the statements may change; returns {env key: new term}"""
        from .raises import node_mods
        names, attrs, calls, recv = self.assigned_in(nodes)
        attrs = set(attrs)
        m, reads, closnames = node_mods(self.prog, self.frames[-1].fn, nodes)
        attrs |= m
        names |= closnames
        out = {}
        make = make or (lambda nm: self.top(tag + ' ' + nm))
        fids = set()
        fr = self.frames[-1]
        while fr is not None:
            fids.add(fr.fid)
            fr = fr.parent
        for k in list(s.env):
            if k[1] in names and (k[0] in fids or isinstance(k[0], str)):
                old = s.env[k]
                if old.op == 'acc':
                    continue
                out[k] = (old, make(k[1]))
                s.env[k] = out[k][1]
            elif k[1] in recv and k[0] in fids and s.env[k].op in ('dict', 'list', 'set', 'lv', 'mut'):
                old = s.env[k]
                out[k] = (old, make(k[1]))
                s.env[k] = out[k][1]
        for k in list(s.heap):
            if k[1] in attrs:
                out[k] = (s.heap[k], make('.' + k[1]))
                s.heap[k] = out[k][1]
            elif k[1] == '$pos' and (reads or calls):
                s.heap[k] = self.top('pos')
        # attributes not yet stored by this activation but changed inside
        selft = None
        for fr in reversed(self.frames):
            v = s.env.get((fr.fid, 'self'))
            if v is not None:
                selft = v
                break
        if selft is not None:
            for a in attrs:
                if (selft, a) not in s.heap:
                    old = self.attr_default(selft, a)
                    out[(selft, a)] = (old, make('.' + a))
                    s.heap[(selft, a)] = out[(selft, a)][1]
        return out

    def havoc_try(self, body, s, why):
        """the state a handler may see: the last statement has not stored its targets"""
        keep = {}
        last = body[-1]
        if isinstance(last, (ast.Assign, ast.Expr, ast.Return, ast.AugAssign)):
            before = self.assigned_in(body[:-1])[0] if len(body) > 1 else set()
            here = self.assigned_in([last])[0] - before
            for k, v in s.env.items():
                if k[1] in here:
                    keep[k] = v
        self.havoc_nodes(body, s, 'try', make=lambda nm: mk('hv', nm, why, NONE) if nm.startswith('.') else self.top('try ' + nm))
        s.env.update(keep)

    def loop_id(self, n, idx):
        k = (id(n), tuple(self.stack), idx)
        if k not in self.loopids:
            self.loopids[k] = len(self.loopids) + 1
        return self.loopids[k]

    def merge_entry(self, states, n):
        if len(states) > n:
            return [self.joinall(states)]
        return states

    def s_While(self, n, st):
        return self.loop(n, st, None)

    def s_For(self, n, st):
        # a helper generator consumed and re-yielded in place
        if len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Yield) and isinstance(n.iter, ast.Call) \
                and isinstance(n.target, ast.Name) and isinstance(n.body[0].value.value, ast.Name) and n.body[0].value.value.id == n.target.id:
            r = self.try_inline_gen(n.iter, st)
            if r is not None:
                return self.norm(r)
        o = Out()
        for s, it in self.eval(n.iter, st):
            self.record('iter', n, s, iterable=it)
            r = self.loop(n, s, it)
            o.norm += r.norm
            o.ret += r.ret
        return o

    def bind_iter(self, target, it, s, n):
        """states with the loop target bound to an element of it"""
        res = []
        if it.op == 'c' and isinstance(it.a[0], (tuple, bytes)) and len(it.a[0]) <= 4:
            it = mk('list', tuple(C(v) for v in it.a[0]))
        if it.op in ('list', 'tuple', 'set') and 0 < len(it.a[0]) <= 4 and not any(x.op == 'star' for x in it.a[0]):
            for x in it.a[0]:
                q = s.copy()
                self.assign(target, x, q, n)
                res.append(q)
            return res
        q = s.copy()
        lid = self.loop_id(n, 0)
        if it.op == 'range':
            lo, hi, step = it.a
            x = mk('rg', lid, it)
            c = cint(step)
            down = c is not None and c < 0
            f = q.facts.add(le0(sub(x, lo) if down else sub(lo, x)))
            if f is None:
                return []
            q.facts = f
            q = q.assume(le0(add(sub(hi, x) if down else sub(x, hi), C(1))))
            if q is None:
                return []
            self.assign(target, x, q, n)
            return [q]
        if it.op == 'ext' and it.a[0] == 'enumerate':
            i = mk('rg', lid, it)
            start = it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get('start', ZERO)
            q.facts = q.facts.add(le0(sub(start, i))) or q.facts
            self.assign(target, mk('tuple', (i, mk('el', it.a[1][0], lid))), q, n)
            return [q]
        if it.op == 'ext' and it.a[0] == 'zip' and it.a[1] and not (len(it.a) > 2 and it.a[2]):
            self.assign(target, mk('tuple', tuple(mk('rg', lid, x) if x.op == 'range' else mk('el', x, lid) for x in it.a[1])), q, n)
            return [q]
        if it.op == 'sl' and it.a[2] is not None and nonneg_const(it.a[1]):
            n_ = cint(sub(it.a[2], it.a[1]))
            if n_ is not None and n_ > 4 and index(it.a[0], it.a[1]).op == 'f':
                # so many bytes from there on
                i = mk('rg', lid, mk('range', ZERO, C(n_), C(1)))
                f = q.facts.add(le0(neg(i)))
                f = f and f.add(le0(add(i, C(1 - n_))))
                if f is not None:
                    q.facts = f
                    self.assign(target, index(it.a[0], add(it.a[1], i)), q, n)
                    return [q]
        el = mk('el', it, lid)
        if it.op == 'call':
            f = self.prog.funcs.get(it.a[0])
            if f is not None and f.is_gen:
                c = self.yield_class(f)
                if c is not None:
                    self.elem_cls[el] = c
        self.assign(target, el, q, n)
        return [q]

    def literal_items(self, it, n):
        """elements of an iterable that is written out, if they are few"""
        if it.op == 'ext' and it.a[0] == 'enumerate' and len(it.a[1]) == 1 and not (len(it.a) > 2 and it.a[2]):
            xs = self.literal_items(it.a[1][0], n)
            return None if xs is None else [mk('tuple', (C(i), x)) for i, x in enumerate(xs)]
        if it.op == 'ext' and it.a[0] == 'zip' and it.a[1] and not (len(it.a) > 2 and it.a[2]):
            xs = [self.literal_items(x, n) for x in it.a[1]]
            return None if None in xs else [mk('tuple', r) for r in zip(*xs)]
        if it.op == 'ext' and it.a[0] == 'reversed' and len(it.a[1]) == 1:
            xs = self.literal_items(it.a[1][0], n)
            return None if xs is None else xs[::-1]
        if it.op == 'c' and isinstance(it.a[0], tuple):
            xs = [C(v) for v in it.a[0]]
        elif it.op in ('list', 'tuple') and not any(x.op == 'star' for x in it.a[0]):
            xs = list(it.a[0])
        elif it.op == 'dict':
            xs = [k for k, _v in it.a[0]]
        elif it.op == 'm' and it.a[0] in ('items', 'keys', 'values') and it.a[1].op == 'dict':
            xs = [k if it.a[0] == 'keys' else v if it.a[0] == 'values' else mk('tuple', (k, v)) for k, v in it.a[1].a[0]]
        elif it.op == 'range' and all(cint(x) is not None for x in it.a) and cint(it.a[2]):
            xs = range(*[cint(x) for x in it.a])
            if len(xs) > 4:
                return None
            xs = [C(i) for i in xs]
        else:
            return None
        if not all(isinstance(x, T) for x in xs):
            return None
        if len(xs) > 8 or len(xs) * sum(1 for b in n.body for _ in ast.walk(b)) > 400 or any(isinstance(y, (ast.Try, ast.For, ast.While)) for b in n.body for y in ast.walk(b)):
            return None
        return xs

    def unroll(self, n, st, xs):
        o = Out()
        cur = [st]
        for x in xs:
            nxt = []
            for s in cur:
                q = s.copy()
                self.assign(n.target, x, q, n)
                nxt.append(q)
            r = self.block(n.body, nxt)
            o.ret += r.ret
            o.norm += r.brk
            cur = self.limit(r.norm + r.cont)
            if not cur:
                break
        if n.orelse and cur:
            r = self.block(n.orelse, cur)
            o.ret += r.ret
            o.brk += r.brk
            o.cont += r.cont
            cur = r.norm
        o.norm = self.limit(o.norm + cur)
        return o

    def unbound(self, n, nodes, s):
        """names first bound by a previous turn of this loop and read in a later one, or after it"""
        fr = self.frames[-1]
        f = fr.fn
        if f is None or getattr(f, 'is_module', False):
            return
        lv = getattr(f, '_live', None)
        if lv is None:
            lv = f._live = Liveness(f.node)
        live = lv.head.get(id(n))
        if not live:
            return
        for nm in self.assigned_in(nodes)[0] & live & set(f.locals):
            if (fr.fid, nm) not in s.env and nm not in f.globals and nm not in f.nonlocals:
                s.env[(fr.fid, nm)] = mk('undef', nm)

    def loop(self, n, st, it):
        xs = self.literal_items(it, n) if it is not None else None
        if xs is not None and isinstance(n.iter, (ast.Name, ast.Attribute)) and any(isinstance(y, ast.Attribute) and y.attr in MUTATORS for b in n.body for y in ast.walk(b)):
            xs = None
        if xs is not None:
            return self.unroll(n, st, xs)
        lid = self.loop_id(n, 0)
        self.loopdepth[lid] = len(self.loops)
        body_nodes = list(n.body)
        if it is None:
            body_nodes = [n.test] + body_nodes
        # loop head: everything assigned inside becomes unknown
        head = st.copy()
        nodes = body_nodes + ([n.target] if it is not None else [])
        self.unbound(n, nodes, head)
        lvs = self.havoc_nodes(nodes, head, 'loop', make=lambda nm: mk('lv', lid, nm))
        dk = (id(n), tuple(self.stack))
        dropped = self.dropped.setdefault(dk, set())
        cands = {}
        nums = []
        for k, (old, lv) in lvs.items():
            self.lv_alts.setdefault(lv, set()).add(old)
            self.lv_init.setdefault(lv, set()).add(old)
            nm = str(k[1])
            cands[('eq', nm)] = (eq(lv, old), lv, k, lambda new, old=old: eq(new, old))
            if is_num(old) or cint(old) is not None or old.op in ('lv', 'rg', 'p', 'cp', 'call', 'at'):
                cands[('ge', nm)] = (le0(sub(old, lv)), lv, k, lambda new, old=old: le0(sub(old, new)))
                cands[('le', nm)] = (le0(sub(lv, old)), lv, k, lambda new, old=old: le0(sub(new, old)))
                nums.append((nm, k, old, lv))
                lo, hi = st.facts.linbound(old)
                if lo is not None and lo >= 0:
                    b = 1 if lo >= 1 else 0
                    cands[('lb', nm)] = (le0(sub(C(b), lv)), lv, k, lambda new, b=b: le0(sub(C(b), new)))
            if not (isc(old) and old.a[0] is None):
                if st.facts.entails(eq(old, NONE, False)):
                    cands[('nn', nm)] = (eq(lv, NONE, False), lv, k, lambda new: eq(new, NONE, False))
            c = self.class_of(old, st)
            if c is not None:
                ct = mk('cls', c.qual)
                cands[('ty', nm)] = (mk('ty', lv, ct), lv, k, lambda new, ct=ct, c=c: TRUE if self.class_of(new, None) is c else mk('ty', new, ct))
        for i in range(len(nums)):
            for j in range(i + 1, len(nums)):
                a, b = nums[i], nums[j]
                d = sub(a[2], b[2])
                if cint(d) is not None:
                    cands[('df', a[0], b[0])] = (eqnum(sub(sub(a[3], b[3]), d)), None, (a[1], b[1]), lambda x, y, d=d: eqnum(sub(sub(x, y), d)))
        active = {k: v for k, v in cands.items() if k not in dropped}

        def lookup(state, k):
            if isinstance(k[0], T):
                return state.heap.get(k)
            return state.env.get(k)

        def one(record):
            h = head.copy()
            f = h.facts
            for k, v in active.items():
                if v[0] is FALSE:
                    continue
                g = f.add(v[0])
                if g is not None:
                    f = g
            h.facts = f
            # an eq candidate lets us use the old term itself
            for k, v in active.items():
                if k[0] == 'eq':
                    kk = v[2]
                    old = lvs[kk][0]
                    if isinstance(kk[0], T):
                        h.heap[kk] = old
                    else:
                        h.env[kk] = old
            if not record:
                self.mute += 1
            self.loops.append((lid, n))
            mark = len(self.sinks[-1])
            try:
                if it is None:
                    t, ex = self.cond(n.test, h)
                else:
                    t, ex = self.bind_iter(n.target, it, h, n), [h]
                    if it.op == 'range':
                        x = mk('rg', lid, it)
                        c = cint(it.a[2])
                        q = h.assume(le0(sub(x, it.a[1]) if c is not None and c < 0 else sub(it.a[1], x)))
                        ex = [q] if q is not None else []
                r = self.block(n.body, t)
                if it is None and not any(isinstance(x, ast.Call) for x in ast.walk(n.test)):
                    # a back edge on which the test is already decided leaves the loop
                    self.mute += 1
                    nb = []
                    for b in r.norm + r.cont:
                        t2, f2 = self.cond(n.test, b)
                        if f2 and not t2:
                            ex = ex + f2
                        else:
                            nb.append(b)
                    self.mute -= 1
                    r.norm, r.cont = nb, []
            finally:
                self.loops.pop()
                if not record:
                    self.mute -= 1
                    del self.sinks[-1][mark:]
            return h, ex, r

        for _round in range(6):
            if not active:
                break
            h, ex, r = one(False)
            back = r.norm + r.cont
            bad = []
            for k, v in active.items():
                ok = True
                for b in back:
                    if k[0] == 'df':
                        x, y = lookup(b, v[2][0]), lookup(b, v[2][1])
                        l = v[3](x, y) if x is not None and y is not None else FALSE
                    else:
                        x = lookup(b, v[2])
                        l = v[3](x) if x is not None else FALSE
                    if not b.facts.entails(l):
                        ok = False
                        break
                if not ok:
                    bad.append(k)
            if not bad:
                break
            for k in bad:
                dropped.add(k)
                del active[k]
        else:
            for k in list(active):
                dropped.add(k)
            active.clear()
        h, ex, r = one(True)
        back = r.norm + r.cont
        for k, (old, lv) in lvs.items():
            for b in back:
                x = lookup(b, k)
                if x is not None:
                    al = self.lv_alts.setdefault(lv, set())
                    if len(al) < 40:
                        al.add(pinned(x, lv, b.facts))
        for k, (old, lv) in lvs.items():
            # what decides whether the variable changes, where that is one condition
            vs = [(b, lookup(b, k)) for b in back]
            on, off = [b for b, x in vs if x is not lv], [b for b, x in vs if x is lv]
            if on and off:
                ls = None
                for b in on:
                    here = {l for l in b.facts.literals() if l.op != 'true'}
                    ls = here if ls is None else ls & here
                one_ = {l for l in ls if all(b.facts.entails(negl(l)) for b in off)}
                if one_:
                    self.lv_when[lv] = frozenset(one_)
                ls = {l for l in ls if l not in h.facts.literals() and not all(b.facts.entails(l) for b in off)}
                if ls:
                    self.lv_when2[lv] = frozenset(ls)
        self.record('loop', n, h, lid=lid, head=h, lvs=lvs, back=[b.copy() for b in back], exits=[x.copy() for x in ex], breaks=[b.copy() for b in r.brk], iterable=it, active=frozenset(active), inner=frozenset(k[1] for k in lvs))
        o = Out()
        o.ret = r.ret
        exits = ex
        if n.orelse:
            r2 = self.block(n.orelse, exits)
            exits = r2.norm
            o.ret += r2.ret
            o.brk += r2.brk
            o.cont += r2.cont
        o.norm = self.limit(exits + r.brk)
        # names first bound inside the loop may be unbound when it runs zero times
        return o
