"""Name-resolved summaries that need no values: what a function may raise explicitly,
which attributes it may store, whether it moves a file position."""
import ast
from .program import Class, walk_own
from .interp import MUTATORS  # noqa: F401  (import cycle is resolved at call time)


def cache_of(prog):
    c = getattr(prog, '_rcache', None)
    if c is None:
        c = prog._rcache = {}
    return c


def _callees(prog, f, node):
    """functions a call node may reach (by resolved name; methods by class or name)"""
    fn = node.func
    out = []
    if isinstance(fn, ast.Name):
        g = f
        while g is not None:
            if fn.id in g.nested:
                return [g.nested[fn.id]]
            if g.parent is not None and fn.id in g.parent.nested:
                return [g.parent.nested[fn.id]]
            g = g.parent
        m = f.mod
        if fn.id in m.functions:
            return [m.functions[fn.id]]
        r = prog.resolve_class_expr(m, fn)
        if isinstance(r, Class):
            i = r.find('__init__')
            return [i] if i else []
        imp = m.imports.get(fn.id)
        if imp and imp[0] == 'from':
            mm = prog.modules[imp[1]]
            if imp[2] in mm.functions:
                return [mm.functions[imp[2]]]
        return []
    if isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Name):
            imp = f.mod.imports.get(v.id)
            if imp and imp[0] == 'mod':
                mm = prog.modules[imp[1]]
                if fn.attr in mm.functions:
                    return [mm.functions[fn.attr]]
                if fn.attr in mm.classes:
                    i = mm.classes[fn.attr].find('__init__')
                    return [i] if i else []
                return []
            if imp and imp[0] == 'ext':
                return []
            if v.id == 'self' and f.cls is not None:
                m = f.cls.find(fn.attr)
                if m is not None:
                    outs = [m]
                    for c in prog.class_family(f.cls):
                        if fn.attr in c.methods and c.methods[fn.attr] is not m and f.cls in c.mro():
                            outs.append(c.methods[fn.attr])
                    return outs
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
            for c in f.cls.mro()[1:]:
                if fn.attr in c.methods:
                    return [c.methods[fn.attr]]
            return []
        if fn.attr in ('seek', 'read', 'tell', 'write', 'close', 'append', 'add', 'get', 'keys', 'sort', 'remove', 'decode', 'format', 'join'):
            return []
        # by name, over the classes that define it
        t = attr_class(prog, f, v)
        if t is not None:
            m = t.find(fn.attr)
            return [m] if m else []
        return list(by_name(prog).get(fn.attr, ()))
    return out


def attr_class(prog, f, v):
    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self' and f.cls is not None:
        types = set()
        for c in f.cls.mro():
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Name, ast.Attribute)):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr == v.attr:
                                r = prog.resolve_class_expr(m.mod, n.value.func)
                                types.add(r)
        if len(types) == 1:
            r = types.pop()
            return r if isinstance(r, Class) else None
    if isinstance(v, ast.Name):
        types = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets):
                if isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Name, ast.Attribute)):
                    r = prog.resolve_class_expr(f.mod, n.value.func)
                    types.add(r if isinstance(r, Class) else None)
                elif isinstance(n.value, ast.Constant) and n.value.value is None:
                    pass
                else:
                    types.add(None)
            elif isinstance(n, (ast.For,)) and any(isinstance(x, ast.Name) and x.id == v.id for x in ast.walk(n.target)):
                types.add(None)
        if v.id in f.params:
            types.add(None)
        if len(types) == 1:
            return types.pop()
    return None


def by_name(prog):
    _cache = cache_of(prog)
    k = ('byname', id(prog))
    if k not in _cache:
        d = {}
        for f in prog.funcs.values():
            if f.cls is not None and f.parent is None:
                d.setdefault(f.name, []).append(f)
        _cache[k] = d
    return _cache[k]


def callees_cached(prog, f, node):
    _cache = cache_of(prog)
    k = ('cal', id(prog), id(node))
    if k not in _cache:
        _cache[k] = _callees(prog, f, node)
    return _cache[k]


def _explicit(prog, f):
    """[(kind, payload, handlers)] of raise statements and calls with the enclosing handler types"""
    _cache = cache_of(prog)
    k = ('exp', id(prog), f.qual)
    if k in _cache:
        return _cache[k]
    out = []

    def types_of(h):
        if h.type is None:
            return ['BaseException']
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [prog.exc_name(f.mod, e) or 'Exception' for e in es]

    def visit(n, guards, cur):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not f.node:
            return
        if isinstance(n, ast.Try):
            ts = []
            for h in n.handlers:
                ts += types_of(h)
            for b in n.body:
                visit(b, guards + [ts], cur)
            for h in n.handlers:
                ht = types_of(h)
                for b in h.body:
                    visit(b, guards, ht)
            for b in n.orelse + n.finalbody:
                visit(b, guards, cur)
            return
        if isinstance(n, ast.Raise):
            if n.exc is None:
                for t in cur or ['Exception']:
                    out.append(('raise', t, guards, n))
            else:
                e = prog.exc_name(f.mod, n.exc)
                out.append(('raise', e if isinstance(e, str) else 'Exception', guards, n))
        if isinstance(n, ast.Call):
            for g in callees_cached(prog, f, n):
                out.append(('call', g.qual, guards, n))
        for c in ast.iter_child_nodes(n):
            visit(c, guards, cur)

    for b in f.body:
        visit(b, [], None)
    _cache[k] = out
    return out


def all_raises(prog):
    _cache = cache_of(prog)
    k = ('raises', id(prog))
    if k in _cache:
        return _cache[k]
    r = {q: set() for q in prog.funcs}
    changed = True
    while changed:
        changed = False
        for q, f in prog.funcs.items():
            cur = r[q]
            for kind, p, guards, n in _explicit(prog, f):
                es = [p] if kind == 'raise' else list(r.get(p, ()))
                for e in es:
                    b = set(prog.exc_bases(e))
                    if any(b & set(ts) for ts in guards):
                        continue
                    if e not in cur:
                        cur.add(e)
                        changed = True
    _cache[k] = r
    return r


def raises_of(prog, qual):
    return sorted(all_raises(prog).get(qual, ()))


def _direct_mods(prog, f):
    attrs, reads = set(), False
    calls = []
    for n in walk_own(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            # a constructor fills the object it makes, which nobody else holds yet
            if not (f.name == '__init__' and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]):
                attrs.add(n.attr)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute):
            attrs.add(n.value.attr)
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in ('seek', 'read', 'write'):
                    reads = True
                if n.func.attr in MUTATORS and isinstance(n.func.value, ast.Attribute):
                    attrs.add(n.func.value.attr)
            calls += callees_cached(prog, f, n)
    return attrs, reads, calls


def all_mods(prog):
    _cache = cache_of(prog)
    k = ('mods', id(prog))
    if k in _cache:
        return _cache[k]
    direct = {q: _direct_mods(prog, f) for q, f in prog.funcs.items()}
    r = {q: [set(d[0]), d[1]] for q, d in direct.items()}
    changed = True
    while changed:
        changed = False
        for q, (a, rd, calls) in direct.items():
            cur = r[q]
            n0 = len(cur[0]), cur[1]
            for g in calls:
                o = r.get(g.qual)
                if o is not None:
                    cur[0] |= o[0]
                    cur[1] = cur[1] or o[1]
            if (len(cur[0]), cur[1]) != n0:
                changed = True
    _cache[k] = r
    return r


def mods_of(prog, f):
    a, rd = all_mods(prog)[f.qual]
    return a, rd


def node_mods(prog, f, nodes):
    """attributes stored, positions moved, and closure names rebound by calls inside nodes"""
    attrs, reads = set(), False
    clos = set()
    if f is None:
        return attrs, True, clos
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('seek', 'read', 'write'):
                    reads = True
                for g in callees_cached(prog, f, n):
                    a, r = mods_of(prog, g)
                    attrs |= a
                    reads = reads or r
                    h = g
                    if h.parent is not None:
                        clos |= h.nonlocals
                        for x in walk_own(h.node):
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name) and x.func.value.id not in h.locals:
                                clos.add(x.func.value.id)
    return attrs, reads, clos
