"""Source variants for testing the checker itself: behaviour-preserving rewrites and small mutations.

Used by tools/selftest.py only; no registered check imports this.
"""
import ast
import copy
import random


def own(fn):
    out = []
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


def blocks(fn):
    """every statement list of fn (not of nested functions)"""
    out = [fn.body]
    for n in own(fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
        for h in getattr(n, 'handlers', []) or []:
            out.append(h.body)
    return out


def terminates(body):
    return isinstance(body[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))


def has(nodes, types):
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, types):
                return True
    return False


def locals_of(fn):
    a = fn.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
    names = set()
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
    return set(ps), names


def simple(fn):
    return not any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for n in own(fn))


# ------------------------------------------------------------ preserving rewrites

def r_rename(fn, rnd, mod):
    if not simple(fn):
        return False
    ps, names = locals_of(fn)
    names -= ps
    if not names:
        return False
    for n in own(fn):
        if isinstance(n, ast.Name) and n.id in names:
            n.id = 'zz_' + n.id
        if isinstance(n, ast.ExceptHandler) and n.name:
            n.name = 'zz_' + n.name
    return True


def r_invert(fn, rnd, mod):
    c = [n for n in own(fn) if isinstance(n, ast.If) and n.orelse]
    if not c:
        return False
    n = rnd.choice(c)
    n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
    n.body, n.orelse = n.orelse, n.body
    return True


def r_else(fn, rnd, mod):
    c = []
    for b in blocks(fn):
        for i, n in enumerate(b[:-1]):
            if isinstance(n, ast.If) and not n.orelse and terminates(n.body):
                c.append((b, i))
    if not c:
        return False
    b, i = rnd.choice(c)
    b[i].orelse = b[i + 1:]
    del b[i + 1:]
    return True


def r_while(fn, rnd, mod):
    c = [n for n in own(fn) if isinstance(n, ast.While) and not n.orelse and not (isinstance(n.test, ast.Constant))]
    if not c:
        return False
    n = rnd.choice(c)
    n.body.insert(0, ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[]))
    n.test = ast.Constant(value=True)
    return True


def r_noop(fn, rnd, mod):
    for b in blocks(fn):
        if rnd.random() < 0.6:
            i = rnd.randrange(len(b) + 1)
            if i == 1 or i == 0 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                pass
            if i > 0 and isinstance(b[i - 1], (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                continue
            b.insert(i, ast.parse('zz_unused = None').body[0])
    return True


def r_temp(fn, rnd, mod):
    k = 0
    for b in blocks(fn):
        i = 0
        while i < len(b):
            n = b[i]
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, (ast.Constant, ast.Name)):
                k += 1
                nm = 'zz_t%d' % k
                b.insert(i, ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=n.value, lineno=1))
                n.value = ast.Name(id=nm, ctx=ast.Load())
                i += 1
            i += 1
    return k > 0


_FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def r_flip(fn, rnd, mod):
    c = [n for n in own(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in _FL]
    if not c:
        return False
    for n in c:
        if rnd.random() < 0.7:
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops[0] = _FL[type(n.ops[0])]()
    return True


def r_demorgan(fn, rnd, mod):
    c = [n for n in own(fn) if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.BoolOp)]
    if not c:
        return False
    n = rnd.choice(c)
    t = n.test
    op = ast.And() if isinstance(t.op, ast.Or) else ast.Or()
    n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[ast.UnaryOp(op=ast.Not(), operand=v) for v in t.values]))
    return True


def r_aug(fn, rnd, mod):
    hit = False
    for b in blocks(fn):
        for i, n in enumerate(b):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                b[i] = ast.Assign(targets=[n.target], value=ast.BinOp(left=ast.Name(id=n.target.id, ctx=ast.Load()), op=n.op, right=n.value), lineno=1)
                hit = True
    return hit


def r_nest(fn, rnd, mod):
    c = [n for n in own(fn) if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And)]
    if not c:
        return False
    n = rnd.choice(c)
    vs = n.test.values
    inner = ast.If(test=vs[-1], body=n.body, orelse=[])
    n.test = vs[0] if len(vs) == 2 else ast.BoolOp(op=ast.And(), values=vs[:-1])
    n.body = [inner]
    return True


def free_names(expr, ps, names):
    return sorted({n.id for n in ast.walk(expr) if isinstance(n, ast.Name) and (n.id in ps or n.id in names)})


def r_extract_expr(fn, rnd, mod):
    if not simple(fn):
        return False
    ps, names = locals_of(fn)
    c = []
    for b in blocks(fn):
        for n in b:
            if isinstance(n, (ast.Assign, ast.Return)) and n.value is not None and not isinstance(n.value, (ast.Constant, ast.Name)) and not has([n.value], (ast.Yield, ast.YieldFrom, ast.NamedExpr)):
                if 'super' in ast.dump(n.value):
                    continue
                c.append(n)
            elif isinstance(n, ast.If) and not has([n.test], (ast.Yield, ast.NamedExpr)):
                c.append(n)
    if not c:
        return False
    n = rnd.choice(c)
    e = n.test if isinstance(n, ast.If) else n.value
    fr = free_names(e, ps, names)
    # a name possibly unbound here would change behaviour only on broken code
    nm = '_zz_helper%d' % rnd.randrange(10000)
    h = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in fr], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.Return(value=e)], decorator_list=[], lineno=1, type_params=[])
    call = ast.Call(func=ast.Name(id=nm, ctx=ast.Load()), args=[ast.Name(id=x, ctx=ast.Load()) for x in fr], keywords=[])
    if isinstance(n, ast.If):
        n.test = call
    else:
        n.value = call
    insert_top(mod, h)
    return True


def insert_top(mod, h):
    for i, n in enumerate(mod.body):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            mod.body.insert(i, h)
            return
    mod.body.append(h)


def r_extract_tail(fn, rnd, mod):
    if not simple(fn) or has(fn.body, (ast.Yield, ast.YieldFrom)) or 'super' in ast.dump(fn):
        return False
    ps, names = locals_of(fn)
    if len(fn.body) < 3:
        return False
    k = rnd.randrange(1, len(fn.body) - 1)
    tail = fn.body[k:]
    # names definitely assigned before the tail: parameters and plain top-level assignments
    have = set(ps)
    for n in fn.body[:k]:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        have.add(x.id)
        if isinstance(n, ast.If) and n.orelse:
            pass
    used = sorted({x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name) and (x.id in ps or x.id in names)})
    before = {x.id for s in fn.body[:k] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    need = [x for x in used if x in have]
    if any(x in before and x not in have for x in used):
        return False
    nm = '_zz_tail%d' % rnd.randrange(10000)
    h = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in need], kwonlyargs=[], kw_defaults=[], defaults=[]), body=tail, decorator_list=[], lineno=1, type_params=[])
    fn.body[k:] = [ast.Return(value=ast.Call(func=ast.Name(id=nm, ctx=ast.Load()), args=[ast.Name(id=x, ctx=ast.Load()) for x in need], keywords=[]))]
    insert_top(mod, h)
    return True


def r_for_while(fn, rnd, mod):
    c = []
    for b in blocks(fn):
        for i, n in enumerate(b):
            if isinstance(n, ast.For) and not n.orelse and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) <= 2 and not has(n.body, ast.Continue):
                if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n.target.id for s in n.body for x in ast.walk(s)):
                    continue
                c.append((b, i))
    if not c:
        return False
    b, i = rnd.choice(c)
    n = b[i]
    lo, hi = (ast.Constant(value=0), n.iter.args[0]) if len(n.iter.args) == 1 else n.iter.args
    t = n.target.id
    w = ast.While(test=ast.Compare(left=ast.Name(id=t, ctx=ast.Load()), ops=[ast.Lt()], comparators=[hi]), body=n.body + [ast.AugAssign(target=ast.Name(id=t, ctx=ast.Store()), op=ast.Add(), value=ast.Constant(value=1))], orelse=[])
    b[i:i + 1] = [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=lo, lineno=1), w]
    return True


def r_swap(fn, rnd, mod):
    c = []

    def pure(e):
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                s = ast.unparse(x.func)
                if s not in ('len', 'struct.unpack', 'hex', 'str', 'int'):
                    return False
            if isinstance(x, (ast.Yield, ast.NamedExpr)):
                return False
        return True

    def tg(n):
        return {x.id for x in ast.walk(n.targets[0]) if isinstance(x, ast.Name)}

    def rd(n):
        return {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}

    for b in blocks(fn):
        for i in range(len(b) - 1):
            p, q = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (p, q)):
                if not (tg(p) & (tg(q) | rd(q))) and not (tg(q) & rd(p)):
                    c.append((b, i))
    if not c:
        return False
    for b, i in c:
        if rnd.random() < 0.5 or len(c) == 1:
            b[i], b[i + 1] = b[i + 1], b[i]
            return True
    b, i = c[0]
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def r_const(fn, rnd, mod):
    c = []
    par = {}
    for n in ast.walk(fn):
        for ch in ast.iter_child_nodes(n):
            par[ch] = n
    for n in own(fn):
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and not isinstance(par.get(n), ast.JoinedStr):
            c.append(n)
    if not c:
        return False
    n = rnd.choice(c)
    nm = '_ZZ_CONST%d' % rnd.randrange(10000)
    a = ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=ast.Constant(value=n.value), lineno=1)

    class V(ast.NodeTransformer):
        def visit_Constant(self, x):
            return ast.Name(id=nm, ctx=ast.Load()) if x is n else x
    V().visit(fn)
    insert_top(mod, a)
    return True


def r_ternary(fn, rnd, mod):
    c = []
    for b in blocks(fn):
        for i, n in enumerate(b):
            if isinstance(n, ast.If) and len(n.body) == 1 and len(n.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (n.body[0], n.orelse[0])) and n.body[0].targets[0].id == n.orelse[0].targets[0].id:
                c.append((b, i))
    if not c:
        return False
    b, i = rnd.choice(c)
    n = b[i]
    b[i] = ast.Assign(targets=n.body[0].targets, value=ast.IfExp(test=n.test, body=n.body[0].value, orelse=n.orelse[0].value), lineno=1)
    return True


def r_in(fn, rnd, mod):
    class V(ast.NodeTransformer):
        hit = False

        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and isinstance(n.left, (ast.Name, ast.Attribute)) and 1 < len(n.comparators[0].elts) < 6:
                V.hit = True
                isin = isinstance(n.ops[0], ast.In)
                return ast.BoolOp(op=ast.Or() if isin else ast.And(), values=[ast.Compare(left=copy.deepcopy(n.left), ops=[ast.Eq() if isin else ast.NotEq()], comparators=[e]) for e in n.comparators[0].elts])
            return n
    V.hit = False
    V().visit(fn)
    return V.hit


def r_continue(fn, rnd, mod):
    c = [n for n in own(fn) if isinstance(n, (ast.For, ast.While)) and len(n.body) >= 1 and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse]
    if not c:
        return False
    n = rnd.choice(c)
    i = n.body[-1]
    n.body[-1:] = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=i.test), body=[ast.Continue()], orelse=[])] + i.body
    return True


def r_boolret(fn, rnd, mod):
    c = []
    for b in blocks(fn):
        for i, n in enumerate(b):
            if isinstance(n, ast.Return) and isinstance(n.value, (ast.Compare, ast.BoolOp)) and not isinstance(getattr(n.value, 'op', None), ast.Or):
                if isinstance(n.value, ast.BoolOp) and not all(isinstance(v, ast.Compare) for v in n.value.values):
                    continue
                c.append((b, i))
    if not c:
        return False
    b, i = rnd.choice(c)
    n = b[i]
    b[i:i + 1] = [ast.If(test=n.value, body=[ast.Return(value=ast.Constant(value=True))], orelse=[]), ast.Return(value=ast.Constant(value=False))]
    return True


def r_format(fn, rnd, mod):
    class V(ast.NodeTransformer):
        hit = False

        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords:
                s = n.func.value.value
                parts = s.split('{}')
                if len(parts) == len(n.args) + 1 and '{' not in ''.join(parts):
                    vals = []
                    for i, p in enumerate(parts):
                        if p:
                            vals.append(ast.Constant(value=p))
                        if i < len(n.args):
                            vals.append(ast.FormattedValue(value=n.args[i], conversion=-1))
                    V.hit = True
                    return ast.JoinedStr(values=vals)
            return n
    V.hit = False
    V().visit(fn)
    return V.hit


def r_cache_len(fn, rnd, mod):
    """name a repeated attribute read at the top of the function"""
    if not simple(fn):
        return False
    ps, names = locals_of(fn)
    c = set()
    stores = {n.attr for n in own(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' for n in own(fn)):
        return False
    hits = [n for n in own(fn) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == 'self' and n.value.attr not in stores]
    if not hits or fn.name == '__init__':
        return False
    at = hits[0].value.attr
    for n in hits:
        if n.value.attr == at and isinstance(n.ctx, ast.Load):
            n.value = ast.Name(id='zz_buf', ctx=ast.Load())
    fn.body.insert(0, ast.parse('zz_buf = self.%s' % at).body[0])
    return True


def r_joinif(fn, rnd, mod):
    """two adjacent ifs with the same terminating body -> one with or"""
    for b in blocks(fn):
        for i in range(len(b) - 1):
            p, q = b[i], b[i + 1]
            if isinstance(p, ast.If) and isinstance(q, ast.If) and not p.orelse and not q.orelse and terminates(p.body) and ast.dump(ast.Module(p.body, [])) == ast.dump(ast.Module(q.body, [])):
                p.test = ast.BoolOp(op=ast.Or(), values=[p.test, q.test])
                del b[i + 1]
                return True
    return False


def r_splitor(fn, rnd, mod):
    c = []
    for b in blocks(fn):
        for i, n in enumerate(b):
            if isinstance(n, ast.If) and not n.orelse and terminates(n.body) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or):
                c.append((b, i))
    if not c:
        return False
    b, i = rnd.choice(c)
    n = b[i]
    b[i:i + 1] = [ast.If(test=v, body=copy.deepcopy(n.body), orelse=[]) for v in n.test.values]
    return True


PRESERVING = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}


# ------------------------------------------------------------ mutations

def mutants(fn):
    """[(description, apply(fn_copy))]: each identified by the index of the node in own()"""
    out = []
    nodes = own(fn)
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            out.append(('const%+d' % 1, i, lambda m: setattr(m, 'value', m.value + 1)))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(('boolconst', i, lambda m: setattr(m, 'value', not m.value)))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) in (1, 2) and n.value[:1] == '<':
            t = {'L': 'l', 'l': 'L', 'H': 'h', 'h': 'H', 'Q': 'q', 'q': 'Q', 'B': 'b', 'b': 'B'}.get(n.value[-1])
            if t:
                out.append(('sign', i, lambda m, t=t: setattr(m, 'value', '<' + t)))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            for new in {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(op, []):
                out.append(('cmp %s->%s' % (op.__name__, new.__name__), i, lambda m, new=new: m.ops.__setitem__(0, new())))
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                out.append(('drop operand %d' % k, i, lambda m, k=k: m.values.__delitem__(k)))
            out.append(('and<->or', i, lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())))
        if isinstance(n, ast.If):
            out.append(('if True', i, lambda m: setattr(m, 'test', ast.Constant(value=True))))
            out.append(('if False', i, lambda m: setattr(m, 'test', ast.Constant(value=False))))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append(('+<->-', i, lambda m: setattr(m, 'op', ast.Sub() if isinstance(m.op, ast.Add) else ast.Add())))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.FloorDiv)):
            out.append(('*<->//', i, lambda m: setattr(m, 'op', ast.FloorDiv() if isinstance(m.op, ast.Mult) else ast.Mult())))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            out.append(('&<->|', i, lambda m: setattr(m, 'op', ast.BitOr() if isinstance(m.op, ast.BitAnd) else ast.BitAnd())))
        if isinstance(n, (ast.Break,)):
            out.append(('break->pass', i, 'pass'))
        if isinstance(n, (ast.Continue,)):
            out.append(('continue->pass', i, 'pass'))
        if isinstance(n, ast.Raise):
            out.append(('drop raise', i, 'pass'))
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            out.append(('drop assignment', i, 'pass'))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append(('drop call', i, 'pass'))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            out.append(('return None', i, lambda m: setattr(m, 'value', ast.Constant(value=None))))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append(('swap args', i, lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])))
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple) and len(n.type.elts) > 1:
            out.append(('drop handler type', i, lambda m: m.type.elts.__delitem__(0)))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.upper is not None and n.slice.lower is not None:
            out.append(('slice shift', i, lambda m: (setattr(m.slice, 'lower', ast.BinOp(left=m.slice.lower, op=ast.Add(), right=ast.Constant(value=1))), setattr(m.slice, 'upper', ast.BinOp(left=m.slice.upper, op=ast.Add(), right=ast.Constant(value=1))))))
    return out


def apply_mutant(fn, i, how):
    n = own(fn)[i]
    if how == 'pass':
        for b in blocks(fn):
            for k, s in enumerate(b):
                if s is n:
                    b[k] = ast.Pass()
                    return True
        return False
    how(n)
    return True
