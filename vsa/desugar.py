"""Rewrites statements into simpler ones with the same meaning, so that the interpreter needs to know fewer of them."""
import ast
import copy


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value) \
        or isinstance(e, ast.Subscript) and simple(e.value) and simple(e.slice) or isinstance(e, ast.UnaryOp) and simple(e.operand)


def load(e):
    e = copy.deepcopy(e)
    for x in ast.walk(e):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return e


def jumps(body):
    """break of this loop, anywhere in it"""
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While)):
            todo += n.orelse
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


class Desugar(ast.NodeTransformer):
    def at(self, new, old):
        for n in new if isinstance(new, list) else [new]:
            ast.copy_location(n, old)
            for x in ast.walk(n):
                if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'):
                    ast.copy_location(x, old)
            ast.fix_missing_locations(n)
        return new

    def generic_visit(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and len(b) > 1 and isinstance(b[0], ast.stmt):
                setattr(n, f, self.lazies(b))
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and len(b) > 1 and isinstance(b[0], ast.stmt):
                setattr(n, f, self.pairs(b))
        return n

    def lazies(self, b):
        """g = (... for ...)   followed by the only statement that uses g"""
        i = 0
        while i + 1 < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.GeneratorExp):
                nm = s.targets[0].id
                uses = [x for y in b for x in ast.walk(y) if isinstance(x, ast.Name) and x.id == nm]
                nxt = b[i + 1]
                heads = [nxt.iter] if isinstance(nxt, ast.For) else [nxt.value] if isinstance(nxt, (ast.Assign, ast.Return, ast.Expr)) and nxt.value is not None else []
                here = [x for h in heads for x in ast.walk(h) if isinstance(x, ast.Name) and x.id == nm]
                if len(uses) == 2 and len(here) == 1:
                    class Put(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return s.value if n is here[0] else n
                    b[i + 1] = Put().visit(nxt)
                    del b[i]
                    continue
            i += 1
        return b

    def pairs(self, b):
        """if k not in d: d[k] = []   followed by   d[k].append(x)"""
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if i + 1 < len(b) and isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Assign) and len(s.body[0].targets) == 1 \
                    and isinstance(s.body[0].targets[0], ast.Subscript) and isinstance(s.test, ast.Compare) and isinstance(s.test.ops[0], ast.NotIn) and isinstance(b[i + 1], ast.Expr):
                tg, v = s.body[0].targets[0], s.body[0].value
                c = b[i + 1].value
                empty = {'append': isinstance(v, ast.List) and not v.elts or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'list' and not v.args,
                         'add': isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'set' and not v.args}
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and empty.get(c.func.attr) and len(c.args) == 1 and ast.dump(load(tg)) == ast.dump(load(c.func.value)) and simple(tg):
                    new = ast.List([copy.deepcopy(c.args[0])], ast.Load()) if c.func.attr == 'append' else ast.Set([copy.deepcopy(c.args[0])])
                    out.append(self.at(ast.If(s.test, [ast.Assign([tg], new)], [b[i + 1]]), s))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'setdefault' and len(c.args) == 2 and not c.keywords \
                and simple(c.func.value) and simple(c.args[0]):
            d, k, v = c.func.value, c.args[0], c.args[1]
            # the default is evaluated whether it is used or not
            if any(isinstance(x, (ast.Call, ast.Await, ast.Yield)) for x in ast.walk(v)) and not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'set') and not v.args):
                return n
            return self.at(ast.If(ast.Compare(load(k), [ast.NotIn()], [load(d)]), [ast.Assign([ast.Subscript(load(d), load(k), ast.Store())], v)], []), n)
        # d.setdefault(k, []).append(x)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'add') and len(c.args) == 1 and isinstance(c.func.value, ast.Call):
            g = c.func.value
            if isinstance(g.func, ast.Attribute) and g.func.attr == 'setdefault' and len(g.args) == 2 and simple(g.func.value) and simple(g.args[0]):
                d, k, v = g.func.value, g.args[0], g.args[1]
                new = None
                if c.func.attr == 'append' and (isinstance(v, ast.List) and not v.elts or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'list' and not v.args):
                    new = ast.List([c.args[0]], ast.Load())
                elif c.func.attr == 'add' and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'set' and not v.args:
                    new = ast.Set([c.args[0]])
                if new is not None:
                    return self.at(ast.If(ast.Compare(load(k), [ast.NotIn()], [load(d)]), [ast.Assign([ast.Subscript(load(d), load(k), ast.Store())], new)],
                                          [ast.Expr(ast.Call(ast.Attribute(ast.Subscript(load(d), load(k), ast.Load()), c.func.attr, ast.Load()), [copy.deepcopy(c.args[0])], []))]), n)
        # x.discard(y)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'discard' and len(c.args) == 1 and simple(c.func.value) and simple(c.args[0]):
            return self.at(ast.If(ast.Compare(load(c.args[0]), [ast.In()], [load(c.func.value)]), [ast.Expr(ast.Call(ast.Attribute(c.func.value, 'remove', ast.Load()), c.args, []))], []), n)
        # x[k].sort(...)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'sort' and not c.args and isinstance(c.func.value, (ast.Subscript, ast.Attribute)) and simple(c.func.value):
            tg = copy.deepcopy(c.func.value)
            tg.ctx = ast.Store()
            return self.at(ast.Assign([tg], ast.Call(ast.Name('sorted', ast.Load()), [load(c.func.value)], c.keywords)), n)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.GeneratorExp) and len(it.generators) == 1 and not it.generators[0].is_async:
            # for x in (e for y in it if c): the loop over y
            g = it.generators[0]
            body = [ast.Assign([copy.deepcopy(n.target)], it.elt)] + n.body if ast.dump(load(n.target)) != ast.dump(it.elt) else n.body
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return self.visit_For2(self.at(ast.For(g.target, g.iter, body, n.orelse), n))
        return self.visit_For2(n)

    def visit_For2(self, n):
        if n.orelse:
            return n
        parts = None
        it = n.iter
        if isinstance(it, ast.BinOp) and isinstance(it.op, ast.Add) and (isinstance(it.left, ast.List) or isinstance(it.right, ast.List)):
            parts = [it.left, it.right]
        elif isinstance(it, (ast.List, ast.Tuple)) and sum(isinstance(x, ast.Starred) for x in it.elts) in (1, 2) and len(it.elts) > 1:
            parts = []
            for x in it.elts:
                if isinstance(x, ast.Starred):
                    parts.append(x.value)
                elif parts and isinstance(parts[-1], ast.List):
                    parts[-1].elts.append(x)
                else:
                    parts.append(ast.List([x], ast.Load()))
        elif isinstance(it, ast.Call) and not it.keywords and len(it.args) == 2 and (isinstance(it.func, ast.Attribute) and it.func.attr == 'chain' or isinstance(it.func, ast.Name) and it.func.id == 'chain'):
            parts = list(it.args)
        if parts and len(parts) <= 3 and not jumps(n.body) and len(list(ast.walk(ast.Module(n.body, [])))) < 400:
            return self.at([ast.For(copy.deepcopy(n.target), p, copy.deepcopy(n.body), []) for p in parts], n)
        return n

    def fuse(self, n):
        self.generic_visit(n)
        gens = []
        for g in n.generators:
            if isinstance(g.iter, ast.GeneratorExp) and not g.is_async:
                i = g.iter
                gens += i.generators
                if ast.dump(load(g.target)) != ast.dump(i.elt):
                    gens.append(ast.comprehension(g.target, ast.List([i.elt], ast.Load()), g.ifs, 0))
                else:
                    gens[-1] = ast.comprehension(gens[-1].target, gens[-1].iter, gens[-1].ifs + g.ifs, 0)
            else:
                gens.append(g)
        n.generators = gens
        return n

    visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = fuse

    def visit_With(self, n):
        self.generic_visit(n)
        if len(n.items) == 1 and n.items[0].optional_vars is None and isinstance(n.items[0].context_expr, ast.Call):
            c = n.items[0].context_expr
            nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ''
            if nm == 'suppress' and c.args and not c.keywords:
                t = c.args[0] if len(c.args) == 1 else ast.Tuple(list(c.args), ast.Load())
                return self.at(ast.Try(n.body, [ast.ExceptHandler(t, None, [ast.copy_location(ast.Pass(), n)])], [], []), n)
        return n

    # match statements over constants, classes without patterns, and captures

    def test(self, p, subj):
        """(test or None for always, bindings) of a pattern; None if it is not one of these"""
        if isinstance(p, ast.MatchValue):
            return ast.Compare(load(subj), [ast.Eq()], [p.value]), []
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(load(subj), [ast.Is()], [ast.Constant(p.value)]), []
        if isinstance(p, ast.MatchOr):
            ts = [self.test(x, subj) for x in p.patterns]
            if any(t is None or t[0] is None or t[1] for t in ts):
                return None
            return ast.BoolOp(ast.Or(), [t[0] for t in ts]), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return None if False else (None, [p.name] if p.name else [])
            t = self.test(p.pattern, subj)
            return t and (t[0], t[1] + [p.name])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return ast.Call(ast.Name('isinstance', ast.Load()), [load(subj), p.cls], []), []
        return None

    def visit_Match(self, n):
        self.generic_visit(n)
        pre = []
        subj = n.subject
        if not simple(subj):
            nm = '$m%d_%d' % (n.lineno, n.col_offset)
            pre = [ast.Assign([ast.Name(nm, ast.Store())], subj)]
            subj = ast.Name(nm, ast.Load())
        out = []
        for c in reversed(n.cases):
            t = self.test(c.pattern, subj)
            if t is None or t[1] and c.guard is not None:
                return n
            test, names = t
            body = [ast.Assign([ast.Name(x, ast.Store())], load(subj)) for x in names] + c.body
            if c.guard is not None:
                test = c.guard if test is None else ast.BoolOp(ast.And(), [test, c.guard])
            out = body if test is None else [ast.If(test, body, out)]
        return self.at(pre + out, n)


def desugar(tree):
    return ast.fix_missing_locations(Desugar().visit(tree))
