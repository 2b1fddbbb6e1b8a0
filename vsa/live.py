"""Live variables of a function, over the structured syntax tree."""
import ast


def loads(n):
    """names read by an expression or statement fragment"""
    if n is None:
        return set()
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}


def stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Liveness(object):
    def __init__(self, node):
        self.after = {}
        self.entry = {}
        self.head = {}
        self.keep = set()
        a = node.args
        for x in ast.walk(node):
            if x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                self.keep |= loads(x) | stores(x)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                self.keep |= set(x.names)
        self.keep |= {'self', 'cls'}
        self.block(node.body, set(), set(), set(), set())

    def block(self, stmts, out, brk, cont, exc):
        out = set(out)
        for n in reversed(stmts):
            s = self.after.get(id(n))
            if s is None:
                self.after[id(n)] = set(out) | exc
            else:
                s |= out
                s |= exc
            out = self.before(n, out, brk, cont, exc)
        return out

    def before(self, n, out, brk, cont, exc):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            d, u = set(), loads(n.value)
            for t in tg:
                if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                    d |= stores(t)
                u |= loads(t)
            if n.value is None:
                d = set()
            return (out - d) | u | exc
        if isinstance(n, ast.AugAssign):
            return out | loads(n.value) | loads(n.target) | stores(n.target) | exc
        if isinstance(n, ast.If):
            return loads(n.test) | self.block(n.body, out, brk, cont, exc) | self.block(n.orelse, out, brk, cont, exc) | exc
        if isinstance(n, (ast.While, ast.For)):
            o2 = self.block(n.orelse, out, brk, cont, exc) if n.orelse else set(out)
            head = set(o2)
            head |= loads(n.test) if isinstance(n, ast.While) else set()
            while True:
                b = self.block(n.body, head, out, head, exc)
                if isinstance(n, ast.For):
                    b = (b - stores(n.target)) | loads(n.target)
                new = head | b
                if new == head:
                    break
                head = new
            self.head[id(n)] = set(head)
            if isinstance(n, ast.For):
                head = head | loads(n.iter)
            return head | exc
        if isinstance(n, ast.Try):
            fu = set()
            if n.finalbody:
                fout = self.block(n.finalbody, out, brk, cont, exc)
                for x in n.finalbody:
                    fu |= loads(x)
            else:
                fout = set(out)
            e2 = exc | fu
            h = set()
            for x in n.handlers:
                hb = self.block(x.body, fout, brk | fu, cont | fu, e2)
                self.entry[id(x)] = self.entry.get(id(x), set()) | hb | e2
                h |= (hb - ({x.name} if x.name else set())) | loads(x.type)
            o = self.block(n.orelse, fout, brk | fu, cont | fu, e2) if n.orelse else fout
            return self.block(n.body, o, brk | fu, cont | fu, e2 | h) | exc
        if isinstance(n, ast.With):
            r = self.block(n.body, out, brk, cont, exc)
            for i in n.items:
                r |= loads(i.context_expr) | (loads(i.optional_vars) if i.optional_vars is not None else set())
            return r | exc
        if isinstance(n, (ast.Return, ast.Raise)):
            return loads(n) | exc
        if isinstance(n, ast.Break):
            return set(brk) | exc
        if isinstance(n, ast.Continue):
            return set(cont) | exc
        if isinstance(n, (ast.Expr, ast.Assert, ast.Delete, ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            return out | loads(n) | exc
        # anything else: everything it mentions stays alive
        return out | loads(n) | stores(n) | exc
