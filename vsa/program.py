"""The program under analysis: every module of /repo, parsed afresh on each run."""
import ast
import glob
import os
import hashlib
from .desugar import desugar

REPO = os.environ.get('VSA_REPO', '/repo')
SCRIPTS = ['ntfs_parser', 'fat_parser', 'vsc_mount']


class Func(object):
    def __init__(self, mod, cls, node, qual, parent=None):
        self.mod, self.cls, self.node, self.qual, self.parent = mod, cls, node, qual, parent
        self.nested = {}
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[x.arg] = d
        body = node.body if isinstance(node.body, list) else [ast.Return(value=node.body)]
        self.body = body
        decos = [d.id for d in getattr(node, 'decorator_list', []) if isinstance(d, ast.Name)]
        self.static = 'staticmethod' in decos
        self.classm = 'classmethod' in decos
        self.prop = 'property' in decos
        self.is_gen = False
        self.has_loop = False
        self.nstmts = 0
        self.globals = set()
        self.nonlocals = set()
        for n in walk_own(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, (ast.While, ast.For)):
                self.has_loop = True
            if isinstance(n, ast.stmt):
                self.nstmts += 1
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals |= set(n.names)
        self.locals = set(self.params) | set(self.kwonly)
        for n in walk_own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.locals.add(n.id)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node:
                self.locals.add(n.name)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        self.locals -= self.globals | self.nonlocals

    @property
    def where(self):
        return '%s:%d' % (self.mod.path, self.node.lineno)

    def __repr__(self):
        return '<%s>' % self.qual


def walk_own(fn):
    """nodes of a function body, not of functions nested in it"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = mod.name + '.' + node.name
        self.base_exprs = node.bases
        self.methods = {}
        self.attrs = {}       # class level assignments (AST)
        self.bases = []       # resolved Class objects or builtin names
        self.subclasses = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def base_names(self):
        out = []
        for c in self.mro():
            out.append(c.qual)
            for b in c.bases:
                if isinstance(b, str):
                    out.append(b)
        return out

    def __repr__(self):
        return '<class %s>' % self.qual


class Module(object):
    def __init__(self, name, path, relpath, tree):
        self.name, self.path, self.relpath, self.tree = name, relpath, relpath, tree
        self.functions = {}
        self.classes = {}
        self.imports = {}      # name -> ('mod', M) | ('ext', dotted)
        self.assigns = {}      # name -> [value AST]
        self.mutated_globals = set()


class Program(object):
    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        overrides = overrides or {}
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.func_of_node = {}
        files = sorted(glob.glob(os.path.join(self.repo, 'dfir_ntfs', '**', '*.py'), recursive=True))
        files += [os.path.join(self.repo, s) for s in SCRIPTS if os.path.exists(os.path.join(self.repo, s))]
        h = hashlib.sha256()
        self.files = []
        for f in files:
            rel = os.path.relpath(f, self.repo)
            src = overrides[rel] if rel in overrides else open(f, 'rb').read()
            h.update(src)
            self.files.append(rel)
            tree = desugar(ast.parse(src, filename=rel))
            base = os.path.splitext(os.path.basename(f))[0]
            if base == '__init__':
                base = os.path.basename(os.path.dirname(f)) + '.__init__'
            m = Module(base, f, rel, tree)
            self.modules[base] = m
        self.digest = h.hexdigest()[:16]
        for m in self.modules.values():
            self._scan(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    r = self.resolve_class_expr(m, b)
                    if isinstance(r, Class):
                        c.bases.append(r)
                        r.subclasses.append(c)
                    elif r is not None:
                        c.bases.append(r)
        self._writers()

    def _scan(self, m):
        def do_body(body, cls, prefix, parent):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    do_func(n, cls, prefix, parent)
                elif isinstance(n, ast.ClassDef) and parent is None and cls is None:
                    c = Class(m, n)
                    m.classes[n.name] = c
                    self.classes[c.qual] = c
                    for s in n.body:
                        if isinstance(s, ast.FunctionDef):
                            do_func(s, c, c.qual, None)
                        elif isinstance(s, ast.Assign):
                            for t in s.targets:
                                if isinstance(t, ast.Name):
                                    c.attrs[t.id] = s.value

        def do_func(n, cls, prefix, parent):
            q = prefix + '.' + n.name
            k = 2
            while q in self.funcs:
                q = prefix + '.' + n.name + '#%d' % k
                k += 1
            f = Func(m, cls if parent is None else (parent.cls if parent else cls), n, q, parent)
            self.funcs[q] = f
            self.func_of_node[n] = f
            if parent is not None:
                parent.nested[n.name] = f
            elif cls is not None:
                cls.methods[n.name] = f
            else:
                m.functions[n.name] = f
            for s in walk_own(n):
                if isinstance(s, ast.FunctionDef):
                    do_func(s, cls, q, f)
                elif isinstance(s, ast.Lambda):
                    pass

        top = []
        for n in m.tree.body:
            top.append(n)
        do_body(top, None, m.name, None)
        # functions and classes defined under top-level if/try
        for n in m.tree.body:
            if isinstance(n, (ast.If, ast.Try)):
                for s in ast.walk(n):
                    if isinstance(s, ast.FunctionDef) and s not in self.func_of_node:
                        do_func(s, None, m.name, None)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.mutated_globals |= set(n.names)
        if m.name in SCRIPTS:
            # the script's own statements, as a function whose variables are the module's
            body = [n for n in m.tree.body if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
            if body:
                node = ast.FunctionDef(name='__main__', args=ast.arguments([], [], None, [], [], None, []), body=body, decorator_list=[])
                node.lineno = body[0].lineno
                node.col_offset = 0
                f = Func(m, None, node, m.name + '.__main__')
                f.is_module = True
                f.globals = set(f.locals)
                f.locals = set()
                self.funcs[f.qual] = f
                self.func_of_node[node] = f
        for n in m.tree.body:
            self._imports(m, n)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.assigns.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                m.assigns.setdefault(e.id, []).append(None)
            elif isinstance(n, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                for s in ast.walk(n):
                    self._imports(m, s)
                    if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                        m.assigns.setdefault(s.id, []).append(None)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                m.assigns.setdefault(n.target.id, []).append(None)

    def _imports(self, m, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                m.imports[a.asname or a.name.split('.')[0]] = ('ext', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            src = n.module or ''
            last = src.split('.')[-1] if src else ''
            for a in n.names:
                if a.name == '*':
                    if src == 'dfir_ntfs' or n.level:
                        for k, mm in self.modules.items():
                            if '.__init__' not in k and mm.path.startswith('dfir_ntfs/') and mm.path.count('/') == 1:
                                m.imports[k] = ('mod', k)
                    continue
                nm = a.asname or a.name
                if a.name in self.modules and (n.level or src.startswith('dfir_ntfs')):
                    m.imports[nm] = ('mod', a.name)
                elif last in self.modules and (n.level or src.startswith('dfir_ntfs')):
                    m.imports[nm] = ('from', last, a.name)
                else:
                    m.imports[nm] = ('ext', (src + '.' if src else '') + a.name)

    def resolve_class_expr(self, m, e):
        if isinstance(e, ast.Name):
            if e.id in m.classes:
                return m.classes[e.id]
            imp = m.imports.get(e.id)
            if imp and imp[0] == 'from':
                return self.modules[imp[1]].classes.get(imp[2], imp[2])
            return e.id
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            imp = m.imports.get(e.value.id)
            if imp and imp[0] == 'mod':
                return self.modules[imp[1]].classes.get(e.attr, e.attr)
            return e.value.id + '.' + e.attr
        return None

    def exc_name(self, m, e):
        """qualified name of an exception class expression"""
        if isinstance(e, ast.Call):
            e = e.func
        r = self.resolve_class_expr(m, e)
        if isinstance(r, Class):
            return r.qual
        return r

    BUILTIN_EXC = {
        'Exception': None, 'BaseException': None, 'ArithmeticError': 'Exception', 'OverflowError': 'ArithmeticError',
        'ZeroDivisionError': 'ArithmeticError', 'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
        'ValueError': 'Exception', 'UnicodeDecodeError': 'ValueError', 'UnicodeError': 'ValueError', 'TypeError': 'Exception',
        'AttributeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception', 'OSError': 'Exception',
        'IOError': 'Exception', 'StopIteration': 'Exception', 'struct.error': 'Exception', 'MemoryError': 'Exception', 'RecursionError': 'RuntimeError',
    }

    def exc_bases(self, name):
        """all ancestors of an exception class name, itself included"""
        out = []
        if name in self.classes:
            for b in self.classes[name].base_names():
                out.append(b)
                if b in self.BUILTIN_EXC:
                    out += self.exc_bases(b)
            return out
        while name:
            out.append(name)
            name = self.BUILTIN_EXC.get(name, 'Exception' if name not in ('Exception', 'BaseException') else None)
        if 'Exception' in out:
            out.append('BaseException')
        return out

    CHANGERS = {'append', 'add', 'extend', 'remove', 'discard', 'pop', 'update', 'insert', 'clear', 'sort', 'reverse', 'setdefault', 'popitem'}

    def _writers(self):
        """attribute name -> functions that store it (through any object)"""
        self.attr_writers = {}
        self.attr_changers = {}
        for q, f in self.funcs.items():
            for n in walk_own(f.node):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    tg = [n.target]
                elif isinstance(n, ast.For):
                    tg = [n.target]
                elif isinstance(n, ast.Delete):
                    tg = n.targets
                for t in tg:
                    for s in ast.walk(t):
                        if isinstance(s, ast.Attribute) and isinstance(s.ctx, (ast.Store, ast.Del)):
                            self.attr_writers.setdefault(s.attr, set()).add(q)
                x = None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    x = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.CHANGERS:
                    x = n.func.value
                while isinstance(x, ast.Subscript):
                    x = x.value
                if isinstance(x, ast.Attribute) and f.name != '__init__':
                    self.attr_changers.setdefault(x.attr, set()).add(q)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    self.attr_writers.setdefault('*', set()).add(q)

    def func(self, qual):
        return self.funcs.get(qual)

    def class_family(self, c):
        out = set()
        todo = [c]
        while todo:
            x = todo.pop()
            if x in out or not isinstance(x, Class):
                continue
            out.add(x)
            todo += x.bases
            todo += x.subclasses
        return out

    def attr_names(self):
        """every attribute name that occurs in the program"""
        r = set()
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    r.add(n.attr)
        for c in self.classes.values():
            r |= set(c.attrs)
        return r

    def init_only(self, c, attr):
        """attr of class c is stored only while an object is constructed"""
        fam = self.class_family(c)
        for q in self.attr_writers.get(attr, ()):
            f = self.funcs[q]
            if f.cls is None:
                # a plain function storing through some object: be conservative
                return False
            if f.cls in fam:
                top = f
                while top.parent is not None:
                    top = top.parent
                if top.name != '__init__':
                    return False
        return True
