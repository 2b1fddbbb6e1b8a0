"""Reading and writing summaries: one table of term nodes per file, cases refer to it."""
import json
from .terms import *
from .facts import EMPTY
from .summary import Summary, Case


class Writer(object):
    def __init__(self):
        self.nodes = []
        self.idx = {}

    def arg(self, a):
        if isinstance(a, T):
            return ['$', self.term(a)]
        if isinstance(a, tuple):
            return ['('] + [self.arg(x) for x in a]
        if isinstance(a, frozenset):
            return ['{'] + [self.arg(x) for x in sorted(a, key=repr)]
        if isinstance(a, bytes):
            return ['b', a.hex()]
        if isinstance(a, int) and not isinstance(a, bool) and abs(a) >> 63:
            return ['i', hex(a)]
        if a is Ellipsis:
            return ['...']
        return a

    def term(self, t):
        if t in self.idx:
            return self.idx[t]
        n = [t.op] + [self.arg(a) for a in t.a]
        self.nodes.append(n)
        self.idx[t] = len(self.nodes) - 1
        return self.idx[t]


def dump(summaries, extra=None):
    w = Writer()
    funcs = {}
    for s in summaries:
        funcs[s.qual] = {'lvs': s.lvs, 'inlined': s.stats.get('inlined', []), 'lvdefs': {k: [w.term(t) for t in v] for k, v in s.lvdefs.items()}, 'defs': [[w.term(k), [[[w.term(l) for l in ls], w.term(v)] for ls, v in cs]] for k, cs in s.defs.items()], 'cases': [[c.kind, w.term(c.key), [w.term(l) for l in c.cond], sorted(w.term(l) for l in c.facts.literals() if l not in c.cond), int(c.approx), c.where] for c in s.cases]}
    d = {'nodes': w.nodes, 'funcs': funcs}
    d.update(extra or {})
    return d


def load(d, only=None):
    nodes = d['nodes']
    built = [None] * len(nodes)

    def arg(a):
        if isinstance(a, list):
            if a[0] == '$':
                return term(a[1])
            if a[0] == '(':
                return tuple(arg(x) for x in a[1:])
            if a[0] == '{':
                return frozenset(arg(x) for x in a[1:])
            if a[0] == 'b':
                return bytes.fromhex(a[1])
            if a[0] == 'i':
                return int(a[1], 16)
            if a[0] == '...':
                return Ellipsis
        return a

    def term(i):
        t = built[i]
        if t is None:
            n = nodes[i]
            args = tuple(arg(a) for a in n[1:])
            t = mk('c', args[0]) if n[0] == 'c' else rebuild(n[0], args)
            built[i] = t
        return t

    out = {}
    for q, cs in d['funcs'].items():
        if only is not None and q not in only:
            continue
        s = Summary(q)
        s.lvs = cs['lvs']
        s.stats = {'inlined': cs.get('inlined', [])}
        s.lvdefs = {k: [term(i) for i in v] for k, v in cs['lvdefs'].items()}
        s.defs = {term(k): [(tuple(term(l) for l in ls), term(v)) for ls, v in dcs] for k, dcs in cs['defs']}
        for kind, key, cond, facts, ap, where in cs['cases']:
            cond = tuple(term(i) for i in cond)
            f = EMPTY
            for l in cond + tuple(term(i) for i in facts):
                f = f.add(l) or f
            s.cases.append(Case(kind, term(key), cond, f, bool(ap), where))
        out[q] = s
    return out
