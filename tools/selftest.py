"""Mass test of the summary comparison: rewrites must stay quiet, mutations should be reported.

  python3 tools/selftest.py rewrites [N] [filter]   random preserving rewrites per function
  python3 tools/selftest.py mutants  [N] [filter]   random mutants per function
"""
import ast
import copy
import json
import os
import random
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from multiprocessing import Pool
from vsa.program import Program
from vsa.interp import default_inline
from vsa.summary import summarize, compare, Config
from tools import variants
from vsa import valuate
import signal

P = Program()
CFG = Config.of(P)


class TO(Exception):
    pass


def alarm(*a):
    raise TO()


def job(arg):
    mode, q, n, seed = arg
    signal.signal(signal.SIGALRM, alarm)
    f = P.funcs[q]
    rnd = random.Random(seed)
    rel = f.mod.path
    res = []
    signal.alarm(120)
    try:
        ref = summarize(P, f, CFG)
    except TO:
        return [(q, 'timeout', 'ref', '')]
    finally:
        signal.alarm(0)
    if mode == 'rewrites':
        todo = [(k, None, None) for k in variants.PRESERVING]
        if n < len(todo):
            todo = rnd.sample(todo, n)
    else:
        todo = variants.mutants(f.node)
        if n < len(todo):
            todo = rnd.sample(todo, n)
    for name, i, how in todo:
        tree = ast.parse(open(os.path.join(P.repo, rel), 'rb').read())
        # find the same function
        fn = None
        for x in ast.walk(tree):
            if isinstance(x, ast.FunctionDef) and x.lineno == f.node.lineno and x.name == f.node.name:
                fn = x
        try:
            ok = variants.PRESERVING[name](fn, rnd, tree) if mode == 'rewrites' else variants.apply_mutant(fn, i, how)
        except IndexError:
            ok = False
        if not ok:
            continue
        ast.fix_missing_locations(tree)
        src = ast.unparse(tree)
        try:
            compile(src, 'x', 'exec')
        except SyntaxError:
            continue
        line = ast.unparse(variants.own(fn)[i])[:90] if mode == 'mutants' and how != 'pass' else ''
        if mode == 'mutants':
            try:
                line = ast.unparse(variants.own(f.node)[i])[:100]
            except Exception:
                line = ''
        p2 = Program(overrides={rel: src.encode()})
        signal.alarm(150)
        try:
            cur = summarize(p2, p2.funcs[q], CFG)
            d, und, chk = compare(ref, cur)
            cf = valuate.confirm(ref, cur, d)
            st = 'same' if not d else 'diff' if any(x[3] == 'differs' for x in cf) else 'unk' if any(x[3] != 'agrees' for x in cf) else 'agree'
        except TO:
            res.append((q, name, 'timeout', line))
            continue
        except Exception as e:
            res.append((q, name, 'error ' + repr(e)[:200], line))
            continue
        finally:
            signal.alarm(0)
        res.append((q, name, st, line, [(x[0], x[2], repr(x[1])[:300]) for x in d[:2]]))
    return res


if __name__ == '__main__':
    mode = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
    flt = sys.argv[3] if len(sys.argv) > 3 else ''
    units = [q for q, f in P.funcs.items() if not getattr(f, "is_module", False) and (f.parent is None or q not in CFG.inline) and flt in q]
    seed = int(os.environ.get('SEED', '1'))
    tot = {}
    by = {}
    t0 = time.time()
    log = open('/tmp/selftest_%s.jsonl' % mode, 'w')
    with Pool(8, maxtasksperchild=6) as pool:
        for r in pool.imap_unordered(job, [(mode, q, n, seed + k) for k, q in enumerate(units)], chunksize=2):
            for x in r:
                v = x[2].split()[0]
                tot[v] = tot.get(v, 0) + 1
                by.setdefault(x[1], {}).setdefault(v, 0)
                by[x[1]][v] += 1
                log.write(json.dumps(x) + '\n')
    log.close()
    print(tot, round(time.time() - t0, 1))
    for k in sorted(by):
        print('  ', k, by[k])
