"""Compares the summaries of the current tree with the stored contracts, in parallel."""
import gzip
import json
import os
import signal
import time
import traceback
from multiprocessing import Pool
from .program import Program
from .summary import summarize, compare, pseudo, Config
from .store import load
from . import valuate

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('VSA_REPO', '/repo')

P = None
CFG = None
REFS = {}


class TimeUp(Exception):
    pass


def _alarm(*a):
    raise TimeUp()


def setup(repo=None):
    global P, CFG
    P = Program(repo or REPO)
    d = json.load(open(os.path.join(SPEC, 'config.json')))
    CFG = Config.from_json(d)
    valuate.VOCAB = frozenset(d['vocab'])
    return P, CFG


def index():
    return json.load(open(os.path.join(SPEC, 'index.json')))


def refs_for(units):
    idx = index()
    by = {}
    for q in units:
        by.setdefault(idx[q][0], []).append(q)
    for m, qs in by.items():
        d = json.loads(gzip.open(os.path.join(SPEC, m + '.json.gz')).read())
        for q in qs:
            REFS[q] = d[q]


def resolve(prog, q):
    """the function that a reference unit names in this tree: (func, class or None) or None"""
    f = prog.funcs.get(q)
    if f is not None:
        return f, None
    if '.' in q:
        cq, name = q.rsplit('.', 1)
        c = prog.classes.get(cq)
        if c is not None:
            m = c.find(name)
            if m is not None:
                return m, c
    return None


def job(arg):
    q, kinds, limit = arg
    t0 = time.time()
    out = {'unit': q, 'status': 'ok', 'diffs': [], 'undecided': 0, 'checked': 0, 'cases': 0, 'events': 0, 'where': ''}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        r = resolve(P, q)
        if r is None:
            out['status'] = 'missing'
            return out
        f, cls = r
        out['where'] = '%s:%d' % (f.mod.path, f.node.lineno if hasattr(f.node, 'lineno') else 1)
        ref = load(REFS[q], only=[q])[q]
        cur = summarize(P, f, CFG, cls=cls)
        d, und, chk = compare(ref, cur, kinds)
        out['undecided'], out['checked'] = und, chk
        out['cases'] = len(cur.cases)
        out['events'] = cur.stats['events']
        out['inlined'] = cur.stats['inlined']
        for direction, c, note, how in valuate.confirm(ref, cur, d):
            if how != 'differs':
                out['undecided'] += 1
                continue
            out['diffs'].append({'pseudo': any(pseudo(l) for l in c.cond), 'plain': c.key.op == 'c' and c.key.a[0] in (None, True, False),
                                 'direction': direction, 'kind': c.kind, 'note': note, 'case': repr(c)[:1500], 'key': repr_key(c), 'approx': c.approx,
                                 'line': c.where if direction == 'new' else None, 'refline': c.where if direction == 'lost' else None, 'file': f.mod.path})
    except TimeUp:
        out['status'] = 'timeout'
        out['diffs'] = []
    except RecursionError:
        out['status'] = 'error: recursion'
        out['diffs'] = []
    except Exception as e:
        out['status'] = 'error: ' + repr(e)[:200] + ' @ ' + traceback.format_exc().strip().split('\n')[-3].strip()[:120]
        out['diffs'] = []
    finally:
        signal.alarm(0)
    out['t'] = round(time.time() - t0, 2)
    return out


def repr_key(c):
    from .terms import show
    return show(c.key)[:200]


def run_contracts(units, kinds=None, limit=120, procs=8):
    refs_for(units)
    idx = index()
    # big units first
    todo = sorted(units, key=lambda q: -idx[q][1])
    res = []
    with Pool(procs, maxtasksperchild=60) as pool:
        for r in pool.imap_unordered(job, [(q, kinds, limit) for q in todo], chunksize=1):
            res.append(r)
    return sorted(res, key=lambda r: r['unit'])
