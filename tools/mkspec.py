"""Write the reviewed contracts: python3 tools/mkspec.py

Summarises every unit of the tree in /repo and stores the result under /verif/spec,
one file per module, plus the configuration the comparison needs.  Run by hand after
a reviewed change of /repo; no check ever writes these files.
"""
import gzip
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from multiprocessing import Pool
from vsa.program import Program
from vsa.summary import summarize, Config, units_of
from vsa.store import dump
from vsa.terms import subterms
from vsa.valuate import word

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
P = Program()
CFG = Config.of(P)


def job(q):
    s = summarize(P, P.funcs[q], CFG)
    ts = set()
    for c in s.cases:
        for t in (c.key,) + tuple(c.facts.literals()):
            subterms(t, ts)
    return q, dump([s]), {word(t) for t in ts}


def main():
    t0 = time.time()
    os.makedirs(SPEC, exist_ok=True)
    units = units_of(P, CFG)
    mods = {}
    words = set()
    with Pool(8, maxtasksperchild=40) as pool:
        for q, d, w in pool.imap_unordered(job, units, chunksize=2):
            words |= w
            mods.setdefault(P.funcs[q].mod.name, {})[q] = d
    json.dump(dict(CFG.to_json(), vocab=sorted(words)), open(os.path.join(SPEC, 'config.json'), 'w'), indent=0, sort_keys=True)
    idx = {}
    for m, d in sorted(mods.items()):
        with open(os.path.join(SPEC, m + '.json.gz'), 'wb') as raw:
            with gzip.GzipFile(fileobj=raw, mode='wb', mtime=0, filename='') as f:
                f.write(json.dumps({q: d[q] for q in sorted(d)}, separators=(',', ':')).encode())
        for q in d:
            idx[q] = [m, len(d[q]['funcs'][q]['cases'])]
    json.dump(idx, open(os.path.join(SPEC, 'index.json'), 'w'), indent=0, sort_keys=True)
    print(len(idx), 'units', sum(v[1] for v in idx.values()), 'cases', round(time.time() - t0, 1), 's')


if __name__ == '__main__':
    main()
