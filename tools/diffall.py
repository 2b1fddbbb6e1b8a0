"""Compares every unit (or those matching a regex) of a tree with the stored contracts: diffall.py REPO [regex]"""
import os
import re
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsa import engine, rules as rulemod, props

if __name__ == '__main__':
    P, CFG = engine.setup(sys.argv[1])
    pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else '.*')
    units = [q for q in engine.index() if pat.match(q)]
    n = 0
    for r in engine.run_contracts(units, limit=120):
        if r['status'] != 'ok':
            print('UNDECIDED', r['unit'], r['status'][:200])
        if r['diffs']:
            n += 1
            print('DIFF', r['unit'], len(r['diffs']), [p for p in props.PROPS if r['unit'] in props.select(p, [r['unit']])])
            for d in r['diffs'][:3]:
                print('     ', d['direction'], d['note'], d['case'][:400])
    for prop, rs in rulemod.RULES.items():
        for name, fn in rs:
            try:
                vs, st = fn(P, 'quick')
            except Exception as e:
                print('RULE ERROR', prop, name, repr(e)[:200])
                continue
            for v in vs:
                print('RULE', prop, name, v[0], str(v[1])[:300])
    print('units', len(units), 'with differences', n)
