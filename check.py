#!/usr/bin/env python3
"""Decides one property by static analysis of /repo's source: check.py <ID> [--tier quick|thorough]

exit 0: the property holds on everything analysed; exit 1 with a VIOLATION line otherwise.
"""
import json
import os
import sys
import time
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vsa import engine, props
from vsa import rules as rulemod


def findings():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                f = dict(x.split('=', 1) for x in l[9:].split(' ', 2)[:2])
                f['text'] = l[9:].split(' ', 2)[2] if l[9:].count(' ') > 1 else ''
                out.append(f)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P, CFG = engine.setup()
    d = props.PROPS[prop]
    idx = engine.index()
    units = props.select(prop, idx)
    rep = engine.run_contracts(units, d.get('kinds'), limit=240 if tier == 'thorough' else 120)
    viol = []       # (key, text, detail)
    und = []
    checked = 0
    for r in rep:
        checked += r['checked']
        if r['status'] != 'ok':
            und.append('%s: %s' % (r['unit'], r['status']))
        elif r['undecided']:
            und.append('%s: %d case(s) outside the domain' % (r['unit'], r['undecided']))
        ds = [x for x in r['diffs'] if props.relevant(prop, x)]
        if ds:
            x = ds[0]
            viol.append(('contract:' + r['unit'], '%s %s: %s %s' % (r['where'], r['unit'], 'does' if x['direction'] == 'new' else 'no longer does', x['case'][:400]), {'unit': r['unit'], 'where': r['where'], 'differences': ds[:40]}))
    rstats = {}
    for name, fn in rulemod.RULES.get(prop, ()):
        try:
            vs, st = fn(P, tier)
        except Exception as e:      # a rule that cannot read the tree decides nothing
            import traceback
            und.append('rule %s: %r %s' % (name, e, traceback.format_exc().strip().split('\n')[-3].strip()[:160]))
            continue
        rstats[name] = st
        for key, text, detail in vs:
            viol.append(('%s:%s' % (name, key), text, detail))
    known = [f for f in findings() if f.get('property') == prop]
    kk = {f['key']: f for f in known}
    fresh = []
    shown = set()
    for key, text, detail in viol:
        if key in kk:
            if key not in shown:
                shown.add(key)
                print('KNOWN-FINDING: property=%s %s %s' % (prop, key, kk[key]['text']))
        else:
            fresh.append((key, text, detail))
    wall = time.time() - t0
    cov = {
        'explanation': 'Static analysis of the source under /repo: %d functions were summarised by abstract interpretation (%d guarded cases in their contracts) and compared case by case, in both directions, with the reviewed contracts in /verif/spec; %d explicit rule(s) enumerated their obligations. Nothing of the repository is executed. Undecided items are outside the domain and raise no alarm.' % (
            sum(r['status'] == 'ok' for r in rep), sum(idx[q][1] for q in units), len(rstats)),
        'functions_analysed': sum(r['status'] == 'ok' for r in rep),
        'functions_mapped': len(units),
        'cases_checked': checked,
        'cases_in_current_tree': sum(r['cases'] for r in rep),
        'events_interpreted': sum(r['events'] for r in rep),
        'undecided': len(und),
        'undecided_items': und[:60],
        'rules': rstats,
        'modules_parsed': sorted(m.path for m in P.modules.values()),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(fresh),
          'assumptions': ['the reviewed contracts state the documented behaviour', 'library functions behave as documented', 'constructs outside the analysed domain are reported as undecided, not as violations']}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    if not fresh:
        print('property=%s held: %d functions, %d cases, %d rule(s), %d undecided, %.1f s' % (prop, cov['functions_analysed'], checked, len(rstats), len(und), wall))
        return 0
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    path = os.path.join(ROOT, 'replay', prop + '.json')
    json.dump([{'key': k, 'what': t, 'detail': x} for k, t, x in fresh], open(path, 'w'), indent=1, default=str)
    for k, t, _x in fresh[:20]:
        print('%s' % t)
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


if __name__ == '__main__':
    sys.exit(main())
