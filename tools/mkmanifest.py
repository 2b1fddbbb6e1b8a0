"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vsa.props import PROPS
from vsa.rules import RULES

NA = {
    'C31': 'Completeness of recovery quantifies over log histories: whether a record is "still recoverable" depends on run-time page contents that no static argument over the source can enumerate; the static part (location and agreement of records) is claimed as C20.',
    'C32': 'Time and memory growth depends on run-time quantities (sizes of lists, caches and images); a sound static cost bound for this dynamically typed code is out of reach. Termination alone is claimed as C10.',
    'C33': 'Completeness of a heuristic search has no static oracle: which remnants are "intact" is a fact about buffer contents. The soundness direction (only candidates that satisfy the rules) is claimed as C28.',
}
NOTE = {}


def main():
    checks = []
    for p in PROPS:
        rules = [n for n, _f in RULES.get(p, ())]
        checks.append({
            'property': p,
            'quick_cmd': 'python3 check.py %s --tier quick' % p,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
            'technique': 'abstract interpretation of the syntax tree into guarded-case summaries, compared semantically with reviewed contracts' + ('; dataflow rules: ' + ', '.join(rules) if rules else ''),
            'level': 'other',
            'level_note': NOTE.get(p, 'Static: every path of the mapped functions is covered up to the abstraction (loops by their step relation, library calls as uninterpreted terms). Trusts the reviewed contracts and the documented behaviour of the standard library; constructs outside the domain are counted as undecided in the evidence and never alarm.'),
        })
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 8)"', 'checks': checks,
         'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()],
         'notes': 'Pure static analysis with the Python standard library; nothing of /repo is imported or executed. No hooks in /repo. Contracts live in spec/, regenerated by hand with tools/mkspec.py after a reviewed change.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
