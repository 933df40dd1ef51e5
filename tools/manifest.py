"""Writes MANIFEST.json from bin/suites.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from suites import PROPERTIES
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('TLC checks the property exhaustively on the specification within the constants of its configurations; the binding to the '
        'code is by traces: every recorded call of the real code (behaviours generated by TLC from the specification, plus seeded '
        'random ones) must be a step of the specification. Trusted: TLC, the recording drivers, the exactness of mpmath\'s stored binary values.')
checks, na = [], []
for p in props:
    if p['id'] in PROPERTIES:
        q = PROPERTIES[p['id']]
        checks.append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick bin/check.py %s' % p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough bin/check.py %s' % p['id'],
                       'technique': 'TLA+ specification: TLC model checking, TLC-generated behaviours replayed on the code, trace validation by TLC',
                       'level': q.get('level', 'model_checking'),
                       'level_note': (q.get('note', '') + ' ' + NOTE).strip()})
    else:
        na.append({'property': p['id'], 'reason': 'its check is not built yet'})
m = {'version': 1, 'setup_cmd': 'bin/setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the drivers observe the code through its public API', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Specification in TLA+ (spec/), runner bin/check.py, drivers in drivers/. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
