"""Writes MANIFEST.json from the list of claimed properties (tools/claims.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from claims import CLAIMS, NA
from groups import LEVEL
root = os.path.dirname(here)
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        c = CLAIMS[p]
        checks.append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': c[0], 'level': LEVEL.get(p, 'model_checking'), 'level_note': c[1]})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'the check is not built yet')})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks instrument a scratch copy of its working tree (go/cmd/instr). See DESIGN.md.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
