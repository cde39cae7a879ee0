"""Writes MANIFEST.json from the claimed rules (gbsa.run.RULES) and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from gbsa.run import RULES
from tools.notes import TECH, NA

props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in RULES:
        tech, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'python3 -m gbsa.run %s --tier quick' % i,
                       'thorough_cmd': 'python3 -m gbsa.run %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': tech, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: one abstract interpreter (gbsa/) reads /repo on every run; see DESIGN.md.'},
          open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
