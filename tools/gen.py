"""Writes properties.jsonl and MANIFEST.json (run by hand: tools/gen.py)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools import props
import registry

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
  for p in props.PROPS:
    f.write(json.dumps(p) + '\n')

checks, na = [], []
for p in props.PROPS:
  pid = p['id']
  if pid not in registry.PROPERTIES:
    na.append(dict(property=pid, reason=registry.NOT_APPLICABLE[pid]))
    continue
  s = registry.PROPERTIES[pid]
  n = len(s.get('contracts', ()))
  tech = ('contract-based deductive verification (pyvc: VCs from the current '
          'source, z3)' if n else
          'executable contracts on the real functions (bounded stand-in)')
  if n and s['level'] != 'proof':
    tech += ' + executable contracts (bounded) for the remaining functions'
  checks.append(dict(
      property=pid, quick_cmd=f'python3 check.py {pid}',
      thorough_cmd=f'python3 check.py {pid} --thorough',
      evidence_file=f'evidence/{pid}.json', technique=tech,
      level=s['level'], level_note=s['note'],
      **(dict(theorems=[c for _, c in s['contracts']]) if n else {})))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=na,
         notes='No hooks: /repo carries only "fix:" commits. See DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
