"""Rewrites the generated lists in DESIGN.md (run by hand)."""
import json
import os
import re
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import registry
from tools import props

out = ['| property | decided by | functions under contract |', '|---|---|---|']
for p in props.PROPS:
  s = registry.PROPERTIES[p['id']]
  fns = [c for _, c in s.get('contracts', ())]
  how = ('proof' if s['level'] == 'proof' else
         'proof of the listed functions, bounded for the rest' if fns else
         'bounded')
  out.append(f"| {p['id']} {p['title']} | {how} | "
             + (', '.join(f'`{f}`' for f in fns) or '(none)') + ' |')
seeds = ['| bug | property | needs | breaks |', '|---|---|---|---|']
d = os.path.join(ROOT, 'seeded')
for sid in sorted(os.listdir(d)):
  m = json.load(open(os.path.join(d, sid, 'meta.json')))
  seeds.append(f"| {sid} | {m['property']} | {m['needs']} | "
               f"{m['what_it_breaks']} |")
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
for name, rows in (('functions', out), ('seeds', seeds)):
  text = re.sub(f'<!-- {name} -->.*?<!-- /{name} -->',
                lambda _: f'<!-- {name} -->\n' + '\n'.join(rows)
                + f'\n<!-- /{name} -->', text, flags=re.S)
open(path, 'w').write(text)
