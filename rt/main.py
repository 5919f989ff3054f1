"""Worker: runs the runtime contracts of one property (or replays a case)."""
import argparse
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rt import core
core.boot()


def load(pid):
  m = importlib.import_module('rt.' + pid.lower())
  return m


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--seed', default='1')
  ap.add_argument('--budget', type=float, default=10)
  ap.add_argument('--part', type=int, default=0)
  ap.add_argument('--parts', type=int, default=1)
  ap.add_argument('--out')
  ap.add_argument('--replay')
  a = ap.parse_args()
  res = dict(stats={}, failure=None, error=None)
  try:
    m = load(a.property)
    rcs = m.runtime_contracts()
  except core.Absent as e:
    res['error'] = f'absent: {e}'
    rcs = []
  if a.replay:
    with open(a.replay) as f:
      r = json.load(f)
    for rc in rcs:
      if rc.name == r['contract']:
        msg = core.run_case(rc, r['case'])
        print('VIOLATED' if msg else 'HOLDS', rc.name)
        print(msg or '')
        sys.exit(1 if msg else 0)
    print('no such contract')
    sys.exit(2)
  if rcs:
    with open(os.path.join(core.ROOT, 'known_findings.json')) as f:
      kf = json.load(f)

    def known(rc, case, msg):
      for k in kf.get('findings', []):
        if k['property'] == a.property and k['contract'] == rc.name and \
            getattr(m, 'matches', lambda *_: False)(k, case, msg):
          return True
      return False
    res['stats'], res['failure'] = core.search(
        rcs, a.seed, a.budget, known, a.part, a.parts)
  out = json.dumps(res)
  if a.out:
    with open(a.out, 'w') as f:
      f.write(out)
  else:
    print(json.dumps(res, indent=1))


if __name__ == '__main__':
  main()
