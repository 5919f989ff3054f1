"""Worker: discharges the obligations of one contract from current source."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyvc import boot   # noqa: F401
from pyvc import core
from pyvc.engine import Engine, Unsupported


def run(modname, name, deadline, scale=1.0):
  t0 = time.time()
  out = dict(contract=name, module=modname, status='proved', obligations=[],
             inlined=[], error=None, trusted=[])
  try:
    m = importlib.import_module('contracts.' + modname)
    cs = m.contracts()
    c = [x for x in cs if x.name == name]
    if not c:
      out.update(status='unsupported', error='contract missing')
      return out
    c, = c
    eng = Engine(cs, handlers=getattr(m, 'handlers', lambda: {})(),
                 timeout_ms=int(6000 * scale))
    eng.deadline = t0 + deadline
    for p in getattr(m, 'prepare', lambda e, c: ())(eng, c) or ():
      pass
    eng.verify(c)
    out['obligations'] = [[o.label, o.status, o.detail] for o in eng.obls]
    out['inlined'] = sorted(eng.inlined)
    out['trusted'] = sorted(eng.notes)
    bad = [o for o in eng.obls if o.status != 'proved']
    if not eng.obls:
      out.update(status='unsupported', error='no obligations generated')
    elif bad:
      if any(o.status == 'refuted' for o in bad) and not (
          eng.incomplete or c.stronger):
        out['status'] = 'refuted'
      else:
        out['status'] = 'unknown'
  except Unsupported as e:
    out.update(status='unsupported', error=str(e))
  except RecursionError:
    out.update(status='unsupported', error='recursion limit')
  except Exception as e:   # pylint: disable=broad-except
    out.update(status='unsupported',
               error=f'engine: {type(e).__name__}: {e}\n' +
               traceback.format_exc()[-1500:])
  out['solver'] = dict(queries=core.STATS.queries,
                       time=round(core.STATS.time, 2),
                       unknown=core.STATS.unknown)
  out['wall'] = round(time.time() - t0, 2)
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('module')
  ap.add_argument('contract')
  ap.add_argument('--deadline', type=float, default=240)
  ap.add_argument('--scale', type=float, default=1.0)
  ap.add_argument('--out')
  a = ap.parse_args()
  sys.setrecursionlimit(10000)
  r = run(a.module, a.contract, a.deadline, a.scale)
  s = json.dumps(r, indent=1)
  if a.out:
    with open(a.out, 'w') as f:
      f.write(s)
  else:
    print(s)


if __name__ == '__main__':
  main()
