"""Runtime contracts: executable specifications run against the real code.

A runtime contract has JSON-serialisable cases, so that each failing case can
be stored, shrunk and replayed.  It is the CPython side of the checks: it
replays the verifier's verdict on real inputs (and is the bounded stand-in,
labelled bounded, for functions outside the verifier's subset).
"""
import ast
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def boot():
  sys.dont_write_bytecode = True
  for p in (REPO, os.path.join(ROOT, 'stubs'), ROOT):
    if p not in sys.path:
      sys.path.insert(0, p)
  sys.setrecursionlimit(4000)


class Skip(Exception):
  """The case does not satisfy the precondition."""


class Fail(Exception):
  """The contract is violated."""


class Absent(Exception):
  """The function under check does not exist (any more)."""


def need(mod, name):
  """Attribute of a repo module, or Absent when it was renamed/removed."""
  o = mod
  for part in name.split('.'):
    if not hasattr(o, part):
      raise Absent(f'{mod.__name__}.{name}')
    o = getattr(o, part)
  return o


def expect(cond, msg, *extra):
  if not cond:
    raise Fail(msg + ''.join(f'\n    {e!r}' for e in extra))


def expect_eq(got, want, msg):
  if got != want:
    raise Fail(f'{msg}\n    got  {got!r:.600}\n    want {want!r:.600}')


class RC:
  """One runtime contract."""
  name = ''
  targets = ()          # functions of /repo it exercises
  weight = 1.0

  def exhaustive(self):
    return iter(())

  def gen(self, rng, size):
    return None

  def check(self, case):
    raise NotImplementedError


_mined = {}


def mined(*relpaths):
  """String and int literals of the current source, as dictionary inputs."""
  key = relpaths
  if key in _mined:
    return _mined[key]
  strs, ints = set(), set()
  for rp in relpaths:
    try:
      with open(os.path.join(REPO, rp)) as f:
        tree = ast.parse(f.read())
    except (OSError, SyntaxError):
      continue
    docs = set()
    for n in ast.walk(tree):
      if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)):
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
            n.body[0].value, ast.Constant):
          docs.add(id(n.body[0].value))
    for n in ast.walk(tree):
      if isinstance(n, ast.Constant) and id(n) not in docs:
        if isinstance(n.value, bool):
          continue
        if isinstance(n.value, str) and 0 < len(n.value) <= 40:
          strs.add(n.value)
        elif isinstance(n.value, int) and abs(n.value) < 10**6:
          ints.add(n.value)
  _mined[key] = (sorted(strs), sorted(ints))
  return _mined[key]


class Timeout(Exception):
  pass


def _alarm(*_):
  raise Timeout('no result within the per-case time limit')


def run_case(rc, case, limit=60):
  """None if the contract holds (or is not applicable), else a message."""
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(limit)
  rc.skipped = False
  try:
    rc.check(case)
    return None
  except (Skip, Absent):
    rc.skipped = True
    return None
  except Fail as e:
    return str(e)
  except Timeout as e:
    return f'Timeout: {e}'
  except MemoryError:
    raise
  except Exception as e:   # pylint: disable=broad-except
    tb = traceback.extract_tb(e.__traceback__)
    inrepo = [f for f in tb if f.filename.startswith(REPO + '/')]
    if inrepo:
      f = inrepo[-1]
      where = f'{os.path.relpath(f.filename, REPO)}:{f.lineno} in {f.name}'
    else:
      where = f'{tb[-1].filename}:{tb[-1].lineno}'
    if not inrepo and (
        isinstance(e, ImportError) or
        isinstance(e, AttributeError) and str(e).startswith('module ') or
        isinstance(e, TypeError) and ('argument' in str(e) and
                                      '()' in str(e))):
      # the harness itself does not fit the (refactored) interface
      raise Absent(f'{type(e).__name__}: {e} at {where}')
    return f'unexpected {type(e).__name__}: {e} at {where}'
  finally:
    signal.alarm(0)


def shrinks(x):
  if isinstance(x, str):
    n = len(x)
    for w in (n // 2, n // 4, 4, 2, 1):
      if 0 < w <= n:
        for i in range(0, n - w + 1, max(1, w // 2)):
          yield x[:i] + x[i + w:]
  elif isinstance(x, bool) or x is None:
    return
  elif isinstance(x, int):
    if x:
      yield 0
      yield x // 2
      if x > 0:
        yield x - 1
  elif isinstance(x, list):
    n = len(x)
    for w in (n // 2, n // 4, 2, 1):
      if 0 < w <= n:
        for i in range(0, n - w + 1, max(1, w)):
          yield x[:i] + x[i + w:]
    for i, y in enumerate(x):
      for z in shrinks(y):
        yield x[:i] + [z] + x[i + 1:]
  elif isinstance(x, dict):
    for k in x:
      for z in shrinks(x[k]):
        yield {**x, k: z}


def shrink(rc, case, msg, budget=12.0):
  t0 = time.time()
  kind = msg.split('\n')[0][:40]
  progress = True
  while progress and time.time() - t0 < budget:
    progress = False
    for c in shrinks(case):
      if time.time() - t0 > budget:
        break
      try:
        m = run_case(rc, c, 10)
      except Exception:   # pylint: disable=broad-except
        continue
      if m is not None and m.split('\n')[0][:40] == kind:
        case, msg, progress = c, m, True
        break
  return case, msg


def search(rcs, seed, budget, known=lambda rc, case, msg: False, part=0,
           parts=1, exhaustive=True):
  """Runs every runtime contract; returns (stats, failure or None)."""
  stats = {}
  t0 = time.time()
  total_w = sum(r.weight for r in rcs) or 1.0
  for ri, rc in enumerate(rcs):
    st = stats.setdefault(rc.name, dict(
        exhaustive=0, random=0, distinct=0, samples=[], absent=None, targets=list(
            rc.targets), complete=True))
    seen = set()
    share = budget * rc.weight / total_w
    t1 = time.time()

    def one(case):
      k = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                          digest_size=8).digest()
      if k in seen:
        return None
      seen.add(k)
      m = run_case(rc, case)
      if not rc.skipped:
        st['distinct'] += 1
        if st['distinct'] in (1, 100, 3000):
          st['samples'].append(json.dumps(case)[:400])
      if m is None or known(rc, case, m):
        return None
      c2, m2 = shrink(rc, case, m)
      if known(rc, c2, m2):
        c2, m2 = case, m
      return dict(contract=rc.name, case=c2, message=m2,
                  original=case if c2 != case else None)
    try:
      if exhaustive:
        for i, case in enumerate(rc.exhaustive()):
          if i % parts != part:
            continue
          if time.time() - t1 > share * 3 + 20:
            st['complete'] = False
            break
          f = one(case)
          st['exhaustive'] += 1
          if f:
            return stats, f
      rng = random.Random(f'{seed}/{rc.name}/{part}')
      n = 0
      while time.time() - t1 < share:
        case = rc.gen(rng, n)
        if case is None:
          break
        n += 1
        f = one(case)
        st['random'] += 1
        if f:
          return stats, f
    except Absent as e:
      st['absent'] = str(e)
  return stats, None
