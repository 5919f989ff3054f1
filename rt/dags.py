"""Random decision DAGs, brute force path semantics."""
import itertools
import math
from rt.core import *   # pylint: disable=wildcard-import
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as gd
from r_u_sure.decision_diagrams import packed_dags as pk

INF = math.inf


def gen_dag(rng, nkeys=3, nvals=3, n=None, dead=.1, inf=.08, keys=None):
  """JSON DAG: dict(n=states, e=[[src, dst, cost4 | None, key | -1, val]])."""
  n = n or rng.choice([2, 3, 4, 5, 6, 7])
  lev = sorted(rng.randint(0, nkeys) for _ in range(n))
  edges = []
  for i in range(n - 1):
    for j in range(i + 1, n):
      for _ in range(rng.choice([0, 1, 1, 2]) if j - i < 3 else
                     rng.choice([0, 0, 1])):
        k = -1
        if lev[j] > lev[i] and rng.random() < .75:
          k = rng.randint(lev[i], lev[j] - 1)
        c = rng.choice([0, 1, 2, 3, 4, 7, -1, 12, 5])
        edges.append([i, j, None if rng.random() < inf else c, k,
                      rng.randint(0, nvals - 1)])
  return dict(n=n, e=order(rng, edges))


def order(rng, edges):
  """A random order in which no edge enters a state that already has out-edges."""
  left = list(edges)
  out = []
  while left:
    ok = [e for e in left if not any(f[1] == e[0] for f in left)]
    e = rng.choice(ok)
    left.remove(e)
    out.append(e)
  return out


def check_dag(c, nkeys, nvals):
  if not isinstance(c, dict) or not isinstance(c.get('n'), int) or c['n'] < 1:
    raise Skip
  seen = set()
  for e in c['e']:
    if len(e) != 5 or not all(isinstance(x, int) for x in
                              (e[0], e[1], e[3], e[4])):
      raise Skip
    if not 0 <= e[0] < e[1] < c['n'] or not -1 <= e[3] < nkeys or \
        not 0 <= e[4] < nvals or e[1] in seen:
      raise Skip
    seen.add(e[0])


def cost(e):
  return INF if e[2] is None else e[2] / 4


def paths(c, init=0, final=None, limit=4000):
  """All finite paths as lists of edge positions."""
  final = c['n'] - 1 if final is None else final
  by = {}
  for i, e in enumerate(c['e']):
    if cost(e) < INF:
      by.setdefault(e[0], []).append(i)
  out = []

  def go(s, acc):
    if len(out) > limit:
      raise Skip
    if s == final:
      out.append(list(acc))
      return
    for i in by.get(s, ()):
      acc.append(i)
      go(c['e'][i][1], acc)
      acc.pop()
  go(init, [])
  return out


STATES = [lambda i: i, lambda i: f's{i}', lambda i: ('st', i),
          lambda i: ('st', (i * 7) % 5, i), lambda i: -i - 1]


def real(c, kind=0, key=lambda k: k, val=lambda v: v):
  f = STATES[kind % len(STATES)]
  edges = []
  for i, e in enumerate(c['e']):
    edges.append(gd.Edge(
        source=f(e[0]), dest=f(e[1]), cost=cost(e),
        required_assignment=None if e[3] == -1 else
        gd.SharedVariableAssignment(key=key(e[3]), value=val(e[4])),
        info=('info', i)))
  return gd.CompleteStateDAG(initial_state=f(0), edges=edges,
                             final_state=f(c['n'] - 1)), f


def norm(edges):
  return [(e.source, e.dest, e.cost, None if e.required_assignment is None
           else (e.required_assignment.key, e.required_assignment.value),
           e.info) for e in edges]
