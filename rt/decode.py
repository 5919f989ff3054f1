"""Meaning of a decision DAG: least cost per set of decisions."""
import math
from rt.trees import *   # pylint: disable=wildcard-import
from r_u_sure.decision_diagrams import gated_state_dag as gd
from r_u_sure.tree_structure import packed_sequence_nodes as ps
from r_u_sure.edit_distance_utility import region_decisions as rd

DC, DV = rd.DecisionCategory, rd.DecisionValue
S, E, IN, X = (DC.REGION_SHOULD_START, DC.REGION_SHOULD_END,
               DC.NODE_IN_REGION, DC.SHOULD_EARLY_EXIT)
T, F, NA = DV.TRUE, DV.FALSE, DV.NOT_APPLICABLE
LIMIT = 6000


def number(d, start=0):
  """Structure with preorder numbers: [(index, node, numbered children)]."""
  out = []
  for n in d:
    i = start
    start += 1
    kids = None
    if n[0] == 'G':
      kids, start = number(n[1], start)
    out.append((i, n, kids))
  return out, start


def put(res, key, cost):
  if cost < res.get(key, math.inf):
    res[key] = cost
    if len(res) > LIMIT:
      raise Skip


def then(a, f):
  """Sequential composition of {(mode, decisions): cost}."""
  out = {}
  for (m, asg), c in a.items():
    if m == 'exit':
      put(out, (m, asg), c)
    else:
      for (m2, asg2), c2 in f(m).items():
        put(out, (m2, asg + asg2), c + c2)
  return out


def dag_meaning(dag):
  """{decisions on the path: least cost} of the paths of a DAG, by edge order.
  """
  best = {dag.initial_state: {(): 0.0}}
  fin = {}
  for e in dag.edges:
    src = best.get(e.source)
    if not src:
      continue
    d = fin if e.dest == dag.final_state else best.setdefault(e.dest, {})
    add = ()
    if e.required_assignment is not None:
      add = ((tuple(e.required_assignment.key), e.required_assignment.value),)
    for asg, c in src.items():
      put(d, asg + add, c + e.cost)
  return fin


def same_meaning(got, want, what):
  for k in want:
    expect(k in got, f'{what}: a legal set of decisions is missing', k)
  for k in got:
    expect(k in want, f'{what}: an illegal set of decisions is possible', k)
    expect(abs(got[k] - want[k]) < 1e-9, f'{what}: least cost for decisions',
           k, got[k], want[k])


def topological(dag):
  seen = set()
  for e in dag.edges:
    expect(e.dest not in seen, 'edges are in topological order', e)
    seen.add(e.source)


def pruned_topological(dag):
  return gd.prune_to_reachable(dag)
