"""Contracts for the constraint DAG: the edges built for a prototype."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import MAY, Contract
from contracts import packed
from contracts.packed import ID, SIZE, STORAGE, WF, code, is_, kids, pre_i
import z3
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.edit_distance_utility import constraint_dags as cd
from r_u_sure.edit_distance_utility import region_decisions as rdec

I = z3.IntVal
SC, DC, DV = (cd.ConstraintDagStateCategory, rdec.DecisionCategory,
              rdec.DecisionValue)
STATE = NT(cd.ConstraintDagState, ENUM(SC), INT, INT, INT)
KEY = NT(rdec.DecisionKey, INT, ENUM(DC))
NEED = NT(gsd.SharedVariableAssignment, KEY, ENUM(DV))
INFO = NT(cd.ConstraintDagEdgeInfo, BOOL)
EDGE = NT(gsd.Edge, STATE, STATE, REAL, OPT(NEED), OPT(INFO))
EDGES = LIST(EDGE)
GRAPH = NT(gsd.PartialStateDAG, STATE, EDGES, DICT(STATE, STATE))
DAG = NT(gsd.CompleteStateDAG, STATE, EDGES, STATE)
ROOT = I(packed.ps.ROOT_SEQUENCE_PREORDER_INDEX)
ME = M_SEQ(EDGE)
ZERO = I(0)


def state(category, seq, at, level):
  return sort_of(STATE).mk(I(code(SC[category])), seq, at, level)


FINAL = state('SPECIAL_FINAL_STATE', I(cd.FINAL_STATE[1]), I(-1), I(-1))


def edge(a, b, need=None, exits=False):
  no, ni = sort_of(OPT(NEED)), sort_of(OPT(INFO))
  if need is None:
    n = no.none
  else:
    x, k, v = need
    n = no.some(sort_of(NEED).mk(sort_of(KEY).mk(
        pre_i(x), I(code(DC[k]))), I(code(DV[v]))))
  i = ni.some(sort_of(INFO).mk(z3.BoolVal(True))) if exits else ni.none
  return z3.Unit(sort_of(EDGE).mk(a, b, z3.RealVal(0), n, i))


# where we are: (the group, position in it, groups around it outside regions)
Q = TUP(INT, INT, INT)
mk = sort_of(Q).constructor(0)
seq, at, level = (sort_of(Q).accessor(0, i) for i in range(3))
IN, TEMP, OUT = ('IN_REGION_FORCED', 'IN_REGION_TEMPORARY',
                 'OUTSIDE_ANNOTATED_REGION')


def _bycat(x, dec, tok, grp, start, end, exit_):
  r = ME.unit
  for n, v in (('TEXT_DECORATION_NODE', dec), ('TEXT_TOKEN_NODE', tok),
               ('GROUP_NODE', grp), ('REGION_START_NODE', start),
               ('REGION_END_NODE', end), ('EARLY_EXIT_NODE', exit_)):
    r = z3.If(is_(x, n), v, r)
  return r


def _here(q, c, d=0):
  return state(c, seq(q), at(q) + d, level(q))


def _inside(x, q):
  a, b = _here(q, IN), _here(q, IN, 1)
  e = lambda k, v: edge(a, b, (x, k, v))
  p = pre_i(x)
  return _bycat(
      x, edge(a, b), e('NODE_IN_REGION', 'TRUE'), z3.Concat(
          edge(a, state(IN, p, ZERO, level(q)), (x, 'NODE_IN_REGION', 'TRUE')),
          INSIDE.fo(kids(x), mk(p, ZERO, level(q))),
          edge(state(IN, p, z3.Length(kids(x)), level(q)), b)),
      e('REGION_SHOULD_START', 'NOT_APPLICABLE'),
      e('REGION_SHOULD_END', 'FALSE'), z3.Concat(
          edge(a, FINAL, (x, 'SHOULD_EARLY_EXIT', 'TRUE'), True),
          e('SHOULD_EARLY_EXIT', 'FALSE')))


def _outside(x, q):
  h = lambda c, d=0: _here(q, c, d)
  both = lambda f: z3.Concat(f(OUT), f(TEMP))
  k = lambda key: lambda a, b, v: edge(h(a), h(b, 1), (x, key, v))
  s, t = k('REGION_SHOULD_START'), k('REGION_SHOULD_END')
  p, up = pre_i(x), level(q) + 1
  n = z3.Length(kids(x))
  return _bycat(
      x, both(lambda c: edge(h(c), h(c, 1))),
      z3.Concat(k('NODE_IN_REGION')(OUT, OUT, 'FALSE'),
                k('NODE_IN_REGION')(TEMP, TEMP, 'TRUE')),
      z3.Concat(
          edge(h(OUT), state(OUT, p, ZERO, up), (x, 'NODE_IN_REGION', 'FALSE')),
          OUTSIDE.fo(kids(x), mk(p, ZERO, up)),
          edge(state(OUT, p, n, up), h(OUT, 1)),
          edge(h(TEMP), state(IN, p, ZERO, level(q)),
               (x, 'NODE_IN_REGION', 'TRUE')),
          INSIDE.fo(kids(x), mk(p, ZERO, level(q))),
          edge(state(IN, p, n, level(q)), h(TEMP, 1))),
      z3.Concat(s(OUT, OUT, 'FALSE'), s(OUT, TEMP, 'TRUE'),
                s(TEMP, TEMP, 'NOT_APPLICABLE')),
      z3.Concat(t(TEMP, TEMP, 'FALSE'), t(TEMP, OUT, 'TRUE'),
                t(OUT, OUT, 'NOT_APPLICABLE')),
      both(lambda c: z3.Concat(
          edge(h(c), FINAL, (x, 'SHOULD_EARLY_EXIT', 'TRUE'), True),
          k('SHOULD_EARLY_EXIT')(c, c, 'FALSE'))))


def _next(x, q):
  return mk(seq(q), at(q) + 1, level(q))


INSIDE = Trans('inside_edges', ID, Q, _next, ME, _inside)
OUTSIDE = Trans('outside_edges', ID, Q, _next, ME, _outside)
L_POS = [Lemma(f'{T.name}: position', ID, lambda L, q, T=T: L.q(T, q) == mk(
    seq(q), at(q) + L.n, level(q)), qt=Q) for T in (INSIDE, OUTSIDE)]


# an edge out of order is refused (when exactly: P17; never here: run time)
ORDER = lambda c: {'ValueError': MAY}


def contracts():
  ids = lambda c: c.a('prototype_node_ids')
  q0 = lambda c: mk(c.a('prototype_sequence_preorder_index').e, ZERO,
                    c.a('outside_region_nesting_level').e)
  edges = lambda c, st, n='incomplete_graph': c.eng.contents(
      st, c.a(n).items[1]).term()
  cs = [Contract(
      gsd.partial_state_dag_add_edge, {'dag': GRAPH, 'edge': EDGE}, NONE,
      lambda c: [('edge at the end', edges(c, c.st, 'dag') == z3.Concat(
          edges(c, c.old, 'dag'), z3.Unit(c.term(c.a('edge'), EDGE))))],
      mutates=('dag',), stronger=True, raises=ORDER)]
  for name, T in (('inside', INSIDE), ('from_outside', OUTSIDE)):
    w = '_region'
    cs.append(Contract(
        cd.make_constraint_dag_builder,
        {'prototype_storage': STORAGE, 'prototype_node_ids': LIST(ID),
         'prototype_sequence_preorder_index': INT,
         'outside_region_nesting_level': INT, 'incomplete_graph': GRAPH}, NONE,
        lambda c, T=T: [('edges', edges(c, c.st) == z3.Concat(
            edges(c, c.old), c.o(T, ids(c), q0(c))))],
        nested='build_prototype_subgraph_' + name + w,
        mutates=('incomplete_graph',),
        requires=lambda c: packed.storage_is(c, 'prototype_storage') + [
            ('known ids', c.h(WF, ids(c)))],
        decreases=lambda c: c.h(SIZE, ids(c)), homs=[WF, SIZE],
        stronger=True, raises=ORDER, trans=lambda c, T=T: [(T, q0(c))],
        lemmas=[L_POS[T is OUTSIDE]]))
  root = lambda c: c.a('prototype').items[0]
  ends = lambda c: [state(OUT, ROOT, x, ZERO) for x in (
      ZERO, c.len(root(c)))]
  top = mk(ROOT, ZERO, ZERO)
  cs.append(Contract(
      cd.make_constraint_dag_builder, {'prototype': STORAGE}, DAG,
      lambda c: [
          ('start', c.term(c.res.items[0], STATE) == ends(c)[0]),
          ('edges', c.term(c.res.items[1], EDGES) == z3.Concat(
              c.o(OUTSIDE, root(c), top), edge(ends(c)[1], FINAL))),
          ('end', c.term(c.res.items[2], STATE) == FINAL)],
      nested='construct_constraint_dag', outer={'with_numba': ('py', False)},
      requires=lambda c: packed.storage_is(c, 'prototype') + [
          ('known ids', c.h(WF, root(c)))],
      homs=[WF, SIZE], stronger=True, raises=ORDER,
      trans=lambda c: [(OUTSIDE, top)],
      lemmas=[L_POS[1]]))
  return cs
