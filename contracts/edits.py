"""Contracts for the edit DAG: the edges that insert, delete or skip a node."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import MAY, Contract
from contracts import numeric, packed
from contracts.packed import (
    ID, POS, SIZE, STORAGE, TOKN, acc, code, is_, kids, pre_i, tok_text, within)
import z3
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.edit_distance_utility import region_decisions as rdec

I = z3.IntVal
AL, CF, AC = ed.EditDagStateAlignment, ed.EditDagStateConfidence, ed.EditAction
DC, DV = rdec.DecisionCategory, rdec.DecisionValue
STATE = NT(ed.EditDagState, ENUM(AL), ENUM(CF), INT, INT, INT, INT)
KEY = NT(rdec.DecisionKey, INT, ENUM(DC))
NEED = NT(gsd.SharedVariableAssignment, KEY, ENUM(DV))
INFO = NT(ed.EditDagEdgeInfo, INT, INT, ENUM(AC), ENUM(CF))
EDGE = NT(gsd.Edge, STATE, STATE, REAL, OPT(NEED), OPT(INFO))
EDGES = LIST(EDGE)
GRAPH = NT(gsd.PartialStateDAG, STATE, EDGES, DICT(STATE, STATE))
PARAMS = NT(ed.TrustRegionUtilityParameters, *[REAL] * 8)
ME = M_SEQ(EDGE)
ZERO, NOWHERE = I(0), I(packed.ps.NO_PREORDER_INDEX)
HIGH, LOW = 'HIGH_CONFIDENCE', 'LOW_CONFIDENCE'
NOBODY = 'NOT_APPLICABLE'
FINAL = sort_of(STATE).mk(*[
    I(code(x)) if isinstance(x, (AL, CF)) else I(x) for x in ed.FINAL_STATE])

# where each node is: the (arbitrary) table in the storage
PLACES = z3.Const('PLACES', sort_of(LIST(POS)))
parent = lambda x: acc(POS, POS_FIELDS.index('parent_preorder_index'))(
    PLACES[pre_i(x)])
offset = lambda x: acc(POS, POS_FIELDS.index('index_of_child_in_parent'))(
    PLACES[pre_i(x)])
POS_FIELDS = list(packed.ps.PositionInParent._fields)
WF = Hom('idplaced', ID, M_AND, lambda x: z3.And(
    0 <= pre_i(x), pre_i(x) < z3.Length(PLACES),
    z3.Implies(is_(x, 'TEXT_DECORATION_NODE'), within(x, packed.DECS)),
    z3.Implies(is_(x, 'TEXT_TOKEN_NODE'), within(x, packed.TOKS)),
    z3.Implies(is_(x, 'GROUP_NODE'), z3.And(
        within(x, packed.GRPS), WF.seq(kids(x)))),
    z3.Not(is_(x, 'INVALID'))))

# the side that stands still: alignment, group and position there; parameters
Q = TUP(INT, INT, INT, PARAMS)
mk = sort_of(Q).constructor(0)
align, seq, at, par = (sort_of(Q).accessor(0, i) for i in range(4))


def price(q, name):
  return acc(PARAMS, list(ed.TrustRegionUtilityParameters._fields).index(name))(
      par(q))


def chars(x):
  return z3.ToReal(z3.Length(tok_text(x)))


def edge(a, b, cost=None, need=None, info=None):
  no, ni = sort_of(OPT(NEED)), sort_of(OPT(INFO))
  n, i = no.none, ni.none
  if need is not None:
    x, k, v = need
    n = no.some(sort_of(NEED).mk(sort_of(KEY).mk(
        pre_i(x), I(code(DC[k]))), I(code(DV[v]))))
  if info is not None:
    p, t, action, conf = info
    i = ni.some(sort_of(INFO).mk(p, t, I(code(AC[action])), I(code(CF[conf]))))
  return z3.Unit(sort_of(EDGE).mk(
      a, b, z3.RealVal(0) if cost is None else cost, n, i))


def state(alignment, conf, pseq, pat, tseq, tat):
  return sort_of(STATE).mk(alignment, I(code(CF[conf])), pseq, pat, tseq, tat)


def both(f):
  return z3.Concat(f(HIGH), f(LOW))


def _inserting(x, q):
  """Edges for a node of the target; the prototype stands still."""
  s = lambda c, d: state(align(q), c, seq(q), at(q), parent(x), offset(x) + d)
  r = I(code(AL.RECURSIVELY_INSERTING))
  sub = lambda c, n: state(r, c, seq(q), at(q), pre_i(x), n)
  dec = both(lambda c: edge(s(c, 0), s(c, 1), None, None, (
      NOWHERE, pre_i(x), 'TARGET_DECORATION', c)))
  tok = both(lambda c: edge(
      s(c, 0), s(c, 1), price(q, 'insert_cost_per_char') * chars(x), None,
      (NOWHERE, pre_i(x), 'INSERT', NOBODY)))
  grp = z3.Concat(
      both(lambda c: edge(s(c, 0), sub(c, ZERO))),
      INSERT.fo(kids(x), mk(r, seq(q), at(q), par(q))),
      both(lambda c: edge(sub(c, z3.Length(kids(x))), s(c, 1))))
  return dec, tok, grp


def inserting(x, q, allowed):
  dec, tok, grp = _inserting(x, q)
  return z3.If(is_(x, 'TEXT_DECORATION_NODE'), dec, z3.If(
      z3.And(allowed, is_(x, 'TEXT_TOKEN_NODE')), tok, z3.If(
          z3.And(allowed, is_(x, 'GROUP_NODE')), grp, ME.unit)))


def deleting(x, q, allowed):
  """Edges for a node of the prototype; the target stands still."""
  s = lambda c, d: state(align(q), c, parent(x), offset(x) + d, seq(q), at(q))
  r = I(code(AL.RECURSIVELY_DELETING))
  sub = lambda c, n: state(r, c, pre_i(x), n, seq(q), at(q))
  info = lambda a, c: (pre_i(x), NOWHERE, a, c)
  inside = lambda c: (x, 'NODE_IN_REGION', 'TRUE' if c == LOW else 'FALSE')
  step = lambda k: lambda a, b, v, cost=None, i=None: edge(
      s(a, 0), s(b, 1), cost, (x, k, v), i)
  start, end = step('REGION_SHOULD_START'), step('REGION_SHOULD_END')
  price_of = {HIGH: 'high_confidence_delete_cost_per_char',
              LOW: 'low_confidence_delete_cost_per_char'}
  tok = both(lambda c: edge(
      s(c, 0), s(c, 1), price(q, price_of[c]) * chars(x), inside(c),
      info('DELETE', c)))
  grp = z3.Concat(
      both(lambda c: edge(s(c, 0), sub(c, ZERO), None, inside(c))),
      DELETE.fo(kids(x), mk(r, seq(q), at(q), par(q))),
      both(lambda c: edge(sub(c, z3.Length(kids(x))), s(c, 1))))
  no = ME.unit
  out = no
  for n, v in (
      ('TEXT_DECORATION_NODE', both(lambda c: edge(
          s(c, 0), s(c, 1), None, None, info('PROTOTYPE_DECORATION', c)))),
      ('TEXT_TOKEN_NODE', z3.If(allowed, tok, no)),
      ('GROUP_NODE', z3.If(allowed, grp, no)),
      ('REGION_START_NODE', z3.Concat(
          start(HIGH, HIGH, 'FALSE'),
          start(HIGH, LOW, 'TRUE', price(q, 'low_confidence_region_cost'),
                info('START_LOW_CONFIDENCE', NOBODY)),
          start(LOW, LOW, 'NOT_APPLICABLE'))),
      ('REGION_END_NODE', z3.Concat(
          end(LOW, LOW, 'FALSE'), end(LOW, HIGH, 'TRUE'),
          end(HIGH, HIGH, 'NOT_APPLICABLE'))),
      ('EARLY_EXIT_NODE', both(lambda c: z3.Concat(
          edge(s(c, 0), FINAL, None, (x, 'SHOULD_EARLY_EXIT', 'TRUE'),
               info('EARLY_EXIT', c)),
          step('SHOULD_EARLY_EXIT')(c, c, 'FALSE'))))):
    out = z3.If(is_(x, n), v, out)
  return out


YES = z3.BoolVal(True)
INSERT = Trans('insert_edges', ID, Q, lambda x, q: q, ME,
               lambda x, q: inserting(x, q, YES))
DELETE = Trans('delete_edges', ID, Q, lambda x, q: q, ME,
               lambda x, q: deleting(x, q, YES))
L_STILL = {T: Lemma(f'{T.name}: still', ID, lambda L, q, T=T: L.q(T, q) == q,
                    qt=Q) for T in (INSERT, DELETE)}


def storage_is(c, name):
  return packed.storage_is(c, name) + [
      ('places', c.term(c.a(name).items[5], LIST(POS)) == PLACES)]


# an edge out of order is refused (when exactly: P17; never here: run time)
ORDER = lambda c: {'ValueError': MAY}


def contracts():
  edges = lambda c, st, n='incomplete_graph': c.eng.contents(
      st, c.a(n).items[1]).term()
  cs = [x for x in numeric.contracts()
        if x.fn is ed.token_node_utility_from_parameters]
  for c in cs:
    c.stronger = True      # decided by P21
  cs.append(Contract(
      gsd.partial_state_dag_add_edge, {'dag': GRAPH, 'edge': EDGE}, NONE,
      lambda c: [('edge at the end', edges(c, c.st, 'dag') == z3.Concat(
          edges(c, c.old, 'dag'), z3.Unit(c.term(c.a('edge'), EDGE))))],
      mutates=('dag',), stronger=True, raises=ORDER))
  for T, node, what, mine, still, fn1, fn2, allow in (
      (INSERT, inserting, 'INSERTING', 'target', 'prototype',
       'maybe_insert_node_or_skip_decoration_in_target',
       'build_recursive_insert_subsequence', 'allow_insert'),
      (DELETE, deleting, 'DELETING', 'prototype', 'target',
       'maybe_delete_node_or_advance_in_prototype',
       'build_recursive_delete_subsequence', 'allow_delete')):
    x = lambda c, mine=mine: c.term(c.a(mine + '_node_id'), ID)
    ids = lambda c, mine=mine: c.a(mine + '_node_ids')
    pars = lambda c: c.term(c.a('parameters'), PARAMS)
    q1 = lambda c, still=still: mk(
        c.term(c.a('alignment_type'), ENUM(AL)),
        c.a(still + '_sequence_preorder_index').e,
        c.a(f'before_{still}_node').e, pars(c))
    q2 = lambda c, still=still, what=what: mk(
        I(code(AL['RECURSIVELY_' + what])),
        c.a(f'fixed_{still}_sequence_preorder_index').e,
        c.a(f'fixed_before_{still}_node').e, pars(c))
    cs.append(Contract(
        ed.make_edit_dag_builder,
        {'alignment_type': ENUM(AL), mine + '_node_id': ID,
         mine + '_storage': STORAGE, f'before_{still}_node': INT,
         still + '_sequence_preorder_index': INT, 'incomplete_graph': GRAPH,
         allow: BOOL, 'parameters': PARAMS}, NONE,
        lambda c, node=node, x=x, q1=q1, allow=allow: [
            ('edges', edges(c, c.st) == z3.Concat(edges(c, c.old), z3.If(
                is_(x(c), 'INVALID'), ME.unit,
                node(x(c), q1(c), c.a(allow).e))))],
        nested=fn1, mutates=('incomplete_graph',), stronger=True, raises=ORDER,
        requires=lambda c, mine=mine, x=x: storage_is(
            c, mine + '_storage') + [('known id', z3.Or(
                is_(x(c), 'INVALID'), WF.node(x(c))))],
        decreases=lambda c, x=x: 2 * SIZE.node(x(c)), homs=[WF, SIZE],
        group=what, trans=lambda c, T=T, q1=q1: [(T, q1(c))],
        lemmas=[L_STILL[T]]))
    cs.append(Contract(
        ed.make_edit_dag_builder,
        {mine + '_storage': STORAGE, mine + '_node_ids': LIST(ID),
         f'fixed_before_{still}_node': INT,
         f'fixed_{still}_sequence_preorder_index': INT,
         'incomplete_graph': GRAPH, 'parameters': PARAMS}, NONE,
        lambda c, T=T, ids=ids, q2=q2: [
            ('edges', edges(c, c.st) == z3.Concat(
                edges(c, c.old), c.o(T, ids(c), q2(c))))],
        nested=fn2, mutates=('incomplete_graph',), stronger=True, raises=ORDER,
        requires=lambda c, mine=mine, ids=ids: storage_is(
            c, mine + '_storage') + [('known ids', c.h(WF, ids(c)))],
        decreases=lambda c, ids=ids: 2 * c.h(SIZE, ids(c)) + 1,
        homs=[WF, SIZE], group=what, trans=lambda c, T=T, q2=q2: [(T, q2(c))],
        lemmas=[L_STILL[T]]))
  return cs
