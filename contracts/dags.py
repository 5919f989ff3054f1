"""Contracts for building and pruning decision DAGs."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract, INFINITY
import z3
from r_u_sure.decision_diagrams import gated_state_dag as gsd

NEED = ANY      # what an edge requires is opaque here
EDGE = NT(gsd.Edge, ANY, ANY, REAL, NEED, ANY)
EDGES = LIST(EDGE)
DAG = NT(gsd.CompleteStateDAG, ANY, EDGES, ANY)
PARTIAL = NT(gsd.PartialStateDAG, ANY, EDGES, DICT(ANY, ANY))
ME = M_SEQ(EDGE)
_acc = lambda i: sort_of(EDGE).accessor(0, i)
src, dst, cost = _acc(0), _acc(1), _acc(2)
finite = lambda e: cost(e) < INFINITY
STATES = SET(ANY)
has = lambda s, x: z3.Select(s, x)
plus = lambda s, x: z3.Store(s, x, True)
one = lambda x: plus(z3.EmptySet(sort_of(ANY)), x)
unit = lambda cond, e: z3.If(cond, z3.Unit(e), ME.unit)

FINITE = Hom('finite_edges', EDGE, ME, lambda e: unit(finite(e), e))
ALL_FINITE = Hom('all_finite', EDGE, M_AND, finite)
# states reached when the edges are taken in order, and in reverse
FWD = Trans('reached', EDGE, STATES, lambda e, s: z3.If(
    z3.And(finite(e), has(s, src(e))), plus(s, dst(e)), s))
BWD = Trans('leads_to', EDGE, STATES, lambda e, s: z3.If(
    z3.And(finite(e), has(s, dst(e))), plus(s, src(e)), s), right=True)
ONLY = 'edges that cost infinity do not count'
L_ONLY = [Lemma(
    f'{ONLY} ({T.name})', EDGE, lambda L, s, T=T: T.fq(
        L(FINITE), s) == L.q(T, s), qt=STATES,
    ih=lambda L, x, s, T=T: [s, T.step_q(x, s)],
    hints=lambda L, x, s, T=T: [trans_empty(T, ME.unit, s)] if x is None else [
        trans_snoc(T, z3.Concat(L(FINITE), z3.Unit(x)), L(FINITE), x, s)])
          for T in (FWD, BWD)]


# Edges in topological order: no edge enters a state that has been left.
ORD = Trans('order', EDGE, TUP(STATES, BOOL), lambda e, q: O(
    plus(left(q), src(e)), z3.And(ok(q), z3.Not(has(left(q), dst(e))))))
O = sort_of(ORD.qt).constructor(0)
left, ok = (sort_of(ORD.qt).accessor(0, i) for i in range(2))
T = z3.BoolVal(True)
O0 = O(z3.EmptySet(sort_of(ANY)), T)


def closure(name, a, b):
  """Is the set of states closed under (finite) edges from a to b?"""
  return Trans(name, EDGE, TUP(STATES, BOOL), lambda e, q: O(left(q), z3.And(
      ok(q), z3.Implies(z3.And(finite(e), has(left(q), a(e))),
                        has(left(q), b(e))))))


CLF, CLB = closure('closed', src, dst), closure('closed_back', dst, src)
closed = lambda L, s: ok(L.q(CLF, O(s, T)))
closed_back = lambda L, s: ok(L.q(CLB, O(s, T)))
SD = TUP(STATES, ANY)
mk_sd = sort_of(SD).constructor(0)
sd_s, sd_d = (sort_of(SD).accessor(0, i) for i in range(2))
L_SAME = [Lemma(f'{C.name}: the set stays', EDGE, lambda L, q, C=C: left(
    L.q(C, q)) == left(q), qt=C.qt) for C in (CLF, CLB)]
same = lambda i, L, s: L_SAME[i].at(L.c, O(s, T))
L_ADD = Lemma(
    'adding a state that is not left keeps a set closed', EDGE,
    lambda L, q: z3.Implies(z3.And(z3.Not(has(left(L.q(ORD, O0)), sd_d(
        q))), closed(L, sd_s(q))), closed(L, plus(sd_s(q), sd_d(q)))), qt=SD,
    hints=lambda L, x, q: [] if x is None else [
        same(0, L, sd_s(q)), same(0, L, plus(sd_s(q), sd_d(q)))])


def _fwd(L, s):
  return L.q(FWD, s)


L_CLOSED = Lemma(
    'what is reached is closed under edges', EDGE, lambda L, s: z3.Implies(
        ok(L.q(ORD, O0)), closed(L, L.q(FWD, s))), qt=STATES,
    hints=lambda L, x, s: [] if x is None else [
        L_ADD.at(L.c, mk_sd(L.q(FWD, s), dst(x))), same(0, L, L.q(FWD, s)),
        same(0, L, plus(L.q(FWD, s), dst(x)))])
L_FROM = Lemma(
    'nothing else leads to the end', EDGE, lambda L, q: z3.And(
        z3.Implies(has(L.q(BWD, sd_s(q)), sd_d(q)), z3.Or(
            has(sd_s(q), sd_d(q)), has(left(L.q(ORD, O0)), sd_d(q)))),
        z3.Implies(has(sd_s(q), sd_d(q)),
                   has(L.q(BWD, sd_s(q)), sd_d(q)))), qt=SD,
    ih=lambda L, x, q: [mk_sd(BWD.step_q(x, sd_s(q)), sd_d(q))])
L_CLOSED_BACK = Lemma(
    'what leads to the end is closed under edges', EDGE,
    lambda L, s: z3.Implies(ok(L.q(ORD, O0)), closed_back(
        L, L.q(BWD, s))), qt=STATES,
    ih=lambda L, x, s: [BWD.step_q(x, s)],
    hints=lambda L, x, s: [] if x is None else [
        L_FROM.at(L.c, mk_sd(BWD.step_q(x, s), d)) for d in (
            src(x), dst(x))] + [same(1, L, L.q(BWD, BWD.step_q(x, s)))])
# ... and the least such sets: inside every closed set that holds the start
ANYSET = z3.Const('SOME_CLOSED_SET', sort_of(STATES))
L_LEAST = [Lemma(
    f'{t.name}: nothing else', EDGE, lambda L, s, t=t, C=C: z3.Implies(
        z3.And(ok(L.q(C, O(ANYSET, T))), z3.IsSubset(s, ANYSET)),
        z3.IsSubset(L.q(t, s), ANYSET)), qt=STATES,
    ih=lambda L, x, s, t=t: [s, t.step_q(x, s)],
    hints=lambda L, x, s, i=i: [] if x is None else [same(i, L, ANYSET)])
           for i, (t, C) in enumerate(((FWD, CLF), (BWD, CLB)))]
# the edges on a path from the start to the end: reached from the start, of
# finite cost, leading to the end
RF, RB = (z3.Const(n, sort_of(STATES)) for n in ('REACHED', 'LEADING'))
RR = z3.SetIntersect(RF, RB)
KEEP = Hom('on_path', EDGE, ME, lambda e: unit(z3.And(
    finite(e), has(RF, src(e)), has(RB, dst(e))), e))
KEEPR = Hom('between_reachable', EDGE, ME, lambda e: unit(z3.And(
    finite(e), has(RR, src(e)), has(RR, dst(e))), e))
L_KEEP = Lemma(
    'edges between reachable states are on a path', EDGE,
    lambda L, q: z3.Implies(z3.And(closed(L, RF), closed_back(L, RB)),
                            L(KEEP) == L(KEEPR)),
    hints=lambda L, x, q: [] if x is None else [
        same(0, L, RF), same(1, L, RB)])
L_KEEPF = Lemma(
    'only finite edges are on a path', EDGE, lambda L, q: KEEP.seq(L(
        FINITE)) == L(KEEP),
    hints=lambda L, x, q: [hom_empty(KEEP, ME.unit)] if x is None else [
        hom_snoc(KEEP, z3.Concat(L(FINITE), z3.Unit(x)), L(FINITE), x)])
PATH_LEMMAS = L_SAME + [L_ADD, L_CLOSED, L_FROM, L_CLOSED_BACK] + L_LEAST + [
    L_KEEP]

for _l in L_ONLY + PATH_LEMMAS + [L_KEEPF]:
  _l.auto = False     # used where the contracts say so


def contracts():
  dag = lambda c: c.a('dag').items
  start = lambda c: one(c.term(dag(c)[0], ANY))
  end = lambda c: one(c.term(dag(c)[2], ANY))

  def reach(c):
    return z3.SetIntersect(c.q(FWD, dag(c)[1], start(c)),
                           c.q(BWD, dag(c)[1], end(c)))

  def use(c):
    c.use(L_ONLY[0], dag(c)[1], start(c))
    c.use(L_ONLY[1], dag(c)[1], end(c))
    return []
  cs = [Contract(
      gsd.compute_reachable_states, {'dag': DAG}, SET(ANY),
      lambda c: [('between start and end', c.st.dicts[c.res.ref][
          'dom'] == reach(c))], requires=use, homs=[FINITE, ALL_FINITE], lemmas=L_ONLY,
      trans=lambda c: [(FWD, start(c)), (BWD, end(c))])]
  def pre(c):
    es = dag(c)[1]
    c.use(L_CLOSED, es, start(c))
    c.use(L_CLOSED_BACK, es, end(c))
    c.use(L_KEEP, es)
    c.use(L_KEEPF, es)
    return use(c) + [
        ('topological order', ok(c.q(ORD, es, O0))),
        ('reached from the start', RF == c.q(FWD, es, start(c))),
        ('leading to the end', RB == c.q(BWD, es, end(c)))]

  def pruned(c):
    r = c.res.items
    return [('ends', z3.And(*[c.term(r[i], ANY) == c.term(dag(c)[i], ANY)
                              for i in (0, 2)])),
            ('edges', c.term(r[1], EDGES) == c.h(KEEP, dag(c)[1]))]
  cs.append(Contract(
      gsd.prune_to_reachable, {'dag': DAG}, DAG, pruned, requires=pre,
      homs=[KEEP, KEEPR],
      lemmas=L_ONLY + PATH_LEMMAS + [L_KEEPF]))
  cs.append(Contract(
      gsd._prune_to_reachable_overload, {'dag': DAG}, DAG, pruned,
      nested='impl', requires=pre, homs=[FINITE, ALL_FINITE, KEEP],
      lemmas=L_ONLY + PATH_LEMMAS + [L_KEEPF],
      trans=lambda c: [(FWD, start(c)), (BWD, end(c))]))

  # building: the states left so far and the order are kept track of
  def state(c, old=False):
    st = c.old if old else c.st
    return st, c.a('dag').items

  def tracked(c, items, st=None):
    st = st or c.st
    d = st.dicts[items[2].ref]
    q = ORD.q(c.eng.contents(st, items[1]), O0)
    return [('left', left(q) == (
        z3.EmptySet(sort_of(ANY)) if d['dom'] is None else d['dom'])),
            ('topological order', ok(q))]
  edges = lambda c, st: c.eng.contents(st, dag(c)[1]).term()
  edge = lambda c: c.term(c.a('edge'), EDGE)
  cs.append(Contract(
      gsd.partial_state_dag_starting_from, {'initial_state': ANY}, PARTIAL,
      lambda c: tracked(c, c.res.items) + [
          ('no edges', c.len(c.res.items[1]) == 0),
          ('start', c.term(c.res.items[0], ANY) == c.a('initial_state').e)],
      trans=lambda c: [(ORD, O0)]))
  cs.append(Contract(
      gsd.partial_state_dag_add_edge, {'dag': PARTIAL, 'edge': EDGE}, NONE,
      lambda c: tracked(c, dag(c)) + [
          ('edge at the end', edges(c, c.st) == z3.Concat(
              edges(c, c.old), z3.Unit(edge(c))))],
      requires=lambda c: tracked(c, dag(c)), mutates=('dag',),
      raises=lambda c: {'ValueError': has(
          c.old.dicts[dag(c)[2].ref]['dom'], dst(edge(c)))},
      trans=lambda c: [(ORD, O0)]))
  cs.append(Contract(
      gsd.partial_state_dag_finish,
      {'dag': PARTIAL, 'final_state': ANY}, DAG,
      lambda c: [('edges', c.term(c.res.items[1], EDGES) == edges(c, c.st)),
                 ('start', c.term(c.res.items[0], ANY) == c.term(
                     dag(c)[0], ANY)),
                 ('end', c.term(c.res.items[2], ANY) == c.a(
                     'final_state').e),
                 ('topological order', ok(c.q(ORD, c.res.items[1], O0)))],
      requires=lambda c: tracked(c, dag(c)), trans=lambda c: [(ORD, O0)]))
  for c in cs:
    c.infinite = True
  return cs


def handlers():
  from pyvc.engine import b_list, b_dict
  return {gsd.numba.typed.List: b_list, gsd.numba.typed.Dict: b_dict}
