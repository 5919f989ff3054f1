"""Contracts for the call sequence task: what the context has shown."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract
from contracts import tree
from contracts.tree import DP, LIST, NODES, T_DEC, T_TOK, VISIT, WALK, tag, \
    text, wq
import z3
from r_u_sure.edit_distance_utility import part_selection_dags as psd
from r_u_sure.tree_structure import packed_sequence_nodes as ps
from r_u_sure.wrappers import call_sequence_wrapper as csw

WORDS = SET(STR)
Q = TUP(WORDS, INT)
mk = sort_of(Q).constructor(0)
words, pos = (sort_of(Q).accessor(0, i) for i in range(2))
node = sort_of(VISIT).accessor(0, 0)
LOC = z3.Int('PREDICTION_LOCATION')


def _step(v, q):
  x = node(v)
  return z3.If(pos(q) >= LOC, q, mk(
      z3.If(tag(x) == T_TOK, z3.Store(words(q), text(x), True), words(q)),
      pos(q) + z3.If(z3.Or(tag(x) == T_TOK, tag(x) == T_DEC),
                     z3.Length(text(x)), z3.IntVal(0))))


# tokens of the visited nodes that start before the location
SEEN = Trans('seen', VISIT, Q, _step)
L_STOP = Lemma('nothing is seen from the location on', VISIT,
               lambda L, q: z3.Implies(pos(q) >= LOC, L.q(SEEN, q) == q), qt=Q,
               later=SEEN)
Q0 = mk(z3.EmptySet(z3.StringSort()), z3.IntVal(0))


# what a part of a call is worth
WORTH = {'ARGS': 1, 'EMPTY_ARGS': 1, 'EXPECTED': 1, 'NOVEL': 10}


def _worth(c):
  mt = c.a('token').items[1].e
  util = z3.RealVal(0)
  for name, v in WORTH.items():
    util = z3.If(mt == z3.StringVal(name), z3.RealVal(v), util)
  p = c.outer['effective_precision'].e
  win, lose = (x.e for x in c.res.items)
  return [('a sure match is worth the part', win + lose == util),
          ('break even at the effective precision',
           p * win == (1 - p) * lose)]


def contracts():
  def walk(c):
    q0 = wq(DP.ctor(z3.Empty(z3.SeqSort(z3.IntSort()))), z3.IntVal(0),
            z3.BoolVal(False), z3.BoolVal(False))
    return Contents(VISIT, [Seg(c.o(WALK, c.a('context_and_prototype'), q0))])
  return [Contract(
      csw.extract_context_tokens,
      {'context_and_prototype': NODES, 'prediction_location': INT}, WORDS,
      lambda c: [('the tokens that start before the location', c.st.dicts[
          c.res.ref]['dom'] == words(SEEN.q(walk(c), Q0)))],
      requires=lambda c: [('location', c.a('prediction_location').e == LOC)],
      trans=lambda c: [(SEEN, Q0)], lemmas=[L_STOP]), Contract(
          csw.ApiCallSequenceWrapper.__init__,
          {'token': NT(ps.PackedTextTokenNode, STR, STR)},
          NT(psd.UtilitiesAndCostsForNode, REAL, REAL), _worth,
          nested='token_node_utility_fn',
          outer={'effective_precision': REAL})] + tree.contracts()
