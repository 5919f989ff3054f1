"""Contracts for the validity check on token ranges of parse trees."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract
import z3
from r_u_sure.parsing.pseudo_parser import stack_parser as sp

PNODE = OBJ('RNode')
POS = OPT(INT)
D = declare_class(ClassDecl('RNode', 'union', {sp.Node: {
    'lo': POS, 'hi': POS, 'parent': OPT(PNODE), 'annotation': STR,
    'children': SEQ(PNODE)}}))
D.prepare()
lo, hi, parent, kids = (D.acc(f) for f in ('lo', 'hi', 'parent', 'children'))
_o = sort_of(POS)
# == on nodes (generated by dataclasses: fields are compared)
D.eq = z3.Function('same_node', D.sort(), D.sort(), z3.BoolSort())
same = lambda a, b: z3.Or(a == b, D.eq(a, b))
_p = sort_of(OPT(PNODE))
isnone = lambda v: v == _o.none
nokids = lambda x: z3.Length(kids(x)) == 0
SIZE = Hom('rsize', PNODE, M_SUM, lambda x: 1 + SIZE.seq(kids(x)),
           inv=lambda v: v >= 0)
LOS = Hom('rlos', PNODE, M_SEQ(POS), lambda x: z3.Unit(lo(x)))
HIS = Hom('rhis', PNODE, M_SEQ(POS), lambda x: z3.Unit(hi(x)))
# contiguous from a position: the state is where the next child must start
PART = Trans('rpart', PNODE, POS, lambda x, q: hi(x), M_AND,
             lambda x, q: lo(x) == q)
OWNED = Trans('owned', PNODE, PNODE, lambda x, q: q, M_AND,
              lambda x, q: z3.And(
                  _p.is_some(parent(x)), same(_p.val(parent(x)), q)))


def ok(x):
  ch = kids(x)
  return z3.And(
      z3.Not(isnone(lo(x))), z3.Not(isnone(hi(x))),
      z3.Or(nokids(x), z3.And(
          PART.fo(ch, lo(x)), PART.fq(ch, lo(x)) == hi(x),
          OWNED.fo(ch, x), VALID.seq(ch))))


VALID = Hom('rvalid', PNODE, M_AND, ok)
_Q2 = TUP(POS, POS)
_q2 = lambda a, b: sort_of(_Q2).mk(a, b)
_f = lambda q: (sort_of(_Q2).accessor(0, 0)(q), sort_of(_Q2).accessor(0, 1)(q))
L_BOUND = Lemma('range boundaries', PNODE, lambda L, q: (
    z3.Concat(z3.Unit(_f(q)[0]), L(HIS)) ==
    z3.Concat(L(LOS), z3.Unit(_f(q)[1]))) == z3.And(
        L.o(PART, _f(q)[0]), L.q(PART, _f(q)[0]) == _f(q)[1]),
    qt=_Q2, ih=lambda L, x, q: [_q2(_f(q)[0], lo(x))])

L_OWNER = Lemma('owner', PNODE, lambda L, q: L.q(OWNED, q) == q, qt=PNODE)


def contracts():
  x = lambda c: c.a('node').e

  def pre(c):
    k = kids(x(c))
    n = z3.Length(k)
    c.st.assume(L_BOUND.at(Contents(PNODE, [Seg(k)]),
                           _q2(lo(x(c)), hi(x(c)))))
    c.st.assume(hom_split(LOS, k, z3.SubSeq(k, 0, 1), z3.SubSeq(k, 1, n - 1)),
                hom_split(HIS, k, z3.SubSeq(k, 0, n - 1), z3.SubSeq(
                    k, n - 1, 1)))
    return []
  cs = [Contract(
      sp.valid_parse_ranges, {'node': PNODE}, BOOL,
      lambda c: [('accepts exactly the valid subtrees', c.e(c.res) == ok(
          x(c)))], nested='_check', requires=pre,
      decreases=lambda c: SIZE.node(x(c)),
      homs=[VALID, SIZE, LOS, HIS], trans=lambda c: [(OWNED, x(c))],
      lemmas=[L_BOUND, L_OWNER]), Contract(
          sp.valid_parse_ranges, {'root': PNODE, 'n': INT}, BOOL,
          lambda c: [('accepts exactly the valid trees', c.e(c.res) == z3.And(
              lo(c.a('root').e) == _o.some(z3.IntVal(0)),
              hi(c.a('root').e) == _o.some(c.a('n').e), ok(c.a('root').e)))],
          homs=[VALID])]
  for c in cs:
    c.transducers = [PART, OWNED]
  return cs
