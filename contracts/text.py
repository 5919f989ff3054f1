"""Contracts for the subtoken splitter."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract
from contracts import tree, vocab
import z3
from r_u_sure.parsing import subtokenizer
from r_u_sure.parsing import sequence_from_pseudo_parse as sfp

_S = z3.StringSort()
PRED = {n: z3.Function('str_' + n, _S, z3.BoolSort())
        for n in ('isupper', 'islower', 'isdigit', 'isspace')}
NOS = z3.StringVal('')
MS = M_SEQ(STR)
# state: class of the last character (0: none), the token being collected
SQ = TUP(INT, STR)
UP, LO, NUM, SPEC = 1, 2, 3, 4


def sq(a, b):
  return sort_of(SQ).mk(a, b)


def sqs(q):
  so = sort_of(SQ)
  return so.accessor(0, 0)(q), so.accessor(0, 1)(q)


def last(s):
  return z3.SubString(s, z3.Length(s) - 1, 1)


def init(s):
  return z3.SubString(s, 0, z3.Length(s) - 1)


def cls(x):
  return z3.If(PRED['isupper'](x), UP, z3.If(
      PRED['islower'](x), LO, z3.If(PRED['isdigit'](x), NUM, z3.IntVal(SPEC))))


def _rule(x, q):
  """(split before the character, split before the previous one)."""
  s, mem = sqs(q)
  n = cls(x)
  blank = z3.Or(x == z3.StringVal(' '), x == z3.StringVal('\t'))
  special = z3.If(z3.And(blank, x == last(mem)), z3.Length(mem) >= 20,
                  z3.Or(PRED['isspace'](x), PRED['isspace'](last(mem))))
  here = z3.Or(z3.And(s != 0, s != n, z3.Not(z3.And(s == UP, n == LO))),
               z3.And(s == SPEC, n == SPEC, special))
  return here, z3.And(s == UP, n == LO, z3.Length(mem) > 1)


def _step_q(x, q):
  _, mem = sqs(q)
  here, prev = _rule(x, q)
  return sq(cls(x), z3.If(here, x, z3.If(
      prev, z3.Concat(last(mem), x), z3.Concat(mem, x))))


def _emit(f, none):
  def o(x, q):
    _, mem = sqs(q)
    here, prev = _rule(x, q)
    return z3.If(here, f(mem), z3.If(prev, f(init(mem)), none))
  return o


SPLIT = Trans('split', CHAR, SQ, _step_q, MS, _emit(z3.Unit, MS.unit))
SPLIT_TEXT = Trans('split', CHAR, SQ, _step_q, M_STR, _emit(lambda t: t, NOS))
SPLIT_TEXT.fo = z3.Function('o_split_text', _S, sort_of(SQ), _S)
SPLIT_OK = Trans('split', CHAR, SQ, _step_q, M_AND, _emit(
    lambda t: z3.Length(t) > 0, z3.BoolVal(True)))
SPLIT_OK.fo = z3.Function('o_split_ok', _S, sort_of(SQ), z3.BoolSort())
Q0 = sq(z3.IntVal(0), NOS)
L_STATE = Lemma('state', CHAR, lambda L, q: z3.Implies(q == Q0, z3.And(
    sqs(L.q(SPLIT, q))[0] >= 0, sqs(L.q(SPLIT, q))[0] <= 4,
    (sqs(L.q(SPLIT, q))[0] == 0) == (L.n == 0),
    (sqs(L.q(SPLIT, q))[1] == NOS) == (L.n == 0),
    z3.Implies(L.n > 0, last(sqs(L.q(SPLIT, q))[1]) == last(L.term)))), qt=SQ)
L_TEXT = Lemma('lossless', CHAR, lambda L, q: z3.Implies(q == Q0, z3.And(
    z3.Concat(L.o(SPLIT_TEXT, q), sqs(L.q(SPLIT, q))[1]) == L.term,
    L.o(SPLIT_OK, q))), qt=SQ, uses=(L_STATE,))

ONE = Hom('one_char', STR, M_AND, lambda s: z3.Length(s) == 1)
NONEMPTY = Hom('nonempty', STR, M_AND, lambda s: z3.Length(s) > 0)
L_ONE = Lemma('one character each', STR, lambda L, q: z3.Implies(
    L(ONE), z3.Length(L(vocab.JOIN)) == L.n))
TOKS = Hom('subtokens', STR, tree.SEV, lambda s: z3.Unit(tree.ev(
    tree.E_TOK, s, tree._injstr(z3.StringVal('subtoken')))))


def chars(v):
  return Contents(CHAR, [Seg(v.e)])


def split_spec(v):
  c = chars(v)
  q = SPLIT.q(c, Q0)
  return z3.If(z3.Length(v.e) == 0, MS.unit, z3.Concat(
      SPLIT.o(c, Q0), z3.Unit(sqs(q)[1])))


def contracts():
  cs = []
  tr = dict(trans=lambda c: [(SPLIT, Q0), (SPLIT_TEXT, Q0), (SPLIT_OK, Q0)],
            lemmas=[L_STATE, L_TEXT, L_ONE])

  def split(c):
    for L in (L_STATE, L_TEXT):
      c.use(L, chars(c.a('code')), Q0)
    return [('boundaries', c.term(c.res, LIST(STR)) == split_spec(
        c.a('code'))),
            ('lossless', c.h(vocab.JOIN, c.res) == c.a('code').e),
            ('no empty piece', c.h(NONEMPTY, c.res))]
  cs.append(Contract(
      subtokenizer.code_to_tokens_simple_lossless, {'code': STR}, LIST(STR),
      split, homs=[vocab.JOIN, ONE, NONEMPTY], **tr))
  cs.append(Contract(
      sfp.subtokenize_token, {'token': STR}, tree.NODES, lambda c: [
          ('a token per piece', c.h(tree.FULL, c.res) == TOKS.seq(split_spec(
              c.a('token')))),
          ('text', c.h(tree.TEXT, c.res) == c.a('token').e)],
      homs=[vocab.JOIN, NONEMPTY, TOKS, tree.FULL, tree.TEXT], **tr))
  for c in cs:
    c.transducers = [SPLIT]
  return cs
