"""Contracts for bracket error correction."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract, zip_dict
import z3
from r_u_sure.parsing.pseudo_parser import stack_parser as sp

TOK = ANY            # tokens are texts or indices
TOKS = LIST(TOK)
PAIR = TUP(TOK, TOK)
_S = sort_of(SEQ(TOK))
EMPTY = z3.Empty(_S)
MS = M_SEQ(TOK)
_p = sort_of(PAIR)

OPENERS = Hom('openers', PAIR, MS, lambda p: z3.Unit(_p.accessor(0, 0)(p)))
CLOSERS = Hom('closers', PAIR, MS, lambda p: z3.Unit(_p.accessor(0, 1)(p)))
# the (arbitrary) bracket pairs
MP = z3.Const('MATCH_PAIRS', sort_of(LIST(PAIR)))
O, C = OPENERS.seq(MP), CLOSERS.seq(MP)
C2O = zip_dict(TOK, TOK, C, O)[1]
O2C = zip_dict(TOK, TOK, O, C)[1]


def is_o(t):
  return z3.Contains(O, z3.Unit(t))


def is_c(t):
  return z3.Contains(C, z3.Unit(t))


def c2o(t):
  return z3.Select(C2O, t)


def o2c(t):
  return z3.Select(O2C, t)


def last(s):
  return s[z3.Length(s) - 1]


def init(s):
  return z3.SubSeq(s, 0, z3.Length(s) - 1)


def closes(t, s):
  return z3.And(is_c(t), z3.Length(s) > 0, last(s) == c2o(t))


# what is open after reading tokens; closers that find nothing open
EC = Trans('ec', TOK, SEQ(TOK), lambda t, s: z3.If(
    is_o(t), z3.Concat(s, z3.Unit(t)), z3.If(closes(t, s), init(s), s)), MS,
    lambda t, s: z3.If(z3.And(z3.Not(is_o(t)), is_c(t), z3.Length(s) == 0),
                       z3.Unit(c2o(t)), EMPTY))
# proper nesting: the same, but a closer that finds nothing open is an error
NQ = TUP(SEQ(TOK), BOOL)
_n = sort_of(NQ)
nq = _n.constructor(0)
nst, nok = _n.accessor(0, 0), _n.accessor(0, 1)


def _nest(t, q):
  s = nst(q)
  return z3.If(is_o(t), nq(z3.Concat(s, z3.Unit(t)), nok(q)), z3.If(
      closes(t, s), nq(init(s), nok(q)), nq(s, z3.And(nok(q), z3.Not(
          z3.And(is_c(t), z3.Length(s) == 0))))))


NEST = Trans('nest', TOK, NQ, _nest)
TRUE = z3.BoolVal(True)
REV = Hom('reverse', TOK, M_REV(TOK), z3.Unit, is_reverse=True)
CLOSE = Hom('close', TOK, MS, lambda t: z3.Unit(o2c(t)))
RCLOSE = Hom('rclose', TOK, M_REV(TOK), lambda t: z3.Unit(o2c(t)))
ISOPEN = Hom('all_open', TOK, M_AND, is_o)
# brackets among these tokens are paired one to one, no token is both
PAIRED = Hom('paired', TOK, M_AND, lambda t: z3.And(
    z3.Implies(is_o(t), z3.And(
        z3.Not(is_c(t)), is_c(o2c(t)), z3.Not(is_o(o2c(t))),
        c2o(o2c(t)) == t)),
    z3.Implies(is_c(t), is_o(c2o(t)))))
STACK = Hom('stacked', TOK, M_AND, lambda t: z3.And(is_o(t), PAIRED.node(t)))

rp = lambda L: REV.seq(L.o(EC, EMPTY))
_emit = lambda L, x: EC.step_o(x, L.q(EC, EMPTY))


def _rev_hint(L, x):
  w = z3.Concat(L.o(EC, EMPTY), _emit(L, x))
  return [hom_split(REV, w, L.o(EC, EMPTY), _emit(L, x)),
          hom_empty(REV, EMPTY),
          hom_snoc(REV, z3.Unit(c2o(x)), EMPTY, c2o(x))]


L_OPEN = Lemma('reading openers', TOK, lambda L, q: z3.Implies(
    L(ISOPEN), L.q(NEST, q) == nq(z3.Concat(nst(q), L.term), nok(q))), qt=NQ)
L_STACK = Lemma('what is open', TOK, lambda L, q: z3.Implies(
    L(PAIRED), L_(L)), hints=lambda L, x, q: _stack_hints(L, x))


def L_(L):
  return z3.And(STACK.seq(L.q(EC, EMPTY)), ISOPEN.seq(L.o(EC, EMPTY)))


def _stack_hints(L, x):
  if x is None:
    return [hom_empty(STACK, EMPTY), hom_empty(ISOPEN, EMPTY)]
  s, o = L.q(EC, EMPTY), L.o(EC, EMPTY)
  return [hom_snoc(STACK, z3.Concat(s, z3.Unit(x)), s, x),
          hom_snoc(STACK, s, init(s), last(s)),
          hom_snoc(ISOPEN, z3.Concat(o, z3.Unit(c2o(x))), o, c2o(x)),
          hom_empty(ISOPEN, EMPTY)]


L_REVOPEN = Lemma('reversing keeps openers', TOK, lambda L, q: z3.And(
    ISOPEN.seq(L(REV)) == L(ISOPEN), z3.Length(L(REV)) == L.n),
    hints=lambda L, x, q: [hom_empty(ISOPEN, EMPTY)] if x is None else [
        hom_split(ISOPEN, z3.Concat(z3.Unit(x), L(REV)), z3.Unit(x), L(REV)),
        hom_empty(ISOPEN, EMPTY), hom_snoc(ISOPEN, z3.Unit(x), EMPTY, x)])
# reading the tokens with the missing openers in front
L_MID = Lemma('with the openers in front', TOK, lambda L, X: L.q(
    NEST, nq(z3.Concat(X, rp(L)), TRUE)) == nq(z3.Concat(
        X, L.q(EC, EMPTY)), TRUE), qt=SEQ(TOK),
    ih=lambda L, x, X: [z3.Concat(X, REV.seq(_emit(L, x)))],
    hints=lambda L, x, X: [hom_empty(REV, EMPTY)] if x is None else _rev_hint(
        L, x), split=lambda L, x, X: [
            is_o(x), is_c(x), z3.Length(L.q(EC, EMPTY)) == 0,
            last(L.q(EC, EMPTY)) == c2o(x)])
# reading the missing closers
L_END = Lemma('with the closers behind', TOK, lambda L, X: z3.Implies(
    L(STACK), NEST.fq(L(RCLOSE), nq(z3.Concat(X, L.term), TRUE)) ==
    nq(X, TRUE)), qt=SEQ(TOK),
    hints=lambda L, x, X: [trans_empty(NEST, EMPTY, nq(X, TRUE))]
    if x is None else [trans_cons(
        NEST, z3.Concat(z3.Unit(o2c(x)), L(RCLOSE)), o2c(x), L(RCLOSE),
        nq(z3.Concat(X, L.term, z3.Unit(x)), TRUE))])
L_RCLOSE = Lemma('reversed closers', TOK, lambda L, q: REV.seq(
    L(CLOSE)) == L(RCLOSE), hints=lambda L, x, q: [
        hom_empty(REV, EMPTY)] if x is None else [
            hom_snoc(REV, z3.Concat(L(CLOSE), z3.Unit(o2c(x))), L(CLOSE),
                     o2c(x))])
# balanced input needs nothing
L_BAL = Lemma('nothing missing', TOK, lambda L, q: z3.And(
    nok(L.q(NEST, nq(EMPTY, TRUE))) == (z3.Length(L.o(EC, EMPTY)) == 0),
    nst(L.q(NEST, nq(EMPTY, TRUE))) == L.q(EC, EMPTY)))


def contracts():
  def seg(t):
    return Contents(TOK, [Seg(t)])

  def ens(c):
    toks = c.term(c.a('tokens'), TOKS)
    ct = seg(toks)
    o, s = EC.o(ct, EMPTY), EC.q(ct, EMPTY)
    pre, suf = c.res.items
    for l in (L_STACK, L_BAL):
      c.use(l, ct)
    c.use(L_REVOPEN, seg(o))
    c.use(L_MID, ct, EMPTY)
    c.use(L_RCLOSE, seg(s))
    c.use(L_END, seg(s), EMPTY)
    c.use(L_OPEN, seg(REV.seq(o)), nq(EMPTY, TRUE))
    q0 = nq(EMPTY, TRUE)
    tp, ts = c.term(pre, TOKS), c.term(suf, TOKS)
    return [
        ('an opener per closer that finds nothing open', tp == REV.seq(o)),
        ('a closer per bracket left open', ts == RCLOSE.seq(s)),
        ('properly nested', NEST.fq(ts, NEST.fq(toks, NEST.fq(tp, q0))) ==
         q0),
        ('nothing is added to balanced input', z3.Implies(
            NEST.fq(toks, q0) == q0, z3.And(z3.Length(tp) == 0,
                                            z3.Length(ts) == 0)))]

  def pre(c):
    return [('the bracket pairs', c.term(c.a('match_pairs'), LIST(PAIR)) ==
             MP), ('pairs are one to one', c.h(PAIRED, c.a('tokens')))]
  cs = [Contract(
      sp.error_correcting_prefix_and_suffix,
      {'tokens': TOKS, 'match_pairs': LIST(PAIR), 'verbose': BOOL},
      TUP(TOKS, TOKS), ens, requires=pre,
      homs=[OPENERS, CLOSERS, PAIRED, CLOSE, REV, ISOPEN],
      trans=lambda c: [(EC, EMPTY)],
      lemmas=[L_OPEN, L_STACK, L_REVOPEN, L_MID, L_END, L_RCLOSE, L_BAL])]
  for c in cs:
    c.transducers = [EC]
  return cs


def log(eng, st, r, args, kw, node):
  return [(st, NONEV)]


def handlers():
  return {sp.logging.info: lambda eng, st, args, kw, node: [(st, NONEV)]}
