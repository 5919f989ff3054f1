"""Contracts for the baselines: which exit or which tokens a rule names."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract, NEG_INFINITY
from contracts import packed, probs, regions
from contracts.packed import ID, acc, code, dec_text, is_, pre_i, tok_text
import z3
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw

PB = ptw.PrefixByEditDistanceBaselineBuilder
SELF = ('inst', PB, (('prototype', packed.STORAGE),
                     ('aligned_log_probs', DICT(INT, REAL))))
KEY, DV = regions.KEY, regions.DV
WHERE = OPT(INT)
_o = sort_of(WHERE)
NOWHERE = _o.none
at = _o.some
idx, known = _o.val, _o.is_some
F, T = z3.BoolVal(False), z3.BoolVal(True)
NOS = z3.StringVal('')

# ---------------------------------------------------- decisions for an exit
K = z3.Const('SOME_KEY', sort_of(KEY))    # an arbitrary key
# where to exit; exited; twice; what key K was given
A = TUP(WHERE, BOOL, BOOL, BOOL, INT)
mka = sort_of(A).constructor(0)
a_where, a_out, a_twice, a_has, a_val = (acc(A, i) for i in range(5))


BAD = mka(NOWHERE, F, T, F, z3.IntVal(0))


def _assign(x, q):
  w, out = a_where(q), a_out(q)
  here = z3.And(known(w), pre_i(x) == idx(w))
  ee, rs = is_(x, 'EARLY_EXIT_NODE'), is_(x, 'REGION_START_NODE')
  me = K == regions.key(x, 'SHOULD_EARLY_EXIT')
  mr = K == regions.key(x, 'REGION_SHOULD_START')
  v = lambda n: z3.IntVal(code(DV[n]))
  return z3.If(z3.Or(a_twice(q), z3.And(ee, here, out)), z3.If(
      a_twice(q), q, BAD), z3.If(ee, mka(
      w, z3.Or(out, here), F, z3.Or(a_has(q), me), z3.If(me, z3.If(here, v('TRUE'), z3.If(
          out, v('NOT_APPLICABLE'), v('FALSE'))), a_val(q))), z3.If(rs, mka(
              w, out, F, z3.Or(a_has(q), mr),
              z3.If(mr, v('FALSE'), a_val(q))), q)))


ASSIGN = Trans('assign_exit', ID, A, _assign)
L_BAD = Lemma('an error stays', ID, lambda L, q: z3.Implies(
    a_twice(q), L.q(ASSIGN, q) == q), qt=A)


def start(w):
  return mka(w, F, F, F, z3.IntVal(0))


def at_k(L):
  for i, t in L.prefix_types():
    if t != ID:
      continue
    for tr, q0 in L.eng.trans:
      if tr is not ASSIGN or q0.eq(BAD):
        continue
      for k in L.mods:
        if k[0] != 'dict':
          continue

        def f(v, i=i, k=k, q0=q0):
          q, d = ASSIGN.q(v.tprefix(i), q0), v.st.dicts[k[1]]
          if d['dom'] is None:
            return z3.Not(a_has(q))
          return z3.And(a_has(q) == z3.Select(d['dom'], K), z3.Implies(
              a_has(q), a_val(q) == z3.Select(d['val'], K)))
        yield 'what key K was given', f


def decided(c, w, ids):
  q, d = c.q(ASSIGN, ids, start(w)), c.st.dicts[c.res.ref]
  if d['dom'] is None:
    return [('which decisions', z3.Not(a_has(q)))]
  return [('which decisions', z3.Select(d['dom'], K) == a_has(q)),
          ('the decisions', z3.Implies(
              a_has(q), z3.Select(d['val'], K) == a_val(q)))]


def wrong(c, w, ids):
  q = c.q(ASSIGN, ids, start(w))
  return {'AssertionError': a_twice(q), 'ValueError': z3.And(
      known(w), z3.Not(a_out(q)), z3.Not(a_twice(q)))}


L_WHERE = Lemma('the exit wanted stays', ID, lambda L, q: z3.Or(
    a_twice(L.q(ASSIGN, q)), a_where(L.q(ASSIGN, q)) == a_where(q)), qt=A)


# ------------------------------------------------------------- prefix rules
THR, ALPHA, KAPPA = z3.Reals('THRESHOLD ALPHA KAPPA')
CUM = z3.Bool('CUMULATIVE')
MAXN = z3.Int('AT_MOST')
lp = lambda x: z3.Select(probs.LP_VAL, pre_i(x))
token = lambda x: z3.And(is_(x, 'TEXT_TOKEN_NODE'), tok_text(x) != NOS)


def rule(name, *ts, measure, low, before):
  """A rule that goes through the nodes until it has found its exit.

  State: what it measures, the last exit, whether to leave at the next, the
  exit.  measure(x, *m): the new measure; low(x, *m): leave here, with the
  measure before x; before: at the exit before, if there is one.
  """
  qt = TUP(*ts, WHERE, BOOL, WHERE)
  n, mk = len(ts), sort_of(qt).constructor(0)
  part = [acc(qt, i) for i in range(n + 3)]
  last, due, exit_ = part[n:]

  def step(x, q):
    m = [p(q) for p in part[:n]]
    ee, here = is_(x, 'EARLY_EXIT_NODE'), at(pre_i(x))
    lo = low(x, *m)
    new = measure(x, *m)
    done = lambda w: mk(*m, last(q), due(q), w)
    to_last = z3.And(lo, known(last(q))) if before else F
    return z3.If(known(exit_(q)), q, z3.If(
        ee, mk(*m, here, due(q), z3.If(due(q), here, NOWHERE)), z3.If(
            to_last, done(last(q)),
            mk(*new, last(q), z3.Or(due(q), lo), NOWHERE))))
  r = Trans(name, ID, qt, step)
  r.exit = exit_
  r.last = last
  r.start = lambda *m: mk(*m, NOWHERE, F, NOWHERE)
  r.stays = Lemma(f'{name}: the exit stays', ID, lambda L, q: z3.Implies(
      known(exit_(q)), L.q(r, q) == q), qt=qt, later=r)

  def found(L, q):
    e = L.q(r, q)
    return z3.Implies(z3.Not(z3.Or(known(last(q)), known(exit_(q)))), z3.And(
        *[z3.Implies(known(p(e)), z3.Or(
            a_twice(L.q(ASSIGN, start(p(e)))),
            a_out(L.q(ASSIGN, start(p(e)))))) for p in (last, exit_)]))
  r.found = Lemma(
      f'{name}: the exit exists', ID, found, qt=qt,
      hints=lambda L, x, q: [] if x is None else [
          L_WHERE.at(L.c, start(w)) for w in (
              at(pre_i(x)), last(L.q(r, q)), exit_(L.q(r, q)))])
  return r


EXP = probs.EXP
BY_PROB = rule(
    'by_token_prob', REAL, before=True,
    measure=lambda x, p: (z3.If(token(x), z3.If(
        CUM, p + lp(x), lp(x)), p),),
    low=lambda x, p: z3.And(token(x), EXP(z3.If(
        CUM, p + lp(x), lp(x))) < THR))
BY_CODE = rule(
    'by_intellicode', INT, before=True,
    measure=lambda x, n: (z3.If(token(x), n + 1, n),),
    low=lambda x, n: z3.And(token(x), EXP(lp(x)) < ALPHA / (
        1 + EXP(z3.ToReal(-n) / KAPPA))))
BY_CHARS = rule(
    'by_characters', INT, before=False,
    measure=lambda x, n: (z3.If(is_(x, 'TEXT_TOKEN_NODE'), n + z3.Length(
        tok_text(x)), n),),
    low=lambda x, n: z3.And(is_(x, 'TEXT_TOKEN_NODE'), n + z3.Length(
        tok_text(x)) >= MAXN))
_nl = lambda x: z3.And(is_(x, 'TEXT_DECORATION_NODE'), z3.Contains(
    dec_text(x), z3.StringVal('\\u{a}')))
BY_LINES = rule(
    'by_lines', INT, before=False,
    measure=lambda x, n: (z3.If(_nl(x), n + 1, n),),
    low=lambda x, n: z3.And(_nl(x), n + 1 >= MAXN))


def by_average():
  """The exit with the greatest average log probability so far."""
  qt = TUP(REAL, INT, REAL, WHERE)
  mk = sort_of(qt).constructor(0)
  total, n, best, exit_ = (acc(qt, i) for i in range(4))

  def step(x, q):
    avg = total(q) / z3.ToReal(n(q))
    better = z3.And(is_(x, 'EARLY_EXIT_NODE'), n(q) > 0, avg > best(q))
    return z3.If(better, mk(total(q), n(q), avg, at(pre_i(x))), z3.If(
        token(x), mk(total(q) + lp(x), n(q) + 1, best(q), exit_(q)), q))
  r = Trans('by_average', ID, qt, step)
  r.exit, r.start = exit_, mk
  r.stays = None

  def found(L, q):
    e = exit_(L.q(r, q))
    return z3.Implies(z3.And(z3.Not(known(exit_(q))), known(e)), z3.Or(
        a_twice(L.q(ASSIGN, start(e))), a_out(L.q(ASSIGN, start(e)))))
  r.found = Lemma('by_average: the exit exists', ID, found, qt=qt,
                  hints=lambda L, x, q: [] if x is None else [
                      L_WHERE.at(L.c, start(w)) for w in (
                          at(pre_i(x)), exit_(L.q(r, q)))])
  return r


BY_AVERAGE = by_average()


# ------------------------------------------------------------- region rules
UB = urw.UncertaintyRegionsBaselineBuilder
INTS = LIST(INT)
MI = M_SEQ(INT)
# the decisions made for the tokens named (see P22, P23 and P19), whatever
# they are
NAMED_DOM = z3.Function('named_dom', sort_of(INTS), z3.ArraySort(
    sort_of(KEY), z3.BoolSort()))
NAMED_VAL = z3.Function('named_val', sort_of(INTS), z3.ArraySort(
    sort_of(KEY), z3.IntSort()))
PRE = z3.Const('PREORDER', sort_of(LIST(ID)))
NONEMPTY = z3.Bool('ONLY_NONEMPTY')
OFFSET, FRACTION = z3.Reals('OFFSET FRACTION')
ITEM = TUP(INT, REAL)
i_at, i_lp = acc(ITEM, 0), acc(ITEM, 1)
LOWCAND = Hom('lpitem', ITEM, M_AND, lambda x: z3.And(
    0 <= i_at(x), i_at(x) < z3.Length(PRE),
    is_(PRE[i_at(x)], 'TEXT_TOKEN_NODE'),
    packed.within(PRE[i_at(x)], packed.TOKS)))
_cum = lambda x, q: z3.If(CUM, q + i_lp(x), i_lp(x))
UNLIKELY = Trans('unlikely', ITEM, REAL, _cum, MI, lambda x, q: z3.If(
    z3.And(EXP(_cum(x, q)) < THR, z3.Or(
        z3.Not(NONEMPTY), tok_text(PRE[i_at(x)]) != NOS)),
    z3.Unit(i_at(x)), MI.unit))


def _len(x):
  return z3.If(is_(x, 'TEXT_TOKEN_NODE'), z3.Length(tok_text(x)), z3.If(
      is_(x, 'TEXT_DECORATION_NODE'), z3.Length(dec_text(x)), 0))


BEYOND = Trans(
    'beyond', ID, INT, lambda x, q: q + _len(x), MI, lambda x, q: z3.If(
      z3.And(token(x), z3.ToReal(q + _len(x)) > OFFSET),
      z3.Unit(pre_i(x)), MI.unit))


SIZE = Hom('textsize', ID, M_SUM, _len, inv=lambda v: v >= 0)
# by depth: depth now, depth of the first token
UP, DOWN = z3.Ints('ANCESTOR_CUTOFF CHILD_CUTOFF')
D = TUP(INT, WHERE)
mkd = sort_of(D).constructor(0)
d_now, d_first = acc(D, 0), acc(D, 1)
it_cat, it_id = acc(packed.ITEM, 0), acc(packed.ITEM, 1)


def _kind(x, n):
  return it_cat(x) == code(packed._IC[n])


def _tok(x):
  return z3.And(_kind(x, 'LEAF'), is_(it_id(x), 'TEXT_TOKEN_NODE'))


def _depth(x, q):
  return z3.If(_kind(x, 'BEFORE_GROUP'), mkd(d_now(q) + 1, d_first(q)), z3.If(
      _kind(x, 'AFTER_GROUP'), mkd(d_now(q) - 1, d_first(q)), z3.If(
          z3.And(_tok(x), z3.Not(known(d_first(q)))),
          mkd(d_now(q), at(d_now(q))), q)))


DEEP = Trans('by_depth', packed.ITEM, D, _depth, MI, lambda x, q: z3.If(
    z3.And(_tok(x), known(d_first(q)), z3.Or(
        d_now(q) <= idx(d_first(q)) - UP,
        d_now(q) >= idx(d_first(q)) + DOWN)),
    z3.Unit(pre_i(it_id(x))), MI.unit))
D0 = mkd(z3.IntVal(0), NOWHERE)


def named(c, tokens):
  d = c.st.dicts[c.res.ref]
  return [('the tokens named', z3.And(d['dom'] == NAMED_DOM(tokens),
                                      d['val'] == NAMED_VAL(tokens)))]


def region_contracts():
  SELF = ('inst', UB, (('prototype', packed.STORAGE),
                       ('aligned_log_probs', DICT(INT, REAL))))
  DECS = DICT(KEY, ENUM(DV))
  slf = lambda c: c.st.insts[c.a('self').ref]
  ids = lambda c: slf(c)['prototype'].items[1]
  cs = [Contract(
      UB._assignment_from_low_confidence_nodes,
      {'self': SELF, 'low_confidence_preorder_indices': INTS}, DECS,
      lambda c: named(c, c.term(c.a('low_confidence_preorder_indices'),
                                INTS)),
      trusted=True, note='some function of the tokens named')]

  def pre(c, *consts):
    return packed.storage_is(c, s=slf(c)['prototype']) + [
        ('preorder', c.term(ids(c), LIST(ID)) == PRE),
        ('known ids', c.h(packed.WF, ids(c)))] + [
            (n, c.a(n).e == k) for n, k in consts]

  def items(c):
    return Contents(ITEM, [Seg(c.st.dicts[slf(c)['aligned_log_probs'].ref][
        'items'])])
  cs.append(Contract(
      UB.baseline_assignment_from_token_probabilities,
      {'self': SELF, 'probability_threshold': REAL,
       'only_constrain_nonempty': BOOL, 'cumulative': BOOL}, DECS,
      lambda c: named(c, UNLIKELY.o(items(c), z3.RealVal(0))),
      requires=lambda c: pre(
          c, ('probability_threshold', THR), ('cumulative', CUM),
          ('only_constrain_nonempty', NONEMPTY)) + [
              ('log probabilities of tokens', LOWCAND.of(items(c)))],
      homs=[packed.WF, LOWCAND],
      trans=lambda c: [(UNLIKELY, z3.RealVal(0))]))
  cs.append(Contract(
      UB.baseline_assignment_from_character_offset,
      {'self': SELF, 'offset_in_chars': REAL}, DECS,
      lambda c: named(c, BEYOND.o(c.contents(ids(c)), z3.IntVal(0))),
      requires=lambda c: pre(c, ('offset_in_chars', OFFSET)),
      homs=[packed.WF], trans=lambda c: [(BEYOND, z3.IntVal(0))]))
  cs.append(Contract(
      UB.baseline_assignment_from_example_fraction,
      {'self': SELF, 'fraction': REAL}, DECS,
      lambda c: named(c, BEYOND.o(c.contents(ids(c)), z3.IntVal(0))),
      requires=lambda c: pre(c, ('fraction', FRACTION)) + [
          ('offset', OFFSET == FRACTION * z3.ToReal(SIZE.seq(PRE)))],
      homs=[packed.WF, SIZE]))
  cs.append(Contract(
      UB.baseline_assignment_from_depth_cutoff,
      {'self': SELF, 'ancestor_depth_cutoff': INT, 'child_depth_cutoff': INT},
      DECS, lambda c: named(c, DEEP.o(Contents(packed.ITEM, [Seg(c.h(
          packed.STRIPPED, slf(c)['prototype'].items[0]))]), D0)),
      requires=lambda c: pre(c, ('ancestor_depth_cutoff', UP),
                             ('child_depth_cutoff', DOWN)) + [
                                 ('known ids', c.h(packed.WF, slf(c)[
                                     'prototype'].items[0]))],
      raises=lambda c: {'ValueError': z3.Or(UP < 1, DOWN < 1)},
      homs=[packed.WF, packed.STRIPPED, packed.ALL_ITEMS],
      trans=lambda c: [(DEEP, D0)]))
  return cs + [c for c in packed.contracts()
               if c.fn is packed.ps.in_order_traversal]


def contracts():
  ids = lambda c: c.st.insts[c.a('self').ref]['prototype'].items[1]
  w = lambda c: c.eng.box(c.st, c.a('early_exit_preorder_index'), WHERE)
  DECS = DICT(KEY, ENUM(DV))
  cs = [Contract(
      PB._assignment_from_exit_point,
      {'self': SELF, 'early_exit_preorder_index': WHERE},
      DECS, lambda c: decided(c, w(c), ids(c)),
      raises=lambda c: wrong(c, w(c), ids(c)),
      trans=lambda c: [(ASSIGN, start(w(c))), (ASSIGN, BAD)],
      lemmas=[L_BAD], cands=[at_k])]

  def add(fn, params, r, *m, consts=(), more=lambda c: []):
    q0 = r.start(*m)
    ex = lambda c: r.exit(c.q(r, ids(c), q0))

    def pre(c):
      s = c.st.insts[c.a('self').ref]
      d = c.st.dicts[s['aligned_log_probs'].ref]
      c.use(r.found, ids(c), q0)
      return packed.storage_is(c, s=s['prototype']) + [
          ('known ids', c.h(packed.WF, ids(c))),
          ('a log probability for every token', c.h(probs.GIVEN, ids(c))),
          ('log probabilities', z3.And(d['dom'] == probs.LP_DOM,
                                       d['val'] == probs.LP_VAL))] + [
                                           (n, c.a(n).e == k)
                                           for n, k in consts] + more(c)
    cs.append(Contract(
        fn, {'self': SELF, **params}, DECS,
        lambda c: decided(c, ex(c), ids(c)), requires=pre,
        raises=lambda c: {'AssertionError': a_twice(c.q(
            ASSIGN, ids(c), start(ex(c))))},
        homs=[packed.WF, probs.GIVEN],
        lemmas=[l for l in (L_WHERE, r.stays, r.found) if l],
        trans=lambda c: [(r, q0)]))
    cs[-1].infinite = True
  add(PB.baseline_assignment_from_token_prob,
      {'probability_threshold': REAL, 'cumulative': BOOL}, BY_PROB,
      z3.RealVal(0), consts=(('probability_threshold', THR),
                             ('cumulative', CUM)))
  add(PB.baseline_assignment_from_intellicode_compose,
      {'alpha': REAL, 'kappa': REAL}, BY_CODE, z3.IntVal(0),
      consts=(('alpha', ALPHA), ('kappa', KAPPA)), more=lambda c: [
          ('kappa', c.a('kappa').e > 0)])
  add(PB.baseline_assignment_from_max_average_log_prob, {}, BY_AVERAGE,
      z3.RealVal(0), z3.IntVal(0), NEG_INFINITY, NOWHERE)
  add(PB.baseline_assignment_from_characters,
      {'max_token_characters': INT}, BY_CHARS, z3.IntVal(0),
      consts=(('max_token_characters', MAXN),))
  add(PB.baseline_assignment_from_lines, {'max_lines': INT}, BY_LINES,
      z3.IntVal(0), consts=(('max_lines', MAXN),))
  return cs + region_contracts()


def handlers():
  return probs.handlers()
