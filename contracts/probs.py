"""Contracts for model token probabilities laid over suggestion tokens."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract, Engine, REPLACE_ALL
from contracts import packed, regions, vocab
import z3
from r_u_sure.tree_structure import token_prob_align as tp

PAIR = TUP(STR, REAL)
PAIRS = LIST(PAIR)
_p = sort_of(PAIR)
txt, lp = _p.accessor(0, 0), _p.accessor(0, 1)
HELPER = ('inst', tp.SpanProbHelper, (('token_and_log_prob_stack', PAIRS),))
NOS, MP = z3.StringVal(''), M_SEQ(PAIR)
MR = M_REV(PAIR)
# Reading model tokens from the top of the stack for a span: the state is the
# number of characters still wanted, -1 once the span is complete (it takes a
# token even when no character is wanted).
fits = lambda x, q: z3.Length(txt(x)) <= q


def _eat(x, q):
  return z3.If(q < 0, q, z3.If(z3.And(fits(x, q), z3.Length(txt(x)) != q),
                               q - z3.Length(txt(x)), z3.IntVal(-1)))


def eater(suffix, monoid, out):
  t = Trans('eat', PAIR, INT, _eat, monoid, out, right=True)
  t.fo = z3.Function('o_eat_' + suffix, z3.SeqSort(sort_of(PAIR)),
                     z3.IntSort(), sort_of(monoid.t))
  t.name = 'eat_' + suffix
  return t


TEXT = eater('text', M_STR, lambda x, q: z3.If(q < 0, NOS, z3.If(
    fits(x, q), txt(x), z3.SubString(txt(x), 0, q))))
LP = eater('lp', M_RSUM, lambda x, q: z3.If(q < 0, z3.RealVal(0), lp(x)))


def cut(x, q):
  return _p.mk(z3.SubString(txt(x), q, z3.Length(txt(x)) - q), lp(x))


# what stays on the stack (bottom first)
LEFT = eater('left', MR, lambda x, q: z3.If(q < 0, z3.Unit(x), z3.If(
    fits(x, q), MP.unit, z3.Unit(cut(x, q)))))
ALLTEXT = Hom('stacktext', PAIR, Monoid(
    'revstr', STR, lambda: NOS, lambda a, b: M_STR.op(b, a)), txt)
EATERS = [TEXT, LP, LEFT]

def _done(L, q):
  return z3.Implies(q < 0, z3.And(
      L.q(TEXT, q) == q, L.o(TEXT, q) == NOS, L.o(LP, q) == 0,
      L.o(LEFT, q) == L.term))


def _span(L, q):
  t, a = L.o(TEXT, q), L(ALLTEXT)
  return z3.And(_done(L, q), z3.Implies(q >= 0, z3.And(
      a == z3.Concat(t, ALLTEXT.seq(L.o(LEFT, q))),
      z3.Or(z3.Length(t) == q, z3.And(
          z3.Length(a) < q, L.o(LEFT, q) == MP.unit)))))


L_DONE = Lemma('afterwards everything stays', PAIR, _done, qt=INT,
               ih=lambda L, x, q: [_eat(x, q)])
L_SPAN = Lemma(
    'a span is the next text and what follows it stays', PAIR, _span, qt=INT,
    ih=lambda L, x, q: [_eat(x, q)],
    hints=lambda L, x, q: [hom_empty(ALLTEXT, MP.unit)] if x is None else [
        hom_snoc(ALLTEXT, z3.Concat(L.o(LEFT, _eat(x, q)), z3.Unit(y)),
                 L.o(LEFT, _eat(x, q)), y)
        for y in (x, cut(x, q))] + [hom_empty(ALLTEXT, MP.unit)])


def stack(c, old=False):
  st = c.old if old else c.st
  return c.eng.contents(st, st.insts[c.a('self').ref][
      'token_and_log_prob_stack'])


def remaining(L):
  """What has been read and what reading the rest would give."""
  for ks in L.lists(PAIR):
    for kn in L.scalars(INT):
      for T in (LEFT,):
        yield (f'{T.name} of the rest', lambda v, ks=ks, kn=kn, T=T: T.o(
            v.contents(ks), v.val(kn).e) == T.o(
                v.ent_contents(ks), v.ent(kn).e))
      for kt in L.scalars(REAL):
        yield ('log probability so far and of the rest',
               lambda v, ks=ks, kn=kn, kt=kt: v.val(kt).e + LP.o(
                   v.contents(ks), v.val(kn).e) == v.ent(kt).e + LP.o(
                       v.ent_contents(ks), v.ent(kn).e))
      for ko in L.lists(STR):
        yield ('text so far and of the rest',
               lambda v, ks=ks, kn=kn, ko=ko: M_STR.op(vocab.JOIN.of(
                   v.contents(ko)), TEXT.o(
                       v.contents(ks), v.val(kn).e)) == TEXT.o(
                           v.ent_contents(ks), v.ent(kn).e))


REVP = Hom('revpairs', PAIR, MR, lambda x: z3.Unit(x), is_reverse=True)
EMPTY = Hom('notext', PAIR, M_AND, lambda x: txt(x) == NOS)
# Going through the nodes: model tokens left, whether and what node K (an
# arbitrary one) was given, and whether some text did not agree.
K = z3.Int('SOME_NODE')
Q = TUP(PAIRS, BOOL, REAL, BOOL)
mk = sort_of(Q).constructor(0)
q_stack, q_has, q_val, q_bad = (packed.acc(Q, i) for i in range(4))
F, Tr = z3.BoolVal(False), z3.BoolVal(True)
BAD = mk(MP.unit, F, z3.RealVal(0), Tr)


def _walk(x, q):
  tok = packed.is_(x, 'TEXT_TOKEN_NODE')
  text = z3.If(tok, packed.tok_text(x), packed.dec_text(x))
  s, n = q_stack(q), z3.Length(text)
  here = z3.And(tok, packed.pre_i(x) == K)
  return z3.If(q_bad(q), q, z3.If(
      z3.Not(packed.is_(x, 'TEXT_TOKEN_NODE', 'TEXT_DECORATION_NODE')), q,
      z3.If(z3.PrefixOf(text, ALLTEXT.seq(s)), mk(
          LEFT.fo(s, n), z3.Or(q_has(q), here),
          z3.If(here, LP.fo(s, n), q_val(q)), F), BAD)))


WALK = Trans('assign', packed.ID, Q, _walk)
L_BAD = Lemma('an error stays', packed.ID, lambda L, q: z3.Implies(
    q_bad(q), L.q(WALK, q) == q), qt=Q)


# every token with its log probability, decorations with 0
LP_DOM = z3.Const('GIVEN', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
LP_VAL = z3.Const('LOG_PROBS', z3.ArraySort(z3.IntSort(), z3.RealSort()))
GIVEN = Hom('given', packed.ID, M_AND, lambda x: z3.Implies(
    packed.is_(x, 'TEXT_TOKEN_NODE'), z3.Select(LP_DOM, packed.pre_i(x))))
FLAT = Hom('flatlp', packed.ID, MP, lambda x: z3.If(
    packed.is_(x, 'TEXT_TOKEN_NODE'), z3.Unit(_p.mk(
        packed.tok_text(x), z3.Select(LP_VAL, packed.pre_i(x)))), z3.If(
            packed.is_(x, 'TEXT_DECORATION_NODE'), z3.Unit(_p.mk(
                packed.dec_text(x), z3.RealVal(0))), MP.unit)))


# the HTML view (escaping, replacing and formatting are uninterpreted)
_s = lambda t: z3.StringVal(Engine.zstr(t))
_pct = lambda r: z3.Function('str_Real', z3.RealSort(), z3.StringSort())(
    r * 100)
EXP = z3.Function('math_exp', z3.RealSort(), z3.RealSort())
HTML = Hom('lphtml', PAIR, M_STR, lambda x: z3.Concat(
    _s('<span style="background-color: rgb('), _pct(z3.RealVal(1)), _s('%, '),
    _pct(EXP(lp(x))), _s('%, '), _pct(EXP(lp(x))), _s('%)">'),
    regions.ESC(REPLACE_ALL(txt(x), _s('\n'), _s('\u21a9\n'))),
    _s('</span>')))


def at_k(L):
  for i, t in L.prefix_types():
    if t != packed.ID:
      continue
    for T, q0 in L.eng.trans:
      if T is not WALK or q0.eq(BAD):
        continue
      for k, kt in L.mods.items():
        if k[0] != 'dict':
          continue

        def f(v, i=i, k=k, q0=q0):
          q, d = WALK.q(v.tprefix(i), q0), v.st.dicts[k[1]]
          if d['dom'] is None:
            return z3.Not(q_has(q))
          return z3.And(q_has(q) == z3.Select(d['dom'], K), z3.Implies(
              q_has(q), q_val(q) == z3.Select(d['val'], K)))
        yield 'what node K was given', f


def contracts():
  cs = []
  n = lambda c: c.a('span_length').e

  def advance(c):
    s0 = stack(c, True)
    return [('text', c.res.items[0].e == TEXT.o(s0, n(c))),
            ('log probability', c.res.items[1].e == LP.o(s0, n(c))),
            ('what is left', stack(c).term() == LEFT.o(s0, n(c)))]
  cs.append(Contract(
      tp.SpanProbHelper.advance_by_length,
      {'self': HELPER, 'span_length': INT}, TUP(STR, REAL), advance,
      requires=lambda c: [('length', n(c) >= 0)], mutates=('self',),
      homs=[vocab.JOIN, ALLTEXT], lemmas=[L_DONE],
      trans=lambda c: [(T, z3.IntVal(-1)) for T in EATERS],
      cands=[remaining]))
  cs[-1].local_states, cs[-1].whiles = EATERS, True

  tok = lambda c: c.a('external_token').e

  def given(c):
    s0, m = stack(c, True), z3.Length(tok(c))
    return [('log probability', c.res.e == LP.o(s0, m)),
            ('what is left', stack(c).term() == LEFT.o(s0, m)),
            ('text', ALLTEXT.of(s0) == z3.Concat(
                tok(c), ALLTEXT.of(stack(c))))]
  cs.append(Contract(
      tp.SpanProbHelper.advance_and_get_log_prob_for,
      {'self': HELPER, 'external_token': STR}, REAL, given,
      mutates=('self',), homs=[ALLTEXT], lemmas=[L_SPAN],
      raises=lambda c: {'ValueError': z3.Not(z3.PrefixOf(
          tok(c), ALLTEXT.of(stack(c, True))))},
      trans=lambda c: [(T, z3.Length(tok(c))) for T in EATERS]))
  cs.append(Contract(
      tp.SpanProbHelper.assert_consumed, {'self': HELPER}, NONE,
      lambda c: [('unchanged', stack(c).term() == stack(c, True).term())],
      homs=[EMPTY, vocab.ALL],
      raises=lambda c: {'ValueError': z3.Not(EMPTY.of(stack(c, True)))}))

  ids = lambda c: c.a('parsed_sequence').items[1]

  def start(c):
    return mk(REVP.of(c.eng.contents(c.old, c.a(
        'surface_tokens_and_log_probs'))), F, z3.RealVal(0), F)

  def aligned(c):
    q, d = c.q(WALK, ids(c), start(c)), c.st.dicts[c.res.ref]
    if d['dom'] is None:
      return [('which nodes', z3.Not(q_has(q)))]
    return [('which nodes', z3.Select(d['dom'], K) == q_has(q)),
            ('log probability', z3.Implies(
                q_has(q), z3.Select(d['val'], K) == q_val(q)))]
  cs.append(Contract(
      tp.align_token_log_probs,
      {'surface_tokens_and_log_probs': PAIRS,
       'parsed_sequence': packed.STORAGE,
       'must_consume_all_model_tokens': BOOL}, DICT(INT, REAL), aligned,
      requires=lambda c: packed.storage_is(c, 'parsed_sequence') + [
          ('known ids', c.h(packed.WF, ids(c)))],
      raises=lambda c: {'ValueError': z3.Or(
          q_bad(c.q(WALK, ids(c), start(c))),
          z3.And(c.a('must_consume_all_model_tokens').e, z3.Not(EMPTY.seq(
              q_stack(c.q(WALK, ids(c), start(c)))))))},
      homs=[packed.WF, REVP, EMPTY, ALLTEXT], lemmas=[L_BAD],
      trans=lambda c: [(WALK, start(c)), (WALK, BAD)], cands=[at_k]))

  def flat(c):
    return [('tokens', c.term(c.res, PAIRS) == c.h(FLAT, ids(c)))]

  def known(c):
    d = c.st.dicts[c.a('token_log_probs_by_preorder_index').ref]
    return packed.storage_is(c, 'parsed_sequence') + [
        ('known ids', c.h(packed.WF, ids(c))),
        ('a log probability for every token', c.h(GIVEN, ids(c))),
        ('log probabilities', z3.And(d['dom'] == LP_DOM, d['val'] == LP_VAL))]
  cs.append(Contract(
      tp.flatten_token_log_probs_from_parsed,
      {'parsed_sequence': packed.STORAGE,
       'token_log_probs_by_preorder_index': DICT(INT, REAL)}, PAIRS, flat,
      requires=known, homs=[packed.WF, GIVEN, FLAT]))
  cs.append(Contract(
      tp.render_tokens_and_log_probs_to_html,
      {'surface_tokens_and_log_probs': PAIRS}, STR,
      lambda c: [('every token, escaped, in order', z3.And(
          z3.SuffixOf(z3.Concat(c.h(
              HTML, c.a('surface_tokens_and_log_probs')), z3.StringVal(
                  '</span>')), c.res.e)))],
      homs=[HTML, vocab.JOIN]))
  for c in cs:
    c.transducers = EATERS + ([WALK] if "align" in c.name else [])
  return cs


def exp(eng, st, args, kw, node):
  eng.notes.add('math.exp is an uninterpreted function, never negative')
  st.assume(EXP(args[0].e) >= 0)
  return [(st, V(REAL, EXP(args[0].e)))]


def handlers():
  return {**regions.handlers(), tp.math.exp: exp}
