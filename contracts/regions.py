"""Contracts for showing a solution: tokens and the regions they are in."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract
from contracts import packed, vocab
from contracts.packed import ID, STORAGE, acc, code, dec_text, is_, pre_i, \
    tok_text
import z3
from r_u_sure.edit_distance_utility import region_decisions as rdec

MEMBER = OBJ('Member')
_M = declare_class(ClassDecl('Member', 'record', {
    rdec.TokenWithRegionMembership: {
        'token_or_decoration': STR, 'in_annotated_region': BOOL}}))
_M.prepare()
DC, DV = rdec.DecisionCategory, rdec.DecisionValue
KEY = NT(rdec.DecisionKey, INT, ENUM(DC))
CHOICES = DICT(KEY, ENUM(DV))
# the (arbitrary) decisions and marker
DOM = z3.Const('DECIDED', z3.ArraySort(sort_of(KEY), z3.BoolSort()))
VAL = z3.Const('DECISIONS', z3.ArraySort(sort_of(KEY), z3.IntSort()))
MARK = z3.Const('EMPTY_REGION_MARKER', z3.StringSort())


def key(x, kind):
  return sort_of(KEY).mk(pre_i(x), z3.IntVal(code(DC[kind])))


def yes(x, kind):
  return z3.Select(VAL, key(x, kind)) == code(DV.TRUE)


KINDS = {'REGION_START_NODE': 'REGION_SHOULD_START',
         'REGION_END_NODE': 'REGION_SHOULD_END',
         'EARLY_EXIT_NODE': 'SHOULD_EARLY_EXIT'}
DECIDED = Hom('decided', ID, M_AND, lambda x: z3.And(*[
    z3.Implies(is_(x, n), z3.Select(DOM, key(x, k)))
    for n, k in KINDS.items()]))
# inside a region; nothing shown yet in it; 0: going on, 1: stopped, 2: a
# region ends that was not started
Q = TUP(BOOL, BOOL, INT)
mk = sort_of(Q).constructor(0)
inr, emp, ph = (acc(Q, i) for i in range(3))
F, T = z3.BoolVal(False), z3.BoolVal(True)
Q0, STOP, BAD = (mk(F, F, z3.IntVal(i)) for i in range(3))
MM = M_SEQ(MEMBER)


def show(t, r):
  return z3.Unit(_M.ctor(t, r))


def starts(x):
  return z3.And(is_(x, 'REGION_START_NODE'), yes(x, 'REGION_SHOULD_START'))


def ends(x):
  return z3.And(is_(x, 'REGION_END_NODE'), yes(x, 'REGION_SHOULD_END'))


def exits(x):
  return z3.And(is_(x, 'EARLY_EXIT_NODE'), yes(x, 'SHOULD_EARLY_EXIT'))


def content(x):
  return is_(x, 'TEXT_DECORATION_NODE', 'TEXT_TOKEN_NODE')


def _step(x, q):
  return z3.If(ph(q) != 0, q, z3.If(
      content(x), mk(inr(q), F, ph(q)), z3.If(
          starts(x), mk(T, T, ph(q)), z3.If(
              ends(x), z3.If(inr(q), mk(F, F, ph(q)), BAD), z3.If(
                  exits(x), STOP, q)))))


def _out(x, q):
  return z3.If(ph(q) != 0, MM.unit, z3.If(
      is_(x, 'TEXT_DECORATION_NODE'), show(dec_text(x), inr(q)), z3.If(
          is_(x, 'TEXT_TOKEN_NODE'), show(tok_text(x), inr(q)), z3.If(
              z3.And(ends(x), inr(q), emp(q)), show(MARK, T), MM.unit))))


SHOW = Trans('show', ID, Q, _step, MM, _out)
L_OVER = Lemma('nothing is shown afterwards', ID, lambda L, q: z3.Implies(
    ph(q) != 0, z3.And(L.q(SHOW, q) == q, L.o(SHOW, q) == MM.unit)), qt=Q)


# the HTML view: highlighted runs of escaped texts
ESC = z3.Function('html_escape', z3.StringSort(), z3.StringSort())
_txt, _in = _M.acc('token_or_decoration'), _M.acc('in_annotated_region')
NOS, OPEN, CLOSE = (z3.StringVal(s) for s in (
    '', '<span class="in_region">', '</span>'))
HTML = Trans('html', MEMBER, BOOL, lambda m, q: _in(m), M_STR,
             lambda m, q: z3.Concat(
                 z3.If(z3.And(_in(m), z3.Not(q)), OPEN, NOS),
                 z3.If(z3.And(z3.Not(_in(m)), q), CLOSE, NOS), ESC(_txt(m))))


def contracts():
  ids = lambda c: c.a('prototype').items[1]

  def pre(c):
    d = c.st.dicts[c.a('assignments').ref]
    return packed.storage_is(c, 'prototype') + [
        ('known ids', c.h(packed.WF, ids(c))),
        ('decided', c.h(DECIDED, ids(c))),
        ('decisions', z3.And(d['dom'] == DOM, d['val'] == VAL)),
        ('marker', (c.a('empty_region_marker').e if 'empty_region_marker'
                    in c.args else z3.StringVal('\ufe19')) == MARK)]

  def ens(c):
    return [('shown', c.term(c.res, LIST(MEMBER)) == c.o(
        SHOW, ids(c), Q0))]
  cs = [Contract(
      rdec.extract_sequence_with_regions,
      {'prototype': STORAGE, 'assignments': CHOICES,
       'empty_region_marker': STR}, LIST(MEMBER), ens, requires=pre,
      raises=lambda c: {'AssertionError': ph(c.q(SHOW, ids(c), Q0)) == 2},
      homs=[packed.WF, DECIDED], lemmas=[L_OVER],
      trans=lambda c: [(SHOW, Q0), (SHOW, STOP), (SHOW, BAD)])]


  def page(c):
    s = Contents(MEMBER, [Seg(c.o(SHOW, ids(c), Q0))])
    return [('the marked texts, escaped, at the end', z3.SuffixOf(
        z3.Concat(HTML.o(s, F), z3.If(HTML.q(s, F), CLOSE, NOS), CLOSE),
        c.res.e))]
  cs.append(Contract(
      rdec.render_regions_to_html,
      {'prototype': STORAGE, 'assignments': CHOICES,
       'region_text_color': STR, 'region_border_color': STR,
       'region_background_color': STR}, STR, page, requires=pre,
      raises=cs[0].raises, homs=[packed.WF, DECIDED, vocab.JOIN],
      trans=lambda c: [(HTML, F), (SHOW, Q0)]))
  for c in cs:
    c.transducers = [SHOW]
  return cs


def escape(eng, st, args, kw, node):
  if len(args) != 1 or kw:
    raise Unsupported('html.escape options')
  eng.notes.add('html.escape is an uninterpreted function of the text')
  return [(st, V(STR, ESC(args[0].e)))]


def handlers():
  return {rdec.html.escape: escape}
