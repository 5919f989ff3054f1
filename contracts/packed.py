"""Contracts for packed node sequences: text, unpacking, traversal, regions."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract
from contracts import tree, vocab
import z3
from r_u_sure.tree_structure import packed_sequence_nodes as ps

CAT = ps.PackedSequenceNodeCategory
ID = NT(ps.PackedSequenceNodeID, INT, ENUM(CAT), INT)
DECN = NT(ps.PackedTextDecorationNode, STR)
TOKN = NT(ps.PackedTextTokenNode, STR, ANY)
GRPN = NT(ps.PackedGroupNode, LIST(ID), ANY)
POS = NT(ps.PositionInParent, INT, INT)
STORAGE = NT(ps.PackedSequenceNodeStorage, LIST(ID), LIST(ID), LIST(DECN),
             LIST(TOKN), LIST(GRPN), LIST(POS), LIST(INT), INT)
ITEM = NT(ps.InOrderTraversalItem, ENUM(ps.InOrderTraversalCategory), ID)

# the (arbitrary) storage that ids refer to
DECS = z3.Const('DECORATIONS', sort_of(LIST(DECN)))
TOKS = z3.Const('TEXT_TOKENS', sort_of(LIST(TOKN)))
GRPS = z3.Const('GROUPS', sort_of(LIST(GRPN)))


def acc(t, i):
  return sort_of(t).accessor(0, i)


pre_i, cat, idx = (acc(ID, i) for i in range(3))


def code(m):
  from pyvc.engine import Engine   # same numbering as the engine
  return Engine.enum_code(m)


def is_(x, *names):
  return z3.Or(*[cat(x) == code(CAT[n]) for n in names])


dec_text = lambda x: acc(DECN, 0)(DECS[idx(x)])
tok_text = lambda x: acc(TOKN, 0)(TOKS[idx(x)])
tok_type = lambda x: acc(TOKN, 1)(TOKS[idx(x)])
kids = lambda x: acc(GRPN, 0)(GRPS[idx(x)])
grp_type = lambda x: acc(GRPN, 1)(GRPS[idx(x)])


def bycat(x, dec, tok, grp, start, end, exit_, other=None):
  r = exit_ if other is None else other
  for n, v in (('TEXT_DECORATION_NODE', dec), ('TEXT_TOKEN_NODE', tok),
               ('GROUP_NODE', grp), ('REGION_START_NODE', start),
               ('REGION_END_NODE', end), ('EARLY_EXIT_NODE', exit_)):
    r = z3.If(is_(x, n), v, r)
  return r


def within(x, s):
  return z3.And(0 <= idx(x), idx(x) < z3.Length(s))


NOS = z3.StringVal('')
WF = Hom('idwf', ID, M_AND, lambda x: z3.And(
    z3.Implies(is_(x, 'TEXT_DECORATION_NODE'), within(x, DECS)),
    z3.Implies(is_(x, 'TEXT_TOKEN_NODE'), within(x, TOKS)),
    z3.Implies(is_(x, 'GROUP_NODE'), z3.And(
        within(x, GRPS), WF.seq(kids(x)))),
    z3.Not(is_(x, 'INVALID'))))
# the storage is a tree: ids have finitely many descendants
SIZE = Hom('idsize', ID, M_SUM, lambda x: 1 + z3.If(
    is_(x, 'GROUP_NODE'), zmax(SIZE.seq(kids(x)), 0), 0), inv=lambda v: v >= 0)
TEXT = Hom('idtext', ID, M_STR, lambda x: bycat(
    x, dec_text(x), tok_text(x), TEXT.seq(kids(x)), NOS, NOS, NOS))


# the tree an id stands for, and its traversal
_ev = tree.ev
FULL = Hom('idfull', ID, tree.SEV, lambda x: bycat(
    x, z3.Unit(_ev(tree.E_DEC, dec_text(x))),
    z3.Unit(_ev(tree.E_TOK, tok_text(x), tok_type(x))),
    tree.U(tree.opn(grp_type(x)), FULL.seq(kids(x)), tree.CLS),
    tree.RSe, tree.REe, tree.EEe))
MI = M_SEQ(ITEM)
_IC = ps.InOrderTraversalCategory


def item(k, x):
  return z3.Unit(sort_of(ITEM).mk(z3.IntVal(code(_IC[k])), x))


def _walk(strip):
  h = Hom('walk_stripped' if strip else 'walk_all', ID, MI, lambda x: z3.If(
      is_(x, 'GROUP_NODE'), z3.Concat(
          item('BEFORE_GROUP', x), h.seq(kids(x)), item('AFTER_GROUP', x)),
      z3.If(z3.And(strip, is_(x, 'TEXT_DECORATION_NODE')), MI.unit,
            item('LEAF', x))))
  return h


STRIPPED, ALL_ITEMS = _walk(True), _walk(False)


def storage_is(c, name='storage', s=None):
  s = (s or c.a(name)).items
  return [('decorations', c.term(s[2], LIST(DECN)) == DECS),
          ('tokens', c.term(s[3], LIST(TOKN)) == TOKS),
          ('groups', c.term(s[4], LIST(GRPN)) == GRPS)]


def contracts():
  cs = []
  add = cs.append
  rt = dict(homs=[TEXT, WF, SIZE, vocab.JOIN], group='text')
  add(Contract(
      ps.render_text_contents_of_node, {'node_id': ID, 'storage': STORAGE},
      STR, lambda c: [('text', c.res.e == TEXT.node(c.term(
          c.a('node_id'), ID)))],
      requires=lambda c: storage_is(c) + [
          ('known id', WF.node(c.term(c.a('node_id'), ID)))],
      decreases=lambda c: 2 * SIZE.node(c.term(c.a('node_id'), ID)), **rt))
  add(Contract(
      ps.render_text_contents_of_list,
      {'node_ids': LIST(ID), 'storage': STORAGE},
      STR, lambda c: [('text', c.res.e == c.h(TEXT, c.a('node_ids')))],
      requires=lambda c: storage_is(c) + [
          ('known ids', c.h(WF, c.a('node_ids')))],
      decreases=lambda c: 2 * c.h(SIZE, c.a('node_ids')) + 1, **rt))
  up = dict(homs=[FULL, WF, SIZE, TEXT, tree.FULL, tree.TEXT])
  x = lambda c: c.term(c.a('node_id'), ID)
  add(Contract(
      ps.unpack, {'node_id': ID}, tree.NODE,
      lambda c: [('structure', c.h(tree.FULL, c.res) == FULL.node(x(c))),
                 ('text', c.h(tree.TEXT, c.res) == TEXT.node(x(c)))],
      nested='build', outer={'storage': STORAGE},
      requires=lambda c: storage_is(c, s=c.outer['storage']) + [
          ('known id', WF.node(x(c)))],
      decreases=lambda c: SIZE.node(x(c)), **up))
  root = lambda c: c.a('storage').items[0]
  add(Contract(
      ps.unpack, {'storage': STORAGE}, tree.NODES,
      lambda c: [('structure', c.h(tree.FULL, c.res) == c.h(FULL, root(c))),
                 ('text', c.h(tree.TEXT, c.res) == c.h(TEXT, root(c)))],
      requires=lambda c: storage_is(c) + [
          ('known ids', c.h(WF, root(c)))], **up))
  walk = dict(homs=[STRIPPED, ALL_ITEMS, WF, SIZE])
  wants = lambda c, ids: z3.If(c.a('strip_decorations').e,
                               c.h(STRIPPED, ids), c.h(ALL_ITEMS, ids))
  add(Contract(
      ps._make_recursive_in_order_traversal,
      {'storage': STORAGE, 'node_ids': LIST(ID), 'dest': LIST(ITEM),
       'strip_decorations': BOOL}, NONE,
      lambda c: [('items', c.term(c.a('dest'), LIST(ITEM)) == MI.op(
          c.was(c.a('dest')).term(), wants(c, c.a('node_ids'))))],
      nested='do_in_order_traversal', mutates=('dest',),
      requires=lambda c: storage_is(c) + [
          ('known ids', c.h(WF, c.a('node_ids')))],
      decreases=lambda c: c.h(SIZE, c.a('node_ids')), **walk))
  add(Contract(
      ps.in_order_traversal,
      {'storage': STORAGE, 'strip_decorations': BOOL}, LIST(ITEM),
      lambda c: [('items', c.term(c.res, LIST(ITEM)) == wants(c, root(c)))],
      requires=lambda c: storage_is(c) + [
          ('known ids', c.h(WF, root(c)))], **walk))
  return cs
