"""Contracts for r_u_sure.tree_structure (sequence nodes and transforms)."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract, INJ_TUP, PRJ_TUP, IS_TUP
from contracts import vocab
import z3
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import sequence_node_helpers as snh
from r_u_sure.tree_structure import transforms as tr

NODE = OBJ('Node')
NODES = LIST(NODE)
D = declare_class(ClassDecl('Node', 'union', {
    sn.TextDecorationNode: {'text_contents': STR},
    sn.TextTokenNode: {'text_contents': STR, 'match_type': ANY},
    sn.RegionStartNode: {},
    sn.RegionEndNode: {},
    sn.EarlyExitNode: {},
    sn.GroupNode: {'children': SEQ(NODE), 'match_type': ANY},
}))
D.prepare()
T_DEC, T_TOK, T_RS, T_RE, T_EE, T_GRP = range(6)
tag, text, mt, kids = D.tag, D.acc('text_contents'), D.acc('match_type'), \
    D.acc('children')

# serialisation of a node sequence: one event per leaf, an opening and a
# closing event per group.  Two node sequences are equal (==) exactly when
# their serialisations are equal.
EV = TUP(INT, STR, ANY)
SEV = M_SEQ(EV)
_mk = sort_of(EV).mk
E_TOK, E_DEC, E_RS, E_RE, E_EE, E_OPEN, E_CLOSE = range(7)
NOMT = z3.Const('U_none', sort_of(ANY))
NOS = z3.StringVal('')


def U(*evs):
  us = [e if z3.is_seq(e) else z3.Unit(e) for e in evs]
  return us[0] if len(us) == 1 else z3.Concat(*us)


def ev(kind, s=NOS, m=NOMT):
  return _mk(z3.IntVal(kind), s, m)


EMPTY = z3.Empty(z3.SeqSort(sort_of(EV)))


def bytag(x, dec=None, tok=None, rs=None, re=None, ee=None, grp=None):
  r = grp
  for t, v in ((T_EE, ee), (T_RE, re), (T_RS, rs), (T_TOK, tok),
               (T_DEC, dec)):
    r = z3.If(tag(x) == t, v, r)
  return r


def tokev(x):
  return z3.Unit(ev(E_TOK, text(x), mt(x)))


def decev(x):
  return z3.Unit(ev(E_DEC, text(x)))


RSe, REe, EEe = (z3.Unit(ev(k)) for k in (E_RS, E_RE, E_EE))


def opn(m):
  return z3.Unit(ev(E_OPEN, NOS, m))


CLS = z3.Unit(ev(E_CLOSE))


def evhom(name, grp, tok=tokev, dec=decev, rs=RSe, re=REe, ee=EEe):
  return Hom(name, NODE, SEV, lambda x: bytag(
      x, dec(x), tok(x), rs, re, ee, grp(x)))


FULL = evhom('full', lambda x: U(opn(mt(x)), FULL.seq(kids(x)), CLS))
CONTENT = evhom('content', lambda x: U(opn(mt(x)), CONTENT.seq(kids(x)), CLS),
                rs=EMPTY, re=EMPTY, ee=EMPTY)
LEAVES = evhom('leaves', lambda x: LEAVES.seq(kids(x)))
TEXT = Hom('text', NODE, M_STR, lambda x: bytag(
    x, text(x), text(x), NOS, NOS, NOS, TEXT.seq(kids(x))))
SIZE = Hom('size', NODE, M_SUM, lambda x: 1 + z3.If(
    tag(x) == T_GRP, SIZE.seq(kids(x)), 0), inv=lambda v: v >= 0)
DEPTH = Hom('depth0', NODE, M_MAX0, lambda x: z3.If(
    tag(x) == T_GRP, 1 + DEPTH.seq(kids(x)), 0), inv=lambda v: v >= 0)
NGROUP = Hom('ngroup', NODE, M_SUM, lambda x: z3.If(
    tag(x) == T_GRP, 1 + NGROUP.seq(kids(x)), 0), inv=lambda v: v >= 0)

# what each transform must produce
EXIT_IN = evhom('exit_in', lambda x: U(
    opn(mt(x)), EXIT_IN.seq(kids(x)), CLS, EEe),
    tok=lambda x: U(tokev(x), EEe))
EXIT_OUT = evhom('exit_out', lambda x: U(
    opn(mt(x)), FULL.seq(kids(x)), CLS, EEe),
    tok=lambda x: U(tokev(x), EEe))
SINGLE = evhom('single', lambda x: U(
    opn(REGION_SCOPE), RSe, opn(mt(x)), SINGLE.seq(kids(x)), CLS, REe, CLS),
    tok=lambda x: U(opn(REGION_SCOPE), RSe, tokev(x), REe, CLS))
_injstr = z3.Function('inj_str', sort_of(STR), sort_of(ANY))
REGION_SCOPE = _injstr(z3.StringVal('region_scope'))
# subsequence regions, for an arbitrary node filter P
P = z3.Function('node_filter', sort_of(NODE), z3.BoolSort())


def _sub(allow):
  pre = U(RSe, REe) if allow else RSe
  tail = U(RSe, REe) if allow else EMPTY
  nm = 'sub_empty' if allow else 'sub_nonempty'

  def wrap(x, body):
    return z3.If(P(x), U(pre, body, REe), body)

  h = evhom(nm, lambda x: wrap(x, SEV.op(SEV.op(SEV.op(
      opn(mt(x)), h.seq(kids(x))), tail), CLS)),
            tok=lambda x: wrap(x, tokev(x)))
  return h, tail


(SUB_E, TAIL_E), (SUB_N, TAIL_N) = _sub(True), _sub(False)

# cutting off a prefix: state -1 once the cut is behind us, otherwise the
# number of characters still to be dropped
def _cut_q(x, q):
  n = z3.Length(text(x))
  return z3.If(q < 0, q, bytag(
      x, *[z3.If(q <= n, z3.IntVal(-1), q - n)] * 2, q, q, q,
      CUT.fq(kids(x), q)))


def _cut_ev(kind, x, q):
  n = z3.Length(text(x))
  whole = tokev(x) if kind == E_TOK else decev(x)
  m = mt(x) if kind == E_TOK else NOMT
  return z3.If(q < 0, whole, z3.If(
      q < n, z3.Unit(ev(kind, z3.SubString(text(x), q, n - q), m)), EMPTY))


def _cut_o(x, q):
  keep = lambda e: z3.If(q < 0, e, EMPTY)
  return bytag(
      x, _cut_ev(E_DEC, x, q), _cut_ev(E_TOK, x, q), keep(RSe), keep(REe),
      keep(EEe), z3.If(z3.Or(q < 0, CUT.fq(kids(x), q) < 0), U(
          opn(mt(x)), CUT.fo(kids(x), q), CLS), EMPTY))


def _cut_text(x, q):
  n = z3.Length(text(x))
  leaf = z3.If(q < 0, text(x), z3.If(
      q < n, z3.SubString(text(x), q, n - q), NOS))
  return bytag(x, leaf, leaf, NOS, NOS, NOS, CUT_TEXT.fo(kids(x), q))


CUT = Trans('cut', NODE, INT, _cut_q, SEV, _cut_o)
CUT_TEXT = Trans('cut', NODE, INT, _cut_q, M_STR, _cut_text)
CUT_TEXT.fo = z3.Function('o_cut_text', z3.SeqSort(sort_of(NODE)),
                          z3.IntSort(), z3.StringSort())


def _cut_gone(x, q):
  n = z3.Length(text(x))
  leaf = z3.If(q < 0, NOS, z3.If(q < n, z3.SubString(text(x), 0, q), text(x)))
  return bytag(x, leaf, leaf, NOS, NOS, NOS, CUT_GONE.fo(kids(x), q))


CUT_GONE = Trans('cut', NODE, INT, _cut_q, M_STR, _cut_gone)
CUT_GONE.fo = z3.Function('o_cut_gone', z3.SeqSort(sort_of(NODE)),
                          z3.IntSort(), z3.StringSort())
GKIDS = (lambda x: tag(x) == T_GRP, kids)
L_CUT_ALL = Lemma('after the cut everything is kept', NODE, lambda L, q:
                  z3.Implies(q == -1, z3.And(
                      L.q(CUT, q) == -1, L.o(CUT, q) == L(FULL),
                      L.o(CUT_TEXT, q) == L(TEXT),
                      L.o(CUT_GONE, q) == NOS)), qt=INT, kids=GKIDS)
L_CUT_NONE = Lemma('before the cut nothing is kept', NODE, lambda L, q:
                   z3.Implies(L.q(CUT, q) >= 0, z3.And(
                       L.o(CUT, q) == EMPTY, L.o(CUT_TEXT, q) == NOS)),
                   qt=INT, kids=GKIDS)
L_CUT_POS = Lemma('where the cut is', NODE, lambda L, q: z3.Implies(
    q >= 0, z3.Or(z3.And(L.q(CUT, q) == -1, q <= z3.Length(L(TEXT))), z3.And(
        L.q(CUT, q) == q - z3.Length(L(TEXT)), L.q(CUT, q) >= 0))),
                  qt=INT, kids=GKIDS, uses=(L_CUT_ALL,))
L_CUT_TEXT = Lemma('what is dropped and what remains is the text', NODE,
                   lambda L, q: z3.Implies(q >= -1, z3.And(
                       L(TEXT) == z3.Concat(L.o(CUT_GONE, q),
                                            L.o(CUT_TEXT, q)),
                       z3.Implies(z3.And(q >= 0, L.q(CUT, q) == -1),
                                  z3.Length(L.o(CUT_GONE, q)) == q))),
                   qt=INT, kids=GKIDS, uses=(
                       L_CUT_ALL, L_CUT_NONE, L_CUT_POS))
L_FULL_LEN = Lemma('every node has an event', NODE, lambda L, q:
                   z3.Length(L(FULL)) >= L.n)


def _cut_state(c):
  seen = c.cell('prefix_chars_seen_so_far')
  past = c.cell('past_start_point').e
  if isinstance(seen, VNone):
    return z3.If(past, z3.IntVal(-1), z3.IntVal(-2))
  left = c.outer['start_offset'].e - seen.e
  return z3.If(past, z3.IntVal(-1), z3.If(left < 0, z3.IntVal(-2), left))


def _cut_state0(c):
  return _cut_state(type('C', (), dict(cell=lambda s, n: c.cell0(n),
                                       outer=c.outer))())


def _cut_inner(c):
  s, q = c.a('nodes'), _cut_state0(c)
  for L in (L_CUT_ALL, L_CUT_NONE, L_CUT_POS):
    c.use(L, s, q)
  return [('nodes kept', c.h(FULL, c.res) == c.o(CUT, s, q)),
          ('text', c.h(TEXT, c.res) == c.o(CUT_TEXT, s, q)),
          ('state', _cut_state(c) == c.q(CUT, s, q)),
          ('nothing kept before the cut', z3.Implies(
              c.q(CUT, s, q) >= 0, c.len(c.res) == 0))]


def _cut(c):
  s, q = c.a('sequence'), c.a('start_offset').e
  for L in (L_CUT_TEXT, L_CUT_POS, L_CUT_NONE):
    c.use(L, s, q)
  t = c.h(TEXT, s)
  return [('nodes kept', c.h(FULL, c.res) == c.o(CUT, s, q)),
          ('text from the offset on', c.h(TEXT, c.res) == z3.SubString(
              t, q, z3.Length(t) - q))]


# collapsing groups with a single group or token child
def _single(x):
  k = kids(x)[0]
  return z3.And(tag(x) == T_GRP, z3.Length(kids(x)) == 1,
                z3.Or(tag(k) == T_GRP, tag(k) == T_TOK))


def _chain(name, monoid, here, extra=None):
  """Value at the end of the chain of single children of a node."""
  h = Hom(name, NODE, monoid, lambda x: z3.If(
      _single(x), h.seq(kids(x)) if extra is None else
      monoid.op(extra(x), h.seq(kids(x))), here(x)))
  return h


C_TAG = _chain('chain_tag', M_SUM, tag)
C_TEXT = _chain('chain_text', M_STR, lambda x: z3.If(
    tag(x) == T_TOK, text(x), NOS))
C_KIDS = _chain('chain_kids', SEV, lambda x: z3.If(
    tag(x) == T_GRP, MERGED.seq(kids(x)), EMPTY))
C_TYPES = _chain('chain_types', M_SEQ(ANY), lambda x: z3.Unit(mt(x)),
                 lambda x: z3.Unit(mt(x)))


def _merged(x):
  m = INJ_TUP(C_TYPES.node(x))
  r = z3.If(C_TAG.node(x) == T_GRP,
            U(opn(m), C_KIDS.node(x), CLS),
            z3.Unit(ev(E_TOK, C_TEXT.node(x), m)))
  return bytag(x, decev(x), r, RSe, REe, EEe, r)


MERGED = Hom('merged', NODE, SEV, _merged)


def _merge_node(c):
  x, r = c.a('node').e, c.res.e
  inner = z3.Or(tag(x) == T_GRP, tag(x) == T_TOK)
  return [('merged', FULL.node(r) == MERGED.node(x)),
          ('text', TEXT.node(r) == TEXT.node(x)),
          ('kept or merged', z3.Implies(inner, z3.And(
              tag(r) == C_TAG.node(x),
              mt(r) == INJ_TUP(C_TYPES.node(x)), IS_TUP(mt(r)),
              PRJ_TUP(mt(r)) == C_TYPES.node(x),
              z3.Or(tag(r) == T_GRP, tag(r) == T_TOK),
              z3.Implies(tag(r) == T_GRP, FULL.seq(kids(r)) ==
                         C_KIDS.node(x)),
              z3.Implies(tag(r) == T_TOK, text(r) == C_TEXT.node(x))))),
          ('others as they are', z3.Implies(z3.Not(inner), r == x))]


# debug rendering
def _sfn(kind, sort):
  return z3.Function(f'{kind}_' + str(sort).replace(' ', ''), sort,
                     z3.StringSort())


JOINSEP = z3.Function('joinsep', z3.StringSort(), z3.SeqSort(
    z3.StringSort()), z3.StringSort())
REPR = _sfn('repr', z3.StringSort())
STR_ANY = _sfn('str', sort_of(ANY))
STR_OBJ = _sfn('str', sort_of(NODE))
LINE_INDENT = Hom('indent_lines', STR, M_SEQ(STR), lambda s: z3.Unit(
    z3.Concat(z3.StringVal('  '), s)))
E_STR = z3.Empty(z3.SeqSort(z3.StringSort()))


def zcat(*ss):
  return z3.Concat(*[z3.StringVal(x) if isinstance(x, str) else x
                     for x in ss])


def _summ(t):
  return z3.If(z3.Length(t) > 80, zcat(REPR(z3.SubString(t, 0, 77)), '...'),
               REPR(t))


def _header(kind, x):
  return z3.If(mt(x) == NOMT, z3.StringVal(kind + ': '),
               zcat(kind + '(', STR_ANY(mt(x)), '): '))


LINES = Hom('lines', NODE, M_SEQ(STR), lambda x: bytag(
    x, z3.Unit(zcat('DEC: ', _summ(text(x)))),
    z3.Unit(zcat(_header('TOK', x), _summ(text(x)))),
    *[z3.Unit(STR_OBJ(x))] * 3,
    z3.Concat(z3.Unit(zcat(_header('GROUP', x), _summ(TEXT.seq(kids(x))))),
              LINE_INDENT.seq(LINES.seq(kids(x))))))

# walking: the state is (path of the parent, position, visit before, after)
PATH = OBJ('Path')
DP = declare_class(ClassDecl('Path', 'record', {
    sn.NestedNodePath: {'path': SEQ(INT)}}))
VISIT = TUP(NODE, PATH, ENUM(snh.WalkTag))
WQ = TUP(PATH, INT, BOOL, BOOL)
MV = M_SEQ(VISIT)


def wq(*xs):
  return sort_of(WQ).mk(*xs)


def wqs(q):
  so = sort_of(WQ)
  return [so.accessor(0, i)(q) for i in range(4)]


def _walk_o(x, q):
  p, i, b, a = wqs(q)
  path = DP.ctor(z3.Concat(DP.acc('path')(p), z3.Unit(i)))
  one = lambda t: z3.Unit(sort_of(VISIT).mk(x, path, z3.IntVal(t.value)))
  none = MV.unit
  W = snh.WalkTag
  return z3.If(tag(x) == T_GRP, z3.Concat(
      z3.If(b, one(W.GROUP_BEFORE_CHILDREN), none),
      WALK.fo(kids(x), wq(path, z3.IntVal(0), b, a)),
      z3.If(a, one(W.GROUP_AFTER_CHILDREN), none)), one(W.LEAF))


def _walk_q(x, q):
  p, i, b, a = wqs(q)
  return wq(p, i + 1, b, a)


DP.prepare()
WALK = Trans('walk', NODE, WQ, _walk_q, MV, _walk_o)
L_WALK = Lemma('position', NODE, lambda L, q: L.q(WALK, q) == wq(
    wqs(q)[0], wqs(q)[1] + L.n, wqs(q)[2], wqs(q)[3]), qt=WQ)


def _walk_q0(c):
  return wq(c.a('prefix').e, z3.IntVal(0), c.a('visit_groups_before').e,
            c.a('visit_groups_after').e)


H = [FULL, CONTENT, LEAVES, TEXT, SIZE, DEPTH]


def _dec(ctx, name='sequence'):
  return ctx.h(SIZE, ctx.a(name))


def contracts():
  cs = []
  add = cs.append
  size_seq = lambda n: (lambda c: c.h(SIZE, c.a(n)))
  add(Contract(
      snh.compute_depth, {'node_sequence': NODES}, INT,
      lambda c: [('depth', c.res.e == 1 + c.h(DEPTH, c.a('node_sequence')))],
      decreases=size_seq('node_sequence'), homs=[DEPTH, SIZE]))
  add(Contract(
      snh.render_text_contents, [{'node': NODES}, {'node': NODE}], STR,
      lambda c: [('text', c.res.e == c.h(TEXT, c.a('node')))],
      decreases=lambda c: 2 * c.h(SIZE, c.a('node')) + (
          1 if isinstance(c.a('node'), VList) else 0),
      homs=[TEXT, SIZE, vocab.JOIN]))
  add(Contract(
      tr.flatten_groups, {'sequence': NODES}, NODES,
      lambda c: [('leaves', c.h(FULL, c.res) == c.h(LEAVES, c.a('sequence'))),
                 ('no groups', c.h(NGROUP, c.res) == 0),
                 ('text', c.h(TEXT, c.res) == c.h(TEXT, c.a('sequence')))],
      decreases=size_seq('sequence'),
      homs=[FULL, LEAVES, NGROUP, TEXT, SIZE]))
  add(Contract(
      tr.strip_decision_nodes, {'sequence': NODES}, NODES,
      lambda c: [
          ('content only', c.h(FULL, c.res) == c.h(CONTENT, c.a('sequence'))),
          ('content', c.h(CONTENT, c.res) == c.h(CONTENT, c.a('sequence'))),
          ('text', c.h(TEXT, c.res) == c.h(TEXT, c.a('sequence')))],
      decreases=size_seq('sequence'), homs=[FULL, CONTENT, TEXT, SIZE]))
  add(Contract(
      tr.insert_early_exit,
      {'sequence': NODES, 'allowed_within_group': BOOL,
       'allowed_at_start': BOOL}, NODES,
      lambda c: [
          ('spec', c.h(FULL, c.res) == SEV.op(
              z3.If(c.a('allowed_at_start').e, EEe, EMPTY),
              z3.If(c.a('allowed_within_group').e,
                    c.h(EXIT_IN, c.a('sequence')),
                    c.h(EXIT_OUT, c.a('sequence'))))),
          ('content', c.h(CONTENT, c.res) == c.h(CONTENT, c.a('sequence'))),
          ('text', c.h(TEXT, c.res) == c.h(TEXT, c.a('sequence')))],
      decreases=size_seq('sequence'),
      homs=[FULL, EXIT_IN, EXIT_OUT, CONTENT, TEXT, SIZE]))
  add(Contract(
      tr.insert_region_options_around_subsequences,
      {'sequence': NODES, 'allow_empty_regions': BOOL,
       'node_filter': ('ufun', P, (NODE,), BOOL)}, NODES,
      requires=lambda c: [('filter passed on', z3.BoolVal(
          isinstance(c.a('node_filter'), VFun) and
          c.a('node_filter').fn.eq(P)))],
      ensures=
      lambda c: [
          ('spec', c.h(FULL, c.res) == z3.If(
              c.a('allow_empty_regions').e,
              SEV.op(c.h(SUB_E, c.a('sequence')), TAIL_E),
              c.h(SUB_N, c.a('sequence')))),
          ('content', c.h(CONTENT, c.res) == c.h(CONTENT, c.a('sequence'))),
          ('text', c.h(TEXT, c.res) == c.h(TEXT, c.a('sequence')))],
      decreases=size_seq('sequence'),
      homs=[FULL, SUB_E, SUB_N, CONTENT, TEXT, SIZE]))
  add(Contract(
      tr.insert_region_options_around_single_nodes,
      {'sequence': NODES}, NODES,
      lambda c: [
          ('spec', c.h(FULL, c.res) == c.h(SINGLE, c.a('sequence'))),
          ('text', c.h(TEXT, c.res) == c.h(TEXT, c.a('sequence')))],
      decreases=size_seq('sequence'),
      homs=[FULL, SINGLE, TEXT, SIZE]))
  merge = dict(homs=[FULL, MERGED, C_TAG, C_TEXT, C_KIDS, C_TYPES, TEXT,
                     SIZE], group='merge')
  add(Contract(
      tr.flatten_singleton_groups, {'sequence': NODES}, NODES, lambda c: [
          ('merged', c.h(FULL, c.res) == c.h(MERGED, c.a('sequence'))),
          ('text', c.h(TEXT, c.res) == c.h(TEXT, c.a('sequence')))],
      decreases=lambda c: 2 * c.h(SIZE, c.a('sequence')) + 1, **merge))
  add(Contract(
      tr.flatten_singleton_groups_for_node, {'node': NODE}, NODE, _merge_node,
      decreases=lambda c: 2 * c.h(SIZE, c.a('node')), **merge))
  add(Contract(
      snh.walk_with_paths,
      {'node_sequence': NODES, 'visit_groups_before': BOOL,
       'visit_groups_after': BOOL, 'prefix': PATH}, LIST(VISIT),
      lambda c: [('visits', c.term(c.res, LIST(VISIT)) == c.o(
          WALK, c.a('node_sequence'), _walk_q0(c)))],
      trans=lambda c: [(WALK, _walk_q0(c))], lemmas=[L_WALK],
      decreases=size_seq('node_sequence'), homs=[SIZE]))
  lines = lambda c: c.h(LINES, c.a('node'))
  rd = dict(homs=[LINES, LINE_INDENT, TEXT, SIZE, vocab.JOIN])
  add(Contract(
      snh._summarize_contents, {'contents': STR}, STR,
      lambda c: [('summary', c.res.e == _summ(c.a('contents').e))]))
  add(Contract(
      snh._render_debug_helper, {'node': NODE}, TUP(STR, LIST(STR)),
      lambda c: [('text', c.res.items[0].e == c.h(TEXT, c.a('node'))),
                 ('lines', c.term(c.res.items[1], LIST(STR)) == lines(c))],
      decreases=lambda c: c.h(SIZE, c.a('node')), **rd))
  add(Contract(
      snh.render_debug, [{'node': NODES}, {'node': NODE}], STR,
      lambda c: [('lines', c.res.e == JOINSEP(
          z3.StringVal('\n'), lines(c)))], **rd))
  cut = dict(homs=[FULL, TEXT, SIZE], lemmas=[
      L_CUT_ALL, L_CUT_NONE, L_CUT_POS, L_CUT_TEXT, L_FULL_LEN])
  add(Contract(
      tr.truncate_prefix_at_offset, {'nodes': NODES}, NODES, _cut_inner,
      nested='process_subsequence', outer={'start_offset': INT},
      cells={'past_start_point': BOOL, 'prefix_chars_seen_so_far': OPT(INT)},
      requires=lambda c: [('state', _cut_state(c) >= -1)],
      observe=_cut_state, decreases=size_seq('nodes'),
      trans=lambda c: [(CUT, _cut_state(c)), (CUT_TEXT, _cut_state(c))],
      **cut))
  add(Contract(
      tr.truncate_prefix_at_offset, {'sequence': NODES, 'start_offset': INT},
      NODES, _cut, requires=lambda c: [
          ('offset', c.a('start_offset').e >= 0)], **cut))
  for c in cs[-2:]:
    c.transducers = [CUT]
  return cs
