"""Contracts for truncation points (pseudo_parser/utilities.py)."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract, Engine
from contracts import vocab
import z3
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
from r_u_sure.parsing.pseudo_parser import utilities as ut

PNODE = OBJ('TNode')
D = declare_class(ClassDecl('TNode', 'union', {sp.Node: {
    'lo': INT, 'hi': INT, 'parent': OPT(PNODE), 'annotation': STR,
    'children': SEQ(PNODE)}}))
D.prepare()
lo, hi, parent, ann, kids = (D.acc(f) for f in (
    'lo', 'hi', 'parent', 'annotation', 'children'))
D.eq = z3.Function('same_node', D.sort(), D.sort(), z3.BoolSort())
same = lambda a, b: z3.Or(a == b, D.eq(a, b))
_p = sort_of(OPT(PNODE))
TT = ENUM(sp.TokenType)
S = z3.StringVal
POS = OPT(INT)
_o = sort_of(POS)
F, T = z3.BoolVal(False), z3.BoolVal(True)
NOPOS, at, known, val = _o.none, _o.some, _o.is_some, _o.val


def acc(t, i):
  return sort_of(t).accessor(0, i)


# the (arbitrary) text and cursor
TOK = z3.Const('TOKENS_RAW', sort_of(LIST(STR)))
TYPES = z3.Const('TOKEN_TYPES', sort_of(LIST(TT)))
CUR = z3.Int('CURSOR')
N = z3.Length(TOK)
WIDTH = Hom('width', STR, M_SUM, lambda s: z3.Length(s),
            inv=lambda v: v >= 0)
TOTAL = WIDTH.seq(TOK)
leaf = lambda x: z3.Length(kids(x)) == 0
SIZE = Hom('tsize', PNODE, M_SUM, lambda x: 1 + SIZE.seq(kids(x)),
           inv=lambda v: v >= 0)


def chars(x):
  """Characters that a leaf adds."""
  return z3.If(z3.And(leaf(x), hi(x) != lo(x)), z3.Length(TOK[lo(x)]), 0)


# a leaf is one token or nothing; every leaf has a parent
WF = Hom('twf', PNODE, M_AND, lambda x: z3.And(z3.Implies(leaf(x), z3.And(
    _p.is_some(parent(x)),
    z3.Implies(hi(x) != lo(x), z3.And(0 <= lo(x), lo(x) < N)),
    z3.Implies(ann(_p.val(parent(x))) == S('split'), z3.And(
        hi(x) != lo(x), z3.Length(kids(_p.val(parent(x)))) > 0)))),
    WF.seq(kids(x))))
CHARS = Hom('tchars', PNODE, M_SUM, lambda x: chars(x) + CHARS.seq(kids(x)),
            inv=lambda v: v >= 0)

# ------------------------------------------------------------- traversal
ITEM = TUP(PNODE, POS)
mki = sort_of(ITEM).constructor(0)
i_node, i_pos = acc(ITEM, 0), acc(ITEM, 1)
MI = M_SEQ(ITEM)
DFT = Trans('preorder', PNODE, INT, lambda x, i: i + 1, MI,
            lambda x, i: z3.Concat(z3.Unit(mki(x, at(i))), DFT.fo(
                kids(x), z3.IntVal(0))))
L_COUNT = Lemma('positions', PNODE, lambda L, i: L.q(DFT, i) == i + L.n,
                qt=INT)


def visit(x, pos):
  return z3.Concat(z3.Unit(mki(x, pos)), DFT.fo(kids(x), z3.IntVal(0)))


ICHARS = Hom('ichars', ITEM, M_SUM, lambda p: chars(i_node(p)),
             inv=lambda v: v >= 0)
IWF = Hom('iwf', ITEM, M_AND, lambda p: z3.And(z3.Implies(
    leaf(i_node(p)), z3.And(
        _p.is_some(parent(i_node(p))),
        z3.Implies(hi(i_node(p)) != lo(i_node(p)), z3.And(
            0 <= lo(i_node(p)), lo(i_node(p)) < N)),
        z3.Implies(ann(_p.val(parent(i_node(p)))) == S('split'), z3.And(
            hi(i_node(p)) != lo(i_node(p)),
            z3.Length(kids(_p.val(parent(i_node(p))))) > 0))))))
L_DFT = Lemma('what is visited', PNODE, lambda L, i: z3.And(
    ICHARS.seq(L.o(DFT, i)) == L(CHARS), IWF.seq(L.o(DFT, i)) == L(WF)),
    qt=INT, kids=(lambda x: T, kids, lambda L, x, i: [z3.IntVal(0)]),
    hints=lambda L, x, i: sum([_out_hints(h, L, x, i) for h in (
        ICHARS, IWF)], []))


def _out_hints(h, L, x, i):
  e = MI.unit
  if x is None:
    return [hom_empty(h, e)]
  o, k = L.o(DFT, i), DFT.fo(kids(x), z3.IntVal(0))
  y = mki(x, at(L.q(DFT, i)))
  return [hom_empty(h, e), hom_snoc(h, z3.Unit(y), e, y),
          hom_split(h, z3.Concat(o, z3.Unit(y), k), o, z3.Unit(y), k)]



# --------------------------------------------- the end of the next statement
SPLS = SEQ(STR)
SPL = OPT(SPLS)
SPLIT = z3.Const('SPLITTERS', sort_of(SPL))
_s = sort_of(SPL)


def ends_split(x):
  p = _p.val(parent(x))
  return z3.And(_p.is_some(parent(x)), ann(p) == S('split'), same(
      kids(p)[z3.Length(kids(p)) - 1], x), z3.Or(
          SPLIT == _s.none, z3.Contains(_s.val(SPLIT), z3.Unit(TOK[lo(x)]))))


# characters so far; past the cursor; where
SQ = TUP(INT, BOOL, POS)
mks = sort_of(SQ).constructor(0)
s_idx, s_after, s_res = (acc(SQ, i) for i in range(3))


def _split(p, q):
  x = i_node(p)
  idx = s_idx(q) + chars(x)
  after = z3.Or(s_after(q), s_idx(q) > CUR)
  return z3.If(z3.Or(known(s_res(q)), z3.Not(leaf(x))), q, mks(
      idx, after, z3.If(z3.And(after, ends_split(x)), at(idx), NOPOS)))


NEXT = Trans('next_split', ITEM, SQ, _split)
L_STAY = Lemma('found', ITEM, lambda L, q: z3.Implies(
    known(s_res(q)), L.q(NEXT, q) == q), qt=SQ, later=NEXT)
L_RANGE = Lemma('in range', ITEM, lambda L, q: z3.Implies(
    z3.And(z3.Implies(s_after(q), s_idx(q) > CUR), z3.Not(known(s_res(q)))),
    z3.If(known(s_res(L.q(NEXT, q))), z3.And(
        val(s_res(L.q(NEXT, q))) > CUR,
        val(s_res(L.q(NEXT, q))) <= s_idx(q) + L(ICHARS)), z3.And(
            s_idx(L.q(NEXT, q)) == s_idx(q) + L(ICHARS), z3.Implies(
                s_after(L.q(NEXT, q)), s_idx(L.q(NEXT, q)) > CUR)))), qt=SQ)


# ------------------------------------------- the end of the enclosing block
# the pair: none given (any), two strings, or two token types
KIND = z3.Int('PAIR_KIND')
PL, PR = z3.Consts('PAIR_LEFT PAIR_RIGHT', z3.StringSort())
TL, TR = z3.Consts('PAIR_LEFT_TYPE PAIR_RIGHT_TYPE', sort_of(TT))
PAIR = ONEOF(NONE, TUP(STR, STR), TUP(TT, TT))
IS_MID = Hom('has_middle', PNODE, M_OR, lambda x: ann(x) == S('middle'))
left = lambda x: kids(x)[z3.IntVal(0)]
right = lambda x: kids(x)[z3.IntVal(2)]
BLOCKS = Hom('blocks', PNODE, M_AND, lambda x: z3.And(z3.Implies(
    IS_MID.seq(kids(x)), z3.And(
        z3.Length(kids(x)) == 3, ann(left(x)) == S('left'),
        ann(right(x)) == S('right'), *[z3.And(0 <= lo(y), lo(y) < N)
                                       for y in (left(x), right(x))],
        z3.Implies(z3.And(KIND == 2, TYPES[lo(left(x))] == TL),
                   TYPES[lo(right(x))] == TR))),
    z3.Implies(leaf(x), z3.Implies(hi(x) != lo(x), z3.And(
        0 <= lo(x), lo(x) < N))), BLOCKS.seq(kids(x))))


def more(x):
  """1 if the block that x makes of its middle counts."""
  return z3.If(z3.Or(
      KIND == 0, z3.And(KIND == 2, TYPES[lo(left(x))] == TL),
      z3.And(KIND == 1, z3.Or(TOK[lo(left(x))] == PL,
                              TOK[lo(right(x))] == PR))), 1, 0)


DITEM = TUP(PNODE, INT)
mkd = sort_of(DITEM).constructor(0)
d_node, d_depth = acc(DITEM, 0), acc(DITEM, 1)
MD = M_SEQ(DITEM)
DQ = TUP(INT, INT)          # depth of the parent, what its middle adds
mkdq = sort_of(DQ).constructor(0)
q_d, q_m = acc(DQ, 0), acc(DQ, 1)


def deeper(x, q):
  return q_d(q) + z3.If(ann(x) == S('middle'), q_m(q), 0)


def visit_d(x, d):
  return z3.Concat(z3.Unit(mkd(x, d)), DEEP.fo(kids(x), mkdq(d, more(x))))


DEEP = Trans('preorder_depth', PNODE, DQ, lambda x, q: q, MD,
             lambda x, q: visit_d(x, deeper(x, q)))
L_SAME = Lemma('same parent', PNODE, lambda L, q: L.q(DEEP, q) == q, qt=DQ)
DCHARS = Hom('dchars', DITEM, M_SUM, lambda p: chars(d_node(p)),
             inv=lambda v: v >= 0)
DWF = Hom('dwf', DITEM, M_AND, lambda p: z3.Implies(
    leaf(d_node(p)), z3.Implies(hi(d_node(p)) != lo(d_node(p)), z3.And(
        0 <= lo(d_node(p)), lo(d_node(p)) < N))))


def _d_hints(h, L, x, q):
  e = MD.unit
  if x is None:
    return [hom_empty(h, e)]
  d = deeper(x, L.q(DEEP, q))
  o, k = L.o(DEEP, q), DEEP.fo(kids(x), mkdq(d, more(x)))
  y = mkd(x, d)
  return [hom_empty(h, e), hom_snoc(h, z3.Unit(y), e, y),
          hom_split(h, z3.Concat(o, z3.Unit(y), k), o, z3.Unit(y), k)]


L_DEEP = Lemma('what is visited with depth', PNODE, lambda L, q: z3.And(
    DCHARS.seq(L.o(DEEP, q)) == L(CHARS),
    z3.Implies(L(BLOCKS), DWF.seq(L.o(DEEP, q)))), qt=DQ,
    kids=(lambda x: T, kids, lambda L, x, q: [mkdq(
        deeper(x, L.q(DEEP, q)), more(x))]),
    hints=lambda L, x, q: sum([_d_hints(h, L, x, q) for h in (
        DCHARS, DWF)], []))

# characters so far; depth at the cursor; the block has ended; stopped; where
BQ = TUP(INT, POS, BOOL, BOOL, POS)
mkb = sort_of(BQ).constructor(0)
b_idx, b_cur, b_fin, b_stop, b_res = (acc(BQ, i) for i in range(5))
B0 = mkb(z3.IntVal(0), NOPOS, F, F, NOPOS)


def _block(p, q):
  x, d = d_node(p), d_depth(p)
  idx = b_idx(q) + chars(x)
  found = z3.And(b_idx(q) > CUR, z3.Not(known(b_cur(q))))
  cur = z3.If(found, at(d), b_cur(q))
  return z3.If(z3.Or(b_stop(q), z3.Not(leaf(x))), q, z3.If(
      z3.And(found, d == 0), mkb(b_idx(q), cur, b_fin(q), T, NOPOS),
      z3.If(b_fin(q), mkb(idx, cur, T, T, at(idx)), mkb(
          idx, cur, z3.And(known(cur), d == val(cur) - 1), F, NOPOS))))


BLOCK = Trans('block_end', DITEM, BQ, _block)
L_STOP = Lemma('stopped', DITEM, lambda L, q: z3.Implies(
    b_stop(q), L.q(BLOCK, q) == q), qt=BQ, later=BLOCK)


def _inv(q, total):
  return z3.And(z3.Implies(known(b_cur(q)), b_idx(q) > CUR), z3.Implies(
      b_fin(q), known(b_cur(q))), b_idx(q) <= total, z3.If(
          known(b_res(q)), z3.And(CUR < val(b_res(q)),
                                  val(b_res(q)) <= total), T))


L_BRANGE = Lemma('block end in range', DITEM, lambda L, q: z3.Implies(
    _inv(q, b_idx(q)), _inv(L.q(BLOCK, q), b_idx(q) + L(DCHARS))), qt=BQ)


# ---------------------------------------------------------- what is parsed
PARSED = TUP(PNODE, LIST(STR), LIST(TT), LIST(STR), TUP(INT, INT))
_args = (z3.StringSort(), z3.StringSort(), _o)
RAWS_OF = z3.Function('raws_of', *_args, sort_of(LIST(STR)))
TYPES_OF = z3.Function('types_of', *_args, sort_of(LIST(TT)))
ROOT_OF = z3.Function('root_of', *_args, sort_of(PNODE))
SPACES = z3.Function('spaces_of', z3.StringSort(), z3.IntSort())


def tt(name):
  return z3.IntVal(Engine.enum_code(getattr(sp.TokenType, name)))


def what(c):
  n, lang, code = (c.a(x) for x in ('spaces_per_indent', 'language', 'code'))
  if isinstance(n, VNone):
    n = z3.If(lang.e == S('python'), at(SPACES(code.e)), NOPOS)
  else:
    n = at(n.e)
  return lang.e, code.e, n


def parsed(c):
  sp_ = c.a('spaces_per_indent')
  k = (c.a('language').e, c.a('code').e,
       NOPOS if isinstance(sp_, VNone) else at(sp_.e))
  root, _, types, raws, _ = c.res.items
  x = root.e
  return [('what', z3.And(
      c.term(raws, LIST(STR)) == RAWS_OF(*k),
      c.term(types, LIST(TT)) == TYPES_OF(*k), x == ROOT_OF(*k))),
          ('a root', parent(x) == _p.none),
          ('as many types', z3.Length(TYPES_OF(*k)) == z3.Length(
              RAWS_OF(*k))),
          ('holds the code', z3.Implies(TOK == RAWS_OF(*k), z3.And(
              TOTAL == z3.Length(c.a('code').e), CHARS.node(x) == TOTAL,
              z3.Implies(TOTAL > 0, WF.node(x))))),
          ('blocks', z3.Implies(z3.And(
              TOK == RAWS_OF(*k), TYPES == TYPES_OF(*k), TOTAL > 0, z3.Or(
                  KIND != 2, z3.And(TL == tt('PYTHON_INDENT'), TR == tt(
                      'PYTHON_DEDENT')))), BLOCKS.node(x)))]


def contracts():
  cs = []
  add = cs.append
  # -- traversal
  x = lambda c: c.a('node').e
  tr = dict(homs=[SIZE], lemmas=[L_COUNT])
  add(Contract(
      sp.Node.depth_first_traversal, {'node': PNODE, 'index': POS},
      LIST(ITEM), lambda c: [('in order, each once', c.term(
          c.res, LIST(ITEM)) == visit(x(c), c.term(c.a('index'), POS)))],
      nested='_traverse', decreases=lambda c: SIZE.node(x(c)),
      trans=lambda c: [(DFT, z3.IntVal(0))], **tr))
  r = lambda c: c.a('root').e

  def dft(c):
    k = DFT.fo(kids(r(c)), z3.IntVal(0))
    c.use(L_DFT, Contents(PNODE, [Seg(kids(r(c)))]), z3.IntVal(0))
    y = mki(r(c), NOPOS)
    for h in (ICHARS, IWF):
      c.st.assume(hom_empty(h, MI.unit), hom_snoc(h, z3.Unit(y), MI.unit, y),
                  hom_split(h, visit(r(c), NOPOS), z3.Unit(y), k))
    return [('in order, each once', c.term(
        c.res, LIST(ITEM)) == visit(r(c), NOPOS)),
            ('characters', c.h(ICHARS, c.res) == CHARS.node(r(c))),
            ('well formed', c.h(IWF, c.res) == WF.node(r(c)))]
  add(Contract(
      sp.Node.depth_first_traversal, {'cls': ('py', sp.Node), 'root': PNODE},
      LIST(ITEM), dft,
      requires=lambda c: [('a root', parent(r(c)) == _p.none)],
      homs=[SIZE, CHARS, WF, ICHARS, IWF], lemmas=[L_COUNT, L_DFT]))

  # -- the next statement
  def pre(c):
    return [('the tokens', c.term(c.a('tokens_raw'), LIST(STR)) == TOK),
            ('the cursor', c.a('cursor_position').e == CUR),
            ('in the text', z3.And(0 <= CUR, CUR <= TOTAL)),
            ('a root', parent(r(c)) == _p.none),
            ('well formed', z3.Implies(TOTAL > 0, WF.node(r(c)))),
            ('the leaves hold the text', CHARS.node(r(c)) == TOTAL)]

  def split(c):
    q0 = mks(z3.IntVal(0), F, NOPOS)
    ct = Contents(ITEM, [Seg(visit(r(c), NOPOS))])
    c.use(L_RANGE, ct, q0)
    q = NEXT.q(ct, q0)
    w = z3.If(CUR == TOTAL, TOTAL, z3.If(
        known(s_res(q)), val(s_res(q)), s_idx(q)))
    return [('the end of the next statement', c.e(c.res) == w),
            ('between the cursor and the end', z3.And(
                CUR <= c.e(c.res), c.e(c.res) <= TOTAL))]
  add(Contract(
      ut.infer_split_truncation_index,
      {'root': PNODE, 'tokens_raw': LIST(STR), 'splitters': SPL,
       'cursor_position': INT}, INT, split,
      requires=lambda c: pre(c) + [('the splitters', c.term(
          c.a('splitters'), SPL) == SPLIT)],
      homs=[WIDTH, vocab.SUM, WF, CHARS, IWF, ICHARS],
      trans=lambda c: [(NEXT, mks(z3.IntVal(0), F, NOPOS))],
      lemmas=[L_DFT, L_STAY, L_RANGE]))
  # -- the enclosing block
  def pair(c, v):
    if isinstance(v, VNone):
      return [('the pair', KIND == 0)]
    a, b = v.items
    if a.t == STR:
      return [('the pair', z3.And(KIND == 1, a.e == PL, b.e == PR))]
    return [('the pair', z3.And(KIND == 2, a.e == TL, b.e == TR))]
  rb = lambda c: c.a('node').e

  def deep(c):
    d = c.a('match_pair_depth').e
    k = DEEP.fo(kids(rb(c)), mkdq(d, more(rb(c))))
    c.use(L_DEEP, Contents(PNODE, [Seg(kids(rb(c)))]), mkdq(d, more(rb(c))))
    y = mkd(rb(c), d)
    for h in (DCHARS, DWF):
      c.st.assume(hom_empty(h, MD.unit), hom_snoc(h, z3.Unit(y), MD.unit, y),
                  hom_split(h, visit_d(rb(c), d), z3.Unit(y), k))
    return [('with their depths', c.term(c.res, LIST(
        DITEM)) == visit_d(rb(c), d)),
            ('characters', c.h(DCHARS, c.res) == CHARS.node(rb(c))),
            ('well formed', c.h(DWF, c.res))]
  lists = dict(tokens_raw=LIST(STR), token_types=LIST(TT))
  add(Contract(
      ut.infer_match_pair_truncation_index,
      {'node': PNODE, 'match_pair_depth': INT}, LIST(DITEM), deep,
      nested='_traverse', outer=dict(match_pair=PAIR, **lists),
      requires=lambda c: pair(c, c.outer['match_pair']) + [
          ('the tokens', c.term(c.outer['tokens_raw'], LIST(STR)) == TOK),
          ('their types', c.term(
              c.outer['token_types'], LIST(TT)) == TYPES),
          ('as many', z3.Length(TYPES) == N),
          ('blocks', BLOCKS.node(rb(c)))],
      decreases=lambda c: SIZE.node(rb(c)),
      trans=lambda c: [(DEEP, mkdq(c.a('match_pair_depth').e, more(rb(c))))],
      homs=[SIZE, BLOCKS, IS_MID, CHARS, DCHARS, DWF],
      lemmas=[L_SAME, L_DEEP]))

  def block(c):
    ct = Contents(DITEM, [Seg(visit_d(r(c), z3.IntVal(0)))])
    c.use(L_BRANGE, ct, B0)
    q = BLOCK.q(ct, B0)
    w = z3.If(CUR == TOTAL, at(TOTAL), b_res(q))
    v = c.term(c.res, POS)
    return [('the end of the block', v == w),
            ('between the cursor and the end', z3.Implies(known(v), z3.And(
                CUR <= val(v), val(v) <= TOTAL)))]
  add(Contract(
      ut.infer_match_pair_truncation_index,
      {'root': PNODE, **lists, 'match_pair': PAIR, 'cursor_position': INT},
      POS, block,
      requires=lambda c: [
          ('the tokens', c.term(c.a('tokens_raw'), LIST(STR)) == TOK),
          ('their types', c.term(c.a('token_types'), LIST(TT)) == TYPES),
          ('as many', z3.Length(TYPES) == N),
          ('the cursor', c.a('cursor_position').e == CUR),
          ('in the text', z3.And(0 <= CUR, CUR <= TOTAL)),
          ('blocks', z3.Implies(TOTAL > 0, BLOCKS.node(r(c)))),
          ('the leaves hold the text', CHARS.node(r(c)) == TOTAL)] + pair(
              c, c.a('match_pair')),
      homs=[WIDTH, vocab.SUM, BLOCKS, CHARS, DWF, DCHARS],
      trans=lambda c: [(BLOCK, B0)],
      lemmas=[L_DEEP, L_STOP, L_BRANGE]))
  # -- block, else statement
  add(Contract(
      sp.PseudoParser.parse_and_maybe_preprocess,
      {'cls': ('py', sp.PseudoParser), 'language': STR, 'code': STR,
       'spaces_per_indent': POS}, PARSED, parsed, trusted=True,
      note='a parse has blocks of three parts, one token per leaf, and holds '
      'the code (P01, P02, P04, checked at run time)'))
  add(Contract(
      ut.infer_python_spaces_per_indent, {'python_code': STR}, INT,
      lambda c: [('some number', c.e(c.res) == SPACES(c.a('python_code').e))],
      trusted=True, note='some function of the code'))

  def both(c):
    root = ROOT_OF(*what(c))
    q0 = mks(z3.IntVal(0), F, NOPOS)
    ct = Contents(DITEM, [Seg(visit_d(root, z3.IntVal(0)))])
    st = Contents(ITEM, [Seg(visit(root, NOPOS))])
    b, q = b_res(BLOCK.q(ct, B0)), NEXT.q(st, q0)
    n = z3.Length(c.a('code').e)
    return [('the block, else the statement', c.e(c.res) == z3.If(
        CUR == n, n, z3.If(known(b), val(b), z3.If(
            known(s_res(q)), val(s_res(q)), s_idx(q))))),
            ('between the cursor and the end', z3.And(
                CUR <= c.e(c.res), c.e(c.res) <= n))]
  add(Contract(
      ut.infer_truncation_with_fallbacks,
      {'code': STR, 'cursor_position': INT, 'language': STR,
       'spaces_per_indent': POS}, INT, both,
      requires=lambda c: [
          ('the cursor', c.a('cursor_position').e == CUR),
          ('in the text', z3.And(0 <= CUR, CUR <= z3.Length(
              c.a('code').e))),
          ('the tokens', z3.And(TOK == RAWS_OF(*what(c)),
                                TYPES == TYPES_OF(*what(c)))),
          ('blocks and statements of the language', z3.If(
              c.a('language').e == S('python'), z3.And(
                  KIND == 2, TL == tt('PYTHON_INDENT'),
                  TR == tt('PYTHON_DEDENT'),
                  SPLIT == _s.some(z3.Unit(S('\n')))), z3.And(
                      KIND == 1, PL == S('{'), PR == S('}'),
                      SPLIT == _s.some(z3.Unit(S(';'))))))],
      homs=[WIDTH]))

  # -- docstrings
  A, Q, R = z3.Strings('BEFORE QUOTES AFTER')

  def docstring(c):
    v = c.term(c.res, POS)
    return [('none when not closed', known(v) == z3.Contains(R, Q)),
            ('just behind the next quotes', z3.Implies(known(v), val(
                v) == CUR + z3.IndexOf(R, Q, 0) + 3)),
            ('between the cursor and the end', z3.Implies(known(v), z3.And(
                CUR + 3 <= val(v), val(v) <= z3.Length(c.a('code').e))))]
  add(Contract(
      ut.infer_truncation_pydocstring, {'code': STR, 'cursor_position': INT},
      POS, docstring, requires=lambda c: [
          ('the cursor', c.a('cursor_position').e == CUR),
          ('the text', z3.And(c.a('code').e == z3.Concat(A, Q, R),
                              z3.Length(A) == CUR - 3, z3.Length(Q) == 3))],
      raises=lambda c: {'AssertionError': z3.Not(z3.Or(
          Q == S('"""'), Q == S("'''")))}))
  for c in cs:
    c.transducers = [DFT, NEXT, DEEP, BLOCK]
  return cs
