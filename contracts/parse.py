"""Contracts for parse trees: node text, node types, conversion."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc import core, engine
from pyvc.engine import Contract
from contracts import text, tree, vocab
import z3
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
from r_u_sure.parsing import sequence_from_pseudo_parse as sfp

PNODE = OBJ('PNode')
TT, NTY = ENUM(sp.TokenType), ENUM(sp.NodeType)
D = declare_class(ClassDecl('PNode', 'union', {sp.Node: {
    'lo': INT, 'hi': INT, 'annotation': STR, 'children': SEQ(PNODE)}}))
D.prepare()
lo, hi, ann, kids = (D.acc(f) for f in ('lo', 'hi', 'annotation', 'children'))

# the (arbitrary) tokens, token types and node kinds a tree is read with
TOK = z3.Const('TOKENS', sort_of(LIST(STR)))
TYPES = z3.Const('TOKEN_TYPES', sort_of(LIST(TT)))
_DOM = z3.ArraySort(z3.IntSort(), z3.BoolSort())
DECO, SUBT = z3.Const('DECORATION', _DOM), z3.Const('SUBTOKENIZE', _DOM)
N = z3.Length(TOK)


def cut(s, a, b):
  return z3.SubSeq(s, a, b - a)


def tx(a, b):
  return vocab.JOIN.seq(cut(TOK, a, b))


STRLIT = Hom('all_string', TT, M_AND, lambda t: t == int(
    sp.NodeType.STRING_LITERAL))
BLANK = z3.Function('re_blank', z3.StringSort(), z3.BoolSort())
_A = {'root': 'ROOT', 'paired': 'MATCH', 'left': 'MATCH_LEFT',
      'right': 'MATCH_RIGHT', 'middle': 'MATCH_INNER', 'split': 'SPLIT_GROUP'}


def ntype(x):
  k = {m.name: z3.IntVal(int(m)) for m in sp.NodeType}
  t = tx(lo(x), hi(x))
  r = z3.If(t == z3.StringVal(''), k['NON_CONTENT_LEAF'], z3.If(
      BLANK(t), k['WHITE_SPACE_LEAF'], z3.If(
          STRLIT.seq(cut(TYPES, lo(x), hi(x))), k['STRING_LITERAL'],
          k['CONTENT_LEAF'])))
  for a, n in _A.items():
    r = z3.If(ann(x) == z3.StringVal(a), k[n], r)
  return r


_name = z3.Function('name_NodeType', z3.IntSort(), z3.StringSort())


def nname(x):
  return tree._injstr(_name(ntype(x)))


nokids = lambda x: z3.Length(kids(x)) == 0
deco = lambda x: z3.Select(DECO, ntype(x))
subt = lambda x: z3.Select(SUBT, ntype(x))
group = lambda x: z3.Not(z3.Or(deco(x), subt(x), nokids(x)))

WF = Hom('wf', PNODE, M_AND, lambda x: z3.And(
    lo(x) >= 0, lo(x) <= hi(x), hi(x) <= N,
    z3.Or(*[ann(x) == z3.StringVal(a) for a in _A],
          z3.And(ann(x) == z3.StringVal('sibling'), nokids(x))),
    WF.seq(kids(x))))
SIZE = Hom('psize', PNODE, M_SUM, lambda x: 1 + SIZE.seq(kids(x)),
           inv=lambda v: v >= 0)
LOS = Hom('los', PNODE, M_SEQ(INT), lambda x: z3.Unit(lo(x)))
HIS = Hom('his', PNODE, M_SEQ(INT), lambda x: z3.Unit(hi(x)))
PTEXT = Hom('ptext', PNODE, M_STR, lambda x: tx(lo(x), hi(x)))
# contiguous from a position: the state is where the next child must start
PART = Trans('part', PNODE, INT, lambda x, q: hi(x), M_AND,
             lambda x, q: lo(x) == q)


def exact(x):
  """The children of x cover exactly its range, in order."""
  return z3.And(PART.fo(kids(x), lo(x)), PART.fq(kids(x), lo(x)) == hi(x))


VALID = Hom('exact', PNODE, M_AND, lambda x: z3.Implies(group(x), z3.And(
    exact(x), VALID.seq(kids(x)))))
CONV = Hom('conv', PNODE, tree.SEV, lambda x: z3.If(
    deco(x), z3.Unit(tree.ev(tree.E_DEC, tx(lo(x), hi(x)))), z3.If(
        subt(x), tree.U(tree.opn(nname(x)), text.TOKS.seq(
            text.split_spec(V(STR, tx(lo(x), hi(x))))), tree.CLS), z3.If(
                nokids(x), z3.Unit(tree.ev(
                    tree.E_TOK, tx(lo(x), hi(x)), nname(x))), tree.U(
                        tree.opn(nname(x)), CONV.seq(kids(x)), tree.CLS)))))

_Q2 = TUP(INT, INT)
_q2 = lambda a, b: sort_of(_Q2).mk(a, b)
_f = lambda q: (sort_of(_Q2).accessor(0, 0)(q), sort_of(_Q2).accessor(0, 1)(q))
# the comparison of shifted boundaries decides contiguity
L_BOUND = Lemma('boundaries', PNODE, lambda L, q: (
    z3.Concat(z3.Unit(_f(q)[0]), L(HIS)) ==
    z3.Concat(L(LOS), z3.Unit(_f(q)[1]))) == z3.And(
        L.o(PART, _f(q)[0]), L.q(PART, _f(q)[0]) == _f(q)[1]),
    qt=_Q2, ih=lambda L, x, q: [_q2(_f(q)[0], lo(x))])
# contiguous ranges: the texts of the nodes make up the text of the range
L_PTEXT = Lemma('contiguous text', PNODE, lambda L, q: z3.Implies(
    z3.And(L(WF), L.o(PART, q), 0 <= q, q <= N), z3.And(
        q <= L.q(PART, q), L.q(PART, q) <= N,
        L(PTEXT) == tx(q, L.q(PART, q)))), qt=INT,
    hints=lambda L, x, q: [
        hom_empty(vocab.JOIN, cut(TOK, q, q))] + ([] if x is None else [
        hom_split(vocab.JOIN, cut(TOK, q, hi(x)), cut(TOK, q, L.q(PART, q)),
                  cut(TOK, L.q(PART, q), hi(x)))]))


def reads(c, types=True):
  out = [('the tokens of the tree', c.term(c.a('tokens'), LIST(STR)) == TOK)]
  if types:
    out += [('the token types of the tree', c.term(
        c.a('token_types'), LIST(TT)) == TYPES),
            ('a type per token', z3.Length(TYPES) == N)]
  return out


def contracts():
  cs = list(text.contracts())
  cs.append(Contract(
      sp.Node.text, {'self': PNODE, 'tokens': LIST(STR)}, STR,
      lambda c: [('text of the range', c.e(c.res) == tx(
          lo(c.a('self').e), hi(c.a('self').e)))],
      requires=lambda c: reads(c, False) + [('range', z3.And(
          0 <= lo(c.a('self').e), lo(c.a('self').e) <= hi(c.a('self').e),
          hi(c.a('self').e) <= N))],
      homs=[vocab.JOIN]))
  cs.append(Contract(
      sp.Node.type, {'self': PNODE, 'tokens': LIST(STR),
                     'token_types': LIST(TT)}, NTY,
      lambda c: [('kind of node', c.e(c.res) == ntype(c.a('self').e))],
      requires=lambda c: reads(c) + [('well formed', c.h(WF, c.a('self')))],
      homs=[vocab.JOIN, vocab.ALL, STRLIT, WF]))
  conv_args = {'root': PNODE, 'tokens': LIST(STR), 'token_types': LIST(TT),
               'decoration_node_types': SET(NTY),
               'subtokenize_node_types': SET(NTY)}

  def dom(c, n):
    return c.st.dicts[c.a(n).ref]['dom']

  def conv(c):
    x = c.a('root').e
    return [('structure', c.h(tree.FULL, c.res) == CONV.node(x)),
            ('text', c.h(tree.TEXT, c.res) == tx(lo(x), hi(x)))]

  def pre(c):
    x = c.a('root').e
    k = Contents(PNODE, [Seg(kids(x))])
    c.st.assume(L_BOUND.at(k, _q2(lo(x), hi(x))), L_PTEXT.at(k, lo(x)))
    return reads(c) + [
        ('well formed', c.h(WF, c.a('root'))),
        ('decorations', dom(c, 'decoration_node_types') == DECO),
        ('to subdivide', dom(c, 'subtokenize_node_types') == SUBT)]
  cs.append(Contract(
      sfp.pseudo_parse_node_to_nested_sequence_node, conv_args, tree.NODE,
      conv, requires=pre,
      raises=lambda c: {'ValueError': z3.Not(c.h(VALID, c.a('root')))},
      decreases=lambda c: c.h(SIZE, c.a('root')),
      homs=[vocab.JOIN, tree.FULL, tree.TEXT, WF, SIZE, LOS, HIS, PTEXT,
            VALID, CONV, text.TOKS, text.NONEMPTY],
      lemmas=[text.L_STATE, text.L_TEXT, L_BOUND, L_PTEXT]))
  for c in cs[-3:]:
    c.transducers = [text.SPLIT, PART]
  return cs


def re_match(eng, st, r, args, kw, node):
  if r.o.pattern != r'^(\s+)$' or r.o.flags != 32 or len(args) != 1 or kw:
    raise Unsupported(f'regular expression {r.o.pattern!r}')
  eng.notes.add(r're: ^(\s+)$ is an uninterpreted predicate on texts')
  a = st.with_(BLANK(args[0].e))
  b = st.with_(z3.Not(BLANK(args[0].e)))
  return [(a, VPy(r.o)), (b, NONEV)]


def handlers():
  return {('Pattern', 'match'): re_match}
