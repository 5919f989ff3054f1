"""Runtime contracts for the pseudo parser (P01-P06, P13)."""
import copy
import itertools
import re
from rt.core import *   # pylint: disable=wildcard-import
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
from r_u_sure.parsing.pseudo_parser import utilities as ut
from r_u_sure.parsing import sequence_from_pseudo_parse as sfp
from r_u_sure.parsing import subtokenizer
from r_u_sure.tree_structure import sequence_nodes as sn

SRC = ('r_u_sure/parsing/pseudo_parser/stack_parser.py',
       'r_u_sure/parsing/pseudo_parser/utilities.py',
       'r_u_sure/parsing/sequence_from_pseudo_parse.py',
       'r_u_sure/parsing/subtokenizer.py')
LANGS = ('python', 'python_preprocessor', 'simple', 'cpp', 'java',
         'javascript')
TT = sp.TokenType
PAIRS = {'(': ')', '[': ']', '{': '}'}

ATOMS = ['a', 'foo', 'x1', '12', '3.14', '7.', '(', ')', '[', ']', '{', '}',
         ';', ',', '.', ':', '=', '+', '*', '/', ' ', '  ', '    ', '\t',
         '\n', '\n\n', '\n  ', '\n    ', '\n      ', '"', "'", '"""', "'''",
         '\\', '\\"', "\\'", '#', '# c', '//', '// c\n', '/*', '*/',
         '/* c */', '#include', '#define X 1\n', '#if', 'def f(a):\n  ',
         'return', 'if x:\n', 'class A:\n', "'s'", '"s;t"', '"""doc"""',
         '\r', '\r\n', '\f', '\v', '\x00', '\u00e9', '\u4e2d', '\u2028',
         '\u00a0', '\x85', '\ud800', '@', '$', '%', '&', '|', '!', '~', '`',
         '_', '__init__', 'A_B', '0x1F', '1e5', '\U0001f600', '\x1c', '\x1f']
LINES = ['def f(a, b):', 'if x:', 'else:', 'for i in range(3):', 'x = 1',
         'return x', 'foo(a,', 'bar)', 'y = [1,', '2]', '', '"""doc"""',
         "'''doc", "'''", '# comment', 'class A:', 'pass', 'while True:',
         'z = {', '}', 'print("a(b")', 'def g(x,\n      y):', 'a; b', ')',
         'int main() {', 'return 0;', '}', 'if (a) { b; }', '// c', '/* d */',
         'f(a, b);', 'x[1] = 2;', '#define A 1', '}}', '((']


def rcode(rng, n=0):
  r = rng.random()
  strs, _ = mined(*SRC)
  if r < .30:
    k = rng.randint(0, 8)
    return ''.join(rng.choice(ATOMS) for _ in range(k))
  if r < .45:
    k = rng.randint(5, 40)
    pool = rng.sample(ATOMS, 8) + ['\n', '(', ')']
    return ''.join(rng.choice(pool) for _ in range(k))
  if r < .55:
    pool = strs + ATOMS if strs else ATOMS
    return ''.join(rng.choice(pool) for _ in range(rng.randint(1, 10)))
  if r < .65:
    return ''.join(rng.choice('()[]{}a;\n ') for _ in range(
        rng.randint(0, 25)))
  out, ind = [], 0
  step = rng.choice([1, 2, 3, 4, 4, 2, 8])
  for _ in range(rng.randint(0, 9)):
    line = rng.choice(LINES)
    out.append(' ' * (ind * step + rng.choice([0, 0, 0, 0, 1, 2])) + line)
    if line.endswith((':', '{')) and rng.random() < .8:
      ind += 1
    elif ind and rng.random() < .4:
      ind -= rng.randint(1, ind)
    if rng.random() < .1:
      out.append(rng.choice(['', '  ', '\t', '    ']))
  s = '\n'.join(out)
  return s + ('\n' if rng.random() < .6 else '')


SMALL = ['(', ')', '[', '}', 'a', ';', '\n', ' ', '"', '#', '/']


def small_codes(n):
  for k in range(n + 1):
    for t in itertools.product(SMALL, repeat=k):
      yield ''.join(t)


class CodeRC(RC):
  langs = LANGS
  small = 3

  def exhaustive(self):
    for c in small_codes(self.small):
      for l in self.langs:
        yield dict(lang=l, code=c, spi=1)

  def gen(self, rng, n):
    return dict(lang=rng.choice(self.langs), code=rcode(rng, n),
                spi=rng.choice([1, 1, 2, 3, 4, 8]))

  def parse(self, case):
    if case['lang'] not in LANGS or case['spi'] < 1:
      raise Skip
    return sp.PseudoParser.parse_and_maybe_preprocess(
        case['lang'], case['code'], spaces_per_indent=case['spi'])


# ---------------------------------------------------------------- P01
class Lossless(CodeRC):
  name = 'parse is lossless and total'
  targets = ('stack_parser.PseudoParser.parse_and_maybe_preprocess',
             'stack_parser.PseudoParser.pseudo_parse',
             'stack_parser.RegexCodec.encode')

  def check(self, case):
    code = case['code']
    root, toks, types, raw, (npre, npost) = self.parse(case)
    expect_eq(''.join(raw), code, 'raw tokens do not concatenate to the code')
    expect(len(toks) == len(types) == len(raw), 'list lengths differ',
           len(toks), len(types), len(raw))
    expect((root.lo, root.hi) == (0, len(toks)), 'root range', root)
    expect(npre >= 0 and npost >= 0, 'negative counts')
    py = case['lang'] == 'python'
    special = (TT.PYTHON_INDENT, TT.PYTHON_DEDENT)
    core_i = [i for i, t in enumerate(types) if t not in special]
    if not py:
      expect(len(core_i) == len(toks), 'indent tokens outside python')
    m = len(core_i)
    expect(npre + npost <= m, 'counts exceed tokens')
    for j, i in enumerate(core_i):
      corr = j < npre or j >= m - npost
      if corr:
        expect_eq(raw[i], '', 'a correction token has raw text')
        expect(toks[i] != '', 'a correction token is empty')
      elif raw[i] != toks[i]:
        # only the newline the parser appended itself
        expect(py and toks[i] == '\n' and raw[i] == '' and
               not code.endswith('\n') and j == m - npost - 1,
               'raw token differs from token', i, raw[i], toks[i])
    for i, t in enumerate(types):
      expect(isinstance(t, TT), 'token type', t)
      if t in special:
        expect(toks[i] == '' == raw[i], 'indent token with text', toks[i])
        continue
      s = toks[i]
      expect(s != '', 'empty token')
      classify(s, t)


def classify(s, t):
  """Lexical classes of single characters never change with context."""
  if t == TT.NEWLINE:
    expect_eq(s, '\n', 'NEWLINE token')
  elif t == TT.TAB:
    expect_eq(s, '\t', 'TAB token')
  elif t == TT.WHITE_SPACE:
    expect(set(s) == {' '}, 'WHITE_SPACE token', s)
  elif t == TT.BRACE:
    expect(s in ('(', ')', '[', ']', '{', '}'), 'BRACE token', s)
  elif t == TT.OTHER:
    expect(len(s) == 1, 'OTHER token', s)
  elif t == TT.ID:
    expect(re.fullmatch('[A-Za-z0-9_]+', s) is not None, 'ID token', s)
  elif t == TT.NUMBER:
    expect(s[0].isdecimal(), 'NUMBER token', s)
  elif t == TT.OP:
    expect(s in '+-*/', 'OP token', s)
  elif t == TT.PUNC:
    expect(s in ',.;:=><', 'PUNC token', s)
  elif t == TT.STRING:
    expect(len(s) > 1 and s[0] in '"\'' and s[-1] == s[0], 'STRING token', s)
  elif t == TT.COMMENT_HASH:
    expect(s[0] == '#' and '\n' not in s, 'COMMENT_HASH', s)
  elif t == TT.COMMENT_SLASHSLASH:
    expect(s[:2] == '//' and '\n' not in s, 'COMMENT_SLASHSLASH', s)
  elif t == TT.C_PREPROCESSOR:
    expect(s[0] == '#', 'C_PREPROCESSOR', s)


class Codec(CodeRC):
  name = 'token codec round trip'
  targets = ('stack_parser.RegexCodec.encode',
             'stack_parser.RegexCodec.add_token',
             'stack_parser.RegexCodec.decode_token',
             'stack_parser.RegexCodec.decode_type')
  langs = LANGS[1:]

  def gen(self, rng, n):
    return dict(lang=rng.choice(self.langs), code=rcode(rng), spi=1,
                marks=rng.choice([0, 0, 1, 2, 3]),
                more=[rcode(rng) for _ in range(rng.randint(0, 3))])

  def check(self, case):
    if case['lang'] not in self.langs:
      raise Skip
    codec = sp.RegexCodec.preset(case['lang'])
    ids = {}
    marks = {}
    for step, code in enumerate([case['code']] + list(case.get('more', []))
                                + [case['code']]):
      enc, types = codec.encode(code)
      expect(len(enc) == len(types) <= len(code), 'token count')
      toks = codec.decode_token(enc)
      expect_eq(''.join(toks), code, 'decode(encode(code))')
      expect_eq(codec.decode_type(enc), list(types), 'types')
      for i, t, ty in zip(enc, toks, types):
        expect_eq(ids.setdefault(i, (t, ty)), (t, ty), 'index reused')
      for k in range(case.get('marks', 0) if step == 0 else 0):
        # marks without text, as the parser adds them for indentation
        ty = (sp.TokenType.PYTHON_INDENT, sp.TokenType.PYTHON_DEDENT)[k % 2]
        i = codec.add_token('', ty, non_unique=True)
        expect(i not in ids and i not in marks, 'a new mark has a new index')
        marks[i] = ty
      for i, ty in marks.items():
        expect_eq((codec.decode_token([i]), codec.decode_type([i])),
                  ([''], [ty]), 'a mark keeps its meaning')
    expect(len({t for t, _ in ids.values()}) == len(ids),
           'one token, two indices')
    if not marks:
      expect_eq(len(codec), len(ids), 'codec size')


# ---------------------------------------------------------------- trees
def tree(node):
  return (node.lo, node.hi, node.annotation,
          tuple(tree(c) for c in node.children))


def ref_match(tokens, pairs):
  """Reference bracket matcher (error tolerant); tokens must be corrected."""
  op = dict(reversed(pairs))   # first definition wins? see check
  closers = {}
  for o, c in pairs:
    closers[c] = o
  openers = {o for o, _ in pairs}
  stack = [[]]
  starts = []
  for i, t in enumerate(tokens):
    if t in openers:
      starts.append((i, t))
      stack.append([])
    elif t in closers and starts and closers[t] == starts[-1][1]:
      j, _ = starts.pop()
      mid = (j + 1, i, 'middle', tuple(stack.pop()))
      stack[-1].append((j, i + 1, 'paired', (
          (j, j + 1, 'left', ()), mid, (i, i + 1, 'right', ()))))
    elif t in closers and not starts:
      raise Skip
    else:
      stack[-1].append((i, i + 1, 'sibling', ()))
  if starts:
    raise Skip
  return (0, len(tokens), 'root', tuple(stack[0]))


def check_links(node, top=True):
  """Contiguity and parent links, bracket shape."""
  kids = node.children
  if kids:
    expect(kids[0].lo == node.lo and kids[-1].hi == node.hi,
           'children do not span the node', node, kids)
    for a, b in zip(kids, kids[1:]):
      expect_eq(a.hi, b.lo, 'gap or overlap between siblings')
    for c in kids:
      expect(c.parent is node, 'parent link', c)
      check_links(c)
  else:
    expect(node.hi is not None and 0 <= node.hi - node.lo <= 1 or
           node.annotation == 'root' and node.lo == node.hi,
           'leaf spans more than one token', node)
  if node.annotation == 'paired':
    expect([c.annotation for c in kids] == ['left', 'middle', 'right'],
           'bracket node without left, middle, right', node)
    expect(kids[0].hi - kids[0].lo == 1 == kids[2].hi - kids[2].lo,
           'bracket spans one token')
  if node.annotation in ('left', 'right', 'sibling'):
    expect(node.hi - node.lo == 1 and not kids, 'leaf range', node)


class Partition(CodeRC):
  name = 'parse tree partitions the tokens'
  targets = ('stack_parser.stack_based_bracket_match',
             'stack_parser.valid_parse_ranges', 'stack_parser.split_parse')

  def check(self, case):
    root, toks, types, raw, _ = self.parse(case)
    expect(root.parent is None and root.annotation == 'root', 'root')
    expect((root.lo, root.hi) == (0, len(toks)), 'root range', root)
    check_links(root)
    leaves = []

    def walk(n):
      if n.annotation == 'paired':
        l, r = n.children[0].lo, n.children[2].lo
        lt, rt = toks[l], toks[r]
        expect(types[l] == TT.PYTHON_INDENT and types[r] == TT.PYTHON_DEDENT
               or PAIRS.get(lt) == rt, 'brackets do not match', lt, rt)
      if not n.children:
        leaves.extend(range(n.lo, n.hi))
      for c in n.children:
        walk(c)
    walk(root)
    expect_eq(leaves, list(range(len(toks))), 'leaves in order')
    expect(sp.valid_parse_ranges(root, len(toks)), 'valid_parse_ranges')


PAIRSETS = [[('(', ')')], [('(', ')'), ('[', ']')],
            [('(', ')'), ('[', ']'), ('{', '}')],
            [('<', '>'), ('(', ')'), ('b', 'e')]]


def rtoks(rng, n):
  al = rng.choice(['()a', '()[]a', '()[]{}a;', '()[]{}a;\n', '<>()bea'])
  return [rng.choice(al) for _ in range(rng.randint(0, n))]


class Match(RC):
  name = 'bracket matcher equals the reference on corrected input'
  targets = ('stack_parser.stack_based_bracket_match',
             'stack_parser.error_correcting_prefix_and_suffix')

  def exhaustive(self):
    for k in range(6):
      for t in itertools.product('()[]a' if k < 6 else '()[', repeat=k):
        yield dict(toks=list(t), ps=1)

  def gen(self, rng, n):
    return dict(toks=rtoks(rng, 30), ps=rng.randint(0, 3))

  def check(self, case):
    pairs = PAIRSETS[case['ps'] % 4]
    toks = list(case['toks'])
    pre, suf = sp.error_correcting_prefix_and_suffix(list(toks), pairs)
    full = list(pre) + toks + list(suf)
    arg = list(full)
    root = sp.stack_based_bracket_match(arg, pairs, error_tolerant=True)
    expect_eq(arg, full, 'tokens were modified')
    try:
      want = ref_match(full, pairs)
    except Skip:
      raise Fail('correction did not balance the brackets')
    expect_eq(tree(root), want, 'bracket tree')
    check_links(root)
    expect(sp.valid_parse_ranges(root, len(full)) is True,
           'valid_parse_ranges rejects a valid tree')
    # strict mode
    bad = strict_error(full, pairs)
    try:
      r2 = sp.stack_based_bracket_match(list(full), pairs)
      expect(not bad, 'strict mode accepted mismatched brackets')
      expect_eq(tree(r2), want, 'strict tree')
    except sp.ParseError:
      expect(bad, 'strict mode rejected balanced brackets')


def strict_error(toks, pairs):
  closers = {c: o for o, c in pairs}
  openers = {o for o, _ in pairs}
  st = []
  for t in toks:
    if t in openers:
      st.append(t)
    elif t in closers and st:
      if st[-1] != closers[t]:
        return True
      st.pop()
  return bool(st)


class ValidRanges(RC):
  name = 'valid_parse_ranges accepts exactly the partitions'
  targets = ('stack_parser.valid_parse_ranges',)

  def exhaustive(self):
    for t in ('aa', 'a', '(a)', '(aa)a', ''):
      for mut in range(8):
        for at in range(8):
          for d in (-1, 1, 2):
            yield dict(toks=list(t), ps=0, mut=mut, at=at, d=d)

  def gen(self, rng, n):
    return dict(toks=rtoks(rng, 14), ps=rng.randint(0, 3),
                mut=rng.randint(0, 7), at=rng.randint(0, 40),
                d=rng.choice([-1, 1, 2]))

  def check(self, case):
    pairs = PAIRSETS[case['ps'] % 4]
    pre, suf = sp.error_correcting_prefix_and_suffix(list(case['toks']), pairs)
    full = list(pre) + list(case['toks']) + list(suf)
    root = sp.stack_based_bracket_match(list(full), pairs, error_tolerant=True)
    nodes = []

    def walk(n):
      nodes.append(n)
      for c in n.children:
        walk(c)
    walk(root)
    n = nodes[case['at'] % len(nodes)]
    m = case['mut']
    N = len(full)
    if m == 0:
      n.lo += case['d']
    elif m == 1:
      n.hi += case['d']
    elif m == 2 and n.children:
      del n.children[case['at'] % len(n.children)]
    elif m == 3 and n.parent is not None:
      n.parent = None
    elif m == 4:
      N += case['d']
    elif m == 5 and len(n.children) > 1:
      n.children.reverse()
    elif m in (6, 7):      # a boundary that is None, consistently
      b = n.lo if m == 6 else n.hi
      kinds = (0, 1) if case['d'] > 0 else (0,) if case['d'] == -1 else (1,)
      for x in nodes:
        if x is not root and x.lo == b and 0 in kinds:
          x.lo = None
        if x is not root and x.hi == b and 1 in kinds:
          x.hi = None
    want = ref_valid(root, N)
    expect_eq(bool(sp.valid_parse_ranges(root, N)), want,
              f'valid_parse_ranges on {tree(root)} n={N}')


def ref_valid(root, n):
  def ok(x):
    k = x.children
    if x.lo is None or x.hi is None:
      return False
    if not k:
      return True
    if k[0].lo != x.lo or k[-1].hi != x.hi:
      return False
    if any(a.hi != b.lo for a, b in zip(k, k[1:])):
      return False
    return all(c.parent is x and ok(c) for c in k)
  return root.lo == 0 and root.hi == n and ok(root)


# ---------------------------------------------------------------- P03
class Correction(RC):
  name = 'error correction balances the brackets'
  targets = ('stack_parser.error_correcting_prefix_and_suffix',)

  def exhaustive(self):
    for k in range(7):
      for t in itertools.product('()[]a' if k < 6 else '([)', repeat=k):
        yield dict(toks=list(t), ps=1)

  def gen(self, rng, n):
    return dict(toks=rtoks(rng, 40), ps=rng.randint(0, 3),
                ints=rng.random() < .3)

  def check(self, case):
    pairs = PAIRSETS[case['ps'] % 4]
    toks = list(case['toks'])
    if case.get('ints'):
      toks = [ord(t) for t in toks]
      pairs = [(ord(a), ord(b)) for a, b in pairs]
    arg = list(toks)
    pre, suf = sp.error_correcting_prefix_and_suffix(arg, list(pairs))
    expect_eq(arg, toks, 'tokens were modified')
    openers = [o for o, _ in pairs]
    closers = {c: o for o, c in pairs}
    expect(all(p in openers for p in pre), 'prefix has a non-opener', pre)
    expect(all(s in closers for s in suf), 'suffix has a non-closer', suf)
    stack = []

    def run(ts):
      under = 0
      for t in ts:
        if t in openers:
          stack.append(t)
        elif t in closers:
          if not stack:
            under += 1
          elif stack[-1] == closers[t]:
            stack.pop()
      return under
    under = run(list(pre) + toks)
    expect(under == 0, 'a closer is left without opener', pre)
    expect_eq(list(suf), [c for o in reversed(stack)
                          for (oo, c) in pairs if oo == o], 'suffix')
    expect(run(list(suf)) == 0 and not stack, 'not balanced')
    stack.clear()
    need_pre = run(toks)
    expect_eq(len(pre), need_pre, 'prefix is not minimal')
    expect_eq(len(suf), len(stack), 'suffix is not minimal')


class CorrectionInParse(CodeRC):
  name = 'parse reports the correction counts'
  targets = ('stack_parser.PseudoParser.pseudo_parse',)
  langs = LANGS[1:]

  def check(self, case):
    root, toks, types, raw, (npre, npost) = self.parse(case)
    n = len(toks)
    inner = toks[npre:n - npost]
    st, under = [], 0
    for t in inner:
      if t in PAIRS:
        st.append(t)
      elif t in PAIRS.values():
        if not st:
          under += 1
        elif PAIRS[st[-1]] == t:
          st.pop()
    expect_eq(npre, under, 'number of prepended openers')
    want = [PAIRS[o] for o in reversed(st)]
    if want and case['lang'] == 'python_preprocessor':
      want.append('\n')
    expect_eq(toks[n - npost:] if npost else [], want, 'appended closers')
    expect(all(t in PAIRS for t in toks[:npre]), 'prepended tokens')


# ---------------------------------------------------------------- P04
class Indents(CodeRC):
  name = 'indent and dedent tokens describe the indentation'
  targets = ('stack_parser.python_indent_dedent_desugar',)
  langs = ('python',)
  small = 0

  def exhaustive(self):
    al = ['a', ' ', '\n', '(', ')', '\t']
    for k in range(7):
      if k == 6:
        al = ['a', ' ', '\n']
      for t in itertools.product(al, repeat=k):
        yield dict(lang='python', code=''.join(t), spi=1)
    for k in range(1, 5):
      for t in itertools.product(range(0, 6), repeat=k):
        yield dict(lang='python', spi=2,
                   code=''.join(' ' * i + 'x\n' for i in t))

  def check(self, case):
    root, toks, types, raw, (npre, npost) = self.parse(case)
    spi = case['spi']
    depth = 0
    stack = []
    at_start = True
    i = 0
    n = len(toks)
    core_tokens = [t for t, ty in zip(toks, types)
                   if ty not in (TT.PYTHON_INDENT, TT.PYTHON_DEDENT)]
    pre = sp.PseudoParser.preset('python_preprocessor')
    code = case['code']
    if not code.endswith('\n'):
      code += '\n'
    expect_eq(core_tokens, list(pre.pseudo_parse(code)[1]),
              'tokens other than indents changed')
    # logical lines of the token stream without the inserted tokens
    line, line_depth = [], None
    for j in range(n):
      ty = types[j]
      if ty == TT.PYTHON_INDENT:
        depth += 1
        expect(not line and not stack, 'indent inside a line', j)
        continue
      if ty == TT.PYTHON_DEDENT:
        depth -= 1
        expect(depth >= 0, 'more dedents than indents')
        nxt = next((k for k in range(j, n) if types[k] != TT.PYTHON_DEDENT),
                   None)
        expect(nxt is not None and toks[nxt] == '\n' and not stack,
               'dedent not before a newline', j)
        if line_depth is None:
          line_depth = depth + 1
        continue
      t = toks[j]
      if not line:
        line_depth = depth
      line.append(t)
      if t in PAIRS:
        stack.append(t)
      elif t in PAIRS.values() and stack and PAIRS[stack[-1]] == t:
        stack.pop()
      if t == '\n' and not stack:
        s = ''.join(line)
        if not re.match(r'^(\s+)$', s):
          ws = len(re.match(r'(\s*)', s).group(0))
          expect_eq(line_depth, ws // spi, f'nesting of line {s!r}')
        line, line_depth = [], None
    expect_eq(depth, 0, 'indents and dedents do not balance')


# ---------------------------------------------------------------- P05
def ref_split(t, toks, splitters, unsplit):
  """Reference: tree tuple -> split tree tuple (without sub match)."""
  lo, hi, ann, kids = t
  if ann == 'paired':
    l, r = toks[kids[0][0]], toks[kids[-1][1] - 1]
    for a, b in unsplit:
      if a == l:
        if b == r:
          return t
        break
  new = []
  for k in kids:
    new.append(ref_split(k, toks, splitters, unsplit)
               if k[1] - k[0] > 1 else k)
  groups = [[]]
  for k in new:
    groups[-1].append(k)
    if k[1] - k[0] == 1 and toks[k[0]] in splitters:
      groups.append([])
  if len(groups) > 1 and ann != 'paired':
    new = [(g[0][0], g[-1][1], 'split', tuple(g)) for g in groups if g]
  return (lo, hi, ann, tuple(new))


def unsplit_tree(t):
  """Inlines every split node."""
  lo, hi, ann, kids = t
  out = []
  for k in kids:
    u = unsplit_tree(k)
    if u[2] == 'split':
      out.extend(u[3])
    else:
      out.append(u)
  return (lo, hi, ann, tuple(out))


class Split(RC):
  name = 'statement splitting only regroups'
  targets = ('stack_parser.split_parse', 'stack_parser.Node.copy')

  def exhaustive(self):
    for k in range(5):
      for t in itertools.product('(){;a', repeat=k):
        for u in (0, 1):
          yield dict(toks=list(t), u=u, s=0, sub=False)

  def gen(self, rng, n):
    return dict(toks=[rng.choice('()[]{}a;\n<>') for _ in range(
        rng.randint(0, 30))], u=rng.randint(0, 3), s=rng.randint(0, 3),
                sub=rng.random() < .5)

  def check(self, case):
    pairs = [('(', ')'), ('[', ']'), ('{', '}'), ('<', '>')]
    uns = [[], [('(', ')')], [('(', ')'), ('[', ']')],
           [('{', '}'), ('(', ')')]][case['u'] % 4]
    splitters = [[';'], [';', '\n'], ['\n'], []][case['s'] % 4]
    toks = list(case['toks'])
    pre, suf = sp.error_correcting_prefix_and_suffix(toks, pairs)
    toks = list(pre) + toks + list(suf)
    base = sp.stack_based_bracket_match(toks, pairs, error_tolerant=True)
    before = tree(base)
    keep = list(toks)
    sub = ('<', '>') if case['sub'] else None
    want = ref_split(before, toks, splitters, uns) if splitters else before
    if sub is not None and splitters:
      want = ref_sub(want, toks, sub)
    out = sp.split_parse(base, toks, splitters, uns, sub)
    expect_eq(tree(base), before, 'the input tree was modified')
    check_links(base)
    expect_eq(toks, keep, 'tokens were modified')
    expect(out is not base, 'result aliases the input tree')
    check_links(out)
    got = tree(out)
    expect_eq(unsplit_tree(got), before, 'splitting changed the structure')
    expect_eq(got, want, 'groups')


def ref_sub(t, toks, sub):
  """Reference for nesting matched blocks under the preceding group."""
  class N:
    pass

  def mk(t, parent):
    n = N()
    n.lo, n.hi, n.ann, n.parent = t[0], t[1], t[2], parent
    n.kids = [mk(k, n) for k in t[3]]
    return n

  def un(n):
    return (n.lo, n.hi, n.ann, tuple(un(k) for k in n.kids))
  root = mk(t, None)
  todo = []

  def find(n):
    if n.ann == 'paired' and toks[n.lo] == sub[0] and toks[n.hi - 1] == \
        sub[1] and n.parent is not None and n.parent.parent is not None:
      g, c = n.parent.parent, n.parent
      i = next(i for i, k in enumerate(g.kids) if k is c)
      if i > 0 and c.ann == 'split' and g.kids[i - 1].ann == 'split':
        todo.append((c, g.kids[i - 1]))
    for k in n.kids:
      find(k)
  find(root)
  if len({id(c) for c, _ in todo}) < len(todo) or \
      {id(c) for c, _ in todo} & {id(p) for _, p in todo}:
    raise Skip   # indentation never produces adjacent blocks
  for c, p in todo:
    f = N()
    f.lo, f.hi, f.ann, f.parent, f.kids = p.lo, p.hi, 'split', p, p.kids
    for k in f.kids:
      k.parent = f
    p.kids = [f, c]
    host = p.parent
    host.kids = [k for k in host.kids if k is not c]
    c.parent = p
    p.hi = c.hi
  return un(root)


class SplitInParse(CodeRC):
  name = 'statement splitting in the parser'
  targets = ('stack_parser.PseudoParser.parse_and_maybe_preprocess',)

  def check(self, case):
    root, toks, types, raw, _ = self.parse(case)
    lang = case['lang']
    t = tree(root)
    comment = {TT.COMMENT_SLASHSLASH, TT.COMMENT_SLASHSTAR}
    if lang == 'cpp':
      comment.add(TT.C_PREPROCESSOR)
    enders = {'python': ('\n',), 'python_preprocessor': ()}.get(lang, (';',))
    uns = {'python': '([', 'simple': '(['}.get(lang, '')

    def is_end(k):
      if k[1] - k[0] != 1 or k[3]:
        return False
      s = toks[k[0]]
      if s in enders and types[k[0]] not in (TT.PYTHON_INDENT,
                                             TT.PYTHON_DEDENT):
        return True
      return lang in ('cpp', 'java', 'javascript') and types[k[0]] in comment

    def walk(k, inside):
      lo, hi, ann, kids = k
      if ann == 'paired' and toks[lo] in uns and toks[lo]:
        inside = True
      if inside:
        expect(ann != 'split', 'statement group inside unsplittable brackets')
      if not inside and hi - lo > 1 and ann in (
          'root', 'middle') and lang != 'python_preprocessor':
        ends = [c for c in kids if is_end(c)]
        expect(not ends, f'an unsplit statement terminator in {k}', toks)
      if ann in ('root', 'middle') and kids and kids[0][2] == 'split':
        expect(all(c[2] == 'split' for c in kids), 'mixed groups')
        for c in kids[:-1]:
          last = c
          while last[2] == 'split' and last[3]:
            last = last[3][-1]
          expect(is_end(last), 'a group does not end with a terminator', c)
      if ann == 'split':
        for c in kids[:-1]:
          expect(not is_end(c), 'terminator inside a group', k)
      for c in kids:
        walk(c, inside)
    walk(t, False)


# ---------------------------------------------------------------- P06
def node_type_name(n, toks):
  s = ''.join(toks[n.lo:n.hi])
  if n.annotation == 'sibling':
    if not s:
      return 'NON_CONTENT_LEAF'
    if re.match(r'^(\s+)$', s):
      return 'WHITE_SPACE_LEAF'
    return None
  return {'root': 'ROOT', 'paired': 'MATCH', 'left': 'MATCH_LEFT',
          'right': 'MATCH_RIGHT', 'middle': 'MATCH_INNER',
          'split': 'SPLIT_GROUP'}[n.annotation]


class ToSequence(CodeRC):
  name = 'conversion to sequence nodes keeps text and structure'
  targets = (
      'sequence_from_pseudo_parse.pseudo_parse_node_to_nested_sequence_node',)
  small = 3

  def check(self, case):
    root, toks, types, raw, _ = self.parse(case)
    before = tree(root)
    out = sfp.pseudo_parse_node_to_nested_sequence_node(root, raw, types)
    expect_eq(tree(root), before, 'the parse tree was modified')

    def cmp(n, o):
      s = ''.join(raw[n.lo:n.hi])
      want = node_type_name(n, raw)
      if want == 'WHITE_SPACE_LEAF':
        expect(type(o) is sn.TextDecorationNode and o.text_contents == s,
               'whitespace leaf', s, o)
        return
      if type(o) is sn.GroupNode and o.match_type == 'STRING_LITERAL':
        expect(n.annotation == 'sibling', 'string literal group', n)
        subs = o.children
        expect(all(type(x) is sn.TextTokenNode and x.match_type == 'subtoken'
                   and x.text_contents for x in subs), 'subtokens', subs)
        expect_eq(''.join(x.text_contents for x in subs), s, 'subtoken text')
        return
      if not n.children:
        expect(type(o) is sn.TextTokenNode and o.text_contents == s,
               'leaf', s, o)
        if want is None:
          expect_eq(o.match_type, 'CONTENT_LEAF', 'leaf type')
        else:
          expect_eq(o.match_type, want, 'leaf type')
        return
      expect(type(o) is sn.GroupNode and o.match_type == want,
             'group', n, o if type(o) is not sn.GroupNode else o.match_type)
      expect_eq(len(o.children), len(n.children), 'number of children')
      for c, d in zip(n.children, o.children):
        cmp(c, d)
    cmp(root, out)

    def text(o):
      if isinstance(o, sn.GroupNode):
        return ''.join(map(text, o.children))
      return o.text_contents
    expect_eq(text(out), case['code'], 'text of the sequence')


class ToSequenceOptions(CodeRC):
  name = 'conversion honours the requested node types'
  targets = ToSequence.targets + (
      'sequence_from_pseudo_parse.subtokenize_token',)

  def gen(self, rng, n):
    return dict(super().gen(rng, n), dec=rng.randint(0, 1023),
                sub=rng.randint(0, 1023))

  small = 2

  def check(self, case):
    root, toks, types, raw, _ = self.parse(case)
    members = list(sp.NodeType)
    dec = {m for i, m in enumerate(members)
           if case.get('dec', 0) >> i & 1}
    sub = {m for i, m in enumerate(members)
           if case.get('sub', 0) >> i & 1}
    out = sfp.pseudo_parse_node_to_nested_sequence_node(
        root, raw, types, decoration_node_types=dec,
        subtokenize_node_types=sub)

    def cmp(n, o):
      s = ''.join(raw[n.lo:n.hi])
      nt = n.type(raw, types)
      if nt in dec:
        expect(type(o) is sn.TextDecorationNode and o.text_contents == s,
               'decoration', n, o)
      elif nt in sub:
        expect(type(o) is sn.GroupNode and o.match_type == nt.name,
               'subtoken group')
        expect_eq([(c.text_contents, c.match_type) for c in o.children],
                  [(x, 'subtoken') for x in
                   subtokenizer.code_to_tokens_simple_lossless(s)],
                  'subtokens')
      elif not n.children:
        expect(type(o) is sn.TextTokenNode and o.text_contents == s and
               o.match_type == nt.name, 'leaf', n, o)
      else:
        expect(type(o) is sn.GroupNode and o.match_type == nt.name, 'group')
        expect_eq(len(o.children), len(n.children), 'children')
        for c, d in zip(n.children, o.children):
          cmp(c, d)
    cmp(root, out)


class BadRanges(RC):
  name = 'conversion rejects trees that lose text'
  targets = ToSequence.targets

  def gen(self, rng, n):
    return dict(toks=rtoks(rng, 12), at=rng.randint(0, 30),
                d=rng.choice([-1, 1]), side=rng.randint(0, 2))

  def check(self, case):
    pairs = PAIRSETS[2]
    pre, suf = sp.error_correcting_prefix_and_suffix(list(case['toks']), pairs)
    full = list(pre) + list(case['toks']) + list(suf)
    root = sp.stack_based_bracket_match(full, pairs, error_tolerant=True)
    inner = []

    def walk(n):
      if n.children:
        inner.append(n)
      for c in n.children:
        walk(c)
    walk(root)
    if not inner:
      raise Skip
    n = inner[case['at'] % len(inner)]
    if case['side'] == 0:
      n.lo += case['d']
    elif case['side'] == 1:
      n.hi += case['d']
    else:
      del n.children[case['at'] % len(n.children)]
      if not n.children:
        raise Skip
    if ref_valid(root, len(full)):
      raise Skip
    try:
      sfp.pseudo_parse_node_to_nested_sequence_node(
          root, full, [TT.OTHER] * len(full))
    except ValueError:
      return
    # a broken range may only go unnoticed at the root's own outer bounds
    bad = []

    def look(x):
      if x.children:
        b1 = [x.lo] + [c.hi for c in x.children]
        b2 = [c.lo for c in x.children] + [x.hi]
        if b1 != b2:
          bad.append(x)
        for c in x.children:
          look(c)
    look(root)
    expect(not bad, 'a tree with lost text was accepted', bad)


class ArbitraryRanges(RC):
  name = 'conversion accepts exactly the trees that keep the text'
  targets = ToSequence.targets

  def exhaustive(self):
    rs = [(a, b) for a in range(3) for b in range(a, 3)]
    for k in range(1, 5):
      for t in itertools.product(rs, repeat=k):
        yield dict(n=2, lo=0, kids=[[a, b, []] for a, b in t])

  def gen(self, rng, n):
    m = rng.randint(1, 6)

    def part(lo, hi, d):
      cuts = sorted(rng.randint(lo, hi) for _ in range(rng.randint(0, 4)))
      cuts = [lo] + cuts + [hi]
      out = [[a, b, part(a, b, d - 1) if d and rng.random() < .4 else []]
             for a, b in zip(cuts, cuts[1:])]
      r = rng.random()
      if r < .1 and out:
        i = rng.randrange(len(out))
        out.insert(rng.randint(0, len(out)), list(out[i]))
      elif r < .2 and out:
        out.pop(rng.randrange(len(out)))
      elif r < .3:
        rng.shuffle(out)
      elif r < .35:
        out = out + [list(x) for x in out]
      elif r < .45 and out:
        i = rng.randrange(len(out))
        out[i][rng.randint(0, 1)] = rng.randint(lo, hi)
      return out
    return dict(n=m, lo=0, kids=part(0, m, 2))

  def check(self, case):
    m = case['n']
    toks = [chr(97 + i % 26) for i in range(m)]

    def build(lo, hi, kids, parent, ann):
      if not 0 <= lo <= hi <= m:
        raise Skip
      x = sp.Node(lo, hi, parent, ann)
      x.children = [build(a, b, ks, x, 'sibling' if not ks else 'split')
                    for a, b, ks in kids]
      return x
    if not case['kids']:
      raise Skip
    root = build(case['lo'], m, case['kids'], None, 'root')

    def good(x):
      if not x.children:
        return True
      b1 = [x.lo] + [c.hi for c in x.children]
      b2 = [c.lo for c in x.children] + [x.hi]
      return b1 == b2 and all(good(c) for c in x.children)
    try:
      out = sfp.pseudo_parse_node_to_nested_sequence_node(
          root, toks, [TT.ID] * m)
    except ValueError:
      expect(not good(root), 'a tree that keeps the text was rejected')
      return
    expect(good(root), 'a tree that loses or repeats text was accepted')

    def txt(o):
      return ''.join(map(txt, o.children)) if type(o) is sn.GroupNode \
          else o.text_contents
    expect_eq(txt(out), ''.join(toks), 'text of the converted tree')
