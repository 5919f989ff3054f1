"""Runtime contracts of truncation inference."""
import itertools
from rt.parsing import *   # pylint: disable=wildcard-import
from rt import parsing as P

TLANGS = ('python', 'simple', 'cpp', 'java', 'javascript')


def leaves(root, raw, types, pair):
  """[(node, depth, end offset)] with the nesting depth in pair."""
  out = []
  pos = 0

  def depth_inc(n):
    l, m, r = n.children
    if pair is None:
      return 1
    if isinstance(pair[0], TT):
      return int(types[l.lo] == pair[0])
    return int(raw[l.lo] == pair[0] or raw[r.lo] == pair[1])

  def walk(n, d):
    nonlocal pos
    if not n.children:
      start = pos
      if n.hi != n.lo:
        pos += len(raw[n.lo])
      out.append((n, d, start, pos))
    for c in n.children:
      walk(c, d + (depth_inc(n) if c.annotation == 'middle' else 0))
  walk(root, 0)
  return out


def ref_match_index(root, raw, types, pair, cursor):
  total = sum(map(len, raw))
  if cursor == total:
    return total
  ls = leaves(root, raw, types, pair)
  i = next((i for i, l in enumerate(ls) if l[2] > cursor), None)
  if i is None or ls[i][1] == 0:
    return None
  d = ls[i][1]
  j = next((j for j in range(i, len(ls)) if ls[j][1] == d - 1), None)
  if j is None or j + 1 >= len(ls):
    return None
  return ls[j + 1][3]


def ref_split_index(root, raw, types, splitters, cursor):
  total = sum(map(len, raw))
  if cursor == total:
    return total
  for n, _, start, end in leaves(root, raw, types, None):
    if start > cursor and n.parent.annotation == 'split' and \
        n.parent.children[-1] is n and (
            splitters is None or raw[n.lo] in splitters):
      return end
  return total


class TruncRC(CodeRC):
  langs = TLANGS
  small = 2

  def exhaustive(self):
    for c in super().exhaustive():
      for k in range(len(c['code']) + 1):
        yield dict(c, cur=k, m=k)

  def gen(self, rng, n):
    c = super().gen(rng, n)
    L = len(c['code'])
    return dict(c, cur=rng.choice([0, L, max(0, L - 1)] if rng.random() < .1
                                  else [rng.randint(0, L)]),
                m=rng.randint(0, 9))


class MatchIndex(TruncRC):
  name = 'block truncation index'
  targets = ('utilities.infer_match_pair_truncation_index',)

  def check(self, case):
    root, toks, types, raw, _ = self.parse(case)
    if not 0 <= case['cur'] <= len(case['code']):
      raise Skip
    pair = [None, ('{', '}'), ('(', ')'),
            (TT.PYTHON_INDENT, TT.PYTHON_DEDENT)][case['m'] % 4]
    got = ut.infer_match_pair_truncation_index(
        root, raw, types, pair, case['cur'])
    want = ref_match_index(root, raw, types, pair, case['cur'])
    expect_eq(got, want, f'match pair {pair}')
    if got is not None:
      expect(case['cur'] <= got <= len(case['code']), 'index out of range')


class Parsed(TruncRC):
  name = 'what the truncation contracts assume of parses'
  targets = ('stack_parser.PseudoParser.parse_and_maybe_preprocess',)
  weight = .5

  def check(self, case):
    root, toks, types, raw, _ = self.parse(case)
    n = len(raw)
    expect(root.parent is None and len(types) == n, 'root and types')
    todo, chars = [root], 0
    while todo:
      x = todo.pop()
      todo += x.children
      if not x.children:
        if x.hi != x.lo:
          expect(0 <= x.lo < n, 'leaf out of range')
          chars += len(raw[x.lo])
        if n and case['code']:
          expect(x.parent is not None, 'leaf without a parent')
          expect(x.parent.annotation != 'split' or x.hi != x.lo,
                 'empty leaf of a statement')
      if any(c.annotation == 'middle' for c in x.children):
        expect_eq([c.annotation for c in x.children],
                  ['left', 'middle', 'right'], 'parts of a block')
        l, _, r = x.children
        expect(0 <= l.lo < n and 0 <= r.lo < n, 'brackets out of range')
        expect(types[l.lo] != TT.PYTHON_INDENT or
               types[r.lo] == TT.PYTHON_DEDENT, 'indent closed otherwise')
    expect_eq(chars, len(case['code']), 'the leaves hold the code')


class SplitIndex(TruncRC):
  name = 'statement truncation index'
  targets = ('utilities.infer_split_truncation_index',)

  def check(self, case):
    root, toks, types, raw, _ = self.parse(case)
    if not 0 <= case['cur'] <= len(case['code']):
      raise Skip
    sp_ = [(';',), ('\n',), (';', '\n'), None, ()][case['m'] % 5]
    got = ut.infer_split_truncation_index(root, raw, sp_, case['cur'])
    expect_eq(got, ref_split_index(root, raw, types, sp_, case['cur']),
              f'splitters {sp_}')
    expect(case['cur'] <= got <= len(case['code']), 'index out of range')


def ref_indents(code, cands):
  if not code:
    return 1
  _, _, types, raw, _ = sp.PseudoParser.parse_and_maybe_preprocess(
      'python', code, spaces_per_indent=1)
  lens = [len(raw[i]) for i in range(1, len(types))
          if types[i] == TT.WHITE_SPACE and raw[i] and
          types[i - 1] in (TT.PYTHON_INDENT, TT.PYTHON_DEDENT)]
  if not lens:
    return 1
  return max([1] + [c for c in cands if all(l % c == 0 for l in lens)])


class Indent(TruncRC):
  name = 'indent width inference'
  targets = ('utilities.infer_python_spaces_per_indent',)
  langs = ('python',)

  def exhaustive(self):
    for k in range(1, 4):
      for t in itertools.product((0, 1, 2, 3, 4, 6, 8, 9, 12), repeat=k):
        yield dict(code=''.join(' ' * i + 'x:\n' for i in t), m=k)

  def gen(self, rng, n):
    if rng.random() < .5:
      step = rng.choice([1, 2, 3, 4, 5, 8])
      return dict(code=''.join(' ' * (step * rng.randint(0, 4)) +
                               rng.choice(['x\n', 'f(a,\n b)\n', '\n'])
                               for _ in range(rng.randint(0, 7))),
                  m=rng.randint(0, 9))
    return dict(code=rcode(rng), m=rng.randint(0, 9))

  def check(self, case):
    code = case['code']
    expect_eq(ut.infer_python_spaces_per_indent(code),
              ref_indents(code, (1, 2, 3, 4)), 'default candidates')
    c = [(4, 2), (8, 4, 2), (2, 4, 8), (3,), (1, 2, 3, 4, 5, 6, 7, 8),
         (4, 3, 2, 1), (2, 6, 3)][case['m'] % 7]
    expect_eq(ut.infer_python_spaces_per_indent(code, c),
              ref_indents(code, c), f'candidates {c}')


class Fallbacks(TruncRC):
  name = 'truncation with fallbacks is total, in range and means what it says'
  targets = ('utilities.infer_truncation_with_fallbacks',)
  weight = 1.5

  def check(self, case):
    code, cur, lang = case['code'], case['cur'], case['lang']
    if not 0 <= cur <= len(code) or lang not in TLANGS:
      raise Skip
    auto = case['m'] % 2 == 0
    got = ut.infer_truncation_with_fallbacks(
        code, cur, lang, None if auto else case['spi'])
    expect(isinstance(got, int) and cur <= got <= len(code),
           'truncation index out of range', got)
    py = lang == 'python'
    spi = (ref_indents(code, (1, 2, 3, 4)) if auto else case['spi']) \
        if py else 1
    root, _, types, raw, _ = sp.PseudoParser.parse_and_maybe_preprocess(
        lang, code, spaces_per_indent=spi)
    want = ref_match_index(root, raw, types, (
        TT.PYTHON_INDENT, TT.PYTHON_DEDENT) if py else ('{', '}'), cur)
    if want is None:
      want = ref_split_index(root, raw, types, ('\n',) if py else (';',), cur)
    expect_eq(got, want, 'truncation index')


class Pydoc(RC):
  name = 'docstring truncation'
  targets = ('utilities.infer_truncation_pydocstring',)
  weight = .5

  def exhaustive(self):
    for k in range(6):
      for t in itertools.product(['"""', "'''", 'a', '"'], repeat=k):
        s = ''.join(t)
        for c in range(len(s) + 1):
          yield dict(code=s, cur=c)

  def gen(self, rng, n):
    s = ''.join(rng.choice(['"""', "'''", '"', "'", 'a', '\n', ' ', 'doc'])
                for _ in range(rng.randint(0, 14)))
    at = [i for i in range(len(s) + 1) if s[max(0, i - 3):i] in (
        '"""', "'''")]
    return dict(code=s, cur=rng.choice(at) if at else 0)

  def check(self, case):
    code, cur = case['code'], case['cur']
    if not 0 <= cur <= len(code):
      raise Skip
    q = code[max(0, cur - 3):cur]
    if q not in ('"""', "'''"):
      try:
        ut.infer_truncation_pydocstring(code, cur)
      except AssertionError:
        return
      raise Fail('no triple quote before the cursor, but no error')
    got = ut.infer_truncation_pydocstring(code, cur)
    want = next((i + 3 for i in range(cur, len(code) - 2)
                 if code[i:i + 3] == q), None)
    expect_eq(got, want, 'docstring end')


class Docstrings(RC):
  name = 'function docstring positions'
  targets = ('utilities.find_python_function_docstrings',)
  weight = .7

  def exhaustive(self):
    for step in (1, 2, 3, 4):
      for q in (0, 1):
        for depth in (0, 1, 2):
          for kind in (0, 1, 2, 3, 4, 7, 8):
            yield dict(fs=[[depth, kind, q]], step=step)

  def gen(self, rng, n):
    return dict(fs=[[rng.randint(0, 2), rng.randint(0, 8), rng.randint(0, 1)]
                    for _ in range(rng.randint(1, 4))],
                step=rng.choice([1, 2, 3, 4]))

  def check(self, case):
    step = case['step']
    if not isinstance(step, int) or not 1 <= step <= 4:
      raise Skip
    code, want = '', []
    level = 0
    for f in case['fs']:
      if len(f) != 3:
        raise Skip
      depth, kind, q = f
      depth = min(depth, level)
      q = ('"""', "'''")[q % 2]
      ind = ' ' * (step * depth)
      body = ind + ' ' * step
      code += ind + 'def f(a, b):\n'
      if kind == 0:
        want.append(len(code) + len(body) + 3)
        code += body + q + 'doc' + q + '\n' + body + 'pass\n'
      elif kind == 1:
        code += body + 'x = 1\n' + body + q + 'no' + q + '\n'
      elif kind == 2:
        code += body + 'return a\n'
      elif kind == 3:
        want.append(len(code) + len(body) + 3)
        code += body + q + 'multi\n' + body + 'line\n' + q + '\n'
      elif kind == 4:
        code += body + '"single"\n'
      elif kind == 5:
        code += body + 'y = ' + q + 'no' + q + '\n'
      elif kind == 7:      # not indented like a body
        code += ind + q + 'no' + q + '\n'
      elif kind == 8:
        code += body + 'def g():\n' + body + q + 'no' + q + '\n'
      else:
        code += body + '# c\n' + body + 'pass\n'
      level = depth + 1
    got = list(ut.find_python_function_docstrings(code))
    # the inferred width may be a multiple of the true one only if it divides
    if ref_indents(code, (1, 2, 3, 4)) != step:
      for i in got:
        expect(code[i - 3:i] in ('"""', "'''"), 'not a docstring start', i)
      return
    expect_eq(got, want, f'docstrings of {code!r}')


class DocstringsSound(Indent):
  name = 'reported docstrings follow a function signature'
  targets = ('utilities.find_python_function_docstrings',)
  weight = .5

  def gen(self, rng, n):
    return dict(code=rcode(rng), m=0)

  def check(self, case):
    code = case['code']
    got = list(ut.find_python_function_docstrings(code))
    expect(got == sorted(got), 'order', got)
    for i in got:
      expect(3 <= i <= len(code) and code[i - 3:i] in ('"""', "'''"),
             'not a docstring start', i)
      before = code[:i - 3]
      line = before[before.rfind('\n') + 1:] if '\n' in before else before
      expect(not line.strip(), 'docstring is not first on its line', line)
      expect('def ' in before, 'no function before the docstring')


def runtime_contracts():
  return [MatchIndex(), Parsed(), SplitIndex(), Indent(), Fallbacks(), Pydoc(),
          Docstrings(), DocstringsSound()]
