"""Runtime contract of the subtokenizer."""
import itertools
from rt.core import *   # pylint: disable=wildcard-import
from r_u_sure.parsing import subtokenizer
from r_u_sure.parsing import sequence_from_pseudo_parse as sfp
from r_u_sure.tree_structure import sequence_nodes as sn

SRC = ('r_u_sure/parsing/subtokenizer.py',)


def cls(c):
  return 'U' if c.isupper() else 'L' if c.islower() else \
      'N' if c.isdigit() else 'S'


def reference(code):
  """Split points from the documented rules."""
  n = len(code)
  k = [cls(c) for c in code]
  out, start = [], 0
  for i in range(1, n):
    a, b = k[i - 1], k[i]
    cut = False
    if a != b:
      cut = (a, b) != ('U', 'L')
    elif a == 'U':
      cut = i + 1 < n and k[i + 1] == 'L'
    elif a == 'S':
      if code[i] in ' \t' and code[i] == code[i - 1]:
        cut = i - start == 20
      else:
        cut = code[i].isspace() or code[i - 1].isspace()
    if cut:
      out.append(code[start:i])
      start = i
  if n:
    out.append(code[start:])
  return out


ALPH = 'AbC1_ \t\n.'
PIECES = ['foo', 'Bar', 'HTTPServer', 'x1', '_', '__', '12', '3.5', ' ', '  ',
          ' ' * 19, ' ' * 20, ' ' * 21, ' ' * 41, '\t', '\t' * 20, '\t' * 25,
          '\n', '\r\n', '\u00e9', '\u00c9', '\u00df', '\u00b2', '\u0660',
          '\u01c5', '\u4e2d', '\U0001f600', '.', ',;', '(', 'aB', 'ABc', 'A',
          'Ab', '\u00a0', '\u2028', '\x0b', ' \t', '\t ', '"', '#', '\x00']


class Subtok(RC):
  name = 'subtokenizer splits as documented and loses nothing'
  targets = ('subtokenizer.code_to_tokens_simple_lossless',)

  def exhaustive(self):
    for k in range(6):
      al = ALPH if k < 5 else 'Ab1_ '
      for t in itertools.product(al, repeat=k):
        yield dict(s=''.join(t))
    for c in ' \t\n_aA1':
      for k in list(range(1, 70)):
        yield dict(s=c * k)
        yield dict(s='x' + c * k + 'Y')
        yield dict(s='.' + c * k + '.')

  def gen(self, rng, n):
    strs, ints = mined(*SRC)
    r = rng.random()
    if r < .5:
      s = ''.join(rng.choice(PIECES) for _ in range(rng.randint(0, 10)))
    elif r < .7:
      s = ''.join(rng.choice(ALPH) for _ in range(rng.randint(0, 40)))
    elif r < .8:
      s = ''.join(rng.choice(PIECES + (strs or ['a']))
                  for _ in range(rng.randint(0, 8)))
    elif r < .9:
      m = rng.choice([i for i in ints if 0 < i < 300] or [20])
      s = rng.choice(['', 'a', '_']) + rng.choice(' \t\nAa_1') * (
          m * rng.randint(1, 3) + rng.randint(-1, 1)) + rng.choice('aA1_. ')
    else:
      s = ''.join(chr(rng.choice([rng.randint(0, 127), rng.randint(0, 0x2fff),
                                  rng.randint(0, 0xd7ff)]))
                  for _ in range(rng.randint(0, 12)))
    return dict(s=s)

  def check(self, case):
    s = case['s']
    got = subtokenizer.code_to_tokens_simple_lossless(s)
    expect_eq(''.join(got), s, 'tokens do not concatenate to the input')
    expect(all(got), 'empty token', got)
    expect_eq(list(got), reference(s), 'split points')


class SubtokNodes(Subtok):
  name = 'subtoken nodes'
  targets = ('sequence_from_pseudo_parse.subtokenize_token',)
  weight = .4

  def check(self, case):
    s = case['s']
    got = sfp.subtokenize_token(s)
    expect(all(type(x) is sn.TextTokenNode and x.match_type == 'subtoken'
               for x in got), 'node types', got)
    expect_eq([x.text_contents for x in got], reference(s), 'subtokens')


def runtime_contracts():
  return [Subtok(), SubtokNodes()]
