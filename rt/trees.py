"""JSON <-> sequence nodes, generators, and reference spec functions."""
import itertools
from rt.core import *   # pylint: disable=wildcard-import
from r_u_sure.tree_structure import sequence_nodes as sn

SRC = ('r_u_sure/tree_structure/transforms.py',
       'r_u_sure/tree_structure/sequence_node_helpers.py',
       'r_u_sure/tree_structure/sequence_nodes.py')
KINDS = {'S': sn.RegionStartNode, 'E': sn.RegionEndNode, 'X': sn.EarlyExitNode}


def build(js):
  out = []
  for j in js:
    if j[0] == 'T':
      out.append(sn.TextTokenNode(j[1], mtype(j[2])))
    elif j[0] == 'D':
      out.append(sn.TextDecorationNode(j[1]))
    elif j[0] == 'G':
      out.append(sn.GroupNode(build(j[1]), mtype(j[2])))
    else:
      out.append(KINDS[j[0]]())
  return out


def mtype(m):
  return tuple(mtype(x) for x in m) if isinstance(m, list) else m


def dump(nodes):
  """Structure of a node list as nested tuples (also validates types)."""
  if not isinstance(nodes, list):
    raise Fail(f'expected a list of nodes, got {type(nodes).__name__}')
  out = []
  for n in nodes:
    if type(n) is sn.TextTokenNode:
      out.append(('T', n.text_contents, n.match_type))
    elif type(n) is sn.TextDecorationNode:
      out.append(('D', n.text_contents))
    elif type(n) is sn.GroupNode:
      out.append(('G', dump(n.children), n.match_type))
    else:
      for k, c in KINDS.items():
        if type(n) is c:
          out.append((k,))
          break
      else:
        raise Fail(f'unexpected node {n!r:.100}')
  return tuple(out)


def sdump(js):
  """Same structure straight from the JSON case."""
  out = []
  for j in js:
    if j[0] == 'T':
      out.append(('T', j[1], mtype(j[2])))
    elif j[0] == 'D':
      out.append(('D', j[1]))
    elif j[0] == 'G':
      out.append(('G', sdump(j[1]), mtype(j[2])))
    else:
      out.append((j[0],))
  return tuple(out)


def text(d):
  return ''.join(n[1] if n[0] in 'TD' else text(n[1]) if n[0] == 'G' else ''
                 for n in d)


def strip(d):
  return tuple(('G', strip(n[1]), n[2]) if n[0] == 'G' else n
               for n in d if n[0] not in 'SEX')


def depth(d):
  return 1 + max([depth(n[1]) for n in d if n[0] == 'G'], default=0)


def leaves(d):
  out = []
  for n in d:
    out += leaves(n[1]) if n[0] == 'G' else [n]
  return tuple(out)


def valid(js):
  """Shape check for shrunk cases."""
  if not isinstance(js, list):
    raise Skip
  for j in js:
    if not isinstance(j, list) or not j:
      raise Skip
    k = j[0]
    if k == 'T' and len(j) == 3 and isinstance(j[1], str):
      _vm(j[2])
    elif k == 'D' and len(j) == 2 and isinstance(j[1], str):
      pass
    elif k == 'G' and len(j) == 3:
      valid(j[1])
      _vm(j[2])
    elif k in ('S', 'E', 'X') and len(j) == 1:
      pass
    else:
      raise Skip


def _vm(m):
  if isinstance(m, list):
    for x in m:
      _vm(x)
  elif not (m is None or isinstance(m, (str, int))):
    raise Skip


TEXTS = ['', 'a', 'b', 'ab', 'foo', ' ', '\n', '  ', '(', ')', '_x', '\u00e9',
         'a' * 81, 'x' * 77, 'y' * 80, '\t\n ', '"', "'", '\\']
TYPES = [None, 'id', 'kw', 'region_scope', 7, 0, '']


def rtext(rng):
  strs, _ = mined(*SRC)
  r = rng.random()
  if r < .75:
    return rng.choice(TEXTS[:12])
  if r < .85 and strs:
    return rng.choice(strs)
  if r < .9:
    return rng.choice(TEXTS)
  return ''.join(rng.choice('ab \n_1(é') for _ in range(rng.randint(1, 12)))


def rtype(rng):
  strs, ints = mined(*SRC)
  r = rng.random()
  if r < .8:
    return rng.choice(TYPES)
  if r < .9 and strs:
    return rng.choice(strs)
  if ints:
    return rng.choice(ints)
  return None


def rtree(rng, depth=4, width=5, kinds='TDSEXG'):
  out = []
  for _ in range(rng.randint(0, width)):
    k = rng.choice(kinds)
    if k == 'G' and depth > 0:
      w = 1 if rng.random() < .4 else width
      sub = rtree(rng, depth - 1, w, kinds)
      out.append(['G', sub, rtype(rng)])
    elif k == 'T':
      out.append(['T', rtext(rng), rtype(rng)])
    elif k == 'D':
      out.append(['D', rtext(rng)])
    elif k != 'G':
      out.append([k])
  return out


def sized(rng, n, kinds='TDSEXG'):
  r = rng.random()
  if r < .5:
    return rtree(rng, 2, 3, kinds)
  if r < .95:
    return rtree(rng, 4, 4, kinds)
  return rtree(rng, 3, 12, kinds)


def deep(rng, n=60):
  t = [['T', 'x', None]]
  for i in range(rng.randint(5, n)):
    t = [['G', t, i]] if rng.random() < .7 else \
        [['D', ' '], ['G', t, None], ['T', 'y', 'k']]
  return t


def small_trees(budget=3, kinds='TDSEXG', d=3):
  """All trees with at most `budget` nodes over tiny alphabets."""
  leaf = []
  for k in kinds:
    if k == 'T':
      leaf += [['T', 'a', None], ['T', 'bc', 'id']]
    elif k == 'D':
      leaf += [['D', ' ']]
    elif k != 'G':
      leaf += [[k]]
  memo = {}

  def seqs(n, dd):
    if (n, dd) in memo:
      return memo[(n, dd)]
    out = []
    if n == 0:
      out = [[]]
    else:
      for first in range(1, n + 1):
        heads = list(leaf) if first == 1 else []
        if dd > 0 and 'G' in kinds:
          for sub in seqs(first - 1, dd - 1):
            heads.append(['G', sub, 'g'])
        for rest in seqs(n - first, dd):
          for h in heads:
            out.append([h] + rest)
    memo[(n, dd)] = out
    return out
  for n in range(budget + 1):
    yield from seqs(n, d)
