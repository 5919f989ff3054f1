"""Runtime contracts over tree_structure.transforms / sequence_node_helpers."""
import copy
from rt.trees import *   # pylint: disable=wildcard-import
from r_u_sure.tree_structure import transforms as tr
from r_u_sure.tree_structure import sequence_node_helpers as snh


class TreeRC(RC):
  kinds = 'TDSEXG'
  flags = 0
  small = 3

  def exhaustive(self):
    for t in small_trees(self.small, self.kinds):
      for m in range(2 ** self.flags):
        yield dict(t=t, f=[bool(m >> i & 1) for i in range(self.flags)])

  def gen(self, rng, n):
    t = deep(rng) if rng.random() < .03 else sized(rng, n, self.kinds)
    return dict(t=t, f=[rng.random() < .5 for _ in range(self.flags)],
                k=rng.randint(0, 6))

  def check(self, case):
    valid(case['t'])
    if len(case['f']) != self.flags:
      raise Skip
    nodes = build(case['t'])
    before = sdump(case['t'])
    self.run(nodes, before, case)
    expect_eq(dump(nodes), before, f'{self.name}: the input was modified')


def expected_exit(d, within):
  out = []
  for n in d:
    if n[0] == 'G':
      out += [('G', expected_exit(n[1], True) if within else n[1], n[2]),
              ('X',)]
    elif n[0] == 'T':
      out += [n, ('X',)]
    else:
      out.append(n)
  return tuple(out)


class EarlyExit(TreeRC):
  name = 'insert_early_exit'
  targets = ('transforms.insert_early_exit',)
  flags = 2

  def run(self, nodes, d, case):
    within, start = case['f']
    got = dump(tr.insert_early_exit(nodes, allowed_within_group=within,
                                    allowed_at_start=start))
    want = ((('X',),) if start else ()) + expected_exit(d, within)
    expect_eq(got, want, 'insert_early_exit: wrong markers or content')
    if within and start:
      expect_eq(dump(tr.insert_early_exit(nodes)), want,
                'insert_early_exit defaults')


FILTERS = [
    ('none', lambda n: True),
    ('tokens', lambda n: isinstance(n, sn.TextTokenNode)),
    ('groups', lambda n: isinstance(n, sn.GroupNode)),
    ('never', lambda n: False),
    ('typed', lambda n: n.match_type == 'id'),
    ('short', lambda n: len(n.children) < 2 if isinstance(n, sn.GroupNode)
     else len(n.text_contents) > 1),
]


def fdump(n):
  return dump([n])[0]


def expected_sub(nodes, allow, filt):
  out = []
  for n in nodes:
    if isinstance(n, (sn.TextTokenNode, sn.GroupNode)):
      e = fdump(n) if isinstance(n, sn.TextTokenNode) else (
          'G', expected_sub(n.children, allow, filt), n.match_type)
      if filt(n):
        out += [('S',)] + ([('E',)] if allow else []) + [e, ('E',)]
      else:
        out.append(e)
    else:
      out.append(fdump(n))
  if allow:
    out += [('S',), ('E',)]
  return tuple(out)


class Subsequences(TreeRC):
  name = 'insert_region_options_around_subsequences'
  targets = ('transforms.insert_region_options_around_subsequences',)
  flags = 1

  def exhaustive(self):
    for c in super().exhaustive():
      yield c
    for t in small_trees(2, self.kinds):
      for k in range(len(FILTERS)):
        for a in (False, True):
          yield dict(t=t, f=[a], k=k)

  def run(self, nodes, d, case):
    allow, = case['f']
    seen = []
    _, filt = FILTERS[case.get('k', 0) % len(FILTERS)]

    def spy(n):
      seen.append(fdump(n))
      return filt(n)
    orig = build(case['t'])
    got = dump(tr.insert_region_options_around_subsequences(
        nodes, allow_empty_regions=allow, node_filter=spy))
    want = expected_sub(orig, allow, filt)
    expect_eq(got, want, 'insert_region_options_around_subsequences: wrong '
              'markers or content')
    for s in seen:
      expect(s[0] in 'TG', 'node filter consulted on a non-content node', s)
    if filt is FILTERS[0][1]:
      expect_eq(dump(tr.insert_region_options_around_subsequences(
          nodes, allow_empty_regions=allow)), want, 'default filter')


def expected_single(d):
  out = []
  for n in d:
    if n[0] in 'TG':
      e = n if n[0] == 'T' else ('G', expected_single(n[1]), n[2])
      out.append(('G', (('S',), e, ('E',)), 'region_scope'))
    else:
      out.append(n)
  return tuple(out)


class SingleNodes(TreeRC):
  name = 'insert_region_options_around_single_nodes'
  targets = ('transforms.insert_region_options_around_single_nodes',)

  def run(self, nodes, d, case):
    got = dump(tr.insert_region_options_around_single_nodes(nodes))
    expect_eq(got, expected_single(d),
              'insert_region_options_around_single_nodes: wrong result')


class Strip(TreeRC):
  name = 'strip_decision_nodes'
  targets = ('transforms.strip_decision_nodes',)

  def run(self, nodes, d, case):
    expect_eq(dump(tr.strip_decision_nodes(nodes)), strip(d),
              'strip_decision_nodes: must remove exactly the markers')


class StripOfInsert(TreeRC):
  name = 'strip after insert'
  targets = ('transforms.strip_decision_nodes', 'transforms.insert_*')
  flags = 3

  def run(self, nodes, d, case):
    a, b, c = case['f']
    x = tr.insert_region_options_around_subsequences(
        tr.insert_early_exit(nodes, allowed_within_group=a,
                             allowed_at_start=b), allow_empty_regions=c)
    expect_eq(dump(tr.strip_decision_nodes(x)), strip(d),
              'stripping the inserted markers does not give the content back')
    expect_eq(snh.render_text_contents(x), text(d),
              'markers changed the rendered text')


def balanced(d):
  """Region markers at one level: is every end preceded by an open start?"""
  for n in d:
    if n[0] == 'G':
      balanced(n[1])


class Flatten(TreeRC):
  name = 'flatten_groups'
  targets = ('transforms.flatten_groups',)

  def run(self, nodes, d, case):
    expect_eq(dump(tr.flatten_groups(nodes)), leaves(d),
              'flatten_groups: not the leaves in order')


def expected_singleton(n):
  if n[0] == 'G':
    if len(n[1]) == 1 and n[1][0][0] in 'GT':
      p = expected_singleton(n[1][0])
      return p[:2] + ((n[2],) + p[2],)
    return ('G', tuple(expected_singleton(c) for c in n[1]), (n[2],))
  if n[0] == 'T':
    return ('T', n[1], (n[2],))
  return n


class FlattenSingleton(TreeRC):
  name = 'flatten_singleton_groups'
  targets = ('transforms.flatten_singleton_groups',
             'transforms.flatten_singleton_groups_for_node')

  def run(self, nodes, d, case):
    want = tuple(expected_singleton(n) for n in d)
    got = dump(tr.flatten_singleton_groups(nodes))
    expect_eq(got, want, 'flatten_singleton_groups')


class Truncate(TreeRC):
  name = 'truncate_prefix_at_offset'
  targets = ('transforms.truncate_prefix_at_offset',)

  def exhaustive(self):
    for t in small_trees(3, self.kinds):
      for k in range(0, len(text(sdump(t))) + 2):
        yield dict(t=t, f=[], k=k)

  def gen(self, rng, n):
    t = deep(rng, 30) if rng.random() < .03 else sized(rng, n, self.kinds)
    L = len(text(sdump(t)))
    return dict(t=t, f=[], k=rng.randint(0, L + 1) if rng.random() < .9
                else rng.choice([0, L, L + 5]))

  def run(self, nodes, d, case):
    k = case['k']
    if not isinstance(k, int) or k < 0:
      raise Skip
    got = dump(tr.truncate_prefix_at_offset(nodes, k))
    want, _, _ = truncated(d, k)
    expect_eq(got, want, f'truncate_prefix_at_offset({k})')
    expect_eq(text(got), text(d)[k:], 'text after the cut')


def truncated(d, k):
  """Reference: (kept, past, chars seen) following the documented meaning."""
  past, seen = False, 0

  def go(ns):
    nonlocal past, seen
    out = []
    for n in ns:
      if n[0] == 'G':
        sub = go(n[1])
        if past:
          out.append(('G', sub, n[2]))
      elif n[0] in 'TD':
        if past:
          out.append(n)
        elif k - seen < len(n[1]):
          out.append((n[0], n[1][k - seen:]) + n[2:])
          past = True
        elif k - seen == len(n[1]):
          past = True
        else:
          seen += len(n[1])
      elif past:
        out.append(n)
    return tuple(out)
  r = go(d)
  return r, past, seen


class Depth(TreeRC):
  name = 'compute_depth'
  targets = ('sequence_node_helpers.compute_depth',)

  def run(self, nodes, d, case):
    expect_eq(snh.compute_depth(nodes), depth(d), 'compute_depth')


class Render(TreeRC):
  name = 'render_text_contents'
  targets = ('sequence_node_helpers.render_text_contents',)

  def run(self, nodes, d, case):
    expect_eq(snh.render_text_contents(nodes), text(d), 'rendered text')
    for n, e in zip(nodes, d):
      expect_eq(snh.render_text_contents(n), text((e,)), 'text of a node')


class Debug(TreeRC):
  name = 'render_debug'
  targets = ('sequence_node_helpers.render_debug',)

  def run(self, nodes, d, case):
    def summ(s):
      return repr(s[:77]) + '...' if len(s) > 80 else repr(s)

    def lines(n):
      k = n[0]
      if k == 'D':
        return ['DEC: ' + summ(n[1])]
      if k == 'T':
        return [('TOK: ' if n[2] is None else f'TOK({n[2]}): ') + summ(n[1])]
      if k == 'G':
        out = [('GROUP: ' if n[2] is None else f'GROUP({n[2]}): ') +
               summ(text(n[1]))]
        for c in n[1]:
          out += ['  ' + l for l in lines(c)]
        return out
      return [str(KINDS[k]())]
    want = []
    for n in d:
      want += lines(n)
    expect_eq(snh.render_debug(nodes), '\n'.join(want), 'render_debug')
    for n, e in zip(nodes, d):
      expect_eq(snh.render_debug(n), '\n'.join(lines(e)),
                'render_debug of a node')


class Walk(TreeRC):
  name = 'walk_with_paths'
  targets = ('sequence_node_helpers.walk_with_paths',)
  flags = 2

  def run(self, nodes, d, case):
    before, after = case['f']
    k = case.get('k', 0)
    prefix = tuple(range(5, 5 + k % 3))
    T = snh.WalkTag
    want = []

    def go(ns, pre):
      for i, n in enumerate(ns):
        p = pre + (i,)
        if isinstance(n, sn.GroupNode):
          if before:
            want.append((id(n), p, T.GROUP_BEFORE_CHILDREN))
          go(n.children, p)
          if after:
            want.append((id(n), p, T.GROUP_AFTER_CHILDREN))
        else:
          want.append((id(n), p, T.LEAF))
    go(nodes, prefix)
    got = [(id(n), p.path, t) for n, p, t in snh.walk_with_paths(
        nodes, visit_groups_before=before, visit_groups_after=after,
        prefix=sn.NestedNodePath(prefix))]
    expect_eq(got, want, 'walk_with_paths')
    if not before and not after:
      got = [(p.path, t) for _, p, t in snh.walk_with_paths(nodes)]
      expect_eq([p for p, _ in got], [p[len(prefix):] for _, p, _ in want],
                'walk_with_paths defaults')
      paths = [sn.NestedNodePath(p) for p, _ in got]
      expect(all(a < b for a, b in zip(paths, paths[1:])),
             'paths are not increasing')
