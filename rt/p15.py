"""Runtime contracts of the packed tree storage."""
from rt.trees import *   # pylint: disable=wildcard-import
from r_u_sure.tree_structure import packed_sequence_nodes as ps
import numba

CAT = {'T': 'TEXT_TOKEN_NODE', 'D': 'TEXT_DECORATION_NODE', 'G': 'GROUP_NODE',
       'S': 'REGION_START_NODE', 'E': 'REGION_END_NODE',
       'X': 'EARLY_EXIT_NODE'}


def flat(d, parent=-1, level=0, path=(), out=None):
  """Preorder rows: (node, parent, offset, level, path)."""
  out = [] if out is None else out
  for i, n in enumerate(d):
    me = len(out)
    out.append((n, parent, i, level, path + (i,)))
    if n[0] == 'G':
      flat(n[1], me, level + 1, path + (i,), out)
  return out


class PackRC(RC):
  def exhaustive(self):
    for t in small_trees(3):
      yield dict(t=t, f=0)

  def gen(self, rng, n):
    t = deep(rng, 12) if rng.random() < .05 else sized(rng, n)
    return dict(t=t, f=rng.randint(0, 7))

  def pack(self, case):
    valid(case['t'])
    nodes = build(case['t'])
    if case['f'] % 4 == 3:
      try:
        return nodes, ps.pack(nodes, as_numba_typed=True,
                              match_type_numba_type=numba.types.string)
      except (AttributeError, TypeError) as e:
        if 'numba' in str(e):
          raise Skip
        raise
    return nodes, ps.pack(nodes)


class Layout(PackRC):
  name = 'packing records every node once, in preorder'
  targets = ('packed_sequence_nodes.pack',)

  def check(self, case):
    nodes, st = self.pack(case)
    expect_eq(dump(nodes), sdump(case['t']), 'pack modified its input')
    rows = flat(sdump(case['t']))
    expect_eq(len(st.preorder_traversal), len(rows), 'number of nodes')
    expect_eq(len(st.parents_and_offsets_from_preorder), len(rows), 'parents')
    expect_eq(len(st.level_from_preorder), len(rows), 'levels')
    cnt = dict(T=0, D=0, G=0)
    for i, (n, par, off, lev, _) in enumerate(rows):
      nid = st.preorder_traversal[i]
      expect_eq(nid.preorder_index, i, 'preorder index')
      expect_eq(nid.category.name, CAT[n[0]], 'category')
      k = cnt.get(n[0])
      expect_eq(nid.index_in_category, -1 if k is None else k,
                'index in category')
      expect_eq(tuple(st.parents_and_offsets_from_preorder[i]), (par, off),
                'position in parent')
      expect_eq(st.parents_and_offsets_from_preorder[i].parent_preorder_index,
                par, 'parent')
      expect_eq(st.level_from_preorder[i], lev, 'level')
      if k is not None:
        cnt[n[0]] += 1
      if n[0] == 'T':
        t = st.text_token_nodes[k]
        expect_eq((t.text_contents, t.match_type), n[1:], 'token')
      elif n[0] == 'D':
        expect_eq(st.text_decoration_nodes[k].text_contents, n[1],
                  'decoration')
      elif n[0] == 'G':
        g = st.group_nodes[k]
        expect_eq(g.match_type, n[2], 'group type')
        expect_eq([c.preorder_index for c in g.children_ids],
                  [j for j, r in enumerate(rows) if r[1] == i], 'children')
        for c in g.children_ids:
          expect_eq(c, st.preorder_traversal[c.preorder_index], 'child id')
    expect_eq((len(st.text_token_nodes), len(st.text_decoration_nodes),
               len(st.group_nodes)), (cnt['T'], cnt['D'], cnt['G']),
              'storage sizes')
    expect_eq([c.preorder_index for c in st.root_sequence],
              [j for j, r in enumerate(rows) if r[1] == -1], 'root sequence')
    for c in st.root_sequence:
      expect_eq(c, st.preorder_traversal[c.preorder_index], 'root id')
    expect_eq(st.depth, 1 + max([r[3] for r in rows], default=0), 'depth')


class RoundTrip(PackRC):
  name = 'unpack inverts pack'
  targets = ('packed_sequence_nodes.pack', 'packed_sequence_nodes.unpack')

  def check(self, case):
    _, st = self.pack(case)
    before = repr(st)
    expect_eq(dump(list(ps.unpack(st))), sdump(case['t']), 'round trip')
    expect_eq(repr(st), before, 'unpack modified the storage')


class Paths(PackRC):
  name = 'paths identify nodes and back'
  targets = ('packed_sequence_nodes.PackedSequenceNodeStorage.'
             'node_id_from_node_path', 'packed_sequence_nodes.'
             'PackedSequenceNodeStorage.subsequence_from_node_path',
             'packed_sequence_nodes.PackedSequenceNodeStorage.'
             'path_from_preorder_index')

  def check(self, case):
    _, st = self.pack(case)
    NP = sn.NestedNodePath
    rows = flat(sdump(case['t']))
    expect_eq(list(st.subsequence_from_node_path(NP(()))),
              list(st.root_sequence), 'empty path')
    try:
      st.node_id_from_node_path(NP(()))
      raise Fail('empty path names a node')
    except ValueError:
      pass
    for i, (n, _, _, _, path) in enumerate(rows):
      expect_eq(tuple(st.path_from_preorder_index(i).path), path, 'path')
      expect_eq(st.node_id_from_node_path(NP(path)).preorder_index, i,
                'node of path')
      if n[0] == 'G':
        expect_eq([c.preorder_index for c in
                   st.subsequence_from_node_path(NP(path))],
                  [j for j, r in enumerate(rows) if r[1] == i],
                  'children of path')
      else:
        try:
          st.subsequence_from_node_path(NP(path))
          raise Fail(f'path {path} of a leaf names a sequence')
        except ValueError:
          pass
      for bad in (path[:-1] + (len(rows) + 1,), path[:-1] + (-1,),
                  path[:-1] + (len([r for r in rows
                                    if r[4][:-1] == path[:-1]]),)):
        try:
          st.subsequence_from_node_path(NP(bad))
          raise Fail(f'path {bad} names a sequence')
        except ValueError:
          pass


class Traversal(PackRC):
  name = 'in-order traversal visits groups twice and leaves once'
  targets = ('packed_sequence_nodes.in_order_traversal',)

  def check(self, case):
    _, st = self.pack(case)
    strip = bool(case['f'] & 1)

    def ref(d, idx):
      out = []
      for n in d:
        me = idx[0]
        idx[0] += 1
        if n[0] == 'G':
          out.append(('BEFORE_GROUP', me))
          out += ref(n[1], idx)
          out.append(('AFTER_GROUP', me))
        elif not (strip and n[0] == 'D'):
          out.append(('LEAF', me))
      return out
    got = ps.in_order_traversal(st, strip)
    expect_eq([(g.category.name, g.node_id.preorder_index) for g in got],
              ref(sdump(case['t']), [0]), f'traversal strip={strip}')
    for g in got:
      expect_eq(g.node_id, st.preorder_traversal[g.node_id.preorder_index],
                'id')


class Text(PackRC):
  name = 'text of packed nodes'
  targets = ('packed_sequence_nodes.render_text_contents_of_node',
             'packed_sequence_nodes.render_text_contents_of_list')

  def check(self, case):
    _, st = self.pack(case)
    d = sdump(case['t'])
    expect_eq(ps.render_text_contents_of_list(st.root_sequence, st), text(d),
              'text')
    for i, r in enumerate(flat(d)):
      expect_eq(ps.render_text_contents_of_node(st.preorder_traversal[i], st),
                text((r[0],)), 'text of node')


def runtime_contracts():
  return [Layout(), RoundTrip(), Paths(), Traversal(), Text()]
