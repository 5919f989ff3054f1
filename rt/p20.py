"""Runtime contracts of region extraction and region rendering."""
import html
import re
from rt.trees import *   # pylint: disable=wildcard-import
from r_u_sure.tree_structure import packed_sequence_nodes as ps
from r_u_sure.edit_distance_utility import region_decisions as rd

DC, DV = rd.DecisionCategory, rd.DecisionValue
CATS = dict(S=DC.REGION_SHOULD_START, E=DC.REGION_SHOULD_END,
            X=DC.SHOULD_EARLY_EXIT)


def preorder(d, out=None):
  out = [] if out is None else out
  for n in d:
    out.append(n)
    if n[0] == 'G':
      preorder(n[1], out)
  return out


def decide(rows, bits):
  """Assignment with ends only inside regions; reference output pieces."""
  asg, ref = {}, []
  inr = empty = False
  stopped = False
  for i, n in enumerate(rows):
    bit = bits[i % len(bits)] if bits else 0
    if n[0] in CATS:
      v = bool(bit & 1)
      if n[0] == 'E' and not inr:
        v = False
      if n[0] == 'S' and inr:
        v = False
      asg[(i, CATS[n[0]])] = DV.TRUE if v else (
          DV.NOT_APPLICABLE if bit & 2 else DV.FALSE)
      if stopped or not v:
        continue
      if n[0] == 'S':
        inr = empty = True
      elif n[0] == 'E':
        if empty:
          ref.append((None, True))
        inr = empty = False
      else:
        stopped = True
    elif n[0] in 'TD' and not stopped:
      ref.append((n[1], inr))
      empty = False
  return {rd.DecisionKey(*k): v for k, v in asg.items()}, ref


class RegRC(RC):
  def exhaustive(self):
    for t in small_trees(3, 'TSEXG'):
      for bits in ([0], [1], [1, 0], [0, 1], [1, 1, 0]):
        yield dict(t=t, bits=bits)

  def gen(self, rng, n):
    t = sized(rng, n, rng.choice(['TDSEXG', 'TDSSEEG', 'SETDSEG']))
    return dict(t=t, bits=[rng.choice([1, 1, 0, 2]) for _ in range(
        rng.randint(1, 23))])

  def setup(self, case):
    valid(case['t'])
    if not all(isinstance(b, int) for b in case['bits']):
      raise Skip
    st = ps.pack(build(case['t']))
    asg, ref = decide(preorder(sdump(case['t'])), case['bits'])
    return st, asg, ref


class Extract(RegRC):
  name = 'extraction tags exactly the tokens between chosen markers'
  targets = ('region_decisions.extract_sequence_with_regions',)

  def check(self, case):
    st, asg, ref = self.setup(case)
    for marker in ('', '#'):
      got = [(t.token_or_decoration, t.in_annotated_region) for t in
             rd.extract_sequence_with_regions(st, asg, marker)]
      expect_eq(got, [(marker if t is None else t, r) for t, r in ref],
                'tokens')


class RegionHtml(RegRC):
  name = 'region html shows exactly the extracted text, escaped and marked'
  targets = ('region_decisions.render_regions_to_html',)

  def gen(self, rng, n):
    c = super().gen(rng, n)

    def sub(t):
      for j in t:
        if j[0] in 'TD' and rng.random() < .3:
          j[1] = rng.choice(['<', '&', '"', '</span>', "'", 'a<b', '&lt;'])
        elif j[0] == 'G':
          sub(j[1])
    sub(c['t'])
    return c

  def check(self, case):
    st, asg, ref = self.setup(case)
    out = rd.render_regions_to_html(st, asg)
    m = re.fullmatch(r'\s*<style>[^<]*</style><span class="[\w -]+">(.*)</span>'
                     r'\s*', out, re.S)
    expect(m, 'one root element', out)
    got, level = [], 0
    for piece in re.findall(r'<[^>]*>|[^<]+', m.group(1)):
      if piece.startswith('<'):
        if re.fullmatch(r'<span class="in_region">', piece):
          level += 1
          expect(level == 1, 'nested region element')
        else:
          expect_eq(piece, '</span>', 'unexpected element')
          level -= 1
          expect(level == 0, 'unbalanced element')
      else:
        expect('"' not in piece and "'" not in piece, 'quotes escaped', piece)
        got += [(c, level == 1) for c in html.unescape(piece)]
    expect_eq(level, 0, 'element left open')
    want = [(c, r) for t, r in ref for c in ('\ufe19' if t is None else t)]
    expect_eq(got, want, 'characters and their marking')


class Summaries(RC):
  name = 'decision summaries name the decision and the value'
  targets = ('region_decisions.DecisionKey.summarize_assignment',)
  weight = .1

  def exhaustive(self):
    for c in range(4):
      for v in range(3):
        yield dict(c=c, v=v)

  def check(self, case):
    c = [(DC.REGION_SHOULD_START, 'start'), (DC.REGION_SHOULD_END, 'end'),
         (DC.NODE_IN_REGION, 'in'), (DC.SHOULD_EARLY_EXIT, 'exit')][case['c']]
    v = [(DV.FALSE, 'false'), (DV.TRUE, 'true'),
         (DV.NOT_APPLICABLE, 'N/A')][case['v']]
    expect_eq(rd.DecisionKey(3, c[0]).summarize_assignment(v[0]),
              f'{c[1]}: {v[1]}', 'summary')
    expect(DV.FALSE < DV.TRUE < DV.NOT_APPLICABLE, 'order of values')


def runtime_contracts():
  return [Extract(), RegionHtml(), Summaries()]
