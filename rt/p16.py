"""Runtime contracts of the token log-probability alignment."""
import html
import itertools
import math
import re
from rt.trees import *   # pylint: disable=wildcard-import
from r_u_sure.tree_structure import packed_sequence_nodes as ps
from r_u_sure.tree_structure import token_prob_align as al


def ref_advance(toks, n):
  """(text, log prob, remaining tokens); toks = [(text, lp)] left to right."""
  toks = list(toks)
  out, lp, left = '', 0.0, n
  while toks:
    t, p = toks[0]
    if len(t) > left:
      return out + t[:left], lp + p, [(t[left:], p)] + toks[1:]
    toks = toks[1:]
    out, lp, left = out + t, lp + p, left - len(t)
    if left == 0:
      break
  return out, lp, toks


def mk(js):
  out = []
  for j in js:
    if not (isinstance(j, list) and len(j) == 2 and isinstance(j[0], str)
            and isinstance(j[1], int)):
      raise Skip
    out.append((j[0], -j[1] / 4))
  return out


def left(h):
  return [tuple(x) for x in h.token_and_log_prob_stack][::-1]


class Advance(RC):
  name = 'spans consume the fewest tokens and sum their log probs'
  targets = ('token_prob_align.SpanProbHelper.advance_by_length',
             'token_prob_align.SpanProbHelper.build',
             'token_prob_align.SpanProbHelper.assert_consumed')

  def exhaustive(self):
    for k in range(4):
      for ts in itertools.product(['', 'a', 'bcd'], repeat=k):
        for ops in itertools.product([0, 1, 2, 4], repeat=2):
          yield dict(toks=[[t, 2 ** i] for i, t in enumerate(ts)],
                     ops=list(ops))

  def gen(self, rng, n):
    toks = [[''.join(rng.choice('ab\né') for _ in range(
        rng.choice([0, 1, 2, 3, 7]))), rng.choice([0, 1, 2, 5, 9])]
            for _ in range(rng.randint(0, 7))]
    return dict(toks=toks, ops=[rng.choice([0, 0, 1, 2, 3, 5, 9])
                                for _ in range(rng.randint(1, 6))])

  def check(self, case):
    toks = mk(case['toks'])
    before = list(toks)
    h = al.SpanProbHelper.build(toks)
    expect_eq(left(h), toks, 'tokens of the helper')
    cur = list(toks)
    for op in case['ops']:
      if op < 0:
        raise Skip
      t, lp, cur = ref_advance(cur, op)
      got = h.advance_by_length(op)
      expect_eq(tuple(got), (t, lp), f'span of {op}')
      expect_eq(left(h), cur, f'tokens left after a span of {op}')
      try:
        h.assert_consumed()
        ok = True
      except ValueError:
        ok = False
      expect_eq(ok, not any(t for t, _ in cur), 'everything consumed')
    expect_eq(toks, before, 'the caller\'s tokens were modified')


class External(Advance):
  name = 'external tokens are looked up or rejected'
  targets = ('token_prob_align.SpanProbHelper.advance_and_get_log_prob_for',)

  def gen(self, rng, n):
    return dict(super().gen(rng, n), w=rng.randint(0, 9))

  def check(self, case):
    toks = mk(case['toks'])
    h = al.SpanProbHelper.build(toks)
    cur = list(toks)
    for i, op in enumerate(case['ops']):
      if op < 0:
        raise Skip
      rest = ''.join(t for t, _ in cur)
      ext = rest[:op]
      if case.get('w') == i and op:
        ext = rest[:op - 1] + 'Z'
      t, lp, cur = ref_advance(cur, len(ext))
      try:
        got = h.advance_and_get_log_prob_for(ext)
      except ValueError:
        expect(t != ext, 'a prefix of the remaining text was rejected', ext)
        return
      expect_eq(t, ext, 'not a prefix, but accepted')
      expect_eq(got, lp, 'log prob')


class Align(RC):
  name = 'every token node gets the log prob of the model tokens it overlaps'
  targets = ('token_prob_align.align_token_log_probs',
             'token_prob_align.flatten_token_log_probs_from_parsed')

  def exhaustive(self):
    for t in small_trees(3, 'TDSG'):
      for cut in ([], [1], [2], [0, 1], [1, 1]):
        yield dict(t=t, cuts=cut, extra='', must=1)

  def gen(self, rng, n):
    return dict(t=sized(rng, n), cuts=[rng.randint(0, 12) for _ in range(
        rng.randint(0, 8))], extra=rng.choice(['', '', 'q', 'longer']),
                must=rng.randint(0, 1), bad=int(rng.random() < .1))

  def check(self, case):
    valid(case['t'])
    nodes = build(case['t'])
    d = sdump(case['t'])
    full = text(d) + case['extra']
    cuts = sorted(min(max(0, c), len(full)) for c in case['cuts'])
    ends = [0] + cuts + [len(full)]
    toks = [(full[a:b], -(2 ** (i % 9)) / 4)
            for i, (a, b) in enumerate(zip(ends, ends[1:]))]
    if case.get('bad') and toks and toks[0][0]:
      toks[0] = ('\x01' + toks[0][0][1:], toks[0][1])
    # reference, straight from the tree
    cur = list(toks)
    want, flatw = {}, []
    ok = True
    idx = 0

    def walk(d):
      nonlocal cur, ok, idx
      for n in d:
        me = idx
        idx += 1
        if n[0] in 'TD':
          t, lp, cur = ref_advance(cur, len(n[1]))
          if t != n[1]:
            ok = False
          if n[0] == 'T':
            want[me] = lp
          flatw.append((n[1], lp if n[0] == 'T' else 0.0))
        elif n[0] == 'G':
          walk(n[1])
    walk(d)
    must = bool(case['must'])
    ok = ok and not (must and any(t for t, _ in cur))
    st = ps.pack(nodes)
    given = list(toks)
    try:
      got = al.align_token_log_probs(toks, st, must)
    except ValueError:
      expect(not ok, 'aligned sequences were rejected')
      return
    expect(ok, 'sequences that do not align were accepted')
    expect_eq(dict(got), want, 'log probs')
    expect_eq(toks, given, 'the caller\'s tokens were modified')
    expect_eq([tuple(x) for x in al.flatten_token_log_probs_from_parsed(
        st, got)], flatw, 'flattened')


class Html(RC):
  name = 'log prob html shows exactly the tokens, escaped'
  targets = ('token_prob_align.render_tokens_and_log_probs_to_html',)
  weight = .5

  def exhaustive(self):
    for t in itertools.product(['', 'a', '<b>', '&amp;', '"\n', "'", '</span>'],
                               repeat=2):
      yield dict(toks=[[x, i] for i, x in enumerate(t)])

  def gen(self, rng, n):
    return dict(toks=[[''.join(rng.choice('ab<>&"\'\n; é/') for _ in range(
        rng.randint(0, 8))), rng.randint(0, 50)]
                      for _ in range(rng.randint(0, 5))])

  def check(self, case):
    toks = mk(case['toks'])
    out = al.render_tokens_and_log_probs_to_html(toks)
    m = re.fullmatch(r'<span style="[^"<>]*">(.*)</span>', out, re.S)
    expect(m, 'one outer element', out)
    parts = re.findall(r'<span style="background-color: rgb\(([0-9.e+-]+)%, '
                       r'([0-9.e+-]+)%, ([0-9.e+-]+)%\)">([^<>]*)</span>',
                       m.group(1))
    expect_eq(sum(len(p[3]) for p in parts) + len(re.sub(
        r'>[^<>]*</span>', '></span>', m.group(1))),
              len(m.group(1)), 'nothing but token elements')
    expect_eq(len(re.findall('<span', m.group(1))), len(toks), 'elements')
    expect_eq(len(parts), len(toks), 'one element per token')
    for (r, g, b, t), (tok, lp) in zip(parts, toks):
      expect_eq(html.unescape(t), tok.replace('\n', '\u21a9\n'), 'token')
      expect('"' not in t and "'" not in t, 'quotes are escaped', t)
      p = math.exp(lp) * 100
      expect(abs(float(r) - 100) < 1e-6 and abs(float(g) - p) < 1e-6 and
             abs(float(b) - p) < 1e-6, 'colour', (r, g, b, p))


def runtime_contracts():
  return [Advance(), External(), Align(), Html()]
