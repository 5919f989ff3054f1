"""Runtime contracts of the utility parameters."""
from fractions import Fraction
from rt.core import *   # pylint: disable=wildcard-import
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.tree_structure import packed_sequence_nodes as ps
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw


def frac(x):
  if not (isinstance(x, list) and len(x) == 2 and x[1]):
    raise Skip
  return Fraction(x[0], x[1])


class Derive(RC):
  name = 'derived costs break even exactly at the effective precision'
  targets = ('uncertainty_regions_wrapper.derive_uncertainty_region_costs',)

  def exhaustive(self):
    g = [[i, 8] for i in range(9)]
    for p in g:
      for s in g:
        for h in ([0, 1], [1, 1], [5, 1], [7, 3]):
          yield dict(p=p, s=s, h=h)

  def gen(self, rng, n):
    d = rng.choice([2, 3, 7, 10, 100, 1000])
    return dict(p=[rng.randint(0, d), d], s=[rng.randint(0, d), d],
                h=[rng.randint(0, 20 * d), d])

  def check(self, case):
    p, s, h = (frac(case[k]) for k in 'psh')
    if not (0 <= p <= 1 and 0 <= s <= 1 and h >= 0):
      raise Skip
    u = urw.derive_uncertainty_region_costs(p, h, s)
    f = {k: Fraction(v) if isinstance(v, (int, float)) else v
         for k, v in u._asdict().items()}
    hm, hd = f['high_confidence_match_utility_per_char'], f[
        'high_confidence_delete_cost_per_char']
    lm, ld = f['low_confidence_match_utility_per_char'], f[
        'low_confidence_delete_cost_per_char']
    hs, ls, rc = (f['high_confidence_start_editing_cost'],
                  f['low_confidence_start_editing_cost'],
                  f['low_confidence_region_cost'])
    expect_eq((hm, hd, f['insert_cost_per_char'], hs), (1, 1, 0, h),
              'high confidence scale')
    expect_eq(lm + ld, s * (hm + hd), 'per character edit sensitivity')
    expect_eq(ls, s * hs, 'start editing sensitivity')
    for n in (0, 1, 2, 9):
      def hi(q):
        return q * n * hm - (1 - q) * (n * hd + hs)

      def lo(q):
        return q * n * lm - (1 - q) * (n * ld + ls) - rc
      expect_eq(hi(p), lo(p), f'break even at the effective precision, len {n}')
      for q in (Fraction(0), p / 2, (1 + p) / 2, Fraction(1)):
        if s < 1 and (n or h):
          if q > p:
            expect(hi(q) > lo(q), 'high confidence is better above it', n, q)
          elif q < p:
            expect(hi(q) < lo(q), 'low confidence is better below it', n, q)
        expect(s == 1 or hi(q) != lo(q) or q == p or not (n or h), 'differ')


class Scale(RC):
  name = 'node utilities are the per-character parameters times the length'
  targets = ('edit_dags.token_node_utility_from_parameters',)
  weight = .5

  def exhaustive(self):
    for t in ('', 'a', '\u00e9x', ' ' * 9, 'foo\nbar', '\U0001F600'):
      for v in ([1, 2, 3, 5, 7, 11, 13, 17], [0] * 8, [-1, 4, 4, 4, 1, 2, 2, 8]):
        yield dict(t=t, v=v)

  def gen(self, rng, n):
    return dict(t=''.join(rng.choice('ab \u00e9\n') for _ in
                          range(rng.choice([0, 1, 3, 80]))),
                v=[rng.randint(-40, 80) for _ in range(8)])

  def check(self, case):
    t, v = case['t'], case['v']
    if not (isinstance(t, str) and len(v) == 8):
      raise Skip
    u = ed.TrustRegionUtilityParameters(*[x / 4 for x in v])
    got = ed.token_node_utility_from_parameters(
        u, ps.PackedTextTokenNode(t, 'm'))
    for k in ('high_confidence_match_utility', 'high_confidence_delete_cost',
              'low_confidence_match_utility', 'low_confidence_delete_cost',
              'insert_cost'):
      expect_eq(getattr(got, k), getattr(u, k + '_per_char') * len(t), k)


def runtime_contracts():
  return [Derive(), Scale()]
