"""Runtime contracts of the part selection DAG."""
from rt.decode import *   # pylint: disable=wildcard-import
from r_u_sure.edit_distance_utility import part_selection_dags as pd
from r_u_sure.decision_diagrams import packed_dags as pk


def events(d):
  """In-order events without decorations: (kind, index, node)."""
  out = []

  def go(nodes):
    for i, n, kids in nodes:
      if n[0] == 'G':
        out.append(('(', i, n))
        go(kids)
        out.append((')', i, n))
      elif n[0] != 'D':
        out.append((n[0], i, n))
  go(number(d)[0])
  return out


def gain(n):
  return (len(n[1]) + 1) * (3 if n[2] == 'm' else 1) / 4


def loss(n):
  return (len(n[1]) * 2 + 1) * (1 if n[2] == 'm' else 5) / 4


def real_util(tok):
  n = ('T', tok.text_contents, tok.match_type)
  return pd.UtilitiesAndCostsForNode(match_utility=gain(n), delete_cost=loss(n))


def meaning(pro, tar, gain=gain, loss=loss, fixed=None):
  # pylint: disable=redefined-outer-name
  p, t = events(pro), events(tar)
  memo = {}

  def go(i, j, mode):
    key = (i, j, mode)
    if key in memo:
      return memo[key]
    res = {}

    def alt(add, cost, *nxt):
      if fixed is not None and any(fixed.get(k, v) != v for k, v in add):
        return
      for a, c in go(*nxt).items():
        put(res, add + a, c + cost)
    if i == len(p):
      if mode == 'skip':
        put(res, (), 0.0)
      memo[key] = res
      return res
    k, idx, n = p[i]
    if mode == 'skip':
      if k in 'T(':
        alt((((idx, IN), F),), 0.0, i + 1, j, 'skip')
      elif k == ')':
        alt((), 0.0, i + 1, j, 'skip')
      elif k == 'E':
        alt((((idx, E), NA),), 0.0, i + 1, j, 'skip')
      elif k == 'S':
        alt((((idx, S), F),), 0.0, i + 1, j, 'skip')
        alt((((idx, S), T),), 0.0, i + 1, j, 'wrong')
        for j2 in range(j, len(t)):
          alt((((idx, S), T),), 0.0, i + 1, j2, 'match')
    else:
      if k == 'S':
        alt((((idx, S), NA),), 0.0, i + 1, j, mode)
      elif k == 'E':
        alt((((idx, E), T),), 0.0, i + 1, j, 'skip')
        alt((((idx, E), F),), 0.0, i + 1, j, mode)
      elif mode == 'wrong':
        if k == 'T':
          alt((((idx, IN), T),), loss(n), i + 1, j, mode)
        elif k == '(':
          alt((((idx, IN), T),), 0.0, i + 1, j, mode)
        elif k == ')':
          alt((), 0.0, i + 1, j, mode)
      elif j < len(t) and t[j][0] == k:
        m = t[j][2]
        if k == 'T' and m == n:
          alt((((idx, IN), T),), -gain(n), i + 1, j + 1, mode)
        elif k == '(' and m[2] == n[2]:
          alt((((idx, IN), T),), 0.0, i + 1, j + 1, mode)
        elif k == ')' and m[2] == n[2]:
          alt((), 0.0, i + 1, j + 1, mode)
    memo[key] = res
    return res
  return go(0, 0, 'skip')


class SelRC(RC):
  def tree(self, rng, kinds, d, w):
    out = []
    for _ in range(rng.randint(0, w)):
      k = rng.choice(kinds)
      if k == 'T':
        out.append(['T', rng.choice(['a', 'b', '']), rng.choice('mmk')])
      elif k == 'D':
        out.append(['D', ' '])
      elif k == 'G':
        if d:
          out.append(['G', self.tree(rng, kinds, d - 1, w), rng.choice('gh')])
      else:
        out.append([k])
    return out

  def exhaustive(self):
    ts = list(small_trees(2, 'TG', 2))
    for p in small_trees(3, 'TSEG', 1):
      for t in ts[:14]:
        yield dict(p=p, t=t)

  def gen(self, rng, n):
    p = self.tree(rng, rng.choice(['TTSEG', 'TDSSEEG', 'TSE']), 2, 4)
    if rng.random() < .3:
      p = [['S']] + p + [['E']]
    if rng.random() < .6:
      def mut(x):
        return [['G', mut(y[1]), y[2]] if y[0] == 'G' else list(y)
                for y in x if y[0] not in 'SEX' and rng.random() > .12]
      t = mut(p)
      if rng.random() < .4:
        t = self.tree(rng, 'TG', 1, 2) + t
    else:
      t = self.tree(rng, 'TTDG', 2, 3)
    return dict(p=p, t=t)

  def setup(self, case):
    valid(case['p'])
    valid(case['t'])
    p, t = sdump(case['p']), sdump(case['t'])
    if any(n[0] == 'X' for n in leaves(p)) or any(
        n[0] in 'SEX' for n in leaves(t)):
      raise Skip
    want = meaning(p, t)
    pro, tar = ps.pack(build(case['p'])), ps.pack(build(case['t']))
    dag = pd.make_selection_dag_builder(
        pd.PartSelectionUtilityParameters(token_node_utility_fn=real_util),
        with_numba=False)(prototype=pro, target=tar)
    return want, pro, tar, dag


class Selection(SelRC):
  name = 'the selection DAG gives the least cost for every choice of parts'
  targets = ('part_selection_dags.make_selection_dag_builder',)

  def check(self, case):
    want, _, _, dag = self.setup(case)
    topological(dag)
    same_meaning(dag_meaning(dag), want, 'selection DAG')


class Groups(SelRC):
  name = 'the parts of a solution cover the prototype and carry its cost'
  targets = ('part_selection_dags.extract_match_groups',
             'part_selection_dags.pack_dag')

  def check(self, case):
    want, pro, tar, dag = self.setup(case)
    pr = gd.prune_to_reachable(dag)
    if not pr.edges or not want:
      raise Skip
    packed, data = pd.pack_dag(pr)
    keys = sorted({k for a in want for k, _ in a})
    for asg, _ in sorted(want.items(), key=repr)[:10]:
      full = {rd.DecisionKey(*k): NA for k in keys}
      full.update({rd.DecisionKey(*k): v for k, v in asg})
      path, _ = pk.constrained_best_path(packed, data, full)
      best = min(v for a, v in want.items() if
                 {k: v for k, v in a if v != NA} ==
                 {k: v for k, v in asg if v != NA})
      total = sum(e.cost for e in path)
      expect(abs(total - best) < 1e-9, 'cost of the path', total, best)
      gs = list(pd.extract_match_groups(path, pro, tar))
      expect(abs(sum(g.cost for g in gs) - total) < 1e-9, 'cost of the parts')
      C = pd.DagStateCategory
      in_p = [w for g in gs if g.category != C.SKIP_IN_TARGET
              for w in g.content_tokens]
      toks = [n[1] for n in leaves(sdump(case['p'])) if n[0] == 'T']
      expect_eq(in_p, toks, 'tokens of the prototype')
      sel = [i for (i, c), v in asg if c == IN and v == T]
      nodes = [n for k, i, n in events(sdump(case['p'])) if k == 'T' and
               i in sel]
      got = [w for g in gs if g.category in (C.SELECT_MATCHED,
                                            C.SELECT_UNMATCHED)
             for w in g.content_tokens]
      expect_eq(got, [n[1] for n in nodes], 'selected tokens')
      in_t = [w for g in gs if g.category in (C.SKIP_IN_TARGET,
                                             C.SELECT_MATCHED)
              for w in g.content_tokens]
      ttoks = [n[1] for n in leaves(sdump(case['t'])) if n[0] == 'T']
      expect_eq(in_t, ttoks[:len(in_t)],
                'skipped and matched tokens follow the target')
      for a, b in zip(gs, gs[1:]):
        expect(a.content_tokens or a.cost, 'no empty part', a)


def runtime_contracts():
  return [Selection(), Groups()]
