"""Runtime contracts of the edit DAG: least edit cost for every decision set."""
import collections
import re
import html
from rt.decode import *   # pylint: disable=wildcard-import
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.decision_diagrams import packed_dags as pk

FIELDS = ('hm', 'hd', 'lm', 'ld', 'ins', 'reg', 'hs', 'ls')


class Costs:
  def __init__(self, v):
    if len(v) != 8 or not all(isinstance(x, int) for x in v):
      raise Skip
    for k, x in zip(FIELDS, v):
      setattr(self, k, x / 4)
    self.real = ed.TrustRegionUtilityParameters(*[x / 4 for x in v])


def inside(conf):
  return T if conf == 'L' else F


def control(c, i, n, conf):
  """Passing a prototype-only node; None if the node is not one."""
  k = n[0]
  if k == 'D':
    return {(conf, ()): 0.0}
  if k == 'S':
    if conf == 'H':
      return {('H', (((i, S), F),)): 0.0, ('L', (((i, S), T),)): c.reg}
    return {('L', (((i, S), NA),)): 0.0}
  if k == 'E':
    if conf == 'H':
      return {('H', (((i, E), NA),)): 0.0}
    return {('L', (((i, E), F),)): 0.0, ('H', (((i, E), T),)): 0.0}
  if k == 'X':
    return {('exit', (((i, X), T),)): 0.0, (conf, (((i, X), F),)): 0.0}
  return None


def delete(c, nodes, conf):
  """Deleting a whole prototype sequence."""
  res = {(conf, ()): 0.0}
  for i, n, kids in nodes:
    res = then(res, lambda m: delete1(c, i, n, kids, m))
  return res


def delete1(c, i, n, kids, conf):
  r = control(c, i, n, conf)
  if r is not None:
    return r
  head = (((i, IN), inside(conf)),)
  if n[0] == 'T':
    return {(conf, head): len(n[1]) * (c.hd if conf == 'H' else c.ld)}
  return then({(conf, head): 0.0}, lambda m: delete(c, kids, m))


def insert(c, n):
  if n[0] == 'T':
    return len(n[1]) * c.ins
  if n[0] == 'G':
    return sum(insert(c, k) for k in n[1])
  if n[0] != 'D':
    raise Skip
  return 0.0


def match(c, pro, tar, conf):
  """Least cost edits of the whole of one sequence into the other."""
  memo = {}

  def go(i, j, mode, conf):
    key = (i, j, mode, conf)
    if key in memo:
      return memo[key]
    p = pro[i] if i < len(pro) else None
    t = tar[j] if j < len(tar) else None
    res = {}

    def alt(r, cost=0.0):
      for k, v in r.items():
        put(res, k, v + cost)
    if mode == 'advance':
      r = control(c, p[0], p[1], conf) if p else None
      if r is not None:
        alt(then(r, lambda m: go(i + 1, j, 'advance', m)))
      alt(go(i, j, 'delete', conf), c.hs if conf == 'H' else c.ls)
      alt(go(i, j, 'match', conf))
    elif mode == 'delete':
      if p:
        alt(then(delete1(c, *p, conf), lambda m: go(i + 1, j, 'delete', m)))
      alt(go(i, j, 'insert', conf))
    elif mode == 'insert':
      if t:
        alt(go(i, j + 1, 'insert', conf), insert(c, t[1]))
      alt(go(i, j, 'match', conf))
    else:
      if not p and not t:
        put(res, (conf, ()), 0.0)
      if t and t[1][0] == 'D':
        alt(go(i, j + 1, 'match', conf))
      if p and t:
        head = (((p[0], IN), inside(conf)),)
        if p[1][0] == t[1][0] == 'T' and p[1][1:] == t[1][1:]:
          gain = len(p[1][1]) * (c.hm if conf == 'H' else c.lm)
          alt(then({(conf, head): -gain},
                   lambda m: go(i + 1, j + 1, 'advance', m)))
        if p[1][0] == t[1][0] == 'G' and p[1][2] == t[1][2]:
          r = then({(conf, head): 0.0}, lambda m: match(c, p[2], t[2], m))
          alt(then(r, lambda m: go(i + 1, j + 1, 'advance', m)))
    memo[key] = res
    return res
  return go(0, 0, 'advance', conf)


def meaning(c, pro, tar):
  out = {}
  for (m, asg), cost in match(c, number(pro)[0], number(tar)[0], 'H').items():
    if m in ('H', 'exit'):     # a region still open at the end is no solution
      put(out, asg, cost)
  return out


TYPES2 = ['m', 'k']


class EditRC(RC):
  def params(self, rng):
    r = rng.random()
    if r < .3:
      return [4, 4, 2, 2, 0, 6, 20, 10]
    if r < .5:
      return [4, 8, 1, 3, 2, 5, 7, 3]
    return [rng.choice([0, 1, 2, 3, 4, 8, 12, -1]) for _ in range(4)] + [
        rng.randint(0, 9) for _ in range(4)]

  def tree(self, rng, kinds, d, w):
    out = []
    for _ in range(rng.randint(0, w)):
      k = rng.choice(kinds)
      if k == 'T':
        out.append(['T', rng.choice(['a', 'b', 'bc', '']),
                    rng.choice(TYPES2 + ['m'])])
      elif k == 'D':
        out.append(['D', rng.choice([' ', '\n  ', ''])])
      elif k == 'G':
        if d:
          out.append(['G', self.tree(rng, kinds, d - 1, w),
                      rng.choice(['g', 'g', 'h'])])
      else:
        out.append([k])
    return out

  def mutate(self, rng, t):
    """A target close to the prototype."""
    out = []
    for n in t:
      r = rng.random()
      if n[0] in 'SEX' or r < .1:
        continue
      if n[0] == 'G':
        out.append(['G', self.mutate(rng, n[1]),
                    n[2] if r < .9 else 'other'])
      elif n[0] == 'T' and r < .25:
        out.append(['T', rng.choice(['a', 'b', 'zz']), n[2]])
      else:
        out.append(list(n))
      if rng.random() < .12:
        out.append(rng.choice([['T', 'b', 'm'], ['D', ' '],
                               ['G', [['T', 'a', 'm']], 'g']]))
    return out

  def gen(self, rng, n):
    kinds = rng.choice(['TTDSEXG', 'TTSEG', 'TSSEEG', 'TDGG', 'TX'])
    big = rng.random() < .25
    p = self.tree(rng, kinds, 2, 3 if big else 2)
    if rng.random() < .6:
      t = self.mutate(rng, p)
    else:
      t = self.tree(rng, 'TTDG', 2, 2)
    return dict(p=p, t=t, c=self.params(rng))

  def exhaustive(self):
    ps_ = list(small_trees(2, 'TDSEXG', 2))
    ts = list(small_trees(2, 'TDG', 2))
    for c in ([4, 8, 1, 3, 2, 5, 7, 3],):
      for p in ps_:
        for t in ts:
          yield dict(p=p, t=t, c=c)

  def setup(self, case):
    valid(case['p'])
    valid(case['t'])
    c = Costs(case['c'])
    want = meaning(c, sdump(case['p']), sdump(case['t']))
    pro, tar = ps.pack(build(case['p'])), ps.pack(build(case['t']))
    dag, _ = ed.make_edit_dag_builder(with_numba=False)(
        prototype=pro, target=tar, parameters=c.real)
    return c, want, pro, tar, dag


class LeastCost(EditRC):
  name = 'the edit DAG gives the least edit cost for every set of decisions'
  targets = ('edit_dags.make_edit_dag_builder',)

  def check(self, case):
    _, want, _, _, dag = self.setup(case)
    topological(dag)
    same_meaning(dag_meaning(dag), want, 'edit DAG')
    same_meaning(dag_meaning(gd.prune_to_reachable(dag)), want,
                 'pruned edit DAG')


def toks(d, stop=None):
  return [n for n in leaves(d) if n[0] == 'T']


class Script(EditRC):
  name = 'the edit script of a solution turns the prototype into the target'
  targets = ('edit_dags.extract_edit_sequence_text',
             'edit_dags.extract_edit_sequence_html',
             'edit_dags.extract_edit_summary_metrics', 'edit_dags.pack_dag')

  def check(self, case):
    c, want, pro, tar, dag = self.setup(case)
    if not want:
      raise Skip
    pr = gd.prune_to_reachable(dag)
    if not pr.edges:
      raise Skip
    packed, data = ed.pack_dag(pr)
    keys = sorted({k for a in want for k, _ in a})
    for asg, cost in sorted(want.items(), key=lambda kv: repr(kv))[:12]:
      full = {rd.DecisionKey(*k): NA for k in keys}
      full.update({rd.DecisionKey(*k): v for k, v in asg})
      path, _ = pk.constrained_best_path(packed, data, full)
      # an assignment may be met by several paths that differ only in
      # decisions that are explicitly or implicitly not applicable
      best = min(v for a, v in want.items() if
                 dict(a) == {k: v for k, v in dict(asg).items() if v != NA} or
                 {k: v for k, v in dict(a).items() if v != NA} ==
                 {k: v for k, v in dict(asg).items() if v != NA})
      total = sum(e.cost for e in path)
      expect(abs(total - best) < 1e-9, 'cost of the extracted path', total,
             best)
      self.script(case, c, path, pro, tar, total,
                  any(k[1] == X and v == T for k, v in asg))

  def script(self, case, c, path, pro, tar, total, exits):
    infos = [(e.cost, e.info) for e in path if e.info is not None]
    A = ed.EditAction
    low = ed.EditDagStateConfidence.LOW_CONFIDENCE
    prow, trow = [], []
    text = []
    metrics = collections.Counter()
    for cost, f in infos:
      pi, ti = f.prototype_node_preorder_index, f.target_node_preorder_index
      s = ''
      if pi != ps.NO_PREORDER_INDEX:
        s = ps.render_text_contents_of_node(pro.preorder_traversal[pi], pro)
      elif ti != ps.NO_PREORDER_INDEX:
        s = ps.render_text_contents_of_node(tar.preorder_traversal[ti], tar)
      text.append(s)
      k = f'{f.edit_action.name}_{f.confidence.name}'
      metrics[k + '_cost'] += cost
      metrics[k + '_chars'] += len(s)
      metrics[k + '_edges'] += 1
      if f.edit_action in (A.KEEP, A.DELETE):
        prow.append(pi)
        n = len(s)
        lo = f.confidence == low
        expect_eq(cost, -n * (c.lm if lo else c.hm) if
                  f.edit_action == A.KEEP else n * (c.ld if lo else c.hd),
                  'cost of a kept or deleted token')
      if f.edit_action in (A.KEEP, A.INSERT):
        trow.append(ti)
      if f.edit_action == A.KEEP:
        expect_eq(ps.render_text_contents_of_node(
            tar.preorder_traversal[ti], tar), s, 'kept text')
      if f.edit_action == A.INSERT:
        expect_eq(cost, len(s) * c.ins, 'cost of an inserted token')
    ptoks = [i for i, n in flat(sdump(case['p'])) if n[0] == 'T']
    ttoks = [i for i, n in flat(sdump(case['t'])) if n[0] == 'T']
    if exits:
      expect_eq(prow, ptoks[:len(prow)], 'prototype tokens before the exit')
      expect_eq(trow, ttoks[:len(trow)], 'target tokens before the exit')
    else:
      expect_eq(prow, ptoks, 'every prototype token is kept or deleted')
      expect_eq(trow, ttoks, 'every target token is kept or inserted')
    got = ed.extract_edit_summary_metrics(path, pro, tar)
    expect_eq({k: v for k, v in got.items()}, dict(metrics), 'metrics')
    out = ed.extract_edit_sequence_text(path, pro, tar)
    lines = out.split('\n')
    expect_eq(lines[-1], f'FINISH (total cost: {lines_total(lines)})',
              'total of the text script')
    expect(abs(lines_total(lines) - total) < 1e-9, 'script cost', out, total)
    kept = collections.Counter()
    shown = []
    for ln in lines[:-1]:
      m = re.fullmatch(r"(\w+), (\w+): ('.*'|\".*\") => (-?[\d.e-]+)", ln)
      expect(m, 'line of the text script', ln)
      kept[m.group(1)] += len(ast.literal_eval(m.group(3)))
      if m.group(1) == 'START_EDITING' or ast.literal_eval(m.group(3)):
        shown.append((m.group(1), m.group(2), ast.literal_eval(m.group(3))))
    # decorations are shown as kept/deleted/inserted text
    dec = sum(len(s) for s, (_, f) in zip(text, infos)
              if f.edit_action == A.PROTOTYPE_DECORATION)
    base = sum(len(s) for s, (_, f) in zip(text, infos)
               if f.edit_action in (A.KEEP, A.DELETE))
    expect_eq(kept['KEEP'] + kept['DELETE'], dec + base,
              'prototype text in the script')
    h = ed.extract_edit_sequence_html(path, pro, tar, prefix='<p>',
                                      start_editing_marker='@', 
                                      style_override='<style></style>')
    m = re.fullmatch(r'<style></style><span class="edit_sequence_root"><span '
                     r'class="prefix">&lt;p&gt;</span>((?:<span class="[\w ]*">'
                     r'[^<]*</span>)*)</span>', h, re.S)
    expect(m, 'html structure', h)
    spans = re.findall(r'<span class="([\w ]*)">([^<]*)</span>', m.group(1))
    expect_eq(len(spans), len(shown), 'one html element per step')
    prev = None
    for (cls, s), (act, conf, txt) in zip(spans, shown):
      words = [act.lower()]
      if act == 'INSERT' and prev:
        words.append('was_' + prev.lower())
      if conf in ('HIGH_CONFIDENCE', 'LOW_CONFIDENCE'):
        words.append(conf.lower())
        prev = conf
      else:
        prev = None
      expect_eq((sorted(cls.split()), html.unescape(s)),
                (sorted(words), '@' if act == 'START_EDITING' else txt),
                'html element of a step')
    cnt = collections.Counter()
    for cls, s in spans:
      s = html.unescape(s)
      for w in ('keep', 'delete', 'insert', 'start_editing'):
        if w in cls.split():
          cnt[w] += len(s)
    expect_eq((cnt['keep'], cnt['delete'], cnt['insert']),
              (kept['KEEP'], kept['DELETE'], kept['INSERT']), 'html text')


def lines_total(lines):
  m = re.fullmatch(r'FINISH \(total cost: (-?[\d.e-]+)\)', lines[-1])
  if not m:
    raise Fail(f'no total in {lines[-1]!r}')
  return float(m.group(1))


def flat(d):
  out = []

  def go(nodes):
    for i, n, kids in nodes:
      out.append((i, n))
      if kids is not None:
        go(kids)
  go(number(d)[0])
  return out


def runtime_contracts():
  return [LeastCost(), Script()]
