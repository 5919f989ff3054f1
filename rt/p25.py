"""Runtime contracts of the wrappers: suggestions keep their text, evaluation
uses the right costs, baselines decide what they say."""
import html
import warnings
from rt.p23 import *   # pylint: disable=wildcard-import
from rt import p22
from rt import p24
from rt.parsing import rcode
import numpy as np
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import call_sequence_wrapper as csw
from r_u_sure.wrappers import parser_tools as pt
from r_u_sure.wrappers import wrapper_base as wb
from r_u_sure.parsing import python_builtin_tokens as pbt
from r_u_sure.tree_structure import token_prob_align as tpa
from r_u_sure.tree_structure import transforms as tr
from r_u_sure.tree_structure import sequence_node_helpers as snh
from r_u_sure.decision_diagrams import consistent_path_dual_solver as cs

warnings.filterwarnings('ignore', category=RuntimeWarning)
_W = {}
FRACTIONS = (.1, .5, .8)
CUTOFFS = ((1, 1), (2, 1), (1, 2))


def wrapper(kind):
  if kind not in _W:
    _W[kind] = {
        'unsure': lambda: urw.UncertaintyRegionsWrapper(
            use_numba=False, effective_precision=.75,
            high_confidence_start_inserting_cost=2.,
            baseline_token_prob_thresholds=(.5,),
            baseline_example_fractions=FRACTIONS,
            baseline_depth_cutoffs=CUTOFFS),
        'prefix': lambda: ptw.PrefixByEditDistanceWrapper(use_numba=False),
        'prefix+': lambda: ptw.PrefixByEditDistanceWrapper(
            use_numba=False, also_insert_uncertainty_regions=True,
            start_editing_cost=1.),
    }[kind]()
  return _W[kind]


WORDS = ['a', 'b', 'foo', 'x.y', 'f(a)', 'f(a, b)', 'x = 1', '(', ')', '[1]',
         '\n', ' ', '\n  y', 'if a:\n  b', '"s"', '', 'def g(q):', '+']


def costs_of(w):
  c = Costs([0] * 8)
  for k, v in zip(FIELDS, w._utility_config):  # pylint: disable=protected-access
    setattr(c, k, v)
  return c


class WrapRC(RC):
  def gen(self, rng, n):
    pre = ''.join(rng.choice(WORDS) for _ in range(rng.randint(0, 4)))

    def sug():
      return ''.join(rng.choice(WORDS) + rng.choice(['', ' ', '\n']) for _ in
                     range(rng.randint(0, 4)))
    s = sug()
    ts = [sug() if rng.random() < .4 else s + rng.choice(['', ' z', '\n'])
          for _ in range(rng.randint(1, 3))]
    return dict(w=rng.choice(['unsure', 'prefix', 'prefix+']), pre=pre, s=s,
                ts=ts, k=rng.randint(0, 99))

  def exhaustive(self):
    for w in ('unsure', 'prefix', 'prefix+'):
      for pre in ('', 'a', 'f(', 'x = 1\n'):
        for s in ('', 'b', 'a b', ')', '(a)', 'y\nz'):
          yield dict(w=w, pre=pre, s=s, ts=[s, 'b'], k=0)

  def parse(self, txt):
    return pt.ParserHelper('python').parse_to_nodes(txt)

  def setup(self, case):
    if case['w'] not in ('unsure', 'prefix', 'prefix+') or not case['ts']:
      raise Skip
    w = wrapper(case['w'])
    loc = len(case['pre'])
    pro, info = w.process_prototype_and_context(
        self.parse(case['pre'] + case['s']), loc)
    tars = [w.process_target(self.parse(case['pre'] + t), loc)
            for t in case['ts']]
    return w, loc, pro, info, tars


def undump(st):
  return dump(ps.unpack(st))


class Prepare(WrapRC):
  name = 'prepared prototypes and targets hold exactly the suggestion'
  targets = ('edit_distance_wrapper_base.EditDistanceWrapperBase.'
             'process_target', 'uncertainty_regions_wrapper.'
             'UncertaintyRegionsWrapper.process_prototype_and_context')

  def check(self, case):
    _, loc, pro, info, tars = self.setup(case)
    d = undump(pro)
    expect_eq(text(d), case['s'], 'text of the prototype')
    expect_eq(info['context_prefix_contents'], case['pre'], 'context')
    for t, tar in zip(case['ts'], tars):
      td = undump(tar)
      expect_eq(text(td), t, 'text of the target')
      expect(not any(n[0] in 'SEX' for n in leaves(td)), 'plain target')
    full = dump(tr.truncate_prefix_at_offset(
        self.parse(case['pre'] + case['s']), loc))
    expect_eq(strip(d), strip(full), 'prototype without decision nodes')
    kinds = {n[0] for n in leaves(d)}
    if case['w'] == 'unsure':
      expect('X' not in kinds, 'no early exits', d)
    elif case['w'] == 'prefix':
      expect(not kinds & {'S', 'E'}, 'no region markers', d)


class System(WrapRC):
  name = 'the system averages the edit costs and evaluates solutions exactly'
  targets = ('edit_distance_wrapper_base.EditDistanceWrapperBase.build_system',
             'edit_distance_wrapper_base.EditDistanceWrapperBase.solution_info',
             'wrapper_base.compute_sample_system_info')
  weight = 3.0

  def gen(self, rng, n):
    c = super().gen(rng, n)
    for _ in range(9):
      s = rng.choice(['a', 'b', 'foo', 'x.y', '+', '\n', ' ', 'a b']) + (
          rng.choice(['', ' ', '\n', ' b'])) * (rng.random() < .5)
      ts = [rng.choice([s, s, s + 'z', ' ' + s, 'foo ' + s, 'b', s[:-1] + '+',
                        ''.join(rng.choice(WORDS) for _ in range(2))])
            for _ in range(rng.randint(1, 3))]
      c['s'], c['ts'] = s, ts
      if rng.random() < .7:
        break
    return c

  def check(self, case):
    w, loc, pro, info, tars = self.setup(case)
    d = undump(pro)
    if len(flat(d)) > 14:
      raise Skip
    c = costs_of(w)
    legal = p22.legal(d)
    ways = [meaning(c, d, undump(t)) for t in tars]
    system = w.build_system(pro, info, tars)
    tables = system.data.dag_tables
    expect_eq(len(tables), len(tars) + 1, 'one DAG per target and constraints')
    keys = sorted({k for a in legal for k, _ in a} |
                  {k for m in ways for a in m for k, _ in a})

    def norm(a):
      return tuple(dict(a).get(k, NA) for k in keys)
    L = {norm(a) for a in legal}
    M = []
    for m in ways:
      r = {}
      for a, v in m.items():
        put(r, norm(a), v)
      M.append(r)
    both = [a for a in L if all(a in r for r in M)]
    if not both or not keys:
      raise Skip
    avg = {a: sum(r[a] for r in M) / len(M) for a in both}
    best = min(avg.values())
    results, _ = cs.solve_system_with_sweeps(system_data=system.data,
                                             soft_timeout=5.0)[:2], None
    vec, cost = cs.greedy_extract(system.data,
                                  direction=cs.SweepDirection.FORWARD)
    asg = cs.assignments_from_assignment_vector(system, vec)
    a = tuple(asg.get(rd.DecisionKey(*k), NA) for k in keys)
    if cost < 1e5:
      expect(a in avg, 'the extracted decisions are legal', a)
      expect(abs(cost - avg[a]) < 1e-6, 'cost is the average edit cost',
             cost, avg[a])
      expect(cost >= best - 1e-6, 'not better than the optimum', cost, best)
    # evaluation of any legal decisions, against a single target
    a = sorted(both)[case['k'] % len(both)]
    full = {rd.DecisionKey(*k): v for k, v in zip(keys, a)}
    ti = case['k'] % len(tars)
    one = w.build_system(pro, info, [tars[ti]])
    r = w.solution_info(pro, tars[ti], info, one, full, sample_system=system)
    expect(abs(r['total_cost'] - M[ti][a]) < 1e-6, 'evaluated cost',
           r['total_cost'], M[ti][a])
    costs = [m[a] for m in M]
    expect(np.allclose(r['sample_system_costs_unsorted'], costs),
           'costs of the samples', r['sample_system_costs_unsorted'], costs)
    expect(np.allclose(r['sample_system_costs'], sorted(costs)), 'sorted')
    expect(abs(r['sample_system_cost_average'] - sum(costs) / len(costs)) <
           1e-6, 'average')
    if len(costs) > 1:
      mean = sum(costs) / len(costs)
      expect(abs(r['sample_system_cost_variance'] - sum(
          (x - mean) ** 2 for x in costs) / (len(costs) - 1)) < 1e-6,
             'sample variance', r['sample_system_cost_variance'], costs)
    by_edit = sum(v for k, v in r.items() if k.endswith('_cost') and
                  k[0].isupper())
    expect(abs(by_edit - r['total_cost']) < 1e-6,
           'the costs by kind of edit add up', r)
    for none in (w.solution_info(pro, None, info, None, full),
                 w.solution_info(pro, None, info, one, full),
                 w.solution_info(pro, tars[ti], info, None, full)):
      expect_eq(none, {'extracted_parts': r['extracted_parts']},
                'nothing is reported without a target')
    # weighted samples
    f = [(case['k'] + 3 * i) % 5 / 4 + .25 for i in range(len(tars))]
    ws = w.build_system(pro, info, tars, target_utility_scale_factors=f)
    fixed = cs.clone_system(ws)
    cs.constrain_system(fixed, {k: v for k, v in full.items()
                                if k in set(ws.variable_keys)}, penalty=1e6)
    cs.solve_system_with_sweeps(system_data=fixed.data, soft_timeout=5.0)
    vec, cost = cs.greedy_extract(fixed.data,
                                  direction=cs.SweepDirection.FORWARD)
    got = cs.assignments_from_assignment_vector(fixed, vec)
    if all(got.get(k, v) == v for k, v in full.items()) and cost < 1e5:
      want = sum(x * y for x, y in zip(f, costs))
      expect(abs(cost - want) < 1e-6, 'weighted cost', cost, want)
    low = sum(x < M[ti][a] - 1e-7 for x in costs)
    eq = sum(x <= M[ti][a] + 1e-7 for x in costs)
    expect(low <= r['true_cost_rank_in_sample_system'] <= eq, 'rank')
    parts = r['extracted_parts']
    s = ''.join(t for t, _ in parts)
    if any(k[1] == X and v == T for k, v in zip(keys, a)):
      expect(case['s'].startswith(s), 'a prefix of the suggestion', s)
    else:
      expect_eq(s, case['s'], 'the extracted parts are the suggestion')
    h = w.render_solution_html(pro, info, full)
    expect(html.escape(case['pre']) in h, 'context in the html')


class PrefixBaselines(WrapRC):
  name = 'prefix baselines stop where they say'
  targets = ('prefix_truncation_wrapper.PrefixByEditDistanceBaselineBuilder',)

  def gen(self, rng, n):
    c = super().gen(rng, n)
    c['w'] = 'prefix'
    c['lp'] = [rng.choice([0, -1, -2, -8, -3]) for _ in range(
        rng.randint(1, 9))]
    c['n'] = rng.randint(0, 9)
    return c

  def exhaustive(self):
    for s in ('', 'a', 'a b\nc', 'f(a)\ny\nz'):
      for lp in ([0], [-2], [-1, -8, 0]):
        yield dict(w='prefix', pre='', s=s, ts=[s], k=0, lp=lp, n=2)

  def check(self, case):
    w, loc, pro, info, tars = self.setup(case)
    if case['w'] != 'prefix' or not case['lp'] or not all(
        isinstance(x, int) and x <= 0 for x in case['lp']) or not isinstance(
            case['n'], int):
      raise Skip
    # one model token per character
    toks = [(ch, case['lp'][i % len(case['lp'])] / 4)
            for i, ch in enumerate(case['s'])]
    b = ptw.PrefixByEditDistanceBaselineBuilder(
        prototype=pro, prototype_suggestion_as_target=tars[0],
        context_info=info, model_tokens_and_log_probs=toks)
    rows = flat(undump(pro))
    exits = [i for i, n in rows if n[0] == 'X']
    lps, pos = {}, 0
    for i, n in rows:
      if n[0] in 'TD':
        if n[0] == 'T':
          lps[i] = sum(x for _, x in toks[pos:pos + len(n[1])])
        pos += len(n[1])

    def want(at):
      out, gone = {}, False
      for i in exits:
        v = T if i == at else NA if gone else F
        gone = gone or i == at
        out[rd.DecisionKey(i, X)] = v
      return out

    def first(after):
      return next((e for e in exits if e > after), None)

    def before_or_after(i):
      prev = [e for e in exits if e < i]
      return prev[-1] if prev else first(i)
    n = case['n']
    # characters: the first exit at which at least n token characters were
    # shown (the count is looked at after each token)
    tot, at = 0, None
    for i, x in rows:
      if x[0] == 'T':
        tot += len(x[1])
        if tot >= n:
          at = first(i)
          break
    expect_eq(b.baseline_assignment_from_characters(n), want(at), 'characters')
    tot, at = 0, None
    for i, x in rows:
      if x[0] == 'D' and '\n' in x[1]:
        tot += 1
        if tot >= n:
          at = first(i)
          break
    expect_eq(b.baseline_assignment_from_lines(n), want(at), 'lines')
    for cum in (False, True):
      for thr in (.3, .7):
        cur, at = 0., None
        for i, x in rows:
          if x[0] == 'T' and x[1]:
            cur = cur + lps[i] if cum else lps[i]
            if abs(math.exp(cur) - thr) < 1e-9:
              raise Skip
            if math.exp(cur) < thr:
              at = before_or_after(i)
              break
        expect_eq(b.baseline_assignment_from_token_prob(thr, cum), want(at),
                  f'token probability, cumulative={cum}')
    bestv, at, cur, k = -math.inf, None, 0., 0
    for i, x in rows:
      if x[0] == 'X' and k:
        if cur / k > bestv + 1e-12:
          bestv, at = cur / k, i
        elif abs(cur / k - bestv) <= 1e-12 and cur / k != bestv:
          raise Skip
      elif x[0] == 'T' and x[1]:
        cur += lps[i]
        k += 1
    expect_eq(b.baseline_assignment_from_max_average_log_prob(), want(at),
              'average log probability')
    at, k = None, 0
    for i, x in rows:
      if x[0] == 'T' and x[1]:
        if math.exp(lps[i]) < .8 / (1 + math.exp(-k / 10.)):
          at = before_or_after(i)
          break
        k += 1
    expect_eq(b.baseline_assignment_from_intellicode_compose(), want(at),
              'intellicode compose')


def least(nodes, mode, ok, weight):
  """{mode at the end: least weight} over well-nested region decisions.

  ok(i, category, value): is the decision allowed; weight(i, n, inside).
  """
  res = {mode: 0.0}
  for i, n, kids in nodes:
    new = {}
    for m, w0 in res.items():
      k = n[0]
      opts = []
      here = F if m == 'out' else T
      if k == 'D':
        opts = [(m, 0.0)]
      elif k == 'T':
        opts = [(m, weight(i, n, here))] if ok(i, IN, here) else []
      elif k == 'S':
        opts = [(m, 0.0)] if m != 'out' and ok(i, S, NA) else []
        if m == 'out':
          opts = [('out', 0.0)] if ok(i, S, F) else []
          if ok(i, S, T):
            opts.append(('temp', weight(i, n, T)))
      elif k == 'E':
        if m == 'out':
          opts = [(m, 0.0)] if ok(i, E, NA) else []
        else:
          opts = [(m, 0.0)] if ok(i, E, F) else []
          if m == 'temp' and ok(i, E, T):
            opts.append(('out', 0.0))
      elif k == 'G' and ok(i, IN, here):
        inner = 'out' if m == 'out' else 'forced'
        r = least(kids, inner, ok, weight)
        if inner in r:
          opts = [(m, r[inner])]
      for m2, w in opts:
        if w0 + w < new.get(m2, math.inf):
          new[m2] = w0 + w
    res = new
  return res


class RegionBaselines(WrapRC):
  name = 'region baselines mark the tokens they name and stay well-nested'
  targets = ('uncertainty_regions_wrapper.UncertaintyRegionsBaselineBuilder',)
  weight = 3.0

  def gen(self, rng, n):
    c = super().gen(rng, n)
    c['s'] = ''.join(rng.choice(WORDS) + rng.choice(['', ' ', '\n'])
                     for _ in range(rng.choice([1, 1, 2, 2, 3])))
    c['ts'] = [c['s']]
    c['w'] = 'unsure'
    c['lp'] = [rng.choice([0, -1, -2, -8, -3]) for _ in range(
        rng.randint(1, 9))]
    return c

  def exhaustive(self):
    for s in ('a', 'a b', 'f(a)', 'a\nb'):
      for lp in ([0], [-9], [-9, 0]):
        yield dict(w='unsure', pre='', s=s, ts=[s], k=0, lp=lp)

  def check(self, case):
    w, loc, pro, info, tars = self.setup(case)
    if case['w'] != 'unsure' or not case['lp'] or not all(
        isinstance(x, int) and x <= 0 for x in case['lp']):
      raise Skip
    d = undump(pro)
    rows = flat(d)
    if len(rows) > (60 if case['k'] % 16 == 0 else 24) or not any(
        n[0] in 'TSE' for _, n in rows):
      raise Skip
    nodes = number(d)[0]
    c = costs_of(w)
    if min(c.hm, c.lm, c.hs, c.ls, c.hd, c.ld) < 0:
      raise Skip
    toks = [(ch, case['lp'][i % len(case['lp'])] / 4)
            for i, ch in enumerate(case['s'])]
    same = w.process_target(self.parse(case['pre'] + case['s']), loc)
    got = w.build_baseline_assignments(pro, same, info, toks)
    lps, start, pos = {}, {}, 0
    for i, n in rows:
      if n[0] in 'TD':
        if n[0] == 'T':
          lps[i] = sum(x for _, x in toks[pos:pos + len(n[1])])
          start[i] = pos
        pos += len(n[1])
    # an empty token takes what the aligner (P16) gives it
    for i, v in tpa.align_token_log_probs(toks, pro).items():
      if not dict(rows)[i][1]:
        lps[i] = v
    words = {i: n[1] for i, n in rows if n[0] == 'T'}
    marks = {}
    near = False
    for cum in (False, True):
      cur, m = 0., set()
      for i in words:
        cur = cur + lps[i] if cum else lps[i]
        near = near or abs(math.exp(cur) - .5) < 1e-9
        if math.exp(cur) < .5 and words[i]:
          m.add(i)
      marks['prob_threshold_0.5_' + ('cumulative' if cum else 'nonempty')] = m
    for fr in FRACTIONS:
      upto = fr * len(case['s'])
      marks[f'example_fraction_{fr}'] = {
          i for i in words if words[i] and start[i] + len(words[i]) > upto}
    depth_ = {}

    def go(nodes, lv):
      for i, n, kids in nodes:
        if n[0] == 'T':
          depth_[i] = lv
        elif n[0] == 'G':
          go(kids, lv + 1)
    go(number(d)[0], 0)
    f = depth_[min(depth_)] if depth_ else 0
    for anc, child in CUTOFFS:
      marks[f'cutoff_anc_{anc}_child_{child}'] = {
          i for i in depth_ if not f - anc < depth_[i] < f + child}
    if near:
      raise Skip
    expect_eq(set(got), set(marks), 'names of the baselines')
    for name, m in marks.items():
      a = got[name]
      low = {k.prototype_preorder_index for k, v in a.items()
             if k.category == IN and v == T and
             k.prototype_preorder_index in words}

      def chosen(i, cat, v):
        return a.get(rd.DecisionKey(i, cat), NA) == v

      def weight(i, n, here):
        # matching everything is the best edit into itself
        if n[0] == 'S':
          return c.reg
        return (1e6 if i in m and here == F else 0.0) - len(n[1]) * (
            c.hm if here == F else c.lm)
      got_cost = least(nodes, 'out', chosen, weight).get('out')
      expect(got_cost is not None, f'{name}: decisions are well-nested', a)
      best = least(nodes, 'out', lambda *_: True, weight)['out']
      if best < 5e5:
        expect(m <= low, f'{name}: the named tokens are marked', m, low)
      expect(got_cost <= best + 1e-5,
             f'{name}: marks no more than that takes', m, low, got_cost, best)


class Calls(RC):
  name = 'call extraction: every call keeps its text and its parts'
  targets = ('call_sequence_wrapper.ApiCallSequenceWrapper',)

  def gen(self, rng, n):
    pool = ['a', 'b.c', 'f(x)', 'g.h(1, 2)', 'x = f(y)', 'return q(z)',
            'def f(a):', 'class A(B):', 'k((1))', '[m(n)]', 'p()', 'if r(s):',
            't(u(v))', 'w . x(y)', 'await f()']
    return dict(pre='\n'.join(rng.choice(pool) for _ in range(
        rng.randint(0, 2))), s='\n'.join(rng.choice(pool) for _ in range(
            rng.randint(0, 3))), t='\n'.join(rng.choice(pool) for _ in range(
                rng.randint(0, 3))))

  def exhaustive(self):
    for s in ('f(x)', 'a.b(c)', 'x = f()', 'def f(a):', '[m(n)]', ''):
      for pre in ('', 'f\n', 'q(z)\n'):
        yield dict(pre=pre, s=s, t=s)

  def check(self, case):
    if 'calls' not in _W:
      _W['calls'] = csw.ApiCallSequenceWrapper(use_numba=False)
    w = _W['calls']
    P = pt.ParserHelper('python')
    full = case['pre'] + '\n' + case['s']
    loc = len(case['pre']) + 1
    if not case['pre']:
      full, loc = case['s'], 0
    tree = P.parse_to_nodes(full)
    pro, _ = w.process_prototype_and_context(tree, loc)
    d = undump(pro)
    # the tokens that start before the cursor
    context, pos = set(), 0
    for n in leaves(dump(tree)):
      if n[0] == 'T' and pos < loc:
        context.add(n[1])
      pos += len(n[1])
    expect_eq(csw.extract_context_tokens(tree, loc), context,
              'tokens of the context')
    known = context | set(pbt.PYTHON_BUILTIN_TOKENS)
    for i in range(0, len(d), 2):
      expect(d[i][0] == 'G' and d[i][2] == 'API_CALL', 'a call', d[i])
      expect_eq(d[i + 1], ('D', '\n'), 'calls are separated')
      ch = d[i][1]
      expect(text(ch) in full, 'text of the call is in the source', text(ch))
      expect(ch[0] == ('S',) and ch[-1] == ('E',), 'markers at the ends', ch)
      expect_eq(ch[-2], ('T', ')', 'END_CALL'), 'closing bracket')
      expect(ch[-3][0] == 'T' and ch[-3][2] == (
          'ARGS' if ch[-3][1] else 'EMPTY_ARGS'), 'arguments', ch[-3])
      expect_eq(ch[-5:-3], (('T', '(', 'START_CALL'), ('E',)), 'opening')
      prev = None
      for n in ch[:-5]:
        if n[0] == 'T' and n[1] != '.':
          expect(n[2] in ('EXPECTED', 'NOVEL'), 'name', n)
          expect_eq(n[2], 'EXPECTED' if n[1] in known else 'NOVEL',
                    f'is {n[1]!r} new')
        if n[0] == 'T' and n[1] == '.':
          expect(prev == ('S',) and n[2] == 'ATTRIBUTE_DOT',
                 'a region can start at every dot', n)
        if n[0] == 'D' and n[1].strip() == '':
          pass
        expect(n[0] in 'TDS', 'node kinds', n)
        prev = n
    tp = w.process_target(P.parse_to_nodes(full[:loc] + case['t']), loc)
    if case['t'] == case['s']:
      expect_eq(undump(tp), strip(d), 'the target is the prototype')
    if not d:
      return
    base = w.build_baseline_assignments(pro, tp, {}, [])
    expect_eq(set(base), {'all_calls_full', 'all_calls_shorter',
                          'novel_calls_shorter'}, 'baselines')
    for name, a in base.items():
      got, cur = [], None
      rows = flat(d)
      for i, n in rows:
        if n[0] == 'S' and a[rd.DecisionKey(i, S)] == T:
          expect(cur is None, 'nested region', name)
          cur = ''
        elif n[0] == 'E' and a[rd.DecisionKey(i, E)] == T:
          got.append(cur)
          cur = None
        elif n[0] in 'TD' and cur is not None:
          cur += n[1]
      expect(cur is None, 'closed')
      want = []
      for g in d[::2]:
        ch = g[1]
        novel = any(n[0] == 'T' and n[2] == 'NOVEL' for n in tail(ch))
        if name == 'all_calls_full':
          want.append(text(ch))
        elif name == 'all_calls_shorter' or novel:
          want.append(text(tail(ch)))
      expect_eq(got, want, name)
    system = w.build_system(pro, {}, [tp])
    U = {'NOVEL': 10., 'EXPECTED': 1., 'ARGS': 1., 'EMPTY_ARGS': 1.}
    for name, a in base.items():
      r = w.solution_info(pro, tp, {}, system, a, sample_system=system)
      ins, on = [], False
      for i, n in flat(d):
        if n[0] == 'S' and a[rd.DecisionKey(i, S)] == T:
          on = True
        elif n[0] == 'E' and a[rd.DecisionKey(i, E)] == T:
          on = False
        elif n[0] == 'T' and on:
          ins.append(n[2])
      cost, low = 0.0, 0.0
      for f, k in (('novel', 'NOVEL'), ('not_novel', 'EXPECTED'),
                   ('args', 'ARGS')):
        g, b = r['correct_' + f], r['deleted_' + f]
        expect_eq(g + b, ins.count(k), f'{name}: every {k} part is counted')
        cost += U[k] * (.3 * b - .7 * g)
      k = ins.count('EMPTY_ARGS')
      expect(cost - .7 * k - 1e-6 <= r['total_cost'] <= cost + .3 * k + 1e-6,
             f'{name}: the counts explain the cost', r, k)
      expect(np.allclose(r['sample_system_costs_unsorted'],
                         [r['total_cost']]), 'cost of the only sample', r)
      h = w.render_pairwise_matching_html(pro, [tp], {}, system, a)
      words = [x for n in re.findall('(?:MATCHED|WRONG): (.*?)<br>', h, re.S)
               for x in html.unescape(n).split()]
      expect_eq(''.join(words), ''.join(''.join(
          (x or '').split()) for x, q in r['extracted_parts'] if q),
                'the selected parts are shown')
      if len(flat(d)) <= 24:
        try:
          ways = p24.meaning(
              d, undump(tp), lambda n: .7 * U.get(n[2], 0.),
              lambda n: .3 * U.get(n[2], 0.),
              {tuple(k): v for k, v in a.items()})
        except Skip:
          continue
        best = min(ways.values())
        expect(abs(r['total_cost'] - best) < 1e-6,
               f'{name}: cost of the best match', r['total_cost'], best)
    r = w.solution_info(pro, tp, {}, system, base['all_calls_full'])
    calls = [[n for n in g[1] if n[0] == 'T'] for g in d[::2]]
    tc = [n for n in leaves(undump(tp))]
    if case['t'] == case['s']:
      words = [n for c in calls for n in c]
      expect_eq((r['correct_novel'], r['correct_not_novel'],
                 r['correct_args'], r['deleted_novel'],
                 r['deleted_not_novel'], r['deleted_args']),
                (sum(n[2] == 'NOVEL' for n in words),
                 sum(n[2] == 'EXPECTED' for n in words),
                 sum(n[2] == 'ARGS' for n in words), 0, 0, 0), 'counts')
      val = {'NOVEL': 10., 'EXPECTED': 1., 'ARGS': 1., 'EMPTY_ARGS': 1.}
      expect(abs(r['total_cost'] + .7 * sum(val.get(n[2], 0.) for n in words)
                 ) < 1e-6, 'cost of a perfect prediction', r['total_cost'])


def tail(ch):
  """Shorter call: from the last whitespace up to the opening bracket."""
  upto = list(ch[:-4])
  for j in range(len(upto) - 1, -1, -1):
    if upto[j][0] == 'D':
      return upto[j + 1:]
  return upto


def runtime_contracts():
  return [Prepare(), System()]
