"""Runtime contracts of packed DAGs: shortest paths under penalties."""
from rt.dags import *   # pylint: disable=wildcard-import

NK, NV = 4, 3
NA = 0
STRAT = list(pk.MinimalCostComputationStrategy)


def pruned(c):
  """Drops what is on no finite path; None if there is no path."""
  ps = paths(c)
  if not ps:
    return None
  keep = sorted({i for p in ps for i in p})
  return dict(n=c['n'], e=[c['e'][i] for i in keep])


class Ref:
  """Brute force over paths."""

  def __init__(self, c, pen=None):
    self.c = c
    self.keys = sorted({e[3] for e in c['e'] if e[3] != -1})
    self.paths = []
    for p in paths(c):
      asg = {k: NA for k in self.keys}
      asg.update({c['e'][i][3]: c['e'][i][4] for i in p if c['e'][i][3] != -1})
      self.paths.append((p, sum(cost(c['e'][i]) for i in p), asg))
    self.pen = {(k, v): 0.0 for k in self.keys for v in range(NV)}

  def total(self, p):
    return p[1] + sum(self.pen[kv] for kv in p[2].items())

  def best(self):
    return min([self.total(p) for p in self.paths], default=INF)

  def marg(self, k, v):
    return min([self.total(p) for p in self.paths if p[2][k] == v],
               default=INF)


def same(a, b):
  a, b = float(a), float(b)
  return a == b or abs(a - b) < 1e-9


class Conv(RC):
  nk = NK

  def gen(self, rng, n):
    c = gen_dag(rng, rng.randint(0, self.nk), NV, inf=0)
    return dict(d=c, k=rng.randint(0, 30),
                ops=[[rng.randint(0, 9), rng.randint(0, self.nk - 1),
                      [rng.choice([0, 1, 2, 5, 9, -1, 40]) for _ in
                       range(NV)]] for _ in range(rng.randint(0, 9))])

  def exhaustive(self):
    cand = [[i, j, c, k, v] for i, j in ((0, 1), (0, 2), (1, 2))
            for c in (1, 2) for k, v in ((-1, 0), (0, 0), (0, 1), (1, 1))]
    for m in range(1, 4):
      for es in itertools.product(cand, repeat=m):
        yield dict(d=dict(n=3, e=[list(e) for e in es]), k=m, ops=[])

  def conv(self, case):
    check_dag(case['d'], NK, NV)
    c = pruned(case['d'])
    if c is None or not c['e']:
      raise Skip
    ref = Ref(c)
    # precondition: every path assigns in key order, each key once
    for p, _, _ in ref.paths:
      ks = [c['e'][i][3] for i in p if c['e'][i][3] != -1]
      if any(a >= b for a, b in zip(ks, ks[1:])):
        raise Skip
    dag, f = real(c, case['k'])
    orders = [None, [0, 1, 2], [2, 1, 0], [1, 0, 2]]
    vo = orders[case['k'] % 4]
    packed, data = pk.convert_dag_to_packed(dag, NA, vo)
    return c, ref, dag, packed, data, vo


class Structure(Conv):
  name = 'the packed DAG has exactly the paths of the DAG, grouped by variable'
  targets = ('packed_dags.convert_dag_to_packed',)

  def check(self, case):
    c, ref, dag, packed, data, vo = self.conv(case)
    vals = vo or sorted({NA} | {e[4] for e in c['e'] if e[3] != -1})
    expect_eq(list(data.variable_keys), ref.keys, 'keys')
    expect_eq(list(data.variable_values), vals, 'values')
    expect_eq((packed.num_variable_keys, packed.num_variable_values),
              (len(ref.keys), len(vals)), 'sizes')
    expect_eq(dict(data.variable_key_index_from_key),
              {k: i for i, k in enumerate(ref.keys)}, 'key index')
    expect_eq(dict(data.variable_value_index_from_value),
              {v: i for i, v in enumerate(vals)}, 'value index')
    m = packed.packed_edge_matrix
    ns = packed.num_tagged_states
    expect_eq(len(data.tagged_states), ns, 'tagged states')
    expect_eq(len(set(data.tagged_states)), ns, 'tagged states are distinct')
    expect_eq(len(data.tagged_edges), len(m), 'tagged edges')
    idx = {s: i for i, s in enumerate(data.tagged_states)}
    out = [[] for _ in range(ns)]
    gb = list(packed.edge_group_boundary_indices)
    expect_eq(len(gb), 2 * len(ref.keys) + 2, 'group boundaries')
    expect(gb[0] == 0 and gb[-1] == len(m) and gb == sorted(gb),
           'boundaries cover the edges', gb)
    sb = list(packed.state_variable_boundary_indices)
    expect(sb[0] == 0 and sb[-1] == ns and sb == sorted(sb),
           'boundaries cover the states', sb)
    for i, s in enumerate(data.tagged_states):
      t = s.last_variable_index
      expect(sb[t + 1] <= i < sb[t + 2], 'state lies in its tag range', i)
    for g in range(len(gb) - 1):
      for i in range(gb[g], gb[g + 1]):
        e, te = m[i], data.tagged_edges[i]
        s, d = int(e['source_index']), int(e['dest_index'])
        expect_eq((s, d), (idx[te.source], idx[te.dest]), 'edge ends')
        expect_eq(float(e['cost']), float(te.cost), 'edge cost')
        out[s].append(i)
        if g % 2 == 0:
          expect(te.required_assignment is None and
                 e['required_assignment_key_index'] == -1 and
                 e['required_assignment_value_index'] == -1,
                 'edge between groups assigns something')
        else:
          expect_eq(int(e['required_assignment_key_index']), g // 2, 'key')
          expect_eq((te.required_assignment.key, vals[int(
              e['required_assignment_value_index'])]),
                    (ref.keys[g // 2], te.required_assignment.value),
                    'assignment')
    expect_eq([list(x) for x in
               data.outgoing_edge_indices_for_tagged_state_index], out,
              'outgoing edges')
    # processing order: all edges into a state precede the edges out of it
    done = set()
    for e in m:
      expect(int(e['dest_index']) not in done, 'edge order')
      done.add(int(e['source_index']))
    # paths
    got = []

    def go(s, acc, asg, co):
      if len(got) > 5000:
        raise Skip
      if s == ns - 1:
        got.append((tuple(acc), co, tuple(sorted(asg.items()))))
        return
      for i in out[s]:
        te = data.tagged_edges[i]
        a2 = dict(asg)
        if te.required_assignment is not None:
          expect(te.required_assignment.key not in a2, 'assigned twice')
          a2[te.required_assignment.key] = te.required_assignment.value
        go(int(m[i]['dest_index']), acc + (
            [int(te.info)] if te.info is not None and te.info >= 0 else []),
           a2, co + float(te.cost))
    go(0, [], {}, 0.0)
    want = [(tuple(p), co, tuple(sorted(a.items()))) for p, co, a in ref.paths]
    expect_eq(sorted(got), sorted(want), 'paths')


class Marginals(Conv):
  name = 'costs and paths are optimal under every history of penalties'
  targets = ('packed_dags.set_penalties', 'packed_dags.update_prefixes_up_to',
             'packed_dags.update_suffixes_up_to',
             'packed_dags.compute_min_marginals_for_variable',
             'packed_dags.compute_all_min_marginals',
             'packed_dags.compute_minimal_cost',
             'packed_dags.extract_minimal_cost_path_and_assignments',
             'packed_dags.make_fully_valid', 'packed_dags.copy_memo',
             'packed_dags.masked_prefixes', 'packed_dags.masked_suffixes',
             'packed_dags.empty_table', 'packed_dags.scale_packed_dag_costs')
  weight = 2.5

  def exhaustive(self):
    for c in super().exhaustive():
      if c['k'] < 3:
        yield dict(c, ops=[[0, 0, [0, 0, 0]], [1, 0, [4, 0, 2]],
                           [0, 1, [0] * 3], [1, 1, [0, 9, 1]],
                           [3, 0, [0] * 3], [4, 0, [0] * 3]])

  def check(self, case):
    c, ref, dag, packed, data, vo = self.conv(case)
    vals = list(data.variable_values)
    nk = len(ref.keys)
    edges0 = packed.packed_edge_matrix.copy()
    if case['k'] % 5 == 4:
      ref.pen.update({(k, v): (k + 2 * v) / 2 for k in ref.keys
                      for v in range(NV)})
      given = np.array([[ref.pen[(k, v)] for v in vals] for k in ref.keys]
                       ).reshape((nk, len(vals)))
      memo = pk.empty_table(packed, given)
      given[...] = 99.
    else:
      memo = pk.empty_unpenalized_table(packed)
    others = []

    def query(memo, op, a, pen):
      if op == 0 and nk:
        k = ref.keys[a % nk]
        got = pk.compute_min_marginals_for_variable(memo, a % nk)
        want = [ref.marg(k, v) for v in vals]
        expect(len(got) == len(want) and all(map(same, got, want)),
               f'min marginals of {k}', list(map(float, got)), want)
      elif op == 1 and nk:
        k = ref.keys[a % nk]
        vec = [INF if x == 40 else x / 4 for x in pen][:len(vals)]
        pk.set_penalties(memo, a % nk, np.array(vec, dtype=np.float64))
        for v, x in zip(vals, vec):
          ref.pen[(k, v)] = x
      elif op == 2:
        if nk:
          pk.update_prefixes_up_to(memo, a % (nk + 1) - 1)
          pk.update_suffixes_up_to(memo, (a + pen[0]) % (nk + 1) - 1)
      elif op == 3:
        for s in (STRAT[a % 3],) if a else STRAT:
          got = pk.compute_minimal_cost(memo, s)
          expect(same(got, ref.best()), f'minimal cost {s}', float(got),
                 ref.best())
      elif op == 4:
        if ref.best() == INF:
          return
        for tagged in (False, True):
          path, asg = pk.extract_minimal_cost_path_and_assignments(
              memo, data, tagged)
          expect_eq(sorted(asg), ref.keys, 'every variable is assigned')
          if tagged:
            continue
          pos = [e.info[1] for e in path]
          hit = [p for p in ref.paths if p[0] == [
              i for i in pos]]
          expect(hit, 'extracted path is a path', pos)
          expect_eq({k: v for k, v in asg.items()}, hit[0][2],
                    'assignments of the path')
          expect(same(ref.total(hit[0]), ref.best()), 'path is optimal',
                 ref.total(hit[0]), ref.best())
      elif op == 5 and nk:
        got = pk.compute_all_min_marginals(memo)
        for i, k in enumerate(ref.keys):
          want = [ref.marg(k, v) for v in vals]
          expect(all(map(same, got[i], want)), f'all marginals: {k}',
                 list(map(float, got[i])), want)
      elif op in (6, 7):
        pre, suf = pk.masked_prefixes(memo), pk.masked_suffixes(memo)
        wp, ws = tables(packed, memo.penalties)
        for i in range(packed.num_tagged_states):
          expect(np.isnan(pre[i]) or same(pre[i], wp[i]), f'prefix {i}',
                 float(pre[i]), wp[i])
          expect(np.isnan(suf[i]) or same(suf[i], ws[i]), f'suffix {i}',
                 float(suf[i]), ws[i])
          if op == 7:
            pre[i] = suf[i] = 77.
      elif op == 8:
        pk.make_fully_valid(memo)
        expect(not np.isnan(pk.masked_prefixes(memo)).any() and
               not np.isnan(pk.masked_suffixes(memo)).any(),
               'fully valid tables')
    for op, a, pen in case['ops']:
      if len(pen) != NV or a < 0:
        raise Skip
      if op == 9:
        cp = pk.copy_memo(memo)
        others.append((memo if a % 2 else cp, dict(ref.pen)))
        memo = cp if a % 2 else memo
      query(memo, op, a, pen)
    for op in (3, 4, 5, 6):
      query(memo, op, 0, [0] * NV)
    for m, pen in others:
      ref.pen = pen
      for op in (5, 3, 4):
        query(m, op, 0, [0] * NV)
    expect((packed.packed_edge_matrix == edges0).all(), 'edges modified')
    sc = pk.scale_packed_dag_costs(packed, 2.5)
    ref2 = Ref(c)
    got = pk.compute_minimal_cost(pk.empty_unpenalized_table(sc))
    expect(same(got, 2.5 * ref2.best()), 'scaled costs', float(got))
    expect((packed.packed_edge_matrix == edges0).all(),
           'scaling modified the DAG')


def tables(packed, pen):
  ns = packed.num_tagged_states
  wp, ws = [INF] * ns, [INF] * ns
  wp[0], ws[-1] = 0.0, 0.0
  es = []
  for e in packed.packed_edge_matrix:
    k, v = (int(e['required_assignment_key_index']),
            int(e['required_assignment_value_index']))
    es.append((int(e['source_index']), int(e['dest_index']),
               float(e['cost']) + (float(pen[k, v]) if k >= 0 else 0.0)))
  for s, d, c in es:
    wp[d] = min(wp[d], wp[s] + c)
  for s, d, c in es[::-1]:
    ws[s] = min(ws[s], ws[d] + c)
  return wp, ws


class Constrained(Conv):
  name = 'the constrained best path is the best path with those assignments'
  targets = ('packed_dags.constrained_best_path',)
  weight = .7

  def check(self, case):
    c, ref, dag, packed, data, vo = self.conv(case)
    cons = {}
    vals = list(data.variable_values)
    for op, a, pen in case['ops']:
      if ref.keys and len(cons) < 3:
        v = pen[0] % NV
        if v in vals:
          cons[ref.keys[a % len(ref.keys)]] = v
    ok = [p for p in ref.paths if all(p[2][k] == v for k, v in cons.items())]
    if not ok:
      return
    path, asg = pk.constrained_best_path(packed, data, cons)
    hit = [p for p in ref.paths if p[0] == [e.info[1] for e in path]]
    expect(hit, 'not a path')
    for k, v in cons.items():
      expect_eq(asg[k], v, f'constraint on {k}')
    expect_eq(dict(asg), hit[0][2], 'assignments')
    expect(same(hit[0][1], min(p[1] for p in ok)), 'optimal', hit[0][1],
           min(p[1] for p in ok))


class OrderViolations(RC):
  name = 'DAGs that assign variables twice or out of order are rejected'
  targets = ('packed_dags.convert_dag_to_packed',)
  weight = .5

  def gen(self, rng, n):
    c = gen_dag(rng, 3, NV, inf=0)
    for e in c['e']:
      if rng.random() < .25:
        e[3] = rng.randint(-1, 2)
    return dict(d=c)

  def check(self, case):
    check_dag(case['d'], NK, NV)
    c = pruned(case['d'])
    if c is None or not c['e']:
      raise Skip
    bad = False
    for p, _, _ in Ref(c).paths:
      ks = [c['e'][i][3] for i in p if c['e'][i][3] != -1]
      bad = bad or any(a >= b for a, b in zip(ks, ks[1:]))
    try:
      pk.convert_dag_to_packed(real(c)[0], NA, None)
      ok = True
    except ValueError:
      ok = False
    expect_eq(ok, not bad, 'accepted iff variables are assigned in order')


def runtime_contracts():
  return [Structure(), Marginals(), Constrained(), OrderViolations()]
