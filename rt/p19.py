"""Runtime contracts of the dual solver on systems of DAGs."""
from rt.dags import *   # pylint: disable=wildcard-import
from rt import p18
from r_u_sure.decision_diagrams import consistent_path_dual_solver as so

NK, NV = 4, 3
NA = 0
EPS = 1e-6
FWD, REV = so.SweepDirection.FORWARD, so.SweepDirection.REVERSE


class Sys:
  """A system and its brute force meaning."""

  def __init__(self, case):
    self.refs, conv = [], []
    if not case['ds']:
      raise Skip
    for c in case['ds']:
      check_dag(c, NK, NV)
      c = p18.pruned(c)
      if c is None or not c['e']:
        raise Skip
      r = p18.Ref(c)
      for p, _, _ in r.paths:
        ks = [c['e'][i][3] for i in p if c['e'][i][3] != -1]
        if any(a >= b for a, b in zip(ks, ks[1:])):
          raise Skip
      self.refs.append(r)
      conv.append(pk.convert_dag_to_packed(real(c)[0], NA, [0, 1, 2]))
    self.keys = sorted({k for r in self.refs for k in r.keys})
    if not self.keys:
      raise Skip
    w = case['w'][:len(conv)]
    if any(x <= 0 for x in w):
      raise Skip
    self.sys = so.make_system(conv, np.array(w, np.float64) if len(
        w) == len(conv) else None)
    self.conv = conv
    self.unary = {(k, v): 0.0 for k in self.keys for v in range(NV)}
    # best path cost of each DAG for each assignment of its keys
    self.best = []
    for r in self.refs:
      t = {}
      for _, co, a in r.paths:
        key = tuple(a[k] for k in r.keys)
        t[key] = min(t.get(key, INF), co)
      self.best.append((r.keys, t))

  def joint(self, a):
    t = sum(self.unary[kv] for kv in a.items())
    for keys, tab in self.best:
      t += tab.get(tuple(a[k] for k in keys), INF)
    return t

  def all(self):
    for vs in itertools.product(range(NV), repeat=len(self.keys)):
      a = dict(zip(self.keys, vs))
      yield a, self.joint(a)

  def opt(self):
    return min(c for _, c in self.all())

  def invariant(self, what):
    d = self.sys.data
    for i, k in enumerate(self.keys):
      for v in range(NV):
        tot = 0.0
        for j in range(len(self.refs)):
          m = int(d.dag_variable_index_map[i, j])
          if m != -1:
            tot += float(d.dag_tables[j].penalties[m, v])
        ex = float(d.extra_unary_costs[i, v])
        want = self.unary[(k, v)]
        expect(ex == want or abs(ex - want) < EPS, f'{what}: unary cost', k, v,
               ex, want)
        # an infinite penalty is only put on assignments that are infeasible
        if tot == INF:
          expect(ex == INF or self.marg(k, v) == INF,
                 f'{what}: a possible assignment was ruled out', k, v)
        else:
          expect(abs(tot - ex) < EPS, f'{what}: penalties do not sum to the '
                 'unary cost', k, v, tot, ex)

  def marg(self, k, v):
    return min(c for a, c in self.all() if a[k] == v)

  def snapshot(self):
    d = self.sys.data
    return ([t.penalties.tolist() for t in d.dag_tables],
            d.extra_unary_costs.tolist())


class SysRC(RC):
  def exhaustive(self):
    a = [[0, 1, 1, 0, 0], [0, 1, 2, 0, 1], [1, 2, 0, 1, 0], [1, 2, 3, 1, 1]]
    b = [[0, 1, 3, 0, 0], [0, 1, 0, 0, 1], [1, 2, 2, 1, 0], [1, 2, 0, 1, 1]]
    d = [[0, 1, 0, 0, 1], [0, 2, 1, -1, 0], [1, 2, 0, 2, 2]]
    for combo in itertools.product((a, b, d), repeat=2):
      for k in range(6):
        yield dict(ds=[dict(n=3, e=[list(e) for e in x]) for x in combo],
                   w=[1, 1], k=k, c=[[0, 1]])

  def gen(self, rng, n):
    nk = rng.randint(1, NK)
    ds = [gen_dag(rng, nk, NV, rng.choice([2, 3, 4, 5]), inf=0)
          for _ in range(rng.choice([1, 2, 2, 3]))]
    return dict(ds=ds, w=[rng.choice([1, 1, 2, 0.5, 3]) for _ in ds],
                k=rng.randint(0, 30),
                c=[[rng.randint(0, NK - 1), rng.randint(0, NV - 1)]
                   for _ in range(rng.choice([0, 0, 1, 2]))])

  def make(self, case):
    s = Sys(case)
    k = case['k']
    if k % 3 == 1:
      cons = {s.keys[a % len(s.keys)]: v for a, v in case['c']
              if 0 <= v < NV}
      pen = [INF, 1.5][k % 2]
      so.constrain_system(s.sys, cons, pen)
      for key, v in cons.items():
        for v2 in range(NV):
          if v2 != v:
            s.unary[(key, v2)] += pen
    elif k % 3 == 2:
      before = s.sys.data.extra_unary_costs.copy()
      so.break_symmetry_randomly(s.sys, .5, 3 + k)
      delta = s.sys.data.extra_unary_costs - before
      expect(((delta >= 0) & (delta <= .5)).all(), 'noise out of range')
      for i, key in enumerate(s.keys):
        for v in range(NV):
          s.unary[(key, v)] += float(delta[i, v])
    s.invariant('setup')
    return s


class Solve(SysRC):
  name = 'dual bounds are valid, never decrease, and penalties stay consistent'
  targets = ('consistent_path_dual_solver.solve_system_with_sweeps',
             'consistent_path_dual_solver.min_marginal_average',
             'consistent_path_dual_solver.system_min_marginals',
             'consistent_path_dual_solver.constrain_system',
             'consistent_path_dual_solver.break_symmetry_randomly')
  weight = 2

  def check(self, case):
    s = self.make(case)
    n = len(s.keys)
    opt = s.opt()
    feasible = opt < INF
    tout = -1.0 if case['k'] % 7 == 3 else (INF if feasible else .2)
    tol = 1e-5
    r = so.solve_system_with_sweeps(s.sys.data, tout, tol)
    obj = [float(x) for x in r.objective_at_step]
    var = [int(x) for x in r.variable_at_step]
    steps = [int(x) for x in r.steps_at_sweep]
    os = [float(x) for x in r.objective_at_sweep]
    expect(len(obj) == len(var), 'one variable per step')
    expect(len(steps) == len(os) == len(r.time_at_sweep), 'sweep records')
    # sweep order
    want, fwd = [], True
    ends = []
    while len(ends) < len(steps):
      want += range(n - 1) if fwd else range(n - 1, 0, -1)
      fwd = not fwd
      ends.append(len(want))
    expect_eq(var, want, 'forward and reverse sweeps')
    expect_eq(steps, ends, 'steps at sweep')
    for o, e in zip(os, ends):
      w = obj[e - 1] if e else -INF
      expect(o == w or (np.isnan(o) and np.isnan(w)), 'objective at sweep')
    if tout == -1.0:
      expect_eq(len(steps), 1, 'sweeps after a timeout')
    else:
      expect(len(steps) % 2 == 0 or not feasible, 'pairs of sweeps')
    if r.reached_plateau:
      lo = ends[-3] if len(ends) >= 3 else 0
      last = [-INF] + obj if lo == 0 else obj[lo - 1:]
      if tout != -1.0:
        expect(not any(b - a > tol for a, b in zip(last, last[1:])),
               'plateau reported while improving', last)
    elif tout == INF:
      raise Fail('stopped without a plateau and without timeout')
    if feasible:
      for a, b in zip(obj, obj[1:]):
        expect(b >= a - EPS, 'the bound decreased', obj)
      for b in obj:
        expect(b <= opt + EPS, 'the bound exceeds the optimum', b, opt)
      s.invariant('after solving')
      for i, k in enumerate(s.keys):
        mm = so.system_min_marginals(s.sys.data, i)
        for v in range(NV):
          expect(float(mm[v]) <= s.marg(k, v) + EPS,
                 'system min marginal exceeds the true one', k, v)


class Average(SysRC):
  name = 'one averaging step makes the subproblems agree'
  targets = ('consistent_path_dual_solver.min_marginal_average',)
  weight = .7

  def check(self, case):
    s = self.make(case)
    if s.opt() == INF:
      raise Skip
    i = case['k'] % len(s.keys)
    d = s.sys.data
    tot0 = sum(float(pk.compute_minimal_cost(t)) for t in d.dag_tables)
    b = float(so.min_marginal_average(d, i))
    s.invariant('after averaging')
    tot1 = sum(float(pk.compute_minimal_cost(t)) for t in d.dag_tables)
    expect(abs(b - tot1) < EPS, 'returned bound', b, tot1)
    expect(tot1 >= tot0 - EPS, 'the bound decreased', tot0, tot1)
    w = d.dag_update_proportions
    rel = [(j, int(m)) for j, m in enumerate(d.dag_variable_index_map[i])
           if m != -1]
    tw = sum(float(w[j]) for j, _ in rel)
    mm = so.system_min_marginals(d, i)
    rest = sum(float(pk.compute_minimal_cost(d.dag_tables[j]))
               for j in range(len(d.dag_tables)) if j not in
               [x for x, _ in rel])
    for j, m in rel:
      got = pk.compute_min_marginals_for_variable(d.dag_tables[j], m)
      for v in range(NV):
        want = (float(mm[v]) - rest) * float(w[j]) / tw
        expect(float(got[v]) == want or abs(float(got[v]) - want) < EPS,
               'marginals are shared out by weight', j, v, float(got[v]), want)


class Greedy(SysRC):
  name = 'greedy extraction reports the true cost of what it returns'
  targets = ('consistent_path_dual_solver.greedy_extract',
             'consistent_path_dual_solver.assignments_from_assignment_vector',
             'consistent_path_dual_solver.clone_system_data')
  weight = 1.2

  def check(self, case):
    s = self.make(case)
    opt = s.opt()
    if case['k'] % 2 and opt < INF:
      so.solve_system_with_sweeps(s.sys.data)
    snap = s.snapshot()
    for dr in (FWD, REV):
      vec, co = so.greedy_extract(s.sys.data, dr)
      expect_eq(s.snapshot(), snap, 'greedy_extract modified the system')
      expect_eq(len(vec), len(s.keys), 'one value per variable')
      a = so.assignments_from_assignment_vector(s.sys, vec)
      expect_eq(a, {k: int(v) for k, v in zip(s.keys, vec)}, 'assignments')
      t = s.joint(a)
      co = float(co)
      expect(co == t or abs(co - t) < EPS, 'cost of the assignment', co, t, a)
      expect(co >= opt - EPS, 'better than the optimum', co, opt)
    if len(s.refs) == 1 and opt < INF:
      expect(abs(co - opt) < EPS, 'not optimal for a single DAG', co, opt)


class Commit(SysRC):
  name = 'partial commitment only forbids, and never every choice'
  targets = ('consistent_path_dual_solver.partially_commit',)
  weight = .8

  def check(self, case):
    s = self.make(case)
    if s.opt() == INF:
      raise Skip
    if case['k'] % 2:
      so.solve_system_with_sweeps(s.sys.data)
    before = s.sys.data.extra_unary_costs.copy()
    st = so.partially_commit(
        s.sys.data, [FWD, REV][case['k'] % 2],
        [.1, .5, 1.0, 2.0][case['k'] % 4], [1.0, .5, 0.0][case['k'] % 3])
    after = s.sys.data.extra_unary_costs
    new = np.isinf(after) & ~np.isinf(before)
    same = (after == before) | new
    expect(same.all(), 'a unary cost changed other than to infinity')
    S = so.PartialCommitmentStatus
    if st == S.NEEDS_GREEDY_EXTRACT:
      expect(not new.any(), 'committed although greedy was requested')
    elif st == S.MADE_PARTIAL_ASSIGNMENT:
      expect(new.any(), 'nothing was committed')
    for i, k in enumerate(s.keys):
      expect(not np.isinf(after[i]).all(), 'every choice was forbidden', k)
      for v in range(NV):
        if new[i, v]:
          s.unary[(k, v)] = INF
    s.invariant('after commitment')


class System(SysRC):
  name = 'systems index their variables; clones share nothing mutable'
  targets = ('consistent_path_dual_solver.make_system',
             'consistent_path_dual_solver.clone_system')
  weight = .5

  def check(self, case):
    s = self.make(case)
    expect_eq(list(s.sys.variable_keys), s.keys, 'keys')
    expect_eq(list(s.sys.variable_values), [0, 1, 2], 'values')
    for i, k in enumerate(s.keys):
      for j, r in enumerate(s.refs):
        expect_eq(int(s.sys.data.dag_variable_index_map[i, j]),
                  r.keys.index(k) if k in r.keys else -1, 'index map')
    snap = s.snapshot()
    cl = so.clone_system(s.sys)
    snap2 = ([t.penalties.tolist() for t in cl.data.dag_tables],
             cl.data.extra_unary_costs.tolist())
    expect_eq(snap2, snap, 'clone differs')
    b0 = [float(pk.compute_minimal_cost(t)) for t in s.sys.data.dag_tables]
    so.constrain_system(cl, {s.keys[0]: 1}, 7.0)
    for i in range(len(s.keys)):
      so.min_marginal_average(cl.data, i)
    expect_eq(s.snapshot(), snap, 'changing the clone changed the system')
    b1 = [float(pk.compute_minimal_cost(t)) for t in s.sys.data.dag_tables]
    expect_eq(b1, b0, 'changing the clone changed the costs')
    a, b = so.clone_system(s.sys), so.clone_system(s.sys)
    so.break_symmetry_randomly(a, 1.0, 5)
    so.break_symmetry_randomly(b, 1.0, 5)
    expect_eq(a.data.extra_unary_costs.tolist(),
              b.data.extra_unary_costs.tolist(), 'seeded noise')
    try:
      so.make_system([])
      raise Fail('a system without DAGs was accepted')
    except ValueError:
      pass
    c2 = pk.convert_dag_to_packed(real(s.refs[0].c)[0], NA, [0, 1, 2, 9])
    try:
      so.make_system([s.conv[0], c2])
      raise Fail('different sets of values were accepted')
    except ValueError:
      pass


def runtime_contracts():
  return [Solve(), Average(), Greedy(), Commit(), System()]
