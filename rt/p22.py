"""Runtime contracts of the constraint DAG: exactly the well-nested regions."""
from rt.decode import *   # pylint: disable=wildcard-import
from r_u_sure.edit_distance_utility import constraint_dags as cd


def seq(nodes, mode):
  """{(mode at the end, decisions): 0} for a node sequence."""
  res = {(mode, ()): 0.0}
  for i, n, kids in nodes:
    def step(m):
      k = n[0]
      if k == 'D':
        return {(m, ()): 0.0}
      if k == 'T':
        return {(m, (((i, IN), F if m == 'out' else T),)): 0.0}
      if k == 'S':
        if m == 'out':
          return {('out', (((i, S), F),)): 0.0, ('temp', (((i, S), T),)): 0.0}
        return {(m, (((i, S), NA),)): 0.0}
      if k == 'E':
        if m == 'out':
          return {(m, (((i, E), NA),)): 0.0}
        if m == 'forced':
          return {(m, (((i, E), F),)): 0.0}
        return {('temp', (((i, E), F),)): 0.0, ('out', (((i, E), T),)): 0.0}
      if k == 'X':
        return {('exit', (((i, X), T),)): 0.0, (m, (((i, X), F),)): 0.0}
      inner = 'out' if m == 'out' else 'forced'
      head = (((i, IN), F if m == 'out' else T),)
      out = {}
      for (m2, asg), c in seq(kids, inner).items():
        if m2 == 'exit':
          put(out, ('exit', head + asg), c)
        elif m2 == inner:     # a region opened inside must be closed inside
          put(out, (m, head + asg), c)
      return out
    res = then(res, step)
  return res


def legal(d):
  nodes, _ = number(d)
  out = {}
  for (m, asg), c in seq(nodes, 'out').items():
    if m in ('out', 'exit'):
      put(out, asg, c)
  return out


class Nesting(RC):
  name = 'the constraint DAG admits exactly the well-nested region choices'
  targets = ('constraint_dags.make_constraint_dag_builder',)

  def exhaustive(self):
    for t in small_trees(4, 'TSEXG', 2):
      yield dict(t=t)

  def gen(self, rng, n):
    kinds = rng.choice(['TDSEXG', 'TDSEG', 'SSEEGT', 'SEGX', 'TSEGG'])
    return dict(t=rtree(rng, rng.choice([1, 2, 3]), rng.choice([2, 3, 4, 6]),
                        kinds))

  def check(self, case):
    valid(case['t'])
    d = sdump(case['t'])
    want = legal(d)
    dag = cd.make_constraint_dag_builder(with_numba=False)(
        prototype=ps.pack(build(case['t'])))
    topological(dag)
    same_meaning(dag_meaning(dag), want, 'constraint DAG')


class Packing(Nesting):
  name = 'the pruned constraint DAG packs and offers the same choices'
  targets = ('constraint_dags.pack_dag',)
  weight = .6

  def check(self, case):
    valid(case['t'])
    want = legal(sdump(case['t']))
    dag = cd.make_constraint_dag_builder(with_numba=False)(
        prototype=ps.pack(build(case['t'])))
    pr = gd.prune_to_reachable(dag)
    same_meaning(dag_meaning(pr), want, 'pruned constraint DAG')
    packed, data = cd.pack_dag(pr)
    expect_eq(list(data.variable_keys),
              sorted({rd.DecisionKey(*k) for a in want for k, _ in a}),
              'decisions')
    expect_eq(list(data.variable_values), [F, T, NA], 'values')


def runtime_contracts():
  return [Nesting(), Packing()]
