"""Runtime contracts of DAG building and pruning."""
from rt.dags import *   # pylint: disable=wildcard-import


class DagRC(RC):
  def exhaustive(self):
    # all DAGs on 3 states with up to 3 edges
    cand = [[i, j, c, k, 0] for i, j in ((0, 1), (0, 2), (1, 2))
            for c in (1, None) for k in (-1, 0)]
    for m in range(4):
      for es in itertools.product(cand, repeat=m):
        yield dict(d=dict(n=3, e=[list(e) for e in es]), k=m)

  def gen(self, rng, n):
    return dict(d=gen_dag(rng, inf=rng.choice([0, .1, .4])),
                k=rng.randint(0, 20))

  def build(self, case):
    check_dag(case['d'], 3, 3)
    return real(case['d'], case['k'])


def on_path(c):
  keep, states = set(), set()
  fwd, bwd = {0}, {c['n'] - 1}
  for _ in range(c['n']):
    for e in c['e']:
      if cost(e) < INF:
        if e[0] in fwd:
          fwd.add(e[1])
        if e[1] in bwd:
          bwd.add(e[0])
  states = fwd & bwd
  keep = [i for i, e in enumerate(c['e']) if cost(e) < INF and e[0] in fwd
          and e[1] in bwd]
  return keep, states


class Build(DagRC):
  name = 'edges are accepted exactly in topological order and kept as given'
  targets = ('gated_state_dag.partial_state_dag_add_edge',
             'gated_state_dag.partial_state_dag_finish',
             'gated_state_dag.strip_traceback_from_edge',
             'gated_state_dag.adding_edge_tracebacks')

  def gen(self, rng, n):
    c = super().gen(rng, n)
    if rng.random() < .5:
      rng.shuffle(c['d']['e'])
    c['shuffled'] = 1
    return c

  def check(self, case):
    c = case['d']
    for e in c['e']:
      if len(e) != 5 or e[0] == e[1]:
        raise Skip
    dag, f = real(c, case['k'])
    tb = case['k'] % 3 == 1
    infos = [None, {'a': 1}, 'x', {}, 7]
    p = gd.partial_state_dag_starting_from(dag.initial_state)
    seen, want = set(), []
    import contextlib
    with (gd.adding_edge_tracebacks() if tb else contextlib.nullcontext()):
      for i, e in enumerate(dag.edges):
        e = e._replace(info=infos[(i + case['k']) % 5])
        try:
          gd.partial_state_dag_add_edge(p, e)
          ok = True
        except ValueError:
          ok = False
        expect_eq(ok, e.dest not in seen,
                  f'edge {i} accepted iff its target has no out-edge yet')
        if ok:
          seen.add(e.source)
          want.append(e)
    expect(gd.EDGE_TRACEBACKS_ENABLED is False, 'tracebacks left enabled')
    done = gd.partial_state_dag_finish(p, dag.final_state)
    expect_eq((done.initial_state, done.final_state),
              (dag.initial_state, dag.final_state), 'ends')
    expect_eq(norm(e._replace(info=None) for e in done.edges),
              norm(e._replace(info=None) for e in want), 'edges')
    got = [gd.strip_traceback_from_edge(e) for e in done.edges]
    expect_eq(norm(got), norm(want), 'edges without tracebacks')
    if not tb:
      expect_eq(norm(done.edges), norm(want), 'no tracebacks')
    else:
      for e in done.edges:
        expect('traceback' in e.info, 'traceback recorded', e.info)
    for e in want:
      expect_eq(norm([gd.strip_traceback_from_edge(e)]), norm([e]),
                'an edge without traceback is unchanged')


class States(DagRC):
  name = 'state list, reachability and pruning keep exactly finite paths'
  targets = ('gated_state_dag.extract_state_list',
             'gated_state_dag.compute_reachable_states',
             'gated_state_dag.prune_to_reachable')

  def check(self, case):
    dag, f = self.build(case)
    c = case['d']
    before = norm(dag.edges)
    order_ = []
    for e in c['e']:
      for s in e[:2]:
        if f(s) not in order_:
          order_.append(f(s))
    expect_eq(gd.extract_state_list(dag), order_, 'state list')
    keep, states = on_path(c)
    if states:
      states = states | {0, c['n'] - 1}
    got = gd.compute_reachable_states(dag)
    expect_eq(set(got), {f(s) for s in states}, 'reachable states')
    pr = gd.prune_to_reachable(dag)
    expect_eq(norm(pr.edges), [before[i] for i in keep], 'pruned edges')
    expect_eq((pr.initial_state, pr.final_state),
              (dag.initial_state, dag.final_state), 'ends')
    expect_eq(norm(dag.edges), before, 'input modified')


class Rewrite(DagRC):
  name = 'pruning with rewritten states gives an isomorphic pruned DAG'
  targets = ('gated_state_dag.prune_unreachable_and_rewrite_states',)

  def gen(self, rng, n):
    return dict(super().gen(rng, n), size=rng.choice([1, 1, 2, 3, 7, 64]))

  def check(self, case):
    dag, f = self.build(case)
    c = case['d']
    keep, states = on_path(c)
    before = norm(dag.edges)
    table = np.full((max(1, case.get('size', 1 + case['k'] % 4)),), 5,
                    dtype=np.int32)
    try:
      got = gd.prune_unreachable_and_rewrite_states(dag, table)
    except ValueError:
      expect(0 not in states, 'no path reported although there is one')
      return
    expect(0 in states, 'a DAG without finite path was accepted')
    edges = list(got.edges)
    expect_eq(norm(dag.edges), before, 'input modified')
    expect_eq([(e[2], e[3], e[4]) for e in norm(edges)],
              [before[i][2:] for i in keep], 'edges kept')
    m = {0: int(got.initial_state), c['n'] - 1: int(got.final_state)}
    for e, i in zip(edges, keep):
      for s, t in ((c['e'][i][0], e.source), (c['e'][i][1], e.dest)):
        expect_eq(m.setdefault(s, int(t)), int(t), 'one number per state')
    expect_eq(sorted(m.values()), list(range(len(m))),
              'consecutive, distinct numbers')


def runtime_contracts():
  return [Build(), States(), Rewrite()]
