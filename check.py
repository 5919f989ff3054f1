"""Runs the check of one property.

  check.py P08 [--thorough]

1. Every contract of the property is discharged by pyvc (z3) from the current
   source of /repo, one worker per function under contract.
2. The runtime contracts of the property are run against the real code in the
   repository's own interpreter (replay of verdicts; bounded stand-in where a
   function is outside the verifier's subset).
Exit 0: held.  Exit 1: VIOLATION line.
"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import registry   # noqa: E402

PROVER = '/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(PROVER):
  PROVER = 'python3-vt'
RUNNER = '/opt/venv/bin/python'


def sh(cmd, timeout, env):
  try:
    p = subprocess.run(cmd, cwd=ROOT, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, check=False)
    return p.returncode, p.stdout
  except subprocess.TimeoutExpired as e:
    return -1, f'timeout after {timeout}s: {e.output!r:.500}'


def prove(tmp, mod, name, deadline, scale, env):
  out = os.path.join(tmp, f'{mod}.{abs(hash((name, scale)))}.json')
  rc, log = sh([PROVER, 'prove.py', mod, name, '--deadline', str(deadline),
                '--scale', str(scale), '--out', out], deadline + 60, env)
  if rc != 0 or not os.path.exists(out):
    return dict(contract=name, module=mod, status='unsupported',
                error=f'worker failed ({rc}): {log[-800:]}', obligations=[],
                inlined=[], solver=dict(queries=0, time=0, unknown=0),
                trusted=[], wall=0)
  with open(out) as f:
    return json.load(f)


def hunt(tmp, pid, seed, budget, part, parts, env):
  out = os.path.join(tmp, f's{part}.{seed}.json'.replace('/', '_'))
  rc, log = sh([RUNNER, 'rt/main.py', pid, '--seed', str(seed), '--budget',
                str(budget), '--part', str(part), '--parts', str(parts),
                '--out', out], budget * 5 + 300, env)
  if rc != 0 or not os.path.exists(out):
    return dict(stats={}, failure=None,
                error=f'worker failed ({rc}): {log[-1500:]}')
  with open(out) as f:
    return json.load(f)


def merge(results):
  stats = {}
  for r in results:
    for k, v in r['stats'].items():
      s = stats.setdefault(k, dict(exhaustive=0, random=0, distinct=0,
                                   absent=None, targets=v['targets'],
                                   complete=True, samples=[]))
      s['samples'] += v['samples']
      for f in ('exhaustive', 'random', 'distinct'):
        s[f] += v[f]
      s['absent'] = s['absent'] or v['absent']
      s['complete'] = s['complete'] and v['complete']
  return stats


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--thorough', action='store_true')
  a = ap.parse_args()
  pid = a.property
  spec = registry.PROPERTIES[pid]
  seed = os.environ.get('VERIF_SEED', '1')
  tier = 'thorough' if a.thorough else 'quick'
  t0 = time.time()
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
  env.pop('PYTHONPATH', None)
  budget = spec.get('budget', 20) * (8 if a.thorough else 1)
  parts = spec.get('parts', 4)
  deadline = 420 if not a.thorough else 1500
  with tempfile.TemporaryDirectory(prefix='verif_') as tmp, \
      cf.ThreadPoolExecutor(8) as ex:
    hunts = [ex.submit(hunt, tmp, pid, seed, budget, i, parts, env)
             for i in range(parts)] if spec.get('search', True) else []
    proofs = [ex.submit(prove, tmp, m, n, deadline, 1.0, env)
              for m, n in spec.get('contracts', ())]
    proofs = [p.result() for p in proofs]
    # an obligation that failed is re-checked with larger resource limits
    again = [i for i, p in enumerate(proofs) if p['status'] in
             ('refuted', 'unknown')]
    redo = [ex.submit(prove, tmp, proofs[i]['module'], proofs[i]['contract'],
                      deadline / 2, 4.0, env) for i in again]
    for i, r in zip(again, redo):
      r = r.result()
      if r['status'] != 'unsupported':
        proofs[i] = r
    results = [h.result() for h in hunts]
    failure = next((r['failure'] for r in results if r['failure']), None)
    bad = [p for p in proofs if p['status'] != 'proved']
    if failure is None and bad and hunts:
      # the verdict is replayed harder before it is reported
      more = [ex.submit(hunt, tmp, pid, f'{seed}-deep{i}', budget * 2, i, 8,
                        env) for i in range(8)]
      more = [m.result() for m in more]
      results += more
      failure = next((r['failure'] for r in more if r['failure']), None)
  stats = merge(results)
  refuted = [p for p in proofs if p['status'] == 'refuted']
  rdir = os.path.join(ROOT, 'evidence', 'replay')
  os.makedirs(rdir, exist_ok=True)
  violation = None
  errs = [r['error'] for r in results if r.get('error')]
  if failure is not None:
    path = os.path.join(rdir, f'{pid}.json')
    with open(path, 'w') as f:
      json.dump(dict(property=pid, **failure, failed_obligations=[
          dict(contract=p['contract'], status=p['status'], obligations=[
              o for o in p['obligations'] if o[1] != 'proved'])
          for p in bad], replay_cmd=f'{RUNNER} {ROOT}/rt/main.py {pid} '
                     f'--replay {path}'), f, indent=1)
    violation = f'VIOLATION property={pid} replay={path}'
    print(f'{pid}: runtime contract "{failure["contract"]}" fails on '
          f'{json.dumps(failure["case"])[:2000]}\n{failure["message"]}')
  elif refuted:
    path = os.path.join(rdir, f'{pid}.json')
    with open(path, 'w') as f:
      json.dump(dict(property=pid, failed_obligations=[
          dict(contract=p['contract'], obligations=[
              o for o in p['obligations'] if o[1] != 'proved'])
          for p in refuted], note='no failing input found',
                     prover_cmd=[f'{PROVER} {ROOT}/prove.py {p["module"]} '
                                 f'"{p["contract"]}"' for p in refuted]),
                f, indent=1)
    violation = (f'VIOLATION property={pid} replay={path} '
                 'no-failing-input-found')
    for p in refuted:
      for o in p['obligations']:
        if o[1] != 'proved':
          print(f'{pid}: {p["contract"]}: obligation failed: {o[0]} {o[2]}')
  write_evidence(pid, spec, tier, seed, proofs, stats, errs, violation, t0)
  with open(os.path.join(ROOT, 'known_findings.json')) as f:
    for k in json.load(f)['findings']:
      if k['property'] == pid:
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
  n = sum(len(p['obligations']) for p in proofs)
  ok = sum(1 for p in proofs for o in p['obligations'] if o[1] == 'proved')
  print(f'{pid}: {len(proofs)} functions under contract, {ok}/{n} obligations '
        f'discharged; runtime contracts '
        f'{sum(s["exhaustive"] + s["random"] for s in stats.values())} '
        f'evaluations; {time.time() - t0:.1f}s')
  for p in proofs:
    if p['status'] != 'proved':
      print(f'{pid}: {p["contract"]}: {p["status"]}: '
            f'{(p["error"] or "")[:300]} (bounded stand-in)')
  for k, s in stats.items():
    if s['absent']:
      print(f'{pid}: runtime contract {k} not applicable: {s["absent"]}')
  for e in errs:
    print(f'{pid}: {e}')
  if violation:
    print(violation)
    sys.exit(1)
  if not proofs and not stats or errs and not stats:
    print(f'{pid}: nothing could be checked')
    sys.exit(2)
  sys.exit(0)


def write_evidence(pid, spec, tier, seed, proofs, stats, errs, violation, t0):
  obls = [(p['contract'],) + tuple(o) for p in proofs
          for o in p['obligations']]
  ndis = sum(1 for o in obls if o[2] == 'proved')
  undecided = [p['contract'] for p in proofs if p['status'] != 'proved']
  level = spec['level']
  if level == 'proof' and (undecided or ndis < len(obls) or not obls):
    level = 'exploration'
  evals = sum(s['exhaustive'] + s['random'] for s in stats.values())
  distinct = sum(s['distinct'] for s in stats.values())
  cov = dict(
      obligations=len(obls), discharged=ndis,
      checker_cmd=f'{PROVER} {ROOT}/prove.py <module> <contract>',
      trusted_base=registry.TRUSTED_BASE + list(spec.get('trusted', ())) +
      sorted({t for p in proofs for t in p.get('trusted', ())}),
      evaluations=evals, distinct_nontrivial=distinct,
      rule='runtime contracts: exhaustive over small inputs, then seeded '
      'random inputs (literals of the current source mixed in); non-trivial: '
      'not run before and satisfying the precondition',
      samples=[f'{k}: {c}' for k, s in stats.items() for c in s['samples'][:4]],
      runtime_contracts=[
          dict(contract=k, functions=s['targets'], exhaustive=s['exhaustive'],
               exhaustive_complete=s['complete'], random=s['random'],
               distinct_nontrivial=s['distinct'], absent=s['absent'])
          for k, s in stats.items()],
      functions_under_contract=[
          dict(function=p['contract'], status=p['status'],
               obligations=len(p['obligations']),
               discharged=sum(o[1] == 'proved' for o in p['obligations']),
               back_end='pyvc + z3 ' + registry.Z3,
               solver_queries=p['solver']['queries'],
               solver_s=p['solver']['time'], wall_s=p['wall'],
               inlined=p['inlined'], error=p['error'])
          for p in proofs],
      bounded=([] if spec['level'] == 'proof' else sorted(
          {t for s in stats.values() for t in s['targets']} -
          {p['contract'] for p in proofs if p['status'] == 'proved'})) + [
              f'{c}: not discharged on this tree' for c in undecided],
      undecided=undecided, errors=errs, violation=violation)
  e = dict(property=pid, tier=tier, seed=int(seed) if str(seed).isdigit()
           else 1, level=level, coverage=cov,
           wall_s=round(time.time() - t0, 1))
  os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
  with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
    json.dump(e, f, indent=1)


if __name__ == '__main__':
  main()
