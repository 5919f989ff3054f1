"""Development tool: do the runtime contracts notice syntactic mutations?

  tools/mutate_rt.py PID [--budget 5] [--jobs 4] [--max N]

Mutates the mechanism functions of a property (properties.jsonl) in scratch
copies of /repo, drops mutants the stable tests notice, runs the runtime
contracts and lists what survives.  Not part of any check.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.mutate import mutants
PY = '/opt/venv/bin/python'


def find(tree, name):
  node = tree
  for part in name.split('.'):
    node = next((x for x in node.body if isinstance(
        x, (ast.FunctionDef, ast.ClassDef)) and x.name == part), None)
    if node is None:
      return None
  return node


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--budget', default='6')
  ap.add_argument('--jobs', type=int, default=4)
  ap.add_argument('--max', type=int, default=80)
  ap.add_argument('--only', default='')
  a = ap.parse_args()
  for line in open(ROOT + '/properties.jsonl'):
    p = json.loads(line)
    if p['id'] == a.pid:
      break
  jobs = []
  for m in p['anchors']['mechanism']:
    path, name = m['where'].split(':')
    if a.only and a.only not in name:
      continue
    text = open('/repo/' + path).read()
    node = find(ast.parse(text), name)
    if node is None:
      print('not found', path, name)
      continue
    src = text.splitlines(keepends=True)
    fns = [node] if isinstance(node, ast.FunctionDef) else [
        x for x in node.body if isinstance(x, ast.FunctionDef)]
    for fn in fns:
      first = min([fn.lineno] + [d.lineno for d in fn.decorator_list])
      for desc, f in mutants(fn):
        ind = ' ' * fn.col_offset
        new = ''.join(ind + l + '\n' for l in ast.unparse(f).splitlines())
        jobs.append((path, f'{fn.name}:{desc}', ''.join(src[:first - 1]) + new
                     + ''.join(src[fn.end_lineno:])))
  total = len(jobs)
  random.Random(1).shuffle(jobs)
  jobs = jobs[:a.max]
  out_dir = tempfile.mkdtemp(prefix='mutrt_')
  env0 = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')

  def run(job):
    path, desc, text = job
    with tempfile.TemporaryDirectory(prefix='mut_') as d:
      shutil.copytree('/repo/r_u_sure', d + '/r_u_sure',
                      ignore=shutil.ignore_patterns('__pycache__'))
      with open(d + '/' + path, 'w') as g:
        g.write(text)
      if '/parsing/' in path or '/tree_structure/' in path:
        try:
          t = subprocess.run(
              [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
               '--timeout=30', '--ignore=r_u_sure/decision_diagrams',
               '--ignore=r_u_sure/numba_helpers', '--ignore=r_u_sure/wrappers',
               '--ignore=r_u_sure/tree_structure/token_prob_align_test.py',
               'r_u_sure'], cwd=d, env=env0, capture_output=True, timeout=60)
          if t.returncode:
            return desc, 'tests'
        except subprocess.TimeoutExpired:
          return desc, 'tests'
      o = tempfile.mktemp(dir=out_dir)
      for budget in (a.budget, str(6 * float(a.budget))):
       try:
        p = subprocess.run(
            [PY, 'rt/main.py', a.pid, '--budget', budget, '--out', o],
            cwd=ROOT, env=dict(env0, VERIF_REPO=d), capture_output=True,
            text=True, timeout=180)
       except subprocess.TimeoutExpired:
        return desc, 'TIMEOUT'
       try:
        r = json.load(open(o))
       except (OSError, ValueError):
        return desc, 'CRASH ' + p.stderr[-200:]
       if r['failure']:
        return desc, 'killed'
      return desc, 'SURVIVED' + (' ' + r['error'] if r['error'] else '')
  count = {}
  with cf.ThreadPoolExecutor(a.jobs) as ex:
    for desc, st in ex.map(run, jobs):
      k = st.split()[0]
      count[k] = count.get(k, 0) + 1
      if k not in ('tests', 'killed'):
        print(f'   {st}: {desc}', flush=True)
  shutil.rmtree(out_dir)
  print(a.pid, f'{len(jobs)}/{total}', count, flush=True)


if __name__ == '__main__':
  main()
