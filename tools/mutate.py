"""Development tool: do the proofs notice syntactic mutations?

  tools/mutate.py MODULE CONTRACT [CONTRACT...]

Mutates the function under contract in scratch copies of /repo, re-runs the
prover and lists mutants it still accepts (equivalent, or the contract is too
weak).  Not part of any check.
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
VT = '/opt/veriftools/pyvenv/bin/python'
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def mutants(fn):
  """Yields (description, mutated copy)."""
  nodes = list(ast.walk(fn))
  for i, n in enumerate(nodes):
    def emit(desc, edit):
      f = copy.deepcopy(fn)
      m = list(ast.walk(f))[i]
      edit(m)
      ast.fix_missing_locations(f)
      return f'{n.lineno if hasattr(n, "lineno") else "?"}: {desc}', f
    if isinstance(n, ast.Compare):
      t = CMP[type(n.ops[0])]
      yield emit(f'{ast.unparse(n)} -> {t.__name__}',
                 lambda m: m.ops.__setitem__(0, t()))
    if isinstance(n, (ast.If, ast.IfExp, ast.While)):
      yield emit(f'not {ast.unparse(n.test)}', lambda m: setattr(
          m, 'test', ast.UnaryOp(ast.Not(), m.test)))
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
      yield emit(f'{ast.unparse(n)[:50]} +/-', lambda m: setattr(
          m, 'op', ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()))
    if isinstance(n, ast.BoolOp):
      yield emit(f'{ast.unparse(n)[:50]} and/or', lambda m: setattr(
          m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
    if isinstance(n, ast.Constant) and n is not None:
      if isinstance(n.value, bool):
        yield emit(f'{n.value} flipped', lambda m: setattr(
            m, 'value', not m.value))
      elif isinstance(n.value, int):
        yield emit(f'{n.value}+1', lambda m: setattr(m, 'value', m.value + 1))
      elif isinstance(n.value, str) and len(n.value) < 20:
        yield emit(f'{n.value!r}+x', lambda m: setattr(
            m, 'value', m.value + 'x'))
    for field in ('body', 'orelse'):
      b = getattr(n, field, None)
      if isinstance(b, list):
        for j, s in enumerate(b):
          if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
          if isinstance(s, (ast.FunctionDef, ast.Raise, ast.Assert)):
            continue
          yield emit(f'drop {ast.unparse(s)[:60]!r}', lambda m, j=j,
                     field=field: getattr(m, field).__setitem__(
                         j, ast.Pass()))


def main():
  mod, names = sys.argv[1], sys.argv[2:]
  code = '''
import sys; sys.path.insert(0, %r)
from pyvc import boot
import importlib, inspect, json
m = importlib.import_module('contracts.' + %r)
out = {}
for c in m.contracts():
  o = inspect.unwrap(getattr(c.fn, '__func__', c.fn))
  out[c.name] = (inspect.getsourcefile(o), o.__qualname__, c.nested)
print(json.dumps(out))
''' % (ROOT, mod)
  info = json.loads(subprocess.check_output([VT, '-c', code]))
  for name in names or list(info):
    path, qual, nested = info[name]
    tree = ast.parse(open(path).read())
    node = tree
    parts = qual.split('.')
    for part in parts:
      node = next(x for x in node.body if isinstance(
          x, (ast.FunctionDef, ast.ClassDef)) and x.name == part)
    if nested:
      node = next(x for x in ast.walk(node) if isinstance(
          x, ast.FunctionDef) and x.name == nested)
    src = open(path).read().splitlines(keepends=True)
    jobs = []
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    for desc, f in mutants(node):
      ind = ' ' * node.col_offset
      text = ''.join(ind + l + '\n' for l in ast.unparse(f).splitlines())
      jobs.append((desc, ''.join(src[:first - 1]) + text +
                   ''.join(src[node.end_lineno:])))

    def run(job):
      desc, text = job
      with tempfile.TemporaryDirectory(prefix='mut_') as d:
        shutil.copytree('/repo/r_u_sure', d + '/r_u_sure')
        with open(d + '/' + os.path.relpath(path, '/repo'), 'w') as g:
          g.write(text)
        p = subprocess.run(
            [VT, 'prove.py', mod, name, '--deadline', '150'], cwd=ROOT,
            env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True)
        try:
          r = json.loads(p.stdout)
        except ValueError:
          return desc, 'crash', p.stdout[-200:]
        return desc, r['status'], (r['error'] or '')[:100]
    count = {}
    with cf.ThreadPoolExecutor(8) as ex:
      for desc, st, err in ex.map(run, jobs):
        count[st] = count.get(st, 0) + 1
        if st in ('proved', 'crash') or '-v' in sys.argv:
          print(f'   {st}: {desc} {err}')
    print(name, count, flush=True)


if __name__ == '__main__':
  main()
