"""pyvc engine: symbolic execution of real Python source against contracts."""
from __future__ import annotations

import ast
import builtins
import dataclasses
import enum
import functools
import inspect
import itertools
import math
import time
import types as pytypes
import z3

from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc import boot, core

NORMAL, RETURN, BREAK, CONTINUE = 'normal', 'return', 'break', 'continue'

_src_cache = {}


def module_ast(mod):
  path = mod.__file__
  if path not in _src_cache:
    with open(path) as f:
      _src_cache[path] = ast.parse(f.read())
  return _src_cache[path]


def find_function(mod, qualname):
  """AST of a function by dotted path (classes and nested functions)."""
  node = module_ast(mod)
  for part in qualname.split('.'):
    if part == '<locals>':
      continue
    hit = None
    stack = list(node.body)
    while stack:
      n = stack.pop(0)
      if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        if n.name == part:
          hit = n       # the last definition wins, as at run time
        continue
      for f in ('body', 'orelse', 'finalbody', 'handlers'):
        stack.extend(getattr(n, f, []) or [])
    if hit is None:
      raise Unsupported(f'{mod.__name__}.{qualname}: function not found')
    node = hit
  for d in getattr(node, 'decorator_list', ()):
    src = ast.unparse(d)
    if not src.startswith(TRANSPARENT):
      raise Unsupported(f'{qualname}: decorator @{src}')
  return node


# decorators that do not change what a call computes (numba's are the identity
# in the interpreter that runs the code without numba)
TRANSPARENT = ('staticmethod', 'classmethod', 'property', 'numba.',
               'dataclasses.dataclass', 'numba_raise.', 'abc.abstractmethod',
               'numba_type_util.')


def local_names(fn):
  """Names assigned in a function body (not in nested scopes)."""
  names, nonlocals = set(), set()

  def targets(t):
    if isinstance(t, ast.Name):
      names.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts:
        targets(x)
    elif isinstance(t, ast.Starred):
      targets(t.value)

  def walk(n):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      names.add(n.name)
      return
    if isinstance(n, ast.Lambda):
      return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                      ast.DictComp)):
      return
    if isinstance(n, ast.Assign):
      for t in n.targets:
        targets(t)
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
      targets(n.target)
    elif isinstance(n, ast.For):
      targets(n.target)
    elif isinstance(n, ast.With):
      for i in n.items:
        if i.optional_vars is not None:
          targets(i.optional_vars)
    elif isinstance(n, (ast.Nonlocal, ast.Global)):
      nonlocals.update(n.names)
    elif isinstance(n, ast.ExceptHandler) and n.name:
      names.add(n.name)
    for c in ast.iter_child_nodes(n):
      walk(c)

  body = fn.body if isinstance(fn.body, list) else [fn.body]
  for s in body:
    walk(s)
  return names - nonlocals, nonlocals


def is_generator(fn):
  def walk(n):
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return True
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp,
                      ast.ListComp)):
      return False
    return any(walk(c) for c in ast.iter_child_nodes(n))
  body = fn.body if isinstance(fn.body, list) else [fn.body]
  return any(walk(s) for s in body)


class Env:
  def __init__(self, module, parent=None, locals_=()):
    self.module, self.parent = module, parent
    self.vars = {}
    self.locals = set(locals_)
    self.yield_ref = None
    self.yield_key = None
    self.fname = ''
    self.key = None      # of the (module level) function it belongs to

  def cell_for(self, name):
    e = self
    while e is not None:
      if name in e.vars:
        return e.vars[name]
      e = e.parent
    return None

  def declare(self, name):
    if name not in self.vars:
      self.vars[name] = fresh_name('c_' + name)
    return self.vars[name]


@dataclasses.dataclass
class Obl:
  func: str
  label: str
  status: str       # proved | refuted | unknown
  detail: str = ''


CHAR_CLASSES = ('isupper', 'islower', 'isdigit', 'isspace')
_U = sort_of(ANY)
INJ_TUP = z3.Function('inj_tup', z3.SeqSort(_U), _U)
PRJ_TUP = z3.Function('prj_tup', _U, z3.SeqSort(_U))
IS_TUP = z3.Function('is_tup', _U, z3.BoolSort())


class Ctx:
  """What contract formulas see: arguments, result, spec functions."""

  def __init__(self, eng, st, args, res=None, old=None, cells=None):
    self.eng, self.st, self.args, self.res = eng, st, args, res
    self.old, self.cells = old or st, cells or {}
    self.outer = {}

  def cell(self, name, t=None):
    """Captured variable of a nested function (boxed when t is given)."""
    v = self.st.cells[self.cells[name]]
    return v if t is None else self.eng.box(self.st, v, t)

  def cell0(self, name, t=None):
    v = self.old.cells[self.cells[name]]
    return v if t is None else self.eng.box(self.old, v, t)

  def q(self, t, v, q0):
    return t.q(self.contents(v), q0)

  def o(self, t, v, q0):
    return t.o(self.contents(v), q0)

  def use(self, lemma, v, q=None):
    """Instance of a (proved) lemma, as an assumption."""
    self.st.assume(lemma.at(self.contents(v), q))

  def a(self, name):
    return self.args[name]

  def contents(self, v):
    if isinstance(v, Contents):
      return v
    return self.eng.contents(self.st, v)

  def was(self, v):
    """Contents of a list before the call."""
    return self.eng.contents(self.old, v)

  def h(self, hom, v):
    if isinstance(hom, str):
      hom = Hom.ALL[hom]
    if isinstance(v, V) and v.t == hom.et:
      return hom.node(v.e)
    return hom.of(self.contents(v))

  def len(self, v):
    if isinstance(v, V) and v.t == STR:
      return z3.Length(v.e)
    return self.contents(v).length()

  def e(self, v):
    return v.e

  def term(self, v, t=None):
    return self.eng.box(self.st, v, t)

  def eq(self, a, b):
    return self.eng.equal(self.st, a, b)

  def field(self, v, f):
    d = CLASSES[v.t[1]]
    return d.acc(f)(v.e)


INFINITY, NEG_INFINITY = z3.Reals('INFINITY NEG_INFINITY')


MAY = 'may'      # in raises: whether it raises is left open


class Contract:
  def __init__(self, fn, params, res, ensures, requires=None, decreases=None,
               raises=None, homs=(), cands=(), name=None, nested=None,
               cells=None, outer=None, trusted=False, note='', group=None,
               trans=None, lemmas=(), observe=None, mutates=(), effects=None,
               stronger=False):
    self.fn = fn
    # the postcondition fixes more than the property asks (e.g. the order of
    # edges): on its own, failing it does not show that the property fails
    self.stronger = stronger
    self.trans, self.lemmas, self.observe = trans, list(lemmas), observe
    self.mutates, self.effects, self.outer = mutates, effects, outer or {}
    self.group = group
    self.params = params            # dict name->type, or list of dicts (cases)
    self.res, self.ensures = res, ensures
    self.requires, self.decreases = requires, decreases
    self.raises = raises
    self.homs, self.cands = list(homs), list(cands)
    self.nested = nested            # name of nested function inside fn
    self.cells = cells              # nested: spec of captured cells
    self.trusted = trusted
    self.name = name or (
        (getattr(fn, '__module__', '?').split('.')[-1] + '.' +
         getattr(fn, '__qualname__', str(fn))) +
        (f'.<{nested}>' if nested else ''))
    self.note = note

  def cases(self):
    return self.params if isinstance(self.params, list) else [self.params]


class Engine:
  MAX_PATHS = 4000
  feas_ms = 8         # undecided counts as feasible

  def __init__(self, contracts, handlers=None, timeout_ms=6000):
    self.contracts = {}
    self.nested_contracts = {}
    for c in contracts:
      if c.nested:
        self.nested_contracts[(self._key(c.fn), c.nested)] = c
      else:
        self.contracts[self._key(c.fn)] = c
    self.handlers = dict(handlers or {})
    self.timeout = timeout_ms
    self.obls = []
    self.quiet = 0
    self.depth = 0
    self.cur = None
    self.homs = []
    self.lemmas = []
    self.trans = []
    self.cands = []
    self.notes = set()
    self.inlined = set()
    self.deadline = None
    self.incomplete = False

  @staticmethod
  def _key(fn):
    fn = getattr(fn, '__func__', fn)
    fn = inspect.unwrap(fn) if callable(fn) else fn
    return (getattr(fn, '__module__', None), getattr(fn, '__qualname__', fn))

  # ----------------------------------------------------------- obligations
  def oblige(self, st, label, goal):
    if self.quiet:
      return 'skipped'
    r = valid_hard(st.pc, goal, self.timeout)
    self.obls.append(Obl(self.cur, label, r))
    return r

  def feasible(self, st):
    self.tick()
    try:
      if core.INCREMENTAL.unsat(st.pc, 8):
        return False
    except (Unsupported, z3.Z3Exception):
      pass
    return solve(st.pc, self.feas_ms) != z3.unsat

  def tick(self):
    import time
    if self.deadline and time.time() > self.deadline:
      raise Unsupported('verification time budget exhausted')

  # ----------------------------------------------------------- value helpers
  def new_list(self, st, contents, frozen=False, place=None):
    ref = next(core._counter)
    st.lists[ref] = contents
    return VList(ref, frozen, place)

  def contents(self, st, v):
    if isinstance(v, VList):
      return st.lists[v.ref]
    if isinstance(v, VTup):
      et = None
      for i in v.items:
        et = self.join_t(et, i.t if not isinstance(i, VList) else
                         LIST(st.lists[i.ref].et))
      return Contents(et, [Unit(self.box(st, i, et)) for i in v.items])
    if isinstance(v, VPy) and isinstance(v.o, (tuple, list)):
      return self.contents(st, VTup([self.lift(i) for i in v.o]))
    if isinstance(v, VIter):
      raise Unsupported('iterator used as list')
    raise Unsupported(f'not a sequence: {v}')

  def type_of(self, st, v):
    if isinstance(v, VList):
      return LIST(st.lists[v.ref].et)
    if isinstance(v, VTup):
      ts = [self.type_of(st, i) for i in v.items]
      return TUP(*ts) if v.cls is None else NT(v.cls, *ts)
    if isinstance(v, VPy):
      l = self.lift(v.o)
      if not isinstance(l, VPy):
        return self.type_of(st, l)
      raise Unsupported(f'type of {v}')
    if isinstance(v, (V, VNone)):
      return v.t
    if isinstance(v, VDict):
      d = st.dicts[v.ref]
      return DICT(d['kt'], d['vt'])
    raise Unsupported(f'type of {v}')

  def join_t(self, a, b):
    if a is None or a == b:
      return b
    if b is None:
      return a
    if a == NONE:
      return b if b[0] == 'opt' else OPT(b)
    if b == NONE:
      return a if a[0] == 'opt' else OPT(a)
    if a[0] == 'opt' or b[0] == 'opt':
      ia = a[1] if a[0] == 'opt' else a
      ib = b[1] if b[0] == 'opt' else b
      return OPT(self.join_t(ia, ib))
    if {a[0], b[0]} <= {'int', 'real'}:
      return REAL
    if {a[0], b[0]} <= {'int', 'enum'}:
      return a if a[0] == 'enum' else b
    if {a[0], b[0]} <= {'list', 'seq'}:
      return LIST(self.join_t(a[1], b[1]))
    if a[0] == 'nt' and b[0] == 'nt' and a[1] is b[1]:
      return NT(a[1], *[self.join_t(x, y) for x, y in zip(a[2:], b[2:])])
    if a[0] == 'nt':
      return self.join_t(TUP(*a[2:]), b)
    if b[0] == 'nt':
      return self.join_t(a, TUP(*b[2:]))
    if a[0] == 'tup' and b[0] == 'tup' and len(a) == len(b):
      return TUP(*[self.join_t(x, y) for x, y in zip(a[1:], b[1:])])
    if a[0] == 'tup' and b[0] in ('list', 'seq'):
      t = b[1]
      for x in a[1:]:
        t = self.join_t(t, x)
      return b[0:1] + (t,)
    if b[0] == 'tup' and a[0] in ('list', 'seq'):
      return self.join_t(b, a)
    if a == ANY or b == ANY:
      return ANY
    raise Unsupported(f'cannot join types {a} and {b}')

  def lift(self, o):
    if o is None:
      return NONEV
    if isinstance(o, enum.Enum):
      return V(ENUM(type(o)), z3.IntVal(self.enum_code(o)))
    if isinstance(o, bool):
      return V(BOOL, z3.BoolVal(o))
    if isinstance(o, int):
      return V(INT, z3.IntVal(o))
    if isinstance(o, float):
      if math.isinf(o) and getattr(self.cur_contract, 'infinite', False):
        self.notes.add('infinity is an unknown real bound: only compared')
        return V(REAL, INFINITY if o > 0 else NEG_INFINITY)
      if math.isinf(o) or math.isnan(o):
        return VPy(o)
      return V(REAL, z3.RealVal(repr(o)))
    if isinstance(o, str):
      return V(STR, z3.StringVal(self.zstr(o)))
    if isinstance(o, tuple):
      return VTup([self.lift(i) for i in o],
                  type(o) if hasattr(o, '_fields') else None)
    return VPy(o)

  @staticmethod
  def zstr(s):
    return ''.join(c if 32 <= ord(c) < 127 and c != '\\'
                   else '\\u{%x}' % ord(c) for c in s)

  @staticmethod
  def enum_code(m):
    if isinstance(m, int):
      return int(m)
    return list(type(m)).index(m) + 1

  _any_consts = {}

  def to_any(self, v):
    """Injection of scalar values into the opaque sort U."""
    if v.t == ANY:
      return v.e
    if isinstance(v, VNone):
      return z3.Const('U_none', sort_of(ANY))
    f = z3.Function('inj_' + v.t[0], sort_of(v.t), sort_of(ANY))
    return f(v.e)

  def any_tuple(self, st, seq):
    """An opaque value that is known to be this tuple."""
    e = INJ_TUP(seq)
    st.assume(PRJ_TUP(e) == seq, IS_TUP(e))
    return e

  def box(self, st, v, t=None):
    """z3 term of type t for a value."""
    if t is None:
      t = self.type_of(st, v)
    k = t[0]
    if k == 'opt':
      so = sort_of(t)
      if isinstance(v, VNone):
        return so.none
      return so.some(self.box(st, v, t[1]))
    if isinstance(v, VPy):
      l = self.lift(v.o)
      if isinstance(l, VPy):
        if k == 'any':
          return z3.Const(f'py_{id(v.o)}', sort_of(ANY))
        if k in ('list', 'seq') and isinstance(v.o, (list, tuple)):
          return self.box(st, VTup([self.lift(i) for i in v.o]), t)
        if k == 'obj' and CLASSES[t[1]].kind == 'record':
          d = CLASSES[t[1]]
          (cls, fs), = d.members.items()
          if type(v.o) is cls:
            d.prepare()
            return d.ctor(*[self.box(st, VPy(getattr(v.o, f)), ft)
                            for f, ft in fs.items()])
        raise Unsupported(f'cannot box {v} as {t}')
      v = l
    if k == 'any':
      if isinstance(v, VTup):
        return self.any_tuple(st, Contents(
            ANY, [Unit(self.box(st, i, ANY)) for i in v.items]).term())
      if isinstance(v, VList):
        c = st.lists[v.ref]
        f = z3.Function('inj_list', c.term().sort(), sort_of(ANY))
        return f(c.term())
      return self.to_any(v)
    if k in ('list', 'seq'):
      c = self.contents(st, v)
      if c.et is None:
        return z3.Empty(sort_of(t))
      if c.et != t[1]:
        if all(isinstance(s, Unit) for s in c.segs):
          items = []
          for s in c.segs:
            (st1, u), = self.unbox(st, s.x, c.et)
            items.append(Unit(self.box(st, u, t[1])))
          return Contents(t[1], items).term()
        raise Unsupported(f'list element type {c.et} vs {t[1]}')
      return c.term()
    if k == 'nt':
      t, k = TUP(*t[2:]), 'tup'
    if k == 'tup':
      if isinstance(v, VTup):
        so = sort_of(t)
        if len(v.items) != len(t) - 1:
          raise Unsupported('tuple arity')
        return so.mk(*[self.box(st, i, ti) for i, ti in zip(v.items, t[1:])])
      raise Unsupported(f'box {v} as tuple')
    if k == 'none' and isinstance(v, VNone):
      return z3.BoolVal(True)
    if isinstance(v, V):
      if v.t == t or (v.t[0] in ('int', 'enum') and k in ('int', 'enum')):
        return v.e
      if v.t == INT and k == 'real':
        return z3.ToReal(v.e)
      if v.t == BOOL and k == 'int':
        return z3.If(v.e, 1, 0)
    raise Unsupported(f'cannot box {v} as {t}')

  def unbox(self, st, e, t):
    """[(state, value)] for a z3 term of type t (options fork)."""
    k = t[0]
    if k == 'nt':
      out = self.unbox(st, e, TUP(*t[2:]))
      for _, v in out:
        v.cls = t[1]
      return out
    if k == 'opt':
      so = sort_of(t)
      s1 = st.with_(e == so.none)
      s2 = st.with_(so.is_some(e))
      out = []
      if self.feasible(s1):
        out.append((s1, NONEV))
      if self.feasible(s2):
        out += self.unbox(s2, so.val(e), t[1])
      return out
    if k in ('list', 'seq'):
      st.assume(*self.seg_facts(e, t[1]))
      return [(st, self.new_list(st, Contents(t[1], [Seg(e)]), frozen=True))]
    if k == 'tup':
      so = sort_of(t)
      res = [(st, [])]
      for i, ti in enumerate(t[1:]):
        nxt = []
        for s, acc in res:
          for s2, v in self.unbox(s, so.accessor(0, i)(e), ti):
            nxt.append((s2, acc + [v]))
        res = nxt
      return [(s, VTup(acc)) for s, acc in res]
    if k == 'none':
      return [(st, NONEV)]
    st.assume(*self.type_facts(V(t, e)))
    if k == 'obj' and CLASSES[t[1]].kind in ('union', 'record'):
      d = CLASSES[t[1]]
      for f, ft in d.fields.items():
        if ft[0] in ('seq', 'list'):
          st.assume(*self.seg_facts(d.acc(f)(e), ft[1]))
    return [(st, V(t, e))]

  def fresh_value(self, st, t, p='v'):
    """[(state, value)] for an arbitrary value of type t."""
    if t[0] in ('list',):
      e = fresh(t, p)
      st.assume(*self.seg_facts(e, t[1]))
      return [(st, self.new_list(st, Contents(t[1], [Seg(e)])))]
    if t[0] == 'ufun':
      return [(st, VFun(t[1], t[2], t[3]))]
    if t[0] == 'fun':
      f = z3.Function(fresh_name(p), *[sort_of(x) for x in t[1:]])
      return [(st, VFun(f, t[1:-1], t[-1]))]
    if t[0] == 'nt':
      out = self.fresh_value(st, TUP(*t[2:]), p)
      for _, v in out:
        v.cls = t[1]
      return out
    if t[0] == 'tup':
      res = [(st, [])]
      for ti in t[1:]:
        res = [(s2, acc + [v]) for s, acc in res
               for s2, v in self.fresh_value(s, ti, p)]
      return [(s, VTup(acc)) for s, acc in res]
    if t[0] == 'opt':
      out = [(st.fork(), NONEV)]
      out += self.fresh_value(st.fork(), t[1], p)
      return out
    if t[0] in ('dict', 'set'):
      ref = next(core._counter)
      vt = t[2] if t[0] == 'dict' else BOOL
      n = z3.Int(fresh_name('sz'))
      st.assume(n >= 0)
      st.dicts[ref] = dict(
          kt=t[1], vt=vt, size=n,
          dom=z3.Const(fresh_name('dom'),
                       z3.ArraySort(sort_of(t[1]), z3.BoolSort())),
          val=z3.Const(fresh_name('map'),
                       z3.ArraySort(sort_of(t[1]), sort_of(vt))))
      if t[0] == 'dict':    # what items() lists, while nothing is changed
        st.dicts[ref]['items'] = fresh(LIST(TUP(t[1], vt)), 'items')
      return [(st, VDict(ref))]
    if t[0] == 'inst':
      ref = next(core._counter)
      st.insts[ref] = {}
      res = [st]
      for f, ft in t[2]:
        nxt = []
        for s in res:
          for s2, v in self.fresh_value(s, ft, f):
            s2.insts[ref] = dict(s2.insts[ref])
            s2.insts[ref][f] = v
            nxt.append(s2)
        res = nxt
      return [(s, VInst(t[1], ref)) for s in res]
    if t[0] == 'oneof':
      return [x for ti in t[1:] for x in self.fresh_value(st.fork(), ti, p)]
    if t[0] == 'py':
      return [(st, VPy(t[1]))]
    if t == NONE:
      return [(st, NONEV)]
    return self.unbox(st, fresh(t, p), t)

  def type_facts(self, v):
    if v.t[0] == 'enum':
      codes = [self.enum_code(m) for m in v.t[1]]
      return [z3.Or(*[v.e == c for c in codes])]
    if v.t[0] == 'obj':
      d = CLASSES[v.t[1]]
      if d.kind == 'union':
        d.prepare()
        return [z3.And(d.tag(v.e) >= 0, d.tag(v.e) < len(d.tags))]
    return []

  def seg_facts(self, s, et):
    """Facts instantiated for every sequence atom."""
    out = []
    for h in self.homs:
      if h.et == et:
        out.append(z3.Implies(z3.Length(s) == 0, h.seq(s) == h.monoid.unit))
        if h.inv is not None:
          out.append(h.inv(h.seq(s)))
    for lem in self.lemmas:
      if lem.et == et and lem.qt is None and lem.auto:
        out.append(lem.at(Contents(et, [Seg(s)])))
    return out + self.trans_facts(s, et)

  def trans_facts(self, s, et):
    out = self.trans_lemmas(s, et)
    for t, q0 in self.trans:
      if t.et == et:
        out.append(z3.Implies(z3.Length(s) == 0, z3.And(
            t.fq(s, q0) == q0, True if t.monoid is None else
            t.fo(s, q0) == t.monoid.unit)))
    return out

  def trans_lemmas(self, s, et):
    """Proved lemmas with a state, from the start states of the contract."""
    out, seen = [], set()
    for t, q0 in self.trans:
      for lem in self.lemmas:
        key = (lem.name, q0.get_id())
        if lem.auto and lem.et == et == t.et and lem.qt == t.qt and \
            key not in seen:
          seen.add(key)
          out.append(lem.at(Contents(et, [Seg(s)]), q0))
    return out

  def char_facts(self, s):
    return self.trans_lemmas(s, CHAR) + [z3.Implies(z3.Length(s) == 0, z3.And(
        t.fq(s, q0) == q0, True if t.monoid is None else
        t.fo(s, q0) == t.monoid.unit))
            for t, q0 in self.trans if t.et == CHAR]

  def local_laws(self, st, et, whole, parts=None):
    """Transducer laws at the states that local variables hold.

    Only for contracts that ask for it; the laws hold at every state.  With
    parts: whole == parts, otherwise the law for an empty sequence.
    """
    out = []
    for t in getattr(self.cur_contract, 'local_states', ()):
      if t.et != et:
        continue
      seen = []
      for v in st.cells.values():
        if not isinstance(v, V) or v.e.sort() != sort_of(t.qt) or any(
            v.e.eq(q) for q in seen):
          continue
        seen.append(v.e)
        if parts is None:
          fs = [t.q(whole, v.e) == v.e]
          if t.monoid is not None:
            fs.append(t.o(whole, v.e) == t.monoid.unit)
          out.append(z3.Implies(whole.length() == 0, z3.And(*fs)))
        else:
          out.append(t.q(whole, v.e) == t.q(parts, v.e))
          if t.monoid is not None:
            out.append(t.o(whole, v.e) == t.o(parts, v.e))
    return out

  def trans_eq(self, a, b):
    out = []
    for t, q0 in self.trans:
      if t.et == b.et:
        out.append(t.q(a, q0) == t.q(b, q0))
        if t.monoid is not None:
          out.append(t.o(a, q0) == t.o(b, q0))
    return out

  def hom_eq(self, whole, parts):
    """Facts: whole (z3 seq term) == concat of parts (Contents)."""
    out = [whole == parts.term()]
    for h in self.homs:
      if h.et == parts.et:
        out.append(h.seq(whole) == h.of(parts))
    return out

  def hom_eq_contents(self, whole, parts):
    out = [whole.term() == parts.term()]
    for h in self.homs:
      if h.et == parts.et:
        out.append(h.of(whole) == h.of(parts))
    return out + self.trans_eq(whole, parts)

  def truth(self, st, v):
    """z3 Bool for Python truthiness (no fork)."""
    if isinstance(v, VNone):
      return z3.BoolVal(False)
    if isinstance(v, V):
      k = v.t[0]
      if k == 'bool':
        return v.e
      if k in ('int', 'real'):
        return v.e != 0
      if k == 'str':
        return z3.Length(v.e) > 0
      if k == 'enum':
        if issubclass(v.t[1], int):
          return v.e != 0
        return z3.BoolVal(True)
      if k == 'obj':
        d = CLASSES[v.t[1]]
        for c in d.members:
          if hasattr(c, '__len__') or '__bool__' in c.__dict__:
            f = getattr(self, 'len_of_obj', None)
            if f is None or not hasattr(c, '__len__'):
              raise Unsupported(f'truth value of {v.t}')
            return f(st, v) != 0
        return z3.BoolVal(True)
      if k == 'any':
        return z3.Function('truthU', sort_of(ANY), z3.BoolSort())(v.e)
    if isinstance(v, VList):
      return st.lists[v.ref].length() > 0
    if isinstance(v, VTup):
      return z3.BoolVal(bool(v.items))
    if isinstance(v, VDict):
      return st.dicts[v.ref]['size'] > 0
    if isinstance(v, VPy):
      return z3.BoolVal(bool(v.o))
    if isinstance(v, (VInst, VClosure, VFun)):
      if isinstance(v, VInst) and (hasattr(v.cls, '__len__') or
                                   '__bool__' in v.cls.__dict__):
        raise Unsupported('truth of instance')
      return z3.BoolVal(True)
    raise Unsupported(f'truth of {v}')

  def equal(self, st, a, b):
    """z3 Bool for Python ==."""
    if isinstance(a, VPy):
      a = self.lift(a.o)
    if isinstance(b, VPy):
      b = self.lift(b.o)
    if isinstance(a, VNone) or isinstance(b, VNone):
      if isinstance(a, V) and a.t == ANY:
        return a.e == self.to_any(b)
      if isinstance(b, V) and b.t == ANY:
        return b.e == self.to_any(a)
      return z3.BoolVal(isinstance(a, VNone) and isinstance(b, VNone))
    if isinstance(a, V) and isinstance(b, V):
      ka, kb = a.t[0], b.t[0]
      num = ('int', 'real', 'enum', 'bool')
      if ka in num and kb in num:
        for v in (a, b):
          if v.t[0] == 'enum' and not issubclass(v.t[1], int):
            if a.t != b.t:
              return z3.BoolVal(False)
        ea = z3.If(a.e, 1, 0) if ka == 'bool' and kb != 'bool' else a.e
        eb = z3.If(b.e, 1, 0) if kb == 'bool' and ka != 'bool' else b.e
        if ea.sort() != eb.sort():
          ea = z3.ToReal(ea) if ea.sort() == z3.IntSort() else ea
          eb = z3.ToReal(eb) if eb.sort() == z3.IntSort() else eb
        return ea == eb
      if a.t == b.t:
        if ka == 'obj' and CLASSES[a.t[1]].kind == 'union':
          d = CLASSES[a.t[1]]
          if d.eq is None:
            raise Unsupported('structural equality of recursive objects')
          self.notes.add(f'== of {d.name} is the relation {d.eq.name()}')
          return z3.Or(a.e == b.e, d.eq(a.e, b.e))
        return a.e == b.e
      if ka == 'any' or kb == 'any':
        return self.to_any(a) == self.to_any(b)
      if {ka, kb} & {'str', 'obj'}:
        return z3.BoolVal(False)
      raise Unsupported(f'== of {a.t} and {b.t}')
    if isinstance(a, VTup) and isinstance(b, VTup):
      if len(a.items) != len(b.items):
        return z3.BoolVal(False)
      return z3.And(*[self.equal(st, x, y)
                      for x, y in zip(a.items, b.items)]) \
          if a.items else z3.BoolVal(True)
    if isinstance(a, (VList, VTup)) and isinstance(b, (VList, VTup)):
      ca, cb = self.contents(st, a), self.contents(st, b)
      if ca.et is None or cb.et is None:
        other = cb if ca.et is None else ca
        return other.length() == 0
      if ca.et != cb.et:
        et = self.join_t(ca.et, cb.et)
        return self.box(st, a, LIST(et)) == self.box(st, b, LIST(et))
      return ca.term() == cb.term()
    if isinstance(a, V) and a.t == ANY or isinstance(b, V) and b.t == ANY:
      return self.box(st, a, ANY) == self.box(st, b, ANY)
    if isinstance(a, VPy) and isinstance(b, VPy):
      return z3.BoolVal(a.o == b.o)
    if type(a) is not type(b):
      return z3.BoolVal(False)
    raise Unsupported(f'== of {a} and {b}')

  # ----------------------------------------------------------- exceptions
  def throw(self, st, name, node=None):
    s = st.fork()
    label = ast.unparse(node)[:80] if node is not None else ''
    s.exc = (name, label)
    return s

  def guard(self, st, cond, exc, node):
    """States after a check that raises `exc` unless cond."""
    c = z3.simplify(cond)
    label = f'no {exc} at `{ast.unparse(node)[:70]}`'
    if z3.is_true(c):
      return [st]
    r = valid(st.pc, cond, self.timeout)
    if r == 'proved':
      if not self.quiet:
        self.obls.append(Obl(self.cur, label, 'proved'))
      return [st]
    bad = st.with_(z3.Not(cond))
    bad.exc = (exc, ast.unparse(node)[:80])
    return [st.with_(cond), bad]

  # ----------------------------------------------------------- evaluation
  def evs(self, exprs, st, env):
    res = [(st, [])]
    for e in exprs:
      nxt = []
      for s, acc in res:
        if s.exc:
          nxt.append((s, acc))
          continue
        if isinstance(e, ast.Starred):
          for s2, v in self.ev(e.value, s, env):
            if s2.exc:
              nxt.append((s2, acc))
            else:
              nxt.append((s2, acc + self.explode(s2, v)))
          continue
        for s2, v in self.ev(e, s, env):
          nxt.append((s2, acc + [v]))
      res = nxt
    return res

  def explode(self, st, v):
    """Elements of a sequence with statically known length."""
    if isinstance(v, VTup):
      return list(v.items)
    if isinstance(v, VPy) and isinstance(v.o, (tuple, list)):
      return [self.lift(i) for i in v.o]
    if isinstance(v, VList):
      c = st.lists[v.ref]
      if c.concrete_len() is not None:
        out = []
        for s in c.segs:
          r = self.unbox(st, s.x, c.et)
          if len(r) != 1:
            raise Unsupported('explode optional')
          out.append(r[0][1])
        return out
    raise Unsupported('sequence of unknown length unpacked')

  def ev(self, e, st, env):
    if st.exc:
      return [(st, None)]
    m = getattr(self, 'ev_' + type(e).__name__, None)
    if m is None:
      raise Unsupported(f'expression {type(e).__name__}')
    return m(e, st, env)

  def ev_Constant(self, e, st, env):
    if e.value is Ellipsis:
      return [(st, VPy(Ellipsis))]
    return [(st, self.lift(e.value))]

  def ev_Name(self, e, st, env):
    return [(st, self.lookup(e.id, st, env))]

  def lookup(self, name, st, env):
    c = env.cell_for(name)
    if c is not None:
      if c in st.cells:
        return st.cells[c]
      raise Unsupported(f'possibly unbound local {name}')
    x = env
    while x is not None:
      if name in x.locals:
        raise Unsupported(f'possibly unbound local {name}')
      x = x.parent
    g = env.module.__dict__
    if name in g:
      return self.lift(g[name])
    if hasattr(builtins, name):
      return VPy(getattr(builtins, name))
    raise Unsupported(f'unknown name {name}')

  def ev_Attribute(self, e, st, env):
    out = []
    for s, v in self.ev(e.value, st, env):
      if s.exc:
        out.append((s, None))
      else:
        out += self.getattr_(s, v, e.attr, e)
    return out

  def getattr_(self, st, v, attr, node):
    if isinstance(v, VPy):
      try:
        o = inspect.getattr_static(v.o, attr) if isinstance(v.o, type) \
            else getattr(v.o, attr)
      except AttributeError:
        raise Unsupported(f'attribute {attr} of {v}')
      if isinstance(v.o, type):
        if isinstance(o, (classmethod,)):
          return [(st, VBound(v, attr))]
        if isinstance(o, staticmethod):
          o = o.__func__
        if isinstance(v.o, type) and issubclass(v.o, enum.Enum):
          o = getattr(v.o, attr)
      if inspect.ismethod(o) or inspect.isbuiltin(o) and not isinstance(
          v.o, pytypes.ModuleType):
        return [(st, VBound(v, attr))]
      return [(st, self.lift(o))]
    if isinstance(v, V) and v.t[0] == 'obj':
      d = CLASSES[v.t[1]]
      if attr in d.fields:
        ok = [d.tags[c] for c, fs in d.members.items() if attr in fs]
        states = [st]
        if d.kind == 'union' and len(ok) < len(d.members):
          states = self.guard(
              st, z3.Or(*[d.tag(v.e) == k for k in ok]), 'AttributeError', node)
        out = []
        for s in states:
          if s.exc:
            out.append((s, None))
          elif d.kind == 'ref':
            out += self.unbox(s, z3.Select(s.heap[(d.name, attr)], v.e),
                              d.fields[attr])
            if out and isinstance(out[-1][1], VList):
              out[-1] = (out[-1][0], VList(out[-1][1].ref, True,
                                           ('heap', v, attr)))
          else:
            out += self.unbox(s, d.acc(attr)(v.e), d.fields[attr])
        return out
      for c in d.members:
        if hasattr(c, attr):
          return [(st, VBound(v, attr))]
      raise Unsupported(f'attribute {attr} of {v.t}')
    if isinstance(v, V) and v.t[0] == 'enum':
      if attr == 'name':
        f = z3.Function('name_' + v.t[1].__name__, z3.IntSort(),
                        z3.StringSort())
        for m in v.t[1]:
          st.assume(f(self.enum_code(m)) == z3.StringVal(m.name))
        return [(st, V(STR, f(v.e)))]
      if attr == 'value' and issubclass(v.t[1], int):
        return [(st, V(INT, v.e))]
      raise Unsupported(f'enum attribute {attr}')
    if isinstance(v, VInst):
      if attr in st.insts[v.ref]:
        return [(st, st.insts[v.ref][attr])]
      static = inspect.getattr_static(v.cls, attr, None)
      if isinstance(static, property):
        return self.call_fn(st, VPy(static.fget), [v], {}, node)
      if static is not None and not callable(static) and not isinstance(
          static, (classmethod, staticmethod)):
        return [(st, self.lift(static))]
      if static is not None:
        return [(st, VBound(v, attr))]
      raise Unsupported(f'attribute {attr} of {v.cls}')
    if isinstance(v, VTup) and v.cls is not None:
      if attr in v.cls._fields:
        return [(st, v.items[v.cls._fields.index(attr)])]
      if attr == '_replace':
        return [(st, VBound(v, attr))]
      return [(st, VBound(v, attr))]
    if isinstance(v, VNone):
      return [(self.throw(st, 'AttributeError', node), None)]
    return [(st, VBound(v, attr))]

  def ev_Tuple(self, e, st, env):
    return [(s, None if s.exc else VTup(vs))
            for s, vs in self.evs(e.elts, st, env)]

  def ev_List(self, e, st, env):
    out = []
    for s, vs in self.evs(e.elts, st, env):
      if s.exc:
        out.append((s, None))
      else:
        self.escape(s, VTup(vs))
        out.append((s, self.new_list(s, self.contents(s, VTup(vs)))))
    return out

  def ev_Set(self, e, st, env):
    out = []
    for s, v in self.ev_Tuple(e, st, env):
      if not s.exc and not all(
          isinstance(x, VPy) or isinstance(x, V) and (
              z3.is_int_value(x.e) or z3.is_string_value(x.e))
          for x in v.items):
        ref = next(core._counter)
        s.dicts[ref] = dict(kt=None, vt=None, size=z3.IntVal(0), dom=None,
                            val=None)
        for x in v.items:
          self.dict_set(s, VDict(ref), x, V(BOOL, z3.BoolVal(True)))
        v = VDict(ref)
      out.append((s, v))
    return out

  def set_op(self, st, op, a, b):
    da, db = st.dicts[a.ref], st.dicts[b.ref]
    if None in (da['dom'], db['dom']) or da['kt'] != db['kt'] or \
        da['vt'] != BOOL or db['vt'] != BOOL:
      raise Unsupported('operation on these sets')
    f = z3.SetIntersect if isinstance(op, ast.BitAnd) else z3.SetUnion
    ref = next(core._counter)
    n = z3.Int(fresh_name('sz'))
    st.assume(n >= 0)
    st.dicts[ref] = dict(da, dom=f(da['dom'], db['dom']), size=n)
    return [(st, VDict(ref))]

  def ev_Dict(self, e, st, env):
    if e.keys:
      out = []
      for s, vs in self.evs(list(e.keys) + list(e.values), st, env):
        if s.exc:
          out.append((s, None))
          continue
        n = len(e.keys)
        ref = next(core._counter)
        s.dicts[ref] = dict(kt=None, vt=None, size=z3.IntVal(0), dom=None,
                            val=None)
        d = VDict(ref)
        for k, v in zip(vs[:n], vs[n:]):
          self.dict_set(s, d, k, v)
        out.append((s, d))
      return out
    ref = next(core._counter)
    st.dicts[ref] = dict(kt=None, vt=None, size=z3.IntVal(0), dom=None,
                         val=None)
    return [(st, VDict(ref))]

  def ev_JoinedStr(self, e, st, env):
    parts = []
    exprs = []
    for p in e.values:
      if isinstance(p, ast.Constant):
        parts.append(p.value)
      else:
        if p.format_spec is not None:
          parts.append(('spec', len(exprs), ast.unparse(p.format_spec),
                        p.conversion))
        else:
          parts.append(('v', len(exprs), '', p.conversion))
        exprs.append(p.value)
    out = []
    for s, vs in self.evs(exprs, st, env):
      if s.exc:
        out.append((s, None))
        continue
      r = z3.StringVal('')
      for p in parts:
        if isinstance(p, str):
          r = core._concat(r, z3.StringVal(self.zstr(p)))
        else:
          v = vs[p[1]]
          if p[0] == 'v' and p[3] == -1:
            r = core._concat(r, self.str_of(s, v))
          else:
            r = core._concat(r, z3.Function(
                fresh_name('fmt'), z3.IntSort(), z3.StringSort())(0))
      out.append((s, V(STR, r)))
    return out

  def str_of(self, st, v):
    if isinstance(v, V) and v.t == STR:
      return v.e
    if isinstance(v, V) and v.t == INT and z3.is_int_value(v.e):
      return z3.StringVal(str(v.e.as_long()))
    try:
      t = self.type_of(st, v)
      e = self.box(st, v, t)
      return z3.Function('str_' + str(e.sort()).replace(' ', ''), e.sort(),
                         z3.StringSort())(e)
    except Unsupported:
      return fresh(STR, 'fmt')

  def ev_Lambda(self, e, st, env):
    return [(st, VClosure(e, env, env.module, '<lambda>'))]

  def ev_IfExp(self, e, st, env):
    out = []
    for s, c in self.branch(e.test, st, env):
      if s.exc:
        out.append((s, None))
      else:
        out += self.ev(e.body if c else e.orelse, s, env)
    return out

  def ev_NamedExpr(self, e, st, env):
    out = []
    for s, v in self.ev(e.value, st, env):
      if not s.exc:
        self.assign_name(e.target.id, v, s, env)
      out.append((s, v))
    return out

  def branch(self, test, st, env):
    """[(state, bool)] — forks on the truth of an expression."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
      return [(s, None if c is None else not c)
              for s, c in self.branch(test.operand, st, env)]
    if isinstance(test, ast.BoolOp):
      is_and = isinstance(test.op, ast.And)
      live, out = [st], []
      for x in test.values:
        nxt = []
        for s in live:
          for s2, c in self.branch(x, s, env):
            if s2.exc:
              out.append((s2, None))
            elif c == is_and:
              nxt.append(s2)
            else:
              out.append((s2, c))
        live = nxt
      return out + [(s, is_and) for s in live]
    out = []
    for s, v in self.ev(test, st, env):
      if s.exc:
        out.append((s, None))
        continue
      out += self.split_truth(s, v)
    return out

  def split_truth(self, s, v):
    t = z3.simplify(self.truth(s, v))
    if z3.is_true(t):
      return [(s, True)]
    if z3.is_false(t):
      return [(s, False)]
    out = []
    a = s.with_(t)
    b = s.with_(z3.Not(t))
    fa = self.feasible(a)
    if fa:
      out.append((a, True))
    if not fa or self.feasible(b):
      out.append((b, False))
    return out

  def ev_BoolOp(self, e, st, env):
    is_and = isinstance(e.op, ast.And)
    live, out = [st], []
    for i, x in enumerate(e.values):
      last = i == len(e.values) - 1
      nxt = []
      for s in live:
        for s2, v in self.ev(x, s, env):
          if s2.exc or last:
            out.append((s2, v))
            continue
          for s3, c in self.split_truth(s2, v):
            if c == is_and:
              nxt.append(s3)
            else:
              if isinstance(v, V) and v.t == BOOL:
                v2 = V(BOOL, z3.BoolVal(c))
              else:
                v2 = v
              out.append((s3, v2))
      live = nxt
    return out

  def ev_UnaryOp(self, e, st, env):
    if isinstance(e.op, ast.Not):
      out = []
      for s, v in self.ev(e.operand, st, env):
        out.append((s, None if s.exc else
                    V(BOOL, z3.simplify(z3.Not(self.truth(s, v))))))
      return out
    out = []
    for s, v in self.ev(e.operand, st, env):
      if s.exc:
        out.append((s, None))
        continue
      if isinstance(e.op, ast.USub):
        if isinstance(v, VPy) and isinstance(v.o, float):
          out.append((s, VPy(-v.o)))
        elif isinstance(v, V) and v.e.eq(INFINITY):
          out.append((s, V(REAL, NEG_INFINITY)))
        elif isinstance(v, V) and v.t[0] in ('int', 'real'):
          out.append((s, V(v.t, z3.simplify(-v.e))))
        else:
          out += self.special_unary(s, e.op, v)
      elif isinstance(e.op, ast.UAdd):
        out.append((s, v))
      else:
        raise Unsupported('unary operator')
    return out

  def special_unary(self, st, op, v):
    raise Unsupported('unary operator operand')

  def ev_BinOp(self, e, st, env):
    out = []
    for s, vs in self.evs([e.left, e.right], st, env):
      if s.exc:
        out.append((s, None))
      else:
        out += self.binop(s, e.op, vs[0], vs[1], e)
    return out

  def num(self, v):
    if isinstance(v, V):
      if v.t[0] in ('int', 'real', 'enum'):
        return v
      if v.t == BOOL:
        return V(INT, z3.If(v.e, 1, 0))
    return None

  def special_binop(self, st, op, a, b, node):
    return None

  def binop(self, st, op, a, b, node):
    r = self.special_binop(st, op, a, b, node)
    if r is not None:
      return r
    if isinstance(a, VDict) and isinstance(b, VDict) and isinstance(
        op, (ast.BitAnd, ast.BitOr)):
      return self.set_op(st, op, a, b)
    if isinstance(a, VPy):
      a = self.lift(a.o)
    if isinstance(b, VPy):
      b = self.lift(b.o)
    na, nb = self.num(a), self.num(b)
    for n in (na, nb):
      if n is not None and (n.e.eq(INFINITY) or n.e.eq(NEG_INFINITY)):
        raise Unsupported('arithmetic with infinity')
    if isinstance(a, VNone) or isinstance(b, VNone):
      return [(self.throw(st, 'TypeError', node), None)]
    if na is not None and nb is not None:
      real = na.t == REAL or nb.t == REAL
      ea, eb = na.e, nb.e
      if real:
        ea = z3.ToReal(ea) if na.t != REAL else ea
        eb = z3.ToReal(eb) if nb.t != REAL else eb
      t = REAL if real else INT
      if isinstance(op, ast.Add):
        return [(st, V(t, z3.simplify(ea + eb)))]
      if isinstance(op, ast.Sub):
        return [(st, V(t, z3.simplify(ea - eb)))]
      if isinstance(op, ast.Mult):
        return [(st, V(t, z3.simplify(ea * eb)))]
      if isinstance(op, ast.Div):
        if not real:
          ea, eb = z3.ToReal(ea), z3.ToReal(eb)
        return [(s, None if s.exc else V(REAL, ea / eb))
                for s in self.guard(st, eb != 0, 'ZeroDivisionError', node)]
      if isinstance(op, (ast.FloorDiv, ast.Mod)) and not real:
        out = []
        for s in self.guard(st, eb != 0, 'ZeroDivisionError', node):
          if s.exc:
            out.append((s, None))
            continue
          # z3 div/mod is Euclidean: equal to Python's for positive divisors
          q = z3.If(eb > 0, ea / eb, (-ea) / (-eb))
          # Python floor division: floor(a/b); Euclidean with b<0 differs
          q = z3.If(eb > 0, ea / eb, -((ea + (-eb) - 1) / (-eb)))
          m = ea - q * eb
          if z3.is_int_value(z3.simplify(eb)) and \
              z3.simplify(eb).as_long() > 0:
            q, m = ea / eb, ea % eb
          out.append((s, V(INT, q if isinstance(op, ast.FloorDiv) else m)))
        return out
      if isinstance(op, (ast.FloorDiv, ast.Mod)):
        out = []
        for s in self.guard(st, eb != 0, 'ZeroDivisionError', node):
          q = z3.ToReal(z3.ToInt(ea / eb))      # floor
          out.append((s, None if s.exc else V(
              REAL, q if isinstance(op, ast.FloorDiv) else ea - q * eb)))
        return out
      if isinstance(op, ast.Pow):
        if z3.is_int_value(z3.simplify(eb)):
          n = z3.simplify(eb).as_long()
          if 0 <= n <= 4:
            r = z3.IntVal(1) if t == INT else z3.RealVal(1)
            for _ in range(n):
              r = r * ea
            return [(st, V(t, r))]
      raise Unsupported(f'operator {type(op).__name__} on numbers')
    if isinstance(op, ast.Add):
      if isinstance(a, V) and isinstance(b, V) and a.t == STR and b.t == STR:
        return [(st, V(STR, core._concat(a.e, b.e)))]
      if isinstance(a, VTup) and isinstance(b, VTup):
        return [(st, VTup(a.items + b.items))]
      if isinstance(a, (VList, VTup)) and isinstance(b, (VList, VTup)):
        ca, cb = self.contents(st, a), self.contents(st, b)
        return [(st, self.new_list(st, ca.plus(cb),
                                   frozen=isinstance(a, VTup)))]
      if isinstance(a, VTup) and isinstance(b, V) and b.t == ANY:
        # tuple + opaque tuple
        out = []
        for s in self.guard(st, IS_TUP(b.e), 'TypeError', node):
          out.append((s, None if s.exc else V(ANY, self.any_tuple(
              s, Contents(ANY, [Unit(self.box(s, i, ANY)) for i in a.items] +
                          [Seg(PRJ_TUP(b.e))]).term()))))
        return out
    if isinstance(op, ast.Mult):
      if isinstance(b, (VList, VTup)):
        a, b = b, a
      nb = self.num(b)
      if isinstance(a, (VList, VTup)) and nb is not None:
        return self.repeat(st, a, nb)
      if isinstance(a, V) and a.t == STR and nb is not None:
        raise Unsupported('string repetition')
    raise Unsupported(f'operator {type(op).__name__} on {a} and {b}')

  def repeat(self, st, a, n):
    """[x]*n: fresh sequence of length max(n,0) whose homs are known."""
    c = self.contents(st, a)
    ne = z3.simplify(n.e)
    if z3.is_int_value(ne) and ne.as_long() <= 4:
      return [(st, self.new_list(st, Contents(c.et, c.segs *
                                              max(0, ne.as_long()))))]
    if len(c.segs) != 1 or not isinstance(c.segs[0], Unit):
      raise Unsupported('repetition of a non-singleton list')
    x = c.segs[0].x
    s = fresh(LIST(c.et), 'rep')
    cnt = zmax(n.e, z3.IntVal(0))
    st.assume(z3.Length(s) == cnt, *self.seg_facts(s, c.et))
    for h in self.homs:
      if h.et != c.et:
        continue
      if h.monoid.name in ('sum', 'rsum'):
        st.assume(h.seq(s) == h.node(x) * cnt)
      elif h.monoid.name == 'and':
        st.assume(h.seq(s) == z3.Or(cnt == 0, h.node(x)))
      elif h.monoid.name == 'or':
        st.assume(h.seq(s) == z3.And(cnt > 0, h.node(x)))
      elif h.monoid.name == 'max0':
        st.assume(h.seq(s) == z3.If(cnt > 0, zmax(h.node(x), 0), 0))
      else:
        # idempotent-at-unit: if h([x]) is the unit, so is h of the repetition
        st.assume(z3.Implies(h.node(x) == h.monoid.unit,
                             h.seq(s) == h.monoid.unit))
    for f in getattr(self, 'repeat_hooks', []):
      st.assume(*f(self, s, x, cnt, c.et))
    return [(st, self.new_list(st, Contents(c.et, [Seg(s)])))]

  def ev_Compare(self, e, st, env):
    out = []
    for s, vs in self.evs([e.left] + e.comparators, st, env):
      if s.exc:
        out.append((s, None))
        continue
      res = [(s, None)]
      fs = [[(s, [])]][0]
      cur = [(s, [])]
      for i, op in enumerate(e.ops):
        nxt = []
        for s1, acc in cur:
          for s2, f in self.compare(s1, op, vs[i], vs[i + 1], e):
            nxt.append((s2, acc + [f]))
        cur = nxt
      for s1, acc in cur:
        if s1.exc:
          out.append((s1, None))
        else:
          out.append((s1, V(BOOL, z3.simplify(
              z3.And(*acc) if len(acc) > 1 else acc[0]))))
    return out

  def special_compare(self, st, op, a, b, node):
    return None

  def compare(self, st, op, a, b, node):
    r = self.special_compare(st, op, a, b, node)
    if r is not None:
      return r
    if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
      neg = isinstance(op, ast.IsNot)
      if isinstance(b, VNone) or isinstance(a, VNone):
        x = a if isinstance(b, VNone) else b
        if isinstance(x, V) and x.t == ANY:
          f = x.e == self.to_any(NONEV)
        else:
          f = z3.BoolVal(isinstance(x, VNone))
      elif isinstance(a, V) and isinstance(b, V) and a.t == b.t:
        f = a.e == b.e
      elif isinstance(a, V) and isinstance(b, VPy) or isinstance(
          a, VPy) and isinstance(b, V):
        f = self.equal(st, a, b)
      else:
        raise Unsupported('is')
      return [(st, z3.Not(f) if neg else f)]
    if isinstance(op, ast.Eq):
      return self.eq_call(st, a, b, node)
    if isinstance(op, ast.NotEq):
      return [(s, z3.Not(f) if f is not None else None)
              for s, f in self.eq_call(st, a, b, node)]
    if isinstance(op, (ast.In, ast.NotIn)):
      f = self.contains(st, b, a)
      return [(st, z3.Not(f) if isinstance(op, ast.NotIn) else f)]
    if isinstance(a, VPy):
      a = self.lift(a.o)
    if isinstance(b, VPy):
      b = self.lift(b.o)
    na, nb = self.num(a), self.num(b)
    if na is not None and nb is not None:
      ea, eb = na.e, nb.e
      if ea.sort() != eb.sort():
        ea = z3.ToReal(ea) if ea.sort() == z3.IntSort() else ea
        eb = z3.ToReal(eb) if eb.sort() == z3.IntSort() else eb
      f = {ast.Lt: lambda: ea < eb, ast.LtE: lambda: ea <= eb,
           ast.Gt: lambda: ea > eb, ast.GtE: lambda: ea >= eb}[type(op)]()
      return [(st, f)]
    if isinstance(b, VPy) and isinstance(b.o, float) and math.isinf(b.o) \
        and na is not None:
      pos = b.o > 0
      r = {ast.Lt: pos, ast.LtE: pos, ast.Gt: not pos,
           ast.GtE: not pos}[type(op)]
      return [(st, z3.BoolVal(r))]
    raise Unsupported(f'comparison {type(op).__name__} of {a} and {b}')

  def eq_call(self, st, a, b, node):
    return [(st, self.equal(st, a, b))]

  def contains(self, st, coll, x):
    if isinstance(coll, VPy):
      o = coll.o
      if isinstance(o, (tuple, list, set, frozenset)):
        fs = [self.equal(st, x, self.lift(i)) for i in o]
        return z3.Or(*fs) if fs else z3.BoolVal(False)
      coll = self.lift(o)
    if isinstance(coll, VTup):
      fs = [self.equal(st, x, i) for i in coll.items]
      return z3.Or(*fs) if fs else z3.BoolVal(False)
    if isinstance(coll, VList):
      c = st.lists[coll.ref]
      fs = []
      for s in c.segs:
        if isinstance(s, Unit):
          (_, u), = self.unbox(st, s.x, c.et)
          fs.append(self.equal(st, x, u))
        else:
          fs.append(z3.Contains(s.s, z3.Unit(self.box(st, x, c.et))))
      return z3.Or(*fs) if fs else z3.BoolVal(False)
    if isinstance(coll, V) and coll.t == STR:
      return z3.Contains(coll.e, x.e)
    if isinstance(coll, VDict):
      d = st.dicts[coll.ref]
      if d['dom'] is None:
        return z3.BoolVal(False)
      return z3.Select(d['dom'], self.box(st, x, d['kt']))
    raise Unsupported(f'membership in {coll}')

  # ------------------------------------------------------- subscripts
  def ev_Subscript(self, e, st, env):
    out = []
    if isinstance(e.slice, ast.Slice):
      parts = [e.value] + [x for x in (e.slice.lower, e.slice.upper,
                                       e.slice.step) if x is not None]
      for s, vs in self.evs(parts, st, env):
        if s.exc:
          out.append((s, None))
          continue
        it = iter(vs[1:])
        lo = next(it) if e.slice.lower is not None else None
        hi = next(it) if e.slice.upper is not None else None
        step = next(it) if e.slice.step is not None else None
        out += self.slice_(s, vs[0], lo, hi, step, e)
      return out
    for s, vs in self.evs([e.value, e.slice], st, env):
      if s.exc:
        out.append((s, None))
      else:
        out += self.index(s, vs[0], vs[1], e)
    return out

  def norm_slice(self, ln, v, default):
    if v is None or isinstance(v, VNone):
      return default
    i = v.e
    i2 = z3.If(i < 0, i + ln, i)
    return zmin(zmax(i2, z3.IntVal(0)), ln)

  def slice_(self, st, v, lo, hi, step, node):
    if isinstance(lo, VPy) or isinstance(hi, VPy):
      raise Unsupported('slice bounds')
    if step is not None and not isinstance(step, VNone):
      sv = z3.simplify(step.e)
      if z3.is_int_value(sv) and sv.as_long() == -1 and lo is None \
          and hi is None:
        return [(st, self.reverse(st, v))]
      if not (z3.is_int_value(sv) and sv.as_long() == 1):
        raise Unsupported('slice step')
    if isinstance(v, VTup):
      def c(x, d):
        if x is None or isinstance(x, VNone):
          return d
        y = z3.simplify(x.e)
        if not z3.is_int_value(y):
          raise Unsupported('symbolic slice of tuple')
        return y.as_long()
      return [(st, VTup(v.items[c(lo, None):c(hi, None)]))]
    if isinstance(v, V) and v.t == STR:
      ln = z3.Length(v.e)
      a = self.norm_slice(ln, lo, z3.IntVal(0))
      b = self.norm_slice(ln, hi, ln)
      return [(st, self.str_cut(st, v, a, b))]
    if isinstance(v, VList):
      c = st.lists[v.ref]
      # concrete fast paths
      def const(x):
        if x is None or isinstance(x, VNone):
          return None
        y = z3.simplify(x.e)
        return y.as_long() if z3.is_int_value(y) else 'sym'
      cl, ch = const(lo), const(hi)
      if cl in (None, 0) and ch is None:
        return [(st, self.new_list(st, c))]
      if cl in (None, 0) and isinstance(ch, int) and ch < 0 and all(
          isinstance(s, Unit) for s in c.segs[ch:]) and len(
              c.segs) >= -ch:
        return [(st, self.new_list(st, Contents(c.et, c.segs[:ch])))]
      if isinstance(cl, int) and cl > 0 and ch is None and len(
          c.segs) >= cl and all(isinstance(s, Unit) for s in c.segs[:cl]):
        return [(st, self.new_list(st, Contents(c.et, c.segs[cl:])))]
      if c.et is None:
        return [(st, self.new_list(st, c))]
      ln = c.length()
      a = self.norm_slice(ln, lo, z3.IntVal(0))
      b = self.norm_slice(ln, hi, ln)
      p, m, q = self.cut(st, c, a, b)
      return [(st, self.new_list(st, m))]
    raise Unsupported(f'slice of {v}')

  def str_cut(self, st, v, a, b):
    """v[a:b] with 0<=a,b<=len (normalised)."""
    p, m, q = (fresh(STR, 'sp'), fresh(STR, 'sm'), fresh(STR, 'sq'))
    st.assume(
        z3.Implies(a <= b, z3.And(
            v.e == z3.Concat(p, m, q), z3.Length(p) == a,
            z3.Length(m) == b - a)),
        z3.Implies(a > b, z3.Length(m) == 0))
    return V(STR, m)

  def cut(self, st, c, a, b):
    """Split contents into [0,a) [a,b) [b,len), for normalised bounds."""
    t = LIST(c.et)
    p, m, q = (fresh(t, 'sp'), fresh(t, 'sm'), fresh(t, 'sq'))
    for s in (p, m, q):
      st.assume(*self.seg_facts(s, c.et))
    parts = Contents(c.et, [Seg(p), Seg(m), Seg(q)])
    ok = a <= b
    st.assume(z3.Implies(ok, z3.And(*self.hom_eq_contents(c, parts),
                                    z3.Length(p) == a,
                                    z3.Length(m) == b - a)),
              z3.Implies(z3.Not(ok), z3.Length(m) == 0))
    st.ghost['cuts'] = st.ghost.get('cuts', ()) + (
        (c, Contents(c.et, [Seg(p)]), Contents(c.et, [Seg(m)])),)
    return (Contents(c.et, [Seg(p)]), Contents(c.et, [Seg(m)]),
            Contents(c.et, [Seg(q)]))

  def split_index(self, st, c, i, end=None):
    """c == a ++ [x] ++ b with len(a) == i; returns (a, x, b).

    end: 'first' or 'last' when x is known to be that element.
    """
    n = 0
    ie = z3.simplify(i)
    if z3.is_int_value(ie):
      k = ie.as_long()
      if k >= 0 and k < len(c.segs) and all(
          isinstance(s, Unit) for s in c.segs[:k + 1]):
        return (Contents(c.et, c.segs[:k]), c.segs[k].x,
                Contents(c.et, c.segs[k + 1:]))
    for c0, k, a, x, b in st.ghost.get('at', ()):
      if c0.same(c) and z3.is_int_value(d := z3.simplify(
          i - k)) and d.as_long() == 0:
        return a, x, b
    t = LIST(c.et)
    a, b, x = fresh(t, 'ia'), fresh(t, 'ib'), fresh(c.et, 'ix')
    st.assume(*self.seg_facts(a, c.et), *self.seg_facts(b, c.et))
    segs = [Seg(a), Unit(x), Seg(b)]
    if end:
      segs = segs[1:] if end == 'first' else segs[:2]
      st.assume(z3.Length(a if end == 'first' else b) == 0)
    parts = Contents(c.et, segs)
    st.assume(*self.hom_eq_contents(c, parts), z3.Length(a) == i)
    st.assume(*self.local_laws(st, c.et, c, parts), *[
        f for p in (a, b) if any(isinstance(s, Seg) and s.s is p for s in segs)
        for f in self.local_laws(st, c.et, Contents(c.et, [Seg(p)]))])
    st.ghost['splits'] = st.ghost.get('splits', ()) + ((c, a, x, b),)
    return (Contents(c.et, [Seg(a)]), x, Contents(c.et, [Seg(b)]))

  def index(self, st, v, i, node):
    if isinstance(v, VPy):
      if isinstance(v.o, type) or v.o is Ellipsis or not isinstance(
          v.o, (tuple, list, dict)):
        if isinstance(v.o, type) and issubclass(v.o, enum.Enum) and isinstance(
            i, V) and i.t == STR:
          return self.enum_by_name(st, v.o, i, node)
        raise Unsupported(f'subscript of {v}')
      if isinstance(v.o, dict):
        ie = z3.simplify(i.e)
        out = []
        hit = []
        for k, val in v.o.items():
          f = self.equal(st, i, self.lift(k))
          hit.append(f)
          s = st.with_(f)
          if self.feasible(s):
            out.append((s, self.lift(val)))
        s = st.with_(z3.Not(z3.Or(*hit)) if hit else z3.BoolVal(True))
        if self.feasible(s):
          out.append((self.throw(s, 'KeyError', node), None))
        return out
      v = VTup([self.lift(x) for x in v.o])
    if isinstance(v, VTup):
      k = z3.simplify(i.e)
      if z3.is_int_value(k):
        k = k.as_long()
        if -len(v.items) <= k < len(v.items):
          return [(st, v.items[k])]
        return [(self.throw(st, 'IndexError', node), None)]
      v = self.new_list(st, self.contents(st, v), frozen=True)
    if isinstance(v, V) and v.t == STR:
      ln = z3.Length(v.e)
      idx = z3.If(i.e < 0, i.e + ln, i.e)
      out = []
      for s in self.guard(st, z3.And(idx >= 0, idx < ln), 'IndexError', node):
        if s.exc:
          out.append((s, None))
          continue
        p, x, q = fresh(STR, 'sp'), fresh(STR, 'sx'), fresh(STR, 'sq')
        s.assume(v.e == z3.Concat(p, x, q), z3.Length(p) == idx,
                 z3.Length(x) == 1)
        out.append((s, V(STR, x)))
      return out
    if isinstance(v, VList):
      c = st.lists[v.ref]
      if c.et is None:
        return [(self.throw(st, 'IndexError', node), None)]
      k = z3.simplify(i.e)
      if z3.is_int_value(k) and c.segs:
        k = k.as_long()
        if k < 0 and -k <= len(c.segs) and all(
            isinstance(s, Unit) for s in c.segs[k:]):
          return self.elem(st, v, c, c.segs[k].x, k)
        if 0 <= k < len(c.segs) and all(
            isinstance(s, Unit) for s in c.segs[:k + 1]):
          return self.elem(st, v, c, c.segs[k].x, k)
      ln = c.length()
      idx = z3.simplify(z3.If(i.e < 0, i.e + ln, i.e))
      out = []
      for s in self.guard(st, z3.And(idx >= 0, idx < ln), 'IndexError', node):
        if s.exc:
          out.append((s, None))
          continue
        a, x, b = self.split_index(s, c, idx)
        s.lists[v.ref] = Contents(c.et, a.segs + (Unit(x),) + b.segs)
        out += self.elem(s, v, c, x, ('split', a, b))
      return out
    if isinstance(v, VDict):
      d = st.dicts[v.ref]
      if d['dom'] is None:
        return [(self.throw(st, 'KeyError', node), None)]
      k = self.box(st, i, d['kt'])
      out = []
      for s in self.guard(st, z3.Select(d['dom'], k), 'KeyError', node):
        if s.exc:
          out.append((s, None))
        else:
          out += self.unbox(s, z3.Select(d['val'], k), d['vt'])
      return out
    raise Unsupported(f'index of {v}')

  def enum_by_name(self, st, cls, i, node):
    f = z3.Function('code_' + cls.__name__, z3.StringSort(), z3.IntSort())
    names = [m.name for m in cls]
    out = []
    for s in self.guard(st, z3.Or(*[i.e == z3.StringVal(n) for n in names]),
                        'KeyError', node):
      if s.exc:
        out.append((s, None))
      else:
        for m in cls:
          s.assume(f(z3.StringVal(m.name)) == self.enum_code(m))
        e = f(i.e)
        s.assume(*self.type_facts(V(ENUM(cls), e)))
        out.append((s, V(ENUM(cls), e)))
    return out

  def elem(self, st, v, c, x, where):
    out = []
    for s, u in self.unbox(st, x, c.et):
      if isinstance(u, VList):
        u = VList(u.ref, True, ('elem', v, where))
        if isinstance(v, VList):
          s.ghost[('place', u.ref)] = s.lists[v.ref]
      out.append((s, u))
    return out

  def reverse(self, st, v):
    c = self.contents(st, v)
    segs = []
    for s in reversed(c.segs):
      if isinstance(s, Unit):
        segs.append(s)
      else:
        r = self.rev_term(st, s.s, c.et)
        segs.append(Seg(r))
    return self.new_list(st, Contents(c.et, segs))

  def rev_term(self, st, s, et):
    so = s.sort()
    f = z3.Function('rev_' + str(so).replace(' ', ''), so, so)
    r = f(s)
    st.assume(z3.Length(r) == z3.Length(s), f(r) == s,
              *self.seg_facts(r, et))
    for h in self.homs:
      if h.et == et and h.reversible:
        st.assume(h.seq(r) == h.seq(s))
      if h.et == et and h.is_reverse:
        st.assume(r == h.seq(s))
    return r

  # ------------------------------------------------------- comprehensions
  def ev_ListComp(self, e, st, env):
    return self.comp(e, st, env)

  def ev_GeneratorExp(self, e, st, env):
    return self.comp(e, st, env)

  def ev_SetComp(self, e, st, env):
    raise Unsupported('set comprehension')

  def comp(self, e, st, env):
    """[elt for ...] as a loop appending to a fresh list."""
    sub = Env(env.module, env)
    sub.fname = env.fname
    res = self.new_list(st, Contents(None, []))
    st.cells[sub.declare('$res')] = res
    node = ast.Expr(ast.Call(
        ast.Attribute(ast.Name('$res', ast.Load()), 'append', ast.Load()),
        [e.elt], []))
    for g in reversed(e.generators):
      body = [node]
      for c in reversed(g.ifs):
        body = [ast.If(c, body, [])]
      node = ast.For(g.target, g.iter, body, [])
      for n in ast.walk(g.target):
        if isinstance(n, ast.Name):
          sub.locals.add(n.id)
          sub.declare(n.id)
    ast.fix_missing_locations(node)
    out = []
    for s, kind, v in self.exec_stmt(node, st, sub):
      if s.exc:
        out.append((s, None))
      else:
        out.append((s, res))
    return out

  # ------------------------------------------------------- calls
  def ev_Call(self, e, st, env):
    out = []
    for s, f in self.ev(e.func, st, env):
      if s.exc:
        out.append((s, None))
        continue
      kwexprs = [k.value for k in e.keywords]
      if any(k.arg is None for k in e.keywords):
        raise Unsupported('**kwargs')
      for s2, vs in self.evs(list(e.args) + kwexprs, s, env):
        if s2.exc:
          out.append((s2, None))
          continue
        n = len(vs) - len(kwexprs)
        args = vs[:n]
        kw = {k.arg: v for k, v in zip(e.keywords, vs[n:])}
        out += self.call_fn(s2, f, args, kw, e, env)
    return out

  def call_fn(self, st, f, args, kw, node, env=None):
    self.tick()
    if isinstance(f, VPartial):
      k = dict(f.kwargs)
      k.update(kw)
      return self.call_fn(st, f.fn, f.args + args, k, node, env)
    if isinstance(f, VFun):
      es = [self.box(st, a, t) for a, t in zip(args, f.arg_ts)]
      return self.unbox(st, f.fn(*es), f.res_t)
    if isinstance(f, VBound):
      return self.call_method(st, f.recv, f.name, args, kw, node, env)
    if isinstance(f, VClosure):
      return self.call_closure(st, f, args, kw, node)
    if isinstance(f, VPy):
      o = f.o
      h = None
      try:
        h = self.handlers.get(o)
      except TypeError:
        pass
      if h is not None:
        return h(self, st, args, kw, node)
      b = BUILTINS.get(o) if callable(o) and self.hashable(o) else None
      if b is not None:
        return b(self, st, args, kw, node)
      if isinstance(o, type):
        return self.construct(st, o, args, kw, node)
      if isinstance(o, (pytypes.FunctionType, pytypes.MethodType)):
        return self.call_repo(st, o, args, kw, node)
    raise Unsupported(f'call of {f}')

  @staticmethod
  def hashable(o):
    try:
      hash(o)
      return True
    except TypeError:
      return False

  def bind(self, st, fnode, args, kw, defaults, node):
    a = fnode.args
    if a.vararg or a.kwarg:
      raise Unsupported('*args')
    names = [x.arg for x in a.posonlyargs + a.args]
    if len(args) > len(names):
      raise Unsupported('too many arguments')
    b = dict(zip(names, args))
    for k, v in kw.items():
      if k in b:
        raise Unsupported('duplicate argument')
      b[k] = v
    for n in names + [x.arg for x in a.kwonlyargs]:
      if n not in b:
        if n not in defaults:
          raise Unsupported(f'missing argument {n}')
        b[n] = defaults[n]
    return b

  def fn_defaults(self, o):
    o = getattr(o, '__func__', o)
    sig = inspect.signature(o)
    return {n: self.lift(p.default) for n, p in sig.parameters.items()
            if p.default is not inspect.Parameter.empty}

  def call_repo(self, st, o, args, kw, node):
    if isinstance(o, pytypes.MethodType):
      args = [VPy(o.__self__)] + list(args)
      o = o.__func__
    mod = inspect.getmodule(o)
    if mod is None or not getattr(mod, '__file__', '').startswith(boot.REPO):
      raise Unsupported(f'external function {o}')
    c = self.contracts.get(self._key(o))
    if o.__name__ == '<lambda>':
      raise Unsupported('module-level lambda')
    fnode = find_function(mod, o.__qualname__)
    b = self.bind(st, fnode, args, kw, self.fn_defaults(o), node)
    if c is not None:
      return self.apply_contract(st, c, b, node)
    env = Env(mod)
    env.key = self._key(o)
    return self.inline(st, fnode, env, b, o.__qualname__, node)

  def call_closure(self, st, f, args, kw, node):
    c = self.nested_contracts.get((f.owner, f.name)) if f.owner else None
    if isinstance(f.node, ast.Lambda):
      b = self.bind(st, f.node, args, kw, {}, node)
      env = Env(f.module, f.env)
      for k, v in b.items():
        st.cells[env.declare(k)] = v
      return self.ev(f.node.body, st, env)
    defaults = {}
    a = f.node.args
    for p, d in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
      (s2, v), = self.ev(d, st, f.env)
      defaults[p.arg] = v
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
      if d is not None:
        (s2, v), = self.ev(d, st, f.env)
        defaults[p.arg] = v
    b = self.bind(st, f.node, args, kw, defaults, node)
    if c is not None:
      return self.apply_contract(st, c, b, node, closure=f)
    return self.inline(st, f.node, Env(f.module, f.env), b, f.name, node)

  def inline(self, st, fnode, env, binding, name, node):
    if self.depth > 12:
      raise Unsupported(f'inlining too deep at {name} (recursive, no contract)')
    self.inlined.add(name)
    self.depth += 1
    try:
      env.locals, env.nonlocals = local_names(fnode)
      env.fname = name
      for k, v in binding.items():
        env.locals.add(k)
        st.cells[env.declare(k)] = v
      gen = is_generator(fnode)
      if gen:
        out_list = self.new_list(st, Contents(None, []))
        env.yield_ref = out_list
      out = []
      for s, kind, v in self.exec_block(fnode.body, st, env):
        if s.exc:
          out.append((s, None))
        elif gen:
          out.append((s, out_list))
        elif kind == RETURN:
          out.append((s, v))
        else:
          out.append((s, NONEV))
      return out
    finally:
      self.depth -= 1

  def match_case(self, st, c, b):
    """First parameter case of a contract compatible with the arguments."""
    err = None
    for case in c.cases():
      try:
        args = {}
        for n, t in case.items():
          if n in c.mutates and isinstance(b[n], VList):
            args[n] = self.in_place(st, b[n], t)
          else:
            args[n] = self.coerce(st, b[n], t)
        return case, args
      except Unsupported as ex:
        err = ex
    raise Unsupported(f'arguments do not fit contract {c.name}: {err}')

  def in_place(self, st, v, t):
    """A list argument that the callee changes."""
    if v.frozen or v.ref in st.ghost.get('escaped', frozenset()):
      raise Unsupported('callee changes a list that may be shared')
    c = st.lists[v.ref]
    if c.et is None:
      st.lists[v.ref] = Contents(t[1], [])
    elif c.et != t[1]:
      raise Unsupported('element type of a list the callee changes')
    return v

  def coerce(self, st, v, t):
    if t[0] == 'py':
      return v
    if t[0] == 'oneof':
      for ti in t[1:]:
        try:
          return self.coerce(st, v, ti)
        except Unsupported as ex:
          err = ex
      raise err
    if t[0] == 'fun':
      if isinstance(v, VFun):
        return v
      raise Unsupported('function argument')
    if t[0] == 'ufun':
      return v
    if t[0] in ('dict', 'set'):
      if isinstance(v, VDict):
        return v
      raise Unsupported('dict argument')
    if t[0] == 'inst':
      if isinstance(v, VInst):
        return v
      raise Unsupported('instance argument')
    if t[0] == 'opt':
      if isinstance(v, VNone):
        return v
      return self.coerce(st, v, t[1])
    if t[0] == 'none':
      if isinstance(v, VNone):
        return v
      raise Unsupported('expected None')
    if t[0] in ('list', 'seq'):
      if isinstance(v, VList) and st.lists[v.ref].et == t[1]:
        return v
      if isinstance(v, V):
        raise Unsupported('scalar for list')
      e = self.box(st, v, t)
      c = st.lists[v.ref] if isinstance(v, VList) else None
      if c is not None and c.et is None:
        if t[0] == 'list' and not v.frozen:    # empty: of any element type
          st.lists[v.ref] = Contents(t[1], [])
          return v
        return self.new_list(st, Contents(t[1], []), frozen=True)
      if isinstance(v, (VTup, VPy)) or c is not None:
        cc = self.contents(st, v)
        if cc.et == t[1]:
          return self.new_list(st, cc, frozen=True)
      st.assume(*self.seg_facts(e, t[1]))
      return self.new_list(st, Contents(t[1], [Seg(e)]), frozen=True)
    if t[0] == 'nt':
      if not (isinstance(v, VTup) and v.cls is t[1]):
        raise Unsupported('named tuple argument')
      r = self.coerce(st, v, TUP(*t[2:]))
      r.cls = t[1]
      return r
    if t[0] == 'tup':
      if isinstance(v, VPy):
        v = self.lift(v.o)
      if isinstance(v, VTup) and len(v.items) == len(t) - 1:
        return VTup([self.coerce(st, i, ti)
                     for i, ti in zip(v.items, t[1:])])
      raise Unsupported('tuple argument')
    if isinstance(v, VPy):
      v = self.lift(v.o)
    if isinstance(v, VList) and t == ANY:
      raise Unsupported('list for opaque value')
    if isinstance(v, V) and v.t[0] == 'obj' and v.t != t:
      raise Unsupported('object type')
    return V(t, self.box(st, v, t))

  def apply_contract(self, st, c, b, node, closure=None):
    case, args = self.match_case(st, c, b)
    label = c.name
    cids = {}
    if closure is not None:
      cids = {n: closure.env.cell_for(n) for n in c.cells or ()}
      if None in cids.values():
        raise Unsupported(f'captured variables of {c.name}')
    ctx = Ctx(self, st, args, cells=cids)
    ctx.outer = {} if closure is None else {
        n: self.lookup(n, st, closure.env) for n in c.outer}
    if c.requires:
      for l, f in c.requires(ctx):
        self.oblige(st, f'call {label}: requires {l}', f)
        st.assume(f)
    if c.decreases is not None and self.cur_measure is not None and (
        self.cur_contract is c or
        c.group is not None and c.group == self.cur_contract.group):
      m = c.decreases(ctx)
      m0 = self.cur_measure
      self.oblige(st, f'call {label}: decreases', z3.And(m >= 0, m < m0))
    pre = st
    st = st.fork()
    outs = []
    if c.raises:
      for exc, cond in c.raises(ctx).items():
        if cond is MAY:
          bad = st.fork()
          bad.exc = (exc, f'call {label}')
          outs.append((bad, None))
          continue
        bad = st.with_(cond)
        if self.feasible(bad):
          bad.exc = (exc, f'call {label}')
          outs.append((bad, None))
        st = st.with_(z3.Not(cond))
    states = [st]
    # havoc the captured cells the contract may modify
    for cname, cid in cids.items():
      nxt = []
      for s in states:
        for s2, v in self.fresh_value(s.fork(), c.cells[cname], cname):
          s2.cells[cid] = v
          nxt.append(s2)
      states = nxt
    # ... and the arguments it may modify
    for n in c.mutates:
      todo = [(args[n], case[n])]
      if isinstance(args[n], VInst):
        todo = [(pre.insts[args[n].ref][f], t) for f, t in case[n][2]]
      if isinstance(args[n], VTup):
        ts = case[n][2:] if case[n][0] == 'nt' else case[n][1:]
        todo = [(v, t) for v, t in zip(args[n].items, ts)
                if isinstance(v, (VList, VDict))]
      for v, t in todo:
        if isinstance(v, VDict):
          for s in states:
            self.havoc_dict(s, v.ref, t[1], t[2])
          continue
        if not isinstance(v, VList) or v.frozen:
          raise Unsupported(f'argument {n} is changed by the callee')
        for s in states:
          e = fresh(t, n)
          s.assume(*self.seg_facts(e, t[1]))
          s.lists[v.ref] = Contents(t[1], [Seg(e)])
          s.assume(*self.local_laws(s, t[1], s.lists[v.ref]))
    if getattr(c, 'effects', None):
      for s in states:
        c.effects(self, s, args)
    for s0 in states:
      for s, v in self.fresh_value(s0.fork(), c.res, 'r'):
        cx = Ctx(self, s, args, v, old=pre, cells=cids)
        cx.outer = ctx.outer
        for l, f in c.ensures(cx):
          s.assume(f)
        if len(states) == 1 or self.feasible(s):
          outs.append((s, v))
    return outs

  # ------------------------------------------------------- construction
  def construct(self, st, cls, args, kw, node):
    if cls in CLASS_OF:
      d = CLASS_OF[cls]
      fs = d.members[cls]
      names = list(fs)
      sig = inspect.signature(cls)
      pnames = [p for p in sig.parameters]
      vals = dict(zip(pnames, args))
      vals.update(kw)
      for p, par in sig.parameters.items():
        if p not in vals:
          if par.default is inspect.Parameter.empty:
            return [(self.throw(st, 'TypeError', node), None)]
          vals[p] = self.default_value(st, par.default)
      if set(vals) != set(names):
        if set(vals) - set(pnames):
          return [(self.throw(st, 'TypeError', node), None)]
        raise Unsupported(f'fields of {cls.__name__}')
      for v in vals.values():
        self.escape(st, v)
      if d.kind == 'record':
        d.prepare()
        e = d.ctor(*[self.box(st, vals[f], fs[f]) for f in names])
        return [(st, V(OBJ(d.name), e))]
      if d.kind == 'union':
        x = fresh(OBJ(d.name), 'n')
        st.assume(d.tag(x) == d.tags[cls])
        for f in names:
          boxed = self.box(st, vals[f], fs[f])
          st.assume(d.acc(f)(x) == boxed)
          if fs[f][0] in ('list', 'seq'):
            c = self.contents(st, vals[f])
            cet = fs[f][1]
            for h in self.homs:
              if h.et == cet:
                cc = c if c.et is not None else Contents(cet, [])
                st.assume(h.seq(d.acc(f)(x)) == h.of(cc))
            st.assume(*self.seg_facts(d.acc(f)(x), cet))
        return [(st, V(OBJ(d.name), x))]
      return self.construct_ref(st, d, cls, vals, node)
    if issubclass(cls, BaseException):
      return [(st, VPy(cls))]
    if issubclass(cls, tuple) and hasattr(cls, '_fields'):
      sig = inspect.signature(cls)
      vals = dict(zip(cls._fields, args))
      vals.update(kw)
      for p, par in sig.parameters.items():
        if p not in vals:
          vals[p] = self.lift(par.default)
      return [(st, VTup([vals[f] for f in cls._fields], cls))]
    mod = inspect.getmodule(cls)
    if mod is not None and getattr(mod, '__file__', '').startswith(boot.REPO):
      ref = next(core._counter)
      st.insts[ref] = {}
      inst = VInst(cls, ref)
      if dataclasses.is_dataclass(cls) and '__init__' not in [
          n.name for n in find_class(mod, cls.__qualname__).body
          if isinstance(n, ast.FunctionDef)]:
        sig = inspect.signature(cls)
        vals = dict(zip(sig.parameters, args))
        vals.update(kw)
        for p, par in sig.parameters.items():
          if p not in vals:
            vals[p] = self.default_value(st, par.default)
        st.insts[ref] = vals
        return [(st, inst)]
      init = cls.__dict__.get('__init__')
      if init is None:
        raise Unsupported(f'constructor of {cls}')
      return [(s, None if s.exc else inst) for s, _ in
              self.call_repo(st, init, [inst] + list(args), kw, node)]
    raise Unsupported(f'constructor of {cls}')

  def default_value(self, st, d):
    if d is dataclasses._HAS_DEFAULT_FACTORY or repr(d) == '<factory>':
      return self.new_list(st, Contents(None, []))
    return self.lift(d)

  def construct_ref(self, st, d, cls, vals, node):
    raise Unsupported('mutable object construction')

  # ------------------------------------------------------- methods
  def call_method(self, st, r, name, args, kw, node, env):
    if isinstance(r, VPy):
      static = inspect.getattr_static(r.o, name, None)
      if isinstance(static, classmethod):
        return self.call_repo(st, static.__func__, [r] + args, kw, node)
      if isinstance(r.o, (str,)):
        return self.call_method(st, self.lift(r.o), name, args, kw, node, env)
      h = self.handlers.get((type(r.o).__name__, name))
      if h:
        return h(self, st, r, args, kw, node)
      if isinstance(r.o, type):
        o = getattr(r.o, name)
        return self.call_fn(st, VPy(o), args, kw, node, env)
      raise Unsupported(f'method {name} of {r}')
    if isinstance(r, VInst):
      h = self.handlers.get((r.cls.__name__, name))
      if h:
        return h(self, st, r, args, kw, node)
      static = inspect.getattr_static(r.cls, name)
      if isinstance(static, staticmethod):
        return self.call_repo(st, static.__func__, args, kw, node)
      if isinstance(static, classmethod):
        return self.call_repo(st, static.__func__, [VPy(r.cls)] + args, kw,
                              node)
      return self.call_repo(st, static, [r] + args, kw, node)
    if isinstance(r, VList):
      m = getattr(self, 'list_' + name, None)
      if m is None:
        raise Unsupported(f'list.{name}')
      return m(st, r, args, kw, node)
    if isinstance(r, V) and r.t == STR:
      m = getattr(self, 'str_' + name, None)
      if m is None:
        raise Unsupported(f'str.{name}')
      return m(st, r, args, kw, node)
    if isinstance(r, VDict):
      m = getattr(self, 'dict_' + name, None)
      if m is None:
        raise Unsupported(f'dict.{name}')
      return m(st, r, args, kw, node)
    if isinstance(r, VTup):
      if r.cls is not None and name == '_replace':
        items = list(r.items)
        for k, v in kw.items():
          items[r.cls._fields.index(k)] = v
        return [(st, VTup(items, r.cls))]
      if r.cls is not None and isinstance(
          inspect.getattr_static(r.cls, name, None), pytypes.FunctionType):
        return self.call_repo(st, inspect.getattr_static(r.cls, name),
                              [r] + args, kw, node)
      if name == 'index':
        return self.list_index(st, r, args, kw, node)
      raise Unsupported(f'tuple.{name}')
    if isinstance(r, V) and r.t[0] == 'obj':
      d = CLASSES[r.t[1]]
      h = self.handlers.get((d.name, name))
      if h:
        return h(self, st, r, args, kw, node)
      cands = [c for c in d.members if hasattr(c, name)]
      if len(d.members) == 1:
        return self.call_repo(st, inspect.getattr_static(cands[0], name),
                              [r] + args, kw, node)
      out = []
      rest = st
      for c in cands:
        s = rest.with_(d.tag(r.e) == d.tags[c])
        if self.feasible(s):
          out += self.call_repo(s, inspect.getattr_static(c, name), [r] + args,
                                kw, node)
      bad = st.with_(z3.And(*[d.tag(r.e) != d.tags[c] for c in cands]))
      if self.feasible(bad):
        out.append((self.throw(bad, 'AttributeError', node), None))
      return out
    raise Unsupported(f'method {name} of {r}')

  def escape(self, st, v):
    """v is stored (by value) in a container: it may not change any more."""
    if isinstance(v, VTup):
      for x in v.items:
        self.escape(st, x)
    elif isinstance(v, VList) and not v.frozen:
      st.ghost['escaped'] = st.ghost.get('escaped', frozenset()) | {v.ref}
    elif isinstance(v, VDict):
      raise Unsupported('dict stored in a container')

  def mutate(self, st, r, contents, node):
    """Replaces the contents of a list (frame condition checked)."""
    if r.ref in st.ghost.get('escaped', ()):
      raise Unsupported('list changed after it was stored in a container')
    if r.place is not None:
      kind = r.place[0]
      if kind == 'heap':
        _, obj, attr = r.place
        d = CLASSES[obj.t[1]]
        arr = st.heap[(d.name, attr)]
        st.heap[(d.name, attr)] = z3.Store(
            arr, obj.e, self.box(st, self.new_list(st, contents),
                                 d.fields[attr]))
        st.lists[r.ref] = contents
        return [st]
      if kind == 'elem':
        _, parent, where = r.place
        pc = st.lists[parent.ref]
        if not pc.same(st.ghost.get(('place', r.ref), pc)):
          raise Unsupported('list changed while an element is in use')
        x = self.box(st, self.new_list(st, contents), pc.et)
        # the innermost element type may only now become known
        if isinstance(where, int):
          segs = list(pc.segs)
          segs[where] = Unit(x)
          new = Contents(pc.et, segs)
        else:
          _, a, b = where
          new = Contents(pc.et, a.segs + (Unit(x),) + b.segs)
        st.lists[r.ref] = contents
        st.ghost[('place', r.ref)] = new
        return self.mutate(st, parent, new, node) if parent.frozen else (
            st.lists.__setitem__(parent.ref, new) or [st])
    if r.frozen:
      # mutation of an input list: violates the frame condition
      if not self.quiet:
        self.obls.append(Obl(self.cur, f'frame: input list not mutated by '
                             f'`{ast.unparse(node)[:60]}`', 'refuted'))
      st.lists[r.ref] = contents
      return [st]
    st.lists[r.ref] = contents
    return [st]

  def unit_for(self, st, c, v):
    self.escape(st, v)
    t = self.type_of(st, v)
    et = self.join_t(c.et, t) if c.et is not None else t
    if et != c.et and c.segs:
      # re-box existing units
      segs = []
      for s in c.segs:
        if not isinstance(s, Unit):
          raise Unsupported(f'heterogeneous list {c.et} vs {t}')
        r = self.unbox(st, s.x, c.et)
        if len(r) != 1:
          raise Unsupported('optional elements')
        segs.append(Unit(self.box(st, r[0][1], et)))
      c = Contents(et, segs)
    elif et != c.et:
      c = Contents(et, c.segs)
    return c, Unit(self.box(st, v, et))

  def list_append(self, st, r, args, kw, node):
    c, u = self.unit_for(st, st.lists[r.ref], args[0])
    return [(s, NONEV) for s in self.mutate(
        st, r, Contents(c.et, c.segs + (u,)), node)]

  def list_extend(self, st, r, args, kw, node):
    out = []
    for s, l in to_list(self, st, args[0], node):
      if s.exc:
        out.append((s, None))
        continue
      c = s.lists[r.ref].plus(self.contents(s, l))
      out += [(s2, NONEV) for s2 in self.mutate(s, r, c, node)]
    return out

  def list_pop(self, st, r, args, kw, node):
    c = st.lists[r.ref]
    if args:
      k = z3.simplify(args[0].e)
      if not z3.is_int_value(k) or k.as_long() not in (0, -1):
        raise Unsupported('pop(i)')
      first = k.as_long() == 0
    else:
      first = False
    if not c.segs:
      return [(self.throw(st, 'IndexError', node), None)]
    end = c.segs[0] if first else c.segs[-1]
    if isinstance(end, Unit):
      rest = c.segs[1:] if first else c.segs[:-1]
      out = []
      for s in self.mutate(st, r, Contents(c.et, rest), node):
        out += self.unbox(s, end.x, c.et)
      return out
    out = []
    for s in self.guard(st, c.length() > 0, 'IndexError', node):
      if s.exc:
        out.append((s, None))
        continue
      idx = z3.IntVal(0) if first else c.length() - 1
      a, x, b = self.split_index(s, c, idx, 'first' if first else 'last')
      keep = b if first else a
      for s2 in self.mutate(s, r, keep, node):
        out += self.unbox(s2, x, c.et)
    return out

  def list_index(self, st, r, args, kw, node):
    if isinstance(r, VTup):
      items = r.items
      out, cur = [], st
      for i, it in enumerate(items):
        f = self.equal(cur, it, args[0])
        s = cur.with_(f)
        if self.feasible(s):
          out.append((s, V(INT, z3.IntVal(i))))
        cur = cur.with_(z3.Not(f))
      if self.feasible(cur):
        out.append((self.throw(cur, 'ValueError', node), None))
      return out
    raise Unsupported('list.index')

  def list_copy(self, st, r, args, kw, node):
    return [(st, self.new_list(st, st.lists[r.ref]))]

  def list_insert(self, st, r, args, kw, node):
    k = z3.simplify(args[0].e)
    if z3.is_int_value(k) and k.as_long() == 0:
      c, u = self.unit_for(st, st.lists[r.ref], args[1])
      return [(s, NONEV) for s in self.mutate(
          st, r, Contents(c.et, (u,) + c.segs), node)]
    raise Unsupported('list.insert')

  def list_reverse(self, st, r, args, kw, node):
    nv = self.reverse(st, r)
    return [(s, NONEV) for s in self.mutate(st, r, st.lists[nv.ref], node)]

  def list_clear(self, st, r, args, kw, node):
    return [(s, NONEV) for s in self.mutate(
        st, r, Contents(st.lists[r.ref].et, []), node)]

  # strings
  def str_join(self, st, r, args, kw, node):
    out = []
    for s, l in to_list(self, st, args[0], node):
      if s.exc:
        out.append((s, None))
        continue
      c = self.contents(s, l)
      if c.et is None:
        out.append((s, V(STR, z3.StringVal(''))))
        continue
      if c.et != STR:
        raise Unsupported('join of non-strings')
      sep = z3.simplify(r.e)
      if z3.is_string_value(sep) and sep.as_string() == '':
        if 'join' not in [h.name for h in self.homs]:
          raise Unsupported('join not in vocabulary')
        out.append((s, V(STR, Hom.ALL['join'].of(c))))
      else:
        f = z3.Function('joinsep', z3.StringSort(), c.term().sort(),
                        z3.StringSort())
        out.append((s, V(STR, f(r.e, c.term()))))
    return out

  def _strpred(self, name, pyfn):
    def m(st, r, args, kw, node):
      e = z3.simplify(r.e)
      f = z3.Function('str_' + name, z3.StringSort(), z3.BoolSort())
      if z3.is_string_value(e):
        return [(st, V(BOOL, z3.BoolVal(pyfn(e.as_string()))))]
      st.assume(z3.Implies(z3.Length(r.e) == 0, z3.Not(f(r.e))))
      if name in CHAR_CLASSES:
        # holds for every code point (checked by tools/setup.py)
        others = [z3.Function('str_' + n, z3.StringSort(), z3.BoolSort())(
            r.e) for n in CHAR_CLASSES if n != name]
        st.assume(z3.Implies(z3.And(z3.Length(r.e) == 1, f(r.e)),
                             z3.Not(z3.Or(*others))))
      return [(st, V(BOOL, f(r.e)))]
    return m

  def __getattr__(self, n):
    if n in ('str_isspace', 'str_isupper', 'str_islower', 'str_isdigit',
             'str_isalpha', 'str_isalnum'):
      p = n[4:]
      return self._strpred(p, lambda x: getattr(x, p)())
    raise AttributeError(n)

  def str_format(self, st, r, args, kw, node):
    return [(st, V(STR, fresh(STR, 'fmt')))]

  def str_replace(self, st, r, args, kw, node):
    """All occurrences replaced: an uninterpreted function of the texts."""
    if len(args) != 2 or kw:
      raise Unsupported('str.replace count')
    self.notes.add('str.replace is an uninterpreted function of its texts')
    return [(st, V(STR, REPLACE_ALL(r.e, args[0].e, args[1].e)))]

  def str_endswith(self, st, r, args, kw, node):
    return [(st, V(BOOL, z3.SuffixOf(args[0].e, r.e)))]

  def str_startswith(self, st, r, args, kw, node):
    return [(st, V(BOOL, z3.PrefixOf(args[0].e, r.e)))]

  def str_find(self, st, r, args, kw, node):
    if len(args) == 1:
      return [(st, V(INT, z3.IndexOf(r.e, args[0].e, 0)))]
    if len(args) == 2:
      s = args[1].e
      ln = z3.Length(r.e)
      s = z3.If(s < 0, zmax(s + ln, z3.IntVal(0)), s)
      return [(st, V(INT, z3.IndexOf(r.e, args[0].e, s)))]
    raise Unsupported('find')

  def str_index(self, st, r, args, kw, node):
    out = []
    for s, v in self.str_find(st, r, args, kw, node):
      for s2 in self.guard(s, v.e >= 0, 'ValueError', node):
        out.append((s2, None if s2.exc else v))
    return out

  # dicts
  def dict_types(self, st, d, k, v):
    D = dict(st.dicts[d.ref])
    if D['kt'] is None:
      D['kt'], D['vt'] = self.type_of(st, k), self.type_of(st, v)
      ks, vs = sort_of(D['kt']), sort_of(D['vt'])
      D['dom'] = z3.K(ks, z3.BoolVal(False))
      D['val'] = z3.Const(fresh_name('map'), z3.ArraySort(ks, vs))
      st.dicts[d.ref] = D
    return D

  def dict_set(self, st, d, k, v):
    self.escape(st, v)
    D = dict(self.dict_types(st, d, k, v))
    D.pop('items', None)
    kt = self.box(st, k, D['kt'])
    vt = self.box(st, v, D['vt'])
    D['size'] = z3.If(z3.Select(D['dom'], kt), D['size'], D['size'] + 1)
    D['dom'] = z3.Store(D['dom'], kt, z3.BoolVal(True))
    D['val'] = z3.Store(D['val'], kt, vt)
    st.dicts[d.ref] = D

  def dict_get(self, st, r, args, kw, node):
    d = st.dicts[r.ref]
    dflt = args[1] if len(args) > 1 else NONEV
    if d['dom'] is None:
      return [(st, dflt)]
    k = self.box(st, args[0], d['kt'])
    out = []
    a = st.with_(z3.Select(d['dom'], k))
    if self.feasible(a):
      out += self.unbox(a, z3.Select(d['val'], k), d['vt'])
    b = st.with_(z3.Not(z3.Select(d['dom'], k)))
    if self.feasible(b):
      out.append((b, dflt))
    return out

  def havoc_dict(self, s, ref, kt, vt):
    d = dict(s.dicts[ref])
    d.pop('items', None)
    d['kt'], d['vt'] = kt, vt
    d['dom'] = z3.Const(fresh_name('dom'),
                        z3.ArraySort(sort_of(kt), z3.BoolSort()))
    d['val'] = z3.Const(fresh_name('map'),
                        z3.ArraySort(sort_of(kt), sort_of(vt)))
    d['size'] = z3.Int(fresh_name('sz'))
    s.assume(d['size'] >= 0)
    s.dicts[ref] = d

  def dict_items(self, st, r, args, kw, node):
    D = st.dicts[r.ref]
    if 'items' not in D:
      raise Unsupported('items of a dict that was changed')
    et = TUP(D['kt'], D['vt'])
    st.assume(*self.seg_facts(D['items'], et))
    return [(st, self.new_list(st, Contents(et, [Seg(D['items'])]), True,
                               ('items', r)))]

  def dict_add(self, st, r, args, kw, node):
    self.dict_set(st, r, args[0], V(BOOL, z3.BoolVal(True)))
    return [(st, NONEV)]

  # ------------------------------------------------------- statements
  def exec_block(self, stmts, st, env):
    states = [(st, NORMAL, None)]
    for s in stmts:
      nxt = []
      for x, kind, v in states:
        if kind != NORMAL or x.exc:
          nxt.append((x, kind, v))
        else:
          nxt += self.exec_stmt(s, x, env)
      states = nxt
      if len(states) > self.MAX_PATHS:
        raise Unsupported('too many paths')
    return states

  def exec_stmt(self, s, st, env):
    m = getattr(self, 'st_' + type(s).__name__, None)
    if m is None:
      raise Unsupported(f'statement {type(s).__name__}')
    return m(s, st, env)

  def st_Pass(self, s, st, env):
    return [(st, NORMAL, None)]

  st_Nonlocal = st_Pass

  def st_Delete(self, s, st, env):
    for t in s.targets:
      if not isinstance(t, (ast.Name, ast.Tuple)):
        raise Unsupported('del')
    return [(st, NORMAL, None)]

  def st_Expr(self, s, st, env):
    if isinstance(s.value, ast.Constant):
      return [(st, NORMAL, None)]
    return [(x, NORMAL, None) for x, _ in self.ev(s.value, st, env)]

  def ev_Yield(self, e, st, env):
    out = []
    vals = self.ev(e.value, st, env) if e.value else [(st, NONEV)]
    for s, v in vals:
      if s.exc:
        out.append((s, None))
        continue
      x = env
      while x.yield_ref is None:
        x = x.parent
      self.list_append(s, x.yield_ref, [v], {}, e)
      out.append((s, NONEV))
    return out

  def ev_YieldFrom(self, e, st, env):
    out = []
    for s, v in self.ev(e.value, st, env):
      if s.exc:
        out.append((s, None))
        continue
      x = env
      while x.yield_ref is None:
        x = x.parent
      out += self.list_extend(s, x.yield_ref, [v], {}, e)
    return out

  def st_FunctionDef(self, s, st, env):
    x, owner = env, None
    while x is not None and owner is None:
      x, owner = x.parent, x.key
    f = VClosure(s, env, env.module, s.name, owner=owner or self.cur_key)
    self.assign_name(s.name, f, st, env)
    return [(st, NORMAL, None)]

  def st_Return(self, s, st, env):
    if s.value is None:
      return [(st, RETURN, NONEV)]
    return [(x, RETURN, v) for x, v in self.ev(s.value, st, env)]

  def st_Break(self, s, st, env):
    return [(st, BREAK, None)]

  def st_Continue(self, s, st, env):
    return [(st, CONTINUE, None)]

  def st_Raise(self, s, st, env):
    name = 'Exception'
    x = s.exc
    if x is not None:
      f = x.func if isinstance(x, ast.Call) else x
      name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', name)
    t = self.throw(st, name, s)
    return [(t, NORMAL, None)]

  def st_Assert(self, s, st, env):
    out = []
    for x, c in self.branch(s.test, st, env):
      if x.exc or c:
        out.append((x, NORMAL, None))
      else:
        out.append((self.throw(x, 'AssertionError', s.test), NORMAL, None))
    if not self.quiet and all(not x.exc for x, _, _ in out):
      self.obls.append(Obl(
          self.cur, f'assert `{ast.unparse(s.test)[:60]}`', 'proved'))
    return out

  def st_If(self, s, st, env):
    out = []
    for x, c in self.branch(s.test, st, env):
      if x.exc:
        out.append((x, NORMAL, None))
      else:
        out += self.exec_block(s.body if c else s.orelse, x, env)
    return out

  def st_AnnAssign(self, s, st, env):
    if s.value is None:
      return [(st, NORMAL, None)]
    return self.do_assign([s.target], s.value, st, env)

  def st_Assign(self, s, st, env):
    return self.do_assign(s.targets, s.value, st, env)

  def do_assign(self, targets, value, st, env):
    out = []
    for x, v in self.ev(value, st, env):
      if x.exc:
        out.append((x, NORMAL, None))
        continue
      states = [x]
      for t in targets:
        states = [z for y in states for z in
                  ([y] if y.exc else self.assign(t, v, y, env))]
      out += [(y, NORMAL, None) for y in states]
    return out

  def assign_name(self, name, v, st, env):
    if isinstance(v, VPy):
      pass
    c = None
    e = env
    # comprehension scopes and nonlocals resolve outwards
    if name in env.locals or name in env.vars:
      c = env.declare(name)
    else:
      c = env.cell_for(name)
      if c is None:
        c = env.declare(name)
    st.cells[c] = v

  def assign(self, t, v, st, env):
    if isinstance(t, ast.Name):
      self.assign_name(t.id, v, st, env)
      return [st]
    if isinstance(t, (ast.Tuple, ast.List)):
      if any(isinstance(x, ast.Starred) for x in t.elts):
        raise Unsupported('starred assignment')
      if isinstance(v, VList) and st.lists[v.ref].concrete_len() is None:
        n = len(t.elts)
        c = st.lists[v.ref]
        outs = []
        for s in self.guard(st, c.length() == n, 'ValueError', t):
          if s.exc:
            outs.append(s)
            continue
          xs = [fresh(c.et, 'u') for _ in range(n)]
          parts = Contents(c.et, [Unit(x) for x in xs])
          s.assume(*self.hom_eq_contents(c, parts))
          s.lists[v.ref] = parts
          outs += self.assign(t, v, s, env)
        return outs
      items = self.explode(st, v)
      if len(items) != len(t.elts):
        return [self.throw(st, 'ValueError', t)]
      states = [st]
      for x, i in zip(t.elts, items):
        states = [z for y in states for z in
                  ([y] if y.exc else self.assign(x, i, y, env))]
      return states
    if isinstance(t, ast.Attribute):
      outs = []
      for s, o in self.ev(t.value, st, env):
        if s.exc:
          outs.append(s)
          continue
        outs += self.setattr_(s, o, t.attr, v, t)
      return outs
    if isinstance(t, ast.Subscript):
      return self.assign_sub(t, v, st, env)
    raise Unsupported('assignment target')

  def setattr_(self, st, o, attr, v, node):
    if isinstance(o, VInst):
      st.insts[o.ref] = dict(st.insts[o.ref])
      st.insts[o.ref][attr] = v
      return [st]
    if isinstance(o, V) and o.t[0] == 'obj' and CLASSES[
        o.t[1]].kind == 'ref':
      d = CLASSES[o.t[1]]
      st.heap[(d.name, attr)] = z3.Store(
          st.heap[(d.name, attr)], o.e, self.box(st, v, d.fields[attr]))
      return [st]
    if isinstance(o, V) and o.t[0] == 'obj':
      if not self.quiet:
        self.obls.append(Obl(self.cur, f'frame: input object not mutated by '
                             f'`{ast.unparse(node)[:60]} = ...`', 'refuted'))
      raise Unsupported('mutation of an immutable-modelled object')
    raise Unsupported(f'attribute assignment on {o}')

  def assign_sub(self, t, v, st, env):
    outs = []
    if isinstance(t.slice, ast.Slice):
      raise Unsupported('slice assignment')
    for s, vs in self.evs([t.value, t.slice], st, env):
      if s.exc:
        outs.append(s)
        continue
      o, i = vs
      self.escape(s, v)
      if isinstance(o, VDict):
        self.dict_set(s, o, i, v)
        outs.append(s)
      elif isinstance(o, VList):
        c = s.lists[o.ref]
        k = z3.simplify(i.e)
        if z3.is_int_value(k) and k.as_long() < 0 and -k.as_long() <= len(
            c.segs) and all(isinstance(x, Unit)
                            for x in c.segs[k.as_long():]):
          segs = list(c.segs)
          segs[k.as_long()] = Unit(self.box(s, v, c.et))
          outs += self.mutate(s, o, Contents(c.et, segs), t)
          continue
        ln = c.length()
        idx = z3.simplify(z3.If(i.e < 0, i.e + ln, i.e))
        for s2 in self.guard(s, z3.And(idx >= 0, idx < ln), 'IndexError', t):
          if s2.exc:
            outs.append(s2)
            continue
          a, x, b = self.split_index(s2, c, idx)
          outs += self.mutate(s2, o, Contents(
              c.et, a.segs + (Unit(self.box(s2, v, c.et)),) + b.segs), t)
      else:
        outs += self.special_setitem(s, o, i, v, t)
    return outs

  def special_setitem(self, st, o, i, v, node):
    raise Unsupported(f'item assignment on {o}')

  def st_AugAssign(self, s, st, env):
    load = {ast.Name: lambda t: ast.Name(t.id, ast.Load()),
            ast.Attribute: lambda t: ast.Attribute(t.value, t.attr,
                                                   ast.Load()),
            ast.Subscript: lambda t: ast.Subscript(t.value, t.slice,
                                                   ast.Load())}
    lhs = load[type(s.target)](s.target)
    ast.copy_location(lhs, s)
    out = []
    for x, vs in self.evs([lhs, s.value], st, env):
      if x.exc:
        out.append((x, NORMAL, None))
        continue
      if isinstance(vs[0], VList) and isinstance(s.op, ast.Add):
        out += [(y, NORMAL, None)
                for y, _ in self.list_extend(x, vs[0], [vs[1]], {}, s)]
        continue
      for y, r in self.binop(x, s.op, vs[0], vs[1],
                             ast.copy_location(ast.BinOp(lhs, s.op, s.value),
                                               s)):
        if y.exc:
          out.append((y, NORMAL, None))
        else:
          out += [(z, NORMAL, None) for z in self.assign(s.target, r, y, env)]
    return out

  def st_With(self, s, st, env):
    raise Unsupported('with statement')

  def st_Try(self, s, st, env):
    raise Unsupported('try statement')

  def st_Import(self, s, st, env):
    raise Unsupported('local import')

  # ------------------------------------------------------- loops
  def st_For(self, s, st, env):
    it = s.iter
    if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and \
        it.slice.lower is None and it.slice.upper is None and isinstance(
            it.slice.step, ast.UnaryOp) and ast.unparse(
                it.slice.step) == '-1':
      out = []
      for x, v in self.ev(it.value, st, env):
        if x.exc:
          out.append((x, NORMAL, None))
        elif isinstance(v, VList):
          out += self.for_over(s, x, VIter('reversed', [v]), env)
        else:
          for y, w in self.ev(it, x, env):
            out += [(y, NORMAL, None)] if y.exc else self.for_over(
                s, y, w, env)
      return out
    out = []
    for x, it in self.ev(s.iter, st, env):
      if x.exc:
        out.append((x, NORMAL, None))
        continue
      out += self.for_over(s, x, it, env)
    return out

  def for_over(self, s, st, it, env):
    items = None
    if isinstance(it, VTup):
      items = it.items
    elif isinstance(it, VPy) and isinstance(it.o, (tuple, list)):
      items = [self.lift(i) for i in it.o]
    elif isinstance(it, VPy) and isinstance(it.o, type) and issubclass(
        it.o, enum.Enum):
      items = [self.lift(m) for m in it.o]
    elif isinstance(it, VList):
      c = st.lists[it.ref]
      if c.concrete_len() is not None and c.concrete_len() <= 6:
        items = self.explode(st, it)
    elif isinstance(it, VIter):
      items = self.static_items(st, it)
    refs = iterated(it)
    if items is not None:
      states = [(st, NORMAL, None)]
      for i in items:
        nxt = []
        for x, kind, v in states:
          if not x.exc and kind in (NORMAL, CONTINUE) and any(
              isinstance(r, tuple) or not x.lists[r].same(st.lists[r])
              for r in refs):
            raise Unsupported('list changed while iterated over')
        for x, kind, v in states:
          if x.exc or kind not in (NORMAL, CONTINUE):
            nxt.append((x, kind, v))
            continue
          for y in self.assign(s.target, i, x, env):
            if y.exc:
              nxt.append((y, NORMAL, None))
            else:
              nxt += self.exec_block(s.body, y, env)
        states = nxt
      out = []
      for x, kind, v in states:
        if kind == BREAK:
          out.append((x, NORMAL, None))
        elif kind in (NORMAL, CONTINUE) and not x.exc and s.orelse:
          out += self.exec_block(s.orelse, x, env)
        elif kind == CONTINUE:
          out.append((x, NORMAL, None))
        else:
          out.append((x, kind, v))
      return out
    src = make_source(self, st, it)
    src.refs = refs
    return self.loop(s, st, env, src)

  def static_items(self, st, it):
    if it.kind == 'range':
      vals = [z3.simplify(a.e) for a in it.args]
      if all(z3.is_int_value(v) for v in vals):
        r = range(*[v.as_long() for v in vals])
        if len(r) <= 6:
          return [V(INT, z3.IntVal(i)) for i in r]
      return None
    def st_items(a):
      if isinstance(a, VTup):
        return a.items
      if isinstance(a, VPy) and isinstance(a.o, (tuple, list)):
        return [self.lift(i) for i in a.o]
      if isinstance(a, VList) and st.lists[a.ref].concrete_len() is not None:
        return self.explode(st, a)
      if isinstance(a, VIter):
        return self.static_items(st, a)
      return None
    if it.kind == 'enumerate':
      x = st_items(it.args[0])
      if x is None:
        return None
      s0 = it.args[1]
      return [VTup([V(INT, z3.simplify(s0.e + i)), y])
              for i, y in enumerate(x)]
    if it.kind == 'zip':
      xs = [st_items(a) for a in it.args]
      if any(x is None for x in xs):
        return None
      return [VTup(list(t)) for t in zip(*xs)]
    if it.kind == 'reversed':
      x = st_items(it.args[0])
      return None if x is None else list(reversed(x))
    return None

  def st_While(self, s, st, env):
    src = WhileSource(self, s.test, env, st)
    out = self.loop(s, st, env, src)
    if src.sub is None and not getattr(self.cur_contract, 'whiles', False):
      # a loop in a shape no invariant template was made for: an obligation
      # that fails behind it says nothing
      self.incomplete = True
    return out

  # --- the loop rule
  def snapshot(self, st):
    return (dict(st.cells), dict(st.lists), dict(st.dicts), dict(st.heap),
            {k: dict(v) for k, v in st.insts.items()})

  def diff(self, entry, head, end, mods):
    """Adds to mods everything that changed between head and end."""
    changed = False

    def note(key, t):
      nonlocal changed
      old = mods.get(key)
      new = self.join_t(old, t) if old is not None else t
      if new != old:
        mods[key] = new
        changed = True
    for cid, v in end.cells.items():
      if cid in head.cells:
        h = head.cells[cid]
        if h is v:
          continue
        if isinstance(v, VList) and isinstance(h, VList) and v.ref == h.ref:
          continue
        if isinstance(v, V) and isinstance(h, V) and v.t == h.t and v.e.eq(
            h.e):
          continue
        if isinstance(v, (VClosure, VPy, VBound)) and type(v) is type(h):
          if isinstance(v, VClosure) and v.node is h.node:
            continue
          if isinstance(v, VPy) and v.o is h.o:
            continue
        if isinstance(v, VNone) and isinstance(h, VNone):
          continue
        t = self.join_t(self.type_of(head, h), self.type_of(end, v))
        note(('cell', cid), t)
        if isinstance(v, VList) and not v.frozen and cid in entry.cells and \
            any(c2 != cid and c2 in entry.cells and isinstance(w, VList) and
                w.ref == v.ref and not w.frozen
                for c2, w in end.cells.items()):
          raise Unsupported('two variables share a list after a loop step')
    esc = end.ghost.get('escaped', frozenset())
    for cid, v in end.cells.items():
      if cid in entry.cells and isinstance(v, VList) and v.ref in esc and \
          ('esc', cid) not in mods:
        mods[('esc', cid)] = NONE
        changed = True
    for ref, c in end.lists.items():
      if ref in head.lists and ref in entry.lists and not head.lists[
          ref].same(c):
        # a re-segmentation of the same value is not a change
        if getattr(self, 'resegmented', None) and self.resegmented(
            end, head.lists[ref], c):
          continue
        et = c.et if head.lists[ref].et is None else self.join_t(
            head.lists[ref].et, c.et)
        note(('list', ref), LIST(et))
    for ref, d in end.dicts.items():
      if ref in head.dicts and ref in entry.dicts and head.dicts[
          ref] is not d:
        note(('dict', ref), ('dictstate', d['kt'], d['vt']))
    for k, a in end.heap.items():
      if k in head.heap and not head.heap[k].eq(a):
        note(('heap',) + k, ('heapstate',))
    for ref, fs in end.insts.items():
      if ref not in head.insts or ref not in entry.insts:
        continue
      for f, v in fs.items():
        h = head.insts[ref].get(f)
        if h is v or (isinstance(v, V) and isinstance(h, V) and
                      v.t == h.t and v.e.eq(h.e)) or (
                          isinstance(v, VList) and isinstance(h, VList) and
                          v.ref == h.ref) or (
                          isinstance(v, VDict) and isinstance(h, VDict) and
                          v.ref == h.ref):
          continue
        if h is None:
          raise Unsupported('attribute created in loop')
        note(('inst', ref, f), self.join_t(self.type_of(head, h),
                                           self.type_of(end, v)))
    return changed

  def resegmented(self, st, a, b):
    """True if contents b are literally a re-split of contents a."""
    if a.et != b.et:
      return False
    for c, x, y, z in st.ghost.get('splits', ()):
      if c.same(a) and len(b.segs) == 3 and isinstance(b.segs[0], Seg) and \
          b.segs[0].s.eq(x) and isinstance(b.segs[1], Unit) and \
          b.segs[1].x.eq(y) and isinstance(b.segs[2], Seg) and \
          b.segs[2].s.eq(z):
        return True
    n = len(a.segs)
    if len(b.segs) > n and Contents(a.et, b.segs[:n]).same(a):
      return False
    # a chain of re-splits: compare by solver, cheaply
    try:
      return valid(st.pc, a.term() == b.term(), 500) == 'proved'
    except (Unsupported, z3.Z3Exception):
      return False

  def havoc(self, st, mods):
    states = [st.fork()]
    late = []
    for key, t in mods.items():
      nxt = []
      for s in states:
        if key[0] == 'cell':
          for s2, v in self.fresh_value(s, t, 'h_' + key[1].split('!')[0]):
            s2.cells[key[1]] = v
            nxt.append(s2)
        elif key[0] == 'list':
          e = fresh(t, 'hl')
          s.assume(*self.seg_facts(e, t[1]))
          s.lists[key[1]] = Contents(t[1], [Seg(e)])
          late.append((t[1], s.lists[key[1]]))
          nxt.append(s)
        elif key[0] == 'dict':
          self.havoc_dict(s, key[1], t[1], t[2])
          nxt.append(s)
        elif key[0] == 'heap':
          k = key[1:]
          s.heap[k] = z3.Const(fresh_name('heap'), s.heap[k].sort())
          nxt.append(s)
        elif key[0] == 'inst':
          for s2, v in self.fresh_value(s, t, key[2]):
            s2.insts[key[1]] = dict(s2.insts[key[1]])
            s2.insts[key[1]][key[2]] = v
            nxt.append(s2)
        elif key[0] == 'esc':
          nxt.append(s)
        elif key[0] == 'arr':
          nxt += self.havoc_special(s, key, t)
        else:
          raise Unsupported(f'havoc {key}')
      states = nxt
    for s in states:
      for et, c in late:
        s.assume(*self.local_laws(s, et, c))
    for key in mods:
      if key[0] == 'esc':
        for s in states:
          if key[1] in s.cells:
            self.escape(s, s.cells[key[1]])
    return states

  def run_body(self, s, heads, env, src):
    """Runs one iteration from each head; returns ends, breaks, others."""
    ends, brks, rest = [], [], []
    for hi, (head, ghost) in enumerate(heads):
      for st1, elem, g2 in src.step(head.fork(), ghost):
        if st1.exc:
          rest.append((st1, NORMAL, None))
          continue
        starts = [st1]
        if elem is not None:
          starts = self.assign(s.target, elem, st1, env)
        for st2 in starts:
          if st2.exc:
            rest.append((st2, NORMAL, None))
            continue
          for x, kind, v in self.exec_block(s.body, st2, env):
            if x.exc or kind == RETURN:
              rest.append((x, kind, v))
            elif kind == BREAK:
              brks.append(x)
            else:
              ends.append((hi, x, src.at_end(x, g2)))
    return ends, brks, rest

  def loop(self, s, st, env, src):
    self.tick()
    # target variables are rebound by the loop itself
    mods = {}
    entry = st
    target_cells = set()
    if isinstance(s, ast.For):
      for n in ast.walk(s.target):
        if isinstance(n, ast.Name):
          e = env
          c = env.cell_for(n.id) if not (n.id in env.locals) else \
              env.declare(n.id)
          if c is None:
            c = env.declare(n.id)
          target_cells.add(c)
    self.quiet += 1
    try:
      for _ in range(12):
        heads = [(h, src.head(h)) for h in self.havoc(entry, mods)]
        ends, brks, rest = self.run_body(s, heads, env, src)
        changed = False
        for hi, x, g2 in ends:
          if self.diff(entry, heads[hi][0], x, mods):
            changed = True
        for c in target_cells:
          mods.pop(('cell', c), None)
        if not changed or not ends:
          break
        if all(k in mods for k in mods) and self._mods_stable(mods):
          pass
      if any((r if isinstance(r, tuple) else ('list', r)) in mods
             for r in src.refs):
        raise Unsupported('list changed while iterated over')
      for key, t in mods.items():    # empty so far, typed by the loop
        if key[0] == 'dict' and t[1] is not None and \
            entry.dicts[key[1]]['kt'] is None:
          ks, vs = sort_of(t[1]), sort_of(t[2])
          entry.dicts[key[1]] = dict(
              entry.dicts[key[1]], kt=t[1], vt=t[2],
              dom=z3.K(ks, z3.BoolVal(False)),
              val=z3.Const(fresh_name('map'), z3.ArraySort(ks, vs)))
      # Houdini
      cands = []
      tmpl = LoopView(self, entry, env, mods, src)
      for c in self.candidates(tmpl):
        cands.append(c)
      # entry filter
      kept = []
      for lab, f in cands:
        try:
          s0 = entry.fork()
          phi = f(tmpl.at(s0, src.entry_ghost(s0)))
        except Unsupported:
          continue
        if phi is None:
          continue
        r0 = valid(s0.pc, phi, 1500)
        if r0 == 'proved':
          kept.append((lab, f))
        elif r0 == 'unknown':
          self.incomplete = True
      rounds = 0
      while True:
        rounds += 1
        self.tick()
        heads = []
        for h in self.havoc(entry, mods):
          g = src.head(h)
          ok = []
          view = tmpl.at(h, g)
          for lab, f in kept:
            phi = f(view)
            if phi is not None:
              h.assume(phi)
          if self.feasible(h):
            heads.append((h, g))
        ends, brks, rest = self.run_body(s, heads, env, src)
        dead = set()
        for hi, x, g2 in ends:
          x = x.fork()
          view = tmpl.at(x, g2)
          todo = []
          for i, (lab, f) in enumerate(kept):
            if i in dead:
              continue
            try:
              phi = f(view)
            except Unsupported:
              dead.add(i)
              continue
            if phi is None:
              dead.add(i)
              continue
            todo.append((i, phi))
          self.falsify(x, todo, dead)
        if not dead:
          break
        kept = [c for i, c in enumerate(kept) if i not in dead]
        if rounds > 30:
          raise Unsupported('invariant inference did not converge')
    finally:
      self.quiet -= 1
    # final run, obligations on
    if not self.quiet:
      if not self.determined(s, tmpl, mods, [lab for lab, _ in kept]):
        self.incomplete = True
      for lab, _ in kept:
        self.obls.append(Obl(self.cur, f'loop invariant (init+step): {lab}',
                             'proved'))
      ends, brks, rest = self.run_body(s, heads, env, src)
    out = list(rest)
    for h, g in heads:
      for x in src.exhaust(h.fork(), g):
        if x.exc:
          out.append((x, NORMAL, None))
          continue
        if not self.feasible(x):
          continue
        if s.orelse:
          out += self.exec_block(s.orelse, x, env)
        else:
          out.append((x, NORMAL, None))
    out += [(b, NORMAL, None) for b in brks]
    return out

  @staticmethod
  def determined(s, tmpl, mods, labels):
    """Do the invariants pin down what the loop computes?

    If not (the code may keep its state in a form no template was made for),
    an obligation that fails behind the loop says nothing.
    """
    eqs = [l for l in labels if '==' in l or 'prefix' in l]
    keys = [k for k in mods if k[0] in ('cell', 'list', 'dict', 'inst')]
    for k in keys:
      if not any(tmpl.name(k) in l for l in eqs):
        return False
    leaves = any(isinstance(n, (ast.Return, ast.Break))
                 for b in s.body for n in ast.walk(b))
    return bool(keys) or not leaves or any(
        'prefix' in l and not l.endswith('unchanged') for l in labels)

  def _mods_stable(self, mods):
    return True

  def falsify(self, st, todo, dead):
    """Adds to dead every candidate not provable in st."""
    todo = [(i, p) for i, p in todo
            if not z3.is_true(z3.simplify(p))]
    while todo:
      r, m = solve(st.pc + [z3.Not(z3.And(*[p for _, p in todo]))],
                   3000, want_model=True)
      if r == z3.unsat:
        return
      if r == z3.unknown:
        self.incomplete = True
      n = len(todo)
      if m is not None:
        keep = []
        for i, p in todo:
          try:
            v = m.eval(p, model_completion=True)
          except z3.Z3Exception:
            v = None
          if v is not None and z3.is_false(v):
            dead.add(i)
          else:
            keep.append((i, p))
        todo = keep
      if len(todo) == n:
        # model evaluation was inconclusive: check one by one
        for i, p in todo:
          if valid(st.pc, p, 2500) != 'proved':
            dead.add(i)
        return

  def candidates(self, L):
    yield from default_candidates(L)
    for c in self.cands:
      yield from c(L)

  # ------------------------------------------------------- verification
  def verify(self, c):
    """Verifies one contract; appends obligations."""
    done = len(self.obls)
    try:
      return self.verify_once(c)
    except Unsupported:
      if self.feas_ms > 8 or self.deadline and time.time() > self.deadline:
        raise
    # once more, with more effort to see which paths exist
    del self.obls[done:]
    self.feas_ms = 50
    self.verify_once(c)

  def verify_once(self, c):
    fn = c.fn
    o = getattr(fn, '__func__', fn)
    mod = inspect.getmodule(o)
    self.cur = c.name
    self.cur_contract = c
    self.cur_key = self._key(fn)
    self.homs = [Hom.ALL[h] if isinstance(h, str) else h for h in c.homs]
    self.cands = c.cands
    self.lemmas = []
    self.prove_vocabulary(c)
    fnode = find_function(mod, o.__qualname__)
    for ci, case in enumerate(c.cases()):
      if c.nested:
        self.verify_nested(c, case, mod, fnode)
        continue
      states = [(State(), {})]
      for n, t in case.items():
        if t == BOOL:
          # sound case split: boolean parameters are True or False
          states = [(s.fork(), {**b, n: V(BOOL, z3.BoolVal(x))})
                    for s, b in states for x in (True, False)]
          continue
        states = [(s2, {**b, n: v}) for s, b in states
                  for s2, v in self.fresh_value(s, t, n)]
      reach = False
      for st, b in states:
        self.freeze(st)
        st0 = st
        ctx = Ctx(self, st, b)
        if c.requires:
          for l, f in c.requires(ctx):
            st.assume(f)
        if solve(st.pc, 3000) == z3.unsat:
          continue
        self.cur_measure = c.decreases(ctx) if c.decreases else None
        self.trans = list(c.trans(ctx)) if c.trans else []
        if c.trans:
          for l in st.lists.values():
            for g in l.segs:
              if isinstance(g, Seg):
                st.assume(*self.trans_facts(g.s, l.et))
        self.entry_ctx = ctx
        entry = st.fork()
        env = Env(mod)
        outs = self.inline_body(st, fnode, env, dict(b), o.__qualname__)
        for s, kind, v in outs:
          if s.exc:
            self.check_raise(c, ctx, s)
            continue
          cx = Ctx(self, s, b, v, old=entry)
          self.check_no_raise(c, entry, b, s)
          if not reach and solve(s.pc, 3000) != z3.unsat:
            reach = True
          try:
            cx.res = self.coerce_res(s, v, c.res)
            goals = c.ensures(cx)
          except Unsupported as ex:
            self.obls.append(Obl(self.cur, 'result type', 'refuted', str(ex)))
            continue
          for l, f in goals:
            self.oblige(s, f'ensures {l}', f)
          self.check_frame(c, b, entry, s)
      if not reach and not c.nested:
        self.obls.append(Obl(self.cur, 'reachability: some input reaches a '
                             'normal return', 'refuted'))
      else:
        self.obls.append(Obl(self.cur, 'reachability: some input reaches a '
                             'normal return', 'proved'))

  def check_frame(self, c, b, entry, s, cids=None):
    """What the contract does not list under mutates is unchanged."""
    free = set()

    def reach(v):
      if isinstance(v, (VList, VDict, VInst)):
        free.add(v.ref)
      if isinstance(v, VTup):
        for x in v.items:
          reach(x)
      if isinstance(v, VInst):
        for x in entry.insts[v.ref].values():
          reach(x)
    for n in c.mutates:
      reach(b[n])
    for i in (cids or {}).values():
      reach(entry.cells[i])
    for ref, x in entry.lists.items():
      if ref not in free and not x.same(s.lists[ref]):
        if x.et is None or s.lists[ref].et != x.et:
          self.obls.append(Obl(self.cur, 'frame: argument unchanged',
                               'refuted'))
        else:
          self.oblige(s, 'frame: argument unchanged',
                      x.term() == s.lists[ref].term())
    for ref, x in entry.dicts.items():
      y = s.dicts[ref]
      if ref not in free and x is not y:
        self.oblige(s, 'frame: argument unchanged', z3.And(
            x['dom'] == y['dom'], x['val'] == y['val'])
                    if x['kt'] == y['kt'] and x['vt'] == y['vt'] else
                    z3.BoolVal(False))
    for ref, fs in entry.insts.items():
      for f, x in fs.items():
        y = s.insts[ref].get(f)
        if ref in free or x is y:
          continue
        if isinstance(x, V) and isinstance(y, V) and x.t == y.t:
          self.oblige(s, 'frame: argument unchanged', x.e == y.e)
        elif getattr(x, 'ref', x) != getattr(y, 'ref', y):
          self.obls.append(Obl(self.cur, 'frame: argument unchanged',
                               'refuted'))

  def coerce_res(self, st, v, t):
    if t[0] in ('int', 'real', 'bool', 'str', 'any', 'enum', 'list', 'seq',
                'tup', 'nt', 'obj', 'opt', 'none'):
      return self.coerce(st, v, t)
    return v

  def freeze(self, st):
    """Parameter lists may not be mutated unless the contract says so."""
    for cid in list(st.cells):
      pass

  def inline_body(self, st, fnode, env, binding, name):
    env.locals, env.nonlocals = local_names(fnode)
    env.fname = name
    frozen = {}
    for k, v in binding.items():
      env.locals.add(k)
      if isinstance(v, VList) and k not in getattr(
          self.cur_contract, 'mutates', ()):
        v = VList(v.ref, True)
      st.cells[env.declare(k)] = v
    gen = is_generator(fnode)
    if gen:
      rt = self.cur_contract.res
      env.yield_ref = self.new_list(st, Contents(
          rt[1] if rt and rt[0] == 'list' else None, []))
    out = []
    for s, kind, v in self.exec_block(fnode.body, st, env):
      if gen and not s.exc:
        out.append((s, RETURN, env.yield_ref))
      elif kind == NORMAL:
        out.append((s, RETURN, NONEV))
      else:
        out.append((s, kind, v))
    return out

  def check_no_raise(self, c, entry, b, s, cids=None, outer=None):
    """A normal return means that no specified exception was due."""
    if c.raises:
      cx = Ctx(self, entry, b, cells=cids)
      cx.outer = outer or {}
      for exc, cond in c.raises(cx).items():
        if cond is MAY:
          continue
        self.oblige(s, f'returns only when no {exc} is due', z3.Not(cond))

  def check_raise(self, c, ctx, s):
    exc, where = s.exc
    allowed = None
    if c.raises:
      allowed = c.raises(ctx).get(exc)
    label = f'raises no {exc} at `{where}`'
    if allowed is MAY:
      return
    if allowed is not None:
      self.oblige(s, f'raises {exc} only when specified', allowed)
      return
    r = solve(s.pc, self.timeout)
    st = ('proved' if r == z3.unsat else
          'refuted' if r == z3.sat else 'unknown')
    self.obls.append(Obl(self.cur, label, st))

  def verify_nested(self, c, case, mod, fnode):
    """A contract on a function defined inside c.fn.

    The variables it captures are arbitrary (c.cells: those it may assign,
    c.outer: those it only reads); the contract says what it needs of them.
    """
    inner = [n for n in ast.walk(fnode) if isinstance(n, ast.FunctionDef)
             and n.name == c.nested]
    if len(inner) != 1:
      raise Unsupported(f'nested function {c.nested}')
    inner, = inner
    outer_env = Env(mod)
    outer_env.locals, _ = local_names(fnode)
    st0 = State()
    states = [st0]
    for n, t in {**c.outer, **(c.cells or {})}.items():
      cid = outer_env.declare(n)
      nxt = []
      for s in states:
        for s2, v in self.fresh_value(s.fork(), t, n):
          s2.cells[cid] = v
          nxt.append(s2)
      states = nxt
    selfcid = outer_env.declare(c.nested)
    siblings = [(outer_env.declare(n.name), n) for n in fnode.body
                if isinstance(n, ast.FunctionDef) and n is not inner and (
                    self.cur_key, n.name) in self.nested_contracts]
    sts = []
    for s in states:
      for cid, n in siblings:    # known by their contracts
        s.cells[cid] = VClosure(n, outer_env, mod, n.name, owner=self.cur_key)
      s.cells[selfcid] = VClosure(inner, outer_env, mod, c.nested,
                                  owner=self.cur_key)
      res = [(s, {})]
      for n, t in case.items():
        if t == BOOL:
          res = [(x.fork(), {**b, n: V(BOOL, z3.BoolVal(y))})
                 for x, b in res for y in (True, False)]
          continue
        res = [(s2, {**b, n: v}) for x, b in res
               for s2, v in self.fresh_value(x, t, n)]
      sts += res
    cids = {n: outer_env.vars[n] for n in c.cells or ()}
    reach = False
    for st, b in sts:
      ctx = Ctx(self, st, b, cells=cids)
      ctx.outer = {n: st.cells[outer_env.vars[n]] for n in c.outer}
      if c.requires:
        for _, f in c.requires(ctx):
          st.assume(f)
      if solve(st.pc, 3000) == z3.unsat:
        continue
      self.cur_measure = c.decreases(ctx) if c.decreases else None
      self.trans = list(c.trans(ctx)) if c.trans else []
      self.entry_ctx = ctx
      entry = st.fork()
      env = Env(mod, outer_env)
      for s, _, v in self.inline_body(st, inner, env, dict(b), c.nested):
        if s.exc:
          self.check_raise(c, ctx, s)
          continue
        if not reach and solve(s.pc, 3000) != z3.unsat:
          reach = True
        cx = Ctx(self, s, b, v, old=entry, cells=cids)
        cx.outer = ctx.outer
        self.check_no_raise(c, entry, b, s, cids, ctx.outer)
        try:
          cx.res = self.coerce_res(s, v, c.res)
          goals = c.ensures(cx)
        except Unsupported as ex:
          self.obls.append(Obl(self.cur, 'result type', 'refuted', str(ex)))
          continue
        for l, f in goals:
          self.oblige(s, f'ensures {l}', f)
        self.check_frame(c, b, entry, s, cids)
    self.obls.append(Obl(self.cur, 'reachability: some input reaches a '
                         'normal return', 'proved' if reach else 'refuted'))

  # ------------------------------------------------------- vocabulary
  def prove_vocabulary(self, c):
    """Invariants of homs and lemmas are proved before they are assumed."""
    done = set()

    def known(fs, x, et):
      """Already proved facts about the sequence terms inside fs."""
      out, seen, todo = [], set(), list(fs)
      while todo:
        t = todo.pop()
        if t.get_id() in seen:
          continue
        seen.add(t.get_id())
        todo += t.children()
        if z3.is_app(t) and t.num_args() >= 1 and z3.is_seq(t.arg(0)):
          for h in list(self.homs):
            if h.inv is not None and t.decl().eq(h.fn):
              out.append(h.inv(t))
      return out

    for h in self.homs:
      if h.inv is None or h.name in done:
        continue
      done.add(h.name)
      a, b = fresh(h.monoid.t, 'a'), fresh(h.monoid.t, 'b')
      x = fresh(h.et, 'x') if h.et != CHAR else fresh(STR, 'x')
      nd = h.node(x)
      facts = known([nd], x, h.et)
      facts += self.type_facts(V(h.et, x)) if h.et[0] != 'char' else []
      goal = z3.And(h.inv(h.monoid.unit),
                    z3.Implies(z3.And(h.inv(a), h.inv(b)),
                               h.inv(h.monoid.op(a, b))), h.inv(nd))
      self.obls.append(Obl(self.cur, f'invariant of {h.name}',
                           valid(facts, goal, self.timeout)))
    for L in c.lemmas:
      q = None if L.qt is None else fresh(L.qt, 'q')
      a = z3.Const(fresh_name('a'), core._seq_dom(L.et))
      x = fresh(STR if L.et == CHAR else L.et, 'x')
      ca = Contents(L.et, [Seg(a)])
      cx = Contents(L.et, [Seg(a), Unit(x)])
      base = L.at(Contents(L.et, []), q)
      step = L.at(cx, q)
      facts = [L.at(ca, q2) for q2 in (
          L.ih(core.LemmaView(ca), x, q) if L.ih else [q])]
      if L.hints:
        facts += L.hints(core.LemmaView(ca), x, q)
      if L.et == CHAR:
        facts.append(z3.Length(x) == 1)
      elif L.et[0] == 'obj':
        facts += self.type_facts(V(L.et, x))
      for u in L.uses:        # lemmas proved earlier
        facts.append(u.at(ca, q if u.qt is not None else None))
      if L.kids is not None:
        guard, kid = L.kids[:2]
        ck = Contents(L.et, [Seg(kid(x))])
        insts = [L.at(ck, q2) for f in L.kids[2:] for q2 in f(
            core.LemmaView(ca), x, q)]
        for l2 in (L,) + tuple(L.uses):
          if l2.qt is None:
            insts.append(l2.at(ck))
          else:
            for t, _ in self.trans_all(c):
              if t.qt == l2.qt:
                insts.append(l2.at(ck, t.q(ca, q)))
            insts.append(l2.at(ck, q))
        facts.append(z3.Implies(guard(x), z3.And(*insts)))
      facts += known([step] + facts, x, L.et)
      r1 = valid(L.hints(core.LemmaView(Contents(L.et, [])), None, q)
                 if L.hints else [], base, self.timeout)
      cases = [[]]
      for f in L.split(core.LemmaView(ca), x, q) if L.split else ():
        cases = [k + [g] for k in cases for g in (f, z3.Not(f))]
      r2 = 'proved'
      for k in cases:
        r = valid_hard(facts + k, step, self.timeout)
        if r != 'proved' and r2 != 'refuted':
          r2 = r
      self.obls.append(Obl(self.cur, f'lemma {L.name}: base', r1))
      self.obls.append(Obl(self.cur, f'lemma {L.name}: step', r2))
    self.lemmas = list(c.lemmas)

  def trans_all(self, c):
    """Transducers of a contract (their start states are irrelevant here)."""
    return [(t, None) for t in getattr(c, 'transducers', ())]


def find_class(mod, qualname):
  node = module_ast(mod)
  for part in qualname.split('.'):
    for n in node.body:
      if isinstance(n, ast.ClassDef) and n.name == part:
        node = n
        break
    else:
      raise Unsupported(f'class {qualname}')
  return node


# ----------------------------------------------------------------- sources
def iterated(it):
  """The lists that an iteration reads as it goes."""
  if isinstance(it, VList):
    if it.place is not None and it.place[0] == 'items':
      return [('dict', it.place[1].ref)]
    return [it.ref]
  if isinstance(it, VIter) and it.kind != 'range':
    return [r for a in it.args for r in iterated(a)]
  return []


class Source:
  refs = ()

  def head(self, st):
    raise NotImplementedError

  def at_end(self, st, g):
    """The ghost after one iteration, which ended in st."""
    return g


class ListSource(Source):
  """for x in <list>."""

  def __init__(self, eng, c, et=None):
    self.eng, self.c, self.et = eng, c, c.et

  def entry_ghost(self, st):
    return dict(pre=Contents(self.et, []), k=z3.IntVal(0))

  def head(self, st):
    e = self.eng
    t = LIST(self.et)
    pre, rest = fresh(t, 'pre'), fresh(t, 'rest')
    st.assume(*e.seg_facts(pre, self.et), *e.seg_facts(rest, self.et))
    parts = Contents(self.et, [Seg(pre), Seg(rest)])
    st.assume(*e.hom_eq_contents(self.c, parts))
    return dict(pre=Contents(self.et, [Seg(pre)]), rest=rest,
                k=z3.Length(pre))

  def split(self, st, g):
    e = self.eng
    x, post = fresh(self.et, 'x'), fresh(LIST(self.et), 'post')
    st.assume(*e.seg_facts(post, self.et))
    st.assume(*e.hom_eq(g['rest'], Contents(self.et, [Unit(x), Seg(post)])))
    g2 = dict(pre=Contents(self.et, g['pre'].segs + (Unit(x),)), rest=post,
              k=g['k'] + 1)
    # for an exit in the middle
    st.assume(*e.trans_eq(self.c, Contents(
        self.et, g2['pre'].segs + (Seg(post),))))
    for lem in e.lemmas:      # proved facts about what comes after x
      if lem.later and lem.et == self.et:
        for t, q0 in e.trans:
          if t is lem.later:
            st.assume(lem.at(Contents(self.et, [Seg(post)]),
                             t.q(g2['pre'], q0)))
    return x, g2

  def step_raw(self, st, g):
    x, g2 = self.split(st, g)
    return [(s, v, g2) for s, v in self.eng.unbox(st, x, self.et)]

  def step(self, st, g):
    st.assume(z3.Length(g['rest']) > 0)
    if not self.eng.feasible(st):
      return []
    return self.step_raw(st, g)

  def done(self, g):
    return z3.Length(g['rest']) == 0

  def exhaust(self, st, g):
    st.assume(self.done(g))
    st.assume(*self.eng.hom_eq_contents(self.c, g['pre']))
    return [st]

  def not_done(self, g):
    return z3.Length(g['rest']) > 0


class ReversedSource(ListSource):
  def head(self, st):
    e = self.eng
    t = LIST(self.et)
    post, rest = fresh(t, 'rpost'), fresh(t, 'rrest')
    st.assume(*e.seg_facts(post, self.et), *e.seg_facts(rest, self.et))
    parts = Contents(self.et, [Seg(rest), Seg(post)])
    st.assume(*e.hom_eq_contents(self.c, parts))
    return dict(pre=Contents(self.et, [Seg(post)]), rest=rest,
                k=z3.Length(post))

  def step_raw(self, st, g):
    e = self.eng
    x, r2 = fresh(self.et, 'x'), fresh(LIST(self.et), 'rrest')
    st.assume(*e.seg_facts(r2, self.et))
    st.assume(*e.hom_eq(g['rest'], Contents(self.et, [Seg(r2), Unit(x)])))
    g2 = dict(pre=Contents(self.et, (Unit(x),) + g['pre'].segs), rest=r2,
              k=g['k'] + 1)
    return [(s, v, g2) for s, v in e.unbox(st, x, self.et)]


class StrSource(Source):
  def __init__(self, eng, v):
    self.eng, self.v, self.et = eng, v, STR

  def entry_ghost(self, st):
    return dict(spre=z3.StringVal(''), k=z3.IntVal(0),
                chars=Contents(CHAR, []))

  def head(self, st):
    pre, rest = fresh(STR, 'spre'), fresh(STR, 'srest')
    st.assume(self.v.e == z3.Concat(pre, rest))
    for t, q0 in self.eng.trans:
      if t.et == CHAR:
        st.assume(t.fq(self.v.e, q0) == t.fq(rest, t.fq(pre, q0)))
    c = Contents(CHAR, [Seg(pre)])
    st.assume(*self.eng.char_facts(pre))
    return dict(spre=pre, rest=rest, k=z3.Length(pre), chars=c)

  def step(self, st, g):
    x, post = fresh(STR, 'ch'), fresh(STR, 'spost')
    st.assume(g['rest'] == z3.Concat(x, post), z3.Length(x) == 1)
    g2 = dict(spre=z3.Concat(g['spre'], x), rest=post, k=g['k'] + 1,
              chars=Contents(CHAR, g['chars'].segs + (Unit(x),)))
    return [(st, V(STR, x), g2)]

  step_raw = step

  def done(self, g):
    return z3.Length(g['rest']) == 0

  def not_done(self, g):
    return z3.Length(g['rest']) > 0

  def exhaust(self, st, g):
    st.assume(z3.Length(g['rest']) == 0, self.v.e == g['spre'])
    return [st]


def note_split(st, c, i, pre, x, post):
  """c == pre ++ [x] ++ post with len(pre) == i (facts already assumed)."""
  st.ghost['at'] = st.ghost.get('at', ()) + ((c, i, pre, x, post),)


class RangeSource(Source):
  """for i in range(a, b, step); knows the lists that i runs through."""

  def __init__(self, eng, a, b, step, st=None):
    self.eng, self.a, self.b, self.s = eng, a, b, step
    self.n = z3.simplify(zmax(b - a, z3.IntVal(0)) if step == 1
                         else zmax(a - b, z3.IntVal(0)))
    self.subs = []
    if st is not None and step == 1 and z3.is_int_value(
        z3.simplify(a)) and z3.simplify(a).as_long() == 0:
      bs = z3.simplify(b)
      for c in st.lists.values():
        if c.et is not None and c.segs and any(
            isinstance(g, Seg) for g in c.segs) and z3.simplify(
                c.length()).eq(bs) and not any(
                    c.same(x.c) for x in self.subs):
          self.subs.append(ListSource(eng, c))
      if self.subs:
        self.n = bs      # a length: not negative

  def entry_ghost(self, st):
    return dict(k=z3.IntVal(0), i=self.a,
                subs=[x.entry_ghost(st) for x in self.subs])

  def head(self, st):
    k = z3.Int(fresh_name('k'))
    st.assume(k >= 0, k <= self.n)
    gs = [x.head(st) for x in self.subs]
    st.assume(*[g['k'] == k for g in gs])
    return dict(k=k, i=self.a + k * self.s, subs=gs)

  def step_raw(self, st, g):
    i = z3.simplify(g['i'])
    gs = []
    for x, h in zip(self.subs, g['subs']):
      st.assume(z3.Length(h['rest']) > 0)
      e, h2 = x.split(st, h)
      note_split(st, x.c, i, h['pre'], e, Contents(x.et, [Seg(h2['rest'])]))
      gs.append(h2)
    return [(st, V(INT, i), dict(k=g['k'] + 1, i=g['i'] + self.s, subs=gs))]

  def step(self, st, g):
    st.assume(g['k'] < self.n)
    if not self.eng.feasible(st):
      return []
    return self.step_raw(st, g)

  def done(self, g):
    return g['k'] >= self.n

  def not_done(self, g):
    return g['k'] < self.n

  def exhaust(self, st, g):
    st.assume(g['k'] == self.n)
    for x, h in zip(self.subs, g['subs']):
      x.exhaust(st, h)
    return [st]


class EnumSource(Source):
  def __init__(self, eng, src, start):
    self.eng, self.src, self.start = eng, src, start

  def entry_ghost(self, st):
    return self.src.entry_ghost(st)

  def head(self, st):
    return self.src.head(st)

  def step(self, st, g):
    return [(s, None if v is None else VTup(
        [V(INT, z3.simplify(self.start + g['k'])), v]), g2)
            for s, v, g2 in self.src.step(st, g)]

  def step_raw(self, st, g):
    return [(s, VTup([V(INT, z3.simplify(self.start + g['k'])), v]), g2)
            for s, v, g2 in self.src.step_raw(st, g)]

  def done(self, g):
    return self.src.done(g)

  def not_done(self, g):
    return self.src.not_done(g)

  def exhaust(self, st, g):
    return self.src.exhaust(st, g)


class ZipSource(Source):
  def __init__(self, eng, srcs):
    self.eng, self.srcs = eng, srcs

  def entry_ghost(self, st):
    gs = [s.entry_ghost(st) for s in self.srcs]
    return dict(subs=gs, k=z3.IntVal(0))

  def head(self, st):
    gs = [s.head(st) for s in self.srcs]
    for g in gs[1:]:
      st.assume(g['k'] == gs[0]['k'])
    return dict(subs=gs, k=gs[0]['k'])

  def step(self, st, g):
    st.assume(*[s.not_done(x) for s, x in zip(self.srcs, g['subs'])])
    if not self.eng.feasible(st):
      return []
    return self.step_raw(st, g)

  def step_raw(self, st, g):
    res = [(st, [], [])]
    for s, x in zip(self.srcs, g['subs']):
      nxt = []
      for s0, vs, gs in res:
        for s1, v, g1 in s.step_raw(s0, x):
          nxt.append((s1, vs + [v], gs + [g1]))
      res = nxt
    return [(s, VTup(vs), dict(subs=gs, k=g['k'] + 1))
            for s, vs, gs in res]

  def done(self, g):
    return z3.Or(*[s.done(x) for s, x in zip(self.srcs, g['subs'])])

  def not_done(self, g):
    return z3.Not(self.done(g))

  def exhaust(self, st, g):
    st.assume(self.done(g))
    out = st
    for s, x in zip(self.srcs, g['subs']):
      if isinstance(s, ListSource):
        st.assume(z3.Implies(s.done(x), z3.And(
            *self.eng.hom_eq_contents(s.c, x['pre']))))
    return [st]


class WhileSource(Source):
  """while test; knows the list that a counter in the test runs through."""

  def __init__(self, eng, test, env, st=None):
    self.eng, self.test, self.env = eng, test, env
    self.cell = self.sub = None
    if st is None:
      return
    for n in ast.walk(test):
      if not isinstance(n, ast.Compare) or len(n.ops) != 1:
        continue
      l, r = n.left, n.comparators[0]
      if isinstance(n.ops[0], (ast.Gt, ast.NotEq)) and isinstance(
          r, ast.Name):
        l, r = r, l
      elif not isinstance(n.ops[0], (ast.Lt, ast.NotEq)):
        continue
      if not isinstance(l, ast.Name):
        continue
      cell = env.cell_for(l.id)
      i = st.cells.get(cell)
      try:
        # the bound is a length of a list: one that is already known
        self.eng.quiet += 1
        outs = eng.ev(r, st.fork(), env)
      except Unsupported:
        continue
      finally:
        self.eng.quiet -= 1
      if len(outs) != 1 or outs[0][0].exc or not isinstance(
          outs[0][1], V) or not isinstance(i, V) or not (
              i.t == INT == outs[0][1].t):
        continue
      b = z3.simplify(outs[0][1].e)
      for ref, c in st.lists.items():
        if c.et is not None and any(
            isinstance(g, Seg) for g in c.segs) and z3.simplify(
                c.length()).eq(b):
          self.cell, self.ref, self.sub = cell, ref, ListSource(eng, c)
          return

  def known(self, st):
    if self.sub is not None and not st.lists[self.ref].same(self.sub.c):
      self.sub = None       # the loop changes the list
    return self.sub is not None

  def upto(self, st):
    """The part of the list before the counter."""
    g = self.sub.head(st)
    i, n = st.cells[self.cell].e, self.sub.c.length()
    st.assume(g['k'] == z3.If(i < 0, 0, z3.If(i > n, n, i)))
    return g

  def entry_ghost(self, st):
    if not self.known(st):
      return dict(k=None)
    i = z3.simplify(st.cells[self.cell].e)
    if z3.is_int_value(i) and i.as_long() == 0:
      return dict(k=None, subs=[self.sub.entry_ghost(st)])
    return dict(k=None, subs=[self.upto(st)])

  def head(self, st):
    if not self.known(st):
      return dict(k=None)
    return dict(k=None, subs=[self.upto(st)])

  def step(self, st, g):
    out = []
    for s, c in self.eng.branch(self.test, st, self.env):
      if s.exc:
        out.append((s, None, g))
      elif c:
        g2 = g
        if g.get('subs'):
          h = g['subs'][0]
          i = s.cells[self.cell].e
          if valid(s.pc, z3.And(i >= 0, z3.Length(h['rest']) > 0),
                   1500) == 'proved':
            e, h2 = self.sub.split(s, h)
            note_split(s, self.sub.c, i, h['pre'], e, Contents(
                self.sub.et, [Seg(h2['rest'])]))
            g2 = dict(g, old=(i, h, h2))
        out.append((s, None, g2))
    return out

  def at_end(self, st, g):
    if not g.get('subs'):
      return g
    i2 = st.cells[self.cell].e
    if 'old' in g and st.lists[self.ref].same(self.sub.c):
      i, h, h2 = g['old']
      for k, r in ((0, h), (1, h2)):
        d = z3.simplify(i2 - i - k)
        if z3.is_int_value(d) and d.as_long() == 0:
          return dict(k=None, subs=[r])
    return dict(k=None, subs=[self.upto(st)])

  def exhaust(self, st, g):
    out = []
    for s, c in self.eng.branch(self.test, st, self.env):
      if s.exc:
        pass     # reported by step
      elif not c:
        if g.get('subs'):
          h = g['subs'][0]
          s.assume(z3.Implies(self.sub.done(h), z3.And(
              *self.eng.hom_eq_contents(self.sub.c, h['pre']))))
        out.append(s)
    return out


def make_source(eng, st, it):
  if isinstance(it, VList):
    c = st.lists[it.ref]
    if c.et is None:
      c = Contents(INT, [])
    return ListSource(eng, c)
  if isinstance(it, V) and it.t == STR:
    return StrSource(eng, it)
  if isinstance(it, VTup):
    return ListSource(eng, eng.contents(st, it))
  if isinstance(it, VIter):
    if it.kind == 'range':
      a = it.args
      if len(a) == 1:
        return RangeSource(eng, z3.IntVal(0), a[0].e, 1, st)
      if len(a) == 2:
        return RangeSource(eng, a[0].e, a[1].e, 1, st)
      s = z3.simplify(a[2].e)
      if z3.is_int_value(s) and s.as_long() in (1, -1):
        return RangeSource(eng, a[0].e, a[1].e, s.as_long())
      raise Unsupported('range step')
    if it.kind == 'enumerate':
      return EnumSource(eng, make_source(eng, st, it.args[0]), it.args[1].e)
    if it.kind == 'zip':
      return ZipSource(eng, [make_source(eng, st, a) for a in it.args])
    if it.kind == 'reversed':
      a = it.args[0]
      if isinstance(a, VIter) and a.kind == 'range':
        src = make_source(eng, st, a)
        if src.s == 1:
          return RangeSource(eng, src.b - 1, src.a - 1, -1)
        raise Unsupported('reversed range')
      return ReversedSource(eng, eng.contents(st, a))
  if isinstance(it, VPy) and isinstance(it.o, (tuple, list)):
    return ListSource(eng, eng.contents(st, it))
  raise Unsupported(f'iteration over {it}')


# ----------------------------------------------------------------- views
REPLACE_ALL = z3.Function('replace_all', *[z3.StringSort()] * 4)


class LoopView:
  """What invariant templates can mention."""

  def __init__(self, eng, entry, env, mods, src):
    self.eng, self.entry, self.env, self.mods, self.src = (
        eng, entry, env, mods, src)
    self.names = {}
    e = env
    while e is not None:
      for n, c in e.vars.items():
        self.names.setdefault(c, n)
      e = e.parent

  def at(self, st, ghost):
    return View(self, st, ghost)

  def mod_keys(self, pred):
    return [k for k, t in self.mods.items() if pred(t)]

  def lists(self, et=None):
    """Keys of list-valued loop variables (optionally of an element type)."""
    return [k for k, t in self.mods.items()
            if t[0] == 'list' and (et is None or t[1] == et)]

  def scalars(self, t):
    return [k for k, tt in self.mods.items() if tt == t]

  def name(self, key):
    if key[0] == 'cell':
      return self.names.get(key[1], '?')
    if key[0] == 'list':
      for c, v in self.entry.cells.items():
        if isinstance(v, VList) and v.ref == key[1] and c in self.names:
          return self.names[c]
      return 'list'
    if key[0] == 'inst':
      return 'self.' + key[2]
    return str(key)

  def value(self, st, key):
    if key[0] == 'cell':
      return st.cells.get(key[1])
    if key[0] == 'list':
      return VList(key[1])
    if key[0] == 'inst':
      return st.insts[key[1]].get(key[2])
    if key[0] == 'dict':
      return VDict(key[1])
    raise Unsupported('view')

  def ent(self, key):
    return self.value(self.entry, key)

  def prefix_types(self):
    """(index, elem type) of the prefixes the source provides."""
    g = self._g0()
    return [(i, t) for i, (t, _) in enumerate(self._prefixes(g))]

  def _g0(self):
    return self.src.entry_ghost(self.entry.fork())

  def _prefixes(self, g):
    out = []
    if 'pre' in g and g['pre'].et is not None:
      out.append((g['pre'].et, g['pre']))
    if 'spre' in g:
      out.append((('char',), g['spre']))
    for s in g.get('subs', []):
      out += self._prefixes(s)
    return out


  def _chars(self, g, i):
    out = []

    def walk(g):
      if 'pre' in g and g['pre'].et is not None:
        out.append(g['pre'])
      if 'spre' in g:
        out.append(g['chars'])
      for s in g.get('subs', []):
        walk(s)
    walk(g)
    return out[i]


class View:
  def __init__(self, L, st, ghost):
    self.L, self.st, self.g = L, st, ghost
    self.eng = L.eng

  def val(self, key):
    return self.L.value(self.st, key)

  def ent(self, key):
    return self.L.value(self.L.entry, key)

  def contents(self, key):
    v = self.val(key)
    return self.eng.contents(self.st, v)

  def ent_contents(self, key):
    v = self.ent(key)
    if isinstance(v, (VList, VTup)):
      return self.eng.contents(self.L.entry, v)
    raise Unsupported('entry value is not a list')

  def prefix(self, i):
    return self.L._prefixes(self.g)[i][1]

  def tprefix(self, i):
    """Prefix i as Contents (characters for strings)."""
    t, p = self.L._prefixes(self.g)[i]
    return self.L._chars(self.g, i) if t == CHAR else p

  @property
  def k(self):
    return self.g['k']

  def all_lists(self, et):
    """Contents of every list in scope with this element type (unmodified)."""
    out = []
    for c, n in self.L.names.items():
      v = self.st.cells.get(c)
      if isinstance(v, VList) and self.st.lists[v.ref].et == et:
        out.append((n, self.st.lists[v.ref]))
    return out


def default_candidates(L):
  eng = L.eng
  homs = eng.homs
  pts = L.prefix_types()

  def pre_val(view, pi, pt, h):
    p = view.prefix(pi)
    if pt == ('char',):
      return p if h is None else None
    return h.of(p)

  # the "measures" of a prefix: (label, monoid name, fn(view))
  pm = []
  for pi, pt in pts:
    if pt == ('char',):
      pm.append((f'prefix{pi}', M_STR, lambda v, pi=pi: v.prefix(pi)))
    else:
      for h in homs:
        if h.et == pt:
          pm.append((f'{h.name}(prefix{pi})', h.monoid,
                     lambda v, pi=pi, h=h: h.of(v.prefix(pi))))
      pm.append((f'prefix{pi}', ('raw', pt),
                 lambda v, pi=pi: v.prefix(pi)))
  for lab, mon, f in pm:
    if not isinstance(mon, tuple) and mon.name == 'and':
      yield lab, lambda v, f=f: f(v)
  lists = L.lists()
  if isinstance(L.src, WhileSource):
    # what has been produced and what is still to do
    def measures(key):
      et = L.mods[key][1]
      for h in homs:
        if h.et == et:
          yield (f'{h.name}({L.name(key)})', h.monoid,
                 lambda c, h=h: h.of(cast(c, h.et)))
      yield L.name(key), M_SEQ(et), lambda c, et=et: cast(c, et).term()
    for k1 in lists:
      for k2 in lists:
        if k1 == k2:
          continue
        for l1, m1, f1 in measures(k1):
          for l2, m2, f2 in measures(k2):
            if m1.name != m2.name or m1.t != m2.t:
              continue
            yield (f'{l1} * {l2} unchanged',
                   lambda v, k1=k1, k2=k2, f1=f1, f2=f2, m=m1:
                   m.op(f1(v.contents(k1)), f2(v.contents(k2))) ==
                   m.op(f1(v.ent_contents(k1)), f2(v.ent_contents(k2))))
  for key in lists:
    et = L.mods[key][1]
    nm = L.name(key)
    for h in homs:
      if h.et != et:
        continue
      yield (f'{h.name}({nm}) unchanged',
             lambda v, key=key, h=h:
             h.of(v.contents(key)) == h.of(cast(v.ent_contents(key), h.et)))
      if h.monoid.name == 'and':
        yield f'{h.name}({nm})', lambda v, key=key, h=h: h.of(v.contents(key))
      if h.monoid.name == 'str':
        for k2 in L.scalars(STR):
          yield (f'{h.name}({nm})+{L.name(k2)} unchanged',
                 lambda v, key=key, h=h, k2=k2:
                 z3.Concat(h.of(v.contents(key)), v.val(k2).e) ==
                 z3.Concat(h.of(cast(v.ent_contents(key), h.et)),
                           v.ent(k2).e))
      for lab, mon, f in pm:
        if isinstance(mon, tuple) or mon.name != h.monoid.name:
          continue
        yield (f'{h.name}({nm}) == entry * {lab}',
               lambda v, key=key, h=h, f=f, mon=mon:
               h.of(v.contents(key)) ==
               mon.op(h.of(cast(v.ent_contents(key), h.et)), f(v)))
        if not mon.commutative:
          yield (f'{h.name}({nm}) == {lab} * entry',
                 lambda v, key=key, h=h, f=f, mon=mon:
                 h.of(v.contents(key)) ==
                 mon.op(f(v), h.of(cast(v.ent_contents(key), h.et))))
        if mon.name == 'and':
          yield (f'{lab} => {h.name}({nm})',
                 lambda v, key=key, h=h, f=f: z3.Implies(
                     f(v), h.of(v.contents(key))))
        # two accumulators
        for k2 in lists:
          if k2 == key or L.mods[k2][1] != et:
            continue
          yield (f'{h.name}({nm})*{h.name}({L.name(k2)}) == entry * {lab}',
                 lambda v, key=key, k2=k2, h=h, f=f, mon=mon:
                 mon.op(h.of(v.contents(key)), h.of(v.contents(k2))) ==
                 mon.op(mon.op(h.of(cast(v.ent_contents(key), h.et)),
                               h.of(cast(v.ent_contents(k2), h.et))), f(v)))
        if mon.name == 'str':
          for k2 in L.scalars(STR):
            yield (f'{h.name}({nm})+{L.name(k2)} == entry + {lab}',
                   lambda v, key=key, k2=k2, h=h, f=f:
                   core._concat(h.of(v.contents(key)), v.val(k2).e) ==
                   core._concat(core._concat(
                       h.of(cast(v.ent_contents(key), h.et)),
                       v.ent(k2).e), f(v)))
    for lab, mon, f in pm:
      if isinstance(mon, tuple) and mon[1] == et:
        yield (f'{nm} == entry ++ {lab}',
               lambda v, key=key, f=f, et=et:
               v.contents(key).term() ==
               cast(v.ent_contents(key), et).plus(f(v)).term())
      elif not isinstance(mon, tuple) and mon.t in (SEQ(et), LIST(et)):
        yield (f'{nm} == entry ++ {lab}',
               lambda v, key=key, f=f, et=et, mon=mon:
               cast(v.contents(key), et).term() ==
               mon.op(cast(v.ent_contents(key), et).term(), f(v)))
    yield (f'len({nm}) == entry + k',
           lambda v, key=key: None if v.g.get('k') is None else
           v.contents(key).length() ==
           v.ent_contents(key).length() + v.k)
    yield (f'len({nm}) >= entry',
           lambda v, key=key: v.contents(key).length() >=
           v.ent_contents(key).length())
    yield (f'len({nm}) > 0',
           lambda v, key=key: v.contents(key).length() > 0)
    yield (f'k == 0 or len({nm}) > 0',
           lambda v, key=key: None if v.g.get('k') is None else
           z3.Or(v.k == 0, v.contents(key).length() > 0))
    for k2 in lists:
      if k2 > key:
        yield (f'len({nm}) == len({L.name(k2)}) (+entry)',
               lambda v, key=key, k2=k2:
               v.contents(key).length() - v.ent_contents(key).length() ==
               v.contents(k2).length() - v.ent_contents(k2).length())
  for t, names in ((INT, ('sum', 'max0')), (STR, ('str',)),
                   (BOOL, ('and', 'or')), (REAL, ('rsum',))):
    for key in L.scalars(t):
      nm = L.name(key)
      for lab, mon, f in pm:
        if isinstance(mon, tuple) or mon.name not in names:
          continue
        yield (f'{nm} == entry * {lab}',
               lambda v, key=key, f=f, mon=mon:
               v.val(key).e == mon.op(v.ent(key).e, f(v)))
        if mon.name == 'max0':
          yield (f'{nm} == max(entry, 1 + {lab})',
                 lambda v, key=key, f=f:
                 v.val(key).e == zmax(v.ent(key).e, 1 + f(v)))
        if mon.name in ('sum', 'max0'):
          yield (f'{nm} <= {lab}', lambda v, key=key, f=f:
                 v.val(key).e <= f(v))
          yield (f'{nm} <= entry + {lab}', lambda v, key=key, f=f:
                 v.val(key).e <= v.ent(key).e + f(v))
      if t in (INT, REAL):
        yield f'{nm} >= entry', lambda v, key=key: \
            v.val(key).e >= v.ent(key).e
        yield f'{nm} <= entry', lambda v, key=key: \
            v.val(key).e <= v.ent(key).e
        yield f'{nm} >= 0', lambda v, key=key: v.val(key).e >= 0
        if t == INT:
          yield (f'{nm} == entry + k', lambda v, key=key:
                 None if v.g.get('k') is None else
                 v.val(key).e == v.ent(key).e + v.k)
  yield from trans_candidates(L)
  if isinstance(L.src, WhileSource):
    # index-style loops: i <= len(s) for every sequence in scope
    for key in L.scalars(INT):
      nm = L.name(key)
      for c, n in L.names.items():
        v0 = L.entry.cells.get(c)
        if isinstance(v0, VList) and L.entry.lists[v0.ref].et is not None:
          yield (f'{nm} <= len({n})', lambda v, key=key, c=c:
                 v.val(key).e <= v.eng.contents(
                     v.st, v.st.cells[c]).length())
        elif isinstance(v0, V) and v0.t == STR:
          yield (f'{nm} <= len({n})', lambda v, key=key, c=c:
                 v.val(key).e <= z3.Length(v.st.cells[c].e))


def trans_candidates(L):
  eng = L.eng
  for pi, pt in L.prefix_types():
    for t, q0 in eng.trans:
      if t.et != pt:
        continue
      qv = lambda v, pi=pi, t=t, q0=q0: t.q(v.tprefix(pi), q0)
      ov = lambda v, pi=pi, t=t, q0=q0: t.o(v.tprefix(pi), q0)
      obs = eng.cur_contract.observe
      if obs is not None:
        def f(v, qv=qv, t=t):
          cx = Ctx(eng, v.st, eng.entry_ctx.args, cells=eng.entry_ctx.cells)
          cx.outer = eng.entry_ctx.outer
          return obs(cx) == qv(v)
        yield f'state == {t.name}(prefix)', f
      n = len(t.comps(q0))
      for i in range(n):
        ct = t.comps(q0)[i][0]
        comp = lambda v, qv=qv, t=t, i=i: t.comps(qv(v))[i][1]
        yield (f'{t.name}.{i}(prefix) unchanged',
               lambda v, comp=comp, t=t, i=i, q0=q0:
               comp(v) == t.comps(q0)[i][1])
        for key, kt in L.mods.items():
          nm = L.name(key)
          if key[0] == 'dict' and ct == SET(kt[1]):
            yield (f'{nm} == {t.name}.{i}(prefix)',
                   lambda v, key=key, comp=comp:
                   None if v.st.dicts[key[1]]['dom'] is None else
                   v.st.dicts[key[1]]['dom'] == comp(v))
          if key[0] not in ('cell', 'list', 'inst'):
            continue
          if kt[0] == 'list':
            et = kt[1]
            if ct in (SEQ(et), LIST(et)):
              yield (f'{nm} == {t.name}.{i}(prefix)',
                     lambda v, key=key, et=et, comp=comp:
                     cast(v.contents(key), et).term() == comp(v))
            for h in eng.homs:
              if h.et == et and h.monoid.t == ct:
                yield (f'{h.name}({nm}) == {t.name}.{i}(prefix)',
                       lambda v, key=key, et=et, comp=comp, h=h:
                       h.of(cast(v.contents(key), et)) == comp(v))
            if ct == STR:
              yield (f'len({nm}) == len({t.name}.{i}(prefix))',
                     lambda v, key=key, comp=comp:
                     v.contents(key).length() == z3.Length(comp(v)))
            if ct == INT:
              yield (f'len({nm}) == {t.name}.{i}(prefix)',
                     lambda v, key=key, comp=comp:
                     v.contents(key).length() == comp(v))
          else:
            try:
              if sort_of(kt) != sort_of(ct):
                continue
            except Unsupported:
              continue
            yield (f'{nm} == {t.name}.{i}(prefix)',
                   lambda v, key=key, kt=kt, comp=comp:
                   v.eng.box(v.st, v.val(key), kt) == comp(v))
            if ct == BOOL:
              yield (f'{nm} == not {t.name}.{i}(prefix)',
                     lambda v, key=key, kt=kt, comp=comp:
                     v.eng.box(v.st, v.val(key), kt) == z3.Not(comp(v)))
      if t.monoid is None:
        continue
      m = t.monoid
      if m.name == 'and':
        yield f'{t.name}.out(prefix)', ov
      for key, kt in L.mods.items():
        nm = L.name(key)
        if kt[0] == 'list':
          et = kt[1]
          if m.t == SEQ(et):
            yield (f'{nm} == entry ++ {t.name}.out(prefix)',
                   lambda v, key=key, et=et, ov=ov, m=m:
                   cast(v.contents(key), et).term() == m.op(
                       cast(v.ent_contents(key), et).term(), ov(v)))
          for h in eng.homs:
            if h.et == et and h.monoid is m:
              yield (f'{h.name}({nm}) == entry * {t.name}.out(prefix)',
                     lambda v, key=key, et=et, ov=ov, m=m, h=h:
                     h.of(cast(v.contents(key), et)) == m.op(
                         h.of(cast(v.ent_contents(key), et)), ov(v)))
        elif kt == m.t and key[0] == 'cell':
          yield (f'{nm} == entry * {t.name}.out(prefix)',
                 lambda v, key=key, ov=ov, m=m:
                 v.val(key).e == m.op(v.ent(key).e, ov(v)))


def cast(c, et):
  if c.et is None:
    return Contents(et, [])
  return c


# ----------------------------------------------------------------- builtins
def to_list(eng, st, v, node):
  """[(state, VList/VTup)] for list(v)-like conversion."""
  if isinstance(v, (VTup,)):
    return [(st, v)]
  if isinstance(v, VList):
    return [(st, v)]
  if isinstance(v, VPy) and isinstance(v.o, (tuple, list)):
    return [(st, VTup([eng.lift(i) for i in v.o]))]
  if isinstance(v, VIter):
    if v.kind == 'reversed':
      out = []
      for s, l in to_list(eng, st, v.args[0], node):
        out.append((s, None) if s.exc else (s, eng.reverse(s, l)))
      return out
    if v.kind == 'map':
      # [f(x) for x in s]
      f, it = v.args
      env = Env(pytypes.SimpleNamespace(__dict__={}))
      env = Env(eng.cur_module() if hasattr(eng, 'cur_module') else
                pytypes.ModuleType('m'))
      st.cells[env.declare('$f')] = f
      st.cells[env.declare('$it')] = it
      e = ast.parse('[_f(_x) for _x in _it]', mode='eval').body
      class R(ast.NodeTransformer):
        def visit_Name(self, n):
          n.id = {'_f': '$f', '_it': '$it'}.get(n.id, n.id)
          return n
      e = R().visit(e)
      return eng.comp(e, st, env)
    # generic: run as a loop
    env = Env(pytypes.ModuleType('m'))
    st.cells[env.declare('$it')] = v
    e = ast.parse('[_x for _x in _it]', mode='eval').body
    e.generators[0].iter.id = '$it'
    return eng.comp(e, st, env)
  if isinstance(v, V) and v.t == STR:
    env = Env(pytypes.ModuleType('m'))
    st.cells[env.declare('$it')] = v
    e = ast.parse('[_x for _x in _it]', mode='eval').body
    e.generators[0].iter.id = '$it'
    return eng.comp(e, st, env)
  raise Unsupported(f'list({v})')


def b_len(eng, st, args, kw, node):
  v = args[0]
  if isinstance(v, VList):
    return [(st, V(INT, z3.simplify(st.lists[v.ref].length())))]
  if isinstance(v, VTup):
    return [(st, V(INT, z3.IntVal(len(v.items))))]
  if isinstance(v, V) and v.t == STR:
    return [(st, V(INT, z3.Length(v.e)))]
  if isinstance(v, VDict):
    return [(st, V(INT, st.dicts[v.ref]['size']))]
  if isinstance(v, VPy) and hasattr(v.o, '__len__'):
    return [(st, V(INT, z3.IntVal(len(v.o))))]
  if isinstance(v, (V, VInst)):
    return eng.call_method(st, v, '__len__', [], {}, node, None)
  raise Unsupported(f'len of {v}')


def b_type(eng, st, args, kw, node):
  v, = args
  if isinstance(v, V):
    py = {'int': int, 'str': str, 'bool': bool, 'real': float}.get(v.t[0])
    py = v.t[1] if v.t[0] == 'enum' else py
    if py is not None:
      return [(st, VPy(py))]
  raise Unsupported('type')


def b_isinstance(eng, st, args, kw, node):
  v, c = args
  classes = []

  def flat(x):
    if isinstance(x, VPy):
      if isinstance(x.o, tuple):
        classes.extend(x.o)
      else:
        classes.append(x.o)
    elif isinstance(x, VTup):
      for i in x.items:
        flat(i)
    else:
      raise Unsupported('isinstance class')
  flat(c)
  if isinstance(v, V) and v.t[0] == 'obj':
    d = CLASSES[v.t[1]]
    ks = [k for cls, k in d.tags.items()
          if any(isinstance(x, type) and issubclass(cls, x) for x in classes)]
    if len(ks) == len(d.tags):
      return [(st, V(BOOL, z3.BoolVal(True)))]
    if not ks:
      return [(st, V(BOOL, z3.BoolVal(False)))]
    return [(st, V(BOOL, z3.Or(*[d.tag(v.e) == k for k in ks])))]
  py = None
  if isinstance(v, VList):
    py = tuple if getattr(v, 'is_tuple', False) else list
  elif isinstance(v, VTup):
    py = v.cls or tuple
  elif isinstance(v, VNone):
    py = type(None)
  elif isinstance(v, VDict):
    py = dict
  elif isinstance(v, V):
    py = {'int': int, 'str': str, 'bool': bool, 'real': float}.get(v.t[0])
    if v.t[0] == 'enum':
      py = v.t[1]
    if v.t == ANY:
      f = [z3.Function('isinst_' + getattr(x, '__name__', str(x)),
                       sort_of(ANY), z3.BoolSort())(v.e) for x in classes]
      return [(st, V(BOOL, z3.Or(*f)))]
  elif isinstance(v, VInst):
    py = v.cls
  elif isinstance(v, VPy):
    return [(st, V(BOOL, z3.BoolVal(isinstance(v.o, tuple(classes)))))]
  if py is None:
    raise Unsupported('isinstance')
  return [(st, V(BOOL, z3.BoolVal(
      any(isinstance(x, type) and issubclass(py, x) for x in classes))))]


def b_list(eng, st, args, kw, node):
  if not args:
    return [(st, eng.new_list(st, Contents(None, [])))]
  return [(s, l if s.exc else eng.new_list(s, eng.contents(s, l)))
          for s, l in to_list(eng, st, args[0], node)]


def b_tuple(eng, st, args, kw, node):
  if not args:
    return [(st, VTup([]))]
  if isinstance(args[0], VTup):
    return [(st, args[0])]
  out = []
  for s, l in to_list(eng, st, args[0], node):
    if s.exc:
      out.append((s, None))
      continue
    c = eng.contents(s, l)
    if c.concrete_len() is not None:
      out.append((s, VTup(eng.explode(s, eng.new_list(s, c)))))
    else:
      out.append((s, eng.new_list(s, c, frozen=True)))
  return out


def _minmax(which):
  def b(eng, st, args, kw, node):
    if 'key' in kw:
      raise Unsupported('min/max key')
    if len(args) == 1:
      v = args[0]
      items = None
      try:
        items = eng.explode(st, v)
      except Unsupported:
        pass
      if items is None:
        out = []
        for s, l in to_list(eng, st, v, node):
          if s.exc:
            out.append((s, None))
            continue
          c = eng.contents(s, l)
          if c.et not in (INT, REAL):
            raise Unsupported('max of sequence')
          if 'default' in kw:
            raise Unsupported('max default')
          for s2 in eng.guard(s, c.length() > 0, 'ValueError', node):
            if s2.exc:
              out.append((s2, None))
              continue
            f = z3.Function(which + '_seq' + c.et[0], c.term().sort(),
                            sort_of(c.et))
            out.append((s2, V(c.et, f(c.term()))))
        return out
      args = items
      if not items:
        if 'default' in kw:
          return [(st, kw['default'])]
        return [(eng.throw(st, 'ValueError', node), None)]
    r = args[0]
    for x in args[1:]:
      r = eng.minmax2(st, which, r, x)
    return [(st, r)]
  return b


def _minmax2(eng, st, which, a, b):
  na, nb = eng.num(a), eng.num(b)
  if na is None or nb is None:
    raise Unsupported('min/max operands')
  ea, eb = na.e, nb.e
  t = INT
  if REAL in (na.t, nb.t):
    t = REAL
    ea = z3.ToReal(ea) if na.t != REAL else ea
    eb = z3.ToReal(eb) if nb.t != REAL else eb
  # Python: max(a, b) returns b only if b > a; values are equal otherwise
  return V(t, z3.simplify(zmax(ea, eb) if which == 'max' else zmin(ea, eb)))


Engine.minmax2 = _minmax2


def b_sum(eng, st, args, kw, node):
  out = []
  for s, l in to_list(eng, st, args[0], node):
    if s.exc:
      out.append((s, None))
      continue
    c = eng.contents(s, l)
    if c.et is None:
      out.append((s, V(INT, z3.IntVal(0))))
      continue
    name = {'int': 'sum', 'bool': 'countT', 'real': 'rsumh'}.get(c.et[0])
    if name is None or name not in [h.name for h in eng.homs]:
      raise Unsupported('sum not in vocabulary')
    out.append((s, V(REAL if c.et == REAL else INT, Hom.ALL[name].of(c))))
  return out


def _allany(which):
  def b(eng, st, args, kw, node):
    out = []
    for s, l in to_list(eng, st, args[0], node):
      if s.exc:
        out.append((s, None))
        continue
      c = eng.contents(s, l)
      if c.et is None:
        out.append((s, V(BOOL, z3.BoolVal(which == 'all'))))
        continue
      if c.et != BOOL or which not in [h.name for h in eng.homs]:
        raise Unsupported(which)
      out.append((s, V(BOOL, Hom.ALL[which].of(c))))
    return out
  return b


def b_replace(eng, st, args, kw, node):
  v = args[0]
  if not (isinstance(v, V) and v.t[0] == 'obj'):
    if isinstance(v, VInst) and dataclasses.is_dataclass(v.cls):
      ref = next(core._counter)
      st.insts[ref] = {**st.insts[v.ref], **kw}
      return [(st, VInst(v.cls, ref))]
    raise Unsupported('dataclasses.replace')
  d = CLASSES[v.t[1]]
  out = []
  for cls, fs in d.members.items():
    if not set(kw) <= set(fs):
      s = st.with_(d.tag(v.e) == d.tags[cls]) if d.kind == 'union' else st
      if d.kind == 'union' and eng.feasible(s):
        out.append((eng.throw(s, 'TypeError', node), None))
      continue
    s = st.with_(d.tag(v.e) == d.tags[cls]) if d.kind == 'union' else st
    if d.kind == 'union' and not eng.feasible(s):
      continue
    vals = {}
    for f, t in fs.items():
      if f in kw:
        vals[f] = kw[f]
      else:
        r = eng.unbox(s, d.acc(f)(v.e), t)
        if len(r) != 1:
          raise Unsupported('replace optional')
        s, vals[f] = r[0]
    out += eng.construct(s, cls, [], vals, node)
  return out


def b_range(eng, st, args, kw, node):
  return [(st, VIter('range', args))]


def b_enumerate(eng, st, args, kw, node):
  start = args[1] if len(args) > 1 else kw.get('start', V(INT, z3.IntVal(0)))
  return [(st, VIter('enumerate', [args[0], start]))]


def b_zip(eng, st, args, kw, node):
  return [(st, VIter('zip', args))]


def b_reversed(eng, st, args, kw, node):
  return [(st, VIter('reversed', args))]


def b_map(eng, st, args, kw, node):
  return [(st, VIter('map', args))]


def b_partial(eng, st, args, kw, node):
  return [(st, VPartial(args[0], list(args[1:]), kw))]


def b_str(eng, st, args, kw, node):
  if not args:
    return [(st, V(STR, z3.StringVal('')))]
  return [(st, V(STR, eng.str_of(st, args[0])))]


def b_repr(eng, st, args, kw, node):
  v = args[0]
  try:
    e = eng.box(st, v)
  except Unsupported:      # some text
    return [(st, V(STR, fresh(STR, 'repr')))]
  f = z3.Function('repr_' + str(e.sort()).replace(' ', ''), e.sort(),
                  z3.StringSort())
  return [(st, V(STR, f(e)))]


def b_abs(eng, st, args, kw, node):
  v = args[0]
  return [(st, V(v.t, z3.If(v.e >= 0, v.e, -v.e)))]


def b_bool(eng, st, args, kw, node):
  return [(st, V(BOOL, eng.truth(st, args[0])))]


def b_int(eng, st, args, kw, node):
  v = args[0]
  if isinstance(v, V) and v.t[0] in ('int', 'enum'):
    return [(st, V(INT, v.e))]
  if isinstance(v, V) and v.t == BOOL:
    return [(st, V(INT, z3.If(v.e, 1, 0)))]
  raise Unsupported('int()')


def b_dict(eng, st, args, kw, node):
  ref = next(core._counter)
  st.dicts[ref] = dict(kt=None, vt=None, size=z3.IntVal(0), dom=None,
                       val=None)
  d = VDict(ref)
  if args:
    a = args[0]
    items = eng.static_items(st, a) if isinstance(a, VIter) else None
    if items is None and isinstance(a, VIter) and a.kind == 'zip' and len(
        a.args) == 2 and all(isinstance(x, VList) for x in a.args):
      return dict_zip(eng, st, d, *[eng.contents(st, x) for x in a.args])
    if items is None:
      raise Unsupported('dict()')
    for i in items:
      eng.dict_set(st, d, i.items[0], i.items[1])
  return [(st, d)]


def dict_zip(eng, st, d, ks, vs):
  """dict(zip(keys, values)), for as many values as keys."""
  if ks.et is None or vs.et is None:
    raise Unsupported('dict(zip())')
  if valid(st.pc, ks.length() == vs.length(), eng.timeout) != 'proved':
    raise Unsupported('dict(zip()) of different lengths')
  dom, val = zip_dict(ks.et, vs.et, ks.term(), vs.term())
  n = z3.Int(fresh_name('sz'))
  st.assume(n >= 0, n <= ks.length())
  st.dicts[d.ref] = dict(kt=ks.et, vt=vs.et, size=n, dom=dom, val=val)
  return [(st, d)]


def zip_dict(kt, vt, ks, vs):
  """(domain, map) of dict(zip(ks, vs)): a function of both sequences."""
  k = z3.Const('k', sort_of(kt))
  f = z3.Function(f'zip_{kt}_{vt}', ks.sort(), vs.sort(),
                  z3.ArraySort(sort_of(kt), sort_of(vt)))
  return z3.Lambda([k], z3.Contains(ks, z3.Unit(k))), f(ks, vs)


def b_set(eng, st, args, kw, node):
  if args:
    raise Unsupported('set(iterable)')
  return b_dict(eng, st, [], {}, node)


def b_type(eng, st, args, kw, node):
  v = args[0]
  if isinstance(v, V) and v.t == STR:
    return [(st, VPy(str))]
  if isinstance(v, V) and v.t == INT:
    return [(st, VPy(int))]
  if isinstance(v, V) and v.t[0] == 'enum':
    return [(st, VPy(v.t[1]))]
  raise Unsupported('type()')


BUILTINS = {
    len: b_len, isinstance: b_isinstance, type: b_type, list: b_list, tuple: b_tuple,
    max: _minmax('max'), min: _minmax('min'), sum: b_sum,
    all: _allany('all'), any: _allany('any'), range: b_range,
    enumerate: b_enumerate, zip: b_zip, reversed: b_reversed, map: b_map,
    functools.partial: b_partial, dataclasses.replace: b_replace,
    str: b_str, repr: b_repr, abs: b_abs, bool: b_bool, int: b_int,
    dict: b_dict, set: b_set, type: b_type,
}
