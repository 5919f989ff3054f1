"""pyvc core: types, SMT sorts, symbolic values, states and spec functions.

pyvc is a small deductive verifier for a subset of Python.  It reads the real
functions of /repo (ast of the current source, on every run), executes them
symbolically against sidecar contracts and discharges every generated
obligation with z3.  Nothing is unrolled: loops are handled with inductive
invariants (inferred by a Houdini fix-point from templates over the contract
vocabulary), calls to functions that have a contract are replaced by it.
"""
from __future__ import annotations

import itertools
import time
import z3

z3.set_param('model.compact', False)


class Unsupported(Exception):
  """The source uses something outside pyvc's subset."""


# --------------------------------------------------------------- types
INT, BOOL, REAL, STR, NONE, ANY = (
    ('int',), ('bool',), ('real',), ('str',), ('none',), ('any',))


def LIST(t): return ('list', t)
def SEQ(t): return ('seq', t)
def TUP(*ts): return ('tup',) + tuple(ts)
def NT(cls, *ts): return ('nt', cls) + tuple(ts)   # NamedTuple
def ONEOF(*ts):
  return ('oneof',) + ts


def OPT(t): return ('opt', t)
def OBJ(name): return ('obj', name)
def ENUM(cls): return ('enum', cls)
def DICT(k, v): return ('dict', k, v)
def SET(k): return ('set', k)
def FUN(*ts): return ('fun',) + tuple(ts)   # argument types..., result type


_sorts = {}
_counter = itertools.count()


def fresh_name(p='x'):
  return f'{p}!{next(_counter)}'


class ClassDecl:
  """How a family of Python classes is modelled.

  kind 'union': immutable objects, tag function + field functions.
  kind 'record': immutable record, z3 tuple datatype (structural equality).
  kind 'ref': mutable objects, one heap array per field.
  """

  def __init__(self, name, kind, members, opaque_eq=True):
    self.name, self.kind = name, kind
    self.members = members            # {pyclass: {field: type}}
    self.opaque_eq = opaque_eq
    self.eq = None                    # relation that stands for ==
    self.tags = {c: i for i, c in enumerate(members)}
    self.fields = {}
    for fs in members.values():
      for f, t in fs.items():
        self.fields.setdefault(f, t)
        if self.fields[f] != t:
          raise ValueError('field type clash')
    self._acc = {}
    self._ready = False

  def sort(self):
    self.prepare()
    return self._sort

  def prepare(self):
    if self._ready:
      return
    self._ready = True
    if self.kind == 'record':
      (cls, fs), = self.members.items()
      d = z3.Datatype('R_' + self.name)
      d.declare('mk_' + self.name,
                *[(f'{self.name}_{f}', sort_of(t)) for f, t in fs.items()])
      self._sort = d.create()
      self.ctor = self._sort.constructor(0)
      for i, f in enumerate(fs):
        self._acc[f] = self._sort.accessor(0, i)
    else:
      self._sort = z3.DeclareSort('O_' + self.name)
      self.tag = z3.Function('tag_' + self.name, self._sort, z3.IntSort())
      if self.kind == 'union':
        for f, t in self.fields.items():
          self._acc[f] = z3.Function(
              f'{self.name}.{f}', self._sort, sort_of(t))

  def acc(self, f):
    self.prepare()
    return self._acc[f]


CLASSES = {}          # name -> ClassDecl
CLASS_OF = {}         # pyclass -> ClassDecl


def declare_class(decl):
  CLASSES[decl.name] = decl
  for c in decl.members:
    CLASS_OF[c] = decl
  return decl


def _tuple_sort(ts):
  fs = [(f'f{i}', sort_of(t)) for i, t in enumerate(ts)]   # may add sorts
  d = z3.Datatype('T' + str(len(_sorts)))
  d.declare('mk', *fs)
  return d.create()


def sort_of(t):
  if t is None:
    raise Unsupported('list with unknown element type')
  if t in _sorts:
    return _sorts[t]
  k = t[0]
  if k in ('int', 'enum'):
    s = z3.IntSort()
  elif k == 'bool':
    s = z3.BoolSort()
  elif k == 'real':
    s = z3.RealSort()
  elif k == 'str':
    s = z3.StringSort()
  elif k == 'any':
    s = z3.DeclareSort('U')
  elif k == 'none':
    s = z3.BoolSort()
  elif k in ('list', 'seq'):
    s = z3.SeqSort(sort_of(t[1]))
  elif k == 'obj':
    s = CLASSES[t[1]].sort()
  elif k == 'tup':
    s = _tuple_sort(t[1:])
  elif k == 'nt':
    s = sort_of(TUP(*t[2:]))
  elif k == 'opt':
    val = sort_of(t[1])
    d = z3.Datatype('Opt' + str(len(_sorts)))
    d.declare('none')
    d.declare('some', ('val', val))
    s = d.create()
  elif k == 'set':
    s = z3.ArraySort(sort_of(t[1]), z3.BoolSort())
  elif k in ('fun',):
    s = z3.DeclareSort('F')
  else:
    raise Unsupported(f'no sort for type {t}')
  _sorts[t] = s
  return s


def fresh(t, p='x'):
  return z3.Const(fresh_name(p), sort_of(t))


# --------------------------------------------------------------- values
class V:
  """Scalar symbolic value of type t (int, bool, real, str, enum, any, obj)."""
  __slots__ = ('t', 'e')

  def __init__(self, t, e):
    self.t, self.e = t, e

  def __repr__(self):
    return f'V({self.t[0]}:{self.e})'


class VNone:
  t = NONE

  def __repr__(self):
    return 'None'


NONEV = VNone()


class VTup:
  cls = None       # NamedTuple class, if any

  def __init__(self, items, cls=None):
    self.items = list(items)
    if cls is not None:
      self.cls = cls

  @property
  def t(self):
    if self.cls is not None:
      return NT(self.cls, *[i.t for i in self.items])
    return TUP(*[i.t for i in self.items])

  def __repr__(self):
    return f'VTup{self.items}'


class VList:
  """Python list (mutable, by reference) or symbolic immutable sequence."""
  __slots__ = ('ref', 'frozen', 'place')

  def __init__(self, ref, frozen=False, place=None):
    self.ref, self.frozen, self.place = ref, frozen, place

  def __repr__(self):
    return f'VList#{self.ref}'


class VDict:
  __slots__ = ('ref',)

  def __init__(self, ref):
    self.ref = ref


class VIter:
  """An iterable that is consumed by a loop: kind + operands."""

  def __init__(self, kind, args):
    self.kind, self.args = kind, args


class VPy:
  """A concrete Python object (module, class, function, constant...)."""
  __slots__ = ('o',)

  def __init__(self, o):
    self.o = o

  def __repr__(self):
    return f'VPy({self.o!r:.40})'


class VClosure:
  def __init__(self, node, env, module, name, owner=None):
    self.node, self.env, self.module, self.name = node, env, module, name
    self.owner = owner


class VBound:
  def __init__(self, recv, name):
    self.recv, self.name = recv, name


class VInst:
  """Instance of a repo class with concretely known identity."""

  def __init__(self, cls, ref):
    self.cls, self.ref = cls, ref


class VFun:
  """Uninterpreted (pure) function parameter."""

  def __init__(self, fn, arg_ts, res_t):
    self.fn, self.arg_ts, self.res_t = fn, arg_ts, res_t


class VPartial:
  def __init__(self, fn, args, kwargs):
    self.fn, self.args, self.kwargs = fn, args, kwargs


# --------------------------------------------------------------- contents
class Unit:
  __slots__ = ('x',)

  def __init__(self, x):
    self.x = x       # z3 term of the element sort


class Seg:
  __slots__ = ('s',)

  def __init__(self, s):
    self.s = s       # z3 term of the Seq sort


class Contents:
  """Contents of a list: element type + concatenation of units/segments."""
  __slots__ = ('et', 'segs')

  def __init__(self, et, segs):
    self.et, self.segs = et, tuple(segs)

  def length(self):
    n = 0
    e = []
    for s in self.segs:
      if isinstance(s, Unit):
        n += 1
      else:
        e.append(z3.Length(s.s))
    r = z3.IntVal(n)
    for x in e:
      r = x if (z3.is_int_value(r) and r.as_long() == 0) else r + x
    return r

  def concrete_len(self):
    if all(isinstance(s, Unit) for s in self.segs):
      return len(self.segs)
    return None

  def term(self):
    if self.et is None:
      raise Unsupported('list with unknown element type')
    if self.et == CHAR:
      return M_STR.fold([s.x if isinstance(s, Unit) else s.s
                         for s in self.segs])
    so = z3.SeqSort(sort_of(self.et))
    parts = [z3.Unit(s.x) if isinstance(s, Unit) else s.s for s in self.segs]
    if not parts:
      return z3.Empty(so)
    if len(parts) == 1:
      return parts[0]
    return z3.Concat(*parts)

  def plus(self, other):
    et = self.et if self.et is not None else other.et
    if other.et is not None and et != other.et:
      raise Unsupported(f'heterogeneous list {et} / {other.et}')
    return Contents(et, self.segs + other.segs)

  def same(self, other):
    if self is other:
      return True
    if len(self.segs) != len(other.segs) or self.et != other.et:
      return False
    for a, b in zip(self.segs, other.segs):
      if type(a) is not type(b):
        return False
      if isinstance(a, Unit):
        if not a.x.eq(b.x):
          return False
      elif not a.s.eq(b.s):
        return False
    return True


# --------------------------------------------------------------- monoids
def _concat(a, b):
  if z3.is_string_value(a) and a.as_string() == '':
    return b
  if z3.is_string_value(b) and b.as_string() == '':
    return a
  return z3.Concat(a, b)


def zmax(a, b):
  return z3.If(a >= b, a, b)


def zmin(a, b):
  return z3.If(a <= b, a, b)


class Monoid:
  def __init__(self, name, t, unit, op, commutative=False):
    self.name, self.t, self._unit, self.op = name, t, unit, op
    self.commutative = commutative

  @property
  def unit(self):
    return self._unit()

  def fold(self, xs):
    r = None
    for x in xs:
      r = x if r is None else self.op(r, x)
    return self.unit if r is None else r


M_STR = Monoid('str', STR, lambda: z3.StringVal(''), _concat)
M_SUM = Monoid('sum', INT, lambda: z3.IntVal(0), lambda a, b: a + b, True)
M_RSUM = Monoid('rsum', REAL, lambda: z3.RealVal(0), lambda a, b: a + b, True)
M_MAX0 = Monoid('max0', INT, lambda: z3.IntVal(0), zmax, True)
M_AND = Monoid('and', BOOL, lambda: z3.BoolVal(True),
               lambda a, b: z3.And(a, b), True)
M_OR = Monoid('or', BOOL, lambda: z3.BoolVal(False),
              lambda a, b: z3.Or(a, b), True)
_seq_monoids = {}


def M_SEQ(t):
  if t not in _seq_monoids:
    so = z3.SeqSort(sort_of(t))

    def op(a, b):
      if a.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
        return b
      if b.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
        return a
      return z3.Concat(a, b)
    _seq_monoids[t] = Monoid(f'seq{len(_seq_monoids)}', SEQ(t),
                             lambda: z3.Empty(so), op)
  return _seq_monoids[t]


_rev_monoids = {}


def M_REV(t):
  """Sequences with flipped concatenation: x -> [x] reverses."""
  if t not in _rev_monoids:
    m = M_SEQ(t)
    _rev_monoids[t] = Monoid('rev' + m.name, SEQ(t), lambda: m.unit,
                             lambda a, b: m.op(b, a))
  return _rev_monoids[t]


class Hom:
  """Spec function on sequences: a monoid homomorphism h(a++b)=h(a)*h(b).

  node_def(x) gives h([x]); it may refer to other homs (mutual recursion
  through children).  inv(v): optional fact about every value, proved by
  induction when the vocabulary is loaded (see prove_hom_lemmas).
  """
  ALL = {}

  def __init__(self, name, et, monoid, node_def, inv=None, params=(),
               reversible=False, is_reverse=False):
    self.is_reverse = is_reverse
    self.name, self.et, self.monoid = name, et, monoid
    self.node_def, self.inv = node_def, inv
    self.reversible = reversible or monoid.commutative
    self.fn = z3.Function('h_' + name, z3.SeqSort(sort_of(et)),
                          sort_of(monoid.t))
    Hom.ALL[name] = self

  def node(self, x):
    return self.node_def(x)

  def seq(self, s):
    return self.fn(s)

  def of(self, c):
    """Value of the hom on Contents."""
    return self.monoid.fold(
        [self.node(s.x) if isinstance(s, Unit) else self.seq(s.s)
         for s in c.segs])


CHAR = ('char',)     # element type of a string seen as a sequence


def _seq_dom(et):
  return z3.StringSort() if et == CHAR else z3.SeqSort(sort_of(et))


class Trans:
  """Spec function on sequences: a left-to-right state transducer.

  q(a ++ b, s) = q(b, q(a, s));  o(a ++ b, s) = o(a, s) * o(b, q(a, s))
  (right: with a and b exchanged on the right-hand sides).
  step_q(x, s) and step_o(x, s) define both on single elements; they may
  refer to the same functions on the children of x.
  """

  def __init__(self, name, et, qt, step_q, monoid=None, step_o=None,
               right=False):
    self.right = right      # reads from the right: a stack, top first
    self.name, self.et, self.qt, self.monoid = name, et, qt, monoid
    self.step_q, self.step_o = step_q, step_o
    self.fq = z3.Function('q_' + name, _seq_dom(et), sort_of(qt), sort_of(qt))
    if monoid is not None:
      self.fo = z3.Function('o_' + name, _seq_dom(et), sort_of(qt),
                            sort_of(monoid.t))

  def q(self, c, q0):
    q = q0
    for s in c.segs[::-1] if self.right else c.segs:
      q = self.step_q(s.x, q) if isinstance(s, Unit) else self.fq(s.s, q)
    return q

  def o(self, c, q0):
    q, out = q0, []
    for s in c.segs[::-1] if self.right else c.segs:
      if isinstance(s, Unit):
        out.append(self.step_o(s.x, q))
        q = self.step_q(s.x, q)
      else:
        out.append(self.fo(s.s, q))
        q = self.fq(s.s, q)
    return self.monoid.fold(out)

  def comps(self, q):
    """[(type, term)] components of a state."""
    if self.qt[0] in ('tup', 'nt'):
      ts = self.qt[1:] if self.qt[0] == 'tup' else self.qt[2:]
      so = sort_of(self.qt)
      return [(t, so.accessor(0, i)(q)) for i, t in enumerate(ts)]
    return [(self.qt, q)]


class Lemma:
  """A fact about all sequences, proved by induction before it is used.

  phi(L, q): L(h) is the value of hom h on the sequence, L.q(T, q) / L.o(T, q)
  those of transducer T from state q, L.n the length.  qt: type of q, or None.
  kids: (guard(x), children(x)) for tree recursion.
  """

  def __init__(self, name, et, phi, qt=None, kids=None, uses=(), ih=None,
               hints=None, split=None, later=None, auto=True):
    self.auto = auto        # instantiate for every sequence in sight
    self.later = later      # transducer: also used where a loop is left early
    self.split = split      # split(L, x, q): conditions for a case split
    self.name, self.et, self.phi, self.qt, self.kids = name, et, phi, qt, kids
    self.uses = uses
    # ih(L, x, q): states at which the induction hypothesis is used (default q);
    # hints(L, x, q): instances of hom and transducer laws (built with the
    # functions below only); x is None in the base case
    self.ih, self.hints = ih, hints

  def at(self, c, q=None):
    """Instance for Contents c."""
    return self.phi(LemmaView(c), q)


def hom_split(h, whole, *parts):
  """A valid instance of the homomorphism law."""
  return z3.Implies(whole == z3.Concat(*parts), h.seq(whole) ==
                    h.monoid.fold([h.seq(p) for p in parts]))


def hom_snoc(h, whole, init, x):
  return z3.Implies(whole == z3.Concat(init, z3.Unit(x)), h.seq(whole) ==
                    h.monoid.op(h.seq(init), h.node(x)))


def trans_cons(t, whole, x, rest, q):
  """A valid instance of the transducer law (state part)."""
  return z3.Implies(whole == z3.Concat(z3.Unit(x), rest),
                    t.fq(whole, q) == t.fq(rest, t.step_q(x, q)))


def trans_snoc(t, whole, init, x, q):
  """... for an element at the end."""
  r = (t.fq(init, t.step_q(x, q)) if t.right else
       t.step_q(x, t.fq(init, q)))
  return z3.Implies(whole == z3.Concat(init, z3.Unit(x)),
                    t.fq(whole, q) == r)


def trans_empty(t, s, q):
  return z3.Implies(z3.Length(s) == 0, t.fq(s, q) == q)


def hom_empty(h, s):
  return z3.Implies(z3.Length(s) == 0, h.seq(s) == h.monoid.unit)


class LemmaView:
  def __init__(self, c):
    self.c = c

  def __call__(self, h):
    return h.of(self.c)

  def q(self, t, q):
    return t.q(self.c, q)

  def o(self, t, q):
    return t.o(self.c, q)

  @property
  def n(self):
    return self.c.length()

  @property
  def term(self):
    return self.c.term()


# --------------------------------------------------------------- state
class State:
  __slots__ = ('cells', 'lists', 'dicts', 'heap', 'insts', 'pc', 'exc',
               'ghost', 'trace')

  def __init__(self):
    self.cells, self.lists, self.dicts = {}, {}, {}
    self.heap, self.insts = {}, {}
    self.pc = []
    self.exc = None
    self.ghost = {}
    self.trace = ()

  def fork(self):
    s = State.__new__(State)
    s.cells, s.lists = dict(self.cells), dict(self.lists)
    s.dicts, s.heap = dict(self.dicts), dict(self.heap)
    s.insts = {k: dict(v) for k, v in self.insts.items()}
    s.pc, s.exc = list(self.pc), self.exc
    s.ghost = dict(self.ghost)
    s.trace = self.trace
    return s

  def assume(self, *fs):
    for f in fs:
      if isinstance(f, bool):
        f = z3.BoolVal(f)
      if z3.is_and(f):
        self.pc.extend(f.children())
      else:
        self.pc.append(f)
    return self

  def with_(self, *fs):
    return self.fork().assume(*fs)


# --------------------------------------------------------------- solver
class SolverStats:
  def __init__(self):
    self.queries = 0
    self.time = 0.0
    self.unknown = 0
    self.abstract = 0


STATS = SolverStats()
RLIMIT_PER_MS = 2500


def subterms(t):
  todo, seen = [t], set()
  while todo:
    x = todo.pop()
    if x.get_id() not in seen:
      seen.add(x.get_id())
      yield x
      todo.extend(x.children())


class Abstraction:
  """Sequence operations as uninterpreted functions.

  A formula that is unsatisfiable with the operations uninterpreted (and a few
  of their laws instantiated on the terms that occur) is unsatisfiable.  Most
  obligations need no more than that, and z3 decides them much faster.
  """
  KEEP = {z3.Z3_OP_SEQ_EMPTY}

  def __init__(self):
    self.memo, self.fns, self.alive = {}, {}, []

  def fn(self, name, *sorts):
    k = (name,) + tuple(s.sexpr() for s in sorts)
    if k not in self.fns:
      self.fns[k] = z3.Function('abs_' + '_'.join(k), *sorts)
    return self.fns[k]

  def length(self, t):
    return self.fn('len', t.sort(), z3.IntSort())(t)

  def parts(self, t):
    """Operands of a (nested) concatenation, without empty ones."""
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
      return [p for a in t.children() for p in self.parts(a)]
    if t.decl().kind() == z3.Z3_OP_SEQ_EMPTY or (
        z3.is_string_value(t) and t.as_string() == ''):
      return []
    return [t]

  def of(self, t):
    """(abstract term, laws of the terms in it)."""
    todo = [t]
    while todo:
      x = todo[-1]
      if x.get_id() in self.memo:
        todo.pop()
        continue
      if not z3.is_app(x):
        raise Unsupported('quantifier')
      kids = self.parts(x) if (
          x.decl().kind() == z3.Z3_OP_SEQ_CONCAT) else x.children()
      new = [k for k in kids if k.get_id() not in self.memo]
      if new:
        todo += new
        continue
      todo.pop()
      self.alive.append(x)
      self.memo[x.get_id()] = self.make(x, [self.memo[k.get_id()][0]
                                            for k in kids], kids)
    return self.memo[t.get_id()]

  def make(self, x, ks, kids):
    laws = frozenset()
    for k in kids:
      laws |= self.memo[k.get_id()][1]
    d, kind = x.decl(), x.decl().kind()
    mine = []
    if z3.is_string_value(x) or kind in self.KEEP:
      mine.append(self.length(x) == (
          len(x.as_string()) if z3.is_string_value(x) else 0))
      if z3.is_string_value(x) and '\\' in x.as_string():
        mine = [self.length(x) == z3.simplify(z3.Length(x))]
      return x, laws | self.keep(mine)
    if kind == z3.Z3_OP_SEQ_CONCAT:
      if not ks:
        r = z3.Empty(x.sort())
        return r, laws | self.keep([self.length(r) == 0])
      f = self.fn('cat', x.sort(), x.sort(), x.sort())
      r = ks[-1]
      for k in ks[-2::-1]:
        n = f(k, r)
        mine.append(self.length(n) == self.length(k) + self.length(r))
        laws |= {('cat', n.get_id())}
        self.memo[('cat', n.get_id())] = (n, k, r)
        r = n
      return r, laws | self.keep(mine)
    if kind == z3.Z3_OP_SEQ_UNIT:
      r = self.fn('unit', ks[0].sort(), x.sort())(ks[0])
      mine = [self.length(r) == 1, self.fn(
          'elem', x.sort(), ks[0].sort())(r) == ks[0]]
    elif kind == z3.Z3_OP_SEQ_LENGTH:
      r = self.length(ks[0])
    elif d.name().startswith(('seq.', 'str.')) or kind in (
        z3.Z3_OP_SEQ_NTH, z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_CONTAINS,
        z3.Z3_OP_SEQ_AT, z3.Z3_OP_SEQ_INDEX, z3.Z3_OP_SEQ_PREFIX,
        z3.Z3_OP_SEQ_SUFFIX):
      r = self.fn(d.name().replace('str.', 'seq.'), *[
          k.sort() for k in ks], x.sort())(*ks)
      if kind == z3.Z3_OP_SEQ_NTH:
        laws |= {('nth', r.get_id())}
        self.memo[('nth', r.get_id())] = (r, ks[0], ks[1])
      if kind == z3.Z3_OP_SEQ_EXTRACT:
        laws |= {('ext', r.get_id())}
        self.memo[('ext', r.get_id())] = (r, *ks)
      if kind == z3.Z3_OP_SEQ_INDEX and z3.is_int_value(ks[2]) and (
          ks[2].as_long() == 0):
        has = self.fn('seq.contains', ks[0].sort(), ks[1].sort(),
                      z3.BoolSort())(ks[0], ks[1])
        mine = [r >= -1, (r >= 0) == has, z3.Implies(
            r >= 0, r + self.length(ks[1]) <= self.length(ks[0]))]
      if kind == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(ks[1]) and (
          ks[1].as_long() == 0):
        laws |= {('pre', r.get_id())}
        self.memo[('pre', r.get_id())] = (r, ks[0], ks[2])
    elif ks:
      r = self.rebuild(x, d, kind, ks)
    else:
      r = x
    if z3.is_seq(r):
      mine.append(self.length(r) >= 0)
      mine.append((self.length(r) == 0) == (r == z3.Empty(r.sort())))
    return r, laws | self.keep(mine)

  def keep(self, fs):
    self.alive += fs
    for f in fs:
      self.memo.setdefault(('law', f.get_id()), f)
    return frozenset(f.get_id() for f in fs)

  @staticmethod
  def rebuild(x, d, kind, ks):
    if kind == z3.Z3_OP_AND:
      return z3.And(*ks)
    if kind == z3.Z3_OP_OR:
      return z3.Or(*ks)
    if kind == z3.Z3_OP_ADD:
      return z3.Sum(*ks)
    if kind == z3.Z3_OP_DISTINCT:
      return z3.Distinct(*ks)
    if kind in (z3.Z3_OP_MUL, z3.Z3_OP_SUB) and len(ks) != 2:
      r = ks[0]
      for k in ks[1:]:
        r = r * k if kind == z3.Z3_OP_MUL else r - k
      return r
    return d(*ks)

  def unfold(self, c):
    if ('cat', c.get_id()) not in self.memo:
      return [c]
    _, a, b = self.memo[('cat', c.get_id())]
    return [a] + self.unfold(b)

  def splits(self, laws, nths, limit=150):
    """Elements and prefixes of concatenations."""
    cats = [self.memo[l] for l in laws if isinstance(l, tuple) and
            l[0] == 'cat']
    pres = [self.memo[l] for l in laws if isinstance(l, tuple) and
            l[0] == 'pre']
    fs = []
    for r, v, n in pres:
      k = self.length(r)
      fs += [z3.Implies(z3.And(0 <= n, n <= self.length(v)), k == n)]
    exts = [self.memo[l] for l in laws if isinstance(l, tuple) and
            l[0] == 'ext']
    for r, v, o, n in exts:
      fs.append(z3.Implies(z3.And(0 <= o, 0 <= n, o + n <= self.length(v)),
                           self.length(r) == n))
      for c, _, _ in cats:
        ps = self.unfold(c)
        if c.sort() != v.sort() or len(ps) > 4:
          continue
        starts = [z3.Sum(z3.IntVal(0), *[self.length(p) for p in ps[:i]])
                  for i in range(len(ps) + 1)]
        for i in range(len(ps)):
          for j in range(i + 1, len(ps) + 1):
            w = ps[j - 1]
            for p in reversed(ps[i:j - 1]):
              w = self.fn('cat', v.sort(), v.sort(), v.sort())(p, w)
            fs.append(z3.Implies(z3.And(v == c, o == starts[i], n == starts[
                j] - starts[i]), z3.And(r == w, self.length(w) == n)))
    for c, a, b in cats:
      la, lc = self.length(a), self.length(c)
      fs += [z3.Implies(la == 0, c == b), z3.Implies(
          self.length(b) == 0, c == a)]
      for r, v, i in nths:
        if v.sort() == c.sort():
          at = self.fn('seq.nth', v.sort(), z3.IntSort(), r.sort())
          fs.append(z3.Implies(v == c, z3.And(
              z3.Implies(z3.And(0 <= i, i < la), r == at(a, i)),
              z3.Implies(z3.And(la <= i, i < lc), r == at(b, i - la)))))
          if b.decl().name().startswith('abs_unit'):
            fs.append(z3.Implies(z3.And(v == c, i == la), r == b.arg(0)))
      for r, v, n in pres:
        if v.sort() == c.sort():
          f = self.fn('cat', v.sort(), v.sort(), v.sort())
          pre = self.fn('seq.extract', v.sort(), z3.IntSort(), z3.IntSort(),
                        v.sort())
          tail = pre(b, z3.IntVal(0), n - la)
          fs.append(z3.Implies(v == c, z3.And(
              z3.Implies(z3.And(0 <= n, n < la),
                         r == pre(a, z3.IntVal(0), n)),
              z3.Implies(n == la, r == a),
              z3.Implies(z3.And(la < n, n <= lc), r == f(a, tail)))))
    return fs if len(fs) <= limit else []

  def join(self, ps):
    """(concatenation, laws) of a list of abstract terms."""
    f = self.fn('cat', *[ps[0].sort()] * 3)
    w, fs = ps[-1], []
    for p in reversed(ps[:-1]):
      n = f(p, w)
      self.alive.append(n)
      self.memo[('cat', n.get_id())] = (n, p, w)
      fs += [self.length(n) == self.length(p) + self.length(w),
             z3.Implies(self.length(p) == 0, n == w),
             z3.Implies(self.length(w) == 0, n == p)]
      w = n
    return w, fs

  def aligned(self, laws, limit=1200):
    """Equal concatenations have equal parts where the lengths agree."""
    cats = {l[1]: self.memo[l][0] for l in laws if isinstance(l, tuple) and
            l[0] == 'cat'}
    tails = {self.memo[('cat', c.get_id())][2].get_id() for c in cats.values()}
    fs, done = [], set()
    todo = [c for c in cats.values() if c.get_id() not in tails]
    for _ in range(2):
      new = {}
      for x, y in itertools.combinations(todo, 2):
        if x.sort() != y.sort() or (x.get_id(), y.get_id()) in done:
          continue
        done.add((x.get_id(), y.get_id()))
        ps, qs = self.unfold(x), self.unfold(y)
        for i in range(1, len(ps)):
          for j in range(1, len(qs)):
            a, b = (z3.Sum(z3.IntVal(0), *[self.length(p) for p in l])
                    for l in (ps[:i], qs[:j]))
            ws = [self.join(l) for l in (ps[:i], qs[:j], ps[i:], qs[j:])]
            fs.append(z3.Implies(z3.And(x == y, a == b), z3.And(
                ws[0][0] == ws[1][0], ws[2][0] == ws[3][0])))
            for w, g in ws:
              fs += g
              if ('cat', w.get_id()) in self.memo:
                new[w.get_id()] = w
        if len(fs) > limit:
          return []
      have = {c.get_id() for c in todo}
      todo += [w for k, w in new.items() if k not in have]
    return fs

  @staticmethod
  def inline(fs):
    """Sequences that are given as concatenations are replaced by them."""
    defs = {}
    for f in fs:
      if not (z3.is_eq(f) and z3.is_seq(f.arg(0))):
        continue
      for v, t in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
        if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and (
            t.decl().kind() == z3.Z3_OP_SEQ_CONCAT and
            v.get_id() not in defs):
          if defs:
            t = z3.substitute(t, *defs.values())
          if any(v.eq(x) for x in subterms(t)):
            continue
          defs = {k: (a, z3.substitute(b, (v, t)))
                  for k, (a, b) in defs.items()}
          defs[v.get_id()] = (v, t)
          break
    if not defs:
      return fs
    return [z3.substitute(f, *defs.values()) for f in fs]

  def unsat(self, fs, timeout_ms):
    if timeout_ms > 100:
      fs = self.inline(fs)
    out, laws = [], frozenset()
    for f in fs:
      t, l = self.of(f)
      out.append(t)
      laws |= l
    s = z3.Solver()
    s.set('rlimit', int(timeout_ms * RLIMIT_PER_MS))
    s.set('timeout', int(timeout_ms * 6))
    s.add(*out)
    nths = [self.memo[l] for l in laws if isinstance(l, tuple) and
            l[0] == 'nth']
    if timeout_ms > 100:
      s.add(*self.splits(laws, nths))
    if timeout_ms > 1000:
      s.add(*self.aligned(laws))
    for f, g in zip(fs, out):
      # element i of a ++ [x] ++ b is x when i is the length of a
      if z3.is_eq(f) and z3.is_seq(f.arg(0)):
        for w, cat in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
          aw = self.memo[w.get_id()][0]
          ws = [t for t in nths if t[1].sort() == aw.sort()]
          if not ws or cat.decl().kind() != z3.Z3_OP_SEQ_CONCAT:
            continue
          n = z3.IntVal(0)
          for p in self.parts(cat):
            ap = self.memo[p.get_id()][0]
            if p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
              s.add(*[z3.Implies(z3.And(g, v == aw, i == n), r == ap.arg(0))
                      for r, v, i in ws])
            n = n + self.length(ap)
    s.add(*[self.memo[('law', i)] for i in laws if not isinstance(i, tuple)])
    return s.check() == z3.unsat


class Incremental:
  """Unsatisfiability of growing lists of facts, as abstractions."""

  def __init__(self):
    self.s, self.stack = z3.Solver(), []

  def unsat(self, fs, timeout_ms):
    n = 0
    while n < min(len(fs), len(self.stack)) and fs[n].eq(self.stack[n]):
      n += 1
    if n < len(self.stack):
      self.s.pop(len(self.stack) - n)
      del self.stack[n:]
    for f in fs[n:]:
      t, laws = ABSTRACT.of(f)
      self.s.push()
      self.s.add(t)
      self.s.add(*[ABSTRACT.memo[('law', i)] for i in laws
                   if not isinstance(i, tuple)])
      self.stack.append(f)
    self.s.set('rlimit', int(timeout_ms * RLIMIT_PER_MS))
    self.s.set('timeout', int(timeout_ms * 6))
    return self.s.check() == z3.unsat


INCREMENTAL = Incremental()
ABSTRACT = Abstraction()
FIRST_MS = 400


def solve(fs, timeout_ms=8000, want_model=False, seed=None):
  """z3's answer; long queries are also tried as abstractions."""
  if seed is None and timeout_ms > FIRST_MS:
    if abstract_unsat(fs, 80):
      return (z3.unsat, None) if want_model else z3.unsat
    r = solve_full(fs, FIRST_MS, want_model)
    if (r[0] if want_model else r) != z3.unknown:
      return r
    if abstract_unsat(fs, min(timeout_ms, 1000)) or timeout_ms > 1000 and (
        abstract_unsat(fs, 1001)):
      return (z3.unsat, None) if want_model else z3.unsat
  return solve_full(fs, timeout_ms, want_model, seed)


def abstract_unsat(fs, ms):
  t = time.time()
  try:
    done = ABSTRACT.unsat(fs, ms)
  except (Unsupported, z3.Z3Exception):
    done = False
  STATS.time += time.time() - t
  if done:
    STATS.queries += 1
    STATS.abstract += 1
  return done


def solve_full(fs, timeout_ms, want_model=False, seed=None):
  s = z3.Solver()
  if seed is not None:
    # another start: a fresh context (other internal numbering) and seed
    ctx = z3.Context()
    s.add(*fs)
    s = s.translate(ctx)
    s.set('random_seed', seed)
    fs = []
  # resource limit first (deterministic, independent of machine load); the
  # wall-clock timeout is only a backstop
  s.set('rlimit', int(timeout_ms * RLIMIT_PER_MS))
  s.set('timeout', int(timeout_ms * 6))
  s.add(*fs)
  t = time.time()
  r = s.check()
  STATS.queries += 1
  STATS.time += time.time() - t
  if r == z3.unknown:
    STATS.unknown += 1
  if want_model:
    return r, (s.model() if r == z3.sat else None)
  return r


def valid(pc, goal, timeout_ms=8000):
  """'proved' | 'refuted' | 'unknown'."""
  g = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
  if z3.is_true(g):
    return 'proved'
  r = solve(list(pc) + [z3.Not(goal)], timeout_ms)
  return ('proved' if r == z3.unsat else
          'refuted' if r == z3.sat else 'unknown')


def valid_hard(pc, goal, timeout_ms=8000, tries=4):
  """Like valid; starts over with other seeds when the answer is unknown."""
  r = valid(pc, goal, timeout_ms)
  for seed in range(1, tries + 1):
    if r != 'unknown':
      break
    v = solve(list(pc) + [z3.Not(goal)], timeout_ms, seed=seed)
    r = ('proved' if v == z3.unsat else 'refuted' if v == z3.sat else
         'unknown')
  return r
