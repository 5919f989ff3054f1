"""Pure-Python stand-in for numba (not installed here).

Every decorator is the identity, every typed container is the builtin one.
Used only by /verif's run-time cross-checks so that the real source in /repo
can be executed; it is part of the trusted base (JIT semantics == CPython
semantics on the executed code).
"""
import contextlib
import sys
import types as _pytypes


class _AnyType:
  """Stand-in for every numba type object; supports calls/index/attributes."""

  def __init__(self, name='any'):
    self._name = name

  def __call__(self, *a, **k):
    return self

  def __getitem__(self, item):
    return self

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return self

  def __repr__(self):
    return f'<numba-stub {self._name}>'


_ANY = _AnyType()


def _decorator(*args, **kwargs):
  if len(args) == 1 and not kwargs and isinstance(
      args[0], _pytypes.FunctionType):
    return args[0]
  return lambda fn: fn


njit = jit = generated_jit = vectorize = _decorator


class _List(list):
  @classmethod
  def empty_list(cls, item_type=None, allocated=0):
    return cls()

  def getitem_unchecked(self, i):
    return self[i]


class _Dict(dict):
  @classmethod
  def empty(cls, key_type=None, value_type=None, n_keys=0):
    return cls()


def _mod(name, **attrs):
  m = _pytypes.ModuleType(name)
  m.__dict__.update(attrs)
  m.__getattr__ = lambda n: _ANY if not n.startswith('__') else (
      (_ for _ in ()).throw(AttributeError(n)))
  sys.modules[name] = m
  return m


typed = _mod('numba.typed', List=_List, Dict=_Dict)


class _Literal:
  literal_value = None


types = _mod('numba.types', Literal=_Literal, Type=_AnyType)


class _TypeofImpl:
  def register(self, *a, **k):
    return lambda fn: fn


extending = _mod(
    'numba.extending',
    register_jitable=_decorator,
    overload=lambda *a, **k: (lambda fn: fn),
    overload_method=lambda *a, **k: (lambda fn: fn),
    overload_attribute=lambda *a, **k: (lambda fn: fn),
    intrinsic=_decorator,
    typeof_impl=_TypeofImpl(),
)
core = _mod('numba.core', extending=extending)
sys.modules['numba.core.extending'] = extending
errors = _mod('numba.core.errors', TypingError=type('TypingError', (Exception,), {}))
core.errors = errors
config = _mod('numba.config')


def typeof(x):
  return _ANY


def optional(x):
  return _ANY


@contextlib.contextmanager
def objmode(*a, **k):
  yield


def literal_unroll(x):
  return x


prange = range
int64 = int32 = float64 = float32 = boolean = void = int8 = uint8 = uint32 = uint64 = _ANY


def __getattr__(name):
  if name.startswith('__'):
    raise AttributeError(name)
  return _ANY
