"""Stand-in for the `numba` compiler (the real one is not installable here).

Only the compiler is stubbed: every function body of r_u_sure runs for real, as
ordinary Python. What the stub keeps of numba's observable semantics:

* `njit`/`jit` functions are *atomic*: compiled code holds the GIL and never
  polls for signals, so no other thread runs and no interrupt is delivered until
  it returns -- except inside `numba.objmode` blocks, which run interpreted
  Python. `jit_depth()` exposes that to the simulator.
* `@overload(fn)` implementations replace `fn` while compiled code is running.
* `typed.List` / `typed.Dict` behave like list / dict (with `_numba_type_`).
"""

import contextlib
import functools
import sys
import threading

from . import types
from . import typed
from .types import typeof, optional, typeof_impl

__version__ = "0.0+sim"

int64 = types.NumberClass("int64", int)
int32 = types.NumberClass("int32", int)
float64 = types.NumberClass("float64", float)
boolean = types.NumberClass("bool", bool)
int8 = types.NumberClass("int8", int)
int16 = types.NumberClass("int16", int)
uint8 = types.NumberClass("uint8", int)
uint32 = types.NumberClass("uint32", int)
uint64 = types.NumberClass("uint64", int)
float32 = types.NumberClass("float32", float)
bool_ = boolean
b1 = boolean
i4, i8, f4, f8 = int32, int64, float32, float64
prange = range

_tls = threading.local()


def jit_depth():
  return getattr(_tls, "depth", 0)


class _Config:
  FULL_TRACEBACKS = False
  DISABLE_JIT = 0


config = _Config()


def _jit_wrap(fn):
  if getattr(fn, "__sim_jit__", False):
    return fn

  @functools.wraps(fn)
  def wrapper(*args, **kwargs):
    depth = getattr(_tls, "depth", 0)
    trace = sys.gettrace() if not depth else None
    if trace is not None:
      # Compiled code is atomic: no tracing (so no hand-overs, no faults) in it.
      sys.settrace(None)
      _tls.trace = trace
    _tls.depth = depth + 1
    try:
      return fn(*args, **kwargs)
    finally:
      _tls.depth = depth
      if trace is not None:
        _tls.trace = None
        sys.settrace(trace)

  wrapper.__sim_jit__ = True
  wrapper.py_func = fn
  return wrapper


def njit(*args, **kwargs):
  del kwargs
  if len(args) == 1 and callable(args[0]) and not isinstance(
      args[0], types.Type
  ):
    return _jit_wrap(args[0])
  return _jit_wrap


jit = njit


class _ObjMode:
  """`with numba.objmode(x=...)`: interpreted Python inside compiled code."""

  def __init__(self, *args, **kwargs):
    del args, kwargs

  def __enter__(self):
    self._saved = getattr(_tls, "depth", 0)
    self._trace = getattr(_tls, "trace", None)
    _tls.depth = 0
    if self._trace is not None:
      sys.settrace(self._trace)
    return self

  def __exit__(self, *exc):
    if self._trace is not None:
      sys.settrace(None)
    _tls.depth = self._saved
    return False


objmode = _ObjMode


def _overload(target, **kwargs):
  """Registers a compiled-mode replacement for `target`."""
  del kwargs

  def deco(factory):
    @functools.wraps(target)
    def dispatch(*args, **kw):
      if getattr(_tls, "depth", 0) == 0:
        return target(*args, **kw)
      impl = factory(*args, **kw)
      if impl is None:
        return target(*args, **kw)
      return impl(*args, **kw)

    dispatch.__sim_overload_impl__ = factory
    dispatch.__sim_python_impl__ = target
    module = sys.modules.get(target.__module__)
    if module is not None and getattr(module, target.__name__, None) is target:
      setattr(module, target.__name__, dispatch)
    return factory

  return deco


def _register_jitable(*args, **kwargs):
  del kwargs
  if len(args) == 1 and callable(args[0]):
    return args[0]
  return lambda fn: fn


def _overload_method(typ, name, **kwargs):
  del typ, name, kwargs
  return lambda fn: fn


def _intrinsic(*args, **kwargs):
  return _register_jitable(*args, **kwargs)


class _Namespace:
  pass


extending = _Namespace()
extending.overload = _overload
extending.register_jitable = _register_jitable
extending.overload_method = _overload_method
extending.intrinsic = _intrinsic
extending.typeof_impl = typeof_impl

core = _Namespace()
core.extending = extending
core.errors = _Namespace()
core.errors.TypingError = type("TypingError", (Exception,), {})
core.utils = _Namespace()
core.types = types
