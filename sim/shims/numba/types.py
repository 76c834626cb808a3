"""Type objects: opaque tags that are only ever compared or carried around."""


class Type:

  def __init__(self, name="opaque", **attrs):
    self.name = name
    for key, value in attrs.items():
      setattr(self, key, value)

  def __repr__(self):
    return f"<simtype {self.name}>"

  def __call__(self, *args):
    return self


class NumberClass(Type):

  def __init__(self, name, pytype):
    super().__init__(name)
    self.pytype = pytype

  def __call__(self, *args):
    if args and not isinstance(args[0], Type):
      return self.pytype(args[0])
    return self


class TypeRef(Type):
  pass


class Literal(Type):
  pass


class EnumMember(Type):
  pass


class IntEnumMember(Type):
  pass


class _ListType(Type):
  pass


class _TypeofImpl:

  def register(self, cls):
    del cls
    return lambda fn: fn


typeof_impl = _TypeofImpl()


def typeof(value):
  from . import typed

  if isinstance(value, typed.List):
    return value._numba_type_
  return Type(f"typeof {type(value).__name__}")


def optional(inner):
  return Type(f"optional {inner!r}")


unicode_type = Type("unicode_type")
int64 = NumberClass("int64", int)
float64 = NumberClass("float64", float)


def __getattr__(name):
  if name.startswith("__"):
    raise AttributeError(name)
  return Type(name)
