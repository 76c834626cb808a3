"""typed.List / typed.Dict as list / dict subclasses."""

from . import types


class List(list):
  _item_type = None

  @classmethod
  def empty_list(cls, item_type=None, allocated=0):
    del allocated
    result = cls()
    result._item_type = item_type
    return result

  @property
  def _numba_type_(self):
    return types._ListType("ListType", item_type=self._item_type)

  def __getitem__(self, index):
    result = list.__getitem__(self, index)
    if isinstance(index, slice):
      wrapped = List(result)
      wrapped._item_type = self._item_type
      return wrapped
    return result

  def copy(self):
    wrapped = List(self)
    wrapped._item_type = self._item_type
    return wrapped

  # numba typed lists are unhashable, like Python lists.
  __hash__ = None


class Dict(dict):

  @classmethod
  def empty(cls, key_type=None, value_type=None, n_keys=0):
    del key_type, value_type, n_keys
    return cls()
