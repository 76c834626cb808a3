"""Stub of IPython.display: records per thread what would be shown."""

import threading

_local = threading.local()


def shown():
  """Everything the calling thread has displayed so far."""
  if not hasattr(_local, "items"):
    _local.items = []
  return _local.items


def display(*args, **kwargs):
  del kwargs
  shown().extend(args)


class HTML:

  def __init__(self, data=None, **kwargs):
    self.data = data


class SVG(HTML):
  pass


def clear_output(*args, **kwargs):
  pass


class Javascript:

  def __init__(self, data=None, url=None, **kwargs):
    self.data = data
    self.url = url
