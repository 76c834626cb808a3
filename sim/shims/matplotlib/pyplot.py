"""Stub of matplotlib.pyplot: axes that record what is plotted."""

import threading

_local = threading.local()


def figures():
  """Axes of every figure the calling thread has made."""
  if not hasattr(_local, "items"):
    _local.items = []
  return _local.items


class Axes:

  def __init__(self):
    self.lines, self.levels = [], []

  def plot(self, *args, **kwargs):
    data = []
    for a in args:
      if isinstance(a, str):
        break
      data.append(list(a))
    if len(data) == 1:
      data.insert(0, list(range(len(data[0]))))
    for i in range(0, len(data) - 1, 2):
      self.lines.append((data[i], data[i + 1]))

  def axhline(self, y=0, *args, **kwargs):
    self.levels.append(y)

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    return lambda *a, **k: None


def subplots(nrows=1, ncols=1, **kwargs):
  axes = [Axes() for _ in range(nrows * ncols)]
  figures().append(axes)
  return None, axes if len(axes) > 1 else axes[0]


def __getattr__(name):
  if name.startswith("__"):
    raise AttributeError(name)
  return lambda *a, **k: None
