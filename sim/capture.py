"""What a thread prints, thread by thread."""

import contextlib
import sys
import threading


class Router:
  """A stdout that hands a recording thread's text to its recorder."""

  def __init__(self, real):
    self._real = real
    self._local = threading.local()

  def sink(self):
    return getattr(self._local, "sink", None)

  def write(self, text):
    sink = self.sink()
    if sink is not None:
      sink.append(text)
      return len(text)
    return self._real.write(text)

  @contextlib.contextmanager
  def recording(self):
    old, self._local.sink = self.sink(), []
    try:
      yield self._local.sink
    finally:
      self._local.sink = old

  def __getattr__(self, name):
    return getattr(self._real, name)


def printed():
  """Context manager: the list of texts this thread prints inside it."""
  if not isinstance(sys.stdout, Router):
    sys.stdout = Router(sys.stdout)
  return sys.stdout.recording()
