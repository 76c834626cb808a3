"""Stub of IPython: records what would have been displayed."""
from . import display


def get_ipython():
  return None
