"""Process-level seams. Import this before anything from /repo.

* puts the compiler shims and /repo on sys.path,
* routes every clock of the `time` module through the active virtual clock,
* hands locks created by repository code to the simulated scheduler.
"""

import os
import sys
import threading
import time as _time

sys.dont_write_bytecode = True

import warnings  # pylint: disable=wrong-import-position

warnings.filterwarnings("ignore", category=RuntimeWarning)

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG_PREFIX = os.path.join(REPO, "r_u_sure") + os.sep

for _p in (REPO, os.path.join(HERE, "shims"), HERE):
  if _p in sys.path:
    sys.path.remove(_p)
  sys.path.insert(0, _p)

real_perf_counter = _time.perf_counter
real_time = _time.time
real_sleep = _time.sleep
real_Lock = threading.Lock
real_RLock = threading.RLock

# The virtual clock that repository code currently sees (None: real clock).
active_clock = None


def _patch(name, real):
  def dispatch():
    # Only repository code sees the virtual clock: the standard library (and
    # the simulator itself) keeps the real one.
    clock = active_clock
    if clock is None:
      return real()
    frame = sys._getframe(1)
    if not frame.f_code.co_filename.startswith(PKG_PREFIX):
      return real()
    return clock.read(name)

  dispatch.__name__ = name
  setattr(_time, name, dispatch)


for _name in (
    "perf_counter",
    "monotonic",
    "time",
    "process_time",
    "thread_time",
    "perf_counter_ns",
    "monotonic_ns",
    "time_ns",
    "process_time_ns",
    "thread_time_ns",
):
  if hasattr(_time, _name):
    _patch(_name, getattr(_time, _name))


def _sleep(seconds):
  clock = active_clock
  if clock is not None and sys._getframe(1).f_code.co_filename.startswith(
      PKG_PREFIX
  ):
    clock.sleep(seconds)
    return
  real_sleep(seconds)


_time.sleep = _sleep


def _lock_factory(real):
  def make(*args, **kwargs):
    frame = sys._getframe(1)
    if frame.f_code.co_filename.startswith(PKG_PREFIX):
      import sched_sim

      return sched_sim.SimLock(reentrant=real is real_RLock)
    return real(*args, **kwargs)

  return make


threading.Lock = _lock_factory(real_Lock)
threading.RLock = _lock_factory(real_RLock)
