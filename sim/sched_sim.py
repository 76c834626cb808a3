"""Deterministic scheduler for caller threads, and fault injection.

Caller threads are real threads, but exactly one of them is ever runnable: the
token is handed over only at *line events* of repository code, at the places and
to the thread that the schedule names. An injected fault is an exception raised
by the tracer at a line event, i.e. between two lines of repository code, which
is where the interpreter itself would deliver KeyboardInterrupt or where an
allocation can fail. Code inside `numba.njit` functions is atomic (compiled code
holds the GIL and does not poll for signals) except at `numba.objmode` blocks.
"""

import sys
import threading

import env as sim_env
import numba  # the shim

PKG_PREFIX = sim_env.PKG_PREFIX


class InjectedInterrupt(KeyboardInterrupt):
  """Ctrl-C / cancellation delivered by the simulator."""


class InjectedMemoryError(MemoryError):
  """Allocation failure delivered by the simulator."""


class InjectedRecursionError(RecursionError):
  """Stack exhaustion delivered by the simulator."""


FAULTS = {
    "interrupt": InjectedInterrupt,
    "nomem": InjectedMemoryError,
    "stack": InjectedRecursionError,
}
INJECTED = tuple(FAULTS.values())


class StepBudgetExceeded(BaseException):
  """A call ran for more line events than any terminating call could need."""


class SimLock:
  """Lock used by repository code inside the simulation (cooperative)."""

  def __init__(self, reentrant=False):
    self._reentrant = reentrant
    self._owner = None
    self._count = 0

  def acquire(self, blocking=True, timeout=-1):
    me = threading.get_ident()
    while self._owner is not None and not (
        self._reentrant and self._owner == me
    ):
      if not blocking or timeout >= 0:
        return False
      sim = _current.sim if hasattr(_current, "sim") else None
      if sim is None or not sim.force_switch():
        raise RuntimeError("simulated deadlock")
    self._owner = me
    self._count += 1
    return True

  def release(self):
    self._count -= 1
    if self._count <= 0:
      self._owner = None
      self._count = 0

  def locked(self):
    return self._owner is not None

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *exc):
    self.release()
    return False


_current = threading.local()


class Tracer:
  """Line tracer of one thread: counts steps, injects a fault, switches."""

  def __init__(self, sim=None, tid=0):
    self.sim = sim
    self.tid = tid
    self.steps = 0
    self.fault_at = None
    self.fault_cls = None
    self.fired = None
    self.budget = None
    self.quantum = None
    self.quantum_new = None
    self.fault_new = None
    self.seen = set()
    self.where = None

  def global_trace(self, frame, event, arg):
    if event != "call":
      return None
    if not frame.f_code.co_filename.startswith(PKG_PREFIX):
      return None
    if numba.jit_depth() > 0:
      return None
    return self.local_trace

  def local_trace(self, frame, event, arg):
    if event != "line" or numba.jit_depth() > 0:
      return self.local_trace
    self.steps += 1
    if self.budget is not None and self.steps > self.budget:
      self.budget = None
      raise StepBudgetExceeded(f"more than {self.steps - 1} steps")
    if self.fault_new is not None or self.quantum_new is not None:
      line = (id(frame.f_code), frame.f_lineno)
      if line not in self.seen:
        self.seen.add(line)
        if self.fault_new is not None:
          self.fault_new -= 1
          if self.fault_new <= 0:
            self.fault_new = None
            self.fault_at = self.steps
        if self.quantum_new is not None:
          self.quantum_new -= 1
          if self.quantum_new <= 0:
            self.quantum_new = None
            self.quantum = 1
    if self.fault_at is not None and self.steps >= self.fault_at:
      cls = self.fault_cls
      self.fault_at = None
      self.fired = cls
      self.where = (frame.f_code.co_name, frame.f_lineno)
      raise cls(f"injected in {frame.f_code.co_name}")
    if self.quantum is not None:
      self.quantum -= 1
      if self.quantum <= 0:
        self.quantum = None
        self.sim.switch(self.tid)
    elif self.idle():
      sys.settrace(None)  # nothing is left to decide for this thread
      return None
    return self.local_trace

  def idle(self):
    """Runs to completion: no fault is armed and the schedule is used up."""
    return (
        self.sim is not None
        and self.sim.pos >= len(self.sim.schedule)
        and self.quantum is None
        and self.quantum_new is None
        and self.fault_at is None
        and self.fault_new is None
        and self.budget is None
    )


class CallResult:
  __slots__ = ("value", "exc", "steps", "fired", "where")

  def __init__(self):
    self.value = None
    self.exc = None
    self.steps = 0
    self.fired = None
    self.where = None


def call(fn, fault=None, at=None, budget=None, tracer=None):
  """Runs `fn()` on this thread with an optional fault after `at` steps.

  A negative `at` counts lines this thread has not run before: every line is as
  likely as any other then, however often the loops around it run.

  The fault also fires at a clock read of the repository, if the armed step
  falls there (the virtual clock consults the same tracer).
  """
  result = CallResult()
  own = tracer is None
  tracer = tracer or Tracer()
  start = tracer.steps
  tracer.fired = None
  tracer.where = None
  if fault is not None:
    if at < 0:
      tracer.fault_new = -at
    else:
      tracer.fault_at = tracer.steps + max(1, at)
    tracer.fault_cls = FAULTS[fault]
  if budget is not None:
    tracer.budget = tracer.steps + budget
  previous = getattr(_current, "tracer", None)
  _current.tracer = tracer
  old = sys.gettrace()
  sys.settrace(tracer.global_trace)
  try:
    result.value = fn()
  except INJECTED as exc:
    result.exc = exc
  except StepBudgetExceeded as exc:
    result.exc = exc
  except Exception as exc:  # pylint: disable=broad-except
    result.exc = exc
  finally:
    sys.settrace(None if own else old)
    _current.tracer = previous
    tracer.fault_at = None
    tracer.fault_new = None
    tracer.budget = None
  result.steps = tracer.steps - start
  result.fired = tracer.fired
  result.where = tracer.where
  return result


def point():
  """An extra schedule/fault point (used at virtual clock reads)."""
  tracer = getattr(_current, "tracer", None)
  if tracer is None:
    return
  tracer.steps += 1
  if tracer.fault_at is not None and tracer.steps >= tracer.fault_at:
    cls = tracer.fault_cls
    tracer.fault_at = None
    tracer.fired = cls
    tracer.where = ("<clock read>", 0)
    raise cls("injected at clock read")
  if tracer.quantum is not None:
    tracer.quantum -= 1
    if tracer.quantum <= 0:
      tracer.quantum = None
      tracer.sim.switch(tracer.tid)


class ThreadSim:
  """Runs bodies as threads under an explicit schedule.

  Args:
    bodies: list of callables `body(tracer)`; each is one caller thread.
    schedule: list of [thread, quantum]; entry i lets `thread` run for `quantum`
      line events (a negative quantum: until it has run that many lines it had
      not run before). Once the list is exhausted (or names a finished thread) the
      lowest-numbered unfinished thread runs to completion.
  """

  def __init__(self, bodies, schedule):
    self.bodies = bodies
    self.schedule = [tuple(s) for s in schedule]
    self.pos = 0
    self.n = len(bodies)
    self.gates = [threading.Semaphore(0) for _ in bodies]
    self.done = [False] * self.n
    self.main_gate = threading.Semaphore(0)
    self.tracers = [Tracer(self, i) for i in range(self.n)]
    self.errors = [None] * self.n
    self.trace = []  # (thread, steps at hand-over): the interleaving reached
    self.switches = 0

  def _next(self):
    while self.pos < len(self.schedule):
      tid, quantum = self.schedule[self.pos]
      self.pos += 1
      tid %= self.n
      if not self.done[tid]:
        tracer = self.tracers[tid]
        tracer.quantum = max(1, quantum) if quantum >= 0 else None
        tracer.quantum_new = -quantum if quantum < 0 else None
        return tid
    for tid in range(self.n):
      if not self.done[tid]:
        self.tracers[tid].quantum = None
        self.tracers[tid].quantum_new = None
        return tid
    return None

  def switch(self, tid):
    """Called by the running thread at the end of its quantum."""
    nxt = self._next()
    if nxt == tid or nxt is None:
      return
    self.switches += 1
    self.trace.append((tid, self.tracers[tid].steps, nxt))
    self.gates[nxt].release()
    self.gates[tid].acquire()

  def force_switch(self):
    tid = self.current_tid()
    for other in range(self.n):
      if other != tid and not self.done[other]:
        self.trace.append((tid, self.tracers[tid].steps, other))
        self.gates[other].release()
        self.gates[tid].acquire()
        return True
    return False

  def current_tid(self):
    return _current.tid

  def _run(self, tid):
    self.gates[tid].acquire()
    _current.sim = self
    _current.tid = tid
    _current.tracer = self.tracers[tid]
    sys.settrace(self.tracers[tid].global_trace)
    try:
      self.bodies[tid](self.tracers[tid])
    except BaseException as exc:  # pylint: disable=broad-except
      self.errors[tid] = exc
    finally:
      sys.settrace(None)
      self.done[tid] = True
      nxt = self._next()
      if nxt is None:
        self.main_gate.release()
      else:
        self.trace.append((tid, self.tracers[tid].steps, nxt))
        self.gates[nxt].release()

  def run(self):
    threads = [
        threading.Thread(target=self._run, args=(i,), daemon=True)
        for i in range(self.n)
    ]
    for t in threads:
      t.start()
    first = self._next()
    self.gates[first].release()
    self.main_gate.acquire()
    for t in threads:
      t.join()
    return self


class VirtualClock:
  """The only clock repository code sees.

  `deltas` lists the time that passes before each successive read (the last one
  repeats). perf_counter/monotonic never go backwards. `time.time` additionally
  jumps by `wall_jumps` (NTP steps, suspend), and CPU-time clocks do not advance
  while the process is stalled.
  """

  def __init__(self, deltas, wall_jumps=(), stalled=(), base=1000.0):
    self.deltas = list(deltas) or [0.0]
    self.wall_jumps = list(wall_jumps)
    self.stalled = set(stalled)
    self.base = base
    self.now = 0.0
    self.cpu = 0.0
    self.wall_offset = 1.6e9
    self.reads = []
    self.kinds = []

  def _advance(self):
    i = len(self.reads)
    delta = self.deltas[min(i, len(self.deltas) - 1)]
    self.now += delta
    if i not in self.stalled:
      self.cpu += delta
    if i < len(self.wall_jumps):
      self.wall_offset += self.wall_jumps[i]

  def read(self, name):
    self._advance()
    base = name[:-3] if name.endswith("_ns") else name
    if base in ("perf_counter", "monotonic"):
      value = self.base + self.now
    elif base == "time":
      value = self.wall_offset + self.now
    else:
      value = self.cpu
    self.reads.append(self.base + self.now)
    self.kinds.append(base)
    point()
    if name.endswith("_ns"):
      return int(value * 1e9)
    return value

  def sleep(self, seconds):
    self.now += max(0.0, seconds)
    point()

  def __enter__(self):
    sim_env.active_clock = self
    return self

  def __exit__(self, *exc):
    sim_env.active_clock = None
    return False
