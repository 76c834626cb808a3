"""Shared pieces of the property modules."""

import math

import core
import sched_sim

LEVEL = "exploration"

STUB_COMPILER = (
    "numba compiler (stub: function bodies run as ordinary Python; compiled"
    " functions are atomic for scheduling and faults; typed containers are"
    " list/dict subclasses)"
)
STUB_DISPLAY = "IPython display and matplotlib (recording stubs)"
STUB_CLOCK = "time.* clocks (virtual, seeded)"
STUB_SCHED = (
    "thread scheduler (real threads, one runnable at a time, token handed over"
    " at seeded line events)"
)

BASE_ASSUMPTIONS = [
    "numba-compiled functions behave like their Python source (float64/int64"
    " arithmetic, no wrap-around) and are atomic with respect to other threads"
    " and to interrupts",
    "a clean batch is evidence over the sampled seeds, not a proof",
]


def vec(values):
  """JSON -> floats ('inf' allowed)."""
  return [math.inf if v == "inf" else float(v) for v in values]


def close(a, b, tol=1e-7):
  if a == b:
    return True
  if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
    return False
  return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def check_close(ctx, got, want, klass, what):
  ctx.check(
      close(float(got), float(want)),
      klass,
      lambda: f"{what}: got {float(got)!r}, expected {float(want)!r}",
  )


def check_vec(ctx, got, want, klass, what):
  ok = len(got) == len(want) and all(
      close(float(g), float(w)) for g, w in zip(got, want)
  )
  ctx.check(
      ok,
      klass,
      lambda: (
          f"{what}: got {[float(g) for g in got]}, expected"
          f" {[float(w) for w in want]}"
      ),
  )


def check_exact(ctx, got, want, klass, what):
  """For sums of multiples of 1/4, which floats represent exactly."""
  got, want = float(got), float(want)
  ctx.check(
      got == want or abs(got - want) < 0.01,
      klass,
      lambda: f"{what}: got {got!r}, expected {want!r}",
  )


def check_exact_vec(ctx, got, want, klass, what):
  ok = len(got) == len(want) and all(
      float(g) == float(w) or abs(float(g) - float(w)) < 0.01
      for g, w in zip(got, want)
  )
  ctx.check(
      ok,
      klass,
      lambda: (
          f"{what}: got {[float(g) for g in got]}, expected"
          f" {[float(w) for w in want]}"
      ),
  )


def must(ctx, fn, what, budget=None):
  """Runs an operation that has to succeed; any exception is a violation."""
  result = sched_sim.call(fn, budget=budget) if budget else None
  if result is None:
    try:
      return fn()
    except sched_sim.INJECTED:
      raise
    except core.Violation:
      raise
    except core.HarnessError:
      raise
    except Exception as e:  # pylint: disable=broad-except
      raise core.Violation(
          "operation-failed", f"{what}: {core._describe(e)}"
      ) from e
  if result.exc is not None:
    raise core.Violation(
        "operation-failed", f"{what}: {core._describe(result.exc)}"
    ) from result.exc
  return result.value


def faulty(ctx, fn, fault, at, what, tracer=None):
  """Runs an operation under an armed fault; returns (completed, value).

  The fault may legitimately escape as itself. Any other exception type is a
  violation: the code turned a cancellation into something else.
  """
  ctx.armed[fault] += 1
  result = sched_sim.call(fn, fault=fault, at=at, tracer=tracer)
  ctx.steps += result.steps
  if result.fired is not None:
    ctx.faults[fault] += 1
    ctx.log("fault", fault, what, result.steps)
  if result.exc is None:
    return True, result.value
  if isinstance(result.exc, sched_sim.INJECTED):
    return False, None
  if result.fired is not None:
    # The injected exception was replaced while unwinding.
    raise core.Violation(
        "fault-masked", f"{what}: {core._describe(result.exc)}"
    ) from result.exc
  raise core.Violation(
      "operation-failed", f"{what}: {core._describe(result.exc)}"
  ) from result.exc


def gen_at(rng):
  """Step at which an armed fault fires (log-uniform: short and long calls)."""
  if rng.random() < 0.4:
    return -rng.choice([rng.randint(1, 20), rng.randint(1, 150)])
  return int(2 ** rng.uniform(0, 9))


def gen_schedule(rng, threads, length=None):
  """Explicit hand-over schedule: [[thread, quantum], ...]."""
  n = length or rng.choice([4, 12, 40, 120])
  if rng.random() < 0.5:
    top = rng.choice([8, 30, 100, 300])
    return [
        [rng.randrange(threads), -rng.randint(1, top)] for _ in range(n)
    ]
  scale = rng.choice([2, 4, 7, 10])
  return [
      [rng.randrange(threads), int(2 ** rng.uniform(0, scale))]
      for _ in range(n)
  ]


def run_tasks(ctx, tasks, schedule):
  """Runs caller threads, each a list of tasks, under an explicit schedule.

  A task is a dict: name, fn, check (called with the value), fault (None or
  [kind, step]). A cancelled or failed task is retried by its caller, and the
  retry has to give the right answer. Returns the ThreadSim.
  """

  def body_of(jobs):
    def body(tracer):
      for job in jobs:
        name, fn = job["name"], job["fn"]
        ctx.ops[job.get("op", name)] += 1
        if job.get("fault"):
          done, value = faulty(
              ctx, fn, job["fault"][0], job["fault"][1], name, tracer=tracer
          )
          if not done:
            ctx.probes["retried"] += 1
            value = must(ctx, fn, name + " (retry)")
        else:
          value = must(ctx, fn, name)
        job["value"] = value
    return body

  if len(tasks) == 1:
    # A single caller needs no scheduler (and no tracing outside faults).
    sim = sched_sim.ThreadSim([], [])
    body_of(tasks[0])(None)
  else:
    sim = sched_sim.ThreadSim(
        [body_of(jobs) for jobs in tasks], schedule
    ).run()
  for err in sim.errors:
    if err is not None:
      raise err
  ctx.switches += sim.switches
  ctx.steps += sum(t.steps for t in sim.tracers)
  for jobs in tasks:
    for job in jobs:
      job["check"](job["value"])
  return sim
