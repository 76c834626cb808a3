"""C01: the solver's time budget, under every clock behaviour."""

import math

import env  # pylint: disable=unused-import
import numpy as np

import core
import sched_sim
from models import build
from models import dagmodel
from models import systems
from props import common

from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver

LEVEL = common.LEVEL
COUNT = {"quick": 40000, "thorough": 400000}
WALL_LIMIT = 60
RULE = (
    "A case is a random system of 1-4 diagrams over >= 2 shared variables, a"
    " seeded virtual clock (steady, stalled, bursty, coarse-ticking, with wall"
    " clock jumps and CPU stalls), a time budget, and a sequence of solve calls"
    " (resumed solves, interrupts at clock reads). Non-trivial: some solve ran"
    " out of budget before the objective stopped improving, or the budget was"
    " crossed in the middle of a forward/backward pair."
)
MEASURE = "distinct (number of sweeps, stopped by, crossing direction, budget kind) tuples"
REAL = [
    "decision_diagrams/consistent_path_dual_solver",
    "decision_diagrams/packed_dags",
    "decision_diagrams/gated_state_dag",
]
STUB = [common.STUB_COMPILER, common.STUB_CLOCK]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "the monotonic clock never goes backwards (its documented contract); the"
    " wall clock and the CPU clock may jump and stall",
]


def gen(rng, tier, index):
  while True:
    s = systems.gen_system(rng)
    keys = {k for x in s["specs"] for k in dagmodel.live_keys(x)}
    if len(keys) >= 2:
      break
  solves = []
  for _ in range(rng.choice([1, 1, 2, 3])):
    kind = rng.choice(["steady", "stall", "burst", "coarse", "frozen", "jump"])
    n = rng.randint(1, 12)
    if kind == "steady":
      deltas = [rng.choice([0.5, 1.0, 3.0])]
    elif kind == "stall":
      deltas = [0.001] * rng.randint(1, 5) + [1000.0, 0.001]
    elif kind == "burst":
      deltas = [rng.choice([0.0, 0.1, 2.0, 50.0]) for _ in range(n)] + [0.25]
    elif kind == "coarse":
      deltas = []
      for _ in range(n):
        deltas += [0.0] * rng.randint(0, 2) + [16.0]
      deltas += [0.0, 16.0][: rng.randint(1, 2)]
    elif kind == "frozen":
      deltas = [0.0]
    else:
      deltas = [0.01] * rng.randint(1, 4) + [86400.0] + [0.01]
    timeout = rng.choice(
        ["inf", 0.0, 0.4, 1.0, 2.5, 10.0, 20.0, 60.0, 1000.5, -1.0]
    )
    jumps = []
    if rng.random() < 0.6:
      jumps = [
          rng.choice([0.0, 0.0, -3600.0, -1.0, 3600.0, 86400.0])
          for _ in range(12)
      ]
    stalled = [i for i in range(1, 14) if rng.random() < 0.5]
    fault = None
    if rng.random() < 0.2:
      fault = ["interrupt", rng.randint(1, 6)]
    solves.append({
        "deltas": deltas,
        "kind": kind,
        "timeout": timeout,
        "jumps": jumps,
        "stalled": stalled,
        "tolerance": rng.choice([1e-5, 1e-5, 0.25, 1.0]),
        "fault": fault,
        "default_timeout": timeout == "inf" and rng.random() < 0.5,
    })
  return {"system": s, "solves": solves}


def valid(case):
  return systems.valid_system(case["system"]) and all(
      s["deltas"] and all(d >= 0 for d in s["deltas"]) for s in case["solves"]
  )


def shrinks(case):
  n = len(case["solves"])
  for i in range(n):
    if n > 1:
      yield {**case, "solves": case["solves"][:i] + case["solves"][i + 1 :]}
  for small in systems.shrink_system(case["system"]):
    yield {**case, "system": small}
  for i, s in enumerate(case["solves"]):
    for key, value in (("jumps", []), ("stalled", []), ("fault", None)):
      if s[key] != value:
        yield {
            **case,
            "solves": case["solves"][:i] + [{**s, key: value}]
            + case["solves"][i + 1 :],
        }


def check_solve(ctx, res, sys_data, timeout, tol, clock, n_keys):
  times = [float(x) for x in res.time_at_sweep]
  steps = [int(x) for x in res.steps_at_sweep]
  objs = [float(x) for x in res.objective_at_sweep]
  step_obj = [float(x) for x in res.objective_at_step]
  variables = [int(x) for x in res.variable_at_step]
  n = len(times)
  ctx.check(
      n == len(steps) == len(objs) and n >= 1,
      "history",
      lambda: f"inconsistent sweep history {times} {steps} {objs}",
  )
  ctx.check(
      len(step_obj) == len(variables) == steps[-1],
      "history",
      lambda: f"{len(step_obj)} steps recorded, sweeps claim {steps}",
  )
  # Every sweep updates variables in order, alternately forward and backward.
  prev = 0
  for i in range(n):
    got = variables[prev : steps[i]]
    fwd = list(range(0, n_keys - 1))
    rev = list(range(n_keys - 1, 0, -1))
    ctx.check(
        got == (fwd if i % 2 == 0 else rev),
        "sweep-order",
        lambda: f"sweep {i} updated {got} of {n_keys} variables",
    )
    ctx.check(
        steps[i] > 0 and objs[i] == step_obj[steps[i] - 1],
        "history",
        lambda: f"sweep {i} objective {objs[i]} is not its last step's",
    )
    prev = steps[i]
  # Times come from the clock.
  readings = [r - clock.reads[0] for r in clock.reads]
  pos = 0
  for i, t in enumerate(times):
    while pos < len(readings) and not common.close(readings[pos], t, 1e-9):
      pos += 1
    ctx.check(
        pos < len(readings),
        "times",
        lambda: f"elapsed times {times} do not match the clock {readings}",
    )
  # The budget.
  for i, t in enumerate(times[:-1]):
    ctx.check(
        not t > timeout,
        "budget-overrun",
        lambda: (
            f"sweep {i} ended at {t}s > budget {timeout}s but {n - 1 - i} more"
            " sweeps were run"
        ),
    )
  over = readings[-1] > timeout
  # Progress: did the objective still improve in the final pair of sweeps?
  def improved(first_sweep):
    start = steps[first_sweep - 1] if first_sweep > 0 else 0
    last = step_obj[start - 1] if start > 0 else -math.inf
    for o in step_obj[start:]:
      if o - last > tol + 1e-9:  # leave rounding ties to the implementation
        return True
      last = o
    return False

  if res.reached_plateau:
    first = n - 2 if n % 2 == 0 else n - 1
    ctx.check(
        not improved(first),
        "plateau",
        lambda: f"plateau claimed while still improving: {step_obj}",
    )
    ctx.check(
        n % 2 == 0 or over,
        "plateau",
        "plateau claimed after half a pair of sweeps",
    )
  else:
    ctx.check(
        over,
        "stopped-early",
        lambda: (
            f"stopped after {n} sweeps without plateau at {times[-1]}s of"
            f" {timeout}s"
        ),
    )
  # It must stop at the first pair of sweeps without improvement.
  for pair in range(0, n - 2, 2):
    start = steps[pair - 1] if pair > 0 else 0
    last = step_obj[start - 1] if start > 0 else -math.inf
    better = False
    for o in step_obj[start : steps[pair + 1]]:
      better = better or not o - last <= tol - 1e-9
      last = o
    ctx.check(
        better,
        "ran-past-plateau",
        lambda: f"kept solving after pair {pair // 2} brought no improvement",
    )
  return over


def run(case, ctx):
  s = case["system"]
  system = common.must(
      ctx,
      lambda: build.system(s["specs"], s["weights"], s["pipes"]),
      "building the system",
  )
  n_keys = len(system.variable_keys)
  if n_keys < 2:
    return
  # No terminating solve of such a small system takes this many sweeps.
  max_reads = 3000
  for spec in case["solves"]:
    timeout = math.inf if spec["timeout"] == "inf" else float(spec["timeout"])
    clock = LimitedClock(
        spec["deltas"], spec["jumps"], spec["stalled"], limit=max_reads
    )
    kwargs = {"tolerance": spec["tolerance"]}
    if not (spec["default_timeout"] and timeout == math.inf):
      kwargs["soft_timeout"] = timeout
    fn = lambda: solver.solve_system_with_sweeps(system.data, **kwargs)
    ctx.ops["solve"] += 1
    with clock:
      if spec["fault"] is not None:
        done, res = common.faulty(
            ctx, fn, spec["fault"][0], spec["fault"][1], "interrupted solve"
        )
        if not done:
          ctx.probes["solve interrupted at a clock read"] += 1
          ctx.log("interrupted")
          continue
      else:
        r = sched_sim.call(fn)
        if isinstance(r.exc, _TooManyReads):
          raise core.Violation(
              "no-progress", f"solve still running after {max_reads} sweeps"
          )
        if r.exc is not None:
          raise core.Violation(
              "operation-failed", f"solve: {core._describe(r.exc)}"
          ) from r.exc
        res = r.value
    ctx.sim_time += clock.now
    over = check_solve(
        ctx, res, system.data, timeout, spec["tolerance"], clock, n_keys
    )
    n = len(res.time_at_sweep)
    if over:
      ctx.faults["budget-expired"] += 1
    if spec["kind"] in ("stall", "jump", "frozen", "coarse"):
      ctx.faults[f"clock-{spec['kind']}"] += 1
    if any(spec["jumps"]):
      ctx.faults["wall-clock-jump"] += 1
    if over and not res.reached_plateau:
      ctx.nontrivial = True
      ctx.probes["stopped by budget, still improving"] += 1
      if n % 2 == 1:
        ctx.probes["stopped mid-pair"] += 1
    ctx.mark(n, bool(res.reached_plateau), over, spec["kind"])
    ctx.log(n, [float(x) for x in res.objective_at_sweep], bool(over))


class _TooManyReads(Exception):
  pass


class LimitedClock(sched_sim.VirtualClock):

  def __init__(self, *args, limit):
    super().__init__(*args)
    self.limit = limit

  def read(self, name):
    if len(self.reads) > self.limit:
      raise _TooManyReads()
    return super().read(name)
