"""C02: the reported objective is always a sound, never-decreasing bound."""

import math

import env  # pylint: disable=unused-import
import numpy as np

import core
import sched_sim
from models import build
from models import dagmodel
from models import systems
from props import common

from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver

LEVEL = common.LEVEL
COUNT = {"quick": 60000, "thorough": 400000}
WALL_LIMIT = 60
RULE = (
    "A case is a random system of 1-4 diagrams and a history of solves (cut off"
    " by a virtual-clock budget, by an interrupt at a clock read, or left to"
    " converge), single-variable updates in random order, constraints,"
    " perturbations, partial commitments and decodes. The oracle enumerates every joint decision. Non-trivial: >= 2"
    " diagrams, >= 2 variables and at least one solve that was cut off or"
    " resumed."
)
MEASURE = "distinct (diagrams, variables, operation, previous operation, bound tight or not) tuples"
REAL = [
    "decision_diagrams/consistent_path_dual_solver",
    "decision_diagrams/packed_dags",
    "decision_diagrams/gated_state_dag",
]
STUB = [common.STUB_COMPILER, common.STUB_CLOCK]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "bounds are compared with a relative rounding slack of 1e-7",
]
EPS = 1e-7


def gen(rng, tier, index):
  s = systems.gen_system(rng)
  vals = s["specs"][0]["vals"]
  keys = sorted({k for x in s["specs"] for k in dagmodel.live_keys(x)})
  ops = []
  for _ in range(rng.choice([2, 4, 8])):
    r = rng.random()
    if r < 0.45:
      ops.append([
          "solve",
          rng.choice(["inf", 0.0, 0.5, 1.5, 2.5, 4.5]),
          rng.choice([None, None, None, rng.randint(1, 5)]),
      ])
    elif r < 0.7 and keys:
      ops.append([
          "average",
          [rng.randrange(len(keys)) for _ in range(rng.randint(1, 6))],
      ])
    elif r < 0.85 and keys:
      c = {}
      for k in rng.sample(keys, rng.randint(1, len(keys))):
        c[str(k)] = rng.choice(vals)
      ops.append(["constrain", c, rng.choice([0.5, 2.0, 100.0, "inf", 1e6])])
    elif r < 0.92 or not keys:
      ops.append(["decode", rng.choice(["FORWARD", "REVERSE"])])
    elif r < 0.96:
      ops.append(["perturb", rng.randrange(100), rng.choice([0.25, 1.0, 8.0])])
    else:
      ops.append([
          "commit",
          rng.choice(["FORWARD", "REVERSE"]),
          rng.choice([0.25, 0.5, 1.0]),
          rng.choice([0.0, 0.5, 1.0]),
      ])
  return {"system": s, "ops": ops}


def valid(case):
  return systems.valid_system(case["system"])


def shrinks(case):
  n = len(case["ops"])
  for i in range(n):
    yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1 :]}
  for small in systems.shrink_system(case["system"]):
    yield {**case, "system": small}
  for i, op in enumerate(case["ops"]):
    if op[0] == "average" and len(op[1]) > 1:
      for j in range(len(op[1])):
        yield {
            **case,
            "ops": case["ops"][:i]
            + [["average", op[1][:j] + op[1][j + 1 :]]]
            + case["ops"][i + 1 :],
        }


def slack(x):
  return EPS * max(1.0, abs(x)) if math.isfinite(x) else EPS


def prices(system):
  """Total price of each (variable, value) over all diagrams: [vars][vals]."""
  d = system.data
  out = []
  for i in range(int(d.num_variable_keys)):
    row = np.zeros((int(d.num_variable_values),))
    for dag in range(len(d.dag_tables)):
      j = int(d.dag_variable_index_map[i, dag])
      if j != -1:
        row = row + d.dag_tables[dag].penalties[j, :]
    out.append([float(x) for x in row])
  return out


def initial_bound(system, ref):
  """Sum over diagrams of their penalised minimum (the bound before a step)."""
  keys = list(system.variable_keys)
  vals = list(system.variable_values)
  total = 0.0
  for d, (dkeys, best) in enumerate(ref.tables):
    pen = system.data.dag_tables[d].penalties
    low = math.inf
    for t, c in best.items():
      x = c
      for k, v in zip(dkeys, t):
        i = keys.index(k)
        j = int(system.data.dag_variable_index_map[i, d])
        x += float(pen[j, vals.index(v)])
      low = min(low, x)
    total += low
  return total


def run(case, ctx):
  s = case["system"]
  system = common.must(
      ctx,
      lambda: build.system(s["specs"], s["weights"], s["pipes"]),
      "building the system",
  )
  ref = systems.RefSystem(s["specs"])
  ctx.check(
      list(system.variable_keys) == ref.keys
      and list(system.variable_values) == ref.vals,
      "variables",
      lambda: f"variables {list(system.variable_keys)} != {ref.keys}",
  )
  n_keys = len(ref.keys)
  scale = 1.0

  def invariant(where):
    """Total cost of every joint decision is exactly what it should be."""
    got = systems.observed_costs(system, ref)
    for t, c in got.items():
      want = ref.cost_of(t)
      if want > 1e5 and not math.isinf(want):
        tol = 1e-6 * want
      else:
        tol = 1e-6 * max(1.0, abs(want), scale) if math.isfinite(want) else 0
      ok = (c == want) or abs(c - want) <= tol
      if not ok and math.isinf(c) and not math.isinf(want):
        # A jointly infeasible partial choice may be priced out altogether.
        ok = False
      ctx.check(
          ok,
          "cost-changed",
          lambda: f"{where}: joint decision {t} now costs {c}, not {want}",
      )

  prev_bound = None  # bound reached by the previous operation
  prev_kind = None
  cut = False
  for op in case["ops"]:
    kind = op[0]
    ctx.ops[kind] += 1
    optimum = ref.optimum()
    base = initial_bound(system, ref)
    scale = max(
        [1.0] + [abs(x) for u in ref.unary.values() for x in u.values()
                 if math.isfinite(x)]
    )
    tol = 1e-7 * max(scale, 1.0) + (
        slack(optimum) if math.isfinite(optimum) else 0
    )
    ctx.check(
        base <= optimum + tol,
        "bound-above-optimum",
        lambda: f"before {kind}: bound {base} > optimum {optimum}",
    )
    if kind == "solve":
      timeout = math.inf if op[1] == "inf" else op[1]
      clock = sched_sim.VirtualClock([1.0])
      fn = lambda: solver.solve_system_with_sweeps(
          system.data, soft_timeout=timeout
      )
      with clock:
        if op[2]:
          done, res = common.faulty(
              ctx, fn, "interrupt", op[2], "interrupted solve"
          )
          if not done:
            cut = True
        else:
          done, res = True, common.must(ctx, fn, "solve")
      ctx.sim_time += clock.now
      if done:
        objs = [float(x) for x in res.objective_at_step]
        if not res.reached_plateau:
          cut = True
          ctx.faults["budget-expired"] += 1
        check_objectives(ctx, objs, base, optimum, tol, kind)
        if objs:
          bound = objs[-1]
          now = initial_bound(system, ref)
          ctx.check(
              abs(now - bound) <= tol or now == bound or now >= bound - tol,
              "bound-mismatch",
              lambda: f"reported bound {bound}, penalties give {now}",
          )
          if len(ref.tables) == 1 and n_keys >= 2:
            ctx.check(
                common.close(bound, optimum, 1e-6) or abs(bound - optimum) <= tol,
                "single-diagram-not-tight",
                lambda: f"bound {bound} for one diagram, optimum {optimum}",
            )
          ctx.mark(
              len(ref.tables), n_keys, kind, prev_kind,
              common.close(bound, optimum, 1e-6),
          )
          ctx.log(kind, objs)
    elif kind == "average":
      objs = []
      for v in op[1]:
        if v < n_keys:
          objs.append(
              float(
                  common.must(
                      ctx,
                      lambda: solver.min_marginal_average(system.data, v),
                      "averaging",
                  )
              )
          )
          # Right after the update all participating diagrams agree: the value
          # returned is what the system's penalties now certify.
          mm = common.must(
              ctx,
              lambda: solver.system_min_marginals(system.data, v),
              "aggregated min-marginals",
          )
          low = float(np.min(mm))
          ctx.check(
              low == objs[-1] or abs(low - objs[-1]) <= tol,
              "bound-mismatch",
              lambda: f"update of {v} returned {objs[-1]}, min-marginals {low}",
          )
      check_objectives(ctx, objs, base, optimum, tol, kind)
      ctx.mark(len(ref.tables), n_keys, kind, prev_kind)
      ctx.log(kind, objs)
    elif kind == "constrain":
      constraints = {int(k): v for k, v in op[1].items() if int(k) in ref.keys}
      penalty = math.inf if op[2] == "inf" else float(op[2])
      common.must(
          ctx,
          lambda: solver.constrain_system(system, constraints, penalty),
          "constrain",
      )
      ref.constrain(constraints, penalty)
      scale = max(scale, penalty if math.isfinite(penalty) else 1.0)
    elif kind in ("perturb", "commit"):
      # What the adjustment asked for is C07's business; from here on its
      # prices are part of every joint decision.
      before = prices(system)
      if kind == "perturb":
        adjust = lambda: solver.break_symmetry_randomly(
            system, noise_scale=op[2], random_seed=op[1]
        )
      else:
        adjust = lambda: solver.partially_commit(
            system.data, solver.SweepDirection[op[1]],
            target_commitments_per_variable=op[2], gap_strictness=op[3],
        )
      common.must(ctx, adjust, kind)
      for k, b, a in zip(ref.keys, before, prices(system)):
        for v, x, y in zip(ref.vals, b, a):
          if math.isfinite(x):
            ref.unary[k][v] += y - x
      scale = max(
          [scale] + [abs(x) for u in ref.unary.values() for x in u.values()
                     if math.isfinite(x)]
      )
    elif kind == "decode" and n_keys:
      _, cost = common.must(
          ctx,
          lambda: solver.greedy_extract(
              system.data, solver.SweepDirection[op[1]]
          ),
          "decode",
      )
      ctx.check(
          float(cost) >= base - tol,
          "bound-above-solution",
          lambda: f"decoded cost {cost} below the bound {base}",
      )
      ctx.log(kind, float(cost))
    invariant(kind)
    prev_kind = kind
  if cut and len(ref.tables) >= 2 and n_keys >= 2:
    ctx.nontrivial = True


def check_objectives(ctx, objs, base, optimum, tol, kind):
  last = base
  for i, o in enumerate(objs):
    ctx.check(
        not math.isnan(o), "bound-nan", lambda: f"{kind}: objective is NaN"
    )
    ctx.check(
        o >= last - tol or o == last,
        "bound-decreased",
        lambda: f"{kind}: objective went from {last} to {o} at step {i}",
    )
    ctx.check(
        o <= optimum + tol,
        "bound-above-optimum",
        lambda: f"{kind}: objective {o} > optimum {optimum} at step {i}",
    )
    last = o
