"""C03: decoding returns a real, consistent, honestly priced decision."""

import math

import env  # pylint: disable=unused-import
import numpy as np

import sched_sim
from models import build
from models import dagmodel
from models import systems
from props import common

from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver

LEVEL = common.LEVEL
COUNT = {"quick": 60000, "thorough": 400000}
WALL_LIMIT = 60
RULE = (
    "A case is a random system of 1-4 diagrams and a history of solves (cut off"
    " by a virtual-clock budget or an interrupt at a clock read, or left to"
    " converge), updates, constraints and decodes in either direction. Every"
    " decode is checked against exhaustive enumeration of the diagrams; a second"
    " system runs the same history without the decodes and must stay identical."
    " Non-trivial: >= 2 diagrams, >= 2 variables, and a decode taken from a state"
    " that was not converged."
)
MEASURE = "distinct (diagrams, variables, direction, state the decode started from, optimal or not) tuples"
REAL = [
    "decision_diagrams/consistent_path_dual_solver",
    "decision_diagrams/packed_dags",
    "decision_diagrams/gated_state_dag",
]
STUB = [common.STUB_COMPILER, common.STUB_CLOCK]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "ties between equally good values (within 1e-7 relative) may be broken either"
    " way",
    "the system has at least one variable",
]


def gen(rng, tier, index):
  while True:
    s = systems.gen_system(rng)
    keys = sorted({k for x in s["specs"] for k in dagmodel.live_keys(x)})
    if keys:
      break
  vals = s["specs"][0]["vals"]
  ops = []
  for _ in range(rng.choice([1, 2, 4, 7])):
    r = rng.random()
    if r < 0.3:
      ops.append([
          "solve",
          rng.choice(["inf", 0.0, 0.5, 1.5, 2.5, 4.5]),
          rng.choice([None, None, rng.randint(1, 5)]),
      ])
    elif r < 0.45:
      ops.append([
          "average",
          [rng.randrange(len(keys)) for _ in range(rng.randint(1, 6))],
      ])
    elif r < 0.6:
      c = {}
      for k in rng.sample(keys, rng.randint(1, len(keys))):
        c[str(k)] = rng.choice(vals)
      ops.append(["constrain", c, rng.choice([0.5, 2.0, 100.0, "inf"])])
    else:
      ops.append(["decode", rng.choice(["FORWARD", "REVERSE"])])
  ops.append(["decode", rng.choice(["FORWARD", "REVERSE"])])
  return {"system": s, "ops": ops}


def valid(case):
  return systems.valid_system(case["system"]) and any(
      dagmodel.live_keys(x) for x in case["system"]["specs"]
  )


def shrinks(case):
  for i in range(len(case["ops"])):
    yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1 :]}
  for small in systems.shrink_system(case["system"]):
    yield {**case, "system": small}


def snapshot(system):
  """Everything a caller can later depend on, as bytes."""
  d = system.data
  parts = [d.extra_unary_costs.tobytes(), d.dag_update_proportions.tobytes(),
           d.dag_variable_index_map.tobytes()]
  for t in d.dag_tables:
    parts.append(t.penalties.tobytes())
  return parts


def penalised_tables(system, ref):
  """Per diagram: {assignment of its variables: cost with current penalties}."""
  keys = list(system.variable_keys)
  vals = list(system.variable_values)
  out = []
  for d, (dkeys, best) in enumerate(ref.tables):
    pen = system.data.dag_tables[d].penalties
    rows = []
    for k in dkeys:
      j = int(system.data.dag_variable_index_map[keys.index(k), d])
      rows.append({v: float(pen[j, vals.index(v)]) for v in vals})
    out.append((
        dkeys,
        {
            t: c + sum(r[v] for r, v in zip(rows, t))
            for t, c in best.items()
        },
    ))
  return out


def aggregated(tables, vals, fixed, key):
  """Sum over diagrams of the best cost with `fixed` and key := v, for each v."""
  result = []
  for v in vals:
    want = {**fixed, key: v}
    total = 0.0
    for dkeys, best in tables:
      low = math.inf
      for t, c in best.items():
        if c < low and all(
            want.get(k, x) == x for k, x in zip(dkeys, t)
        ):
          low = c
      total += low
    result.append(total)
  return result


def run(case, ctx):
  s = case["system"]
  make = lambda: build.system(s["specs"], s["weights"], s["pipes"])
  system = common.must(ctx, make, "building the system")
  shadow = common.must(ctx, make, "building the system")
  ref = systems.RefSystem(s["specs"])
  n_keys = len(ref.keys)
  state = "fresh"
  decodes = 0
  for op in case["ops"]:
    kind = op[0]
    ctx.ops[kind] += 1
    if kind == "solve":
      timeout = math.inf if op[1] == "inf" else op[1]
      results = []
      for target in (system, shadow):
        clock = sched_sim.VirtualClock([1.0])
        fn = lambda: solver.solve_system_with_sweeps(
            target.data, soft_timeout=timeout
        )
        with clock:
          if op[2]:
            done, res = common.faulty(
                ctx, fn, "interrupt", op[2], "interrupted solve"
            )
          else:
            done, res = True, common.must(ctx, fn, "solve")
        ctx.sim_time += clock.now
        results.append(
            [float(x) for x in res.objective_at_step] if done else None
        )
        if not done:
          state = "interrupted"
        elif res.reached_plateau:
          state = "converged"
        else:
          state = "out-of-budget"
          ctx.faults["budget-expired"] += 1
      ctx.check(
          results[0] == results[1],
          "decode-disturbed-state",
          lambda: f"solve after a decode: {results[0]}, without: {results[1]}",
      )
    elif kind == "average":
      for v in op[1]:
        if v < n_keys:
          a = float(solver.min_marginal_average(system.data, v))
          b = float(solver.min_marginal_average(shadow.data, v))
          ctx.check(
              a == b,
              "decode-disturbed-state",
              lambda: f"update after a decode gave {a}, without it {b}",
          )
      state = "averaged"
    elif kind == "constrain":
      constraints = {int(k): v for k, v in op[1].items() if int(k) in ref.keys}
      penalty = math.inf if op[2] == "inf" else float(op[2])
      for target in (system, shadow):
        common.must(
            ctx,
            lambda: solver.constrain_system(target, constraints, penalty),
            "constrain",
        )
      ref.constrain(constraints, penalty)
      state = "constrained"
    else:
      decodes += 1
      check_decode(ctx, system, ref, op[1], state)
  if len(ref.tables) >= 2 and n_keys >= 2 and decodes and state != "converged":
    ctx.nontrivial = True


def check_decode(ctx, system, ref, direction, state):
  before = snapshot(system)
  tables = penalised_tables(system, ref)
  vector, cost = common.must(
      ctx,
      lambda: solver.greedy_extract(
          system.data, solver.SweepDirection[direction]
      ),
      "decode",
  )
  ctx.check(
      snapshot(system) == before,
      "decode-disturbed-state",
      "decoding changed the penalties or constraints of the system",
  )
  vals = list(system.variable_values)
  keys = list(system.variable_keys)
  assignment = common.must(
      ctx,
      lambda: solver.assignments_from_assignment_vector(system, vector),
      "naming the decision",
  )
  ctx.check(
      sorted(assignment) == ref.keys
      and all(v in vals for v in assignment.values())
      and [assignment[k] for k in keys] == [vals[int(i)] for i in vector],
      "incomplete-decision",
      lambda: f"decoded decision {assignment} for variables {ref.keys}",
  )
  cost = float(cost)
  t = tuple(assignment[k] for k in ref.keys)
  true = ref.cost_of(t)
  optimum = ref.optimum()
  bound = sum(min(best.values(), default=math.inf) for _, best in tables)
  scale = max(
      [1.0, abs(bound) if math.isfinite(bound) else 1.0]
      + [abs(x) for u in ref.unary.values() for x in u.values()
         if math.isfinite(x)]
  )
  tol = 1e-6 * scale
  ctx.log("decode", direction, t, round(cost, 6) if cost < 1e300 else "inf")
  ctx.check(
      cost == true or abs(cost - true) <= tol,
      "wrong-cost",
      lambda: f"decision {t} reported to cost {cost}, really costs {true}",
  )
  ctx.check(
      cost >= bound - tol,
      "below-bound",
      lambda: f"decision {t} reported at {cost}, below the bound {bound}",
  )
  order = ref.keys if direction == "FORWARD" else ref.keys[::-1]
  fixed = {}
  for k in order:
    agg = aggregated(tables, ref.vals, fixed, k)
    got = agg[ref.vals.index(assignment[k])]
    low = min(agg)
    ctx.check(
        got == low or got <= low + tol,
        "not-greedy",
        lambda: (
            f"{direction} decode with {fixed} fixed chose {k}:={assignment[k]} at"
            f" {got}, but {agg} was available"
        ),
    )
    fixed[k] = assignment[k]
  single = len(ref.tables) == 1
  if single:
    ctx.check(
        cost == optimum or abs(cost - optimum) <= tol,
        "single-diagram-not-optimal",
        lambda: f"decoded {cost} for one diagram, optimum {optimum}",
    )
    ctx.probes["single-diagram"] += 1
  if not math.isfinite(cost):
    ctx.probes["infeasible-decode"] += 1
  ctx.mark(
      len(ref.tables), len(ref.keys), direction, state,
      cost == optimum or abs(cost - optimum) <= tol,
  )
