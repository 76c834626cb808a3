"""C05: copies of a system never influence each other or the shared diagrams."""

import math

import env  # pylint: disable=unused-import
import numpy as np

import core
import sched_sim
from models import build
from models import dagmodel
from models import systems
from props import common

from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import packed_dags

LEVEL = common.LEVEL
COUNT = {"quick": 20000, "thorough": 250000}
WALL_LIMIT = 90
RULE = (
    "A case is a random system, a history on it, a family of copies (copies of"
    " copies included) taken at different moments, and 2-4 caller threads that"
    " work on different members of the family under a seeded line-level"
    " schedule, some of them cancelled half-way. Every member is compared bit for"
    " bit with a system built from scratch that ran the member's own history"
    " alone. Non-trivial: at least two members of one family changed, with at"
    " least one hand-over between threads."
)
MEASURE = "distinct hand-over sequences (thread, step, next thread)"
REAL = [
    "decision_diagrams/consistent_path_dual_solver",
    "decision_diagrams/packed_dags",
    "decision_diagrams/gated_state_dag",
]
STUB = [common.STUB_COMPILER, common.STUB_CLOCK, common.STUB_SCHED]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "no single system is used by two threads at once; systems of one family"
    " share their diagrams",
    "a system whose operation was cancelled half-way is abandoned by its owner",
]


def gen_op(rng, keys, vals):
  r = rng.random()
  if r < 0.2:
    return ["solve", rng.choice(["inf", -1.0])]
  if r < 0.35:
    return ["average", [rng.randrange(len(keys)) for _ in range(rng.randint(1, 4))]]
  if r < 0.55:
    c = {}
    for k in rng.sample(keys, rng.randint(1, len(keys))):
      c[str(k)] = rng.choice(vals)
    return ["constrain", c, rng.choice([0.5, 2.0, 100.0, "inf"])]
  if r < 0.7:
    return ["break", rng.randrange(100), rng.choice([0.1, 1.0, 4.0])]
  if r < 0.8:
    return [
        "commit",
        rng.choice(["FORWARD", "REVERSE"]),
        rng.choice([0.25, 0.5, 1.0]),
        rng.choice([0.0, 0.5, 1.0]),
    ]
  if r < 0.9:
    return ["decode", rng.choice(["FORWARD", "REVERSE"])]
  if r < 0.95:
    return ["scale", rng.choice([0.5, 2.0, 3.0])]
  return ["reclone"]


def gen(rng, tier, index):
  while True:
    s = systems.gen_system(rng)
    keys = sorted({k for x in s["specs"] for k in dagmodel.live_keys(x)})
    if keys:
      break
  vals = s["specs"][0]["vals"]
  # Sequential set-up: operations on existing members, and copies.
  setup = []
  members = 1
  for _ in range(rng.randint(1, 6)):
    if rng.random() < 0.5 and members < 5:
      setup.append(["clone", rng.randrange(members)])
      members += 1
    else:
      setup.append(["op", rng.randrange(members), gen_op(rng, keys, vals)])
  if members == 1:
    setup.append(["clone", 0])
    members = 2
  threads = min(members, rng.choice([2, 2, 3, 4]))
  plans = []
  for t in range(threads):
    owned = [m for m in range(members) if m % threads == t]
    plan = []
    for _ in range(rng.randint(1, 5)):
      fault = None
      if rng.random() < 0.15:
        fault = [rng.choice(["interrupt", "nomem"]), common.gen_at(rng)]
      plan.append([rng.choice(owned), gen_op(rng, keys, vals), fault])
    plans.append(plan)
  return {
      "system": s,
      "setup": setup,
      "plans": plans,
      "schedule": common.gen_schedule(rng, threads, rng.choice([4, 10, 30])),
  }


def valid(case):
  return (
      systems.valid_system(case["system"])
      and any(dagmodel.live_keys(x) for x in case["system"]["specs"])
      and len(case["plans"]) >= 1
      and all(s[1] <= case["setup"][:i].count(None) + sum(
          1 for x in case["setup"][:i] if x[0] == "clone")
          for i, s in enumerate(case["setup"]))
      and all(
          e[0] < 1 + sum(1 for x in case["setup"] if x[0] == "clone")
          and e[0] % len(case["plans"]) == t
          for t, plan in enumerate(case["plans"]) for e in plan
      )
  )


def shrinks(case):
  for t, plan in enumerate(case["plans"]):
    for i in range(len(plan)):
      yield {**case, "plans": case["plans"][:t]
             + [plan[:i] + plan[i + 1 :]] + case["plans"][t + 1 :]}
  for i in range(len(case["setup"])):
    yield {**case, "setup": case["setup"][:i] + case["setup"][i + 1 :]}
  sch = case["schedule"]
  size = len(sch)
  while size >= 1:
    for i in range(0, len(sch), size):
      yield {**case, "schedule": sch[:i] + sch[i + size :]}
    size //= 2
  for small in systems.shrink_system(case["system"]):
    yield {**case, "system": small}


def apply(system, op, keys):
  """Runs one operation; returns (system, comparable outcome)."""
  kind = op[0]
  if kind == "solve":
    timeout = math.inf if op[1] == "inf" else op[1]
    res = solver.solve_system_with_sweeps(system.data, soft_timeout=timeout)
    return system, [
        [float(x) for x in res.objective_at_step],
        [int(x) for x in res.variable_at_step],
        bool(res.reached_plateau),
    ]
  if kind == "average":
    return system, [
        float(solver.min_marginal_average(system.data, v))
        for v in op[1] if v < len(keys)
    ]
  if kind == "constrain":
    constraints = {int(k): v for k, v in op[1].items() if int(k) in keys}
    penalty = math.inf if op[2] == "inf" else float(op[2])
    solver.constrain_system(system, constraints, penalty)
    return system, None
  if kind == "break":
    solver.break_symmetry_randomly(
        system, noise_scale=op[2], random_seed=op[1]
    )
    return system, None
  if kind == "commit":
    status = solver.partially_commit(
        system.data,
        solver.SweepDirection[op[1]],
        target_commitments_per_variable=op[2],
        gap_strictness=op[3],
    )
    return system, status.name
  if kind == "decode":
    vector, cost = solver.greedy_extract(
        system.data, solver.SweepDirection[op[1]]
    )
    return system, [[int(x) for x in vector], float(cost)]
  if kind == "scale":
    # A rescaled diagram is a new diagram.
    dag = system.data.dag_tables[0].dag
    scaled = packed_dags.scale_packed_dag_costs(dag, op[1])
    table = packed_dags.empty_unpenalized_table(scaled)
    return system, float(packed_dags.compute_minimal_cost(table))
  return solver.clone_system(system), None


def dag_bytes(system):
  out = []
  for table in system.data.dag_tables:
    d = table.dag
    out.append((
        d.packed_edge_matrix.tobytes(),
        d.edge_group_boundary_indices.tobytes(),
        d.state_variable_boundary_indices.tobytes(),
        int(d.num_tagged_states),
    ))
  return out


def public_state(system):
  d = system.data
  return [
      d.extra_unary_costs.tolist(),
      [t.penalties.tolist() for t in d.dag_tables],
      [
          repr([
              float(x)
              for x in np.ravel(packed_dags.compute_all_min_marginals(t))
          ])
          for t in d.dag_tables
      ],
  ]


def same(a, b):
  return repr(a) == repr(b)


def run(case, ctx):
  s = case["system"]
  make = lambda: build.system(s["specs"], s["weights"], s["pipes"])
  base = common.must(ctx, make, "building the system")
  ref_keys = list(base.variable_keys)
  keys = set(ref_keys)
  before = dag_bytes(base)
  names = (list(base.variable_keys), list(base.variable_values))
  members = [base]
  histories = [[]]  # operations each member has seen, its ancestors' included
  outcomes = [[]]
  clock = sched_sim.VirtualClock([0.0])
  with clock:
    for step in case["setup"]:
      if step[0] == "clone":
        members.append(
            common.must(
                ctx, lambda: solver.clone_system(members[step[1]]), "copying"
            )
        )
        histories.append(list(histories[step[1]]))
        outcomes.append(list(outcomes[step[1]]))
      else:
        m = step[1]
        members[m], out = common.must(
            ctx, lambda: apply(members[m], step[2], keys), step[2][0]
        )
        histories[m].append(step[2])
        outcomes[m].append(out)
    abandoned = set()

    def body(plan):
      def run_plan(tracer):
        for m, op, fault in plan:
          if m in abandoned:
            continue
          ctx.ops[op[0]] += 1
          fn = lambda: apply(members[m], op, keys)
          if fault:
            ctx.armed[fault[0]] += 1
            result = sched_sim.call(
                fn, fault=fault[0], at=fault[1], tracer=tracer
            )
            if result.fired is not None:
              ctx.faults[fault[0]] += 1
            if result.exc is not None:
              if not isinstance(result.exc, sched_sim.INJECTED):
                raise result.exc
              abandoned.add(m)
              continue
            members[m], out = result.value
          else:
            members[m], out = fn()
          histories[m].append(op)
          outcomes[m].append(out)

      return run_plan

    sim = sched_sim.ThreadSim(
        [body(p) for p in case["plans"]], case["schedule"]
    ).run()
  ctx.switches += sim.switches
  ctx.steps += sum(t.steps for t in sim.tracers)
  ctx.mark(*sim.trace)
  for error in sim.errors:
    if error is not None:
      raise core.Violation(
          "operation-failed", core._describe(error)
      ) from error
  changed = 0
  for m, system in enumerate(members):
    if m in abandoned:
      continue
    changed += bool(histories[m])
    alone = make()
    with sched_sim.VirtualClock([0.0]):
      want = []
      for op in histories[m]:
        alone, out = common.must(
            ctx, lambda: apply(alone, op, keys), f"{op[0]} alone"
        )
        want.append(out)
    ctx.check(
        same(outcomes[m], want),
        "copy-diverged",
        lambda: (
            f"member {m} returned {outcomes[m]}, the same history alone returns"
            f" {want}"
        ),
    )
    ctx.check(
        same(public_state(system), public_state(alone)),
        "copy-diverged",
        lambda: (
            f"member {m} ended in {public_state(system)}, the same history alone"
            f" ends in {public_state(alone)}"
        ),
    )
    ctx.check(
        dag_bytes(system) == before,
        "diagram-changed",
        lambda: f"member {m}: the shared diagrams changed",
    )
    ctx.check(
        (list(system.variable_keys), list(system.variable_values)) == names,
        "names-changed",
        "variables changed",
    )
    ctx.log(m, outcomes[m])
  if changed >= 2 and sim.switches:
    ctx.nontrivial = True
