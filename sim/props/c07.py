"""C07: adjustments to a system price exactly what was asked for."""

import math

import env  # pylint: disable=unused-import
import numpy as np

import core
import sched_sim
from models import build
from models import dagmodel
from models import systems
from props import c03
from props import common

from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver

LEVEL = common.LEVEL
COUNT = {"quick": 36000, "thorough": 300000}
WALL_LIMIT = 60
RULE = (
    "A case is a random system and a history of constraints, seeded and unseeded"
    " random perturbations (run next to a second caller that perturbs another"
    " copy and to consumers of the global random generator, under a seeded"
    " line-level schedule), partial commitments and solves in between. After each"
    " step the price of every joint decision is read back and compared with what"
    " the step asked for. Non-trivial: at least two adjustments on a system with"
    " >= 2 variables."
)
MEASURE = "distinct (adjustment, previous adjustment, diagrams, status) tuples and hand-over sequences"
REAL = [
    "decision_diagrams/consistent_path_dual_solver",
    "decision_diagrams/packed_dags",
    "decision_diagrams/gated_state_dag",
]
STUB = [common.STUB_COMPILER, common.STUB_CLOCK, common.STUB_SCHED]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "one caller at a time per system; other callers use copies",
    "prices are compared with a relative rounding slack of 1e-6",
]


def gen(rng, tier, index):
  while True:
    s = systems.gen_system(rng)
    keys = sorted({k for x in s["specs"] for k in dagmodel.live_keys(x)})
    if keys:
      break
  vals = s["specs"][0]["vals"]
  ops = []
  for _ in range(rng.choice([1, 2, 3, 5])):
    r = rng.random()
    if r < 0.3:
      c = {}
      for k in rng.sample(keys, rng.randint(1, len(keys))):
        c[str(k)] = rng.choice(vals)
      ops.append(["constrain", c, rng.choice([0.25, 0.5, 2.0, 100.0, 5000.0, "inf", None])])
    elif r < 0.6:
      ops.append([
          "break",
          rng.choice([None, 0, 0, 1, 7, rng.randrange(2**31)]),
          rng.choice([None, 0.0, 0.01, 0.5, 1.0, 8.0]),
          rng.randrange(1000),  # the other caller's seed
          common.gen_schedule(rng, 2, rng.choice([2, 6, 20])),
          rng.choice([True, False]),  # disturb the global generator
      ])
    elif r < 0.85:
      ops.append([
          "commit",
          rng.choice(["FORWARD", "REVERSE"]),
          rng.choice([0.1, 0.25, 0.5, 0.75, 1.0]),
          rng.choice([0.0, 0.25, 0.5, 1.0]),
      ])
    else:
      ops.append([
          "solve", rng.choice(["inf", 0.5, 1.5]),
          rng.choice([None, None, rng.randint(1, 8)]),  # cancelled at this step
      ])
  return {"system": s, "ops": ops}


def valid(case):
  return systems.valid_system(case["system"]) and any(
      dagmodel.live_keys(x) for x in case["system"]["specs"]
  )


def shrinks(case):
  for i in range(len(case["ops"])):
    yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1 :]}
  for i, op in enumerate(case["ops"]):
    if op[0] == "break" and op[4]:
      yield {**case, "ops": case["ops"][:i]
             + [op[:4] + [op[4][: len(op[4]) // 2]] + op[5:]]
             + case["ops"][i + 1 :]}
  for small in systems.shrink_system(case["system"]):
    yield {**case, "system": small}


def prices(system):
  """Total price of each (variable, value) over all diagrams: [vars][vals]."""
  d = system.data
  out = []
  for i in range(int(d.num_variable_keys)):
    row = np.zeros((int(d.num_variable_values),))
    for dag in range(len(d.dag_tables)):
      j = int(d.dag_variable_index_map[i, dag])
      if j != -1:
        row = row + d.dag_tables[dag].penalties[j, :]
    out.append([float(x) for x in row])
  return out


def run(case, ctx):
  s = case["system"]
  system = common.must(
      ctx, lambda: build.system(s["specs"], s["weights"], s["pipes"]),
      "building the system",
  )
  ref = systems.RefSystem(s["specs"])
  keys, vals = ref.keys, ref.vals
  ctx.check(
      list(system.variable_keys) == keys
      and list(system.variable_values) == vals,
      "variables", lambda: f"variables {list(system.variable_keys)} != {keys}",
  )
  prev = None
  adjustments = 0
  forbidden = set()  # (key, value) pairs priced out by partial commitment
  for op in case["ops"]:
    kind = op[0]
    ctx.ops[kind] += 1
    status = None
    if kind == "solve":
      timeout = math.inf if op[1] == "inf" else op[1]
      clock = sched_sim.VirtualClock([1.0])
      fn = lambda: solver.solve_system_with_sweeps(
          system.data, soft_timeout=timeout
      )
      with clock:
        if op[2] is None:
          common.must(ctx, fn, "solve")
        else:
          common.faulty(ctx, fn, "interrupt", op[2], "cancelled solve")
      if timeout < clock.now:
        ctx.faults["budget-expired"] += 1
      ctx.sim_time += clock.now
    elif kind == "constrain":
      constraints = {int(k): v for k, v in op[1].items() if int(k) in keys}
      if op[2] is None:
        common.must(
            ctx, lambda: solver.constrain_system(system, constraints),
            "constrain",
        )
        ref.constrain(constraints, math.inf)
      else:
        penalty = math.inf if op[2] == "inf" else float(op[2])
        common.must(
            ctx,
            lambda: solver.constrain_system(system, constraints, penalty),
            "constrain",
        )
        ref.constrain(constraints, penalty)
      adjustments += 1
    elif kind == "break":
      do_break(ctx, system, ref, op)
      adjustments += 1
    else:
      status = do_commit(ctx, system, ref, op, forbidden)
      adjustments += 1
    check_prices(ctx, system, ref, kind)
    ctx.mark(kind, prev, len(ref.tables), status)
    ctx.log(kind, status)
    prev = kind
  ctx.nontrivial = adjustments >= 2 and len(keys) >= 2


def check_prices(ctx, system, ref, kind):
  scale = max(
      [1.0] + [abs(x) for u in ref.unary.values() for x in u.values()
               if math.isfinite(x)]
  )
  got = systems.observed_costs(system, ref)
  for t, c in got.items():
    want = ref.cost_of(t)
    ctx.check(
        c == want or (
            math.isfinite(want)
            and abs(c - want) <= 1e-6 * max(scale, abs(want))
        ),
        "wrong-price",
        lambda: f"after {kind}: joint decision {t} costs {c}, asked for {want}",
    )
  # The documented ledger of extra costs says the same.
  extra = system.data.extra_unary_costs
  live = ref.costs()
  possible = {(k, v) for t in live for k, v in zip(ref.keys, t)}
  for i, k in enumerate(ref.keys):
    for j, v in enumerate(ref.vals):
      e = float(extra[i, j])
      w = ref.unary[k][v]
      ctx.check(
          e == w or abs(e - w) <= 1e-6 * scale
          # a choice that no joint decision can make has no meaningful price
          or (k, v) not in possible,
          "wrong-ledger",
          lambda: f"after {kind}: extra cost of {k}:={v} is {e}, asked for {w}",
      )


def perturb(system, seed, scale):
  if scale is None:
    if seed is None:
      solver.break_symmetry_randomly(system)
    else:
      solver.break_symmetry_randomly(system, random_seed=seed)
  elif seed is None:
    solver.break_symmetry_randomly(system, noise_scale=scale)
  else:
    solver.break_symmetry_randomly(
        system, noise_scale=scale, random_seed=seed
    )


def delta(before, after):
  return [
      [None if math.isinf(b) else a - b for b, a in zip(rb, ra)]
      for rb, ra in zip(before, after)
  ]


def do_break(ctx, system, ref, op):
  _, seed, scale, other_seed, schedule, disturb = op
  limit = 1.0 if scale is None else scale
  alone = solver.clone_system(system)
  other = solver.clone_system(system)
  other_alone = solver.clone_system(system)
  before = prices(system)
  if disturb:
    np.random.seed(other_seed)
    np.random.random(3)
  rng_before = repr(np.random.get_state())

  def main(tracer):
    perturb(system, seed, scale)

  def rival(tracer):
    perturb(other, other_seed, 2.0)

  sim = sched_sim.ThreadSim([main, rival], schedule).run()
  ctx.switches += sim.switches
  ctx.faults["rival-interleaved"] += 1 if sim.switches else 0
  ctx.faults["global-rng-reseeded"] += 1 if disturb else 0
  ctx.steps += sum(t.steps for t in sim.tracers)
  ctx.mark("trace", *sim.trace)
  for e in sim.errors:
    if e is not None:
      raise core.Violation("operation-failed", core._describe(e)) from e
  ctx.check(
      repr(np.random.get_state()) == rng_before,
      "global-rng-disturbed",
      "perturbing a system changed the global random generator",
  )
  after = prices(system)
  got = delta(before, after)
  mag = max(
      [1.0] + [abs(x) for r in before for x in r if math.isfinite(x)]
  )
  for i, row in enumerate(got):
    for j, x in enumerate(row):
      if x is None:
        continue
      ctx.check(
          -1e-9 * mag <= x <= limit + 1e-9 * mag,
          "perturbation-out-of-range",
          lambda: f"{ref.keys[i]}:={ref.vals[j]} moved by {x}, limit {limit}",
      )
      ref.unary[ref.keys[i]][ref.vals[j]] += x
  if seed is not None:
    if disturb:
      np.random.random(17)
    perturb(alone, seed, scale)
    again = delta(before, prices(alone))
    ctx.check(
        all(
            (x is None and y is None) or abs(x - y) <= 1e-9 * mag
            for r, q in zip(got, again) for x, y in zip(r, q)
        ),
        "not-reproducible",
        lambda: f"seed {seed}: perturbation {got}, alone {again}",
    )
    ctx.log("break", seed, [[x and round(x, 6) for x in r] for r in got])
  perturb(other_alone, other_seed, 2.0)
  a, b = delta(before, prices(other)), delta(before, prices(other_alone))
  ctx.check(
      all(
          (x is None and y is None) or abs(x - y) <= 1e-9 * mag
          for r, q in zip(a, b) for x, y in zip(r, q)
      ),
      "not-reproducible",
      lambda: f"seed {other_seed}: perturbation {a}, alone {b}",
  )
  if seed is not None and seed != other_seed and limit > 0.001:
    # Different seeds must not share their noise (compare in units of scale).
    flat = [
        (x / limit, y / 2.0)
        for r, q in zip(got, a) for x, y in zip(r, q) if x is not None
    ]
    if len(flat) >= 2:
      ctx.check(
          any(abs(x - y) > 1e-7 for x, y in flat),
          "seed-ignored",
          lambda: f"seeds {seed} and {other_seed} gave the same noise",
      )
  # No two choices share their noise: ties would survive.
  if limit > 0.001:
    seen = [x for r in got for x in r if x is not None]
    if len(seen) >= 3:
      ctx.check(
          max(seen) - min(seen) > 1e-6 * limit,
          "ties-not-broken",
          lambda: f"every choice moved by the same amount {seen[0]}",
      )


def do_commit(ctx, system, ref, op, forbidden):
  _, direction, target, strictness = op
  before = prices(system)
  costs = ref.costs()
  tables = c03.penalised_tables(system, ref)
  agg = {
      k: c03.aggregated(tables, ref.vals, {}, k) for k in ref.keys
  }
  optimum = ref.optimum()
  status = common.must(
      ctx,
      lambda: solver.partially_commit(
          system.data, solver.SweepDirection[direction],
          target_commitments_per_variable=target, gap_strictness=strictness,
      ),
      "partial commitment",
  )
  after = prices(system)
  new = []
  for i, k in enumerate(ref.keys):
    for j, v in enumerate(ref.vals):
      b, a = before[i][j], after[i][j]
      if a == b or (math.isfinite(a) and math.isfinite(b)
                    and abs(a - b) <= 1e-9 * max(1.0, abs(b))):
        continue
      ctx.check(
          math.isinf(a) and a > 0, "commit-repriced",
          lambda: f"commitment moved {k}:={v} from {b} to {a}",
      )
      new.append((k, v))
      ref.unary[k][v] = math.inf
  progress = [kv for kv in new if math.isfinite(agg[kv[0]][ref.vals.index(kv[1])])]
  S = solver.PartialCommitmentStatus
  if status == S.MADE_PARTIAL_ASSIGNMENT:
    ctx.check(
        bool(progress), "wrong-status",
        lambda: f"claims progress but newly forbade only {new}",
    )
    ctx.probes["committed"] += 1
  elif status == S.STUCK:
    # Spelling out choices that were impossible anyway is not progress, but no
    # possible joint decision may disappear.
    gone = [t for t in costs if math.isinf(ref.cost_of(t))]
    ctx.check(
        not gone, "wrong-status",
        lambda: f"claims to be stuck but ruled out {gone}",
    )
  else:
    ctx.check(
        not new, "wrong-status",
        lambda: f"asks for greedy decoding but forbade {new}",
    )
  # Every variable keeps a choice that was open before.
  for i, k in enumerate(ref.keys):
    if any(math.isfinite(x) for x in agg[k]):
      ctx.check(
          any(
              (k, v) not in new and math.isfinite(before[i][j])
              for j, v in enumerate(ref.vals)
          ),
          "variable-blocked",
          lambda: f"commitment left no choice for {k}",
      )
  # What was forbidden was worse than the bound certified before.
  bound = max(min(a) for a in agg.values())
  for k, v in progress:
    x = agg[k][ref.vals.index(v)]
    tol = 1e-6 * max(1.0, abs(x))
    first = (ref.keys if direction == "FORWARD" else ref.keys[::-1])[0]
    if k == first or len(ref.tables) == 1:
      ctx.check(
          x > bound - tol, "good-choice-forbidden",
          lambda: f"forbade {k}:={v} at {x}, bound {bound}",
      )
  # The first variable is judged by the gap that was asked for: the quantile
  # of the open choices' bounds, scaled by the strictness.
  if status != S.NEEDS_GREEDY_EXTRACT:
    q = 1 - target / len(ref.vals)
    flat = [-math.inf if math.isinf(x) else x for a in agg.values() for x in a]
    with np.errstate(all="ignore"):
      threshold = float(np.quantile(np.array(flat), q))
    if math.isfinite(threshold) and math.isfinite(bound):
      limit = bound + max(0.0, threshold - bound) * strictness
      k = (ref.keys if direction == "FORWARD" else ref.keys[::-1])[0]
      for v, x in zip(ref.vals, agg[k]):
        if not math.isfinite(x):
          continue
        tol = 1e-6 * max(1.0, abs(x), abs(limit))
        ctx.check(
            x > limit - tol if (k, v) in progress else x <= limit + tol,
            "wrong-gap",
            lambda: (
                f"{'forbade' if (k, v) in progress else 'kept'} {k}:={v} at"
                f" {x}; the limit was {limit}"
            ),
        )
  if len(ref.tables) == 1 and math.isfinite(optimum):
    now = ref.optimum()
    ctx.check(
        abs(now - optimum) <= 1e-6 * max(1.0, abs(optimum)),
        "optimum-forbidden",
        lambda: f"optimum was {optimum}, commitment leaves {now} (one diagram)",
    )
    if strictness == 0.0 and status == S.MADE_PARTIAL_ASSIGNMENT:
      left = c03.penalised_tables(system, ref)
      for k in ref.keys:
        for v, x in zip(ref.vals, c03.aggregated(left, ref.vals, {}, k)):
          ctx.check(
              math.isinf(x) or x <= now + 1e-4 * max(1.0, abs(now)),
              "bad-choice-kept",
              lambda: f"strict commitment kept {k}:={v} at {x}, optimum {now}",
          )
  return status.name
