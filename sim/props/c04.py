"""C04: shortest-path tables answer as if recomputed from scratch."""

import math

import env  # pylint: disable=unused-import
import numpy as np

import core
from models import build
from models import dagmodel
from props import common

from r_u_sure.decision_diagrams import packed_dags

LEVEL = common.LEVEL
COUNT = {"quick": 120000, "thorough": 1200000}
PROTECTED = ("keys", "vals", "missing", "n")
RULE = (
    "A case is a random decision diagram plus a history of penalty updates,"
    " cost / min-marginal / best-path queries, table copies, and queries cut"
    " short by an interrupt or allocation failure at a seeded line. Non-trivial:"
    " at least one query follows a penalty update that follows an earlier query"
    " (so cached work had to be invalidated), on a diagram with >= 1 variable."
)
MEASURE = "distinct (operation kind, previous operation kind, relative variable position) triples over the cached tables"
REAL = ["decision_diagrams/gated_state_dag", "decision_diagrams/packed_dags"]
STUB = [common.STUB_COMPILER]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "one caller at a time per table (tables are mutable caches by design)",
    "interrupts are injected into queries, not into the penalty setter itself",
]

STRATEGIES = ("AT_END", "AT_START", "FROM_MIDDLE")


def gen(rng, tier, index):
  nk = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
  nv = rng.randint(2, 3)
  vals = dagmodel.gen_vals(rng, nv)
  wide = rng.random() < 0.3
  spec = dagmodel.gen_spec(
      rng, dagmodel.gen_keys(rng, nk), vals, rng.choice(vals),
      max_states=rng.choice([4, 6, 8]), wide=wide,
  )
  keys = dagmodel.live_keys(spec)
  ops = []
  faults_on = rng.random() < 0.6
  n_ops = rng.choice([6, 12, 25])
  tables = 1
  allow_inf = rng.random() < 0.5
  for _ in range(n_ops):
    t = rng.randrange(tables)
    r = rng.random()
    if r < 0.35 and keys:
      vecv = []
      for _ in vals:
        u = rng.random()
        vecv.append(
            "inf" if allow_inf and u < 0.12
            else dagmodel.gen_number(rng, wide)
        )
      ops.append(["set", t, rng.randrange(len(keys)), vecv])
    elif r < 0.55 and keys:
      ops.append(["mm", t, rng.randrange(len(keys))])
    elif r < 0.60:
      ops.append(["all", t])
    elif r < 0.75:
      ops.append(["cost", t, rng.choice(STRATEGIES)])
    elif r < 0.85:
      ops.append(["path", t])
    elif r < 0.90 and tables < 3:
      ops.append(["copy", t])
      tables += 1
    elif r < 0.92:
      ops.append(["valid", t])
    elif r < 0.94 and tables < 3:
      ops.append([
          "new", t,
          [[dagmodel.gen_number(rng, wide) for _ in vals] for _ in keys],
      ])
      tables += 1
    elif faults_on:
      ops.append([
          "fault",
          t,
          rng.choice(["AT_END", "AT_START", "FROM_MIDDLE", "path", "valid"]),
          rng.choice(["interrupt", "nomem"]),
          int(2 ** rng.uniform(0, 7)),
      ])
  return {
      "spec": spec,
      "prune": rng.choice(["python", "jit", "rewrite"]),
      "packer": rng.choice(["python", "numba"]),
      "ops": ops,
  }


def valid(case):
  return dagmodel.valid_spec(case["spec"]) and dagmodel.feasible(case["spec"])


class Ref:

  def __init__(self, keys, vals):
    self.pen = {k: {v: 0.0 for v in vals} for k in keys}

  def copy(self):
    new = Ref((), ())
    new.pen = {k: dict(v) for k, v in self.pen.items()}
    return new


def run(case, ctx):
  spec = case["spec"]
  vals = spec["vals"]
  keys, best = dagmodel.table(spec)
  dag, conv = common.must(
      ctx,
      lambda: build.pack(spec, prune=case["prune"], packer=case["packer"]),
      "packing",
  )
  ctx.check(
      list(conv.variable_keys) == keys and list(conv.variable_values) == vals,
      "variables",
      lambda: f"variables {list(conv.variable_keys)} != {keys}",
  )
  matrix_before = dag.packed_edge_matrix.tobytes()
  memos = [packed_dags.empty_unpenalized_table(dag)]
  refs = [Ref(keys, vals)]
  prev = None
  queried = False
  stale = False

  def ref_cost(ref):
    costs = dagmodel.penalised(best, keys, vals, ref.pen)
    return min(costs.values(), default=math.inf)

  def check_path(memo, ref, path, assignments):
    want = ref_cost(ref)
    total = 0.0
    state = dag_initial
    for edge in path:
      ctx.check(
          edge.source == state, "path", lambda: f"path not connected: {path}"
      )
      state = edge.dest
      total += edge.cost
      if edge.required_assignment is not None:
        ra = edge.required_assignment
        ctx.check(
            assignments.get(ra.key) == ra.value,
            "path",
            lambda: f"path and assignment disagree: {path} {assignments}",
        )
    ctx.check(state == dag_final, "path", lambda: f"path stops early: {path}")
    ctx.check(
        set(assignments) == set(keys),
        "path",
        lambda: f"assignment {assignments} does not cover {keys}",
    )
    t = tuple(assignments[k] for k in keys)
    assigned = {
        e.required_assignment.key
        for e in path
        if e.required_assignment is not None
    }
    for k in keys:
      if k not in assigned:
        ctx.check(
            assignments[k] == spec["missing"],
            "path",
            lambda: f"unassigned variable {k} not reported missing",
        )
    total += sum(ref.pen[k][v] for k, v in zip(keys, t))
    common.check_exact(ctx, total, want, "path-cost", "cost of extracted path")

  dag_initial = conv.tagged_states[0].original_state
  dag_final = conv.tagged_states[-1].original_state

  for op in case["ops"]:
    kind, t = op[0], op[1]
    if t >= len(memos):
      continue
    memo, ref = memos[t], refs[t]
    ctx.ops[kind] += 1
    if kind == "set":
      if op[2] >= len(keys):
        continue
      vecv = common.vec(op[3])[: len(vals)]
      if len(vecv) < len(vals):
        continue
      arr = np.array(vecv, dtype=np.float64)
      common.must(
          ctx,
          lambda: packed_dags.set_penalties(memo, op[2], arr),
          "set_penalties",
      )
      arr[:] = 1234.5  # the table must not alias the caller's array
      ref.pen[keys[op[2]]] = dict(zip(vals, vecv))
      if queried:
        stale = True
    elif kind == "mm":
      if op[2] >= len(keys):
        continue
      got = common.must(
          ctx,
          lambda: packed_dags.compute_min_marginals_for_variable(memo, op[2]),
          "min marginals",
      )
      want = dagmodel.min_marginals(best, keys, vals, ref.pen, keys[op[2]])
      common.check_exact_vec(
          ctx, got, want, "min-marginals", f"min-marginals of variable {op[2]}"
      )
      queried = True
    elif kind == "all":
      if not keys:
        continue
      got = common.must(
          ctx, lambda: packed_dags.compute_all_min_marginals(memo), "all"
      )
      for i, k in enumerate(keys):
        want = dagmodel.min_marginals(best, keys, vals, ref.pen, k)
        common.check_exact_vec(
            ctx, got[i], want, "min-marginals", f"min-marginals of variable {i}"
        )
      queried = True
    elif kind == "cost":
      strategy = packed_dags.MinimalCostComputationStrategy[op[2]]
      got = common.must(
          ctx,
          lambda: packed_dags.compute_minimal_cost(memo, strategy),
          f"minimal cost {op[2]}",
      )
      common.check_exact(
          ctx, got, ref_cost(ref), "minimal-cost", f"minimal cost ({op[2]})"
      )
      queried = True
    elif kind == "path":
      if ref_cost(ref) == math.inf:
        continue
      path, assignments = common.must(
          ctx,
          lambda: packed_dags.extract_minimal_cost_path_and_assignments(
              memo, conv
          ),
          "best path",
      )
      check_path(memo, ref, path, assignments)
      queried = True
    elif kind == "copy":
      memos.append(
          common.must(ctx, lambda: packed_dags.copy_memo(memo), "copy")
      )
      refs.append(ref.copy())
    elif kind == "new":
      rows = op[2]
      if len(rows) < len(keys) or any(len(r) < len(vals) for r in rows):
        continue
      arr = np.array(
          [common.vec(r)[: len(vals)] for r in rows[: len(keys)]],
          dtype=np.float64,
      ).reshape((len(keys), len(vals)))
      memos.append(
          common.must(
              ctx, lambda: packed_dags.empty_table(dag, arr), "new table"
          )
      )
      new = Ref(keys, vals)
      for k, r in zip(keys, rows):
        new.pen[k] = dict(zip(vals, common.vec(r)))
      refs.append(new)
      # The caller's array and the table are not the same thing.
      arr[...] = 1234.5
    elif kind == "valid":
      common.must(ctx, lambda: packed_dags.make_fully_valid(memo), "refresh")
      queried = True
    elif kind == "fault":
      if op[2] == "path":
        if ref_cost(ref) == math.inf:
          continue
        fn = lambda: packed_dags.extract_minimal_cost_path_and_assignments(
            memo, conv
        )
      elif op[2] == "valid":
        fn = lambda: packed_dags.make_fully_valid(memo)
      else:
        strategy = packed_dags.MinimalCostComputationStrategy[op[2]]
        fn = lambda: packed_dags.compute_minimal_cost(memo, strategy)
      done, _ = common.faulty(ctx, fn, op[3], op[4], f"interrupted {op[2]}")
      if not done:
        ctx.probes["query cut short"] += 1
      queried = True
    rel = (
        None
        if kind not in ("set", "mm") or prev is None or prev[1] is None
        else (op[2] > prev[1]) - (op[2] < prev[1])
    )
    ctx.mark(kind, prev and prev[0], rel, len(keys))
    prev = (kind, op[2] if kind in ("set", "mm") else None)
    if stale and kind in ("mm", "all", "cost", "path"):
      ctx.nontrivial = bool(keys)
      ctx.probes["query after invalidation"] += 1
    ctx.log(kind, t)

  # Afterwards: every table still answers correctly and nothing leaked.
  for memo, ref in zip(memos, refs):
    for i, k in enumerate(keys):
      want = dagmodel.min_marginals(best, keys, vals, ref.pen, k)
      got = common.must(
          ctx,
          lambda: packed_dags.compute_min_marginals_for_variable(memo, i),
          "min marginals",
      )
      common.check_exact_vec(ctx, got, want, "min-marginals", f"final check of {i}")
      ctx.log("final", [float(x) for x in got])
    for s in STRATEGIES:
      got = common.must(
          ctx,
          lambda: packed_dags.compute_minimal_cost(
              memo, packed_dags.MinimalCostComputationStrategy[s]
          ),
          f"minimal cost {s}",
      )
      common.check_exact(
          ctx, got, ref_cost(ref), "minimal-cost", f"final minimal cost ({s})"
      )
  ctx.check(
      dag.packed_edge_matrix.tobytes() == matrix_before,
      "diagram-changed",
      "queries changed the shared diagram",
  )
