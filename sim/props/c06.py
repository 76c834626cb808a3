"""C06: preparing a diagram never changes what it means."""

import itertools
import math

import env  # pylint: disable=unused-import
import numba
import numpy as np

import core
import sched_sim
from models import build
from models import dagmodel
from props import common

from r_u_sure.decision_diagrams import gated_state_dag
from r_u_sure.decision_diagrams import packed_dags

LEVEL = common.LEVEL
COUNT = {"quick": 36000, "thorough": 500000}
WALL_LIMIT = 60
RULE = (
    "A case is 1-4 jobs, split over 1-3 caller threads under a seeded line-level"
    " schedule. A job builds a random diagram (dead ends, unreachable states,"
    " infinite edges, infeasible ones, edges offered out of order) from states"
    " whose hashes the simulator chooses, simplifies it by one of the three"
    " routes, and packs it; all jobs share one scratch table of a seeded (tiny to"
    " ample) size with stale contents, and some jobs are cancelled half-way or"
    " fail. The oracle enumerates every complete path of the diagram as built."
    " Non-trivial: a hash collision in the scratch table, a dead end or an"
    " infeasible job."
)
MEASURE = "distinct (route, packer, states, collisions, feasible, thread hand-overs) tuples"
REAL = ["decision_diagrams/gated_state_dag", "decision_diagrams/packed_dags"]
STUB = [common.STUB_COMPILER, common.STUB_SCHED]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "diagrams handed to packing were simplified first, as its contract asks",
    "a cancelled job's partial diagram is discarded; the scratch table is reused",
]


def gen_job(rng):
  nk = rng.choice([0, 1, 2, 3, 4])
  vals = dagmodel.gen_vals(rng, rng.randint(2, 3))
  spec = dagmodel.gen_spec(
      rng, dagmodel.gen_keys(rng, nk), vals, rng.choice(vals),
      max_states=rng.choice([3, 5, 8]),
      dead_ends=rng.random() < 0.6,
      wide=rng.random() < 0.3,
  )
  n = spec["n"]
  mode = rng.choice(["spread", "collide", "mixed", "negative"])
  if mode == "spread":
    hashes = [i * 7919 + 13 for i in range(n)]
  elif mode == "collide":
    hashes = [5] * n
  elif mode == "negative":
    hashes = [-rng.randrange(2, 60) for _ in range(n)]
  else:
    hashes = [rng.randrange(0, 12) for _ in range(n)]
  bad = []
  for _ in range(rng.choice([0, 0, 1, 3])):
    # An edge offered at position p: source, dest drawn freely.
    a, b = rng.randrange(n), rng.randrange(n)
    if a != b:
      bad.append([rng.randrange(len(spec["edges"]) + 1), a, b])
  fault = None
  if rng.random() < 0.15:
    fault = [rng.choice(["interrupt", "nomem"]), common.gen_at(rng)]
  return {
      "spec": spec,
      "hashes": hashes,
      "bad": sorted(bad),
      "route": rng.choice(["python", "jit", "rewrite", "rewrite"]),
      "packer": rng.choice(["python", "numba"]),
      "ordering": rng.random() < 0.7,
      "fault": fault,
  }


def gen(rng, tier, index):
  jobs = [gen_job(rng) for _ in range(rng.choice([1, 1, 2, 4]))]
  threads = rng.choice([1, 1, 2, 3])
  return {
      "jobs": jobs,
      "threads": threads,
      "schedule": common.gen_schedule(rng, threads) if threads > 1 else [],
      "scratch": rng.choice([1, 2, 3, 7, 8, 64, 1024]),
      "stale": rng.choice([-1, 0, 1, 5, 77]),
  }


def valid(case):
  return (
      case["threads"] >= 1
      and case["scratch"] >= 1
      and all(
          dagmodel.valid_spec(j["spec"])
          and len(j["hashes"]) >= j["spec"]["n"]
          for j in case["jobs"]
      )
  )


PROTECTED = ("keys", "vals", "missing", "n", "hashes")


def build_dag(job, states, ctx):
  """Adds edges one by one, offering out-of-order edges in between."""
  spec = job["spec"]
  dag = gated_state_dag.partial_state_dag_starting_from(states[0])
  outgoing = set()
  added = []

  def offer(s, d, c, k, v, info):
    edge = gated_state_dag.Edge(
        source=states[s],
        dest=states[d],
        cost=math.inf if c == "inf" else float(c),
        required_assignment=(
            None if k is None
            else gated_state_dag.SharedVariableAssignment(k, v)
        ),
        info=info,
    )
    illegal = d in outgoing
    try:
      gated_state_dag.partial_state_dag_add_edge(dag, edge)
    except ValueError:
      ctx.check(
          illegal, "edge-rejected", lambda: f"legal edge {s}->{d} was rejected"
      )
      ctx.probes["out-of-order edge rejected"] += 1
      return
    ctx.check(
        not illegal,
        "edge-accepted",
        lambda: f"edge {s}->{d} accepted after an edge out of {d}",
    )
    outgoing.add(s)
    added.append([s, d, c, k, v])

  pos = 0
  bad = list(job["bad"])
  for i, (s, d, c, k, v) in enumerate(spec["edges"]):
    while bad and bad[0][0] <= i:
      _, a, b = bad.pop(0)
      if b in outgoing:  # only offer edges that must be refused
        offer(a, b, 1.0, None, None, None)
    offer(s, d, c, k, v, pos)
    pos += 1
  return gated_state_dag.partial_state_dag_finish(dag, states[-1])


def edge_key(e):
  ra = e.required_assignment
  return (
      e.source, e.dest, float(e.cost),
      None if ra is None else (ra.key, ra.value), e.info,
  )


def run_job(job, scratch, ctx, tracer):
  spec = job["spec"]
  n = spec["n"]
  states = [build.HashedState(i, job["hashes"][i]) for i in range(n)]
  dag = build_dag(job, states, ctx)
  ctx.check(
      len(dag.edges) == len(spec["edges"]),
      "edges-lost",
      lambda: f"{len(dag.edges)} of {len(spec['edges'])} edges in the diagram",
  )
  live = dagmodel.reachable_edges(spec)
  feasible = dagmodel.feasible(spec)
  before = [edge_key(e) for e in dag.edges]
  infos = {i: tuple(e) for i, e in enumerate(spec["edges"])}
  want = [
      (states[e[0]], states[e[1]], dagmodel.cost_of(e),
       None if e[3] is None else (e[3], e[4]))
      for e in live
  ]
  route = job["route"]
  if route != "python":
    dag = gated_state_dag.CompleteStateDAG(
        initial_state=dag.initial_state,
        edges=numba.typed.List(dag.edges),
        final_state=dag.final_state,
    )
  used = len({h % len(scratch) for h in job["hashes"][:n]})
  if route == "rewrite":
    try:
      small = gated_state_dag.prune_unreachable_and_rewrite_states(
          dag, scratch_table=scratch
      )
    except ValueError:
      ctx.check(
          not feasible, "feasible-rejected",
          "a diagram with a complete path was rejected",
      )
      ctx.probes["infeasible job reported"] += 1
      return True
    ctx.check(
        feasible, "infeasible-accepted",
        "a diagram without any complete path was accepted",
    )
    if used < n:
      ctx.probes["scratch collision"] += 1
  elif route == "jit":
    small = gated_state_dag.prune_to_reachable_jit(dag)
  else:
    small = gated_state_dag.prune_to_reachable(dag)
  ctx.check(
      [edge_key(e) for e in dag.edges] == before, "input-changed",
      "simplifying changed the diagram it was given",
  )
  if not feasible:
    ctx.check(
        not list(small.edges), "infeasible-accepted",
        lambda: f"edges {list(small.edges)} survive without a complete path",
    )
    return True
  # The surviving edges are exactly those on complete finite paths, in order,
  # and the renaming (if any) is one-to-one and consecutive.
  ctx.check(
      len(small.edges) == len(want), "wrong-edges",
      lambda: f"{len(small.edges)} edges survive, {len(want)} are on a path",
  )
  rename = {}
  for got, (ws, wd, wc, wa) in zip(small.edges, want):
    for g, w in ((got.source, ws), (got.dest, wd)):
      g = int(g) if route == "rewrite" else g
      ctx.check(
          rename.setdefault(w, g) == g, "states-confused",
          lambda: f"state {w} became both {rename[w]} and {g}",
      )
    ra = got.required_assignment
    ctx.check(
        float(got.cost) == wc
        and (None if ra is None else (ra.key, ra.value)) == wa,
        "wrong-edges",
        lambda: f"edge {got} instead of {(ws, wd, wc, wa)}",
    )
    ctx.check(
        infos[got.info][2:] == (
            ("inf" if math.isinf(wc) else infos[got.info][2]),
            infos[got.info][3], infos[got.info][4],
        ) and states[infos[got.info][0]] == ws
        and states[infos[got.info][1]] == wd,
        "wrong-edges",
        lambda: f"edge {got} carries the label of another edge",
    )
  ctx.check(
      len(set(rename.values())) == len(rename), "states-confused",
      lambda: f"two states were merged: {rename}",
  )
  if route == "rewrite":
    ctx.check(
        sorted(rename.values()) == list(range(len(rename))),
        "states-not-consecutive",
        lambda: f"renamed states {sorted(rename.values())}",
    )
    ends = (int(small.initial_state), int(small.final_state))
  else:
    ends = (small.initial_state, small.final_state)
  ctx.check(
      ends == (rename[states[0]], rename[states[-1]]), "wrong-ends",
      lambda: f"initial and final state are {ends}, renaming {rename}",
  )
  # Packing.
  fn, cast = build.make_packer(job["packer"] == "numba")
  vals = (
      numba.typed.List(spec["vals"]) if job["packer"] == "numba"
      else list(spec["vals"])
  )
  packed, conv = fn(
      cast(small), spec["missing"], vals if job["ordering"] else None
  )
  keys, best = dagmodel.table(spec)
  seen_vals = sorted(
      {spec["missing"]} | {e[4] for e in live if e[3] is not None}
  )
  want_vals = spec["vals"] if job["ordering"] else seen_vals
  ctx.check(
      list(conv.variable_keys) == keys
      and list(conv.variable_values) == want_vals,
      "wrong-variables",
      lambda: (
          f"variables {list(conv.variable_keys)} / {list(conv.variable_values)},"
          f" expected {keys} / {want_vals}"
      ),
  )
  check_packed(ctx, spec, packed, conv, keys, best, want_vals, rename, states)
  ctx.mark(
      route, job["packer"], len(rename), min(3, n - used), len(keys), feasible
  )
  return used < n or len(live) < len(spec["edges"])


def check_packed(ctx, spec, packed, conv, keys, best, vals, rename, states):
  """Every decision's best path is unchanged, and is a path of the original."""
  memo = packed_dags.empty_unpenalized_table(packed)
  got = float(packed_dags.compute_minimal_cost(memo))
  common.check_exact(
      ctx, got, min(best.values()), "meaning-changed", "cost of the best path"
  )
  zero = {k: {v: 0.0 for v in vals} for k in keys}
  for i, k in enumerate(keys):
    mm = packed_dags.compute_min_marginals_for_variable(memo, i)
    common.check_exact_vec(
        ctx, mm, dagmodel.min_marginals(best, keys, vals, zero, k),
        "meaning-changed", f"best cost of each value of variable {k}",
    )
  names = {v: k for k, v in rename.items()}
  count = 0
  for t in itertools.islice(itertools.product(vals, repeat=len(keys)), 90):
    if t not in best:
      # Infeasible decisions must price as infinite.
      m2 = packed_dags.empty_unpenalized_table(packed)
      for i, v in enumerate(t):
        row = np.full((len(vals),), np.inf)
        row[vals.index(v)] = 0.0
        packed_dags.set_penalties(m2, i, row)
      cost = float(packed_dags.compute_minimal_cost(m2))
      ctx.check(
          math.isinf(cost), "meaning-changed",
          lambda: f"decision {t} costs {cost} but no path makes it",
      )
      continue
    count += 1
    path, assignment = packed_dags.constrained_best_path(
        packed, conv, dict(zip(keys, t))
    )
    ctx.check(
        assignment == dict(zip(keys, t)), "meaning-changed",
        lambda: f"best path for {t} makes decision {assignment}",
    )
    total, at, made = 0.0, states[0], {}
    for e in path:
      src = e.source if e.source in names else int(e.source)
      dst = e.dest if e.dest in names else int(e.dest)
      ctx.check(
          names[src] == at, "broken-path", lambda: f"path {path} is broken"
      )
      at = names[dst]
      total += float(e.cost)
      ra = e.required_assignment
      if ra is not None:
        made[ra.key] = ra.value
    ctx.check(
        at == states[-1], "broken-path", lambda: f"path {path} stops early"
    )
    ctx.check(
        all(made.get(k, spec["missing"]) == v for k, v in zip(keys, t)),
        "meaning-changed",
        lambda: f"path {path} does not make decision {t}",
    )
    common.check_exact(
        ctx, total, best[t], "meaning-changed", f"best cost of decision {t}"
    )
  ctx.ops["decisions compared"] += count


def run(case, ctx):
  scratch = np.full((case["scratch"],), case["stale"], dtype=np.int32)
  threads = case["threads"]
  hard = [False]

  def body(tid):
    def work(tracer):
      for i, job in enumerate(case["jobs"]):
        if i % threads != tid:
          continue
        ctx.ops[job["route"]] += 1
        if job["fault"]:
          # First attempt is cancelled, then retried from the beginning.
          ctx.armed[job["fault"][0]] += 1
          result = sched_sim.call(
              lambda: run_job(job, scratch, ctx, tracer),
              fault=job["fault"][0], at=job["fault"][1], tracer=tracer,
          )
          if result.fired is not None:
            ctx.faults[job["fault"][0]] += 1
          if result.exc is not None and not isinstance(
              result.exc, sched_sim.INJECTED
          ):
            raise result.exc
          if result.exc is None:
            continue
        if run_job(job, scratch, ctx, tracer):
          hard[0] = True

    return work

  if threads == 1:
    body(0)(None)
  else:
    sim = sched_sim.ThreadSim(
        [body(t) for t in range(threads)], case["schedule"]
    ).run()
    ctx.switches += sim.switches
    ctx.steps += sum(t.steps for t in sim.tracers)
    ctx.log(sim.trace)
    for error in sim.errors:
      if error is not None:
        raise error
  ctx.nontrivial = hard[0]
