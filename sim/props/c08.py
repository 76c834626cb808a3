"""C08: the same request has the same answer in every process."""

import json
import os
import subprocess
import sys

import env  # pylint: disable=unused-import
import numba
import numpy as np

import core
from models import dagmodel
from models import systems
from models import trees
from props import c14
from props import c16
from props import common
from props import suggest

from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import gated_state_dag
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.rendering import dag_annotator
from r_u_sure.rendering import svg_renderer
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.wrappers import parser_tools

LEVEL = common.LEVEL
COUNT = {"quick": 240, "thorough": 8000}
WALL_LIMIT = 120
RULE = (
    "A case is a list of requests (suggestions with regions, prefixes or calls,"
    " baselines, solves of random systems with names as states and variables,"
    " parses, drawings), answered in 3 simulated processes which differ in hash"
    " seed, order and history of requests (including cancelled and failed ones),"
    " clock, state of the global random generators, shared or fresh service,"
    " scratch memory, and compiled or interpreted mode. All answers to a request"
    " must be equal. Non-trivial: always."
)
MEASURE = "distinct (request, answer) pairs"
REAL = suggest.REAL + ["decision_diagrams/*", "rendering/*", "parsing/*"]
STUB = [common.STUB_COMPILER, common.STUB_CLOCK, common.STUB_DISPLAY]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "the time budget is not used up (what a slow clock may change is C01-C03)",
]
PROTECTED = ("wrapper", "hash", "base")

CODE = 60  # characters of code a parse request has at most


def gen_request(rng):
  r = rng.random()
  if r < 0.4:
    case = suggest.gen_case(
        rng, ["regions", "prefix", "both", "calls"], "quick"
    )
    job = case["jobs"][0]
    return {"op": "suggest", "wrapper": case["wrapper"],
            "context": job["context"], "samples": job["samples"],
            "index": job["index"]}
  if r < 0.55:
    case = c14.gen(rng, "quick", 0)
    job = case["jobs"][0]
    return {"op": "baselines", "wrapper": case["wrapper"],
            "context": job["context"], "parts": job["parts"]}
  if r < 0.75:
    s = systems.gen_system(rng)
    while not any(dagmodel.live_keys(x) for x in s["specs"]):
      s = systems.gen_system(rng)
    return {"op": "solve", "system": s, "seed": rng.randrange(1000),
            "noise": rng.choice([None, 0.5, 1.0]),
            "commit": rng.choice([None, 0.25, 1.0])}
  if r < 0.85:
    return {"op": "draw", "pair": c16.gen_tree_pair(rng)}
  lang = rng.choice(suggest.LANGS)
  context, samples = suggest.gen_small_code(rng, lang)
  return {"op": "parse", "lang": lang, "code": (context + samples[0])}


def gen_relative(rng, r):
  """A request of the same service that resembles the given one."""
  if r["op"] == "suggest":
    context, samples = suggest.relative(
        rng, r["wrapper"]["lang"], r["context"], r["samples"]
    )
    return dict(r, context=context, samples=samples)
  if r["op"] == "baselines":
    parts = [p[0] for p in r["parts"]] or [""]
    context, texts = suggest.relative(
        rng, r["wrapper"]["lang"], r["context"], parts
    )
    return dict(r, context=context,
                parts=[[t, p[1]] for t, p in zip(texts, r["parts"])])
  if r["op"] == "parse":
    return dict(r, code=suggest.relative(rng, r["lang"], r["code"], [""])[0])
  if r["op"] == "solve":
    return dict(r, seed=r["seed"] + 1, noise=rng.choice([None, 0.5, 1.0]))
  return gen_request(rng)


def gen_world(rng, n, first):
  order = list(range(n))
  if not first:
    rng.shuffle(order)
  steps = []
  for i in order:
    if not first and rng.random() < 0.3:
      j = rng.randrange(n)
      fault = suggest.gen_fault(rng, 0.6, 13)
      steps.append([j, fault])
    steps.append([i, None])
  return {
      "hash": rng.choice([0, 1, 2, rng.randrange(1 << 32)]),
      "order": steps,
      "clock": [rng.choice([0.0, 1e-6, 0.001])],
      "base": rng.choice([0.0, 1000.0, 1e9]),
      "random": rng.randrange(1000),
      "shared": rng.random() < 0.6,
      "flip": rng.random() < 0.4,
      "table": rng.choice([None, 64, 4096]),
  }


def gen(rng, tier, index):
  requests = [gen_request(rng)]
  for _ in range(rng.choice([2, 3, 4])):
    requests.append(
        gen_relative(rng, rng.choice(requests)) if rng.random() < 0.4
        else gen_request(rng)
    )
  return {
      "requests": requests,
      "worlds": [gen_world(rng, len(requests), w == 0) for w in range(3)],
  }


FIELDS = {
    "suggest": ("wrapper", "context", "samples", "index"),
    "baselines": ("wrapper", "context", "parts"),
    "solve": ("system", "seed", "noise", "commit"),
    "draw": ("pair",),
    "parse": ("lang", "code"),
}


def valid(case):
  n = len(case["requests"])
  if not n or len(case["worlds"]) < 1:
    return False
  for w in case["worlds"]:
    if not w["clock"] or not 0 <= w["hash"] < 1 << 32 or w["clock"][0] > 0.01:
      return False
    for step in w["order"]:
      if len(step) != 2 or not 0 <= step[0] < n:
        return False
      if step[1] is not None and (
          len(step[1]) != 2
          or step[1][0] not in ("interrupt", "nomem", "stack")):
        return False
  for r in case["requests"]:
    if not set(FIELDS.get(r["op"], ("-",))) <= set(r):
      return False
    if r["op"] == "suggest" and (
        not r["samples"] or not 0 <= r["index"] < len(r["samples"])):
      return False
    if r["op"] == "baselines" and not all(
        len(p) == 2 and isinstance(p[0], str) and p[1] <= 0
        for p in r["parts"]):
      return False
    if r["op"] == "solve" and not (
        systems.valid_system(r["system"])
        and any(dagmodel.live_keys(x) for x in r["system"]["specs"])):
      return False
    if r["op"] == "draw" and not (
        c16.c17_ok(r["pair"]["prototype"], True)
        and c16.c17_ok(r["pair"]["target"], False)):
      return False
    if r["op"] in ("parse", "suggest", "baselines"):
      lang = r["lang"] if r["op"] == "parse" else r["wrapper"]["lang"]
      if lang not in suggest.LANGS:
        return False
  return True


# ------------------------------------------------- answers (in the subprocess)


def spec_in(spec, world):
  out = dict(spec)
  if world["flip"]:
    out["numba"] = not out["numba"]
  if world["table"] is not None:
    out["table"] = world["table"]
  return out


def service(make, spec, world, services):
  if not world["shared"]:
    return make(spec)
  key = json.dumps(spec, sort_keys=True)
  if key not in services:
    services[key] = make(spec)
  return services[key]


def show(a):
  """Decisions in a process-independent notation (order included)."""
  if a is None:
    return None
  return [
      (int(k.prototype_preorder_index), k.category.name, v.name)
      for k, v in a.items()
  ]


def plain(x):
  """A text for any nested result."""
  if isinstance(x, dict):
    return "{" + ", ".join(f"{plain(k)}: {plain(v)}" for k, v in x.items()) + "}"
  if isinstance(x, (list, tuple)):
    return "[" + ", ".join(plain(v) for v in x) + "]"
  if isinstance(x, (bool, np.bool_)):
    return str(bool(x))
  if isinstance(x, (int, np.integer)):
    return str(int(x))
  if isinstance(x, (float, np.floating)):
    return repr(float(x))
  if isinstance(x, np.ndarray):
    return plain(x.tolist())
  return repr(x)


def answer(request, world, services):
  return plain(_answer(request, world, services))


def _answer(r, world, services):
  if r["op"] == "suggest":
    runner = service(suggest.make_runner, spec_in(r["wrapper"], world), world,
                     services)
    res = runner.combine(r["context"], r["samples"], prototype_index=r["index"])
    if res.assignment_map is None:
      return ["nothing"]
    w = runner.wrapper
    return [
        show(res.assignment_map), res.utility_dual_bound, res.solution_utility,
        res.opt_results.objective_at_step, res.solution_info,
        w.render_solution_html(
            prototype=res.packed_prototype, context_info=res.context_info,
            assignments=res.assignment_map,
        ),
        w.render_pairwise_matching_html(
            prototype=res.packed_prototype, targets=res.packed_targets,
            context_info=res.context_info, system=res.sample_system,
            assignments=res.assignment_map,
        ),
    ]
  if r["op"] == "baselines":
    runner = service(c14.make_runner, spec_in(r["wrapper"], world), world,
                     services)
    out = runner.build_baselines(
        r["context"], [tuple(p) for p in r["parts"]]
    )
    return [[k, show(v.assignment_map), v.solution_info]
            for k, v in out.items()]
  if r["op"] == "solve":
    return solve(r, world)
  if r["op"] == "draw":
    dag, ann = c16.build_pair(r["pair"])
    svg = svg_renderer.SVGRenderer(with_hover_text=False)
    dag_annotator.render_dag(dag, ann, svg)
    return svg.to_html(3.0)
  helper = service(
      lambda s: parser_tools.ParserHelper(language=s["lang"]),
      {"lang": r["lang"]}, world, services,
  )
  return trees.from_nodes(helper.parse_to_nodes(r["code"]), sn)


def solve(r, world):
  """Solves a system whose states, variables and values are names."""
  s = r["system"]
  key = lambda k: f"k{k + 100:03d}"
  val = lambda v: f"v{v}"
  converted = []
  for spec, pipe in zip(s["specs"], s["pipes"]):
    states = [f"state {i}" for i in range(spec["n"])]
    dag = gated_state_dag.partial_state_dag_starting_from(states[0])
    for a, b, c, k, v in spec["edges"]:
      gated_state_dag.partial_state_dag_add_edge(dag, gated_state_dag.Edge(
          states[a], states[b], dagmodel.INF if c == "inf" else float(c),
          None if k is None
          else gated_state_dag.SharedVariableAssignment(key(k), val(v)),
          None,
      ))
    dag = gated_state_dag.partial_state_dag_finish(dag, states[-1])
    if pipe["prune"] != "python":
      dag = gated_state_dag.CompleteStateDAG(
          dag.initial_state, numba.typed.List(dag.edges), dag.final_state
      )
    if pipe["prune"] == "rewrite":
      scratch = np.full((world["table"] or 7,), -1, dtype=np.int32)
      dag = gated_state_dag.prune_unreachable_and_rewrite_states(
          dag, scratch_table=scratch
      )
    elif pipe["prune"] == "jit":
      dag = gated_state_dag.prune_to_reachable_jit(dag)
    else:
      dag = gated_state_dag.prune_to_reachable(dag)
    converted.append(packed_dags.convert_dag_to_packed(
        dag, val(spec["missing"]), [val(v) for v in spec["vals"]]
    ))
  system = solver.make_system(
      converted,
      dag_update_proportions=(
          None if s["weights"] is None
          else np.array(s["weights"], dtype=np.float64)
      ),
  )
  out = [list(system.variable_keys), list(system.variable_values)]
  if r["noise"] is not None:
    solver.break_symmetry_randomly(
        system, noise_scale=r["noise"], random_seed=r["seed"]
    )
  res = solver.solve_system_with_sweeps(system.data, soft_timeout=1e6)
  out.append(res.objective_at_step)
  for d in solver.SweepDirection:
    vec, cost = solver.greedy_extract(system.data, direction=d)
    out.append([vec, cost])
  if r["commit"] is not None:
    copy = solver.clone_system(system)
    out.append(repr(solver.partially_commit(
        copy.data, direction=solver.SweepDirection.FORWARD,
        target_commitments_per_variable=r["commit"], gap_strictness=0.5,
    )))
    res = solver.solve_system_with_sweeps(copy.data, soft_timeout=1e6)
    out.append(res.objective_at_step)
  return out


# ----------------------------------------------------------------- the check

WORLD = os.path.join(env.HERE, "world.py")


def run_world(requests, world):
  new_env = {
      k: v for k, v in os.environ.items()
      if k not in ("PYTHONHASHSEED", "SIM_HASHSEED")
  }
  new_env["PYTHONHASHSEED"] = str(world["hash"])
  new_env["PYTHONDONTWRITEBYTECODE"] = "1"
  proc = subprocess.run(
      [sys.executable, WORLD],
      input=json.dumps({"world": world, "requests": requests}),
      capture_output=True, text=True, env=new_env, check=False, timeout=100,
  )
  if proc.returncode != 0:
    return None, proc.stderr[-1500:]
  return json.loads(proc.stdout), None


def run(case, ctx):
  ctx.nontrivial = True
  first = {}
  for w, world in enumerate(case["worlds"]):
    out, error = run_world(case["requests"], world)
    if out is None:
      raise core.Violation(
          "operation-failed", f"process {w} ({world}) failed: {error}"
      )
    ctx.sim_time += out["time"]
    for kind in out["fired"]:
      ctx.faults[kind] += 1
    ctx.faults["other-process"] += 1 if w else 0
    for index, texts in sorted(out["answers"].items()):
      r = case["requests"][int(index)]
      ctx.ops[r["op"]] += len(texts)
      for text in texts:
        if index not in first:
          first[index] = (w, text)
          ctx.mark(index, text)
          ctx.log(index, text[:200])
          continue
        v, want = first[index]
        if text != want:
          at = next(
              (i for i, (a, b) in enumerate(zip(want, text)) if a != b),
              min(len(want), len(text)),
          )
          lo = max(0, at - 150)
          raise core.Violation(
              "not-reproducible",
              f"request {r}: process {v} {case['worlds'][v]} answered"
              f" ...{want[lo: at + 150]!r}, process {w} {world} answered"
              f" ...{text[lo: at + 150]!r}",
          )
