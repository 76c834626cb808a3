"""C17: the edit-distance utility of any template against any intent."""

import ast
import copy
import math
import random
import re

import env  # pylint: disable=unused-import

import sched_sim
from models import edits
from models import trees
from props import common
from props import suggest

from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.tree_structure import packed_sequence_nodes as packed
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.wrappers import edit_distance_wrapper_base
from r_u_sure.wrappers import parser_tools

LEVEL = common.LEVEL
COUNT = {"quick": 4000, "thorough": 300000}
WALL_LIMIT = 120
RULE = (
    "A case is one shared utility function (random parameters, compiled or"
    " interpreted, small or large scratch table) used by 1-3 caller threads to"
    " price random templates of random small prototypes (any placement of region"
    " and exit markers) against random intents, under a seeded line-level"
    " schedule, with cancelled and failed requests that are retried. Every price"
    " is compared with a direct dynamic program; malformed templates must have"
    " no finite price. Non-trivial: several requests or a fault."
)
MEASURE = "distinct (prototype shape, template) pairs"
REAL = [
    "wrappers/edit_distance_wrapper_base", "wrappers/wrapper_base",
    "edit_distance_utility/edit_dags", "edit_distance_utility/constraint_dags",
    "edit_distance_utility/region_decisions",
    "decision_diagrams/* (build, prune, rewrite, pack, solve)",
]
STUB = [common.STUB_COMPILER, common.STUB_SCHED, common.STUB_CLOCK]
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROTECTED = ("params",)

TYPES = ["A", "B"]
TEXTS = ["a", "b", "ab", "xyz", "a", ""]
# (White space in tokens is none that decorations use, so that scripts can be
# read back.)
ODD_TEXTS = ["é", "日本", "𝔘b", "a\t", "\t", "\r", "A", "0", "a\u0301"]


def gen_text(rng):
  return rng.choice(TEXTS if rng.random() < 0.8 else ODD_TEXTS)


def near_text(rng, text):
  """A text that is easily taken for this one."""
  return rng.choice([
      text.upper(), text + "\t", "\t" + text, text + "\r", text * 2, text[:-1],
      text.strip(), text + "\u0301", text + "\0", text[::-1],
  ])


def gen_type(rng):
  return rng.choice(TYPES if rng.random() < 0.9 else ["", "a", "AB", "A "])


def gen_nodes(rng, budget, depth, control):
  out = []
  for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth else rng.randint(1, 5)):
    if budget[0] <= 0:
      break
    budget[0] -= 1
    r = rng.random()
    if r < 0.3 and depth < 3:
      out.append(
          ["G", gen_type(rng), gen_nodes(rng, budget, depth + 1, control)]
      )
    elif r < 0.65:
      out.append(["T", gen_type(rng), gen_text(rng)])
    elif r < 0.75:
      out.append(["D", rng.choice([" ", "\n", ""])])
    elif control and r < 0.95:
      out.append([rng.choice("SSEEX")])
  return out


def vary(rng, tree):
  """Another tree like this one (no markers)."""
  out = []
  for n in tree:
    r = rng.random()
    if r < 0.12:
      continue
    if r < 0.2:
      out += gen_nodes(rng, [2], 2, False)
    if n[0] == "G":
      kids = vary(rng, n[2])
      if rng.random() < 0.06:
        out += kids
      else:
        t = n[1] if rng.random() < 0.93 else gen_type(rng)
        out.append(["G", t, kids])
    elif n[0] == "T":
      if rng.random() < 0.85:
        out.append(n)
      elif rng.random() < 0.5:
        out.append(["T", gen_type(rng), gen_text(rng)])
      else:
        out.append(["T", n[1], near_text(rng, n[2])])
    elif n[0] == "D" and rng.random() < 0.8:
      out.append(n)
  if rng.random() < 0.15:
    out += gen_nodes(rng, [2], 2, False)
  return out


def gen_prototype(rng):
  style = rng.random()
  tree = gen_nodes(rng, [rng.choice([3, 5, 8])], 0, style < 0.45)
  if style < 0.45:
    return tree
  tree = trees.strip(tree)
  if style < 0.8:
    tree = trees.regions(tree, rng.random() < 0.6, trees.FILTERS["all"])
  if style > 0.65:
    tree = trees.exits(tree, rng.random() < 0.7, rng.random() < 0.5)
  return tree


def gen(rng, tier, index):
  threads = rng.choice([1] * 12 + [2, 2, 3])
  q = lambda *v: rng.choice(v)
  params = {
      "match": [q(1.0, 1.0, 2.0), q(0.7, 0.5, 0.25, 1.0)],
      "delete": [q(1.0, 1.0, 0.5), q(0.3, 0.25, 0.0, 1.0)],
      "insert": q(0.0, 0.0, 0.125, 0.5),
      "region": q(0.75, 0.0, 0.5, 2.0),
      "start": [q(5.0, 0.0, 1.0, 2.0), q(2.5, 0.0, 0.5, 1.0)],
      "numba": rng.random() < 0.4,
      "rewrite": rng.random() < 0.7,
      "table": q(1, 7, 64, 4096),
  }
  jobs = []
  for t in range(threads):
    for _ in range(1 if threads > 1 else q(1, 2, 3)):
      proto = gen_prototype(rng)
      targets = []
      for _ in range(q(1, 1, 2) if threads == 1 else 1):
        r = rng.random()
        if r < 0.8:
          targets.append(vary(rng, trees.strip(proto)))
        elif r < 0.9:
          targets.append(trees.strip(copy.deepcopy(proto)))
        else:
          targets.append(gen_nodes(rng, [4], 0, False))
      jobs.append({
          "thread": t,
          "prototype": proto,
          "targets": targets,
          "weights": (
              [q(0.25, 0.5, 1.0, 2.0) for _ in targets]
              if rng.random() < 0.3 else None
          ),
          "seed": rng.randrange(1 << 30),
          "templates": q(2, 4) if threads == 1 else 2,
          "price": rng.random() < 0.35,
          "fault": suggest.gen_fault(rng, 0.12, 10),
      })
  return {
      "params": params,
      "threads": threads,
      "jobs": jobs,
      "schedule": common.gen_schedule(rng, threads) if threads > 1 else [],
  }


def _ok_tree(ns, control):
  for n in ns:
    if not isinstance(n, list) or not n:
      return False
    if n[0] == "G":
      if len(n) != 3 or n[1] not in TYPES or not _ok_tree(n[2], control):
        return False
    elif n[0] == "T":
      if len(n) != 3 or n[1] not in TYPES or not isinstance(n[2], str):
        return False
    elif n[0] == "D":
      if len(n) != 2 or not isinstance(n[1], str):
        return False
    elif not control or n[0] not in ("S", "E", "X") or len(n) != 1:
      return False
  return True


def valid(case):
  if not case["jobs"] or case["threads"] < 1:
    return False
  for j in case["jobs"]:
    if not j["targets"] or j["templates"] < 0:
      return False
    if not _ok_tree(j["prototype"], True):
      return False
    if not all(_ok_tree(t, False) for t in j["targets"]):
      return False
    if j["weights"] is not None and (
        len(j["weights"]) < len(j["targets"]) or min(j["weights"]) <= 0):
      return False
    if j["fault"] is not None and (
        len(j["fault"]) != 2
        or j["fault"][0] not in ("interrupt", "nomem", "stack")):
      return False
  return True


def make_wrapper(p):
  with suggest.small_tables(p["table"]):
    return edit_distance_wrapper_base.EditDistanceWrapperBase(
        edit_dags.TrustRegionUtilityParameters(
            high_confidence_match_utility_per_char=p["match"][0],
            high_confidence_delete_cost_per_char=p["delete"][0],
            low_confidence_match_utility_per_char=p["match"][1],
            low_confidence_delete_cost_per_char=p["delete"][1],
            insert_cost_per_char=p["insert"],
            low_confidence_region_cost=p["region"],
            high_confidence_start_editing_cost=p["start"][0],
            low_confidence_start_editing_cost=p["start"][1],
        ),
        use_numba=p["numba"],
        rewrite_states=p["rewrite"],
    )


def job_templates(job):
  nodes = edits.annotate(job["prototype"])
  rng = random.Random(job["seed"])
  good = suggest.gen_templates(rng, nodes, job["templates"])
  bad = None
  if good and edits.variables(nodes):
    bad = suggest.corrupt(rng, nodes, good[-1])
  return nodes, good, bad


def request(wrapper, p, job):
  nodes, good, bad = job_templates(job)
  del nodes
  pack = parser_tools.pack_sequence_from_pseudoparser
  proto = pack(trees.to_nodes(job["prototype"], sn), p["numba"])
  targets = [
      wrapper.process_target(
          context_and_target=trees.to_nodes([["D", "ctx"]] + t, sn),
          prediction_location=3,
      )
      for t in job["targets"]
  ]
  info = {"context_prefix_contents": "ctx"}
  system = wrapper.build_system(
      prototype=proto, context_info=info, targets=targets,
      target_utility_scale_factors=job["weights"],
  )
  single = wrapper.build_system(
      prototype=proto, context_info=info, targets=targets[:1],
  )
  out = {"keys": list(system.variable_keys), "infos": [], "evaluated": [],
         "scripts": []}
  out["targets"] = [
      trees.from_nodes(packed.unpack(t), sn) for t in targets
  ]
  for a in good:
    out["infos"].append(wrapper.solution_info(
        prototype=proto, evaluation_target=None, context_info=info,
        system=None, assignments=suggest.real_assignments(a),
        sample_system=system,
    ))
    out["evaluated"].append(wrapper.solution_info(
        prototype=proto, evaluation_target=targets[0], context_info=info,
        system=single, assignments=suggest.real_assignments(a),
    ))
    path, _ = packed_dags.constrained_best_path(
        single.data.dag_tables[0].dag, single.conversion_data[0],
        suggest.real_assignments(a),
    )
    out["scripts"].append((
        edit_dags.extract_edit_sequence_text(path, proto, targets[0]),
        edit_dags.extract_edit_sequence_html(
            path, proto, targets[0], prefix="<&", start_editing_marker="(#)"),
    ))
  # A sweep needs two decisions to report an objective.
  if job["price"] and good and len(out["keys"]) > 1:
    out["price"] = suggest.price(system, good[-1])
    if bad is not None:
      out["bad_price"] = suggest.price(system, bad)
  return out


LINE = re.compile(r"^(\w+), (\w+): (.*) => (\S+)$")


def check_script(ctx, what, nodes, target, a, par, want, text, page):
  """The edit script shown is a real edit that costs what is charged."""
  lines = text.split("\n")
  ctx.check(
      lines[-1].startswith("FINISH (total cost: "), "edit-script",
      lambda: f"{what}: script {text!r}",
  )
  common.check_close(
      ctx, float(lines[-1][len("FINISH (total cost: "):-1]), want,
      "edit-script", f"{what}: total of the script",
  )
  steps = []
  for line in lines[:-1]:
    m = LINE.match(line)
    ctx.check(
        m is not None, "edit-script", lambda: f"{what}: step {line!r}",  # pylint: disable=cell-var-from-loop
    )
    steps.append(
        (m[1], m[2], ast.literal_eval(m[3]), float(m[4]))
    )
  common.check_close(
      ctx, sum(s[3] for s in steps), want, "edit-script",
      f"{what}: sum of the script",
  )
  # What is kept and deleted is what is shown, with the confidence of its place.
  got = [
      (ch, "LOW" in c) for act, c, x, _ in steps if act in ("KEEP", "DELETE")
      for ch in x
  ]
  shown = [(ch, r) for t, r, _ in edits.shown(nodes, a) for ch in t]
  ctx.check(
      got == shown, "edit-script",
      lambda: f"{what}: script {steps} keeps or deletes {got}, shown {shown}",
  )
  # What is kept and inserted is the intent (or, after a stop, how it begins).
  result = "".join(
      x for act, _, x, _ in steps if act in ("KEEP", "INSERT")
  )
  result = result.replace(" ", "").replace("\n", "")
  goal = "".join(
      x["x"] for x in edits.leaves(target) if x["k"] == "T"
  )
  exited = suggest.shown_token_chars(nodes, a)[1]
  ctx.check(
      goal.startswith(result) if exited else goal == result, "edit-script",
      lambda: f"{what}: script {steps} gives {result!r}, intent {goal!r}",
  )
  for act, c, x, price in steps:
    low = int("LOW" in c)
    # Only decorations in these trees have blanks and newlines; they are free.
    n = len(x.replace(" ", "").replace("\n", ""))
    if act == "KEEP":
      rate = -par.match[low] * n
    elif act == "DELETE":
      rate = par.delete[low] * n
    elif act == "INSERT":
      rate = par.insert * n
    elif act == "START_EDITING":
      # Neighbouring edits without any text between them are shown as one.
      rate = par.start[low]
      rate *= max(1, round(price / rate)) if rate else 1
    else:
      continue
    common.check_close(
        ctx, price, rate, "edit-script",
        f"{what}: {act} {c} {x!r} in {steps}",
    )
  # The page shows the same script.
  parts = suggest.spans(page)
  suggest.check_markup(ctx, parts, what)
  got = []
  for classes, x in parts:
    kind = [k for k in ("keep", "delete", "insert", "start_editing", "prefix")
            if k in classes]
    conf = [k for k in ("high_confidence", "low_confidence") if k in classes]
    got.append((" ".join(kind).upper(), " ".join(conf).upper(), x))
  expected = [("PREFIX", "", "<&")]
  for act, c, x, _ in steps:
    if act == "START_EDITING":
      x = "(#)"
    if x and act in ("KEEP", "DELETE", "INSERT", "START_EDITING"):
      c = c if c.endswith("_CONFIDENCE") else ""
      expected.append((act, c, x))
  ctx.check(
      got == expected, "edit-page",
      lambda: f"{what}: page {got}, script {expected}",
  )


def check(ctx, p, job, out):
  nodes, good, bad = job_templates(job)
  par = edits.Params(
      p["match"], p["delete"], p["insert"], p["region"], p["start"]
  )
  what = f"{job['prototype']} vs {job['targets']}"
  names = edits.variables(nodes)
  keys = [(k.prototype_preorder_index, suggest.KIND[k.category])
          for k in out["keys"]]
  ctx.check(
      sorted(keys) == sorted(names), "decisions",
      lambda: f"{what}: decisions {keys}, expected {names}",
  )
  ctx.check(
      out["targets"] == job["targets"], "targets",
      lambda: f"{what}: targets {out['targets']}",
  )
  targets = [edits.annotate(t) for t in job["targets"]]
  for a, info, ev, script in zip(
      good, out["infos"], out["evaluated"], out["scripts"]):
    costs = [edits.cost(nodes, t, a, par) for t in targets]
    suggest.check_costs(ctx, f"{what}, {a}", info, costs)
    suggest.check_metrics(ctx, f"{what}, {a}", nodes, targets[0], a, ev, par)
    check_script(
        ctx, f"{what}, {a}", nodes, targets[0], a, par, costs[0], *script
    )
    shown = [(t, r) for t, r, _ in edits.shown(nodes, a)]
    got = [tuple(x) for x in info["extracted_parts"]]
    ctx.check(
        got == shown, "suggestion-text",
        lambda: f"{what}, {a}: {got}, expected {shown}",  # pylint: disable=cell-var-from-loop
    )
    ctx.mark([n[0] for _, _, n in trees.preorder(job["prototype"])],
             "".join(a[v] for v in names))
    ctx.log(what, sorted(a.items()), [round(c, 6) for c in costs])
  if "price" in out:
    a = good[-1]
    weights = job["weights"] or [1 / len(targets)] * len(targets)
    want = sum(
        w * edits.cost(nodes, t, a, par) for w, t in zip(weights, targets)
    )
    common.check_close(
        ctx, out["price"], want, "utility", f"{what}: price of {a}"
    )
  if "bad_price" in out:
    ctx.probes["malformed template offered"] += 1
    got = out["bad_price"]
    ctx.check(
        math.isinf(got) and got > 0, "malformed-accepted",
        lambda: f"{what}: malformed template {bad} costs {got}:"
        f" {edits.problems(nodes, bad)[:2]}",
    )


def run(case, ctx):
  p = case["params"]
  wrapper = make_wrapper(p)
  threads = [[] for _ in range(case["threads"])]
  for job in case["jobs"]:
    threads[job["thread"] % case["threads"]].append({
        "name": f"price templates of {job['prototype']}",
        "op": "price-templates",
        "fn": lambda job=job: request(wrapper, p, job),
        "check": lambda out, job=job: check(ctx, p, job, out),
        "fault": job["fault"],
    })
    if job["fault"]:
      ctx.nontrivial = True
  if len(case["jobs"]) > 1:
    ctx.nontrivial = True
  clock = sched_sim.VirtualClock([0.01])
  with clock:
    sim = common.run_tasks(ctx, threads, case["schedule"])
  ctx.sim_time += clock.now
  ctx.log("trace", sim.trace[:50], len(sim.trace))
