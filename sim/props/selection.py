"""Part-selection utility on arbitrary trees (part of C13)."""

import math
import random

import env  # pylint: disable=unused-import
import numpy as np

import sched_sim
from models import calls
from models import edits
from models import trees
from props import c17
from props import common
from props import suggest

from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import gated_state_dag
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.edit_distance_utility import part_selection_dags
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.wrappers import parser_tools


def no_exits(tree):
  return [
      ["G", n[1], no_exits(n[2])] if n[0] == "G" else n
      for n in tree if n[0] != "X"
  ]


def gen(rng, tier, index):
  case = c17.gen(rng, tier, index)
  p = case["params"]
  case["params"] = {
      "A": [rng.choice([1.0, 10.0, 0.5]), rng.choice([0.3, 1.0, 0.0])],
      "B": [rng.choice([1.0, 0.0, 2.0]), rng.choice([0.3, 2.0, 0.0])],
      "numba": p["numba"], "rewrite": p["rewrite"], "table": p["table"],
  }
  for job in case["jobs"]:
    job["prototype"] = no_exits(job["prototype"])
    if rng.random() < 0.5:
      # Mostly alike: long parts can be found, in or out of order.
      plain = trees.strip(job["prototype"])
      targets = [list(plain) for _ in job["targets"]]
      for t in targets:
        for _ in range(rng.choice([0, 1, 2])):
          t.insert(rng.randint(0, len(t)),
                   rng.choice(plain) if plain and rng.random() < 0.6
                   else ["T", rng.choice("AB"), rng.choice("ab")])
        if rng.random() < 0.3:
          rng.shuffle(t)
      job["targets"] = targets
      job["prototype"] = trees.regions(
          plain, rng.random() < 0.3, trees.FILTERS["all"]
      )
  return case


def job_templates(job):
  nodes = edits.annotate(job["prototype"])
  rng = random.Random(job["seed"])
  good = [
      edits.gen_template(
          rng, nodes, rng.choice([0.2, 0.6, 0.9]), rng.choice([0.2, 0.5, 0.9])
      )
      for _ in range(job["templates"])
  ]
  bad = None
  if good and edits.variables(nodes):
    bad = suggest.corrupt(rng, nodes, good[-1])
  return nodes, good, bad


def valid(case):
  return c17.valid(case) and all(
      no_exits(j["prototype"]) == j["prototype"] for j in case["jobs"]
  )


class Service:
  """Builds systems of one selection diagram per intent and the region rules."""

  def __init__(self, p):
    a, b = tuple(p["A"]), tuple(p["B"])

    def value(token):
      if token.match_type == "A":
        return part_selection_dags.UtilitiesAndCostsForNode(a[0], a[1])
      return part_selection_dags.UtilitiesAndCostsForNode(b[0], b[1])

    self.numba = p["numba"]
    self.select = part_selection_dags.make_selection_dag_builder(
        part_selection_dags.PartSelectionUtilityParameters(value),
        with_numba=self.numba,
    )
    self.rules = constraint_dags.make_constraint_dag_builder(
        with_numba=self.numba
    )
    if self.numba:
      rewrite = p["rewrite"]
      self.pack_select, _ = part_selection_dags.make_specialized_dag_packer(
          states_rewritten_as_integers=rewrite
      )
      self.pack_rules, _ = constraint_dags.make_specialized_dag_packer(
          states_rewritten_as_integers=rewrite
      )
      if rewrite:
        table = np.full((p["table"],), -1, dtype=np.int32)
        self.prune = lambda dag: (
            gated_state_dag.prune_unreachable_and_rewrite_states(
                dag, scratch_table=table
            )
        )
      else:
        self.prune = gated_state_dag.prune_to_reachable_jit
    else:
      self.pack_select = part_selection_dags.pack_dag
      self.pack_rules = constraint_dags.pack_dag
      self.prune = gated_state_dag.prune_to_reachable

  def system(self, proto, targets):
    pairs = [
        self.pack_select(self.prune(self.select(prototype=proto, target=t)))
        for t in targets
    ]
    pairs.append(self.pack_rules(self.prune(self.rules(prototype=proto))))
    return solver.make_system(
        pairs, dag_update_proportions=np.ones((len(pairs),))
    )


def request(service, job):
  _, good, bad = job_templates(job)
  pack = parser_tools.pack_sequence_from_pseudoparser
  proto = pack(trees.to_nodes(job["prototype"], sn), service.numba)
  targets = [
      pack(trees.to_nodes(t, sn), service.numba) for t in job["targets"]
  ]
  system = service.system(proto, targets)
  out = {"keys": list(system.variable_keys), "costs": [], "groups": []}
  for a in good:
    costs, groups = [], []
    for k, target in enumerate(targets):
      path, _ = packed_dags.constrained_best_path(
          system.data.dag_tables[k].dag, system.conversion_data[k],
          suggest.real_assignments(a),
      )
      costs.append(sum(float(e.cost) for e in path))
      groups.append([
          (g.category, list(g.content_tokens), float(g.cost))
          for g in part_selection_dags.extract_match_groups(
              path, prototype=proto, target=target
          )
      ])
    out["costs"].append(costs)
    out["groups"].append(groups)
  if job["price"] and good and len(out["keys"]) > 1:
    out["price"] = suggest.price(system, good[-1])
    if bad is not None:
      out["bad_price"] = suggest.price(system, bad)
  return out


def check(ctx, p, job, out):
  nodes, good, bad = job_templates(job)
  util = lambda t: p["A"] if t == "A" else p["B"]
  what = f"{job['prototype']} vs {job['targets']}"
  names = edits.variables(nodes)
  keys = [(k.prototype_preorder_index, suggest.KIND[k.category])
          for k in out["keys"]]
  ctx.check(
      sorted(keys) == sorted(names), "decisions",
      lambda: f"{what}: decisions {keys}, expected {names}",
  )
  targets = [edits.annotate(t) for t in job["targets"]]
  found = part_selection_dags.DagStateCategory.SELECT_MATCHED
  lost = part_selection_dags.DagStateCategory.SELECT_UNMATCHED
  extra = part_selection_dags.DagStateCategory.SKIP_IN_TARGET
  for a, costs, groups in zip(good, out["costs"], out["groups"]):
    chosen = [
        part for part in calls.selected(nodes, a)
        if any(i[0] == "tok" for i in part)
    ]
    for k, target in enumerate(targets):
      want = calls.cost(nodes, target, a, util)
      common.check_close(
          ctx, costs[k], want, "utility", f"{what}: {a} against {k}"
      )
      shown = [g for g in groups[k] if g[0] in (found, lost)]
      ctx.check(
          [g[1] for g in shown]
          == [[i[2] for i in part if i[0] == "tok"] for part in chosen],
          "groups",
          lambda: f"{what}: {a}: parts {shown}, expected {chosen}",  # pylint: disable=cell-var-from-loop
      )
      read = [t for g in groups[k] if g[0] in (found, extra) for t in g[1]]
      ctx.check(
          read == [
              i[2] for i in calls.items(target) if i[0] == "tok"
          ][:len(read)],
          "groups",
          lambda: f"{what}: {a}: target {k} read as {groups[k]}",  # pylint: disable=cell-var-from-loop
      )
      read = [t for g in groups[k] if g[0] != extra for t in g[1]]
      ctx.check(
          read == [i[2] for i in calls.items(nodes) if i[0] == "tok"], "groups",
          lambda: f"{what}: {a}: prototype read as {groups[k]}",  # pylint: disable=cell-var-from-loop
      )
      total = sum(g[2] for g in groups[k])
      common.check_close(
          ctx, total, want, "groups", f"{what}: {a}: cost of the parts"
      )
      for g, part in zip(shown, chosen):
        tokens = [i for i in part if i[0] == "tok"]
        value = (
            -sum(util(i[1])[0] for i in tokens) if g[0] == found
            else sum(util(i[1])[1] for i in tokens)
        )
        common.check_close(
            ctx, g[2], value, "groups", f"{what}: {a}: cost of part {part}"
        )
      ctx.probes["found" if want < 0 else "not found"] += 1
    ctx.mark([n[0] for _, _, n in trees.preorder(job["prototype"])],
             "".join(a[v] for v in names))
    ctx.log(what, sorted(a.items()), costs)
  if "price" in out:
    a = good[-1]
    want = sum(calls.cost(nodes, t, a, util) for t in targets)
    common.check_close(
        ctx, out["price"], want, "utility", f"{what}: price of {a}"
    )
  if "bad_price" in out:
    ctx.probes["malformed selection offered"] += 1
    got = out["bad_price"]
    ctx.check(
        math.isinf(got) and got > 0, "malformed-accepted",
        lambda: f"{what}: malformed selection {bad} costs {got}",
    )


def run(case, ctx):
  p = case["params"]
  service = Service(p)
  threads = [[] for _ in range(case["threads"])]
  for job in case["jobs"]:
    threads[job["thread"] % case["threads"]].append({
        "name": f"price selections of {job['prototype']}",
        "op": "price-selections",
        "fn": lambda job=job: request(service, job),
        "check": lambda out, job=job: check(ctx, p, job, out),
        "fault": job["fault"],
    })
    if job["fault"]:
      ctx.nontrivial = True
  if len(case["jobs"]) > 1:
    ctx.nontrivial = True
  clock = sched_sim.VirtualClock([0.01])
  with clock:
    sim = common.run_tasks(ctx, threads, case["schedule"])
  ctx.sim_time += clock.now
  ctx.log("trace", sim.trace[:50], len(sim.trace))
