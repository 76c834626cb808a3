"""C10: tree transformations and packing keep the suggestion intact."""

import copy

import env  # pylint: disable=unused-import

from models import trees
from props import common

from r_u_sure.tree_structure import packed_sequence_nodes as packed
from r_u_sure.tree_structure import sequence_node_helpers as helpers
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import transforms
from r_u_sure.wrappers import parser_tools

LEVEL = common.LEVEL
COUNT = {"quick": 60000, "thorough": 800000}
WALL_LIMIT = 60
RULE = (
    "A case is a pool of random trees (empty groups, empty tokens, decorations,"
    " control nodes) shared by 1-3 caller threads that apply pipelines of"
    " transformations to them, pack, unpack, walk and look up paths, under a"
    " seeded line-level schedule, with cancelled and failed requests that are"
    " retried. Every result is compared with the reference model's, and the"
    " shared inputs with their state before the run. Non-trivial: two pipelines"
    " started from one shared tree, or a request was cancelled."
)
MEASURE = "distinct (pipeline, result shape) pairs"
REAL = [
    "tree_structure/transforms",
    "tree_structure/packed_sequence_nodes",
    "tree_structure/sequence_node_helpers",
    "tree_structure/sequence_nodes",
    "wrappers/parser_tools (packing, region filter)",
]
STUB = [common.STUB_COMPILER, common.STUB_SCHED]
ASSUMPTIONS = common.BASE_ASSUMPTIONS


def gen_op(rng, tree_len):
  r = rng.choice(["flatten", "collapse", "exits", "regions", "regions", "scoped",
                  "cut", "cut", "strip"])
  if r == "exits":
    return [r, rng.random() < 0.5, rng.random() < 0.5]
  if r == "regions":
    return [r, rng.random() < 0.5, rng.choice(sorted(trees.FILTERS))]
  if r == "cut":
    return [r, rng.randint(0, tree_len + 2)]
  return [r]


def gen(rng, tier, index):
  pool = []
  for _ in range(rng.choice([1, 1, 2])):
    pool.append(trees.gen_tree(rng, [rng.choice([2, 6, 14, 25])],
                               control=rng.random() < 0.4))
    if rng.random() < 0.05:
      pool[-1] = trees.deepen(rng, pool[-1])
  threads = rng.choice([1, 1, 1, 1, 2, 3])
  jobs = []
  for _ in range(rng.randint(max(1, threads), 4)):
    base = rng.randrange(len(pool))
    n = len(trees.text(pool[base]))
    jobs.append({
        "thread": rng.randrange(threads),
        "base": base,
        "ops": [gen_op(rng, n) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
        "numba": rng.random() < 0.5,
        "strip": rng.random() < 0.5,
        "walk": [rng.random() < 0.5, rng.random() < 0.5],
        "fault": (
            [rng.choice(["interrupt", "nomem", "stack"]),
             int(2 ** rng.uniform(0, 9))]
            if rng.random() < 0.15 else None
        ),
    })
  return {
      "pool": pool,
      "threads": threads,
      "jobs": jobs,
      "schedule": common.gen_schedule(rng, threads) if threads > 1 else [],
  }


def valid(case):
  def ok(ns):
    for n in ns:
      if not isinstance(n, list) or not n or not isinstance(n[0], str):
        return False
      k = n[0]
      if k == "G":
        if len(n) != 3 or not isinstance(n[2], list) or not ok(n[2]):
          return False
      elif k == "T":
        if len(n) != 3 or not isinstance(n[2], str):
          return False
      elif k == "D":
        if len(n) != 2 or not isinstance(n[1], str):
          return False
      elif k not in ("S", "E", "X") or len(n) != 1:
        return False
    return True
  if not case["pool"] or not case["jobs"] or case["threads"] < 1:
    return False
  if not all(ok(t) for t in case["pool"]):
    return False
  for j in case["jobs"]:
    if not 0 <= j["base"] < len(case["pool"]):
      return False
    for op in j["ops"]:
      if not op or len(op) != {"exits": 3, "regions": 3, "cut": 2}.get(op[0], 1):
        return False
      if op[0] == "regions" and op[2] not in trees.FILTERS:
        return False
      if op[0] not in ("flatten", "collapse", "exits", "regions", "scoped",
                       "cut", "strip"):
        return False
    if j["fault"] is not None and (
        len(j["fault"]) != 2 or j["fault"][0] not in ("interrupt", "nomem", "stack")):
      return False
    if len(j["walk"]) != 2:
      return False
  return True


def apply_ref(tree, ops):
  for op in ops:
    k = op[0]
    if k == "flatten":
      tree = trees.flatten(tree)
    elif k == "collapse":
      tree = trees.collapse(tree)
    elif k == "exits":
      tree = trees.exits(tree, op[1], op[2])
    elif k == "regions":
      tree = trees.regions(tree, op[1], trees.FILTERS[op[2]])
    elif k == "scoped":
      tree = trees.scoped(tree)
    elif k == "cut":
      tree = trees.cut(tree, op[1])
    else:
      tree = trees.strip(tree)
  return tree


def real_filter(name):
  if name == "pseudo":
    return parser_tools.allow_regions_around_pseudoparse_node
  keep = trees.FILTERS[name]

  def f(node):
    if isinstance(node, sn.TextTokenNode):
      return keep(["T", node.match_type, node.text_contents])
    return keep(["G", node.match_type, []])
  return f


def apply_real(nodes, ops):
  for op in ops:
    k = op[0]
    if k == "flatten":
      nodes = transforms.flatten_groups(nodes)
    elif k == "collapse":
      nodes = transforms.flatten_singleton_groups(nodes)
    elif k == "exits":
      nodes = transforms.insert_early_exit(
          nodes, allowed_within_group=op[1], allowed_at_start=op[2]
      )
    elif k == "regions":
      nodes = transforms.insert_region_options_around_subsequences(
          nodes, allow_empty_regions=op[1], node_filter=real_filter(op[2])
      )
    elif k == "scoped":
      nodes = transforms.insert_region_options_around_single_nodes(nodes)
    elif k == "cut":
      nodes = transforms.truncate_prefix_at_offset(nodes, op[1])
    else:
      nodes = transforms.strip_decision_nodes(nodes)
  return nodes


CATEGORY = {
    "D": "TEXT_DECORATION_NODE", "T": "TEXT_TOKEN_NODE", "G": "GROUP_NODE",
    "S": "REGION_START_NODE", "E": "REGION_END_NODE", "X": "EARLY_EXIT_NODE",
}


def wrong_paths(paths):
  """Paths that lead nowhere."""
  known = set(paths)
  for p in [()] + paths[:4] + paths[-4:]:
    for q in (p + (-1,), p + (1000,)):
      if q not in known:
        yield q


def refused(storage, path):
  """A path that leads nowhere has no children."""
  try:
    storage.subsequence_from_node_path(sn.NestedNodePath(path))
  except (ValueError, IndexError):
    return True
  return False


def request(nodes, job):
  out = {}
  result = apply_real(nodes, job["ops"])
  out["result"] = result
  storage = parser_tools.pack_sequence_from_pseudoparser(result, job["numba"])
  out["storage"] = storage
  out["unpacked"] = packed.unpack(storage)
  out["text"] = helpers.render_text_contents(result)
  out["packed_text"] = packed.render_text_contents_of_list(
      storage.root_sequence, storage
  )
  out["depth"] = helpers.compute_depth(result)
  out["walk"] = [
      (n, p.path, tag.name)
      for n, p, tag in helpers.walk_with_paths(
          result, visit_groups_before=job["walk"][0],
          visit_groups_after=job["walk"][1],
      )
  ]
  out["items"] = [
      (i.category.name, i.node_id)
      for i in packed.in_order_traversal(storage, job["strip"])
  ]
  out["preorder"] = list(storage.preorder_traversal)
  out["paths"] = [
      storage.path_from_preorder_index(i).path
      for i in range(len(storage.preorder_traversal))
  ]
  out["ids"] = [
      storage.node_id_from_node_path(sn.NestedNodePath(p)) for p in out["paths"]
  ]
  out["wrong"] = [
      (path, refused(storage, path)) for path in wrong_paths(out["paths"])
  ]
  out["node_texts"] = [
      packed.render_text_contents_of_node(i, storage)
      for i in storage.preorder_traversal
  ]
  out["debug"] = helpers.render_debug(result)
  return out


def debug_lines(tree):
  out = []
  for n in tree:
    if n[0] == "D":
      out.append("DEC: " + repr(n[1]))
    elif n[0] == "T":
      out.append(f"TOK({_t(n[1])}): {n[2]!r}")
    elif n[0] == "G":
      t = trees.text(n[2])
      short = repr(t[:77]) + "..." if len(t) > 80 else repr(t)
      out.append(f"GROUP({_t(n[1])}): {short}")
      out += ["  " + line for line in debug_lines(n[2])]
    else:
      out.append({"S": "RegionStartNode()", "E": "RegionEndNode()",
                  "X": "EarlyExitNode()"}[n[0]])
  return out


def _t(t):
  return tuple(_t(x) for x in t) if isinstance(t, list) else t


def check(ctx, job, tree, out):
  want = apply_ref(tree, job["ops"])
  got = trees.from_nodes(out["result"], sn)
  ctx.check(got == want, "transform",
            lambda: f"{job['ops']} on {tree}: {got}, expected {want}")
  back = trees.from_nodes(out["unpacked"], sn)
  ctx.check(back == want, "pack", lambda: f"unpacked {back}, expected {want}")
  text = trees.text(want)
  ctx.check(out["text"] == text and out["packed_text"] == text, "text-changed",
            lambda: f"{out['text']!r}, {out['packed_text']!r}, expected {text!r}")
  cuts = [op[1] for op in job["ops"] if op[0] == "cut"]
  full = trees.text(tree)
  for c in cuts:
    full = full[c:]
  ctx.check(text == full, "harness-model", lambda: "reference lost text")
  ctx.check(out["depth"] == trees.depth(want), "depth",
            lambda: f"depth {out['depth']}, expected {trees.depth(want)}")
  levels = 1 + max([lv for _, lv, _ in trees.preorder(want)], default=0)
  ctx.check(out["storage"].depth == levels, "depth",
            lambda: f"packed depth {out['storage'].depth}, expected {levels}")
  walk = [(trees.from_nodes([n], sn)[0], p, t) for n, p, t in out["walk"]]
  ref_walk = trees.walk(want, *job["walk"])
  ctx.check(walk == ref_walk, "walk", lambda: f"walk {walk}, expected {ref_walk}")
  order = trees.preorder(want)
  ctx.check(out["paths"] == [p for p, _, _ in order], "paths",
            lambda: f"paths {out['paths']}, expected {[p for p, _, _ in order]}")
  ctx.check(
      [i.category.name for i in out["preorder"]]
      == [CATEGORY[n[0]] for _, _, n in order]
      and [i.preorder_index for i in out["preorder"]]
      == list(range(len(order))),
      "preorder", lambda: f"preorder {out['preorder']} for {want}",
  )
  ctx.check(out["ids"] == out["preorder"], "paths",
            lambda: "a path does not lead back to its node")
  followed = [p for p, ok in out["wrong"] if not ok]
  ctx.check(not followed, "paths",
            lambda: f"paths {followed} lead nowhere in {want}")
  ctx.check(
      list(out["storage"].level_from_preorder) == [lv for _, lv, _ in order],
      "levels", lambda: f"levels {list(out['storage'].level_from_preorder)}",
  )
  texts = [
      trees.text([n]) for _, _, n in order
  ]
  ctx.check(out["node_texts"] == texts, "text-changed",
            lambda: f"node texts {out['node_texts']}, expected {texts}")
  index = {id(n): i for i, (_, _, n) in enumerate(order)}
  flat = []

  def go(ns):
    for n in ns:
      if n[0] == "G":
        flat.append(("BEFORE_GROUP", next_id()))
        mine = flat[-1][1]
        go(n[2])
        flat.append(("AFTER_GROUP", mine))
      else:
        i = next_id()
        if not (job["strip"] and n[0] == "D"):
          flat.append(("LEAF", i))
  counter = iter(range(len(order)))
  def next_id():
    return next(counter)
  del index
  go(want)
  got_items = [(c, i.preorder_index) for c, i in out["items"]]
  ctx.check(got_items == flat, "traversal",
            lambda: f"traversal {got_items}, expected {flat}")
  lines = out["debug"].split("\n") if out["debug"] else []
  ref_lines = "\n".join(debug_lines(want)).split("\n") if want else []
  ctx.check(lines == ref_lines, "debug-view",
            lambda: f"{lines}, expected {ref_lines}")
  ctx.mark([o[0] for o in job["ops"]], [n[0] for _, _, n in order])
  ctx.log(job["ops"], want)


def run(case, ctx):
  pool = [trees.to_nodes(t, sn) for t in case["pool"]]
  before = copy.deepcopy(pool)
  ids = [[id(n) for n in nodes] for nodes in pool]
  threads = [[] for _ in range(case["threads"])]
  used = set()
  for job in case["jobs"]:
    base = job["base"]
    if base in used or job["fault"]:
      ctx.nontrivial = True
    used.add(base)
    threads[job["thread"] % case["threads"]].append({
        "name": "+".join(op[0] for op in job["ops"]) or "pack",
        "op": "pipeline",
        "fn": lambda base=base, job=job: request(pool[base], job),
        "check": lambda out, base=base, job=job: check(
            ctx, job, case["pool"][base], out
        ),
        "fault": job["fault"],
    })
  sim = common.run_tasks(ctx, threads, case["schedule"])
  ctx.check(pool == before, "input-changed",
            lambda: "a transformation changed its input")
  ctx.check(ids == [[id(n) for n in nodes] for nodes in pool], "input-changed",
            lambda: "a transformation replaced nodes of its input")
  ctx.log("trace", sim.trace[:50], len(sim.trace))
