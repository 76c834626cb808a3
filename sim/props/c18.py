"""C18: what is shown to the user is what was computed."""

import re

import env  # pylint: disable=unused-import
from IPython import display
from matplotlib import pyplot
import numpy as np

import capture
import sched_sim
from models import edits
from models import trees
from props import common
from props import suggest

from r_u_sure.tree_structure import packed_sequence_nodes as packed
from r_u_sure.tree_structure import sequence_nodes as sn

LEVEL = common.LEVEL
COUNT = {"quick": 700, "thorough": 40000}
WALL_LIMIT = 120
RULE = (
    "A case is 1-3 suggestions of one service (regions, prefixes or calls, real"
    " contexts and samples, possibly empty), then 1-3 caller threads that show"
    " them in a notebook in random order: the marked suggestion, the edits into"
    " every sample, the utilities, the course of the optimisation, the parts,"
    " the baseline suggestions; seeded"
    " line-level schedule, cancelled and failed showings that are repeated."
    " Everything displayed, printed and plotted is recorded per thread and read"
    " back. Non-trivial: several showings or a fault."
)
MEASURE = "distinct (kind of showing, decisions shown) pairs"
REAL = suggest.REAL
STUB = [common.STUB_COMPILER, common.STUB_SCHED, common.STUB_CLOCK,
        common.STUB_DISPLAY]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "a page is read by its text and its region/edit classes, a plot by the"
    " points and levels handed to the plotting library",
]
PROTECTED = ("wrapper",)
WHAT = ["suggestion", "edits", "utilities", "optimisation", "parts", "baseline"]
LOG_PROBS = [0.0, -0.125, -0.5, -2.0, -6.0]


def gen(rng, tier, index):
  base = suggest.gen_case(rng, ["regions", "prefix", "both", "calls"], tier)
  lang = base["wrapper"]["lang"]
  requests = []
  for job in base["jobs"][:1]:
    requests.append({k: job[k] for k in ("context", "samples", "index")})
  for _ in range(rng.choice([0, 0, 1, 2])):
    last = requests[-1]
    context, samples = suggest.relative(
        rng, lang, last["context"], last["samples"]
    )
    if rng.random() < 0.15:
      samples = ["" for _ in samples]
    requests.append({"context": context, "samples": samples,
                     "index": rng.randrange(len(samples))})
  for r in requests:
    text, r["cuts"], i = r["samples"][r["index"]], [], 0
    while i < len(text):
      j = min(len(text), i + rng.choice([1, 2, 5]))
      r["cuts"].append([text[i:j], rng.choice(LOG_PROBS)])
      i = j
  threads = rng.choice([1, 1, 1, 2, 3])
  return {
      "wrapper": base["wrapper"],
      "clock": base["clock"],
      "requests": requests,
      "threads": threads,
      "shows": [
          {"thread": rng.randrange(threads), "what": rng.choice(WHAT),
           "which": rng.randrange(len(requests)),
           "fault": suggest.gen_fault(rng, 0.25, 8)}
          for _ in range(rng.choice([2, 4, 6]))
      ],
      "schedule": common.gen_schedule(rng, threads) if threads > 1 else [],
  }


def valid(case):
  if not case["requests"] or not case["shows"] or case["threads"] < 1:
    return False
  for r in case["requests"]:
    if not r["samples"] or not 0 <= r["index"] < len(r["samples"]):
      return False
    for c in r["cuts"]:
      if len(c) != 2 or not isinstance(c[0], str) or not -10 <= c[1] <= 0:
        return False
  for s in case["shows"]:
    if s["what"] not in WHAT or not 0 <= s["which"] < len(case["requests"]):
      return False
    if not 0 <= s["thread"] < case["threads"]:
      return False
    if s["fault"] is not None and (
        len(s["fault"]) != 2
        or s["fault"][0] not in ("interrupt", "nomem", "stack")):
      return False
  return bool(case["clock"])


def snapshot(result):
  """Everything a result says, as text."""
  opt = result.opt_results
  if result.assignment_map is None:
    return "empty"
  return repr([
      [(str(k), str(v)) for k, v in result.assignment_map.items()],
      sorted((k, repr(v)) for k, v in result.solution_info.items()),
      result.solution_utility, result.utility_dual_bound,
      [np.asarray(x).tolist() for x in (
          opt.objective_at_step, opt.variable_at_step, opt.time_at_sweep,
          opt.objective_at_sweep)],
      [np.asarray(t.penalties).tolist()
       for t in result.sample_system.data.dag_tables],
      trees.from_nodes(packed.unpack(result.packed_prototype), sn),
  ])


def show(runner, what, result, baselines):
  """Returns (pages, printed text, plots, values) of one showing."""
  pages, figures = display.shown(), pyplot.figures()
  first, plots = len(pages), len(figures)
  values = []

  def show_baselines(_):
    for b in baselines.values():
      runner.show_suggestion(b)
      values.append(runner.get_extracted_parts(b))
  fn = {
      "parts": lambda r: values.append(runner.get_extracted_parts(r)),
      "baseline": show_baselines,
      "suggestion": runner.show_suggestion,
      "edits": runner.show_edits,
      "utilities": runner.show_utilities,
      "optimisation": runner.show_optimization_details,
  }[what]
  with capture.printed() as text:
    fn(result)
  return ([p.data for p in pages[first:]], "".join(text), figures[plots:],
          values)


def check_baselines(ctx, name, request, model, baselines, pages, values):
  ctx.check(
      len(pages) == len(values) == len(baselines), "shown",
      lambda: f"{name}: {len(pages)} pages for {sorted(baselines)}",
  )
  for (key, b), page, groups in zip(baselines.items(), pages, values):
    nodes = edits.annotate(
        trees.from_nodes(packed.unpack(b.packed_prototype), sn)
    )
    a = suggest.model_assignments(b.assignment_map)
    ctx.mark("baseline", key, sorted(a.items()))
    suggest.check_suggestion(
        ctx, f"{name}: {key}, {request['cuts']}", nodes, a, b.solution_info,
        page, model.context, groups,
    )


def check(ctx, case, item, results, baselines, out):
  pages, text, figures, values = out
  request, what = case["requests"][item["which"]], item["what"]
  result = results[item["which"]]
  name = f"{what} of {request['context']!r} + {request['samples']!r}"
  model = suggest.model_of(case["wrapper"], request["context"])
  if what == "baseline":
    ctx.check(
        not text.strip() and not figures, "shown", lambda: f"{name}: {text!r}"
    )
    check_baselines(ctx, name, request, model, baselines[item["which"]], pages,
                    values)
    return
  if what == "parts" and result.assignment_map is None:
    ctx.check(
        values == [None], "empty-result", lambda: f"{name}: parts {values}"
    )
    return
  if result.assignment_map is None:
    ctx.check(
        text.strip() and not pages and not figures, "empty-result",
        lambda: f"{name}: nothing to show, but {pages}, {text!r}",
    )
    ctx.mark(what, "empty")
    return
  a = suggest.model_assignments(result.assignment_map)
  nodes = edits.annotate(
      trees.from_nodes(packed.unpack(result.packed_prototype), sn)
  )
  ctx.mark(what, sorted(a.items()))
  ctx.log(name, len(pages), len(text), len(figures))
  if what == "parts":
    want = []
    for t, r in result.solution_info["extracted_parts"]:
      if want and want[-1][1] == r:
        want[-1][0] += t
      else:
        want.append([t, r])
    ctx.check(
        [list(g) for g in values[0]] == want, "parts",
        lambda: f"{name}: {values[0]}, expected {want}",
    )
  want_pages = 1 if what in ("suggestion", "edits") else 0
  ctx.check(
      len(pages) == want_pages
      and len(figures) == (1 if what == "optimisation" else 0),
      "shown",
      lambda: f"{name}: {len(pages)} pages, {len(figures)} figures",
  )
  if what == "suggestion":
    suggest.check_suggestion(
        ctx, name, nodes, a, result.solution_info, pages[0], model.context,
        None,
    )
  elif what == "edits":
    targets = [
        edits.annotate(trees.from_nodes(packed.unpack(t), sn))
        for t in result.packed_targets
    ]
    model.check_edits(ctx, name, nodes, a, pages[0], targets)
  elif what == "parts":
    pass
  elif what == "utilities":
    targets = [
        edits.annotate(trees.from_nodes(packed.unpack(t), sn))
        for t in result.packed_targets
    ]
    want = [-model.cost(nodes, t, a) for t in targets]
    lines = [l for l in text.splitlines() if l.strip()]
    got = []
    for line in lines:
      numbers = re.findall(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf)", line)
      got.append(float(numbers[-1]) if numbers else None)
    ctx.check(
        len(got) == len(want)
        and all(g is not None and abs(g - w) <= 2e-6
                for g, w in zip(got, want)),
        "utilities", lambda: f"{name}: printed {text!r}, expected {want}",
    )
  else:
    opt = result.opt_results
    down = lambda x: [0.0 - float(v) for v in x]  # no negative zero
    want = [
        (list(range(len(opt.objective_at_step))), down(opt.objective_at_step)),
        ([float(x) for x in opt.variable_at_step], down(opt.objective_at_step)),
        ([float(x) for x in opt.time_at_sweep], down(opt.objective_at_sweep)),
    ]
    axes = figures[0] if isinstance(figures[0], list) else [figures[0]]
    got = [
        ([float(v) for v in x], [float(v) + 0.0 for v in y])
        for ax in axes for x, y in ax.lines
    ]
    ctx.check(
        sorted(map(repr, got)) == sorted(repr(
            ([float(v) for v in x], y)) for x, y in want),
        "curves", lambda: f"{name}: plotted {got}, expected {want}",
    )
    levels = [float(y) for ax in axes for y in ax.levels]
    ctx.check(
        levels and all(
            common.close(y, float(result.solution_utility)) for y in levels
        ),
        "curves", lambda: f"{name}: levels {levels},"
        f" expected {result.solution_utility}",
    )


def run(case, ctx):
  clock = sched_sim.VirtualClock(case["clock"])
  runner = suggest.make_runner(case["wrapper"])
  with clock:
    results = [
        common.must(
            ctx,
            lambda r=r: runner.combine(
                r["context"], r["samples"], prototype_index=r["index"]
            ),
            "suggest",
        )
        for r in case["requests"]
    ]
    baselines = [
        common.must(
            ctx,
            lambda r=r: runner.build_baselines(
                r["context"], [(t, p) for t, p in r["cuts"]]
            ),
            "baselines",
        )
        if any(s["what"] == "baseline" and s["which"] == i
               for s in case["shows"]) else {}
        for i, r in enumerate(case["requests"])
    ]
    before = [snapshot(r) for r in results]
    threads = [[] for _ in range(case["threads"])]
    for item in case["shows"]:
      threads[item["thread"]].append({
          "name": f"show {item['what']}",
          "op": f"show-{item['what']}",
          "fn": lambda item=item: show(
              runner, item["what"], results[item["which"]],
              baselines[item["which"]],
          ),
          "check": lambda out, item=item: check(
              ctx, case, item, results, baselines, out
          ),
          "fault": item["fault"],
      })
      if item["fault"]:
        ctx.nontrivial = True
    if len(case["shows"]) > 1:
      ctx.nontrivial = True
    sim = common.run_tasks(ctx, threads, case["schedule"])
  ctx.sim_time += clock.now
  for r, old, request in zip(results, before, case["requests"]):
    new = snapshot(r)
    ctx.check(
        new == old, "result-changed",
        lambda: f"{request}: result {new}, before it was shown {old}",  # pylint: disable=cell-var-from-loop
    )
  ctx.log("trace", sim.trace[:50], len(sim.trace))
