"""C14: baseline suggestions built from the model's token confidences."""

import env  # pylint: disable=unused-import

import sched_sim
from models import corpus
from models import edits
from models import probs
from models import trees
from props import common
from props import suggest

from r_u_sure.tree_structure import packed_sequence_nodes as packed
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import prefix_truncation_wrapper
from r_u_sure.wrappers import uncertainty_regions_wrapper

LEVEL = common.LEVEL
COUNT = {"quick": 1000, "thorough": 60000}
WALL_LIMIT = 120
RULE = (
    "A case is one shared suggestion service (regions, prefix or calls; random"
    " baseline settings) asked by 1-3 caller threads for all baseline suggestions"
    " of random contexts and samples, cut at random places into model tokens with"
    " random log probabilities; seeded line-level schedule, virtual clock,"
    " cancelled and failed requests that are retried. Every baseline is compared"
    " with the reference rule. Non-trivial: several requests, a fault, or an"
    " abnormal clock."
)
MEASURE = "distinct (baseline, decisions) pairs"
REAL = suggest.REAL + [
    "wrappers/*_wrapper baseline builders", "tree_structure/token_prob_align",
]
STUB = [common.STUB_COMPILER, common.STUB_SCHED, common.STUB_CLOCK,
        common.STUB_DISPLAY]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "the parse of the samples is taken as given here (C09 checks it)",
]
PROTECTED = ("wrapper",)

LOG_PROBS = [0.0, 0.0, -0.125, -0.25, -0.25, -0.5, -1.0, -2.0, -6.0]


def gen_log_prob(rng):
  if rng.random() < 0.5:
    return rng.choice(LOG_PROBS)
  return -rng.randint(1, 64) / 64  # sums stay exact


def gen_parts(rng, text):
  parts = []
  i = 0
  while i < len(text):
    if rng.random() < 0.08:
      parts.append(["", gen_log_prob(rng)])
    steps = [1, 1, 2, 3, 5, 9] if len(text) < 150 else [7, 30, 200, 1000]
    j = min(len(text), i + rng.choice(steps))
    parts.append([text[i:j], gen_log_prob(rng)])
    i = j
  while rng.random() < 0.1:
    parts.append(["", gen_log_prob(rng)])
  return parts


def gen(rng, tier, index):
  threads = rng.choice([1] * 8 + [2, 2, 3])
  kind = rng.choice(["regions", "regions", "prefix", "prefix", "calls", "both"])
  pick = lambda values, n: sorted(rng.sample(values, rng.randint(0, n)))
  ts = [0.0, 0.001, 0.01, 0.1, 0.3, 0.5, 0.7, 0.8, 0.9, 1.0]
  spec = {
      "kind": kind,
      "numba": rng.random() < 0.4,
      "rewrite": rng.random() < 0.7,
      "table": rng.choice([64, 1024, 1 << 16]),
      "lang": rng.choice(suggest.LANGS),
      "precision": 0.3 if kind == "calls" else rng.choice([0.7, 0.5, 0.9]),
      "start": rng.choice([5.0, 1.0]),
      "sensitivity": rng.choice([0.5, 0.25]),
      "token": pick(ts, 2),
      "cumulative": pick(ts, 2),
      "fraction": pick([0.0, 0.25, 0.5, 0.9, 1.0], 2),
      "depth": [list(x) for x in pick([(1, 1), (1, 2), (2, 1), (3, 3)], 2)],
      "intellicode": rng.random() < 0.5,
      "average": rng.random() < 0.5,
      "characters": pick([0, 1, 2, 5, 9, 20, 50], 3),
      "lines": pick([0, 1, 2, 3, 8], 3),
  }
  jobs = []
  for t in range(threads):
    for _ in range(1 if threads > 1 else rng.choice([1, 1, 2])):
      if kind == "calls":
        context, samples = suggest.gen_call_code(rng, spec["lang"])
      else:
        context, samples = suggest.gen_small_code(rng, spec["lang"])
        if rng.random() < 0.3:
          samples[0] = rng.choice(["\n", "\n  ", "\n"]).join(
              suggest.gen_snippet(rng, spec["lang"], 2)
              for _ in range(rng.choice([3, 3, 6]))
          )
        if rng.random() < 0.08:
          at = rng.randint(0, len(samples[0]))
          samples[0] = (
              samples[0][:at] + " " + "longname" * rng.choice([20, 60, 400])
              + " " + samples[0][at:]
          )
      parts = gen_parts(rng, samples[0])
      if rng.random() < 0.15:
        context, samples = corpus.window(rng, rng.choice([3, 6, 10]))
        parts = samples[0]
      jobs.append({
          "thread": t,
          "context": context,
          "parts": parts,
          "fault": suggest.gen_fault(rng),
      })
  return {
      "wrapper": spec,
      "threads": threads,
      "jobs": jobs,
      "clock": suggest.gen_clock(rng),
      "schedule": common.gen_schedule(rng, threads) if threads > 1 else [],
  }


def valid(case):
  if not case["jobs"] or case["threads"] < 1 or not case["clock"]:
    return False
  for j in case["jobs"]:
    for p in j["parts"]:
      if len(p) != 2 or not isinstance(p[0], str) or p[1] > 0:
        return False
    if j["fault"] is not None and (
        len(j["fault"]) != 2
        or j["fault"][0] not in ("interrupt", "nomem", "stack")):
      return False
  return True


def make_runner(spec):
  with suggest.small_tables(spec["table"]):
    if spec["kind"] == "regions":
      wrapper = uncertainty_regions_wrapper.UncertaintyRegionsWrapper(
          effective_precision=spec["precision"],
          high_confidence_start_inserting_cost=spec["start"],
          low_confidence_edit_sensitivity=spec["sensitivity"],
          use_numba=spec["numba"],
          baseline_token_prob_thresholds=tuple(spec["token"]),
          baseline_example_fractions=tuple(spec["fraction"]),
          baseline_depth_cutoffs=tuple(tuple(d) for d in spec["depth"]),
      )
    elif spec["kind"] == "calls":
      wrapper = suggest.make_wrapper(spec)
    else:
      wrapper = prefix_truncation_wrapper.PrefixByEditDistanceWrapper(
          start_editing_cost=spec["start"],
          also_insert_uncertainty_regions=spec["kind"] == "both",
          uncertainty_region_effective_precision=spec["precision"],
          low_confidence_edit_sensitivity=spec["sensitivity"],
          use_numba=spec["numba"],
          baseline_token_prob_thresholds=tuple(spec["token"]),
          baseline_prefix_prob_thresholds=tuple(spec["cumulative"]),
          baseline_max_avg_log_prob=spec["average"],
          baseline_intellicode=spec["intellicode"],
          baseline_max_characters=tuple(spec["characters"]),
          baseline_max_lines=tuple(spec["lines"]),
      )
  return demo_runner.DemoRunner(wrapper, language=spec["lang"])


def expected_names(spec):
  """{name: (rule, argument)}"""
  out = {}
  if spec["kind"] == "regions":
    for t in spec["token"]:
      out[f"prob_threshold_{t}_nonempty"] = ("token", t)
      out[f"prob_threshold_{t}_cumulative"] = ("cumulative", t)
    for f in spec["fraction"]:
      out[f"example_fraction_{f}"] = ("fraction", f)
    for a, c in spec["depth"]:
      out[f"cutoff_anc_{a}_child_{c}"] = ("depth", (a, c))
  elif spec["kind"] == "prefix":
    for t in spec["token"]:
      out[f"prob_threshold_{t}"] = ("token", t)
    for t in spec["cumulative"]:
      out[f"prefix_prob_threshold_{t}"] = ("cumulative", t)
    if spec["intellicode"]:
      out["intellicode"] = ("intellicode", None)
    if spec["average"]:
      out["max_avg_log_prob"] = ("average", None)
    for n in spec["characters"]:
      out[f"character_length_{n}"] = ("characters", n)
    for n in spec["lines"]:
      out[f"line_length_{n}"] = ("lines", n)
  elif spec["kind"] == "calls":
    for n in ("all_calls_full", "all_calls_shorter", "novel_calls_shorter"):
      out[n] = (n, None)
  return out


def request(runner, job):
  parts = [(t, lp) for t, lp in job["parts"]]
  result = runner.build_baselines(job["context"], parts)
  text = "".join(t for t, _ in parts)
  return {
      "result": result,
      "parts": parts,
      "parsed": trees.from_nodes(
          runner.parser_helper.parse_to_nodes(job["context"] + text), sn
      ),
      "groups": {
          k: runner.get_extracted_parts(v) for k, v in result.items()
      },
  }


def full_exits(nodes, exit_at):
  a = {}
  done = False
  for n in probs.preorder(nodes):
    if n["k"] == "X":
      a[(n["i"], "exit")] = "N" if done else "T" if n["i"] == exit_at else "F"
      done = done or n["i"] == exit_at
  return a


def check_parts(ctx, what, nodes, a, result, groups):
  want = [(t, r) for t, r, _ in edits.shown(nodes, a)]
  got = [tuple(x) for x in result.solution_info["extracted_parts"]]
  ctx.check(
      got == want, "baseline-text",
      lambda: f"{what}: shows {got}, expected {want}",
  )
  merged = []
  for t, r in got:
    if merged and merged[-1][1] == r:
      merged[-1][0] += t
    else:
      merged.append([t, r])
  ctx.check(
      [list(g) for g in groups] == merged, "baseline-text",
      lambda: f"{what}: grouped {groups}, expected {merged}",
  )


def check(ctx, spec, slow, job, out):
  model = suggest.model_of(spec, job["context"])
  what = f"{job['context']!r} + {job['parts']!r}"
  ctx.check(
      out["parts"] == [(t, lp) for t, lp in job["parts"]], "input-changed",
      lambda: f"{what}: the caller's tokens became {out['parts']}",
  )
  names = expected_names(spec)
  got = out["result"]
  ctx.check(
      sorted(got) == sorted(names), "baselines",
      lambda: f"{what}: baselines {sorted(got)}, expected {sorted(names)}",
  )
  cursor = len(job["context"])
  want = model.prototype(out["parsed"], cursor)
  goal = edits.annotate(model.target(out["parsed"], cursor))
  nodes = edits.annotate(want)
  calls = spec["kind"] == "calls"
  lps = {} if calls else probs.token_probs(nodes, job["parts"])
  for name, (rule, arg) in sorted(names.items()):
    r = got[name]
    tree = trees.from_nodes(packed.unpack(r.packed_prototype), sn)
    ctx.check(
        tree == want, "prototype",
        lambda: f"{what}: prototype {tree}, expected {want}",  # pylint: disable=cell-var-from-loop
    )
    a = suggest.model_assignments(r.assignment_map)
    label = f"{what}: {name}"
    if calls:
      ref = probs.call_baselines(nodes)[rule]
    elif spec["kind"] == "prefix":
      if rule == "average":
        averages = probs.exit_averages(nodes, lps)
        taken = [i for (i, k), v in a.items() if k == "exit" and v == "T"]
        exit_at = taken[0] if taken else None
        best = max(averages.values(), default=None)
        ctx.check(
            exit_at is None if best is None
            else exit_at in averages and averages[exit_at] >= best - 1e-9,
            "baseline",
            lambda: f"{label}: exit {exit_at} of averages {averages}",  # pylint: disable=cell-var-from-loop
        )
      else:
        exit_at = probs.prefix_exit(nodes, rule, arg, lps)
      ref = full_exits(nodes, exit_at)
      ctx.probes["cut" if exit_at is not None else "shown whole"] += 1
    else:
      check_regions(ctx, label, nodes, goal, a, model, slow,
                    probs.low_tokens(nodes, rule, arg, lps))
      ref = a
    # Values for further decisions are allowed, but not needed.
    ctx.check(
        all(a.get(k) == v for k, v in ref.items()), "baseline",
        lambda: f"{label}: {a}, expected {ref}",  # pylint: disable=cell-var-from-loop
    )
    check_parts(ctx, label, nodes, a, r, out["groups"][name])
    ctx.mark(rule, sorted(a.items()))
    ctx.log(name, sorted(a.items()))


def check_regions(ctx, label, nodes, goal, a, model, slow, wanted):
  if not nodes:
    ctx.probes["empty"] += 1
    return
  bad = edits.problems(nodes, a)
  ctx.check(not bad, "malformed-baseline", lambda: f"{label}: {bad[:3]}")
  possible = probs.coverable(nodes)
  missing = [i for i in wanted if i in possible and a[(i, "in")] != "T"]
  ctx.check(
      not missing, "baseline",
      lambda: f"{label}: tokens {missing} of {wanted} are not in a region: {a}",
  )
  impossible = [i for i in wanted if i not in possible]
  cost = model.cost(nodes, goal, a)
  best = probs.cheapest_regions(
      nodes, [i for i in wanted if i in possible], model.par, 1e6
  )
  if impossible:
    ctx.probes["unreachable token"] += 1
  if slow:
    return
  ctx.probes["cheapest marking checked"] += 1
  common.check_close(
      ctx, cost, best, "baseline",
      f"{label}: more is marked than needed, {a}; cost",
  )


def run(case, ctx):
  spec = case["wrapper"]
  clock = sched_sim.VirtualClock([float(x) for x in case["clock"]])
  slow = case["clock"][0] >= 1 or len(case["clock"]) > 1
  runner = make_runner(spec)
  threads = [[] for _ in range(case["threads"])]
  for job in case["jobs"]:
    threads[job["thread"] % case["threads"]].append({
        "name": f"baselines({job['context']!r}, {job['parts']!r})",
        "op": "baselines-" + spec["kind"],
        "fn": lambda job=job: request(runner, job),
        "check": lambda out, job=job: check(ctx, spec, slow, job, out),
        "fault": job["fault"],
    })
    if job["fault"]:
      ctx.nontrivial = True
  if len(case["jobs"]) > 1:
    ctx.nontrivial = True
  with clock:
    sim = common.run_tasks(ctx, threads, case["schedule"])
  ctx.sim_time += clock.now
  if slow:
    ctx.faults["clock-slow-or-stalled"] += 1
    ctx.nontrivial = True
  ctx.log("trace", sim.trace[:50], len(sim.trace))
