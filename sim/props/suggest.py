"""Shared machinery of the suggestion pipelines (C11, C12, C17)."""

import contextlib
import html
import html.parser
import math
import random

import env  # pylint: disable=unused-import
import numpy as np

import core
import sched_sim
from models import corpus
from models import calls
from models import codegen
from models import edits
from models import trees
from props import common

from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.edit_distance_utility import region_decisions
from r_u_sure.parsing import python_builtin_tokens
from r_u_sure.tree_structure import packed_sequence_nodes as packed
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.wrappers import call_sequence_wrapper
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import prefix_truncation_wrapper
from r_u_sure.wrappers import uncertainty_regions_wrapper

CATEGORY = {
    "start": region_decisions.DecisionCategory.REGION_SHOULD_START,
    "end": region_decisions.DecisionCategory.REGION_SHOULD_END,
    "in": region_decisions.DecisionCategory.NODE_IN_REGION,
    "exit": region_decisions.DecisionCategory.SHOULD_EARLY_EXIT,
}
KIND = {v: k for k, v in CATEGORY.items()}
VALUE = {
    "F": region_decisions.DecisionValue.FALSE,
    "T": region_decisions.DecisionValue.TRUE,
    "N": region_decisions.DecisionValue.NOT_APPLICABLE,
}
LETTER = {v: k for k, v in VALUE.items()}

REAL = [
    "wrappers/demo_runner", "wrappers/edit_distance_wrapper_base",
    "wrappers/parser_tools", "wrappers/wrapper_base",
    "edit_distance_utility/edit_dags", "edit_distance_utility/constraint_dags",
    "edit_distance_utility/region_decisions",
    "decision_diagrams/* (build, pack, solve, extract)",
    "tree_structure/transforms, packed_sequence_nodes", "parsing/*",
]


# ------------------------------------------------------------------ generation


def gen_small_code(rng, lang):
  """A context and a handful of short model samples."""
  if lang == "python":
    context = rng.choice(
        ["", "x = 1\n", "def f(a):\n  ", "y = foo(", "# c\n", "if x:\n  y\n",
         "a <b> & 'c'\n", "s = \"a"]
    )
  else:
    context = rng.choice(
        ["", "int x;\n", "void f() {\n  ", "foo(", "/* a<b */ ", "if (x) {"]
    )
  n = rng.choice([1, 2, 2, 3, 4])
  base = gen_snippet(rng, lang)
  samples = []
  for _ in range(n):
    r = rng.random()
    if r < 0.3:
      samples.append(base)
    elif r < 0.9:
      samples.append(mutate(rng, lang, base))
    else:
      samples.append(gen_snippet(rng, lang))
  return context, samples


WORDS = ["a", "bc", "x", "foo", "1", "22", "+", "=", ".", ",", "'s'", "\"t\"",
         "é", "<b>", "&amp;", ":", "return"]


def gen_snippet(rng, lang, budget=None):
  n = budget or rng.choice([0, 1, 2, 3, 4, 6])
  out = ""
  stack = []
  for _ in range(n):
    r = rng.random()
    if r < 0.18:
      b = rng.choice("([{" if lang != "python" else "(([")
      out += b
      stack.append(b)
    elif r < 0.32 and stack:
      out += codegen.PAIRS[stack.pop()]
    elif r < 0.4:
      out += rng.choice([" ", "\n", "\n  ", "  "])
    elif r < 0.44:
      out += rng.choice(")]}")
    else:
      w = rng.choice(WORDS)
      if out and out[-1].isalnum() and w[0].isalnum():
        out += " "
      out += w
  while stack and rng.random() < 0.8:
    out += codegen.PAIRS[stack.pop()]
  if rng.random() < 0.4:
    out += rng.choice(["\n", ";\n", ";", "\n\n"])
  return out


def mutate(rng, lang, text):
  for _ in range(rng.choice([1, 1, 2])):
    r = rng.random()
    i = rng.randint(0, len(text))
    j = min(len(text), i + rng.choice([0, 1, 2, 4]))
    if r < 0.35:
      text = text[:i] + text[j:]
    elif r < 0.7:
      text = text[:i] + rng.choice(WORDS + [" ", "\n"]) + text[j:]
    elif r < 0.85:
      text = text[:i]
    elif r < 0.93:
      text = text + gen_snippet(rng, lang, rng.choice([1, 2]))
    else:
      text = respace(rng, text)
  return text


def respace(rng, text):
  """The same tokens, laid out differently."""
  r = rng.random()
  if r < 0.4 and "\n" in text[:-1]:
    at = rng.choice([i for i, c in enumerate(text[:-1]) if c == "\n"]) + 1
    end = at
    while end < len(text) and text[end] == " ":
      end += 1
    return text[:at] + " " * rng.choice([0, 2, 4]) + text[end:]
  if r < 0.7 and " " in text:
    at = rng.choice([i for i, c in enumerate(text) if c == " "])
    return text[:at] + rng.choice([" ", "\n", "\n  "]) + text[at:]
  return rng.choice([" ", "\n", "  "]) + text


def rename(rng, text):
  """The same shape and length, with other names and numbers."""
  letters, digits = "abcxyfobr", "0123456789"
  table = {c: rng.choice(letters) for c in set(text)
           if c.isascii() and c.islower()}
  table.update({c: rng.choice(digits) for c in set(text) if c in digits})
  return "".join(table.get(c, c) for c in text)


def regroup(rng, text):
  """The same tokens, nested differently."""
  spots = [i for i in range(len(text) - 1)
           if (text[i] in "()[]{}") != (text[i + 1] in "()[]{}")]
  if not spots:
    return rng.choice(["(", "["]) + text
  i = rng.choice(spots)
  return text[:i] + text[i + 1] + text[i] + text[i + 2:]


def relative(rng, lang, context, samples):
  """A request that resembles another one: a shortcut may confuse the two."""
  samples = list(samples)
  i = rng.randrange(len(samples))
  r = rng.random()
  if r < 0.25:
    context = rename(rng, context)
  elif r < 0.4:
    samples = [rename(rng, t) for t in samples]
  elif r < 0.5:
    samples[i] = rename(rng, samples[i])
  elif r < 0.6:
    samples[i] = respace(rng, samples[i])
  elif r < 0.7:
    samples = samples[1:] + samples[:1]
  elif r < 0.75:
    samples[i] = mutate(rng, lang, samples[i])
  elif r < 0.85:
    samples[i] = regroup(rng, samples[i])
  elif r < 0.9:
    context = rng.choice(["", "x\n", context + " ", context[:-1]])
  else:
    # The cursor has moved on.
    k = rng.randint(0, len(samples[i]))
    context += samples[i][:k]
    samples = [t[k:] for t in samples]
  return context, samples


def gen_fault(rng, p=0.15, top=12):
  if rng.random() >= p:
    return None
  kind = rng.choice(["interrupt", "nomem", "stack"])
  if rng.random() < 0.5:
    return [kind, -rng.choice([rng.randint(1, 100), rng.randint(1, 800)])]
  return [kind, int(2 ** rng.uniform(0, top))]


def gen_clock(rng):
  """Time that passes at each clock read: idle, slow, or a stall."""
  r = rng.random()
  if r < 0.5:
    return [0.01]
  if r < 0.8:
    return [rng.choice([1.0, 3.0, 6.0, 20.0])]
  return [0.0] * rng.randint(0, 4) + [rng.choice([12.0, 1e6])] + [0.001]


LANGS = ["python", "python", "python", "cpp", "java", "javascript",
         "raw_simple_tokens"]


# ------------------------------------------------------------------ requests


def params_of(spec):
  return edits.Params.derived(
      spec["precision"], spec["start"], spec["sensitivity"]
  )


@contextlib.contextmanager
def small_tables(entries):
  """Large scratch tables are allocated with `entries` entries instead.

  The wrappers preallocate one 128 MB scratch hash table each. The simulator
  gives them a small one: cheaper to clear, and full of collisions.
  """
  real = np.full

  def full(shape, *args, **kwargs):
    size = shape if isinstance(shape, int) else int(np.prod(shape))
    if size >= 1 << 20:
      shape = (entries,)
    return real(shape, *args, **kwargs)
  np.full = full
  try:
    yield
  finally:
    np.full = real


def make_wrapper(spec):
  with small_tables(spec["table"]):
    return _make_wrapper(spec)


def _make_wrapper(spec):
  if spec["kind"] == "calls":
    return call_sequence_wrapper.ApiCallSequenceWrapper(
        effective_precision=spec["precision"], use_numba=spec["numba"],
        rewrite_states=spec["rewrite"],
    )
  if spec["kind"] == "regions":
    return uncertainty_regions_wrapper.UncertaintyRegionsWrapper(
        effective_precision=spec["precision"],
        high_confidence_start_inserting_cost=spec["start"],
        low_confidence_edit_sensitivity=spec["sensitivity"],
        use_numba=spec["numba"],
    )
  return prefix_truncation_wrapper.PrefixByEditDistanceWrapper(
      start_editing_cost=spec["start"],
      also_insert_uncertainty_regions=spec["kind"] == "both",
      uncertainty_region_effective_precision=spec["precision"],
      low_confidence_edit_sensitivity=spec["sensitivity"],
      use_numba=spec["numba"],
  )


def make_runner(spec):
  return demo_runner.DemoRunner(make_wrapper(spec), language=spec["lang"])


def real_assignments(a):
  return {
      region_decisions.DecisionKey(i, CATEGORY[k]): VALUE[v]
      for (i, k), v in a.items()
  }


def model_assignments(a):
  out = {}
  for k, v in a.items():
    out[(int(k.prototype_preorder_index), KIND[k.category])] = LETTER[v]
  return out


def expected_prototype(tree, cursor, kind):
  if kind in ("regions", "both"):
    tree = trees.regions(tree, True, trees.FILTERS["pseudo"])
  if kind in ("prefix", "both"):
    tree = trees.exits(tree, True, True)
  return trees.cut(tree, cursor)


def spans(source):
  """[(class names of the enclosing spans, text)] of an HTML fragment."""
  out = []
  stack = []
  state = {"style": False}

  class Parser(html.parser.HTMLParser):

    def handle_starttag(self, tag, attrs):
      if tag == "style":
        state["style"] = True
      elif tag == "span":
        stack.append(dict(attrs).get("class") or "")
      elif tag == "br":
        out.append((("<br>",), ""))

    def handle_endtag(self, tag):
      if tag == "style":
        state["style"] = False
      elif tag == "span":
        if not stack:
          out.append((("<unbalanced>",), ""))
        else:
          stack.pop()

    def handle_data(self, data):
      if not state["style"]:
        out.append((tuple(" ".join(stack).split()), data))

  p = Parser(convert_charrefs=True)
  p.feed(source)
  p.close()
  if stack:
    out.append((("<unbalanced>",), ""))
  return out


def check_markup(ctx, parts, what):
  ctx.check(
      not any("<unbalanced>" in c for c, _ in parts), "bad-markup",
      lambda: f"{what}: unbalanced tags",
  )


def check_suggestion(ctx, what, nodes, a, info, rendered, context, groups):
  """The shown suggestion is the prototype's own text, marked as decided."""
  shown = edits.shown(nodes, a)
  want = [(t, r) for t, r, _ in shown]
  got = [tuple(x) for x in info["extracted_parts"]]
  ctx.check(
      [x for x in got if x[0]] == [x for x in want if x[0]]
      and sum(1 for x in got if x[1] and not x[0])
      >= sum(1 for _, _, e in shown if e),
      "suggestion-text",
      lambda: f"{what}: parts {got}, expected {want}",
  )
  if groups is not None:
    merged = []
    for t, r in got:
      if merged and merged[-1][1] == r:
        merged[-1][0] += t
      else:
        merged.append([t, r])
    ctx.check(
        [list(g) for g in groups] == merged, "suggestion-text",
        lambda: f"{what}: grouped parts {groups}, expected {merged}",
    )
  parts = spans(rendered)
  check_markup(ctx, parts, what)
  body = [(c, t) for c, t in parts if c != ("<br>",)]
  text = "".join(t for _, t in body)
  expected = context + "".join("︙" if e else t for t, _, e in shown)
  ctx.check(
      text == expected, "suggestion-html",
      lambda: f"{what}: page shows {text!r}, expected {expected!r}",
  )
  marked = "".join(t for c, t in body if "in_region" in c)
  expected = "".join("︙" if e else t for t, r, e in shown if r)
  ctx.check(
      marked == expected, "suggestion-html",
      lambda: f"{what}: page marks {marked!r}, expected {expected!r}",
  )


def check_edits_page(ctx, what, nodes, a, rendered, context, n_targets):
  parts = spans(rendered)
  check_markup(ctx, parts, what)
  shown = "".join(t for t, _, _ in edits.shown(nodes, a))
  # One block per target: title <br> context, edits <br>
  blocks = []
  current = []
  for c, t in parts:
    if c == ("<br>",):
      blocks.append(current)
      current = []
    else:
      current.append((c, t))
  blocks.append(current)
  bodies = blocks[1::2]
  ctx.check(
      len(bodies) == n_targets, "edits-page",
      lambda: f"{what}: {len(bodies)} comparisons for {n_targets} targets",
  )
  for body in bodies:
    text = "".join(
        t for c, t in body if "insert" not in c and "start_editing" not in c
    )
    ctx.check(
        text == context + shown, "edits-page",
        lambda: f"{what}: page keeps {text!r}, expected {context + shown!r}",  # pylint: disable=cell-var-from-loop
    )


def token_chars(nodes):
  return sum(
      len(n["x"]) if n["k"] == "T" else token_chars(n["c"]) for n in nodes
  )


def shown_token_chars(nodes, a):
  state = {"exited": False, "n": 0}

  def go(seq):
    for n in seq:
      if state["exited"]:
        return
      if n["k"] == "T":
        state["n"] += len(n["x"])
      elif n["k"] == "X" and a[(n["i"], "exit")] == "T":
        state["exited"] = True
      go(n["c"])
  go(nodes)
  return state["n"], state["exited"]


def shown_low(nodes, a):
  """(token characters in regions, regions) of the part that is shown."""
  state = {"exited": False, "n": 0, "regions": 0}

  def go(seq):
    for n in seq:
      if state["exited"]:
        return
      if n["k"] == "T" and a[(n["i"], "in")] == "T":
        state["n"] += len(n["x"])
      elif n["k"] == "S" and a[(n["i"], "start")] == "T":
        state["regions"] += 1
      elif n["k"] == "X" and a[(n["i"], "exit")] == "T":
        state["exited"] = True
      go(n["c"])
  go(nodes)
  return state["n"], state["regions"]


def check_metrics(ctx, what, nodes, target, a, info, par):
  want = edits.cost(nodes, target, a, par)
  common.check_close(
      ctx, info["total_cost"], want, "utility", f"{what}: cost against target"
  )
  total = sum(v for k, v in info.items() if k.endswith("_CONFIDENCE_cost")
              or k.endswith("_APPLICABLE_cost"))
  common.check_close(
      ctx, total, want, "metrics", f"{what}: the cost breakdown adds up to"
  )

  def chars(action):
    return sum(
        v for k, v in info.items()
        if k.startswith(action + "_") and k.endswith("_chars")
    )
  kept, deleted, inserted = chars("KEEP"), chars("DELETE"), chars("INSERT")
  shown, exited = shown_token_chars(nodes, a)
  ctx.check(
      kept + deleted == shown, "metrics",
      lambda: f"{what}: kept {kept} + deleted {deleted} of {shown} characters",
  )
  goal = token_chars(target)
  ctx.check(
      kept + inserted <= goal if exited else kept + inserted == goal, "metrics",
      lambda: f"{what}: kept {kept} + inserted {inserted} of {goal} characters",
  )


  # Per confidence, and how many regions and stops.
  low, regions = shown_low(nodes, a)
  got = sum(
      v for k, v in info.items()
      if k in ("KEEP_LOW_CONFIDENCE_chars", "DELETE_LOW_CONFIDENCE_chars")
  )
  ctx.check(
      got == low, "metrics",
      lambda: f"{what}: {got} uncertain characters, shown are {low}",
  )

  def edges(action):
    return sum(
        v for k, v in info.items()
        if k.startswith(action + "_") and k.endswith("_edges")
    )
  ctx.check(
      edges("START_LOW_CONFIDENCE") == regions
      and edges("EARLY_EXIT") == int(exited), "metrics",
      lambda: (
          f"{what}: {edges('START_LOW_CONFIDENCE')} regions and"
          f" {edges('EARLY_EXIT')} stops, shown are {regions} and {int(exited)}"
      ),
  )


class EditModel:
  """What regions and prefix suggestions should be."""

  def __init__(self, spec, context=""):
    self.kind = spec["kind"]
    self.par = params_of(spec)
    self.context = context

  def prototype(self, tree, cursor):
    return expected_prototype(tree, cursor, self.kind)

  def target(self, tree, cursor):
    return trees.cut(tree, cursor)

  def cost(self, nodes, target, a):
    return edits.cost(nodes, target, a, self.par)

  def check_edits(self, ctx, what, nodes, a, page, targets):
    check_edits_page(ctx, what, nodes, a, page, self.context, len(targets))

  def check_metrics(self, ctx, what, nodes, target, a, info):
    check_metrics(ctx, what, nodes, target, a, info, self.par)


class CallModel:
  """What API call suggestions should be."""

  kind = "calls"
  context = ""  # call suggestions are shown without their context

  def __init__(self, spec, context=""):
    del context
    self.precision = spec["precision"]
    self.util = calls.utilities(self.precision)

  def prototype(self, tree, cursor):
    return calls.call_tree(
        tree, cursor, python_builtin_tokens.PYTHON_BUILTIN_TOKENS
    )

  def target(self, tree, cursor):
    return trees.strip(self.prototype(tree, cursor))

  def cost(self, nodes, target, a):
    return calls.cost(nodes, target, a, self.util)

  def check_edits(self, ctx, what, nodes, a, page, targets):
    parts = spans(page)
    check_markup(ctx, parts, what)
    lines, text = [], ""
    for c, t in parts:
      if c == ("<br>",):
        lines.append(text)
        text = ""
      else:
        text += t
    lines.append(text)
    chosen = calls.selected(nodes, a)
    texts = [
        " ".join(i[2] for i in part if i[0] == "tok") for part in chosen
        if any(i[0] == "tok" for i in part)
    ]
    # Per target: a title, one line per part, an empty line.
    per = 2 + len(texts)
    ctx.check(
        len(lines) == per * len(targets) + 1, "edits-page",
        lambda: f"{what}: page has lines {lines}, parts {texts}",
    )
    for k, target in enumerate(targets):
      got = lines[k * per + 1:k * per + 1 + len(texts)]
      found = [g.startswith("MATCHED: ") for g in got]
      want = [("MATCHED: " if f else "WRONG: ") + t
              for f, t in zip(found, texts)]
      ctx.check(
          got == want, "edits-page",
          lambda: f"{what}: target {k}: lines {got}, expected {want}",  # pylint: disable=cell-var-from-loop
      )
      it = iter(found)
      status = [next(it) if any(i[0] == "tok" for i in part) else None
                for part in chosen]
      claimed = calls.cost(nodes, target, a, self.util, status)
      best = self.cost(nodes, target, a)
      ctx.check(
          common.close(claimed, best), "edits-page",
          lambda: f"{what}: target {k}: {got} costs {claimed}, not {best}",  # pylint: disable=cell-var-from-loop
      )

  def check_metrics(self, ctx, what, nodes, target, a, info):
    want = self.cost(nodes, target, a)
    common.check_close(
        ctx, info["total_cost"], want, "utility", f"{what}: cost against target"
    )
    tokens = [i for part in calls.selected(nodes, a) for i in part
              if i[0] == "tok"]
    worth = empty = 0.0
    for name, kind, value in (("novel", "NOVEL", 10.0),
                              ("not_novel", "EXPECTED", 1.0),
                              ("args", "ARGS", 1.0)):
      n = sum(1 for i in tokens if i[1] == kind)
      good, bad = info["correct_" + name], info["deleted_" + name]
      ctx.check(
          good + bad == n and good >= 0 and bad >= 0, "metrics",
          lambda: f"{what}: {good} correct and {bad} wrong of {n} {kind}",  # pylint: disable=cell-var-from-loop
      )
      worth += value * (bad * self.precision - good * (1 - self.precision))
    empty = sum(1 for i in tokens if i[1] == "EMPTY_ARGS")
    options = [worth - g * (1 - self.precision) + (empty - g) * self.precision
               for g in range(empty + 1)]
    ctx.check(
        any(common.close(o, want) for o in options), "metrics",
        lambda: f"{what}: correct and wrong tokens are worth one of {options},"
        f" the cost is {want}",
    )


def model_of(spec, context):
  return (CallModel if spec["kind"] == "calls" else EditModel)(spec, context)


def corrupt(rng, nodes, a):
  """A template that breaks the rules (or None)."""
  for _ in range(8):
    bad = dict(a)
    for _ in range(rng.choice([1, 1, 2])):
      key = rng.choice(sorted(bad))
      bad[key] = rng.choice([v for v in "FTN" if v != bad[key]])
    if edits.problems(nodes, bad):
      return bad
  return None


def price(system, a):
  """What the whole system charges for one fixed template."""
  clone = solver.clone_system(system)
  solver.constrain_system(clone, real_assignments(a))
  res = solver.solve_system_with_sweeps(
      system_data=clone.data, soft_timeout=10.0
  )
  return float(res.objective_at_step[-1])


def gen_templates(rng, nodes, n):
  out = []
  points = edits.exit_points(nodes)
  for _ in range(n):
    exit_at = rng.choice(points) if points and rng.random() < 0.7 else None
    out.append(
        edits.gen_template(
            rng, nodes, rng.choice([0.0, 0.1, 0.3, 0.8]),
            rng.choice([0.1, 0.5, 0.9]), exit_at,
        )
    )
  return out


def job_request(runner, job, spec):
  """Everything a caller asks for one prompt. Pure of the harness's state."""
  wrapper = runner.wrapper
  out = {}
  samples = job["samples"]
  result = runner.combine(
      job["context"], samples, prototype_index=job["index"]
  )
  out["result"] = result
  out["parsed"] = [
      trees.from_nodes(
          runner.parser_helper.parse_to_nodes(job["context"] + s), sn
      )
      for s in samples
  ]
  if result.assignment_map is None:
    return out
  proto, cinfo = result.packed_prototype, result.context_info
  out["html"] = wrapper.render_solution_html(
      prototype=proto, context_info=cinfo, assignments=result.assignment_map
  )
  out["edits_html"] = wrapper.render_pairwise_matching_html(
      prototype=proto, targets=result.packed_targets, context_info=cinfo,
      system=result.sample_system, assignments=result.assignment_map,
  )
  out["groups"] = runner.get_extracted_parts(result)
  # The caller's own templates, derived from the case's seed.
  tree = trees.from_nodes(packed.unpack(proto), sn)
  nodes = edits.annotate(tree)
  rng = random.Random(job["seed"])
  templates = [model_assignments(result.assignment_map)]
  templates += gen_templates(rng, nodes, job["templates"])
  out["templates"] = []
  for a in templates[1:]:
    real = real_assignments(a)
    info = wrapper.solution_info(
        prototype=proto, evaluation_target=None, context_info=cinfo,
        system=None, assignments=real, sample_system=result.sample_system,
    )
    page = wrapper.render_solution_html(
        prototype=proto, context_info=cinfo, assignments=real
    )
    out["templates"].append((a, info, page))
  if job["price"] and templates[1:]:
    a = templates[-1]
    out["price"] = (a, price(result.sample_system, a))
    bad = corrupt(rng, nodes, a)
    if bad is not None:
      out["bad_price"] = (bad, price(result.sample_system, bad))
  if job["weights"] is not None:
    weights = [job["weights"][i % len(job["weights"])]
               for i in range(len(samples))]
    system = wrapper.build_system(
        prototype=proto, context_info=cinfo, targets=result.packed_targets,
        target_utility_scale_factors=weights,
    )
    res = solver.solve_system_with_sweeps(
        system_data=system.data, soft_timeout=10.0
    )
    vec, total = solver.greedy_extract(
        system.data, direction=solver.SweepDirection.FORWARD
    )
    out["weighted"] = (
        weights, float(res.objective_at_step[-1]), float(total),
        solver.assignments_from_assignment_vector(system, vec),
    )
  if job["evaluate"] is not None:
    k = job["evaluate"] % len(samples)
    target = result.packed_targets[k]
    single = wrapper.build_system(
        prototype=proto, context_info=cinfo, targets=[target]
    )
    out["evaluated"] = []
    for a in templates[:2]:
      out["evaluated"].append((a, k, wrapper.solution_info(
          prototype=proto, evaluation_target=target, context_info=cinfo,
          system=single, assignments=real_assignments(a),
          sample_system=result.sample_system,
      )))
  return out


def check_job(ctx, spec, job, out):
  model = model_of(spec, job["context"])
  result = out["result"]
  what = f"{job['context']!r} + {job['samples']!r}"
  cursor = len(job["context"])
  kind = spec["kind"]
  tree = trees.from_nodes(packed.unpack(result.packed_prototype), sn)
  want = model.prototype(out["parsed"][job["index"]], cursor)
  ctx.check(
      tree == want, "prototype",
      lambda: f"{what}: prototype {tree}, expected {want}",
  )
  targets = []
  ctx.check(
      len(result.packed_targets) == len(job["samples"]), "targets",
      lambda: f"{what}: {len(result.packed_targets)} targets",
  )
  for i, t in enumerate(result.packed_targets):
    got = trees.from_nodes(packed.unpack(t), sn)
    ref = model.target(out["parsed"][i], cursor)
    ctx.check(
        got == ref, "targets",
        lambda: f"{what}: target {i} is {got}, expected {ref}",  # pylint: disable=cell-var-from-loop
    )
    targets.append(edits.annotate(ref))
  nodes = edits.annotate(want)
  names = edits.variables(nodes)
  if result.assignment_map is None and not trees.text(want):
    # An empty prototype: there is nothing to suggest, and the result says so.
    ctx.check(
        math.isnan(result.solution_utility), "empty-result",
        lambda: f"{what}: no suggestion, utility {result.solution_utility}",
    )
    ctx.mark("empty")
    return
  ctx.check(
      result.assignment_map is not None, "empty-result",
      lambda: f"{what}: no suggestion",
  )
  a = model_assignments(result.assignment_map)
  bad = edits.problems(nodes, a)
  ctx.check(
      not bad, "malformed-suggestion",
      lambda: f"{what}: {bad[:3]} in {a} for {want}",
  )
  costs = [model.cost(nodes, t, a) for t in targets]
  info = result.solution_info
  check_costs(ctx, what, info, costs)
  mean = sum(costs) / len(costs)
  common.check_close(
      ctx, -result.solution_utility, mean, "utility",
      f"{what}: expected cost of the suggestion",
  )
  bound = result.utility_dual_bound
  slack = 1e-6 * (1 + abs(mean))
  ctx.check(
      result.solution_utility <= bound + slack, "bound",
      lambda: f"{what}: utility {result.solution_utility} above bound {bound}",
  )
  check_suggestion(
      ctx, what, nodes, a, info, out["html"], model.context, out["groups"]
  )
  model.check_edits(ctx, what, nodes, a, out["edits_html"], targets)
  for t, tinfo, page in out["templates"]:
    tcosts = [model.cost(nodes, g, t) for g in targets]
    check_costs(ctx, what + " (own template)", tinfo, tcosts)
    m = sum(tcosts) / len(tcosts)
    ctx.check(
        -m <= bound + 1e-6 * (1 + abs(m)), "bound",
        lambda: f"{what}: template {t} has utility {-m} above bound {bound}",  # pylint: disable=cell-var-from-loop
    )
    check_suggestion(
        ctx, what + " (own template)", nodes, t, tinfo, page, model.context,
        None,
    )
  if "price" in out:
    t, got = out["price"]
    m = sum(model.cost(nodes, g, t) for g in targets) / len(targets)
    common.check_close(ctx, got, m, "utility", f"{what}: price of {t}")
  if "bad_price" in out:
    t, got = out["bad_price"]
    ctx.probes["malformed template offered"] += 1
    ctx.check(
        math.isinf(got) and got > 0, "malformed-accepted",
        lambda: f"{what}: malformed template {t} costs {got}:"
        f" {edits.problems(nodes, t)[:2]}",
    )
  if "weighted" in out:
    weights, dual, total, assignment = out["weighted"]
    wa = model_assignments(assignment)
    bad = edits.problems(nodes, wa)
    ctx.check(
        not bad, "malformed-suggestion", lambda: f"{what}: weighted {bad[:3]}"
    )
    wcosts = [model.cost(nodes, g, wa) for g in targets]
    wsum = sum(w * c for w, c in zip(weights, wcosts))
    common.check_close(
        ctx, total, wsum, "utility", f"{what}: weights {weights}"
    )
    for t in [wa, a] + [t for t, _, _ in out["templates"]]:
      s = sum(
          w * model.cost(nodes, g, t) for w, g in zip(weights, targets)
      )
      ctx.check(
          dual <= s + 1e-6 * (1 + abs(s)), "bound",
          lambda: f"{what}: weights {weights}: bound {dual}, template {s}",  # pylint: disable=cell-var-from-loop
      )
  for t, k, einfo in out.get("evaluated", []):
    model.check_metrics(ctx, what, nodes, targets[k], t, einfo)
    tcosts = [model.cost(nodes, g, t) for g in targets]
    check_costs(ctx, what, einfo, tcosts)
    rank = einfo["true_cost_rank_in_sample_system"]
    low = sum(1 for c in tcosts if c < tcosts[k] - 1e-9)
    high = sum(1 for c in tcosts if c < tcosts[k] + 1e-9)
    ctx.check(
        low <= rank <= high, "metrics",
        lambda: f"{what}: rank {rank}, expected {low}",  # pylint: disable=cell-var-from-loop
    )
  if result.opt_results.objective_at_sweep.shape[0] and not math.isclose(
      bound, result.solution_utility, abs_tol=1e-6
  ):
    ctx.probes["solved with a gap"] += 1
  ctx.probes["suggestion has a region" if "T" in [
      v for (_, k), v in a.items() if k == "start"
  ] else "suggestion without region"] += 1
  if any(k == "exit" for _, k in a):
    ctx.probes["exit taken" if "T" in [
        v for (_, k), v in a.items() if k == "exit"
    ] else "no exit taken"] += 1
  ctx.mark(kind, "".join(a[v] for v in names))
  ctx.log(what, sorted(a.items()), [round(c, 6) for c in costs])


def check_costs(ctx, what, info, costs):
  got = [float(c) for c in info["sample_system_costs_unsorted"]]
  ctx.check(
      len(got) == len(costs)
      and all(common.close(g, c) for g, c in zip(got, costs)),
      "utility",
      lambda: f"{what}: costs per target {got}, expected {costs}",
  )
  ctx.check(
      [float(c) for c in info["sample_system_costs"]] == sorted(got), "metrics",
      lambda: f"{what}: sorted costs {info['sample_system_costs']}",
  )
  common.check_close(
      ctx, info["sample_system_cost_average"], sum(got) / len(got), "metrics",
      f"{what}: average cost",
  )
  if len(got) > 1:
    m = sum(got) / len(got)
    var = sum((g - m) ** 2 for g in got) / (len(got) - 1)
    common.check_close(
        ctx, info["sample_system_cost_variance"], var, "metrics",
        f"{what}: cost variance",
    )


CALL_WORDS = ["foo", "self", "np", "x", "bar", "print", "len", "a1", "é"]
# Names that differ from another one only in case or underscores.
NEAR_WORDS = ["_foo", "foo_", "__len__", "Foo", "_x", "X", "fo", "nps", "prints"]


def gen_calls(rng, lang):
  """A statement or two, mostly with calls."""
  out = ""
  for _ in range(rng.choice([1, 1, 2])):
    r = rng.random()
    name = lambda: rng.choice(
        CALL_WORDS if rng.random() < 0.8 else NEAR_WORDS)
    expr = name()
    for _ in range(rng.choice([0, 0, 1, 2])):
      expr += rng.choice([".", ".", ".", " . ", " ", ".."]) + name()
    args = rng.choice(["", "", "x", "x, 1", "f(y)", "[z]", " ", "<a>&"])
    line = expr + "(" + args + ")"
    if r < 0.15:
      line = rng.choice(["def ", "class ", "define "]) + line + ":"
    elif r < 0.3:
      line = name() + " = " + line
    elif r < 0.4:
      line = line + rng.choice([".g()", "[0](y)", " + h(1)", "(2)"])
    elif r < 0.5:
      line = rng.choice(["if (x) ", "return ", "(", "[", "  "]) + line
    elif r < 0.6:
      line = expr
    out += line + rng.choice(["\n", "\n", ";\n", "", "\n  "])
  return out


def gen_call_code(rng, lang):
  context = rng.choice(
      ["", "x = 1\n", "foo.bar(1)\n", "import np\n", "def f(a):\n  ",
       "y = foo(", "# c\n", "self.", "a\nb\nfoo", "x\n\ny\n", "np . _x\n"]
  )
  base = gen_calls(rng, lang)
  if rng.random() < 0.06:
    # The cursor is inside a name that only some samples complete.
    word = rng.choice(["foo", "print", "bar"])
    cut = rng.randint(1, len(word) - 1)
    call = "." + rng.choice(CALL_WORDS) + "()\n"
    samples = [word[cut:] + call, "\n" + word + call, call]
    rng.shuffle(samples)
    return context + word[:cut], samples
  samples = []
  for _ in range(rng.choice([1, 2, 2, 3])):
    r = rng.random()
    samples.append(
        base if r < 0.3 else mutate(rng, lang, base) if r < 0.6
        else gen_calls(rng, lang) + base if r < 0.7
        else base + gen_calls(rng, lang) if r < 0.8 else gen_calls(rng, lang)
    )
  return context, samples


def gen_case(rng, kinds, tier):
  kind = rng.choice(kinds)
  threads = rng.choice([1] * (5 if kind == "calls" else 10) + [2, 2, 3])
  spec = {
      "kind": kind,
      "numba": rng.random() < 0.4,
      "table": rng.choice([64, 1024, 1 << 16]),
      "lang": rng.choice(LANGS),
      "precision": rng.choice([0.7, 0.7, 0.5, 0.9, 0.25]),
      "start": rng.choice(
          [5.0, 5.0, 1.0, 0.0, 2.5] if kind == "regions" else [0.0, 0.0, 2.0]
      ),
      "sensitivity": rng.choice([0.5, 0.5, 0.25, 0.875]),
  }
  if kind == "calls":
    spec["precision"] = rng.choice(
        [0.3, 0.3, 0.3, 0.5, 0.5, 0.125, 0.75, 0.75, 0.0, 1.0])
    spec["rewrite"] = rng.random() < 0.7
  jobs = []
  history = threads == 1 and kind != "calls" and rng.random() < 0.15
  for t in range(threads):
    for _ in range(
        1 if threads > 1 else rng.choice([4, 6]) if history
        else rng.choice([1, 1, 2, 2])):
      if jobs and (history or rng.random() < 0.5):
        context, samples = relative(
            rng, spec["lang"], jobs[-1]["context"], jobs[-1]["samples"]
        )
      elif kind == "calls" and rng.random() < 0.1:
        context, samples = corpus.window(
            rng, rng.choice([6, 12, 20] if threads == 1 else [4, 8])
        )
        samples = ["".join(t for t, _ in s) for s in samples]
      elif kind == "calls":
        context, samples = gen_call_code(rng, spec["lang"])
        if threads > 1:
          samples = samples[:2]
      elif rng.random() < 0.1:
        context, samples = corpus.window(
            rng, rng.choice([2, 4, 6] if threads == 1 else [1, 2])
        )
        samples = ["".join(t for t, _ in s) for s in samples]
      elif threads > 1 or history:
        context, _ = gen_small_code(rng, spec["lang"])
        base = gen_snippet(
            rng, spec["lang"], rng.choice([2, 3, 4] if history else [1, 2])
        )
        samples = [base, mutate(rng, spec["lang"], base)][:rng.choice([1, 2])]
      else:
        context, samples = gen_small_code(rng, spec["lang"])
      jobs.append({
          "thread": t,
          "context": context,
          "samples": samples,
          "index": rng.randrange(len(samples)),
          "seed": rng.randrange(1 << 30),
          "templates": 1 if threads > 1 or history else rng.choice([1, 2, 3]),
          "price": rng.random() < (0.4 if threads == 1 else 0.1),
          "weights": (
              [rng.choice([0.25, 0.5, 1.0, 2.0]) for _ in range(3)]
              if rng.random() < (0.2 if threads == 1 else 0.05) else None
          ),
          "evaluate": (
              rng.randrange(4)
              if rng.random() < (0.4 if threads == 1 else 0.1) else None
          ),
          "fault": gen_fault(rng),
      })
  return {
      "wrapper": spec,
      "threads": threads,
      "jobs": jobs,
      "clock": gen_clock(rng),
      "schedule": (
          common.gen_schedule(rng, threads) if threads > 1 else []
      ),
  }


def valid_case(case):
  if not case["jobs"] or case["threads"] < 1 or not case["clock"]:
    return False
  for j in case["jobs"]:
    if not j["samples"] or not 0 <= j["index"] < len(j["samples"]):
      return False
    if j["weights"] is not None and (
        not j["weights"] or min(j["weights"]) <= 0):
      return False
    if j["fault"] is not None and (
        len(j["fault"]) != 2
        or j["fault"][0] not in ("interrupt", "nomem", "stack")):
      return False
    if j["templates"] < 0:
      return False
  return True


def run_case(case, ctx):
  spec = case["wrapper"]
  clock = sched_sim.VirtualClock([float(x) for x in case["clock"]])
  runner = make_runner(spec)
  threads = [[] for _ in range(case["threads"])]
  for job in case["jobs"]:
    threads[job["thread"] % case["threads"]].append({
        "name": f"suggest({job['context']!r}, {job['samples']!r})",
        "op": "suggest",
        "fn": lambda job=job: job_request(runner, job, spec),
        "check": lambda out, job=job: check_job(ctx, spec, job, out),
        "fault": job["fault"],
    })
    if job["fault"]:
      ctx.nontrivial = True
  if case["threads"] > 1 or len(case["jobs"]) > 1:
    ctx.nontrivial = True
  with clock:
    sim = common.run_tasks(ctx, threads, case["schedule"])
  ctx.sim_time += clock.now
  if case["clock"][0] >= 1 or len(case["clock"]) > 1:
    ctx.faults["clock-slow-or-stalled"] += 1
    ctx.nontrivial = True
  ctx.log("trace", sim.trace[:50], len(sim.trace))
