"""C15: model-token confidences carried over to another tokenisation."""

import html.parser
import math
import re

import env  # pylint: disable=unused-import

import core
import sched_sim
from models import corpus
from models import edits
from models import probs
from models import trees
from props import c14
from props import common
from props import suggest

from IPython import display
from r_u_sure.tree_structure import packed_sequence_nodes as packed
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import token_prob_align
from r_u_sure.wrappers import demo_runner

LEVEL = common.LEVEL
COUNT = {"quick": 30000, "thorough": 600000}
WALL_LIMIT = 60
RULE = (
    "A case is 1-3 caller threads that share lists of (model token, log"
    " probability) and carry them over to random trees, to parsed code, or to"
    " random consecutive spans, under a seeded line-level schedule, with"
    " cancelled and failed requests that are retried, and with texts that do not"
    " match. Every log probability is compared with the reference overlap rule."
    " Non-trivial: several requests, a fault, or a mismatch."
)
MEASURE = "distinct (model token lengths, span lengths) pairs"
REAL = ["tree_structure/token_prob_align", "tree_structure/transforms",
        "tree_structure/packed_sequence_nodes", "wrappers/demo_runner",
        "wrappers/parser_tools", "parsing/*"]
STUB = [common.STUB_COMPILER, common.STUB_SCHED, common.STUB_DISPLAY]
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROTECTED = ()


def cut_tree(rng, text):
  """A random tree whose text is exactly `text`."""
  def go(t, depth):
    out = []
    i = 0
    while i < len(t):
      j = min(len(t), i + rng.choice([1, 1, 2, 3, 5]))
      r = rng.random()
      if r < 0.25 and depth < 3:
        out.append(["G", rng.choice("AB"), go(t[i:j], depth + 1)])
      elif r < 0.8:
        out.append(["T", rng.choice("AB"), t[i:j]])
      else:
        out.append(["D", t[i:j]])
      i = j
      if rng.random() < 0.2:
        out.append(rng.choice([["T", "A", ""], ["D", ""], ["S"], ["E"], ["X"],
                               ["G", "A", []]]))
    return out
  out = go(text, 0)
  if rng.random() < 0.2:
    out.insert(0, ["T", "A", ""])
  return out


TEXTS = ["a", "b", "ab", "x ", "\n", "<b>", "&", "é", "𝔘", "\"", " "]


def gen(rng, tier, index):
  threads = rng.choice([1, 1, 1, 2, 3])
  shared = []
  for _ in range(rng.choice([1, 1, 2])):
    r = rng.random()
    if r < 0.1:
      context, samples = corpus.window(rng, rng.choice([5, 20, 60]))
      lang = rng.choice(["python", None])
      shared.append({"lang": lang, "context": context if lang else "",
                     "parts": samples[0]})
    elif r < 0.3:
      lang = rng.choice(suggest.LANGS)
      context, samples = suggest.gen_small_code(rng, lang)
      shared.append({"lang": lang, "context": context,
                     "parts": c14.gen_parts(rng, samples[0])})
    else:
      text = "".join(
          rng.choice(TEXTS) for _ in range(rng.choice([0, 1, 3, 6, 12]))
      )
      shared.append({"lang": None, "context": "",
                     "parts": c14.gen_parts(rng, text)})
  jobs = []
  for t in range(threads):
    for _ in range(rng.choice([1, 2, 3])):
      which = rng.randrange(len(shared))
      s = shared[which]
      text = "".join(p[0] for p in s["parts"])
      job = {"thread": t, "shared": which,
             "fault": suggest.gen_fault(rng, 0.2, 6)}
      r = rng.random()
      if s["lang"] is not None:
        job.update(op="code", realign=rng.random() < 0.7)
      elif r < 0.6:
        tree_text = text
        q = rng.random()
        if q < 0.15:
          tree_text = text[: rng.randint(0, len(text))]
        elif q < 0.25:
          tree_text = suggest.mutate(rng, "python", text)
        job.update(op="tree", tree=cut_tree(rng, tree_text),
                   all=rng.random() < 0.4)
      elif r < 0.9:
        job.update(op="spans", lengths=[
            rng.choice([0, 0, 1, 1, 2, 3, 7])
            for _ in range(rng.choice([1, 3, 6, 10]))
        ])
      else:
        job.update(op="page")
      jobs.append(job)
  return {
      "shared": shared,
      "threads": threads,
      "jobs": jobs,
      "schedule": common.gen_schedule(rng, threads) if threads > 1 else [],
  }


def valid(case):
  if not case["jobs"] or not case["shared"] or case["threads"] < 1:
    return False
  for s in case["shared"]:
    for p in s["parts"]:
      if len(p) != 2 or not isinstance(p[0], str) or p[1] > 0:
        return False
  for j in case["jobs"]:
    if j["shared"] >= len(case["shared"]):
      return False
    if j["op"] == "code" and case["shared"][j["shared"]]["lang"] is None:
      return False
    if j["op"] == "tree" and not _ok(j["tree"]):
      return False
    if j["fault"] is not None and (
        len(j["fault"]) != 2
        or j["fault"][0] not in ("interrupt", "nomem", "stack")):
      return False
  return True


def _ok(ns):
  for n in ns:
    if not isinstance(n, list) or not n:
      return False
    if n[0] == "G":
      if len(n) != 3 or n[1] not in "AB" or not _ok(n[2]):
        return False
    elif n[0] == "T":
      if len(n) != 3 or n[1] not in "AB" or not isinstance(n[2], str):
        return False
    elif n[0] == "D":
      if len(n) != 2 or not isinstance(n[1], str):
        return False
    elif n[0] not in ("S", "E", "X") or len(n) != 1:
      return False
  return True


def expect_error(fn):
  try:
    return fn()
  except ValueError as e:
    return e


def request(shared, runners, job):
  s = shared[job["shared"]]
  parts = s["parts"]
  if job["op"] == "spans":
    helper = token_prob_align.SpanProbHelper.build(parts)
    out = [helper.advance_by_length(n) for n in job["lengths"]]
    return out, expect_error(helper.assert_consumed)
  if job["op"] == "tree":
    tree = packed.pack(trees.to_nodes(job["tree"], sn))
    probs_ = expect_error(
        lambda: token_prob_align.align_token_log_probs(
            parts, tree, must_consume_all_model_tokens=job["all"]
        )
    )
    flat = None
    if isinstance(probs_, dict):
      flat = list(
          token_prob_align.flatten_token_log_probs_from_parsed(tree, probs_)
      )
    return probs_, flat
  if job["op"] == "page":
    return token_prob_align.render_tokens_and_log_probs_to_html(parts)
  runner = runners[job["shared"]]
  before = len(display.shown())
  runner.show_token_probs(s["context"], parts, job["realign"])
  page = display.shown()[before:]
  parsed = trees.from_nodes(
      runner.parser_helper.parse_to_nodes(
          s["context"] + "".join(t for t, _ in parts)
      ),
      sn,
  )
  return page, parsed


class _Page(html.parser.HTMLParser):
  """[(background, text)] of the innermost spans."""

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack, self.out, self.bad = [], [], False

  def handle_starttag(self, tag, attrs):
    if tag != "span":
      self.bad = True
    self.stack.append(dict(attrs).get("style") or "")
    self.out.append([self.stack[-1], ""])

  def handle_endtag(self, tag):
    if not self.stack:
      self.bad = True
      return
    self.stack.pop()
    self.out.append([self.stack[-1] if self.stack else "", ""])

  def handle_data(self, data):
    if not self.stack:
      self.bad = True
    self.out.append([self.stack[-1] if self.stack else "", data])


def colours(page):
  """[(probability shown, text)] of the coloured spans, plain text before."""
  p = _Page()
  p.feed(page)
  p.close()
  cells, plain = [], ""
  last = None
  for style, text in p.out:
    m = re.search(
        r"rgb\(([-+.\de]+)%, *([-+.\de]+)%, *([-+.\de]+)%\)", style
    )
    if m is None:
      plain += text
      last = None
    elif last == "open" and text:
      cells[-1][1] += text
    elif text == "":
      cells.append([[float(x) for x in m.groups()], ""])
      last = "open"
    else:
      cells.append([[float(x) for x in m.groups()], text])
  return cells, plain, p.bad or bool(p.stack)


def check_page(ctx, what, page, parts, context):
  cells, plain, bad = colours(page)
  ctx.check(not bad, "bad-markup", lambda: f"{what}: {page!r}")
  ctx.check(
      plain == context, "page",
      lambda: f"{what}: page shows context {plain!r}, expected {context!r}",
  )
  want = [(t.replace("\n", "↩\n"), math.exp(lp)) for t, lp in parts]
  got = [(t, c) for c, t in cells]
  ctx.check(
      [g[0] for g in got] == [w[0] for w in want], "page",
      lambda: f"{what}: page shows {got}, expected {want}",
  )
  for (t, c), (_, p) in zip(got, want):
    ctx.check(
        abs(c[0] - 100) < 1e-6 and abs(c[1] - 100 * p) < 1e-6
        and abs(c[2] - 100 * p) < 1e-6,
        "page",
        lambda: f"{what}: {t!r} has colour {c}, probability {p}",  # pylint: disable=cell-var-from-loop
    )


def expected_tree(parts, tree, all_):
  """(log probs or None if the texts do not match, flat list)."""
  nodes = edits.annotate(tree)
  leaves = [n for n in probs.preorder(nodes) if n["k"] in "TD"]
  spans = probs.align(parts, [len(n["x"]) for n in leaves])
  if any(n["x"] != t for n, (t, _) in zip(leaves, spans)):
    return None, None
  full = "".join(t for t, _ in parts)
  if all_ and len("".join(n["x"] for n in leaves)) < len(full):
    return None, None
  return (
      {n["i"]: lp for n, (_, lp) in zip(leaves, spans) if n["k"] == "T"},
      [(n["x"], lp if n["k"] == "T" else 0.0)
       for n, (_, lp) in zip(leaves, spans)],
  )


def check(ctx, case, job, out):
  s = case["shared"][job["shared"]]
  parts = s["parts"]
  what = f"{job['op']} of {parts!r}"
  if job["op"] == "spans":
    got, left = out
    want = probs.align(parts, job["lengths"])
    ctx.check(
        [tuple(g) for g in got] == want, "alignment",
        lambda: f"{what}: spans {job['lengths']} are {got}, expected {want}",
    )
    rest = len("".join(t for t, _ in parts)) > sum(len(t) for t, _ in want)
    ctx.check(
        isinstance(left, ValueError) == rest, "leftover",
        lambda: f"{what}: {'something' if rest else 'nothing'} is left over,"
        f" reported {left!r}",
    )
    ctx.mark([len(t) for t, _ in parts], job["lengths"])
  elif job["op"] == "tree":
    got, flat = out
    want, wflat = expected_tree(parts, job["tree"], job["all"])
    if want is None:
      ctx.probes["mismatch"] += 1
      ctx.nontrivial = True
      ctx.check(
          isinstance(got, ValueError), "mismatch-accepted",
          lambda: f"{what}: {job['tree']} does not match, got {got}",
      )
      return
    ctx.check(
        not isinstance(got, ValueError), "operation-failed",
        lambda: f"{what}: {job['tree']}: {got!r}",
    )
    ctx.check(
        {int(k): v for k, v in got.items()} == want
        and list(got) == sorted(got), "alignment",
        lambda: f"{what}: {job['tree']}: {got}, expected {want}",
    )
    ctx.check(
        [tuple(f) for f in flat] == wflat, "flattened",
        lambda: f"{what}: {job['tree']}: {flat}, expected {wflat}",
    )
    ctx.mark([len(t) for t, _ in parts], [len(t) for t, _ in wflat])
  elif job["op"] == "page":
    check_page(ctx, what, out, parts, "")
  else:
    page, parsed = out
    ctx.check(
        len(page) == 1, "page", lambda: f"{what}: displayed {page}"
    )
    shown = parts
    if job["realign"]:
      tree = trees.cut(parsed, len(s["context"]))
      _, shown = expected_tree(parts, tree, False)
      if shown is None:
        raise core.HarnessError(f"{what}: unexpected mismatch with {tree}")
    check_page(ctx, what, page[0].data, shown, s["context"])
  ctx.log(what, repr(out)[:300])


def run(case, ctx):
  shared = [
      {**s, "parts": [tuple(p) for p in s["parts"]]} for s in case["shared"]
  ]
  runners = [
      demo_runner.DemoRunner(None, language=s["lang"]) if s["lang"] else None
      for s in shared
  ]
  before = [list(s["parts"]) for s in shared]
  threads = [[] for _ in range(case["threads"])]
  for job in case["jobs"]:
    threads[job["thread"] % case["threads"]].append({
        "name": f"{job['op']}", "op": job["op"],
        "fn": lambda job=job: request(shared, runners, job),
        "check": lambda out, job=job: check(
            ctx, {"shared": shared}, job, out
        ),
        "fault": job["fault"],
    })
    if job["fault"]:
      ctx.nontrivial = True
  if len(case["jobs"]) > 1:
    ctx.nontrivial = True
  sim = common.run_tasks(ctx, threads, case["schedule"])
  ctx.check(
      [s["parts"] for s in shared] == before, "input-changed",
      lambda: f"the callers' lists became {[s['parts'] for s in shared]}",
  )
  ctx.log("trace", sim.trace[:50], len(sim.trace))
