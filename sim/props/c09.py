"""C09: parsing keeps the text and finds exactly its bracket/block structure."""

import re

import env  # pylint: disable=unused-import

from models import codegen
from models import corpus
from models import refparse
from props import common
from props import suggest

from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.parsing.pseudo_parser import utilities
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.wrappers import parser_tools

LEVEL = common.LEVEL
COUNT = {"quick": 8000, "thorough": 300000}
WALL_LIMIT = 90
RULE = (
    "A case is 1-6 parse requests in mixed languages, issued by 1-3 caller"
    " threads under a seeded line-level schedule, some cancelled or failed at a"
    " seeded step and retried. Codes are token lists with known structure"
    " (nested, missing and stray brackets, strings and comments holding"
    " brackets, ragged indentation, cuts at token boundaries) or arbitrary"
    " characters. The oracle is a reference parser on the token list; for"
    " arbitrary characters, text conservation and shape. Non-trivial: brackets"
    " had to be repaired, a block was indented, or a request was cancelled."
)
MEASURE = "distinct (language, parse-tree shape) pairs"
REAL = [
    "wrappers/parser_tools",
    "parsing/pseudo_parser/stack_parser",
    "parsing/pseudo_parser/utilities",
    "parsing/sequence_from_pseudo_parse",
    "parsing/subtokenizer",
    "tree_structure/transforms (flatten_groups)",
]
STUB = [common.STUB_COMPILER, common.STUB_SCHED]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "no structural claim: inside Python {...}, for statement groups of C-like"
    " code holding string literals, and for Python code whose indentation unit"
    " is ambiguous",
]

ALPHABET = "ab1_ ()[]{};:\n\n\t'\"#/\\*é,.=  "
CHARS = ["\r", "\x0b", "\u2028", "ß", "İ", "١", "\x00", "𝔸"]


def gen_doc_module(rng):
  """Python functions with and without docstrings; returns (text, offsets)."""
  unit = rng.choice([2, 3, 4])
  out, offsets = "", []
  for i in range(rng.randint(1, 4)):
    quote = rng.choice(['"""', "'''"])
    out += f"def f{i}(a):\n"
    if rng.random() < 0.6:
      out += " " * unit + quote
      offsets.append(len(out))
      out += rng.choice(["doc.", "A (thing).", "x\n\n  more ]\n"]) + quote + "\n"
    for _ in range(rng.randint(1, 2)):
      out += " " * unit + rng.choice(
          ["return a\n", "x = [1,\n 2]\n", "s = 'doc'\n", "g(a)\n"]
      )
    if rng.random() < 0.4:
      out += "y = 1\n"
  return out, offsets


def gen(rng, tier, index):
  threads = rng.choice([1, 1, 1, 1, 1, 2, 3])
  jobs = []
  for _ in range(rng.choice([1, 2, 3, 6]) if threads == 1 else
                 rng.randint(threads, 6)):
    r = rng.random()
    job = {"thread": rng.randrange(threads), "fault": None}
    if r < 0.66:
      lang = rng.choice(codegen.LANGS + ("python", "python"))
      job.update(kind="parse", lang=lang, tokens=codegen.gen_code(rng, lang),
                 flatten=rng.random() < 0.25)
      if rng.random() < 0.3:
        job["cursors"] = [rng.random() for _ in range(2)]
    elif r < 0.85:
      n = rng.choice([0, 1, 4, 12, 40, 90])
      chars = ALPHABET + "".join(rng.sample(CHARS, 2)) if rng.random() < 0.4 else ALPHABET
      job.update(
          kind="chars",
          lang=rng.choice(codegen.LANGS + ("raw_simple_tokens",)),
          text="".join(rng.choice(chars) for _ in range(n)),
          flatten=rng.random() < 0.25,
          cursors=[rng.random() for _ in range(2)],
      )
    elif r < 0.88:
      text = corpus.text(rng, rng.choice([20, 60, 200]))
      if rng.random() < 0.3:
        text = suggest.mutate(rng, "python", text)
      job.update(
          kind="chars",
          lang=rng.choice(codegen.LANGS + ("python", "python")),
          text=text, flatten=rng.random() < 0.25,
          cursors=[rng.random() for _ in range(2)],
      )
    elif r < 0.94:
      n = rng.choice([1, 5, 20, 60])
      chars = "aBcD12 \t\n_-("
      text = ""
      while len(text) < n:
        text += rng.choice(chars) * rng.choice([1, 1, 2, 3, 21, 45])
      job.update(kind="chars", lang="raw_simple_tokens", text=text,
                 flatten=False, cursors=[])
    else:
      text, offsets = gen_doc_module(rng)
      job.update(kind="doc", text=text, offsets=offsets)
    if rng.random() < 0.2:
      job["fault"] = [
          rng.choice(["interrupt", "nomem", "stack"]),
          int(2 ** rng.uniform(0, 11)),
      ]
    jobs.append(job)
    if job.get("tokens") and rng.random() < 0.15:
      # Another completion of the same prefix, or the same text in another
      # language.
      if rng.random() < 0.5:
        again, _ = codegen.relative(rng, job["lang"], job["tokens"])
        jobs.append({**job, "thread": rng.randrange(threads), "fault": None,
                     "tokens": again})
      else:
        jobs.append({
            "kind": "chars", "thread": rng.randrange(threads), "fault": None,
            "lang": rng.choice(codegen.LANGS), "flatten": False, "cursors": [],
            "text": codegen.text(job["tokens"])})
  return {
      "threads": threads,
      "jobs": jobs,
      "schedule": common.gen_schedule(rng, threads) if threads > 1 else [],
  }


def valid(case):
  if case["threads"] < 1 or not case["jobs"]:
    return False
  for job in case["jobs"]:
    if job["kind"] == "parse":
      again = []
      for item in job["tokens"]:
        if len(item) != 2:
          return False
        codegen.push(again, item[0], item[1])
      if again != job["tokens"]:
        return False
    if job["kind"] == "doc":
      pos = job["offsets"]
      if any(job["text"][p - 3:p] not in ('"""', "'''") for p in pos):
        return False
  return True


def shrinks(case):
  jobs = case["jobs"]
  if case["schedule"]:
    yield {**case, "threads": 1, "schedule": []}
    n = len(case["schedule"])
    for size in (n // 2, 1):
      for i in range(0, n, max(1, size)):
        yield {**case, "schedule": case["schedule"][:i] + case["schedule"][i + max(1, size):]}
  for i in range(len(jobs)):
    yield {**case, "jobs": jobs[:i] + jobs[i + 1:]}
  for i, job in enumerate(jobs):
    def put(**kw):
      return {**case, "jobs": jobs[:i] + [{**job, **kw}] + jobs[i + 1:]}
    if job["fault"]:
      yield put(fault=None)
      yield put(fault=[job["fault"][0], job["fault"][1] // 2])
    if job.get("cursors"):
      yield put(cursors=[])
    if job.get("flatten"):
      yield put(flatten=False)
    if job["kind"] == "parse":
      ts = job["tokens"]
      size = len(ts)
      while size >= 1:
        for a in range(0, len(ts), size):
          yield put(tokens=ts[:a] + ts[a + size:])
        size //= 2
    elif job["kind"] == "chars":
      t = job["text"]
      size = len(t)
      while size >= 1:
        for a in range(0, len(t), size):
          yield put(text=t[:a] + t[a + size:])
        size //= 2


SUBTOKEN = re.compile(
    r"[A-Z]+(?![a-z])|[A-Z]?[a-z]+|[0-9]+| {1,20}|\t{1,20}|\s|[^A-Za-z0-9\s]+"
)


def check_subtokens(ctx, nodes, text):
  for n in nodes:
    ctx.check(
        isinstance(n, sn.TextTokenNode) and n.text_contents != "",
        "subtokens", lambda: f"bad subtoken {n} of {text!r}",
    )
  got = [n.text_contents for n in nodes]
  ctx.check("".join(got) == text, "text-changed",
            lambda: f"subtokens {got} of {text!r}")
  if text.isascii() and "\x00" not in text and not any(
      c in "\x1c\x1d\x1e\x1f" for c in text):
    want = SUBTOKEN.findall(text)
    ctx.check(got == want, "subtokens",
              lambda: f"subtokens of {text!r}: {got}, expected {want}")


def flat_leaves(nodes):
  for n in nodes:
    if isinstance(n, sn.GroupNode):
      yield from flat_leaves(n.children)
    else:
      yield n


def check_tree(ctx, nodes, text, lang):
  """Shape rules for any input."""
  leaves = list(flat_leaves(nodes))
  got = "".join(n.text_contents for n in leaves)
  ctx.check(got == text, "text-changed",
            lambda: f"{lang}: parsed {text!r}, rendered {got!r}")
  opens, closes = "([{", ")]}"

  def walk(ns, inside):
    for n in ns:
      if isinstance(n, sn.TextDecorationNode):
        ctx.check(n.text_contents.strip() == "", "decoration",
                  lambda: f"{lang}: {n.text_contents!r} of {text!r} ignored")
      elif isinstance(n, sn.GroupNode):
        if n.match_type == "STRING_LITERAL":
          check_subtokens(ctx, n.children,
                          "".join(c.text_contents for c in n.children))
          continue
        if n.match_type == "MATCH":
          ctx.check(len(n.children) == 3, "group-shape",
                    lambda: f"{lang}: bracket group {n} in {text!r}")
          left, mid, right = n.children
          names = [c.match_type for c in n.children]
          ctx.check(names == ["MATCH_LEFT", "MATCH_INNER", "MATCH_RIGHT"],
                    "group-shape", lambda: f"{lang}: bracket group {names}")
          a, b = left.text_contents, right.text_contents
          ctx.check(
              (a == "" or a in opens) and (b == "" or b in closes)
              and (a == "" or b == "" or codegen.PAIRS[a] == b),
              "bracket-pair", lambda: f"{lang}: {a!r} paired with {b!r}",
          )
        walk(n.children, n.match_type)
  walk(nodes, None)


def shape(tree):
  return [
      [n[0], shape(n[1])] if isinstance(n[1], list) else n[0] for n in tree
  ]


def run(case, ctx):
  threads = [[] for _ in range(case["threads"])]
  for job in case["jobs"]:
    kind = job["kind"]
    if kind == "doc":
      task = {
          "fn": lambda t=job["text"]: list(
              utilities.find_python_function_docstrings(t)
          ),
          "check": lambda got, job=job: ctx.check(
              sorted(got) == job["offsets"], "docstrings",
              lambda: f"{job['text']!r}: {got}, expected {job['offsets']}",
          ),
      }
    else:
      text = job["text"] if kind == "chars" else codegen.text(job["tokens"])
      task = {
          "fn": lambda job=job, text=text: request(job, text),
          "check": lambda got, job=job, text=text: check(ctx, job, text, got),
      }
    task["name"] = f"{kind} {job.get('lang', '')}"
    task["op"] = kind
    task["fault"] = job["fault"]
    if job["fault"]:
      ctx.nontrivial = True
    threads[job["thread"] % case["threads"]].append(task)
  sim = common.run_tasks(ctx, threads, case["schedule"])
  ctx.log("schedule", sim.trace[:50], len(sim.trace))


def request(job, text):
  lang = job["lang"]
  out = {}
  out["nodes"] = parser_tools.ParserHelper(lang).parse_to_nodes(text)
  if job.get("flatten"):
    out["flat"] = parser_tools.ParserHelper(lang, flatten=True).parse_to_nodes(
        text
    )
  if lang != "raw_simple_tokens":
    if job.get("cursors"):
      out["cuts"] = []
      for c in job["cursors"]:
        cursor = int(c * (len(text) + 1))
        out["cuts"].append((
            cursor,
            utilities.infer_truncation_with_fallbacks(text, cursor, lang),
        ))
    if lang != "python":
      out["fixes"] = stack_parser.PseudoParser.parse_and_maybe_preprocess(
          language=lang, code=text
      )[4]
    else:
      out["spi"] = utilities.infer_python_spaces_per_indent(text)
      out["fixes"] = stack_parser.PseudoParser.parse_and_maybe_preprocess(
          language=lang, code=text, spaces_per_indent=out["spi"]
      )[4]
  return out


def check(ctx, job, text, out):
  lang = job["lang"]
  nodes = out["nodes"]
  if lang == "raw_simple_tokens":
    check_subtokens(ctx, nodes, text)
    ctx.log("raw", len(nodes))
    return
  check_tree(ctx, nodes, text, lang)
  got = refparse.normal(nodes, sn)
  if "flat" in out:
    want = list(flat_leaves(nodes))
    ctx.check(out["flat"] == want, "flatten",
              lambda: f"{lang}: flat parse of {text!r} differs from the leaves")
  for cursor, cut in out.get("cuts", ()):
    ctx.check(
        isinstance(cut, int) and cursor <= cut <= len(text), "cut-point",
        lambda: f"{lang}: cut {cut} for cursor {cursor} in {text!r}",
    )
  ctx.mark(lang, shape(got))
  ctx.log(lang, got)
  if job["kind"] != "parse":
    return
  tokens = job["tokens"]
  if lang == "python":
    if not tokens:
      return
    want, clear, spi, fixes = refparse.parse_python(tokens)
    if not clear:
      ctx.probes["ambiguous-indent"] += 1
      return
    ctx.check(out["spi"] == spi, "indent-unit",
              lambda: f"{text!r}: unit {out['spi']}, expected {spi}")
    if "indent" in str(shape(want)) or spi > 1:
      ctx.nontrivial = True
  else:
    want, fixes = refparse.parse_brackets(tokens, lang)
  ctx.check(tuple(out["fixes"]) == fixes, "repairs",
            lambda: f"{lang}: {text!r} repaired {out['fixes']}, expected {fixes}")
  if fixes != (0, 0):
    ctx.nontrivial = True
    ctx.probes["repaired"] += 1
  a = refparse.comparable(got, tokens, lang)
  b = refparse.comparable(want, tokens, lang)
  ctx.check(
      a == b, "structure",
      lambda: f"{lang}: {text!r} parsed as {a}, expected {b}",
  )
