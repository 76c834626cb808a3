"""C19: completions are cut off where their block or statement ends."""

import env  # pylint: disable=unused-import

from models import codegen
from models import corpus
from models import refparse
from props import c09
from props import common

from r_u_sure.parsing.pseudo_parser import utilities

LEVEL = common.LEVEL
COUNT = {"quick": 10000, "thorough": 300000}
WALL_LIMIT = 90
RULE = (
    "A case is 1-5 requests in mixed languages (where to cut off a completion"
    " for 1-6 cursors; the indentation unit; the docstrings of a module and where"
    " each ends), issued by 1-3 caller threads under a seeded line-level"
    " schedule, some cancelled or failed at a seeded step and retried. Codes are"
    " token lists with known structure, arbitrary characters, or real code. The"
    " oracle computes blocks and statements from the token list alone."
    " Non-trivial: a cursor inside a block, a docstring, or a cancelled request."
)
MEASURE = "distinct (language, depth, way of ending, cut distance) tuples"
REAL = ["parsing/pseudo_parser/utilities", "parsing/pseudo_parser/stack_parser"]
STUB = [common.STUB_SCHED]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "no exact claim: cursors behind which the next token has no text, blocks"
    " that nothing follows, statement ends inside Python {...}, and Python code"
    " whose indentation unit is ambiguous; there, only that the cut-off is at or"
    " behind the cursor",
]


def gen_module(rng):
  """Functions, methods and classes; returns (text, docstring offsets)."""
  unit = rng.choice([2, 3, 4])
  out, offsets = "", []
  for i in range(rng.randint(1, 4)):
    level = 0
    if rng.random() < 0.35:
      out += f"class C{i}:\n"
      if rng.random() < 0.3:
        out += " " * unit + '"""class doc"""\n'
      level = 1
    for j in range(rng.choice([1, 1, 2])):
      pad, body = " " * unit * level, " " * unit * (level + 1)
      quote = rng.choice(['"""', "'''"])
      out += pad + f"def f{j}(" + rng.choice(["", "a", "a,\n   b"]) + "):\n"
      r = rng.random()
      if r < 0.6:
        out += body + quote
        offsets.append(len(out))
        out += rng.choice(
            ["doc.", "A (thing).", f"x\n\n{body}more ]\n{body}", "it's", "a:\n b"]
        ) + quote + "\n"
      elif r < 0.7:
        out += body + "s = " + quote + "no doc" + quote + "\n"
      for _ in range(rng.randint(1, 2)):
        out += body + rng.choice(
            ["return a\n", "x = [1,\n 2]\n", "s = 'doc'\n", "g(a)\n",
             f"if a:\n{body}{' ' * unit}b\n"]
        )
    if rng.random() < 0.4:
      out += "y = 1\n"
    if rng.random() < 0.2:
      out += '"""not a docstring"""\n'
  return out, offsets


def gen(rng, tier, index):
  threads = rng.choice([1, 1, 1, 1, 2, 3])
  jobs = []
  for _ in range(rng.choice([1, 1, 2, 3]) if threads == 1 else
                 rng.randint(threads, 4)):
    job = {"thread": rng.randrange(threads), "fault": None}
    r = rng.random()
    if r < 0.75:
      lang = rng.choice(codegen.LANGS + ("python", "python"))
      job.update(kind="tokens", lang=lang,
                 tokens=codegen.gen_code(rng, lang, rng.choice(
                     [None, None, 20, 30, 60])),
                 cursors=[rng.random() for _ in range(rng.choice([1, 3, 6]))])
    elif r < 0.85:
      chars = c09.ALPHABET
      text = ("".join(rng.choice(chars) for _ in range(rng.choice([1, 9, 40])))
              if rng.random() < 0.6 else corpus.text(rng, rng.choice([20, 60])))
      job.update(kind="chars", lang=rng.choice(codegen.LANGS), text=text,
                 cursors=[rng.random() for _ in range(2)])
    else:
      text, offsets = gen_module(rng)
      job.update(kind="doc", text=text, offsets=offsets)
    if rng.random() < 0.2:
      job["fault"] = [
          rng.choice(["interrupt", "nomem", "stack"]),
          -rng.randint(1, 150) if rng.random() < 0.5
          else int(2 ** rng.uniform(0, 11)),
      ]
    jobs.append(job)
    if job.get("tokens") and rng.random() < 0.3:
      # Other completions of the same prefix, cut at the same cursor too.
      for _ in range(rng.choice([1, 2])):
        again, prefix = codegen.relative(rng, job["lang"], job["tokens"])
        jobs.append({
            **job, "thread": rng.randrange(threads), "fault": None,
            "tokens": again,
            "cursors": job["cursors"] + [
                (len(prefix) + 0.5) / (len(codegen.text(again)) + 1)],
        })
        job["cursors"] = job["cursors"] + [
            (len(prefix) + 0.5) / (len(codegen.text(job["tokens"])) + 1)]
  return {
      "threads": threads,
      "jobs": jobs,
      "schedule": common.gen_schedule(rng, threads) if threads > 1 else [],
  }


def valid(case):
  if case["threads"] < 1 or not case["jobs"]:
    return False
  for job in case["jobs"]:
    if job["kind"] == "tokens":
      again = []
      for item in job["tokens"]:
        if len(item) != 2:
          return False
        codegen.push(again, item[0], item[1])
      if again != job["tokens"]:
        return False
    if job["kind"] == "doc":
      if any(job["text"][p - 3:p] not in ('"""', "'''")
             for p in job["offsets"]):
        return False
    elif not all(0 <= c <= 1 for c in job["cursors"]):
      return False
    if job["fault"] is not None and len(job["fault"]) != 2:
      return False
  return True


def shrinks(case):
  for c in c09.shrinks({
      **case,
      "jobs": [{**j, "kind": "parse"} if j["kind"] == "tokens" else j
               for j in case["jobs"]],
  }):
    if any(j["kind"] != "doc" and not j["cursors"] for j in c["jobs"]):
      continue
    yield {**c, "jobs": [
        {**j, "kind": "tokens"} if j["kind"] == "parse" else j
        for j in c["jobs"]
    ]}
  for i, job in enumerate(case["jobs"]):
    if job["kind"] != "doc" and len(job["cursors"]) > 1:
      for k in range(len(job["cursors"])):
        yield {**case, "jobs": case["jobs"][:i] + [
            {**job, "cursors": [job["cursors"][k]]}
        ] + case["jobs"][i + 1:]}


def text_of(job):
  return codegen.text(job["tokens"]) if job["kind"] == "tokens" else job["text"]


def request(job):
  text = text_of(job)
  if job["kind"] == "doc":
    found = list(utilities.find_python_function_docstrings(text))
    return {
        "found": found,
        "ends": [utilities.infer_truncation_pydocstring(text, i)
                 for i in found],
        # The text stops inside the docstring.
        "open": [utilities.infer_truncation_pydocstring(text[:i + 2], i)
                 for i in found],
    }
  cuts = []
  for c in job["cursors"]:
    cursor = int(c * (len(text) + 1)) if c < 1 else len(text)
    cuts.append((
        cursor,
        utilities.infer_truncation_with_fallbacks(text, cursor, job["lang"]),
    ))
  return {"cuts": cuts}


def check(ctx, job, out):
  text = text_of(job)
  if job["kind"] == "doc":
    want = job["offsets"]
    ctx.check(
        sorted(out["found"]) == want, "docstrings",
        lambda: f"{text!r}: {out['found']}, expected {want}",
    )
    ends = [text.index(text[i - 3:i], i) + 3 for i in out["found"]]
    ctx.check(
        out["ends"] == ends and all(x is None for x in out["open"]),
        "docstring-end",
        lambda: f"{text!r}: ends {out['ends']} {out['open']}, expected {ends}",
    )
    ctx.mark("doc", want)
    ctx.nontrivial = True
    return
  lang = job["lang"]
  parts = clear = None
  if job["kind"] == "tokens" and job["tokens"]:
    parts, clear = refparse.leaves(job["tokens"], lang)
  for cursor, cut in out["cuts"]:
    ctx.check(
        isinstance(cut, int) and cursor <= cut <= len(text), "cut-point",
        lambda: f"{lang}: cut {cut} for cursor {cursor} in {text!r}",  # pylint: disable=cell-var-from-loop
    )
    ctx.check(
        cursor < len(text) or cut == len(text), "cut-point",
        lambda: f"{lang}: cut {cut} for the end of {text!r}",  # pylint: disable=cell-var-from-loop
    )
    ctx.log(lang, cursor, cut)
    if not clear:
      continue
    want = refparse.cut_range(parts, cursor, len(text))
    if want is None or (
        want[0] == want[1] and lang == "python"
        and ("{" in text or "}" in text)):
      ctx.probes["no exact claim"] += 1
      continue
    lo, hi = want
    ctx.probes["statement" if lo == hi else "block"] += 1
    if lo != hi:
      ctx.nontrivial = True
    ctx.mark(lang, lo == hi, cut - cursor)
    ctx.check(
        lo <= cut <= hi and (cut in (lo, hi)), "cut-point",
        lambda: f"{lang}: {text[:cursor]!r} | {text[cursor:]!r} is cut at"  # pylint: disable=cell-var-from-loop
        f" {text[:cut]!r}, expected {text[:lo]!r} or {text[:hi]!r}",  # pylint: disable=cell-var-from-loop
    )


def run(case, ctx):
  threads = [[] for _ in range(case["threads"])]
  for job in case["jobs"]:
    threads[job["thread"] % case["threads"]].append({
        "name": f"{job['kind']} {job.get('lang', '')}",
        "op": job["kind"],
        "fn": lambda job=job: request(job),
        "check": lambda out, job=job: check(ctx, job, out),
        "fault": job["fault"],
    })
    if job["fault"]:
      ctx.nontrivial = True
  sim = common.run_tasks(ctx, threads, case["schedule"])
  ctx.log("schedule", sim.trace[:50], len(sim.trace))
