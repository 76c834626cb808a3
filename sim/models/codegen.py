"""Seeded source-code generators whose token structure is known by construction.

A code sample is a list of tokens [kind, text]; kinds:
  id num op punc other   plain tokens
  lb rb                  brackets
  nl ws tab              white space
  str                    string literal
  com                    comment (ends its line / block)
  pre                    C preprocessor line
The generators never put two tokens next to each other that a lexer could read
as one, so the token list *is* the lexing.
"""

PAIRS = {"(": ")", "[": "]", "{": "}"}
CLOSERS = {v: k for k, v in PAIRS.items()}
CLIKE = ("cpp", "java", "javascript")
LANGS = ("python", "cpp", "java", "javascript", "simple")

IDS = ["a", "foo", "barBaz", "x1", "_t", "def", "return", "HTTPServer2", "if"]
NUMS = ["1", "42", "3.5", "7."]
PUNC = [",", ":", "=", ".", ">", "<"]
OPS = ["+", "-", "*"]
OTHER = ["@", "!", "é", "%", "&"]
STR_BODY = ["", "a", "x y", "(", "])", "{;", "Ab1", "  ", "a;b", "Foo bar(1)"]

WORD = ("id", "num")


def _string(rng, lang):
  body = rng.choice(STR_BODY)
  quote = '"'
  if lang != "python" and rng.random() < 0.25:
    return "'" + rng.choice(["(", "}", "a", "\\'", "\\\\", ";", '"']) + "'"
  if lang == "python":
    quote = rng.choice(['"', "'", '"""', "'''"])
    if len(quote) == 3 and rng.random() < 0.4:
      body += "\n(" if rng.random() < 0.5 else "\n  b"
    if not body and len(quote) == 3:
      body = "d"
  if rng.random() < 0.25:
    for _ in range(rng.choice([1, 2, 3])):
      body += rng.choice(["\\\\", "\\" + quote[0], "\\n", "(", "b"])
  return quote + body + quote


def _comment(rng, lang):
  body = rng.choice(["", " note", " (a", " b;", "}", " don]t"])
  if lang == "python":
    return "#" + body, True
  if rng.random() < 0.5:
    return "//" + body, True
  return "/*" + body + rng.choice(["", "\n x"]) + "*/", False


def push(tokens, kind, text):
  """Appends a token, separating it from its neighbour when they could merge."""
  if tokens:
    pk, pt = tokens[-1]
    sep = (
        (pk in WORD and kind in WORD)
        or (pk == "num" and text.startswith("."))
        or (pk == "str" or kind == "str") and (pk in WORD or pk == "str")
        or (pk == "op" and kind in ("op", "com"))
        or (pk == "other" and kind == "other")
    )
    if pk == "ws" and kind == "ws":
      return
    if pk == "com" and kind not in ("nl",) and not pt.endswith("*/"):
      tokens.append(["nl", "\n"])
    elif pk == "pre" and kind != "nl":
      tokens.append(["nl", "\n"])
    elif sep and kind not in ("ws", "nl", "tab"):
      tokens.append(["ws", " "])
  tokens.append([kind, text])


def gen_plain(rng, tokens, lang, depth_brackets, strings=True):
  """One random non-bracket token."""
  r = rng.random()
  if r < 0.38:
    push(tokens, "id", rng.choice(IDS))
  elif r < 0.48:
    push(tokens, "num", rng.choice(NUMS))
  elif r < 0.6:
    push(tokens, "punc", rng.choice(PUNC))
  elif r < 0.66:
    push(tokens, "op", rng.choice(OPS))
  elif r < 0.7:
    push(tokens, "other", rng.choice(OTHER))
  elif r < 0.76 and strings and lang != "simple":
    push(tokens, "str", _string(rng, lang))
  elif r < 0.8 and lang != "simple":
    text, line = _comment(rng, lang)
    push(tokens, "com", text)
    if line:
      push(tokens, "nl", "\n")
  elif r < 0.9:
    push(tokens, "ws", rng.choice([" ", "  "]))
  elif r < 0.93:
    push(tokens, "tab", "\t")
  else:
    push(tokens, "punc", ";")


def gen_soup(rng, lang, n):
  """Token soup with brackets that are mostly, not always, balanced."""
  tokens = []
  stack = []
  noise = rng.choice([0.0, 0.05, 0.3])
  strings = rng.random() < (0.9 if lang == "python" else 0.4)
  for _ in range(n):
    r = rng.random()
    if r < 0.14:
      b = rng.choice("([{")
      push(tokens, "lb", b)
      stack.append(b)
    elif r < 0.26 and stack and rng.random() >= noise:
      push(tokens, "rb", PAIRS[stack.pop()])
    elif r < 0.26 and noise:
      push(tokens, "rb", rng.choice(")]}"))
    elif r < 0.36:
      push(tokens, "nl", "\n")
      if rng.random() < 0.4:
        push(tokens, "ws", " " * rng.choice([1, 2, 4]))
    elif r < 0.38 and lang == "cpp" and (not tokens or tokens[-1][0] == "nl"):
      push(tokens, "pre", rng.choice(["#include <v>", "#define A 1", "#endif", "#define B \\\n 2"]))
      push(tokens, "nl", "\n")
    elif r < 0.5 and lang != "python":
      push(tokens, "punc", ";")
    else:
      gen_plain(rng, tokens, lang, stack, strings)
  if rng.random() < 0.4:
    while stack:
      push(tokens, "rb", PAIRS[stack.pop()])
  return tokens


def gen_python(rng, lines):
  """Indented Python-like lines; brackets may run over lines or stay open."""
  tokens = []
  unit = rng.choice([1, 2, 3, 4, 4, 8])
  level = rng.choice([0, 0, 0, 1, 2])
  ragged = rng.random() < 0.15
  for i in range(lines):
    r = rng.random()
    if r < 0.08:
      if rng.random() < 0.4:
        push(tokens, "ws", " " * rng.choice([1, 3, 4]))
      push(tokens, "nl", "\n")
      continue
    indent = level * unit
    if ragged and rng.random() < 0.3:
      indent = max(0, indent + rng.choice([-1, 1, 2]))
    if indent:
      push(tokens, "ws", " " * indent)
    n = rng.choice([1, 2, 3, 5])
    stack = []
    for _ in range(n):
      r = rng.random()
      if r < 0.15:
        b = rng.choice("([{")
        push(tokens, "lb", b)
        stack.append(b)
        if rng.random() < 0.3:
          push(tokens, "nl", "\n")
          push(tokens, "ws", " " * rng.choice([1, 2, 5, 8]))
      elif r < 0.2:
        push(tokens, "rb", rng.choice(")]}") if rng.random() < 0.2 or not stack
             else PAIRS[stack.pop()])
      elif r < 0.25:
        text, _ = _comment(rng, "python")
        push(tokens, "com", text)
        push(tokens, "nl", "\n")
        break
      else:
        kind = rng.choice(["id", "id", "num", "punc", "op", "str", "other"])
        pool = {"id": IDS, "num": NUMS, "punc": PUNC, "op": OPS, "other": OTHER}
        if kind == "str":
          push(tokens, "str", _string(rng, "python"))
        else:
          push(tokens, kind, rng.choice(pool[kind]))
    else:
      while stack and rng.random() < 0.93:
        push(tokens, "rb", PAIRS[stack.pop()])
      if i + 1 < lines or rng.random() < 0.5:
        push(tokens, "nl", "\n")
    step = rng.random()
    if step < 0.35:
      level += 1
    elif step < 0.4:
      level += 2
    elif step < 0.7:
      level = max(0, level - rng.choice([1, 1, 2, 3]))
    level = min(level, 5)
  return tokens


def gen_code(rng, lang, size=None):
  n = size or rng.choice([0, 1, 3, 8, 20, 40] * 6 + [120])
  if lang == "python" and rng.random() < 0.75:
    tokens = gen_python(rng, max(1, n // 4)) if n else []
  else:
    tokens = gen_soup(rng, lang, n)
  if tokens and rng.random() < 0.3:
    # The request was cut out of a larger file at token boundaries.
    a = rng.randrange(len(tokens))
    b = rng.randrange(a, len(tokens)) + 1
    tokens = tokens[a:b]
  return tokens


def relative(rng, lang, tokens):
  """Another completion of a prefix of `tokens` (returns tokens, prefix text)."""
  keep = tokens[:rng.randint(1, len(tokens))]
  out = []
  for kind, t in keep + gen_code(rng, lang, rng.choice([8, 20, 40])):
    push(out, kind, t)
  return out, text(keep)


def text(tokens):
  return "".join(t for _, t in tokens)


# --------------------------------------------------------------------------
# Well-formed programs, for the suggestion pipelines
# --------------------------------------------------------------------------

CALLS = ["load", "save", "np.sum", "os.path.join", "f.write", "Foo.bar", "print"]


def gen_expr(rng, depth=0):
  r = rng.random()
  if depth > 1 or r < 0.45:
    return rng.choice(["x", "y", "total", "1", "20", "'s'", '"ab c"', "self.n"])
  if r < 0.75:
    args = ", ".join(
        gen_expr(rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2]))
    )
    return f"{rng.choice(CALLS)}({args})"
  if r < 0.88:
    return f"{gen_expr(rng, depth + 1)} + {gen_expr(rng, depth + 1)}"
  return f"[{gen_expr(rng, depth + 1)}]"


def gen_statement(rng):
  r = rng.random()
  if r < 0.5:
    return f"{rng.choice(['x', 'y', 'total', 'self.n'])} = {gen_expr(rng)}"
  if r < 0.8:
    return gen_expr(rng)
  return f"return {gen_expr(rng)}"


def gen_block(rng, lang, lines, indent=0):
  out = []
  unit = "  "
  for _ in range(lines):
    s = gen_statement(rng)
    pad = unit * indent
    if lang == "python":
      out.append(f"{pad}{s}\n")
      if rng.random() < 0.2 and indent < 2:
        out[-1] = f"{pad}if {gen_expr(rng, 1)}:\n"
        out += gen_block(rng, lang, rng.choice([1, 2]), indent + 1)
    else:
      out.append(f"{pad}{s};\n")
      if rng.random() < 0.15 and indent < 2:
        out.append(f"{pad}if ({gen_expr(rng, 1)}) {{\n")
        out += gen_block(rng, lang, rng.choice([1, 2]), indent + 1)
        out.append(f"{pad}}}\n")
  return out


def mutate_lines(rng, lang, lines):
  """A second sample from 'the model': lines changed, dropped or added."""
  out = list(lines)
  for _ in range(rng.choice([0, 1, 1, 2])):
    if not out:
      break
    i = rng.randrange(len(out))
    r = rng.random()
    if r < 0.35:
      out[i:i + 1] = gen_block(rng, lang, 1)
    elif r < 0.6 and len(out) > 1:
      del out[i]
    elif r < 0.8:
      out[i:i] = gen_block(rng, lang, 1)
    else:
      words = out[i].split(" ")
      j = rng.randrange(len(words))
      words[j] = rng.choice(["x", "y", "zz", "load(1)", words[j]])
      out[i] = " ".join(words)
  return out
