"""Reference parser: what the tree of a token list has to look like.

Written from the documented behaviour, on token lists (no lexing). Trees are in
normal form: ["tok", kind, text] leaves, [GROUP, children] groups, empty
white-space leaves dropped.
"""

from models import codegen

PAIRS = codegen.PAIRS
CLOSERS = codegen.CLOSERS
INDENT = ["indent", ""]
DEDENT = ["dedent", ""]
UNSPLIT = {"python": ("(", "["), "simple": ("(", "[")}


class Item:
  """A token in the corrected stream: what it acts as, and its real text."""

  __slots__ = ("kind", "acts", "raw")

  def __init__(self, kind, acts, raw):
    self.kind, self.acts, self.raw = kind, acts, raw


def correct(tokens, newline_after_suffix):
  """Zero-width openers in front and closers behind, so that brackets nest."""
  stack, prefix = [], []
  for kind, t in tokens:
    if kind == "lb":
      stack.append(t)
    elif kind == "rb":
      if not stack:
        prefix.insert(0, CLOSERS[t])
      elif PAIRS[stack[-1]] == t:
        stack.pop()
  items = [Item("lb", b, "") for b in prefix]
  items += [Item(k, t, t) for k, t in tokens]
  suffix = [Item("rb", PAIRS[b], "") for b in reversed(stack)]
  if suffix and newline_after_suffix:
    suffix.append(Item("nl", "\n", ""))
  return items + suffix, len(prefix), len(suffix)


def nest(items):
  """List of items -> list of Item / ("pair", left, inner list, right)."""
  out, stack = [], []
  level = out
  for item in items:
    opens = item.kind in ("lb", "indent")
    closes = item.kind in ("rb", "dedent")
    if opens:
      inner = []
      node = ["pair", item, inner, None]
      level.append(node)
      stack.append((node, level))
      level = inner
    elif closes and stack:
      node, outer = stack[-1]
      left = node[1]
      fits = (
          item.kind == "dedent"
          if left.kind == "indent"
          else item.kind == "rb" and PAIRS[left.acts] == item.acts
      )
      if fits:
        node[3] = item
        level = outer
        stack.pop()
      else:
        level.append(item)
    else:
      level.append(item)
  assert not stack
  return out


def is_pair(n):
  return isinstance(n, list) and n and n[0] == "pair"


def size(n):
  return sum(size(c) for c in n[2]) + 2 if is_pair(n) else 1


def leaf(item):
  if item.kind == "str":
    return ["str", item.raw]
  if item.raw == "":
    return None
  if item.raw.isspace():
    return ["ws", item.raw]
  return ["tok", "CONTENT_LEAF", item.raw]


def split_level(children, splits, unsplit, count=None):
  """Children of one level -> list of normalised nodes, split into groups."""
  groups = [[]]
  for c in children:
    groups[-1].append(c)
    if not is_pair(c) and splits(c):
      groups.append([])
  total = sum(size(c) for c in children)
  if len(groups) == 1 or (count is not None and total == 1):
    return None
  return [g for g in groups if g]


def build(children, splits, unsplit, top=True, frozen=False):
  """Normal form of one level."""
  groups = None
  if not frozen:
    groups = split_level(children, splits, unsplit, None if top else 0)
  def one(c):
    if not is_pair(c):
      return leaf(c)
    _, left, inner, right = c
    froze = frozen or (left.kind == "lb" and left.acts in unsplit)
    body = build(inner, splits, unsplit, top=False, frozen=froze)
    if inner:
      mid = ["MATCH_INNER", body]
    else:
      mid = ["tok", "MATCH_INNER", ""]
    return [
        "MATCH",
        [
            ["tok", "MATCH_LEFT", left.raw],
            mid,
            ["tok", "MATCH_RIGHT", right.raw],
        ],
    ]
  def many(cs):
    return [x for x in map(one, cs) if x is not None]
  if groups is None:
    return many(children)
  # Python: an indented block hangs under the statement right before it.
  out = []
  for g in groups:
    node = ["SPLIT_GROUP", many(g)]
    first = g[0]
    if (
        out
        and any(is_pair(c) and c[1].kind == "indent" for c in g)
    ):
      block = node
      head = out[-1]
      if head[0] == "SPLIT_GROUP":
        out[-1] = ["SPLIT_GROUP", [["SPLIT_GROUP", head[1]], block]]
        continue
    out.append(node)
  return out


def parse_brackets(tokens, lang):
  items, n_pre, n_post = correct(tokens, False)
  kinds = ("com", "pre") if lang in codegen.CLIKE else ()
  # C-like: string literals also end a group in the current lexer; callers that
  # use strings compare with the statement groups removed.
  def splits(item):
    return item.acts == ";" or item.kind in kinds
  body = build(nest(items), splits, UNSPLIT.get(lang, ()))
  return [root(items, body)], (n_pre, n_post)


def root(items, body):
  return ["ROOT", body] if items else ["tok", "ROOT", ""]


def python_lines(tokens):
  """[(items of a top-level line, indent or None)], after correction."""
  toks = list(tokens)
  appended = not toks or not toks[-1][1].endswith("\n")
  items, n_pre, n_post = correct(
      toks + ([["nl", "\n"]] if appended else []), True
  )
  if appended:
    items[-n_post - 1].raw = ""
  lines, current, depth = [], [], []
  for item in items:
    current.append(item)
    if item.kind == "lb":
      depth.append(item.acts)
    elif item.kind == "rb" and depth and PAIRS[depth[-1]] == item.acts:
      depth.pop()
    if item.kind == "nl" and not depth:
      lines.append(current)
      current = []
  assert not current, [c.raw for c in current]
  out = []
  for line in lines:
    content = "".join(i.acts for i in line)
    if content.isspace():
      out.append((line, None))
    else:
      out.append((line, len(content) - len(content.lstrip())))
  return out, (n_pre, n_post)


def spaces_per_indent(lines):
  """(rule on every indent, rule on growing indents): they can disagree."""
  every = [n for _, n in lines if n]
  growing = []
  last = 0
  for line, n in lines:
    if n is None:
      continue
    if n > last and line[0].kind == "ws":
      growing.append(len(line[0].raw))
    last = n
  def best(ns):
    return max([c for c in (1, 2, 3, 4) if all(n % c == 0 for n in ns)]) if ns else 1
  return best(every), best(growing)


def parse_python(tokens):
  """Returns (tree, whether the indentation unit is unambiguous)."""
  lines, counts = python_lines(tokens)
  a, b = spaces_per_indent(lines)
  items, level = [], 0
  for line, n in lines:
    if n is not None:
      want = n // b
      if want > level:
        items += [Item("indent", "", "") for _ in range(want - level)]
      elif want < level:
        nl = items.pop()
        items += [Item("dedent", "", "") for _ in range(level - want)]
        items.append(nl)
      level = want
    items += line
  if level:
    nl = items.pop()
    items += [Item("dedent", "", "") for _ in range(level)]
    items.append(nl)
  body = build(nest(items), lambda i: i.kind == "nl", UNSPLIT["python"])
  return [root(items, body)], a == b, a, counts


def parse(tokens, lang):
  if lang == "python":
    if not tokens:
      return None
    return parse_python(tokens)[0]
  return parse_brackets(tokens, lang)[0]


# --------------------------------------------------------------------------
# Normal form of what the repository returns
# --------------------------------------------------------------------------


def normal(nodes, sn):
  out = []
  for n in nodes:
    if isinstance(n, sn.GroupNode):
      if n.match_type == "STRING_LITERAL":
        out.append(["str", "".join(c.text_contents for c in n.children)])
      else:
        out.append([n.match_type, normal(n.children, sn)])
    elif isinstance(n, sn.TextTokenNode):
      out.append(["tok", n.match_type, n.text_contents])
    elif isinstance(n, sn.TextDecorationNode):
      if n.text_contents:
        out.append(["ws", n.text_contents])
    else:
      out.append(["other", type(n).__name__])
  return out


def without(tree, name):
  """The same tree with the groups called `name` dissolved."""
  out = []
  for n in tree:
    if n[0] == name and isinstance(n[1], list):
      out += without(n[1], name)
    elif isinstance(n[1], list):
      out.append([n[0], without(n[1], name)])
    else:
      out.append(n)
  return out


def soften_braces(tree):
  """Dissolves statement groups inside {...}: no claim there for Python."""
  out = []
  for n in tree:
    if n[0] == "MATCH" and n[1][0][2] == "{" or (
        n[0] == "MATCH" and n[1][-1][2] == "}"
    ):
      out.append([n[0], without(n[1], "SPLIT_GROUP")])
    elif isinstance(n[1], list):
      out.append([n[0], soften_braces(n[1])])
    else:
      out.append(n)
  return out


def atomic_strings(tree):
  """String literals as plain tokens (C-like: no claim on their node type)."""
  out = []
  for n in tree:
    if n[0] == "str":
      out.append(["tok", "CONTENT_LEAF", n[1]])
    elif isinstance(n[1], list):
      out.append([n[0], atomic_strings(n[1])])
    else:
      out.append(n)
  return out


def comparable(tree, tokens, lang):
  """Forgets exactly what the property makes no claim about."""
  if lang == "python":
    return soften_braces(tree)
  if lang in codegen.CLIKE and any(k == "str" for k, _ in tokens):
    return without(atomic_strings(tree), "SPLIT_GROUP")
  return tree


# --------------------------------------------------------------------------
# Where a completion is cut off
# --------------------------------------------------------------------------


def python_items(tokens):
  """Corrected Python tokens with indents and dedents, whether unambiguous."""
  lines, _ = python_lines(tokens)
  a, b = spaces_per_indent(lines)
  items, level = [], 0
  for line, n in lines:
    if n is not None:
      change = n // b - level
      if change > 0:
        items += [Item("indent", "", "") for _ in range(change)]
      elif change < 0:
        nl = items.pop()
        items += [Item("dedent", "", "") for _ in range(-change)]
        items.append(nl)
      level += change
    items += line
  if level:
    nl = items.pop()
    items += [Item("dedent", "", "") for _ in range(level)]
    items.append(nl)
  return items, a == b


def leaves(tokens, lang):
  """[(raw text, number of blocks around it, ends a statement)], clear."""
  if lang == "python":
    items, clear = python_items(tokens)
  else:
    items, clear = correct(tokens, False)[0], True
  unsplit = UNSPLIT.get(lang, ())
  ender = "\n" if lang == "python" else ";"
  out = []

  def walk(level, depth, frozen, top):
    alone = not top and sum(size(c) for c in level) == 1
    for c in level:
      if not is_pair(c):
        out.append((c.raw, depth, c.raw == ender and not frozen and not alone))
        continue
      _, left, inner, right = c
      if lang == "python":
        block = left.kind == "indent"
      else:
        block = left.raw == "{" or right.raw == "}"
      out.append((left.raw, depth, False))
      if inner:
        walk(inner, depth + block,
             frozen or (left.kind == "lb" and left.acts in unsplit), False)
      else:
        out.append(("", depth + block, False))
      out.append((right.raw, depth, False))
  walk(nest(items), 0, False, True)
  return out, clear


def cut_range(parts, cursor, end):
  """Allowed cut-offs [lo, hi] for a cursor, or None where nothing is claimed."""
  starts, at = [], 0
  for raw, _, _ in parts:
    starts.append(at)
    at += len(raw)
  first = next((i for i, s in enumerate(starts) if s > cursor), None)
  if first is None or not parts[first][0]:
    return None
  depth = parts[first][1]
  if depth == 0:
    for i in range(first, len(parts)):
      if parts[i][2]:
        stop = starts[i] + len(parts[i][0])
        return stop, stop
    return end, end
  for i in range(first, len(parts)):
    if parts[i][1] == depth - 1:
      if i + 1 == len(parts):
        return None
      return (starts[i] + len(parts[i][0]),
              starts[i + 1] + len(parts[i + 1][0]))
  return None
