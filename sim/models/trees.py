"""Reference model of node sequences: nested JSON lists, pure functions.

Nodes: ["D", text], ["T", type, text], ["G", type, children], ["S"], ["E"], ["X"]
(decoration, token, group, region start, region end, early exit).
"""

TYPES = ["A", "B", "MATCH", "MATCH_INNER", "MATCH_LEFT", "CONTENT_LEAF"]
TEXTS = ["", "a", "ab", "x", "\n", " ", "foo", "(", "é", "\t", "A" * 50]


def gen_tree(rng, budget, depth=0, control=True, dec=True):
  out = []
  n = rng.choice([0, 1, 1, 2, 3]) if depth else rng.randint(0, 5)
  for _ in range(n):
    if budget[0] <= 0:
      break
    budget[0] -= 1
    r = rng.random()
    if r < 0.36 and depth < 5:
      out.append(
          ["G", rng.choice(TYPES), gen_tree(rng, budget, depth + 1, control, dec)]
      )
    elif r < 0.75 or not (control or dec):
      out.append(["T", rng.choice(TYPES), rng.choice(TEXTS)])
    elif r < 0.88 and dec:
      out.append(["D", rng.choice(["", " ", "\n", "  ", "\t", "\r\n"])])
    elif control:
      out.append([rng.choice("SEX")])
  return out


def deepen(rng, tree):
  """The same tree at the bottom of a chain of groups."""
  for _ in range(rng.choice([4, 8, 15])):
    tree = [["G", rng.choice(TYPES), tree]]
    if rng.random() < 0.3:
      tree.append(["T", rng.choice(TYPES), rng.choice(TEXTS)])
  return tree


def to_nodes(tree, sn):
  def one(n):
    k = n[0]
    if k == "D":
      return sn.TextDecorationNode(n[1])
    if k == "T":
      return sn.TextTokenNode(n[2], _type(n[1]))
    if k == "G":
      return sn.GroupNode([one(c) for c in n[2]], _type(n[1]))
    return {
        "S": sn.RegionStartNode,
        "E": sn.RegionEndNode,
        "X": sn.EarlyExitNode,
    }[k]()
  return [one(n) for n in tree]


def _type(t):
  return tuple(_type(x) for x in t) if isinstance(t, list) else t


def from_nodes(nodes, sn):
  out = []
  for n in nodes:
    if isinstance(n, sn.TextDecorationNode):
      out.append(["D", n.text_contents])
    elif isinstance(n, sn.TextTokenNode):
      out.append(["T", _untype(n.match_type), n.text_contents])
    elif isinstance(n, sn.GroupNode):
      out.append(["G", _untype(n.match_type), from_nodes(n.children, sn)])
    elif isinstance(n, sn.RegionStartNode):
      out.append(["S"])
    elif isinstance(n, sn.RegionEndNode):
      out.append(["E"])
    elif isinstance(n, sn.EarlyExitNode):
      out.append(["X"])
    else:
      out.append(["?", repr(n)])
  return out


def _untype(t):
  return [_untype(x) for x in t] if isinstance(t, tuple) else t


def text(tree):
  out = ""
  for n in tree:
    if n[0] == "G":
      out += text(n[2])
    elif n[0] in "DT":
      out += n[-1]
  return out


def depth(tree):
  return 1 + max([depth(n[2]) for n in tree if n[0] == "G"], default=0)


def flatten(tree):
  out = []
  for n in tree:
    out += flatten(n[2]) if n[0] == "G" else [n]
  return out


def collapse(tree):
  """Chains of one-child groups become one node with the chain of types."""
  out = []
  for n in tree:
    chain = []
    while n[0] == "G" and len(n[2]) == 1 and n[2][0][0] in "GT":
      chain.append(n[1])
      n = n[2][0]
    if n[0] == "G":
      out.append(["G", chain + [n[1]], collapse(n[2])])
    elif n[0] == "T":
      out.append(["T", chain + [n[1]], n[2]])
    else:
      out.append(n)
  return out


def exits(tree, within, at_start):
  out = [["X"]] if at_start else []
  for n in tree:
    if n[0] == "G" and within:
      n = ["G", n[1], exits(n[2], True, False)]
    out.append(n)
    if n[0] in "GT":
      out.append(["X"])
  return out


FILTERS = {
    "all": lambda n: True,
    "none": lambda n: False,
    "tokens": lambda n: n[0] == "T",
    "type": lambda n: n[1] in ("A", "MATCH"),
    "pseudo": lambda n: (
        n[1] not in ("MATCH_LEFT", "MATCH_INNER", "MATCH_RIGHT")
        and not (n[0] == "T" and n[2] == "\n")
    ),
}


def regions(tree, empty, keep):
  out = []
  for n in tree:
    if n[0] not in "GT":
      out.append(n)
      continue
    inner = n if n[0] == "T" else ["G", n[1], regions(n[2], empty, keep)]
    if keep(n):
      out += [["S"]] + ([["E"]] if empty else []) + [inner, ["E"]]
    else:
      out.append(inner)
  return out + ([["S"], ["E"]] if empty else [])


def scoped(tree):
  out = []
  for n in tree:
    if n[0] in "GT":
      inner = n if n[0] == "T" else ["G", n[1], scoped(n[2])]
      out.append(["G", "region_scope", [["S"], inner, ["E"]]])
    else:
      out.append(n)
  return out


def cut(tree, offset):
  """Everything from character `offset` on."""
  # The leaf in (or right behind) which the cursor lies, in document order.
  leaves = [n for n in flatten(tree) if n[0] in "DT"]
  pos, start = 0, None
  for i, n in enumerate(leaves):
    if pos + len(n[-1]) >= offset:
      start, into = i, offset - pos
      break
    pos += len(n[-1])
  if start is None:
    return []
  state = [0]

  def go(ns):
    out = []
    for n in ns:
      if n[0] == "G":
        inner = go(n[2])
        if state[0] > start:
          out.append(["G", n[1], inner])
      elif n[0] in "DT":
        i = state[0]
        state[0] += 1
        if i > start:
          out.append(n)
        elif i == start and into < len(n[-1]):
          out.append(n[:-1] + [n[-1][into:]])
      elif state[0] > start:
        out.append(n)
    return out
  return go(tree)


def strip(tree):
  return [
      ["G", n[1], strip(n[2])] if n[0] == "G" else n
      for n in tree if n[0] in "GTD"
  ]


def preorder(tree, path=(), level=0):
  """[(path, level, node)]"""
  out = []
  for i, n in enumerate(tree):
    out.append((path + (i,), level, n))
    if n[0] == "G":
      out += preorder(n[2], path + (i,), level + 1)
  return out


def walk(tree, before, after, path=()):
  out = []
  for i, n in enumerate(tree):
    p = path + (i,)
    if n[0] == "G":
      if before:
        out.append((n, p, "GROUP_BEFORE_CHILDREN"))
      out += walk(n[2], before, after, p)
      if after:
        out.append((n, p, "GROUP_AFTER_CHILDREN"))
    else:
      out.append((n, p, "LEAF"))
  return out
