"""Reference model of API-call suggestions: extraction and selection utility.

Trees are the list form of `trees`; annotated nodes are those of `edits`.
"""

import math
import re

from models import trees

INF = math.inf


def context_tokens(tree, cursor):
  """Texts of the tokens that start before (or reach up to) the cursor."""
  out = set()
  pos = 0
  for n in trees.flatten(tree):
    if n[0] == "T":
      out.add(n[2])
    if n[0] in "TD":
      pos += len(n[-1])
      if pos >= cursor:
        break
  return out


def is_call_group(n):
  return (
      n[0] == "G" and n[1] == "MATCH" and len(n[2]) == 3
      and n[2][0] == ["T", "MATCH_LEFT", "("]
  )


def extract(seq, known):
  """Call expressions of a sequence, each a list of nodes with markers."""
  first = next((i for i, n in enumerate(seq) if n[0] != "D"), len(seq))
  group = next((i for i, n in enumerate(seq) if n[0] == "G"), None)
  end = len(seq) if group is None else group + 1
  head, rest = seq[first:end], seq[end:]
  calls = []
  if (
      group is not None
      and len(head) >= 2
      and head[0] not in (["T", "CONTENT_LEAF", "def"],
                          ["T", "CONTENT_LEAF", "class"])
      and is_call_group(head[-1])
      and head[-2][0] == "T"
  ):
    out = [["S"]]
    for n in head[:-1]:
      if n == ["T", "CONTENT_LEAF", "."]:
        out += [["S"], ["T", "ATTRIBUTE_DOT", "."]]
      elif n[0] == "T":
        out.append(["T", "EXPECTED" if n[2] in known else "NOVEL", n[2]])
      elif n[0] == "D":
        out.append(n)
        if re.fullmatch(r"\s+", n[1]):
          out.append(["S"])
    args = trees.text([head[-1][2][1]])
    out += [
        ["T", "START_CALL", "("], ["E"],
        ["T", "ARGS" if args else "EMPTY_ARGS", args],
        ["T", "END_CALL", ")"], ["E"],
    ]
    calls.append(out)
  else:
    rest = head + rest
  for n in rest:
    if n[0] == "G":
      calls += extract(n[2], known)
  return calls


def call_tree(tree, cursor, builtins):
  start = max(trees.text(tree)[:cursor].rfind("\n"), 0)
  known = context_tokens(tree, cursor) | set(builtins)
  out = []
  for call in extract(trees.cut(tree, start), known):
    out += [["G", "API_CALL", call], ["D", "\n"]]
  return out


def utilities(precision):
  """type -> (utility when found, cost when not found)."""
  def of(t):
    u = {"ARGS": 1.0, "EMPTY_ARGS": 1.0, "EXPECTED": 1.0, "NOVEL": 10.0}.get(
        t, 0.0)
    return u * (1 - precision), u * precision
  return of


def items(nodes):
  out = []
  for n in nodes:
    if n["k"] == "T":
      out.append(("tok", _key(n["t"]), n["x"]))
    elif n["k"] == "G":
      t = _key(n["t"])
      out += [("open", t)] + items(n["c"]) + [("close", t)]
    elif n["k"] in "SE":
      out.append((n["k"], n["i"]))
  return out


def _key(t):
  return tuple(_key(x) for x in t) if isinstance(t, list) else t


def selected(nodes, a):
  """The selected parts, each a list of items."""
  parts = []
  current = None
  for it in items(nodes):
    if it[0] == "S":
      if a[(it[1], "start")] == "T":
        current = []
    elif it[0] == "E":
      if a[(it[1], "end")] == "T":
        parts.append(current)
        current = None
    elif current is not None:
      current.append(it)
  return parts


def cost(nodes, target, a, util, status=None):
  """Cheapest accounting of the selected parts against the target.

  status: per selected part True (found), False (not found) or None (either).
  """
  goal = items(target)
  best = [0.0] + [INF] * len(goal)
  for k, part in enumerate(selected(nodes, a)):
    found = sum(util(i[1])[0] for i in part if i[0] == "tok")
    lost = sum(util(i[1])[1] for i in part if i[0] == "tok")
    want = status[k] if status is not None else None
    new = [INF] * (len(goal) + 1)
    if want is not True:
      new = [b + lost for b in best]
    if want is not False:
      reach = INF
      for q in range(len(goal) + 1):
        reach = min(reach, best[q])
        if q + len(part) <= len(goal) and goal[q:q + len(part)] == part:
          new[q + len(part)] = min(new[q + len(part)], reach - found)
    best = new
  return min(best)
