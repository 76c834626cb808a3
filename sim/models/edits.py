"""Reference model of annotated suggestions and their edit-distance utility.

A template is the suggestion prototype (a node tree with region and exit markers,
`trees` list form) plus one value per marker and node:
  {(preorder index, "start"|"end"|"in"|"exit"): "F"|"T"|"N"}
written from the documented meaning: regions are contiguous runs of siblings,
everything inside a region is in it, and nothing after the taken exit is shown.
"""

import math

INF = math.inf


def annotate(tree, counter=None):
  """Nodes with their preorder index: dicts i, k, t(ype), x (text), c(hildren)."""
  counter = counter if counter is not None else [0]
  out = []
  for n in tree:
    d = {"i": counter[0], "k": n[0], "t": None, "x": "", "c": []}
    counter[0] += 1
    if n[0] == "G":
      d["t"], d["c"] = n[1], annotate(n[2], counter)
    elif n[0] == "T":
      d["t"], d["x"] = n[1], n[2]
    elif n[0] == "D":
      d["x"] = n[1]
    out.append(d)
  return out


def last_index(n):
  return last_index(n["c"][-1]) if n["c"] else n["i"]


def variables(nodes):
  out = []
  for n in nodes:
    if n["k"] in "TG":
      out.append((n["i"], "in"))
    elif n["k"] == "S":
      out.append((n["i"], "start"))
    elif n["k"] == "E":
      out.append((n["i"], "end"))
    elif n["k"] == "X":
      out.append((n["i"], "exit"))
    out += variables(n["c"])
  return out


def leaves(nodes):
  out = []
  for n in nodes:
    if n["k"] in "TD":
      out.append(n)
    out += leaves(n["c"])
  return out


def exit_points(nodes):
  return [i for i, kind in variables(nodes) if kind == "exit"]


def problems(nodes, a):
  """Why `a` is not a well-formed template (empty list: it is)."""
  want = set(variables(nodes))
  bad = [f"no value for {v}" for v in sorted(want - set(a))]
  bad += [f"unexpected {v}" for v in sorted(set(a) - want)]
  if bad:
    return bad
  state = {"exited": False}

  def expect(n, kind, allowed):
    v = a[(n["i"], kind)]
    if v not in allowed:
      bad.append(f"{kind}@{n['i']}={v}, allowed {allowed}")
    return v

  def go(seq, forced):
    region = False
    for n in seq:
      inside = forced or region
      if state["exited"]:
        for kind in {"T": ["in"], "G": ["in"], "S": ["start"], "E": ["end"],
                     "X": ["exit"]}.get(n["k"], []):
          expect(n, kind, "N")
        go(n["c"], False)
      elif n["k"] == "S":
        if expect(n, "start", "N" if inside else "FT") == "T":
          region = True
      elif n["k"] == "E":
        allowed = "F" if forced else ("FT" if region else "N")
        if expect(n, "end", allowed) == "T":
          region = False
      elif n["k"] == "X":
        if expect(n, "exit", "FT") == "T":
          state["exited"] = True
      elif n["k"] in "TG":
        expect(n, "in", "T" if inside else "F")
        go(n["c"], inside)
    if region and not state["exited"]:
      bad.append("a region is still open at the end of its sequence")
  go(nodes, False)
  return bad


def gen_template(rng, nodes, p_start=0.2, p_end=0.5, exit_at=None):
  """A random well-formed template (exit_at: preorder index of the exit taken)."""
  a = {}
  state = {"exited": False}

  def na(n):
    for kind in {"T": ["in"], "G": ["in"], "S": ["start"], "E": ["end"],
                 "X": ["exit"]}.get(n["k"], []):
      a[(n["i"], kind)] = "N"
    for c in n["c"]:
      na(c)

  def go(seq, forced):
    region = False
    for pos, n in enumerate(seq):
      if state["exited"]:
        na(n)
        continue
      rest = seq[pos + 1:]
      leaves_by_exit = (
          exit_at is not None and rest
          and n["i"] < exit_at <= last_index(rest[-1])
      )
      if n["k"] == "S":
        if forced or region:
          a[(n["i"], "start")] = "N"
        else:
          can = leaves_by_exit or any(m["k"] == "E" for m in rest)
          region = bool(can and rng.random() < p_start)
          a[(n["i"], "start")] = "T" if region else "F"
      elif n["k"] == "E":
        if forced:
          a[(n["i"], "end")] = "F"
        elif region:
          must = not leaves_by_exit and not any(m["k"] == "E" for m in rest)
          stop = must or rng.random() < p_end
          a[(n["i"], "end")] = "T" if stop else "F"
          region = not stop
        else:
          a[(n["i"], "end")] = "N"
      elif n["k"] == "X":
        taken = n["i"] == exit_at
        a[(n["i"], "exit")] = "T" if taken else "F"
        state["exited"] = taken
      elif n["k"] in "TG":
        a[(n["i"], "in")] = "T" if forced or region else "F"
        go(n["c"], forced or region)
  go(nodes, False)
  return a


def shown(nodes, a):
  """[(text, in region)] of every text shown, up to the exit; and empty regions
  as ("", True, "empty")."""
  out = []
  state = {"exited": False, "in": False, "empty": False}

  def go(seq):
    for n in seq:
      if state["exited"]:
        return
      if n["k"] in "TD":
        out.append((n["x"], state["in"], ""))
        state["empty"] = False
      elif n["k"] == "S" and a[(n["i"], "start")] == "T":
        state["in"] = state["empty"] = True
      elif n["k"] == "E" and a[(n["i"], "end")] == "T":
        if state["empty"]:
          out.append(("", True, "empty"))
        state["in"] = state["empty"] = False
      elif n["k"] == "X" and a[(n["i"], "exit")] == "T":
        state["exited"] = True
      elif n["k"] == "G":
        go(n["c"])
  go(nodes)
  return out


class Params:
  """match/delete utilities per character (high, low), insert, region, start."""

  def __init__(self, match, delete, insert, region, start):
    self.match, self.delete = match, delete
    self.insert, self.region, self.start = insert, region, start

  @classmethod
  def derived(cls, precision, start_cost, sensitivity):
    p, c, s = precision, start_cost, sensitivity
    low_delete = 1 - 2 * p * (1 - s)
    return cls(
        (1.0, 2 * s - low_delete), (1.0, low_delete), 0.0,
        (1 - p) * (1 - s) * c, (c, s * c),
    )


def cost(nodes, target, a, par):
  """Cheapest way to turn the template into the target."""
  memo = {}
  inserts = {}

  def insert_cost(seq):
    total = 0.0
    for t in seq:
      if t["k"] == "T":
        total += par.insert * len(t["x"])
      total += insert_cost(t["c"])
    return total

  def low_before(seq, low):
    out = [low]
    for n in seq:
      if n["k"] == "S" and a[(n["i"], "start")] == "T":
        low = 1
      elif n["k"] == "E" and a[(n["i"], "end")] == "T":
        low = 0
      out.append(low)
    return out

  def delete(seq, low):
    """(cost to delete all of it, cost to reach the exit inside it)."""
    total = 0.0
    for n in seq:
      if n["k"] == "T":
        total += par.delete[low] * len(n["x"])
      elif n["k"] == "G":
        end, out = delete(n["c"], low)
        if out < INF:
          return INF, total + out
        total += end
      elif n["k"] == "S" and a[(n["i"], "start")] == "T":
        total += par.region
        low = 1
      elif n["k"] == "E" and a[(n["i"], "end")] == "T":
        low = 0
      elif n["k"] == "X" and a[(n["i"], "exit")] == "T":
        return INF, total
    return total, INF

  def solve(pkey, pseq, tkey, tseq, low0):
    key = (pkey, tkey)
    if key in memo:
      return memo[key]
    n, m = len(pseq), len(tseq)
    low = low_before(pseq, low0)
    v = [[[INF] * 4 for _ in range(m + 2)] for _ in range(n + 2)]
    v[0][0][0] = 0.0
    out = INF
    deletes = [
        delete(x["c"], low[i]) if x["k"] == "G" else None
        for i, x in enumerate(pseq)
    ]
    for i in range(n + 1):
      for j in range(m + 1):
        c = v[i][j]
        # 0 advance in the prototype, 1 deleting, 2 inserting, 3 matching
        c[1] = min(c[1], c[0] + par.start[low[i]])
        c[2] = min(c[2], c[1])
        c[3] = min(c[3], c[0], c[2])
        p = pseq[i] if i < n else None
        t = tseq[j] if j < m else None
        if p is not None:
          nxt = v[i + 1][j]
          if p["k"] in "DSEX":
            step = 0.0
            if p["k"] == "S" and a[(p["i"], "start")] == "T":
              step = par.region
            if p["k"] == "X" and a[(p["i"], "exit")] == "T":
              out = min(out, c[0], c[1])
            else:
              nxt[0] = min(nxt[0], c[0] + step)
              nxt[1] = min(nxt[1], c[1] + step)
          elif p["k"] == "T":
            nxt[1] = min(nxt[1], c[1] + par.delete[low[i]] * len(p["x"]))
          else:
            end, ex = deletes[i]
            nxt[1] = min(nxt[1], c[1] + end)
            out = min(out, c[1] + ex)
        if t is not None:
          nxt = v[i][j + 1]
          if t["k"] == "D":
            nxt[2] = min(nxt[2], c[2])
            nxt[3] = min(nxt[3], c[3])
          elif t["k"] == "T":
            nxt[2] = min(nxt[2], c[2] + par.insert * len(t["x"]))
          elif t["k"] == "G":
            if t["i"] not in inserts:
              inserts[t["i"]] = insert_cost(t["c"])
            nxt[2] = min(nxt[2], c[2] + inserts[t["i"]])
        if p is not None and t is not None:
          nxt = v[i + 1][j + 1]
          if p["k"] == t["k"] == "T":
            if p["x"] == t["x"] and p["t"] == t["t"]:
              nxt[0] = min(
                  nxt[0], c[3] - par.match[low[i]] * len(p["x"])
              )
          elif p["k"] == t["k"] == "G" and p["t"] == t["t"]:
            if c[3] < INF:
              end, ex = solve(p["i"], p["c"], t["i"], t["c"], low[i])
              nxt[0] = min(nxt[0], c[3] + end)
              out = min(out, c[3] + ex)
    memo[key] = (v[n][m][3], out)
    return memo[key]

  return min(solve(-1, nodes, -1, target, 0))
