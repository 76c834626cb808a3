"""Random decision diagrams as JSON specs, and their brute-force meaning.

A spec is {"n": states, "keys": [...], "vals": [...], "missing": v,
           "edges": [[src, dst, cost, key or None, value or None], ...]}
with states 0..n-1 numbered topologically, 0 initial and n-1 final, and edges in
an order that satisfies the builder's requirement (every edge into a state comes
before the first edge out of it). Costs are multiples of 1/4, so sums are exact.
"""

import itertools
import math

INF = math.inf


def gen_vals(rng, n):
  """Choices of a variable, in the order the caller gives them."""
  if rng.random() < 0.6:
    return list(range(n))
  return rng.sample(range(-2, 12), n)


def gen_keys(rng, n):
  if rng.random() < 0.6:
    return list(range(n))
  return sorted(rng.sample(range(-3, 40), n))


def gen_number(rng, wide):
  """A multiple of 1/4; wide ones are huge, and nearly equal ones occur."""
  base = rng.randint(-12, 12) / 4
  if wide and rng.random() < 0.6:
    base += rng.choice([2.0**20, 2.0**20, -(2.0**20), 2.0**34])
  return base


def gen_spec(rng, keys, vals, missing, max_states=6, allow_inf=True,
             dead_ends=False, wide=False):
  """Generates a spec whose final state is reachable (unless dead ends win)."""
  n = rng.randint(2, max_states)
  style = rng.choice(["loose", "chain", "dense"])
  lp = {0: -1}
  edges = []
  grid = rng.choice([1, 4])

  def cost():
    if allow_inf and rng.random() < 0.04:
      return "inf"
    if rng.random() < 0.2:
      return 0.0
    if wide and rng.random() < 0.5:
      return gen_number(rng, True)
    return rng.randint(-8, 12) / grid

  for s in range(n - 1):
    if s not in lp:
      if dead_ends and rng.random() < 0.5:
        # An unreachable source: must be pruned away.
        d = rng.randint(s + 1, n - 1)
        edges.append([s, d, cost(), None, None])
      continue
    fan = {"loose": rng.randint(1, 2), "chain": 1, "dense": rng.randint(2, 4)}[
        style
    ]
    dests = []
    if style == "chain" or rng.random() < 0.7:
      dests.append(s + 1)
    while len(dests) < fan:
      dests.append(rng.randint(s + 1, n - 1))
    for d in dests:
      available = [i for i in range(len(keys)) if i > lp[s]]
      if available and rng.random() < 0.75:
        # Prefer the next variable so that several get assigned on one path.
        k = available[0] if rng.random() < 0.7 else rng.choice(available)
        # Usually several parallel edges, one per value.
        choices = [v for v in vals if rng.random() < 0.8] or [vals[0]]
        for v in choices:
          edges.append([s, d, cost(), keys[k], v])
        lp[d] = max(lp.get(d, -1), k)
      else:
        edges.append([s, d, cost(), None, None])
        lp[d] = max(lp.get(d, -1), lp[s])
  spec = {"n": n, "keys": list(keys), "vals": list(vals), "missing": missing,
          "edges": edges}
  if not dead_ends and not feasible(spec):
    edges.append([0, n - 1, 3.0, None, None])
    # keep builder order: edges out of 0 first
    edges.sort(key=lambda e: e[0])
  else:
    edges.sort(key=lambda e: e[0])
  return spec


def cost_of(edge):
  return INF if edge[2] == "inf" else float(edge[2])


def valid_spec(spec):
  """Structural validity (used when shrinking)."""
  n = spec["n"]
  if n < 2 or not spec["vals"] or spec["missing"] not in spec["vals"]:
    return False
  lp = {0: -1}
  last = 0
  for s, d, c, k, v in spec["edges"]:
    if not (0 <= s < d < n) or s < last:
      return False
    last = s
    if not (isinstance(c, (int, float)) or c == "inf"):
      return False
    if k is not None:
      if k not in spec["keys"] or v not in spec["vals"]:
        return False
  for e in sorted(spec["edges"], key=lambda e: e[0]):
    s, d, _, k, _ = e
    if s not in lp:
      continue
    if k is not None:
      ki = sorted(spec["keys"]).index(k)
      if ki <= lp[s]:
        return False
      lp[d] = max(lp.get(d, -1), ki)
    else:
      lp[d] = max(lp.get(d, -1), lp[s])
  return sorted(set(spec["keys"])) == list(spec["keys"]) and len(
      set(spec["vals"])
  ) == len(spec["vals"])


def reachable_edges(spec):
  fwd = {0}
  for e in spec["edges"]:
    if cost_of(e) < INF and e[0] in fwd:
      fwd.add(e[1])
  bwd = {spec["n"] - 1}
  for e in reversed(spec["edges"]):
    if cost_of(e) < INF and e[1] in bwd:
      bwd.add(e[0])
  both = fwd & bwd
  return [
      e
      for e in spec["edges"]
      if cost_of(e) < INF and e[0] in both and e[1] in both
  ]


def feasible(spec):
  fwd = {0}
  for e in sorted(spec["edges"], key=lambda e: e[0]):
    if cost_of(e) < INF and e[0] in fwd:
      fwd.add(e[1])
  return spec["n"] - 1 in fwd


def live_keys(spec):
  """Variables that some finite complete path can assign."""
  return sorted({e[3] for e in reachable_edges(spec) if e[3] is not None})


def paths(spec):
  """All finite-cost complete paths as (cost, {key: value}, edges)."""
  out = {}
  for e in reachable_edges(spec):
    out.setdefault(e[0], []).append(e)
  result = []
  stack = [(0, 0.0, {}, ())]
  while stack:
    s, c, a, p = stack.pop()
    if s == spec["n"] - 1:
      result.append((c, a, p))
      continue
    for e in out.get(s, ()):
      a2 = a if e[3] is None else {**a, e[3]: e[4]}
      stack.append((e[1], c + cost_of(e), a2, p + (tuple(e),)))
    if len(result) > 20000:
      raise ValueError("too many paths")
  return result


def table(spec):
  """Maps every full assignment of the live keys to its minimal path cost."""
  keys = live_keys(spec)
  best = {}
  for c, a, _ in paths(spec):
    t = tuple(a.get(k, spec["missing"]) for k in keys)
    if c < best.get(t, INF):
      best[t] = c
  return keys, best


def penalised(best, keys, vals, penalties):
  """{assignment: cost + penalties}; penalties[key][value] -> float."""
  return {
      t: c + sum(penalties[k][v] for k, v in zip(keys, t))
      for t, c in best.items()
  }


def min_marginals(best, keys, vals, penalties, key):
  """Reference min-marginals of `key` (list over vals)."""
  i = keys.index(key)
  result = {v: INF for v in vals}
  for t, c in penalised(best, keys, vals, penalties).items():
    if c < result[t[i]]:
      result[t[i]] = c
  return [result[v] for v in vals]


def joint(tables, vals, unary=None):
  """Brute force over a system: {assignment tuple: cost}, keys sorted.

  tables: list of (keys, best). unary: {key: {value: cost}} or None.
  """
  all_keys = sorted({k for keys, _ in tables for k in keys})
  result = {}
  for t in itertools.product(vals, repeat=len(all_keys)):
    a = dict(zip(all_keys, t))
    total = 0.0
    for keys, best in tables:
      total += best.get(tuple(a[k] for k in keys), INF)
      if total == INF:
        break
    if unary is not None and total < INF:
      for k in all_keys:
        total += unary[k][a[k]]
    if total < INF:
      result[t] = total
  return all_keys, result
