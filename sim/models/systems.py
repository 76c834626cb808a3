"""Random systems of decision diagrams and their brute-force meaning."""

import math

from models import dagmodel

INF = math.inf


def gen_system(rng, max_keys=4, max_dags=4, pipelines=True):
  """A JSON description of a system of diagrams over shared variables."""
  nk = rng.choice([1, 2, 2, 3, 3, 4][: max_keys + 2])
  nk = min(nk, max_keys)
  nv = rng.choice([2, 2, 3])
  vals = dagmodel.gen_vals(rng, nv)
  names = dagmodel.gen_keys(rng, nk)
  missing = rng.choice(vals)
  nd = rng.choice([1, 2, 2, 3, max_dags])
  specs = []
  for _ in range(nd):
    if rng.random() < 0.3:
      keys = sorted(rng.sample(names, rng.randint(1, nk)))
    else:
      keys = list(names)
    specs.append(
        dagmodel.gen_spec(
            rng, keys, vals, missing, max_states=rng.choice([4, 5, 7])
        )
    )
  weights = None
  if rng.random() < 0.5:
    weights = [rng.choice([0.25, 0.5, 1.0, 2.0]) for _ in specs]
  pipes = []
  # One packing flavour per system: typed and untyped variable lists do not mix.
  packer = rng.choice(["python", "numba"])
  for _ in specs:
    pipes.append({
        "prune": rng.choice(["python", "jit", "rewrite"]) if pipelines
        else "python",
        "packer": packer,
    })
  return {"specs": specs, "weights": weights, "pipes": pipes}


def valid_system(s):
  if not s["specs"]:
    return False
  if len(s["pipes"]) < len(s["specs"]):
    return False
  if s["weights"] is not None and (
      len(s["weights"]) != len(s["specs"])
      or any(not w > 0 for w in s["weights"])
  ):
    return False
  first = s["specs"][0]
  packers = {p["packer"] for p in s["pipes"]}
  if len(packers) != 1:
    return False
  return all(
      dagmodel.valid_spec(x)
      and dagmodel.feasible(x)
      and x["vals"] == first["vals"]
      and x["missing"] == first["missing"]
      for x in s["specs"]
  )


def shrink_system(s):
  """Smaller systems: drop a diagram, drop edges, simplify costs."""
  n = len(s["specs"])
  for i in range(n):
    if n > 1:
      yield {
          **s,
          "specs": s["specs"][:i] + s["specs"][i + 1 :],
          "pipes": s["pipes"][:i] + s["pipes"][i + 1 :],
          "weights": (
              None
              if s["weights"] is None
              else s["weights"][:i] + s["weights"][i + 1 :]
          ),
      }
  if s["weights"] is not None:
    yield {**s, "weights": None}
  for i, spec in enumerate(s["specs"]):
    edges = spec["edges"]
    for j in range(len(edges)):
      small = {**spec, "edges": edges[:j] + edges[j + 1 :]}
      yield {**s, "specs": s["specs"][:i] + [small] + s["specs"][i + 1 :]}
    for j, e in enumerate(edges):
      for c in (0.0, 1.0):
        if e[2] != c:
          small = {
              **spec,
              "edges": edges[:j] + [[e[0], e[1], c, e[3], e[4]]] + edges[j + 1 :],
          }
          if e[2] == "inf" or abs(e[2]) > abs(c):
            yield {**s, "specs": s["specs"][:i] + [small] + s["specs"][i + 1 :]}


class RefSystem:
  """What the system means: the cost of every joint decision."""

  def __init__(self, specs):
    self.vals = specs[0]["vals"]
    self.tables = [dagmodel.table(s) for s in specs]
    self.keys = sorted({k for keys, _ in self.tables for k in keys})
    _, self.base = dagmodel.joint(self.tables, self.vals)
    self.unary = {k: {v: 0.0 for v in self.vals} for k in self.keys}

  def copy(self):
    new = RefSystem.__new__(RefSystem)
    new.vals, new.tables, new.keys, new.base = (
        self.vals, self.tables, self.keys, self.base
    )
    new.unary = {k: dict(v) for k, v in self.unary.items()}
    return new

  def costs(self):
    result = {}
    for t, c in self.base.items():
      total = c + sum(self.unary[k][v] for k, v in zip(self.keys, t))
      if total < INF:
        result[t] = total
    return result

  def optimum(self):
    return min(self.costs().values(), default=INF)

  def cost_of(self, t):
    if t not in self.base:
      return INF
    return self.base[t] + sum(
        self.unary[k][v] for k, v in zip(self.keys, t)
    )

  def constrain(self, constraints, penalty):
    for k, v in constraints.items():
      for other in self.vals:
        if other != v:
          self.unary[k][other] += penalty


def observed_costs(system, ref, tables=None):
  """Cost of every joint decision as the system's own penalties define it.

  Reads the public arrays: each diagram's penalties, and the index map. For a
  joint decision t this is sum_j (table_j(t|j) + sum_k penalties_j[k][t_k]).
  """
  index_map = system.data.dag_variable_index_map
  keys = list(system.variable_keys)
  vals = list(system.variable_values)
  result = {}
  for t in ref.base:
    a = dict(zip(ref.keys, t))
    total = 0.0
    for d, (dkeys, best) in enumerate(tables or ref.tables):
      total += best[tuple(a[k] for k in dkeys)]
      pen = system.data.dag_tables[d].penalties
      for i, k in enumerate(keys):
        j = index_map[i, d]
        if j != -1:
          total += float(pen[j, vals.index(a[k])])
    result[t] = total
  return result
