"""Reference model: model-token confidences and the baselines built on them."""

import math

INF = math.inf


def align(parts, lengths):
  """[(text, log prob)] of consecutive spans of the given lengths.

  A span has the sum of the log probs of the model tokens that overlap it and of
  the empty model tokens lying in it (not the ones right behind it). An empty
  span takes the next empty model token if one lies there, and otherwise shows
  the model token that it lies in without using it up.
  """
  offsets = []
  pos = 0
  for text, _ in parts:
    offsets.append(pos)
    pos += len(text)
  full = "".join(t for t, _ in parts)
  used = set()
  out = []
  pos = 0
  for length in lengths:
    end = pos + length
    total = 0.0
    if length:
      for i, (text, lp) in enumerate(parts):
        o = offsets[i]
        if text:
          if o < end and o + len(text) > pos:
            total += lp
        elif i not in used and o >= pos and (o < end or end > len(full)):
          used.add(i)
          total += lp
    else:
      for i, (text, lp) in enumerate(parts):
        o = offsets[i]
        if not text and i not in used and o == pos:
          used.add(i)
          total = lp
          break
        if text and o <= pos < o + len(text):
          total = lp
          break
    out.append((full[pos:end], total))
    pos = min(end, len(full))
  return out


def preorder(nodes):
  for n in nodes:
    yield n
    yield from preorder(n["c"])


def token_probs(nodes, parts):
  """{preorder index: log prob} of the tokens."""
  leaves = [n for n in preorder(nodes) if n["k"] in "TD"]
  spans = align(parts, [len(n["x"]) for n in leaves])
  return {n["i"]: lp for n, (_, lp) in zip(leaves, spans) if n["k"] == "T"}


# ------------------------------------------------------------- region baselines


def low_tokens(nodes, name, arg, lps):
  """Tokens that a region baseline wants in low-confidence regions."""
  out = []
  if name in ("token", "cumulative"):
    total = 0.0
    for n in preorder(nodes):
      if n["k"] == "T":
        total = total + lps[n["i"]] if name == "cumulative" else lps[n["i"]]
        if math.exp(total) < arg and n["x"]:
          out.append(n["i"])
  elif name == "fraction":
    size = sum(len(n["x"]) for n in preorder(nodes))
    seen = 0
    for n in preorder(nodes):
      seen += len(n["x"])
      if n["k"] == "T" and n["x"] and seen > arg * size:
        out.append(n["i"])
  elif name == "depth":
    above, below = arg
    first = None

    def go(seq, depth):
      nonlocal first
      for n in seq:
        if n["k"] == "T":
          if first is None:
            first = depth
          elif depth <= first - above or depth >= first + below:
            out.append(n["i"])
        go(n["c"], depth + 1)
    go(nodes, 0)
  return out


def coverable(nodes):
  """Indices of the tokens that some region can contain."""
  out = set()

  def go(seq, covered):
    starts = [i for i, n in enumerate(seq) if n["k"] == "S"]
    ends = [i for i, n in enumerate(seq) if n["k"] == "E"]
    for i, n in enumerate(seq):
      c = covered or (
          bool(starts) and bool(ends) and starts[0] < i < ends[-1]
      )
      if n["k"] == "T" and c:
        out.add(n["i"])
      go(n["c"], c)
  go(nodes, False)
  return out


def cheapest_regions(nodes, wanted, par, penalty):
  """Least cost of a marking, against the unmarked prototype itself."""
  wanted = set(wanted)

  def inside(seq):
    return sum(
        -par.match[1] * len(n["x"]) if n["k"] == "T" else inside(n["c"])
        for n in seq if n["k"] in "TG"
    )

  def outside(seq):
    out, low = 0.0, INF
    for n in seq:
      if n["k"] == "S":
        low = min(low, out + par.region)
      elif n["k"] == "E":
        out = min(out, low)
      elif n["k"] == "T":
        out += -par.match[0] * len(n["x"]) + (
            penalty if n["i"] in wanted else 0.0)
        low += -par.match[1] * len(n["x"])
      elif n["k"] == "G":
        out += outside(n["c"])
        low += inside(n["c"])
    return out
  return outside(nodes)


# ------------------------------------------------------------- prefix baselines


def before_first(nodes, bad):
  """The exit taken when tokens for which bad(n) holds must not be shown."""
  last, late = None, False
  for n in preorder(nodes):
    if n["k"] == "X":
      if late:
        return n["i"]
      last = n["i"]
    elif n["k"] == "T" and n["x"] and bad(n):
      if last is not None:
        return last
      late = True
  return None


def prefix_exit(nodes, name, arg, lps):
  """Preorder index of the exit (None: everything is shown)."""
  if name == "token":
    return before_first(nodes, lambda n: math.exp(lps[n["i"]]) < arg)
  if name == "cumulative":
    total = [0.0]

    def bad(n):
      total[0] += lps[n["i"]]
      return math.exp(total[0]) < arg
    return before_first(nodes, bad)
  if name == "intellicode":
    seen = [0]

    def low(n):
      ratio = 0.8 / (1 + math.exp(-seen[0] / 10.0))
      seen[0] += 1
      return math.exp(lps[n["i"]]) < ratio
    return before_first(nodes, low)
  ready = False
  count = 0
  for n in preorder(nodes):
    if n["k"] == "X" and ready:
      return n["i"]
    if name == "characters" and n["k"] == "T":
      count += len(n["x"])
      ready = ready or count >= arg
    elif name == "lines" and n["k"] == "D" and "\n" in n["x"]:
      count += 1
      ready = ready or count >= arg
  return None


def exit_averages(nodes, lps):
  """{exit: average log prob of the non-empty tokens before it}."""
  out = {}
  total, count = 0.0, 0
  for n in preorder(nodes):
    if n["k"] == "X" and count:
      out[n["i"]] = total / count
    elif n["k"] == "T" and n["x"]:
      total += lps[n["i"]]
      count += 1
  return out


# ------------------------------------------------------------- call baselines


def call_baselines(nodes):
  """{name: {(index, "start"|"end"): value}}."""
  picks = {"all_calls_full": set(), "all_calls_shorter": set(),
           "novel_calls_shorter": set()}
  for call in nodes:
    if call["k"] != "G":
      continue
    kids = call["c"]
    ends = [n["i"] for n in kids if n["k"] == "E"]
    starts = [n for n in kids if n["k"] == "S"]
    picks["all_calls_full"] |= {starts[0]["i"], ends[-1]}
    # From the last white space (or the beginning) to the bracket.
    spaces = [n["i"] for n in kids if n["k"] == "D"]
    after = max(spaces, default=-1)
    start = next(n["i"] for n in starts if n["i"] > after)
    part = {start, ends[0]}
    picks["all_calls_shorter"] |= part
    if any(n["k"] == "T" and n["t"] == "NOVEL" and n["i"] > start
           for n in kids if n["i"] < ends[0]):
      picks["novel_calls_shorter"] |= part
  out = {}
  for name, chosen in picks.items():
    a = {}
    inside = False
    for n in preorder(nodes):
      if n["k"] == "S":
        on = n["i"] in chosen
        a[(n["i"], "start")] = "T" if on else "N" if inside else "F"
        inside = inside or on
      elif n["k"] == "E":
        on = n["i"] in chosen
        a[(n["i"], "end")] = "T" if on else "F" if inside else "N"
        inside = inside and not on
    out[name] = a
  return out
