"""C16: drawn diagrams and the debugging aids of diagram building."""

import collections
import contextlib
import html.parser
import math
import re

import env  # pylint: disable=unused-import

import core
import sched_sim
from models import build
from models import dagmodel
from models import trees
from props import c17
from props import common
from props import selection
from props import suggest

from IPython import display
from r_u_sure.decision_diagrams import gated_state_dag
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import part_selection_dags
from r_u_sure.rendering import dag_annotator
from r_u_sure.rendering import render_in_notebook
from r_u_sure.rendering import rendering
from r_u_sure.rendering import simple_dag_annotator
from r_u_sure.rendering import svg_renderer
from r_u_sure.tree_structure import packed_sequence_nodes as packed
from r_u_sure.tree_structure import sequence_nodes as sn

LEVEL = common.LEVEL
COUNT = {"quick": 12000, "thorough": 400000}
WALL_LIMIT = 120
RULE = (
    "A case is 1-3 caller threads that draw shared diagrams (random diagrams with"
    " random labels and positions, or the diagrams of random suggestions and"
    " intents with their own annotators), draw free scenes with nested groups"
    " some of which are left by an exception, or build diagrams inside nested"
    " debugging scopes, under a seeded line-level schedule, with cancelled and"
    " failed requests that are retried. Non-trivial: several requests, a fault, or"
    " a scope left by an exception."
)
MEASURE = "distinct (kind, states, edges, emphasised edges) tuples"
REAL = ["rendering/*", "decision_diagrams/gated_state_dag",
        "decision_diagrams/packed_dags",
        "edit_distance_utility/* (builders and graph annotators)"]
STUB = [common.STUB_COMPILER, common.STUB_SCHED, common.STUB_DISPLAY]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "nothing is claimed about a picture whose drawing was itself cut short by an"
    " injected fault; scenes left by an ordinary exception must still be closed",
]
PROTECTED = ("n", "missing")

TEXTS = ["a", "b<c", "&amp;", "x\ny", "\"q\"", "</g>", "</title><b>", "", "é 𝔘",
         "'s", "]]>"]
TAGS = ["t1", "t2"]
DIRECTIONS = [d.name for d in rendering.PointDirection]


# ---------------------------------------------------------------- generation


def gen_num(rng):
  return float(rng.choice([-40, -10, -2.5, 0, 0, 1, 3, 7.5, 12, 30, 100]))


def gen_box(rng):
  return [gen_num(rng), gen_num(rng), float(rng.choice([0, 1, 5, 20, 50])),
          float(rng.choice([0, 1, 5, 20, 50]))]


def gen_hover(rng):
  return rng.choice([None] + TEXTS)


def gen_tags(rng):
  return [t for t in TAGS if rng.random() < 0.3]


def gen_scene(rng, depth=0):
  out = []
  for _ in range(rng.choice([0, 1, 2, 3, 5])):
    r = rng.random()
    if r < 0.25 and depth < 3:
      out.append(["group", gen_hover(rng), gen_tags(rng),
                  rng.random() < 0.35, gen_scene(rng, depth + 1)])
    elif r < 0.45:
      out.append(["box", gen_box(rng), rng.choice(TEXTS), gen_hover(rng),
                  float(rng.choice([1, 10, 12.5])), gen_tags(rng)])
    elif r < 0.6:
      out.append(["label", [gen_num(rng), gen_num(rng)], rng.choice(TEXTS),
                  float(rng.choice([1, 10])), rng.choice(DIRECTIONS),
                  gen_hover(rng), gen_tags(rng)])
    elif r < 0.7:
      out.append(["container", gen_box(rng), gen_tags(rng)])
    elif r < 0.85:
      out.append(["line",
                  [[gen_num(rng), gen_num(rng)]
                   for _ in range(rng.choice([1, 2, 2, 4]))],
                  gen_hover(rng), gen_tags(rng)])
    else:
      out.append(["dot", [gen_num(rng), gen_num(rng)], gen_hover(rng),
                  gen_tags(rng)])
  return out


def gen_scopes(rng, depth=0):
  """Nested debugging scopes; edges are added in between."""
  out = []
  for _ in range(rng.choice([1, 2, 3])):
    if rng.random() < 0.45 and depth < 3:
      out.append(["scope", rng.random() < 0.4, gen_scopes(rng, depth + 1)])
    else:
      out.append(["edge", rng.choice(["none", "dict", "empty", "other"])])
  return out


def gen_diagram(rng):
  keys = list(range(rng.choice([0, 1, 2, 3])))
  vals = rng.choice([[0, 1], [0, 1, 2]])
  spec = dagmodel.gen_spec(
      rng, keys, vals, 0, max_states=rng.choice([3, 5, 7]), dead_ends=True
  )
  n = spec["n"]
  if rng.random() < 0.4:
    # Prices that differ in the last digits only, or have many of them.
    for e in spec["edges"]:
      if e[2] != "inf" and rng.random() < 0.4:
        e[2] = e[2] + rng.choice([1e-9, 1 / 3, 0.125, 1e-7, 1e6, -0.015625])
  return {
      "spec": spec,
      # Some states have names that print like another state's.
      "strings": [int(rng.random() < 0.3) for _ in range(n)]
      if rng.random() < 0.3 else [0] * n,
      "colours": [rng.choice([None, None, "red", "cyan", "blue"])
                  for _ in spec["edges"]],
      "info": [rng.choice([0, 0, 1, 2]) for _ in spec["edges"]],
      "states": [
          {"box": gen_box(rng), "text": rng.choice(TEXTS),
           "hover": gen_hover(rng), "size": float(rng.choice([1, 10])),
           "tags": gen_tags(rng)} for _ in range(n)
      ],
      "edges": [
          {"axis": rng.choice(["HORIZONTAL", "VERTICAL"]),
           "elbow": rng.choice([0.0, 0.25, 0.5, 1.0]),
           "start": rng.choice([0.0, 0.25, 0.5, 1.0]),
           "end": rng.choice([0.0, 0.25, 0.5, 1.0]),
           "at": rng.choice([0.0, 0.25, 0.5, 1.0]),
           "elbow_by": rng.choice([0.0, 0.0, 4.0, -3.0]),
           "at_by": rng.choice([0.0, 0.0, 2.0, -6.0]),
           "text": rng.choice(TEXTS), "hover": gen_hover(rng),
           "size": float(rng.choice([1, 10])), "tags": gen_tags(rng)}
          for _ in spec["edges"]
      ],
      "extra": [
          {"box": gen_box(rng), "text": rng.choice([None] + TEXTS),
           "hover": gen_hover(rng), "size": 3.0, "tags": gen_tags(rng)}
          for _ in range(rng.choice([0, 0, 1, 3]))
      ],
  }


def size_of(tree):
  return sum(1 + (size_of(n[2]) if n[0] == "G" else 0) for n in tree)


def gen_tree_pair(rng):
  proto = c17.gen_prototype(rng)
  while size_of(proto) > 12:
    proto = c17.gen_prototype(rng)
  kind = rng.choice(["edit", "rules", "select"])
  if kind == "select":
    proto = selection.no_exits(proto)
  target = c17.vary(rng, trees.strip(proto))
  if rng.random() < 0.4:
    # Text that needs escaping.
    def nasty(ns):
      return [
          ["G", n[1], nasty(n[2])] if n[0] == "G"
          else [n[0], n[1], rng.choice(TEXTS)]
          if n[0] == "T" and rng.random() < 0.5 else n
          for n in ns
      ]
    proto, target = nasty(proto), nasty(target)
  return {"kind": kind, "prototype": proto, "target": target,
          "traced": rng.random() < 0.15, "prune": rng.random() < 0.5}


def gen_emphasis(rng, n):
  r = rng.random()
  if r < 0.35:
    return None
  if r < 0.5:
    return "path"
  out = [i for i in range(n) if rng.random() < 0.4]
  if rng.random() < 0.3:
    # Repeated edges, edges of another diagram (-1, -2), in any order.
    out = out * rng.choice([1, 3]) + rng.choice([[], [-1], [-1, -2]])
    rng.shuffle(out)
  return out


def gen(rng, tier, index):
  threads = rng.choice([1, 1, 1, 2, 3])
  diagrams = [gen_diagram(rng) for _ in range(rng.choice([1, 1, 2]))]
  pairs = [gen_tree_pair(rng)] if rng.random() < 0.35 else []
  jobs = []
  for t in range(threads):
    for _ in range(rng.choice([1, 2, 3]) if threads == 1 else 1):
      job = {"thread": t, "fault": suggest.gen_fault(rng, 0.2, 10)}
      r = rng.random()
      if pairs and r < 0.5:
        job.update(op="tree", which=0,
                   emphasis=rng.choice([None, None, "path"]),
                   notebook=rng.random() < 0.4, hover=rng.random() < 0.7)
      elif r < 0.25:
        job.update(op="scene", scene=gen_scene(rng), hover=rng.random() < 0.7,
                   styles=rng.random() < 0.7,
                   pad=float(rng.choice([0, 0, 5, 10])))
      elif r < 0.4:
        job.update(op="scopes", scopes=gen_scopes(rng), fault=None)
      else:
        which = rng.randrange(len(diagrams))
        job.update(
            op="diagram", which=which,
            emphasis=gen_emphasis(rng, len(diagrams[which]["spec"]["edges"])),
            style=rng.choice(["own", "own", "simple"]),
            how=rng.choice(["record", "svg", "notebook"]),
            hover=rng.random() < 0.7, lazy=rng.random() < 0.3,
            twice=rng.random() < 0.2,
        )
      jobs.append(job)
  return {
      "threads": threads, "diagrams": diagrams, "pairs": pairs, "jobs": jobs,
      "schedule": common.gen_schedule(rng, threads) if threads > 1 else [],
  }


def _tags_ok(tags):
  return isinstance(tags, list) and all(t in TAGS for t in tags)


def _nums(v, n):
  return (isinstance(v, list) and len(v) == n
          and all(isinstance(x, (int, float)) for x in v))


def _scene_ok(scene):
  for op in scene:
    if not isinstance(op, list) or not op:
      return False
    if op[0] == "group":
      if len(op) != 5 or not _tags_ok(op[2]) or not _scene_ok(op[4]):
        return False
    elif op[0] == "box":
      if (len(op) != 6 or not _nums(op[1], 4) or not _tags_ok(op[5])
          or op[4] <= 0):
        return False
    elif op[0] == "label":
      if (len(op) != 7 or not _nums(op[1], 2) or op[4] not in DIRECTIONS
          or not _tags_ok(op[6]) or op[3] <= 0):
        return False
    elif op[0] == "container":
      if len(op) != 3 or not _nums(op[1], 4) or not _tags_ok(op[2]):
        return False
    elif op[0] == "line":
      if (len(op) != 4 or not op[1] or not _tags_ok(op[3])
          or not all(_nums(p, 2) for p in op[1])):
        return False
    elif op[0] == "dot":
      if len(op) != 4 or not _nums(op[1], 2) or not _tags_ok(op[3]):
        return False
    else:
      return False
  return True


def _scopes_ok(scopes):
  for op in scopes:
    if not isinstance(op, list) or len(op) < 2:
      return False
    if op[0] == "scope":
      if len(op) != 3 or not _scopes_ok(op[2]):
        return False
    elif op[0] != "edge" or len(op) != 2 or op[1] not in (
        "none", "dict", "empty", "other"):
      return False
  return True


def valid(case):
  if case["threads"] < 1 or not case["jobs"]:
    return False
  for d in case["diagrams"]:
    spec = d["spec"]
    if not dagmodel.valid_spec(spec):
      return False
    m = len(spec["edges"])
    if (len(d["edges"]) != m or len(d["colours"]) != m or len(d["info"]) != m
        or len(d["states"]) != spec["n"] or len(d["strings"]) != spec["n"]):
      return False
    if not all(_nums(s["box"], 4) and _tags_ok(s["tags"]) and s["size"] > 0
               for s in d["states"] + d["extra"]):
      return False
    if not all(_tags_ok(e["tags"]) and e["size"] > 0 for e in d["edges"]):
      return False
  for p in case["pairs"]:
    if not (c17_ok(p["prototype"], True) and c17_ok(p["target"], False)):
      return False
  for j in case["jobs"]:
    if j["fault"] is not None and (
        len(j["fault"]) != 2
        or j["fault"][0] not in ("interrupt", "nomem", "stack")):
      return False
    if j["op"] == "scene" and not _scene_ok(j["scene"]):
      return False
    if j["op"] == "scopes" and (
        not _scopes_ok(j["scopes"]) or j["fault"] is not None):
      return False
    if j["op"] == "diagram":
      if j["which"] >= len(case["diagrams"]):
        return False
      if isinstance(j["emphasis"], list):
        m = len(case["diagrams"][j["which"]]["spec"]["edges"])
        if not all(isinstance(i, int) and -2 <= i < m for i in j["emphasis"]):
          return False
    if j["op"] == "tree" and j["which"] >= len(case["pairs"]):
      return False
  return True


def c17_ok(ns, control):
  for n in ns:
    if not isinstance(n, list) or not n:
      return False
    if n[0] == "G":
      if len(n) != 3 or n[1] not in ("A", "B") or not c17_ok(n[2], control):
        return False
    elif n[0] == "T":
      if len(n) != 3 or n[1] not in ("A", "B") or not isinstance(n[2], str):
        return False
    elif n[0] == "D":
      if len(n) != 2 or not isinstance(n[1], str):
        return False
    elif not control or n[0] not in ("S", "E", "X") or len(n) != 1:
      return False
  return True


# ------------------------------------------------------- recording renderer


class Recorder:
  """A renderer that writes down every drawing command."""

  def __init__(self):
    self.out = []
    self.stack = []

  def _add(self, item):
    self.out.append((list(self.stack), item))

  def label_in_box(self, bounds, text, hover_text, text_size, style_tags=()):
    self._add(("box", bounds, text, hover_text, text_size, tuple(style_tags)))

  def label_at_point(self, point, text, text_size, direction, hover_text=None,
                     padding_fraction=0.5, style_tags=()):
    self._add(("label", point, text, text_size, direction, hover_text,
               tuple(style_tags)))

  def container(self, bounds, style_tags=()):
    self._add(("container", bounds, tuple(style_tags)))

  def line(self, points, hover_text=None, style_tags=()):
    self._add(("line", list(points), hover_text, tuple(style_tags)))

  def dot(self, point, hover_text=None, style_tags=()):
    self._add(("dot", point, hover_text, tuple(style_tags)))

  @contextlib.contextmanager
  def group(self, hover_text=None, style_tags=()):
    self.stack.append((len(self.out), hover_text, tuple(style_tags)))
    try:
      yield
    finally:
      self.stack.pop()


# -------------------------------------------------------------- page reading

VOID = {"feblend", "fegaussianblur", "fecolormatrix", "femorphology"}


class Page(html.parser.HTMLParser):
  """Reads the written picture back into a list of shapes."""

  CDATA_CONTENT_ELEMENTS = ("style", "script")

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.root = {"tag": None, "attrs": {}, "kids": [], "text": ""}
    self.stack = [self.root]
    self.bad = None

  def handle_starttag(self, tag, attrs):
    node = {"tag": tag, "attrs": dict(attrs), "kids": [], "text": ""}
    self.stack[-1]["kids"].append(node)
    self.stack.append(node)

  def handle_startendtag(self, tag, attrs):
    self.handle_starttag(tag, attrs)
    self.stack.pop()

  def handle_endtag(self, tag):
    if len(self.stack) < 2 or self.stack[-1]["tag"] != tag:
      self.bad = self.bad or f"unexpected </{tag}>"
      return
    self.stack.pop()

  def handle_data(self, data):
    self.stack[-1]["text"] += data

  def unknown_decl(self, data):
    self.bad = self.bad or f"unexpected declaration {data!r}"


def read_page(ctx, what, page):
  """(viewBox, drawn nodes below the outermost group)."""
  p = Page()
  p.feed(page)
  p.close()
  ctx.check(
      p.bad is None and len(p.stack) == 1, "bad-markup",
      lambda: f"{what}: {p.bad or 'unclosed ' + str(p.stack[-1]['tag'])}:"
      f" {page[-1500:]!r}",
  )
  svgs = [k for k in p.root["kids"] if k["tag"] == "svg"]
  ctx.check(len(svgs) == 1, "bad-markup", lambda: f"{what}: {len(svgs)} pictures")
  box = svgs[0]["attrs"].get("viewbox", "")
  try:
    box = [float(x) for x in box.split()]
  except ValueError:
    box = []
  ctx.check(len(box) == 4, "bad-markup", lambda: f"{what}: viewBox {box}")
  tops = [k for k in svgs[0]["kids"] if k["tag"] == "g"]
  return box, tops


def style_rules(page):
  """[(specificity, order, tag, classes, declarations)] of the stylesheet."""
  rules = []
  for sheet in re.findall(r"<style[^>]*>(.*?)</style>", page, re.S):
    for selectors, body in re.findall(r"([^{}]+)\{([^{}]*)\}", sheet):
      decls = dict(
          [x.strip() for x in d.split(":", 1)]
          for d in body.split(";") if ":" in d
      )
      for sel in selectors.split(","):
        if ":" in sel or not sel.strip():
          continue  # a look while hovering
        last = sel.split()[-1]
        tag = re.match(r"[\w-]*", last).group(0)
        classes = set(re.findall(r"\.([\w-]+)", sel))
        rules.append((len(classes), len(rules), tag, classes, decls))
  return sorted(rules, key=lambda r: r[:2])


def look(rules, tag, classes, attrs=()):
  """What the stylesheet makes of an element, as sorted declarations."""
  out = dict(attrs)
  for _, _, rule_tag, needed, decls in rules:
    if rule_tag in ("", tag) and needed <= set(classes):
      out.update(decls)
  return tuple(sorted(out.items()))


def check_looks(ctx, what, page, drawn):
  """Lines can be seen, and differently marked things look different."""
  rules = style_rules(page)
  seen = {}
  for _, classes, kind, _ in drawn:
    if kind not in ("path", "rect"):
      continue
    status = frozenset(classes) & STATUS
    if kind == "rect" and not status:
      continue
    rest = kind, frozenset(classes) - STATUS
    seen.setdefault(rest, {}).setdefault(status, look(rules, kind, classes))
  if re.search(r"<(?:path|rect|g)\b[^>]*\s(?:style|stroke[\w-]*)=", page):
    return  # looks are not (only) in the stylesheet: not for us to judge
  for (kind, _), looks in seen.items():
    for status, l in looks.items():
      ctx.check(
          kind != "path" or dict(l).get("stroke", "none") not in ("none", ""),
          "drawing",
          lambda: f"{what}: lines marked {sorted(status)} cannot be seen: {l}",
      )
    ctx.check(
        len(set(looks.values())) == len(looks), "drawing",
        lambda: f"{what}: {kind}s with different marks look the same: {looks}",
    )


def shapes(tops):
  """Flat list of (chain of hover texts, chain of classes, kind, data)."""
  out = []

  def go(node, hovers, classes):
    title = None
    for k in node["kids"]:
      if k["tag"] == "title":
        title = k["text"]
    classes = classes + (node["attrs"].get("class") or "").split()
    hovers = hovers + ([title] if title is not None else [])
    for k in node["kids"]:
      tag, a = k["tag"], k["attrs"]
      own = classes + (a.get("class") or "").split()
      if tag == "g":
        go(k, hovers, classes)
      elif tag == "rect":
        out.append((hovers, own, "rect", tuple(
            float(a[x]) for x in ("x", "y", "width", "height"))))
      elif tag == "text":
        out.append((hovers, own, "text", (
            float(a["x"]), float(a["y"]), float(a["font-size"]), k["text"],
            a.get("style") or "")))
      elif tag == "path":
        tokens = a["d"].split()
        pts = [
            (tokens[i], float(tokens[i + 1]), float(tokens[i + 2]))
            for i in range(0, len(tokens), 3)
        ]
        out.append((hovers, own, "path", tuple(pts)))
      elif tag == "circle":
        out.append((hovers, own, "dot", (float(a["cx"]), float(a["cy"]))))
  for t in tops:
    go(t, [], [])
  return out


def within(view, x, y, pad=0.0):
  eps = 1e-6
  return (view[0] + pad - eps <= x <= view[0] + view[2] - pad + eps
          and view[1] + pad - eps <= y <= view[1] + view[3] - pad + eps)


def check_view(ctx, what, view, drawn, pad):
  """Everything with an extent is inside the padded view, and it is tight."""
  xs, ys = [], []
  for _, own, kind, data in drawn:
    if kind == "rect":
      xs += [data[0], data[0] + data[2]]
      ys += [data[1], data[1] + data[3]]
    elif kind == "path":
      xs += [p[1] for p in data]
      ys += [p[2] for p in data]
    elif kind == "dot":
      xs.append(data[0])
      ys.append(data[1])
    elif "label_in_box" not in own:
      continue
  if xs:
    for x, y in ((min(xs), min(ys)), (max(xs), max(ys))):
      ctx.check(
          within(view, x, y, pad), "outside-view",
          lambda: f"{what}: ({x}, {y}) is outside {view} padded by {pad}",  # pylint: disable=cell-var-from-loop
      )


# ------------------------------------------------------------------- scenes


class Left(Exception):
  """What the drawing caller raises to leave a group."""


def draw(r, scene):
  for op in scene:
    if op[0] == "group":
      try:
        with r.group(hover_text=op[1], style_tags=tuple(op[2])):
          draw(r, op[4])
          if op[3]:
            raise Left()
      except Left:
        pass
    elif op[0] == "box":
      r.label_in_box(rendering.BoundingBox(*op[1]), op[2], op[3], op[4],
                     tuple(op[5]))
    elif op[0] == "label":
      r.label_at_point(
          rendering.Point(*op[1]), op[2], op[3],
          rendering.PointDirection[op[4]], hover_text=op[5],
          style_tags=tuple(op[6]),
      )
    elif op[0] == "container":
      r.container(rendering.BoundingBox(*op[1]), tuple(op[2]))
    elif op[0] == "line":
      r.line([rendering.Point(*p) for p in op[1]], hover_text=op[2],
             style_tags=tuple(op[3]))
    else:
      r.dot(rendering.Point(*op[1]), hover_text=op[2], style_tags=tuple(op[3]))


def leaves_of(scene, hover, hovers=(), classes=()):
  """What a scene should show, in drawing order."""
  out = []
  h = lambda t: [t] if hover and t is not None else []
  for op in scene:
    if op[0] == "group":
      out += leaves_of(op[4], hover, list(hovers) + h(op[1]),
                       list(classes) + op[2])
    elif op[0] == "box":
      x, y, w, hh = op[1]
      hv = list(hovers) + h(op[3])
      out.append((hv, list(classes) + op[5], "rect", (x, y, w, hh)))
      for line in op[2].split("\n"):
        out.append((hv, list(classes), "text", (x + w / 2, op[4], line)))
    elif op[0] == "label":
      for line in op[2].split("\n"):
        out.append((list(hovers) + h(op[5]), list(classes) + op[6], "text",
                    (None, op[3], line)))
    elif op[0] == "container":
      out.append((list(hovers), list(classes) + op[2], "rect", tuple(op[1])))
    elif op[0] == "line":
      out.append((list(hovers) + h(op[2]), list(classes) + op[3], "path",
                  tuple(tuple(p) for p in op[1])))
    else:
      out.append((list(hovers) + h(op[2]), list(classes) + op[3], "dot",
                  tuple(op[1])))
  return out


def label_ok(op, lines):
  """Is the text on the promised side of its point?"""
  x, y = op[1]
  size, name = op[3], op[4]
  xs = [l[0] for l in lines]
  ys = [l[1] for l in lines]
  styles = [l[4] for l in lines]
  anchor = {"LEFT": "end", "RIGHT": "start"}.get(name.split("_")[-1], "middle")
  if any(f"text-anchor: {anchor}" not in s for s in styles):
    return False
  if anchor == "end" and not all(v <= x for v in xs):
    return False
  if anchor == "start" and not all(v >= x for v in xs):
    return False
  if anchor == "middle" and not all(v == x for v in xs):
    return False
  if name.startswith("DOWN") and not all(v > y for v in ys):
    return False
  if name.startswith("UP") and not all(v < y for v in ys):
    return False
  if name in ("LEFT", "RIGHT") and abs(sum(ys) / len(ys) - y) > 1e-6:
    return False
  if name == "AROUND" and not min(ys) < y < max(ys) + size:
    return False
  gaps = [b - a for a, b in zip(ys, ys[1:])]
  return all(abs(g - size) < 1e-6 for g in gaps)


def check_scene(ctx, job, page):
  what = f"scene {job['scene']}"
  view, tops = read_page(ctx, what, page)
  drawn = shapes(tops)
  want = leaves_of(job["scene"], job["hover"])
  got = [
      (list(h), set(c), k,
       (d[0], d[2], d[3]) if k == "text"
       else tuple((p[1], p[2]) for p in d) if k == "path" else d)
      for h, c, k, d in drawn
  ]
  ctx.check(
      len(got) == len(want), "drawing",
      lambda: f"{what}: shows {got}, expected {want}",
  )
  for g, w in zip(got, want):
    wd = w[3]
    if w[2] == "text" and wd[0] is None:
      wd = (g[3][0],) + wd[1:]
    ok = (
        g[2] == w[2] and g[0] == w[0] and set(w[1]) <= g[1]
        and (g[1] & set(TAGS)) == set(w[1])
        and g[3] == wd
    )
    ctx.check(
        ok, "drawing", lambda: f"{what}: shows {g}, expected {w}"  # pylint: disable=cell-var-from-loop
    )
  # Text of a box is spread evenly around its centre; labels stay on their side.
  pos = 0
  texts = [d for _, _, k, d in drawn if k == "text"]

  def walk(scene):
    nonlocal pos
    for op in scene:
      if op[0] == "group":
        walk(op[4])
      elif op[0] in ("box", "label"):
        k = len(op[2].split("\n"))
        mine = texts[pos: pos + k]
        pos += k
        if op[0] == "box":
          ys = [m[1] for m in mine]
          centre = op[1][1] + op[1][3] / 2
          ctx.check(
              abs(sum(ys) / k - centre) < 1e-6
              and all(abs(b - a - op[4]) < 1e-6 for a, b in zip(ys, ys[1:])),
              "drawing", lambda: f"{what}: lines of {op} at {ys}",
          )
        else:
          ctx.check(
              label_ok(op, mine), "drawing",
              lambda: f"{what}: label {op} drawn as {mine}",
          )
  walk(job["scene"])
  check_view(ctx, what, view, drawn, job["pad"])
  ctx.mark("scene", len(want), len(job["scene"]))


# ----------------------------------------------------------------- diagrams


class Own(dag_annotator.StateDAGAnnotator):
  """Annotates a random diagram from its JSON description."""

  def __init__(self, d, edges):
    self.d = d
    self.number = {n: i for i, n in enumerate(names_of(d))}
    self.by_id = {id(e): i for i, e in enumerate(edges)}

  def annotate_state(self, state):
    s = self.d["states"][self.number[state]]
    return dag_annotator.StateAnnotation(
        bounds=rendering.BoundingBox(*s["box"]), display_text=s["text"],
        text_size=s["size"], hover_text=s["hover"],
        style_tags=tuple(s["tags"]),
    )

  def annotate_edge(self, edge):
    e = self.d["edges"][self.by_id[id(edge)]]
    return dag_annotator.ElbowEdgeAnnotation(
        primary_axis=dag_annotator.ElbowEdgeOrientation[e["axis"]],
        elbow_distance=e["elbow"], start_alignment=e["start"],
        text_alignment=e["at"], end_alignment=e["end"],
        display_text=e["text"], text_size=e["size"], hover_text=e["hover"],
        style_tags=tuple(e["tags"]), elbow_distance_adjust=e["elbow_by"],
        text_alignment_adjust=e["at_by"],
    )

  def extra_annotations(self):
    for x in self.d["extra"]:
      if x["text"] is None:
        yield dag_annotator.RegionAnnotation(
            rendering.BoundingBox(*x["box"]), tuple(x["tags"])
        )
      else:
        yield dag_annotator.TextAnnotation(
            rendering.BoundingBox(*x["box"]), x["text"], x["size"],
            x["hover"], tuple(x["tags"]),
        )


class Simple(simple_dag_annotator.SimpleDAGAnnotator):

  def __init__(self, d):
    self.d = d
    self.number = {n: i for i, n in enumerate(names_of(d))}

  def bounds_for_state(self, state):
    return rendering.BoundingBox(
        *self.d["states"][self.number[state]]["box"])


def names_of(d):
  n = d["spec"]["n"]
  return [str((i + 1) % n) if d["strings"][i] else i for i in range(n)]


def make_diagram(d):
  """The diagram with infos (dicts as the notebooks use them)."""
  spec = d["spec"]
  names = names_of(d)
  dag = gated_state_dag.partial_state_dag_starting_from(names[0])
  for i, (s, t, c, k, v) in enumerate(spec["edges"]):
    info = None
    if d["colours"][i] is not None:
      info = {"color": d["colours"][i], "description": TEXTS[i % len(TEXTS)]}
    elif d["info"][i] == 1:
      info = {"description": f"e{i}"}
    elif d["info"][i] == 2:
      info = TEXTS[i % len(TEXTS)]
    gated_state_dag.partial_state_dag_add_edge(
        dag,
        gated_state_dag.Edge(
            source=names[s], dest=names[t],
            cost=dagmodel.INF if c == "inf" else float(c),
            required_assignment=(
                None if k is None
                else gated_state_dag.SharedVariableAssignment(k, v)
            ),
            info=info,
        ),
    )
  return gated_state_dag.partial_state_dag_finish(dag, names[-1])


def emphasised(job, dag):
  if job["emphasis"] is None:
    return None
  if job["emphasis"] == "path":
    try:
      pd, conv = packed_dags.convert_dag_to_packed(
          gated_state_dag.prune_to_reachable(dag)
      )
      path, _ = packed_dags.constrained_best_path(pd, conv, {})
    except sched_sim.INJECTED:
      raise
    except Exception:  # pylint: disable=broad-except
      return None  # no path to emphasise
    return list(path)
  foreign = gated_state_dag.Edge("elsewhere", 0, 0.5, None)
  return [
      dag.edges[i] if i >= 0 else
      foreign if i == -1 or not dag.edges
      else dag.edges[0]._replace(cost=dag.edges[0].cost + 1234.0)
      for i in job["emphasis"]
  ]


def feasible(dag):
  fwd, bwd = {dag.initial_state}, {dag.final_state}
  for e in dag.edges:
    if e.cost < math.inf and e.source in fwd:
      fwd.add(e.dest)
  for e in reversed(list(dag.edges)):
    if e.cost < math.inf and e.dest in bwd:
      bwd.add(e.source)
  return fwd & bwd


def draw_diagram(dag, annotator, job, edges):
  """('record', items) or ('page', html, padded by)."""
  how = job.get("how") or ("notebook" if job["notebook"] else "svg")
  if job.get("lazy") and edges:
    edges = iter(edges)
  if how == "record":
    r = Recorder()
    dag_annotator.render_dag(dag, annotator, r, emphasized_edges=edges)
    return "record", r.out, len(r.stack)
  if how == "svg":
    r = svg_renderer.SVGRenderer(with_hover_text=job["hover"])
    dag_annotator.render_dag(dag, annotator, r, emphasized_edges=edges)
    return "page", r.to_html(padding=3.0), 3.0
  before = len(display.shown())
  render_in_notebook.render_dag_in_notebook(
      dag, annotator, hover_for_info=job["hover"], emphasized_edges=edges,
      pan_and_zoom=job["hover"],
  )
  items = display.shown()[before:]
  pages = [i for i in items if isinstance(i, display.HTML)]
  return "page", pages[0].data if len(pages) == 1 else "", 10.0


def group_drawing(ctx, what, drawn_as):
  """-> (boxes, containers, edges), each edge a dict, from either renderer."""
  how, out, pad = drawn_as
  boxes, containers, edges = [], [], []
  if how == "record":
    grouped = collections.OrderedDict()
    for stack, item in out:
      if stack:
        grouped.setdefault(stack[0][0], (stack[0], []))[1].append(item)
      elif item[0] == "box":
        boxes.append({
            "box": (item[1].left, item[1].top, item[1].width, item[1].height),
            "text": item[2], "hover": item[3], "size": item[4],
            "tags": set(item[5])})
      elif item[0] == "container":
        containers.append({
            "box": (item[1].left, item[1].top, item[1].width, item[1].height),
            "tags": set(item[2])})
      else:
        ctx.check(False, "drawing", f"{what}: loose {item}")
    for (_, hover, tags), items in grouped.values():
      e = {"hover": hover, "tags": set(tags), "points": [], "dots": [],
           "texts": [], "sizes": []}
      for i in items:
        if i[0] == "line":
          e["points"].append([(p.x, p.y) for p in i[1]])
        elif i[0] == "dot":
          e["dots"].append((i[1].x, i[1].y))
        elif i[0] == "label":
          e["texts"].append(i[2])
          e["sizes"].append(i[3])
          e["at"] = (i[1].x, i[1].y)
      edges.append(e)
    return boxes, containers, edges
  view, tops = read_page(ctx, what, out)
  drawn = shapes(tops)
  check_view(ctx, what, view, drawn, pad)
  check_looks(ctx, what, out, drawn)
  for t in tops:
    for g in t["kids"]:
      if g["tag"] != "g":
        continue
      here = shapes([g])
      rects = [s for s in here if s[2] == "rect"]
      texts = [s for s in here if s[2] == "text"]
      if rects:
        ctx.check(len(rects) == 1, "drawing", lambda: f"{what}: {here}")  # pylint: disable=cell-var-from-loop
        entry = {"box": rects[0][3], "tags": set(rects[0][1]),
                 "hover": rects[0][0][0] if rects[0][0] else None,
                 "text": "\n".join(s[3][3] for s in texts),
                 "size": texts[0][3][2] if texts else None}
        (boxes if texts else containers).append(entry)
      else:
        tags = set((g["attrs"].get("class") or "").split())
        title = [k["text"] for k in g["kids"] if k["tag"] == "title"]
        edges.append({
            "hover": title[0] if title else None, "tags": tags,
            "points": [[(p[1], p[2]) for p in s[3]] for s in here
                       if s[2] == "path"],
            "dots": [s[3] for s in here if s[2] == "dot"],
            "texts": ["\n".join(s[3][3] for s in texts)] if texts else [],
            "sizes": sorted({s[3][2] for s in texts}),
        })
  return boxes, containers, edges


def expected_line(src, dst, e):
  """Corner points and text anchor of an elbow edge, from its documentation."""
  if e["axis"] == "HORIZONTAL":
    a = (src[0] + src[2], src[1] + e["start"] * src[3])
    b = (dst[0], dst[1] + e["end"] * dst[3])
    x = a[0] + e["elbow"] * (b[0] - a[0]) + e["elbow_by"]
    points = [a, (x, a[1]), (x, b[1]), b]
    dot = (x, a[1] + e["at"] * (b[1] - a[1]))
    text = (dot[0], dot[1] + e["at_by"])
    short = abs(b[1] - a[1]) <= e["size"]
  else:
    a = (src[0] + e["start"] * src[2], src[1] + src[3])
    b = (dst[0] + e["end"] * dst[2], dst[1])
    y = a[1] + e["elbow"] * (b[1] - a[1]) + e["elbow_by"]
    points = [a, (a[0], y), (b[0], y), b]
    dot = (a[0] + e["at"] * (b[0] - a[0]), y)
    text = (dot[0] + e["at_by"], dot[1])
    short = False
  return points, dot, text, short


def near(p, q):
  return abs(p[0] - q[0]) < 1e-6 and abs(p[1] - q[1]) < 1e-6


def match_multiset(ctx, what, got, want, key):
  g = collections.Counter(key(x) for x in got)
  w = collections.Counter(key(x) for x in want)
  ctx.check(
      g == w, "drawing",
      lambda: f"{what}: drawn but not expected {list((g - w).elements())},"
      f" missing {list((w - g).elements())}",
  )


def edge_key(e):
  a = e.required_assignment
  return (e.source, e.dest, float(e.cost),
          None if a is None else (a.key, a.value))


def expected_tags(dag, edges):
  """Per edge: highlight tags and reachability."""
  live = feasible(dag)
  keys = None
  if edges:
    keys = {edge_key(e) for e in edges}
  out = []
  for e in dag.edges:
    tags = set()
    if keys is not None:
      tags.add("highlight" if edge_key(e) in keys else "lowlight")
    tags.add("reachable-edge" if e.source in live and e.dest in live
             else "unreachable-edge")
    out.append(tags)
  return live, out


STATUS = {"highlight", "lowlight", "reachable-edge", "unreachable-edge",
          "reachable-state", "unreachable-state"}


def check_own(ctx, d, job, dag, edges, drawn):
  how = drawn[0]
  what = f"diagram {d['spec']['edges']} emphasis {job['emphasis']} ({how})"
  boxes, containers, lines = group_drawing(ctx, what, drawn)
  hov = (lambda t: t) if how == "record" or job["hover"] else (lambda t: None)
  live, tags = expected_tags(dag, edges)
  number = {n: i for i, n in enumerate(names_of(d))}
  states = sorted({e.source for e in dag.edges} | {e.dest for e in dag.edges},
                  key=number.get)
  want = []
  for s in states:
    a = d["states"][number[s]]
    want.append({
        "box": tuple(a["box"]), "text": a["text"], "hover": hov(a["hover"]),
        "size": a["size"],
        "tags": set(a["tags"])
        | {"reachable-state" if s in live else "unreachable-state"}})
  for x in d["extra"]:
    if x["text"] is not None:
      want.append({"box": tuple(x["box"]), "text": x["text"],
                   "hover": hov(x["hover"]), "size": x["size"],
                   "tags": set(x["tags"])})
  def box_key(b):
    return (tuple(round(v, 6) for v in b["box"]), b["text"], b["hover"],
            b["size"], tuple(sorted(b["tags"] & (STATUS | set(TAGS)))))
  match_multiset(ctx, f"{what}: boxes", boxes, want, box_key)
  match_multiset(
      ctx, f"{what}: containers", containers,
      [{"box": tuple(x["box"]), "tags": set(x["tags"])}
       for x in d["extra"] if x["text"] is None],
      lambda b: (tuple(round(v, 6) for v in b["box"]),
                 tuple(sorted(b["tags"] & set(TAGS)))),
  )
  ctx.check(
      len(lines) == len(dag.edges), "drawing",
      lambda: f"{what}: {len(lines)} edges drawn of {len(dag.edges)}",
  )
  for e, spec, t, got in zip(dag.edges, d["edges"], tags, lines):
    name = f"{what}: edge {e}"
    points, dot, text, short = expected_line(
        d["states"][number[e.source]]["box"],
        d["states"][number[e.dest]]["box"], spec
    )
    ctx.check(
        len(got["points"]) == 1 and len(got["points"][0]) == 4
        and all(near(p, q) for p, q in zip(got["points"][0], points)),
        "drawing", lambda: f"{name}: line {got['points']}, expected {points}",  # pylint: disable=cell-var-from-loop
    )
    ctx.check(
        got["texts"] == [spec["text"]] and got["sizes"] == [spec["size"]]
        and got["hover"] == hov(spec["hover"]),
        "drawing", lambda: f"{name}: labelled {got}, expected {spec}",  # pylint: disable=cell-var-from-loop
    )
    ctx.check(
        got["tags"] & (STATUS | set(TAGS)) == t | set(spec["tags"]),
        "drawing", lambda: f"{name}: tags {got['tags']}, expected {t}",  # pylint: disable=cell-var-from-loop
    )
    if not short:
      ctx.check(
          len(got["dots"]) == 1 and near(got["dots"][0], dot), "drawing",
          lambda: f"{name}: dot at {got['dots']}, expected {dot}",  # pylint: disable=cell-var-from-loop
      )
      if "at" in got:
        ctx.check(
            near(got["at"], text), "drawing",
            lambda: f"{name}: text at {got['at']}, expected {text}",  # pylint: disable=cell-var-from-loop
        )
  ctx.mark("own", len(states), len(dag.edges),
           None if edges is None else len(list(edges)))


def on_border(p, box):
  x, y, w, h = box
  eps = 1e-6
  inside = x - eps <= p[0] <= x + w + eps and y - eps <= p[1] <= y + h + eps
  return inside and (
      abs(p[0] - x) < eps or abs(p[0] - x - w) < eps
      or abs(p[1] - y) < eps or abs(p[1] - y - h) < eps
  )


def check_general(ctx, what, job, dag, edges, drawn, texts, summary):
  """Any annotator: one box per state, one connected line per edge."""
  how = drawn[0]
  boxes, _, lines = group_drawing(ctx, what, drawn)
  shows = how == "record" or job["hover"]
  live, tags = expected_tags(dag, edges)
  states = list(dict.fromkeys(
      s for e in dag.edges for s in (e.source, e.dest)))
  drawn_states = [
      b for b in boxes
      if b["tags"] & {"reachable-state", "unreachable-state"}
  ]
  ctx.check(
      len(drawn_states) == len(states), "drawing",
      lambda: f"{what}: {len(drawn_states)} boxes for {len(states)} states",
  )
  box_of = {}
  for s, b in zip(states, drawn_states):
    box_of[s] = b["box"]
    if shows:
      ctx.check(
          b["hover"] == repr(s), "drawing",
          lambda: f"{what}: state {s!r} drawn as {b}",  # pylint: disable=cell-var-from-loop
      )
    want = "reachable-state" if s in live else "unreachable-state"
    ctx.check(
        b["tags"] & STATUS == {want}, "drawing",
        lambda: f"{what}: state {s!r} is tagged {b['tags']}, is {want}",  # pylint: disable=cell-var-from-loop
    )
  if texts is not None:
    match_multiset(
        ctx, f"{what}: tokens",
        [b["text"] for b in boxes if "text_token" in b["tags"]], texts,
        lambda t: t,
    )
    todo = sorted(box_of.values())
    for i, a in enumerate(todo):
      for b in todo[i + 1:]:
        if b[0] >= a[0] + a[2]:
          break
        ctx.check(
            b[1] >= a[1] + a[3] or b[1] + b[3] <= a[1], "drawing",
            lambda: f"{what}: boxes {a} and {b} of two states overlap",  # pylint: disable=cell-var-from-loop
        )
  ctx.check(
      len(lines) == len(dag.edges), "drawing",
      lambda: f"{what}: {len(lines)} edges drawn of {len(dag.edges)}",
  )
  for e, t, got in zip(dag.edges, tags, lines):
    name = f"{what}: edge {e}"
    ctx.check(
        len(got["points"]) == 1
        and on_border(got["points"][0][0], box_of[e.source])
        and on_border(got["points"][0][-1], box_of[e.dest]),
        "drawing",
        lambda: f"{name}: line {got['points']} between {box_of[e.source]} and"  # pylint: disable=cell-var-from-loop
        f" {box_of[e.dest]}",  # pylint: disable=cell-var-from-loop
    )
    ctx.check(
        got["texts"] == [summary(e)] and (
            not shows or got["hover"] == repr(e)),
        "drawing",
        lambda: f"{name}: labelled {got['texts']} {got['hover']}, expected"  # pylint: disable=cell-var-from-loop
        f" {summary(e)!r}",  # pylint: disable=cell-var-from-loop
    )
    ctx.check(
        got["tags"] & STATUS == t, "drawing",
        lambda: f"{name}: tags {got['tags']}, expected {t}",  # pylint: disable=cell-var-from-loop
    )
  ctx.mark(what[:12], len(states), len(dag.edges),
           None if edges is None else len(edges))


def simple_summary(e):
  text = f"{e.cost}"
  if e.required_assignment:
    text += f" if {e.required_assignment.key} = {e.required_assignment.value}"
  return text


def tree_summary(e):
  text = f"{e.cost}"
  a = e.required_assignment
  if a:
    text += f"\n{a.key.category.shortname()}: {a.value.shortname()}"
  return text


# -------------------------------------------------------- suggestion diagrams

PARAMS = edit_dags.TrustRegionUtilityParameters(
    1.0, 1.0, 0.75, 0.25, 0.0, 0.75, 5.0, 2.5
)


def build_pair(p):
  proto = packed.pack(trees.to_nodes(p["prototype"], sn))
  target = packed.pack(trees.to_nodes(p["target"], sn))
  scope = (gated_state_dag.adding_edge_tracebacks() if p["traced"]
           else contextlib.nullcontext())
  with scope:
    if p["kind"] == "edit":
      dag, data = edit_dags.make_edit_dag_builder(with_numba=False)(
          proto, target, PARAMS
      )
      ann = edit_dags.EditDagGraphAnnotator(
          proto, target, data, edit_dags.EditDagRenderConfig()
      )
    elif p["kind"] == "rules":
      dag = constraint_dags.make_constraint_dag_builder(with_numba=False)(proto)
      ann = constraint_dags.ConstraintDagGraphAnnotator(
          proto, constraint_dags.ConstraintDagRenderConfig()
      )
    else:
      service = selection.Service(
          {"A": [1.0, 0.25], "B": [2.0, 0.5], "numba": False, "rewrite": False,
           "table": 8}
      )
      dag = service.select(prototype=proto, target=target)
      ann = part_selection_dags.PartSelectionGraphAnnotator(
          proto, target, part_selection_dags.PartSelectionDagRenderConfig()
      )
  if p["prune"]:
    dag = gated_state_dag.prune_to_reachable(dag)
  return dag, ann


def texts_of(tree):
  out = []
  for n in tree:
    if n[0] == "G":
      out += texts_of(n[2])
    elif n[0] == "T":
      out.append(repr(n[2])[1:-1])
  return out


def check_tree(ctx, p, job, dag, edges, drawn):
  what = f"{p['kind']} {p['prototype']} vs {p['target']}"
  want = texts_of(p["prototype"])
  if p["kind"] != "rules":
    want += texts_of(p["target"])
  check_general(ctx, what, job, dag, edges, drawn, want, tree_summary)


# -------------------------------------------------------------------- scopes

INFOS = {
    "none": None, "dict": {"a": 1}, "empty": {}, "other": ("x", 2),
}


def run_scopes(ctx, job, shared):
  """Edges built inside a debugging scope carry where they were added.

  The setting is one for the process: another caller's scope may add to edges
  built outside, never take away from those inside.
  """
  dag = gated_state_dag.partial_state_dag_starting_from(0)
  expect = []

  def go(ops, depth):
    for op in ops:
      if op[0] == "scope":
        try:
          with gated_state_dag.adding_edge_tracebacks():
            go(op[2], depth + 1)
            if op[1]:
              raise Left()
        except Left:
          pass
      else:
        i = len(expect)
        info = INFOS[op[1]]
        edge = gated_state_dag.Edge(i, i + 1, 0.5, None, info)
        gated_state_dag.partial_state_dag_add_edge(dag, edge)
        expect.append((edge, depth))
  go(job["scopes"], 0)
  what = f"scopes {job['scopes']}"
  for (want, depth), got in zip(expect, dag.edges):
    traced = isinstance(got.info, dict) and "traceback" in got.info
    ctx.check(
        traced if depth > 0 else (shared or not traced), "debug-scope",
        lambda: f"{what}: edge {got.source} at depth {depth} carries"  # pylint: disable=cell-var-from-loop
        f" {got.info!r}",  # pylint: disable=cell-var-from-loop
    )
    if traced:
      ctx.probes["traced-edges"] += 1
      ctx.check(
          getattr(got.info["traceback"], "lineno", None) is not None,
          "debug-scope", lambda: f"{what}: traced to {got.info}",  # pylint: disable=cell-var-from-loop
      )
    else:
      ctx.check(
          got == want, "debug-scope",
          lambda: f"{what}: edge {want} became {got}",  # pylint: disable=cell-var-from-loop
      )
    back = gated_state_dag.strip_traceback_from_edge(got)
    ctx.check(
        back == want, "debug-scope",
        lambda: f"{what}: {got} strips to {back}, expected {want}",  # pylint: disable=cell-var-from-loop
    )
  ctx.check(
      all(INFOS[k] == v for k, v in
          [("none", None), ("dict", {"a": 1}), ("empty", {})]),
      "input-changed", lambda: f"{what}: infos became {INFOS}",
  )
  ctx.mark("scopes", len(expect), max(d for _, d in expect) if expect else 0)
  return None


# ----------------------------------------------------------------------- run


def uses_exception(ops):
  for op in ops:
    if op[0] == "group" and (op[3] or uses_exception(op[4])):
      return True
    if op[0] == "scope" and (op[1] or uses_exception(op[2])):
      return True
  return False


def run(case, ctx):
  dags = [make_diagram(d) for d in case["diagrams"]]
  owns = [Own(d, dag.edges) for d, dag in zip(case["diagrams"], dags)]
  simples = [Simple(d) for d in case["diagrams"]]
  pairs = [build_pair(p) for p in case["pairs"]]
  before = [repr(d) for d in dags] + [repr(d) for d, _ in pairs]

  def request(job):
    if job["op"] == "scene":
      r = svg_renderer.SVGRenderer(
          with_default_styles=job["styles"], with_hover_text=job["hover"]
      )
      draw(r, job["scene"])
      return r.to_html(padding=job["pad"])
    if job["op"] == "scopes":
      return run_scopes(ctx, job, case["threads"] > 1)
    if job["op"] == "diagram":
      dag = dags[job["which"]]
      ann = (owns if job["style"] == "own" else simples)[job["which"]]
    else:
      dag, ann = pairs[job["which"]]
    edges = emphasised(job, dag)
    drawn = draw_diagram(dag, ann, job, edges)
    again = draw_diagram(dag, ann, job, edges) if job.get("twice") else None
    return edges, drawn, again

  def check(job, out):
    if job["op"] == "scene":
      check_scene(ctx, job, out)
    elif job["op"] == "diagram":
      d, dag = case["diagrams"][job["which"]], dags[job["which"]]
      if job["style"] == "own":
        check_own(ctx, d, job, dag, out[0], out[1])
      else:
        what = f"simple {d['spec']['edges']} emphasis {job['emphasis']}"
        check_general(ctx, what, job, dag, out[0], out[1], None, simple_summary)
    elif job["op"] == "tree":
      p, (dag, _) = case["pairs"][job["which"]], pairs[job["which"]]
      check_tree(ctx, p, job, dag, out[0], out[1])
    if job.get("twice") and out[1][0] == "page":
      ctx.check(
          out[1] == out[2], "redrawn",
          lambda: f"drawing the same diagram again gives {out[2][1]},"
          f" first time {out[1][1]}",
      )
    ctx.log(job["op"], str(len(repr(out))))

  threads = [[] for _ in range(case["threads"])]
  for job in case["jobs"]:
    threads[job["thread"] % case["threads"]].append({
        "name": f"drawing {job['op']}", "op": job["op"],
        "fn": lambda job=job: request(job),
        "check": lambda out, job=job: check(job, out),
        "fault": job["fault"],
    })
    if job["fault"] or uses_exception(
        job.get("scene", []) + job.get("scopes", [])):
      ctx.nontrivial = True
  if len(case["jobs"]) > 1:
    ctx.nontrivial = True
  sim = common.run_tasks(ctx, threads, case["schedule"])
  if any(j["op"] == "scopes" for j in case["jobs"]):
    run_scopes(ctx, {"scopes": [["edge", "none"], ["edge", "dict"]]}, False)
  after = [repr(d) for d in dags] + [repr(d) for d, _ in pairs]
  ctx.check(before == after, "input-changed",
            lambda: f"drawing changed a diagram: {before} became {after}")
  ctx.log("trace", sim.trace[:50], len(sim.trace))
