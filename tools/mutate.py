"""Random source mutants of the repository, to find what the checks miss.

usage: mutate.py FILE-GLOB COUNT SEED [--parallel N]

Each mutant is made in a scratch copy under /tmp, compiled, put through the
repository's runnable tests, and then through the checks (reduced counts) of the
properties anchored in that file. Survivors are printed with their diff for
review. Nothing in /repo is touched.
"""

import ast
import copy
import fnmatch
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

PLAN = [
    ("decision_diagrams/consistent_path_dual_solver.py",
     "C01:1500 C02:1500 C03:1500 C05:400 C07:800 C04:1500 C08:12"),
    ("decision_diagrams/packed_dags.py",
     "C04:3000 C06:1000 C02:1000 C03:1000 C05:400 C07:800 C16:300"),
    ("decision_diagrams/gated_state_dag.py",
     "C06:2500 C16:800 C17:200 C02:300"),
    ("edit_distance_utility/edit_dags.py", "C17:700 C11:40 C12:40 C16:500"),
    ("edit_distance_utility/constraint_dags.py", "C17:700 C11:60 C12:60 C14:60 C16:500"),
    ("edit_distance_utility/part_selection_dags.py", "C13:700 C14:60 C16:500"),
    ("edit_distance_utility/region_decisions.py", "C17:400 C13:300 C11:40 C12:40 C16:300"),
    ("parsing/pseudo_parser/utilities.py", "C19:2500 C09:1500"),
    ("parsing/*", "C09:1500 C19:1500 C13:200 C11:30"),
    ("rendering/*", "C16:1500 C11:30 C08:6"),
    ("tree_structure/token_prob_align.py", "C15:2000 C14:40"),
    ("tree_structure/packed_sequence_nodes.py", "C10:1500 C17:200 C13:200"),
    ("tree_structure/*", "C10:2000 C13:200 C11:30 C12:30"),
    ("wrappers/call_sequence_wrapper.py", "C13:500 C14:100"),
    ("wrappers/prefix_truncation_wrapper.py", "C12:80 C14:100 C11:20"),
    ("wrappers/uncertainty_regions_wrapper.py", "C11:80 C14:100 C12:20"),
    ("wrappers/edit_distance_wrapper_base.py", "C11:60 C12:60 C17:300 C14:60 C18:60"),
    ("wrappers/wrapper_base.py", "C11:60 C12:60 C13:200 C14:60 C17:200"),
    ("wrappers/*", "C11:50 C12:50 C13:200 C14:60 C09:200 C08:8"),
]

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Mult}


def sites(tree):
  """Yields (node, description, replacement source or None to delete)."""
  skip = set()
  for node in ast.walk(tree):
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
      for a in ast.walk(node.args):
        skip.add(id(a))
      if node.returns is not None:
        for a in ast.walk(node.returns):
          skip.add(id(a))
      for d in node.decorator_list:
        for a in ast.walk(d):
          skip.add(id(a))
    if isinstance(node, ast.AnnAssign):
      for a in ast.walk(node.annotation):
        skip.add(id(a))
    if isinstance(node, (ast.Assert, ast.Raise)):
      for a in ast.walk(node):
        skip.add(id(a))
    if isinstance(node, ast.JoinedStr):
      for a in ast.walk(node):
        skip.add(id(a))
  for fn in ast.walk(tree):
    if not isinstance(fn, ast.FunctionDef):
      continue
    for node in ast.walk(fn):
      if id(node) in skip or not hasattr(node, "lineno"):
        continue
      new = copy.deepcopy(node)
      if isinstance(node, ast.Compare) and len(node.ops) == 1:
        new.ops = [CMP[type(node.ops[0])]()]
        yield node, "compare", ast.unparse(new)
      elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        new.op = BIN[type(node.op)]()
        yield node, "binop", "(" + ast.unparse(new) + ")"
      elif isinstance(node, ast.BoolOp):
        new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield node, "boolop", "(" + ast.unparse(new) + ")"
        less = node.values[:-1]
        yield node, "boolop-drop", "(" + ast.unparse(
            less[0] if len(less) == 1 else ast.BoolOp(node.op, less)) + ")"
      elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield node, "not", "(" + ast.unparse(node.operand) + ")"
      elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
        yield node, "bool", str(not node.value)
      elif isinstance(node, ast.Constant) and isinstance(node.value, int):
        yield node, "int", str(node.value + 1)
        if node.value:
          yield node, "int", str(node.value - 1)
      elif isinstance(node, ast.Constant) and isinstance(node.value, float):
        yield node, "float", repr(node.value + 1.0)
      elif isinstance(node, (ast.If, ast.While)):
        yield node.test, "negate", "(not (" + ast.unparse(node.test) + "))"
        yield node.test, "never", "False"
        if isinstance(node, ast.If):
          yield node.test, "always", "True"
      elif isinstance(node, ast.IfExp):
        yield node, "ifexp", "(" + ast.unparse(node.body) + ")"
        yield node, "ifexp", "(" + ast.unparse(node.orelse) + ")"
      elif isinstance(node, (ast.AugAssign,)):
        yield node, "delete", "pass"
      elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        yield node, "delete", "pass"
      elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
        swap = {"min": "max", "max": "min", "any": "all", "all": "any"}
        if node.func.id in swap:
          new.func.id = swap[node.func.id]
          yield node, "minmax", ast.unparse(new)
      elif isinstance(node, ast.Break):
        yield node, "break", "pass"
      elif isinstance(node, ast.Continue):
        yield node, "continue", "pass"
      elif isinstance(node, ast.Assign) and isinstance(
          node.targets[0], (ast.Subscript, ast.Attribute)):
        yield node, "delete", "pass"


def replace(source, node, text):
  lines = source.encode().split(b"\n")
  a, b = node.lineno - 1, node.end_lineno - 1
  head = lines[a][:node.col_offset]
  tail = lines[b][node.end_col_offset:]
  lines[a:b + 1] = [head + text.encode() + tail]
  return b"\n".join(lines).decode()


def plan_for(name):
  for pattern, checks in PLAN:
    if fnmatch.fnmatch(name, pattern):
      return checks.split()
  return []


def one(job):
  k, name, kind, line, text = job
  work = f"/tmp/mut/m{k}"
  shutil.rmtree(work, ignore_errors=True)
  try:
    shutil.copytree(os.path.join(REPO, "r_u_sure"),
                    os.path.join(work, "r_u_sure"),
                    ignore=shutil.ignore_patterns("__pycache__"))
    path = os.path.join(work, "r_u_sure", name)
    with open(path) as f:
      old = f.read()
    with open(path, "w") as f:
      f.write(text)
    diff = subprocess.run(
        ["diff", "-u", os.path.join(REPO, "r_u_sure", name), path],
        capture_output=True, text=True, check=False).stdout
    diff = "\n".join(diff.splitlines()[2:])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
      t = subprocess.run(
          ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
           "no:cacheprovider", "--ignore=r_u_sure/decision_diagrams",
           "--ignore=r_u_sure/numba_helpers", "--ignore=r_u_sure/wrappers",
           "--ignore=r_u_sure/tree_structure/token_prob_align_test.py",
           "--timeout=60", "r_u_sure"], cwd=work, env=env,
          capture_output=True, text=True, check=False)
      if t.returncode:
        return k, name, kind, line, "TESTS", "", diff
      env["VERIF_REPO"] = work
      h = subprocess.run(
          ["/opt/venv/bin/python", os.path.join(HERE, "tools", "hunt.py")]
          + plan_for(name), env=env, capture_output=True, text=True,
          check=False, timeout=900)
    except subprocess.TimeoutExpired:
      return k, name, kind, line, "TIMEOUT", "", diff
    status = {0: "SURVIVED", 1: "caught"}.get(h.returncode, "ERROR")
    out = (h.stdout.strip().splitlines() or [""])[-1]
    if status == "ERROR":
      out += h.stderr[-400:]
    return k, name, kind, line, status, out, diff
  finally:
    shutil.rmtree(work, ignore_errors=True)


def main():
  pattern, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
  parallel = 8
  if "--parallel" in sys.argv:
    parallel = int(sys.argv[sys.argv.index("--parallel") + 1])
  rng = random.Random(seed)
  pool_ = []
  base = os.path.join(REPO, "r_u_sure")
  for root, _, files in os.walk(base):
    for f in sorted(files):
      name = os.path.relpath(os.path.join(root, f), base)
      if not f.endswith(".py") or f.endswith(("_test.py", "_test_lib.py",
                                              "_test_util.py")):
        continue
      if not fnmatch.fnmatch(name, pattern) or not plan_for(name):
        continue
      with open(os.path.join(base, name)) as g:
        source = g.read()
      # Layout details of drawings have no right or wrong.
      limit = source.find("# Rendering annotations")
      limit = source.count("\n", 0, limit) if limit >= 0 else 1 << 30
      for node, kind, text in sites(ast.parse(source)):
        if node.lineno > limit:
          continue
        pool_.append((name, kind, node.lineno, replace(source, node, text)))
  pool_.sort(key=lambda s: (s[0], s[2], s[1], hash(s[3])))
  rng.shuffle(pool_)
  print(f"{len(pool_)} sites", flush=True)
  jobs = [(f"{seed}-{i}",) + s for i, s in enumerate(pool_[:count])]
  tally = {}
  with multiprocessing.Pool(parallel) as pool:
    for k, name, kind, line, status, out, diff in pool.imap_unordered(one, jobs):
      tally[status] = tally.get(status, 0) + 1
      print(f"{k} {status} {name}:{line} {kind} {out[:160]}", flush=True)
      if status not in ("caught", "TESTS"):
        print(diff, flush=True)
  print(tally)


if __name__ == "__main__":
  if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
  os.makedirs("/tmp/mut", exist_ok=True)
  main()
