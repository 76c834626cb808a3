"""Creates and confirms planted bugs.

usage: seed.py BUGFILE...   (each a Python file defining ID, PROPERTY, EDITS,
                             NEEDS, BREAKS, DEMO)
EDITS is a list of (file, old, new). The patch is made in a scratch copy of
/repo; it is kept only if the repository's tests pass with it and the demo tells
the two trees apart. Nothing in /repo is touched.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **kw):
  return subprocess.run(cmd, capture_output=True, text=True, check=False, **kw)


def main():
  for path in sys.argv[1:]:
    bug = runpy.run_path(path)
    bug_id = bug["ID"]
    work = tempfile.mkdtemp(prefix="seed-")
    try:
      copy = os.path.join(work, "repo")
      sh(["git", "clone", "-q", REPO, copy])
      for name, old, new in bug["EDITS"]:
        full = os.path.join(copy, "r_u_sure", name)
        with open(full) as f:
          text = f.read()
        if text.count(old) != 1:
          sys.exit(f"{bug_id}: {name}: {text.count(old)} matches of {old!r}")
        with open(full, "w") as f:
          f.write(text.replace(old, new))
      diff = sh(["git", "-C", copy, "diff"]).stdout
      dest = os.path.join(HERE, "seeded", bug_id)
      shutil.rmtree(dest, ignore_errors=True)
      os.makedirs(dest)
      with open(os.path.join(dest, "patch.diff"), "w") as f:
        f.write(diff)
      with open(os.path.join(dest, "demo.py"), "w") as f:
        f.write("import os, sys\n"
                "sys.dont_write_bytecode = True\n"
                "sys.path[:0] = [os.getcwd(), os.path.join("
                "os.path.dirname(os.path.abspath(__file__)), 'stub')]\n"
                + bug["DEMO"].lstrip("\n"))
      with open(os.path.join(dest, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
      shutil.copytree(os.path.join(HERE, "sim", "shims"),
                      os.path.join(dest, "stub"),
                      ignore=shutil.ignore_patterns("__pycache__"))
      shutil.copy(os.path.join(HERE, "tools", "demolib.py"),
                  os.path.join(dest, "stub", "demolib.py"))
      with open(os.path.join(dest, "meta.json"), "w") as f:
        json.dump({"property": bug["PROPERTY"], "needs": bug["NEEDS"],
                   "what_it_breaks": bug["BREAKS"]}, f, indent=1)
      demo = ["bash", os.path.join(dest, "demo.sh")]
      good = sh(demo, cwd=REPO)
      bad = sh(demo, cwd=copy)
      env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
      t = sh([
          "/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
          "no:cacheprovider", "--ignore=r_u_sure/decision_diagrams",
          "--ignore=r_u_sure/numba_helpers", "--ignore=r_u_sure/wrappers",
          "--ignore=r_u_sure/tree_structure/token_prob_align_test.py",
          "r_u_sure"], cwd=copy, env=env)
      last = [l for l in t.stdout.splitlines() if "passed" in l][-1:]
      check = sh(["/opt/venv/bin/python", os.path.join(HERE, "sim", "run.py"),
                  "--property", bug["PROPERTY"]],
                 env=dict(env, VERIF_REPO=copy))
      caught = check.returncode == 1 and "VIOLATION" in check.stdout
      print(f"{bug_id}: clean demo {good.returncode}, patched demo"
            f" {bad.returncode}, tests {last},"
            f" caught={caught} ({check.returncode})")
      if good.returncode:
        print(good.stdout[-500:], good.stderr[-1500:])
      if not bad.returncode:
        print("   demo does not fail:", bad.stdout[-500:])
      for line in check.stdout.splitlines():
        if line.startswith(("seed=", "minimised", "replayed", "VIOL")):
          print("   ", line[:260])
    finally:
      shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
  main()
