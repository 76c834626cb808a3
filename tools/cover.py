"""cover.py PROP[:COUNT]... : lines of the repository no case runs.

Development aid: runs the cases of the properties in this process with line
monitoring and lists the lines of functions that never ran.
"""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
  os.environ.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
  os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(HERE, "sim"))
# pylint: disable=wrong-import-position
import collections
import glob
import json

HIT = collections.defaultdict(set)
MON = sys.monitoring
ROOT = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "r_u_sure")


def on_line(code, line):
  if code.co_filename.startswith(ROOT):
    HIT[code.co_filename].add(line)
  return MON.DISABLE


MON.use_tool_id(3, "cover")
MON.register_callback(3, MON.events.LINE, on_line)
MON.set_events(3, MON.events.LINE)

import env  # pylint: disable=unused-import
import core


def lines_of(code):
  out = {l for _, _, l in code.co_lines() if l}
  for c in code.co_consts:
    if hasattr(c, "co_lines"):
      out |= lines_of(c)
  return out


def main():
  for arg in sys.argv[1:]:
    prop, _, count = arg.partition(":")
    module = core.load(prop)
    for index in range(int(count or 100)):
      case = json.loads(json.dumps(
          module.gen(core.case_rng(prop, 1, index), "quick", index),
          sort_keys=True))
      core.execute(module, case)
  for name in sorted(glob.glob(ROOT + "/**/*.py", recursive=True)):
    if name.endswith(("_test.py", "__init__.py", "test_util.py")):
      continue
    with open(name) as f:
      text = f.read()
    want = lines_of(compile(text, name, "exec"))
    missed = sorted(want - HIT[name])
    print(f"== {name[len(ROOT) + 1:]}: {len(missed)} of {len(want)} never ran")
    src = text.splitlines()
    for l in missed:
      print(f"   {l}: {src[l - 1][:90]}")


if __name__ == "__main__":
  main()
