"""hunt.py PROP[:COUNT] ... : first violation of any property (no minimising).

Used by mutate.py on a mutated copy (VERIF_REPO). Prints one line and exits 1 at
the first violation, 0 if there is none.
"""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
  os.environ.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
  os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(HERE, "sim"))
# pylint: disable=wrong-import-position
import json
import signal
import env  # pylint: disable=unused-import
import core


def main():
  signal.signal(signal.SIGALRM, core._on_alarm)
  core.limit_memory()
  for arg in sys.argv[1:]:
    prop, _, count = arg.partition(":")
    try:
      module = core.load(prop)
    except Exception as e:  # pylint: disable=broad-except
      print(f"{prop} import failed: {e!r}")
      return 1
    for index in range(int(count or module.COUNT["quick"])):
      case = json.loads(json.dumps(
          module.gen(core.case_rng(prop, 1, index), "quick", index),
          sort_keys=True))
      signal.alarm(60)
      try:
        violation, _ = core.execute(module, case)
      except core._Hang:
        violation = core.Violation("no-progress", "hang")
      except core.HarnessError as e:
        print(f"{prop} case {index}: HARNESS {str(e)[-300:]}")
        return 2
      signal.alarm(0)
      if violation is not None:
        print(f"{prop} case {index}: {violation.klass}: {violation.message[:150]!r}")
        return 1
  print("survived")
  return 0


if __name__ == "__main__":
  code = main()
  sys.stdout.flush()
  os._exit(code)
