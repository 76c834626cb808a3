"""Entry point: python run.py --property C04 [--tier quick|thorough]
                 python run.py --replay FILE
"""

import argparse
import os
import sys

# Everything must be a function of the seed: fix the hash seed by re-executing.
if os.environ.get("PYTHONHASHSEED") != os.environ.get("SIM_HASHSEED", "0"):
  new_env = dict(os.environ)
  new_env["PYTHONHASHSEED"] = os.environ.get("SIM_HASHSEED", "0")
  new_env["PYTHONDONTWRITEBYTECODE"] = "1"
  new_env["OMP_NUM_THREADS"] = "1"
  new_env["OPENBLAS_NUM_THREADS"] = "1"
  os.execve(sys.executable, [sys.executable] + sys.argv, new_env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# pylint: disable=wrong-import-position
import json
import shutil
import signal
import tempfile

import env as sim_env
import core


def do_replay(path):
  with open(path) as f:
    body = json.load(f)
  module = core.load(body["property"])
  core.limit_memory()
  signal.signal(signal.SIGALRM, core._on_alarm)
  signal.alarm(core.CASE_WALL_LIMIT)
  try:
    for earlier in body.get("history", ()):
      core.execute(module, earlier)
    violation, ctx = core.execute(module, body["case"], verbose=True)
  except core._Hang:
    violation = core.Violation("no-progress", "run did not finish")
    ctx = core.Ctx()
    ctx.events = []
  signal.alarm(0)
  print(f"replay {path}")
  for line in ctx.events:
    print("  event", line[:500])
  if violation is None:
    print("replay: the property held")
    return 0
  print(f"class: {violation.klass}")
  print(f"message: {violation.message}")
  if getattr(violation, "tb", ""):
    print(violation.tb)
  print(f"VIOLATION property={body['property']} replay={path}")
  sys.stdout.flush()
  os._exit(1)


def main():
  parser = argparse.ArgumentParser()
  parser.add_argument("--property")
  parser.add_argument("--tier", default=None)
  parser.add_argument("--seed", type=int, default=None)
  parser.add_argument("--count", type=int, default=None)
  parser.add_argument("--workers", type=int, default=None)
  parser.add_argument("--replay")
  parser.add_argument("--digests")
  args = parser.parse_args()
  if args.replay:
    return do_replay(args.replay)
  tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
  seed = args.seed
  if seed is None:
    seed = int(os.environ.get("VERIF_SEED", "1"))
  prop = args.property
  workers = args.workers or min(8, os.cpu_count() or 1)
  print(f"property={prop} tier={tier} seed={seed} workers={workers}")
  sys.stdout.flush()
  started = sim_env.real_perf_counter()
  module = core.load(prop)
  count = args.count or module.COUNT[tier]
  scratch = tempfile.mkdtemp(prefix="simrun-")
  try:
    result = core.run_batch(
        prop, seed, tier, count, workers, scratch, digests=bool(args.digests)
    )
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
  if args.digests:
    with open(args.digests, "w") as f:
      json.dump(result["digests"], f, indent=0, sort_keys=True)
  wall = sim_env.real_perf_counter() - started
  known = [k for k in core.load_known() if k["property"] == prop]
  violations = 0
  exit_code = 0
  reported = None
  seen_known = set()
  for index, case, klass, message, tb in result["failures"]:
    match = None
    for k in known:
      if module.matches_known(k, case, klass, message):
        match = k
        break
    if match is not None:
      seen_known.add(match["id"])
      continue
    violations += 1
    if reported is None:
      reported = (index, case, klass, message, tb)
  for k in known:
    # A listed finding is reported on every run of the unchanged tree.
    print(f"KNOWN-FINDING: property={prop} {k['what']}")
  if reported is not None:
    index, case, klass, message, tb = reported
    print(f"seed={seed} case={index}: [{klass}] {message}")
    if tb:
      print(tb)
    sys.stdout.flush()
    small, small_message = case, message

    def earlier(k):
      """The last k cases that the worker ran before this one."""
      indices = list(range(index % workers, index, workers))[-k:]
      return [
          json.loads(json.dumps(
              module.gen(core.case_rng(prop, seed, i), tier, i), sort_keys=True
          ))
          for i in indices
      ]

    history = []
    if klass not in ("no-progress", "process-died"):
      history = core.find_history(module, case, klass, earlier)
      if history:
        print(f"the failure needs {len(history)} earlier runs in its process")
      history = history or []
      small, small_message, tried = core.minimise(module, case, klass, history)
      small_message = small_message or message
      print(f"minimised with {tried} candidate runs: {small_message}")
    path = core.write_replay(
        prop, seed, index, klass, small_message, small, case, history
    )
    try:
      code, out = core.replay_in_fresh_process(path)
      same = code == 1 and f"class: {klass}" in out
    except Exception as e:  # pylint: disable=broad-except
      same = False
      print("replay failed:", e)
    if not same:
      # Fall back to the full case, which is what actually failed.
      path = core.write_replay(
          prop, seed, index, klass, message, case, case, history
      )
      print("minimised case did not replay; reporting the original case")
    print(f"replayed in a fresh process: {'same violation' if same else 'n/a'}")
    print(f"VIOLATION property={prop} replay={path}")
    exit_code = 1
  runs = result["runs"]
  evidence = {
      "property": prop,
      "tier": tier,
      "seed": seed,
      "level": module.LEVEL,
      "coverage": {
          "evaluations": runs,
          "stopped_early_by_wall_limit": runs < count and not violations,
          "distinct_nontrivial": len(set(result["nontrivial"])),
          "rule": module.RULE,
          "samples": result["samples"][:2],
          "simulated_runs_per_hour_one_seed_each": round(
              runs / max(wall, 1e-9) * 3600
          ),
          "simulated_seconds": round(result["sim_time"], 3),
          "faults_fired": dict(sorted(result["faults"].items())),
          "faults_armed": dict(sorted(result["armed"].items())),
          "operations": dict(sorted(result["ops"].items())),
          "probes": dict(sorted(result["probes"].items())),
          "scheduler_steps": result["steps"],
          "thread_switches": result["switches"],
          "distinct_interleavings_or_states": len(result["marks"]),
          "distinct_measure": module.MEASURE,
          "components_real": module.REAL,
          "components_stub": module.STUB,
      },
      "assumptions": module.ASSUMPTIONS,
      "wall_s": round(wall, 2),
      "violations": violations,
  }
  os.makedirs(os.path.join(sim_env.VERIF, "evidence"), exist_ok=True)
  with open(
      os.path.join(sim_env.VERIF, "evidence", f"{prop}.json"), "w"
  ) as f:
    json.dump(evidence, f, indent=1, sort_keys=True)
    f.write("\n")
  print(
      f"{runs} simulated runs, {evidence['coverage']['distinct_nontrivial']}"
      f" distinct non-trivial, {len(result['marks'])} distinct states,"
      f" faults fired {dict(result['faults'])}, {wall:.1f}s"
  )
  sys.stdout.flush()
  # Parked daemon threads must not keep the process alive.
  os._exit(exit_code)


if __name__ == "__main__":
  try:
    code = main()
  except core.HarnessError as e:
    print(f"HARNESS-ERROR {e}")
    sys.stdout.flush()
    os._exit(2)
  sys.exit(code)
