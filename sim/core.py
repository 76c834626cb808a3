"""Runs, shards, minimises, replays and reports simulated executions."""

import collections
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import traceback

import env as sim_env

BATCH_WALL_LIMIT = {"quick": 480, "thorough": 6 * 3600}  # seconds per worker
CASE_WALL_LIMIT = 150  # seconds; a run takes well under five
MEMORY_LIMIT = 3 << 30  # bytes of address space per worker; a run needs ~1%


class Violation(Exception):
  """The property does not hold on this execution."""

  def __init__(self, klass, message):
    super().__init__(f"[{klass}] {message}")
    self.klass = klass
    self.message = message


class HarnessError(Exception):
  """The machinery itself failed; says nothing about the property."""


class Ctx:
  """What one simulated run recorded."""

  def __init__(self):
    self.faults = collections.Counter()  # fault kinds that actually fired
    self.armed = collections.Counter()
    self.probes = collections.Counter()  # rare conditions reached
    self.ops = collections.Counter()
    self.sim_time = 0.0
    self.steps = 0
    self.switches = 0
    self.digest = hashlib.sha256()
    self.marks = set()  # distinct interleavings / states reached, hashed
    self.nontrivial = False
    self.events = None  # list when verbose

  def log(self, *items):
    """Appends to the event log (never draws randomness, never reads clocks)."""
    text = repr(items)
    self.digest.update(text.encode())
    if self.events is not None:
      self.events.append(text)

  def mark(self, *items):
    self.marks.add(hashlib.sha256(repr(items).encode()).hexdigest()[:16])

  def check(self, condition, klass, message):
    if not condition:
      raise Violation(klass, message() if callable(message) else message)


def case_rng(prop, seed, index):
  return random.Random(f"r_u_sure/{prop}/{seed}/{index}")


def load(prop):
  return importlib.import_module(f"props.{prop.lower()}")


def _describe(exc):
  tb = traceback.extract_tb(exc.__traceback__)
  where = ""
  for frame in reversed(tb):
    where = f" at {os.path.basename(frame.filename)}:{frame.name}"
    break
  return f"{type(exc).__name__}: {str(exc)[:300]}{where}"


def _in_repo(exc):
  return any(
      f.filename.startswith(sim_env.PKG_PREFIX)
      for f in traceback.extract_tb(exc.__traceback__)
  )


def execute(module, case, verbose=False):
  """Runs one case. Returns (violation or None, ctx)."""
  ctx = Ctx()
  if verbose:
    ctx.events = []
  try:
    module.run(case, ctx)
  except Violation as v:
    ctx.log("VIOLATION", v.klass)
    return v, ctx
  except HarnessError:
    raise
  except (KeyboardInterrupt, OSError) as e:
    if _in_repo(e):
      return Violation("unexpected-exception", _describe(e)), ctx
    raise HarnessError(traceback.format_exc()) from e
  except Exception as e:  # pylint: disable=broad-except
    # Every operation whose failure is legitimate is wrapped by the property
    # module; anything else is repository code failing where it must succeed,
    # or handing back something an oracle cannot even read.
    klass = "unexpected-exception" if _in_repo(e) else "malformed-result"
    v = Violation(klass, _describe(e))
    v.tb = traceback.format_exc()
    return v, ctx
  finally:
    sim_env.active_clock = None
    sys.settrace(None)
  return None, ctx


class _Hang(BaseException):
  pass


def _on_alarm(signum, frame):
  del signum, frame
  raise _Hang()


def limit_memory():
  """Runaway allocations fail in this process instead of ending others."""
  _, hard = resource.getrlimit(resource.RLIMIT_AS)
  if hard == resource.RLIM_INFINITY or hard > MEMORY_LIMIT:
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, hard))


def blank():
  return {
      "faults": collections.Counter(),
      "armed": collections.Counter(),
      "probes": collections.Counter(),
      "ops": collections.Counter(),
      "sim_time": 0.0,
      "steps": 0,
      "switches": 0,
      "nontrivial": [],
      "marks": set(),
      "runs": 0,
      "digests": {},
      "failures": [],
      "samples": [],
      "error": None,
  }


def _shard_main(prop, seed, tier, indices, out_path, verbose_digest):
  """Child process: runs its share of the cases, writes a summary."""
  limit_memory()
  module = load(prop)
  total = blank()

  def dump():
    data = dict(total)
    for k in ("faults", "armed", "probes", "ops"):
      data[k] = dict(data[k])
    data["marks"] = sorted(total["marks"])
    with open(out_path, "w") as f:
      json.dump(data, f)

  signal.signal(signal.SIGALRM, _on_alarm)
  deadline = sim_env.real_perf_counter() + BATCH_WALL_LIMIT[tier]
  for index in indices:
    if sim_env.real_perf_counter() > deadline:
      break  # a slow machine: fewer runs, reported as such
    case = module.gen(case_rng(prop, seed, index), tier, index)
    # Round-trip through JSON so that a replayed file is the same case.
    text = json.dumps(case, sort_keys=True)
    case = json.loads(text)
    with open(out_path + ".current", "w") as f:
      json.dump([index, case], f)
    signal.alarm(getattr(module, "WALL_LIMIT", CASE_WALL_LIMIT))
    try:
      violation, ctx = execute(module, case)
    except _Hang:
      total["failures"].append(
          [index, case, "no-progress", "run did not finish", ""]
      )
      dump()
      os._exit(0)
    except HarnessError as e:
      total["error"] = f"case {index}: {e}"
      dump()
      os._exit(0)
    finally:
      signal.alarm(0)
    total["runs"] += 1
    for k in ("faults", "armed", "probes", "ops"):
      total[k].update(getattr(ctx, k))
    total["sim_time"] += ctx.sim_time
    total["steps"] += ctx.steps
    total["switches"] += ctx.switches
    total["marks"] |= ctx.marks
    if ctx.nontrivial:
      total["nontrivial"].append(
          hashlib.sha256(text.encode()).hexdigest()[:16]
      )
    if verbose_digest:
      total["digests"][str(index)] = ctx.digest.hexdigest()
    if len(total["samples"]) < 1 and ctx.nontrivial:
      total["samples"].append({"index": index, "case": case})
    if violation is not None:
      total["failures"].append([
          index,
          case,
          violation.klass,
          violation.message,
          getattr(violation, "tb", ""),
      ])
      if len(total["failures"]) >= 3:
        break
  dump()


def run_batch(prop, seed, tier, count, workers, scratch, digests=False,
              start=0):
  """Runs cases start..start+count-1; result is independent of `workers`."""
  load(prop)  # import once, then fork
  pids = []
  paths = []
  for w in range(workers):
    indices = list(range(start + w, start + count, workers))
    if not indices:
      continue
    path = os.path.join(scratch, f"shard-{prop}-{start}-{w}.json")
    paths.append(path)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
      code = 3
      try:
        _shard_main(prop, seed, tier, indices, path, digests)
        code = 0
      except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
      finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    pids.append(pid)
  bad = []
  for pid in pids:
    _, status = os.waitpid(pid, 0)
    if status != 0:
      bad.append(status)
  merged = None
  failures = []
  for path in paths:
    if not os.path.exists(path):
      if not os.path.exists(path + ".current"):
        raise HarnessError(f"a worker died (status {bad})")
      with open(path + ".current") as f:
        index, case = json.load(f)
      failures.append([
          index, case, "process-died",
          f"the process died in this run (status {bad})", "",
      ])
      continue
    with open(path) as f:
      data = json.load(f)
    if data["error"]:
      raise HarnessError(data["error"])
    for k in ("faults", "armed", "probes", "ops"):
      data[k] = collections.Counter(data[k])
    data["marks"] = set(data["marks"])
    failures.extend(data["failures"])
    if merged is None:
      merged = data
    else:
      for k in ("faults", "armed", "probes", "ops"):
        merged[k].update(data[k])
      for k in ("sim_time", "steps", "switches", "runs"):
        merged[k] += data[k]
      merged["nontrivial"] += data["nontrivial"]
      merged["marks"] |= data["marks"]
      merged["digests"].update(data["digests"])
      merged["samples"] += data["samples"]
  if bad and not failures:
    raise HarnessError(f"a worker died (status {bad})")
  if merged is None:
    merged = blank()
  merged["failures"] = sorted(failures, key=lambda f: f[0])
  merged["samples"].sort(key=lambda s: s["index"])
  return merged


# --------------------------------------------------------------------------
# Minimisation
# --------------------------------------------------------------------------


def generic_shrinks(value, protected=()):
  """Yields smaller variants of a JSON value (drop list items, shrink leaves)."""
  if isinstance(value, dict):
    for key in sorted(value):
      if key in protected or key.startswith("_"):
        continue
      for small in generic_shrinks(value[key], protected):
        yield {**value, key: small}
  elif isinstance(value, list):
    n = len(value)
    size = n
    while size >= 1:
      for start in range(0, n, size):
        if start + size <= n or start < n:
          yield value[:start] + value[start + size :]
      size //= 2
    for i, item in enumerate(value):
      for small in generic_shrinks(item, protected):
        yield value[:i] + [small] + value[i + 1 :]
  elif isinstance(value, bool):
    if value:
      yield False
  elif isinstance(value, int):
    for small in (0, 1, value // 2, value - 1):
      if 0 <= small < value:
        yield small
  elif isinstance(value, float):
    for small in (0.0, 1.0, float(int(value)), round(value, 2)):
      if abs(small) < abs(value) or (small != value and small == round(value, 2)):
        yield small
  elif isinstance(value, str):
    n = len(value)
    size = n
    while size >= 1:
      for start in range(0, n, size):
        yield value[:start] + value[start + size :]
      size //= 2


def run_forked(module, case, history=(), limit=30):
  """Runs `history` and then `case` in a fresh child of this (clean) process.

  Returns (class, message) of the violation of `case`, or None.
  """
  sys.stdout.flush()
  sys.stderr.flush()
  read_fd, write_fd = os.pipe()
  pid = os.fork()
  if pid == 0:
    os.close(read_fd)
    answer = None
    try:
      signal.signal(signal.SIGALRM, _on_alarm)
      signal.alarm(limit)
      limit_memory()
      try:
        valid = getattr(module, "valid", lambda c: True)
        if valid(case):
          for earlier in history:
            execute(module, earlier)
          violation, _ = execute(module, case)
          if violation is not None:
            answer = [violation.klass, violation.message]
      except _Hang:
        answer = ["no-progress", "run did not finish"]
      except Exception:  # pylint: disable=broad-except
        answer = None
      signal.alarm(0)
      with os.fdopen(write_fd, "w") as f:
        json.dump(answer, f)
    finally:
      os._exit(0)
  os.close(write_fd)
  with os.fdopen(read_fd) as f:
    text = f.read()
  os.waitpid(pid, 0)
  try:
    answer = json.loads(text) if text else None
  except ValueError:
    answer = None
  return tuple(answer) if answer else None


def _ddmin(items, fails, deadline):
  """Drops as many items as possible while `fails(items)` stays true."""
  size = max(1, len(items) // 2)
  while items and sim_env.real_perf_counter() < deadline:
    dropped = False
    for start in range(0, len(items), size):
      smaller = items[:start] + items[start + size :]
      if sim_env.real_perf_counter() > deadline:
        break
      if fails(smaller):
        items = smaller
        dropped = True
        break
    if not dropped:
      if size == 1:
        break
      size //= 2
  return items


def find_history(module, case, klass, earlier, wall=60.0):
  """The earlier cases of the worker that the failure needs ([]: none).

  `earlier(k)` gives the last k cases the worker ran before this one. Returns
  None if the failure cannot be reproduced at all.
  """
  def fails(history):
    got = run_forked(module, case, history, limit=120)
    return got is not None and got[0] == klass

  if fails([]):
    return []
  deadline = sim_env.real_perf_counter() + wall
  k = 1
  while True:
    history = earlier(k)
    if fails(history):
      return _ddmin(history, fails, deadline)
    if len(history) < k or sim_env.real_perf_counter() > deadline:
      return None
    k *= 4


def minimise(module, case, klass, history=(), wall=60.0):
  """Greedy shrinking while the same violation class persists.

  Every candidate runs in its own child, so that nothing one candidate leaves
  behind in the process helps the next.
  """
  shrinks = getattr(module, "shrinks", None) or (
      lambda c: generic_shrinks(c, getattr(module, "PROTECTED", ()))
  )
  deadline = sim_env.real_perf_counter() + wall
  tried = 0
  improved = True
  best = case
  message = None
  ok = getattr(module, "valid", lambda c: True)
  while improved and sim_env.real_perf_counter() < deadline:
    improved = False
    # The biggest cut first; ties in generation order.
    texts = {json.dumps(c, sort_keys=True): None for c in shrinks(best)}
    for text in sorted(texts, key=len):
      if sim_env.real_perf_counter() > deadline:
        break
      candidate = json.loads(text)
      if candidate == best:
        continue
      try:
        if not ok(candidate):
          continue
      except Exception:  # pylint: disable=broad-except
        continue
      tried += 1
      got = run_forked(module, candidate, history, limit=20)
      if got is not None and got[0] == klass:
        best = candidate
        message = got[1]
        improved = True
        break
  return best, message, tried


# --------------------------------------------------------------------------
# Reporting
# --------------------------------------------------------------------------


def replay_dir():
  path = os.path.join(sim_env.VERIF, "evidence", "replays")
  os.makedirs(path, exist_ok=True)
  return path


def write_replay(prop, seed, index, klass, message, case, original, history=()):
  body = {
      "property": prop,
      "seed": seed,
      "index": index,
      "class": klass,
      "message": message,
      "case": case,
      "history": list(history),
      "original_case": original,
  }
  name = hashlib.sha256(
      json.dumps([case, list(history)], sort_keys=True).encode()
  ).hexdigest()[:12]
  path = os.path.join(replay_dir(), f"{prop}-{name}.json")
  with open(path, "w") as f:
    json.dump(body, f, indent=1, sort_keys=True)
  return path


def replay_in_fresh_process(path):
  """Replays a file in a new interpreter; returns (exit code, stdout)."""
  proc = subprocess.run(
      [sys.executable, os.path.join(sim_env.HERE, "run.py"), "--replay", path],
      capture_output=True,
      text=True,
      timeout=300,
      check=False,
  )
  return proc.returncode, proc.stdout


def load_known():
  path = os.path.join(sim_env.VERIF, "known_findings.json")
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return json.load(f)["known"]
