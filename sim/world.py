"""One simulated process of C08: answers requests, prints the answers.

Reads {"world": ..., "requests": [...]} from stdin. The parent chooses the hash
seed of the interpreter, the order and history of the requests, the clock, the
state of the global random generators and the execution mode.
"""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# pylint: disable=wrong-import-position
import random

import env  # pylint: disable=unused-import
import numpy as np

import sched_sim
from props import c08


def main():
  body = json.load(sys.stdin)
  world, requests = body["world"], body["requests"]
  random.seed(world["random"])
  np.random.seed(world["random"])
  answers = {}
  clock = sched_sim.VirtualClock(
      [float(x) for x in world["clock"]], base=float(world["base"])
  )
  fired = []
  services = {}
  with clock:
    for index, fault in world["order"]:
      request = requests[index]
      fn = lambda: c08.answer(request, world, services)  # pylint: disable=cell-var-from-loop
      if fault is not None:
        result = sched_sim.call(fn, fault=fault[0], at=fault[1])
        if result.fired is not None:
          fired.append(fault[0])
        continue
      text = fn()
      answers.setdefault(str(index), []).append(text)
      np.random.rand(world["random"] % 3)
  json.dump({"answers": answers, "fired": fired, "time": clock.now}, sys.stdout)


if __name__ == "__main__":
  main()
